// runtime: conc
// C20: expected_t holds the value or the exception of the code it ran.
#include "stops.h"
#include "tracked.h"

#include <daw/daw_expected.h>
#include <stdexcept>
#include <string>
#include <system_error>
#include <vector>

namespace sim {
	HarnessInfo const harness = {
	  "C20",
	  "A seeded run applies random operations (running code that returns or throws, setting and clearing values and exceptions, copying, moving, swapping, reading) to three results of one of seven value types, with failing allocation and throwing copies, moves and user code at any point, and compares what they hold with a model. A run is non-trivial if a fault fired.",
	  "daw_expected.h, std::variant, std::exception_ptr",
	  "operator new, element operations, user code",
	  1200000, 15000000, true };
}
namespace {
	using Obj = trk::Elem<trk::COPY | trk::MOVE | trk::NX_MOVE | trk::NX_COPY>;
	// what user code throws
	struct Oops {
		int id;
		Obj o;
		explicit Oops( int i )
		  : id( i )
		  , o( i ) {}
	};
	struct OopsMsg : std::runtime_error {
		int id;
		explicit OopsMsg( int i )
		  : std::runtime_error( "oops " + std::to_string( i ) + " and a text that is too long for the short string" )
		  , id( i ) {}
	};
	struct OopsSys : std::system_error {
		int id;
		explicit OopsSys( int i )
		  : std::system_error( std::make_error_code( std::errc::not_a_directory ), "sys " + std::to_string( i ) )
		  , id( i ) {}
	};
	// move assignment cannot fail, the rest can
	struct Odd : trk::Elem<trk::COPY | trk::MOVE> {
		using B = trk::Elem<trk::COPY | trk::MOVE>;
		using B::B;
		Odd( Odd const & ) = default;
		Odd( Odd && ) = default;
		Odd &operator=( Odd const & ) = default;
		Odd &operator=( Odd &&o ) noexcept {
			o.check( "move" );
			if( this != &o ) {
				set( o.v );
				o.set( trk::MOVED );
			}
			return *this;
		}
	};
	int value( int x ) { return x; }
	int value( std::string const &x ) { return (int)x.size( ); }
	template<unsigned F>
	int value( trk::Elem<F> const &x ) { return x.val( ); }
	template<typename T>
	T fresh( int v ) {
		if constexpr( std::is_same_v<T, std::string> )
			return std::string( (size_t)v, 'x' );
		else
			return T( v );
	}
	enum St { EMPTY, VALUE, EXC, GONE }; // GONE: moved from, only good for being replaced
	struct Model {
		St st = EMPTY;
		int v = 0;
		int kind = 0; // of exception: 0 Oops, 1 OopsMsg, 2 OopsSys, 3 int
		bool operator==( Model const & ) const = default;
	};
	[[noreturn]] void toss( int kind, int id ) {
		switch( kind ) {
		case 0: throw Oops( id );
		case 1: throw OopsMsg( id );
		case 2: throw OopsSys( id );
		default: throw id;
		}
	}
	std::exception_ptr made( int kind, int id ) {
		switch( kind ) {
		case 0: return std::make_exception_ptr( Oops( id ) );
		case 1: return std::make_exception_ptr( OopsMsg( id ) );
		case 2: return std::make_exception_ptr( OopsSys( id ) );
		default: return std::make_exception_ptr( id );
		}
	}
	// which exception does F throw: kind * 1000 + id, or -1; -2 if a fault was injected
	template<typename F>
	int what( F f ) {
		try {
			f( );
		} catch( Oops const &o ) {
			SIM_CHECK( o.o.val( ) == o.id, "wrong-exception", "the exception object is damaged" );
			return o.id;
		} catch( OopsMsg const &o ) { return 1000 + o.id; } catch( OopsSys const &o ) {
			return 2000 + o.id;
		} catch( int i ) { return 3000 + i; } catch( sim::Injected const & ) {
			return -2;
		} catch( std::bad_alloc const & ) { return -2; }
		return -1;
	}
	std::string message( Model const &m ) {
		switch( m.kind ) {
		case 1: return OopsMsg( m.v ).what( );
		case 2: {
			OopsSys s( m.v );
			return s.code( ).message( ) + ": " + s.what( );
		}
		default: return "";
		}
	}
	template<typename E>
	Model look( E const &e ) {
		Model m;
		int const n = e.has_value( ) + e.has_exception( ) + e.empty( );
		SIM_CHECK( n == 1, "no-state", "a result says value=%d exception=%d empty=%d", e.has_value( ), e.has_exception( ), e.empty( ) );
		SIM_CHECK( static_cast<bool>( e ) == not e.empty( ), "no-state", "the boolean test disagrees with empty" );
		m.st = e.has_value( ) ? VALUE : e.has_exception( ) ? EXC : EMPTY;
		return m;
	}
	template<typename T>
	void same( daw::expected_t<T> &e, Model const &m, char const *after ) {
		if( m.st == GONE )
			return;
		Model const g = look( e );
		SIM_CHECK( g.st == m.st, "wrong-state", "after %s a result holds %s instead of %s", after, g.st == VALUE ? "a value" : g.st == EXC ? "an exception" : "nothing", m.st == VALUE ? "a value" : m.st == EXC ? "an exception" : "nothing" );
		if( m.st == VALUE ) {
			if constexpr( std::is_void_v<T> ) {
				e.get( );
			} else {
				auto const &c = e;
				SIM_CHECK( value( e.get( ) ) == m.v and value( *c ) == m.v and e.operator->( ) == &c.get( ), "wrong-value", "after %s a result holds value %d instead of %d", after, value( c.get( ) ), m.v );
			}
			e.throw_if_exception( );
		} else if( m.st == EXC ) {
			int const id = m.kind * 1000 + m.v;
			SIM_CHECK( what( [&] { (void)e.get( ); } ) == id and what( [&] { e.throw_if_exception( ); } ) == id, "wrong-exception", "after %s another exception is rethrown", after );
			SIM_CHECK( what( [&] { std::rethrow_exception( e.get_exception_ptr( ) ); } ) == id, "wrong-exception", "after %s another exception is held", after );
		}
	}
	// code to run: returns v or throws
	template<typename T>
	struct Code {
		int v;
		int kind; // -1: returns
		int *arg_seen;
		bool *injected;
		T operator( )( int const &a, std::string &b, Obj c ) const {
			*arg_seen = a + (int)b.size( ) + c.val( );
			b += '!';
			try {
				sim::throw_point( 7 );
			} catch( ... ) {
				*injected = true;
				throw;
			}
			if( kind >= 0 )
				toss( kind, v );
			if constexpr( not std::is_void_v<T> )
				return fresh<T>( v );
		}
		T operator( )( ) const {
			if( kind >= 0 )
				toss( kind, v );
			if constexpr( not std::is_void_v<T> )
				return fresh<T>( v );
		}
	};
	template<typename T>
	void history( ) {
		using E = daw::expected_t<T>;
		constexpr bool is_void = std::is_void_v<T>;
		constexpr bool copyable = std::is_copy_constructible_v<E>;
		trk::World w;
		int64_t const base = sim::live_allocs( );
		trk::standard_faults( );
		{
			E e[3];
			Model m[3];
			for( int step = 0, n = 2 + (int)sim::choose( 10 ); step < n; ++step ) {
				int const i = (int)sim::choose( 3 ), j = (int)sim::choose( 3 );
				int const v = 1 + (int)sim::choose( 40 );
				int const kind = (int)sim::choose( 4 );
				Model const old = m[i], oldj = m[j];
				Model const as_value{ VALUE, is_void ? 0 : v, 0 };
				Model const as_exc{ EXC, v, kind };
				char const *name = "?";
				bool whole = true; // a failure may leave nothing behind instead
				bool failed = false;
				bool captured_fault = false;
				switch( sim::choose( 12 ) ) {
				case 0:
				case 1: { // run code
					name = "running code";
					bool const throws = sim::choose( 2 ), args = sim::choose( 2 );
					int seen = -1;
					Code<T> const f{ v, throws ? kind : -1, &seen, &captured_fault };
					unsigned const form = sim::choose( 3 );
					sim::Armed a;
					std::string s = "abc";
					int const x = 4;
					auto run = [&]( ) -> E {
						if( form == 0 )
							return args ? E( f, x, s, Obj( 5 ) ) : E( f );
						if( form == 1 )
							return args ? E::from_code( f, x, s, Obj( 5 ) ) : E::from_code( f );
						if( args )
							return daw::expected_from_code<T>( f, x, s, Obj( 5 ) );
						return daw::expected_from_code( f );
					};
					// a failing copy of the argument comes before the code runs
					bool fault = false;
					auto const r = [&] {
						try {
							E const t = run( );
							Model g = look( t );
							if( g.st == EXC ) {
								int const id = what( [&] { t.throw_if_exception( ); } );
								if( id == -2 )
									fault = true;
								else
									g = Model{ EXC, id % 1000, id / 1000 };
							} else if constexpr( not is_void ) {
								if( g.st == VALUE )
									g.v = value( t.get( ) );
							}
							return g;
						} catch( ... ) {
							// only making the arguments may throw
							fault = true;
							return Model{ GONE };
						}
					}( );
					sim::Disarmed d;
					if( not fault ) {
						if( args )
							SIM_CHECK( seen == 12 and s == "abc!", "wrong-arguments", "the code saw other arguments" );
						SIM_CHECK( r == ( throws ? as_exc : as_value ), "wrong-result", "running code that %s %d gave a result that %s", throws ? "throws" : "returns", v, r.st == EXC ? "holds another exception" : r.st == VALUE ? "holds a value" : "holds nothing" );
					}
					continue;
				}
				case 2: {
					name = "replacing by the outcome of code";
					bool const throws = sim::choose( 2 );
					int seen;
					Code<T> const f{ v, throws ? kind : -1, &seen, &captured_fault };
					int got = -1;
					failed = trk::faulted( [&] {
						E t = E::from_code( f );
						if( t.has_exception( ) )
							got = what( [&] { t.throw_if_exception( ); } );
						e[i] = std::move( t );
					} );
					if( got == -2 and not failed ) {
						SIM_CHECK( e[i].has_exception( ), "wrong-state", "a captured failure was lost" );
						e[i].clear( );
						m[i] = Model{ };
					} else if( not failed )
						m[i] = throws ? as_exc : as_value;
					break;
				}
				case 3:
					name = "setting a value";
					if constexpr( is_void ) {
						if( v & 1 )
							e[i].set_value( );
						else
							e[i] = true;
					} else {
						failed = trk::faulted( [&] {
							T x = fresh<T>( v );
							switch( v % 4 ) {
							case 0: e[i].set_value( std::move( x ) ); break;
							case 1: e[i] = std::move( x ); break;
							default:
								if constexpr( copyable ) {
									if( v % 4 == 2 )
										e[i].set_value( x );
									else
										e[i] = x;
								} else
									e[i].set_value( std::move( x ) );
							}
						} );
					}
					if( not failed )
						m[i] = as_value;
					break;
				case 4:
					name = "setting an exception";
					failed = trk::faulted( [&] {
						switch( sim::choose( 5 ) ) {
						case 0: e[i].set_exception( made( kind, v ) ); break;
						case 1: e[i] = made( kind, v ); break;
						case 2:
							if( what( [&] {
								    try {
									    toss( kind, v );
								    } catch( sim::Injected const & ) { throw; } catch( std::bad_alloc const & ) {
									    throw;
								    } catch( ... ) { e[i].set_exception( ); }
							    } ) == -2 )
								throw sim::Injected{ 9 };
							break;
						case 3:
							if( what( [&] {
								    try {
									    toss( kind, v );
								    } catch( sim::Injected const & ) { throw; } catch( std::bad_alloc const & ) {
									    throw;
								    } catch( ... ) { e[i] = daw::expected_from_exception<T>( std::current_exception( ) ); }
							    } ) == -2 )
								throw sim::Injected{ 9 };
							break;
						default: {
							using tag = typename E::exception_tag;
							switch( kind ) {
							case 0: {
								Oops const o( v );
								e[i] = E( tag{ }, o );
								break;
							}
							case 1: e[i] = E( tag{ }, OopsMsg( v ) ); break;
							case 2: e[i] = E( tag{ }, OopsSys( v ) ); break;
							default: e[i] = E( tag{ }, v );
							}
						}
						}
					} );
					if( e[i].has_exception( ) and not failed ) {
						// no memory for the exception: another one took its place
						if( what( [&] { e[i].throw_if_exception( ); } ) == -2 ) {
							e[i].clear( );
							m[i] = Model{ };
							continue;
						}
					}
					if( not failed )
						m[i] = as_exc;
					break;
				case 5:
					name = "clearing";
					e[i].clear( );
					m[i] = Model{ };
					break;
				case 6:
					name = "copy assignment";
					if( oldj.st == GONE )
						continue;
					if constexpr( copyable ) {
						failed = trk::faulted( [&] { e[i] = e[j]; } );
						if( not failed )
							m[i] = oldj;
						same( e[j], failed and i == j ? m[j] = look( e[j] ).st == EMPTY ? Model{ } : oldj : oldj, "being copied" );
					}
					break;
				case 7:
					name = "move assignment";
					if( oldj.st == GONE or i == j )
						continue;
					failed = trk::faulted( [&] { e[i] = std::move( e[j] ); } );
					if( not failed )
						m[i] = oldj;
					m[j] = Model{ GONE };
					break;
				case 8:
					name = "construction from another";
					if( oldj.st == GONE )
						continue;
					if( v & 1 ) {
						if constexpr( copyable ) {
							Model g = oldj;
							(void)trk::faulted( [&] {
								E t( e[j] );
								sim::Disarmed d;
								same( t, g, "copy construction" );
								if constexpr( is_void or std::is_same_v<T, std::string> or std::is_same_v<T, int> )
									SIM_CHECK( t == e[j] and not( t != e[j] ), "wrong-comparison", "a copy differs from the original" );
							} );
							same( e[j], oldj, "being copied" );
						}
					} else {
						Model g = oldj;
						(void)trk::faulted( [&] {
							m[j] = Model{ GONE };
							E t( std::move( e[j] ) );
							sim::Disarmed d;
							same( t, g, "move construction" );
						} );
					}
					continue;
				case 9:
					name = "swap";
					if( m[i].st == GONE or m[j].st == GONE or i == j )
						continue;
					failed = trk::faulted( [&] { std::swap( e[i], e[j] ); } );
					if( failed ) {
						e[i].clear( );
						e[j].clear( );
						m[i] = m[j] = Model{ };
						failed = false;
					} else
						std::swap( m[i], m[j] );
					break;
				case 10: {
					name = "reading the message";
					if( m[i].st == GONE )
						continue;
					std::string got;
					failed = trk::faulted( [&] { got = e[i].get_exception_message( ); } );
					if( not failed ) {
						std::string want = m[i].st == EXC ? message( m[i] ) : "";
						if( is_void and m[i].st == EXC and m[i].kind == 2 )
							want = OopsSys( m[i].v ).what( );
						SIM_CHECK( got == want, "wrong-message", "the message is '%s' instead of '%s'", got.c_str( ), want.c_str( ) );
					}
					failed = false;
					break;
				}
				default:
					name = "taking the value";
					if constexpr( not is_void ) {
						if( m[i].st == VALUE ) {
							m[i] = Model{ GONE };
							int got = -1;
							if( not trk::faulted( [&] {
								    T t = std::move( e[i] ).get( );
								    sim::Disarmed d;
								    got = value( t );
							    } ) )
								SIM_CHECK( got == old.v, "wrong-value", "the value taken is %d instead of %d", got, old.v );
						} else if( m[i].st == EXC )
							SIM_CHECK( what( [&] { (void)std::move( e[i] ).get( ); } ) == m[i].kind * 1000 + m[i].v, "wrong-exception", "another exception is rethrown" );
					}
					break;
				}
				if( failed ) {
					sim::probe( "failed-operation" );
					// what it held or nothing
					Model const g = look( e[i] );
					if( old.st == GONE ) {
						e[i].clear( );
						m[i] = Model{ };
					} else if( g.st == EMPTY )
						m[i] = Model{ };
					else if( g.st == VALUE and old.st == VALUE ) {
						// element assignment that fails leaves an element of its own choice
						if constexpr( not is_void )
							m[i].v = value( e[i].get( ) );
					} else
						SIM_CHECK( g.st == old.st, "wrong-state", "a failed %s left something else behind", name );
				}
				for( int k = 0; k < 3; ++k )
					same( e[k], m[k], name );
				sim::state( (uint64_t)m[0].st * 64 + (uint64_t)m[1].st * 8 + (uint64_t)m[2].st + ( failed ? 512 : 0 ) );
			}
			sim::log( "%d%d%d", m[0].st, m[1].st, m[2].st );
		}
		w.end( "value or exception" );
		SIM_CHECK( sim::live_allocs( ) == base, "leaked-memory", "%ld allocations are left", (long)( sim::live_allocs( ) - base ) );
	}
}
SIM_SCENARIO( values, 4 ) {
	switch( sim::choose( 7 ) ) {
	case 0: history<trk::Copy>( ); break;
	case 1: history<trk::NxMove>( ); break;
	case 2: history<trk::MoveOnly>( ); break;
	case 3: history<trk::MoveOnlyThrow>( ); break;
	case 4: history<trk::CopyOnly>( ); break;
	case 5: history<int>( ); break;
	default: history<Odd>( );
	}
}
SIM_SCENARIO( strings, 1 ) { history<std::string>( ); }
SIM_SCENARIO( nothing, 1 ) { history<void>( ); }

namespace {
	// code that can only be called once, with arguments that count their copies
	struct Once {
		int v;
		bool throws;
		int operator( )( trk::Passed a, trk::Passed const &b ) && {
			SIM_CHECK( a.v == 5 and a.copies == 0 and b.v == 6 and b.copies == 0, "copied-argument", "the arguments %d and %d were copied %d and %d times", a.v, b.v, a.copies, b.copies );
			if( throws )
				throw v;
			return v;
		}
		int operator( )( trk::Passed, trk::Passed const & ) const & {
			SIM_CHECK( false, "copied-argument", "code that was given away is called as if it was kept" );
			return -1;
		}
	};
	struct Effect {
		int &out;
		int v;
		bool throws;
		void operator( )( trk::Passed a ) const {
			SIM_CHECK( a.v == 5 and a.copies == 0, "copied-argument", "the argument %d was copied %d times", a.v, a.copies );
			out += v;
			if( throws )
				throw v;
		}
	};
}
SIM_SCENARIO( arguments, 1 ) {
	int const v = (int)sim::choose( 100 );
	bool const throws = sim::chance( 1, 3 );
	unsigned const form = sim::choose( 3 );
	trk::Passed const b( 6 );
	if( sim::chance( 1, 2 ) ) {
		auto const r = [&] {
			if( form == 0 )
				return daw::expected_t<int>( Once{ v, throws }, trk::Passed( 5 ), b );
			if( form == 1 )
				return daw::expected_t<int>::from_code( Once{ v, throws }, trk::Passed( 5 ), b );
			return daw::expected_from_code<int>( Once{ v, throws }, trk::Passed( 5 ), b );
		}( );
		SIM_CHECK( r.has_value( ) == not throws and r.has_exception( ) == throws, "wrong-result", "the outcome of code that %s", throws ? "throws" : "returns" );
		if( not throws )
			SIM_CHECK( r.get( ) == v, "wrong-result", "%d instead of %d", r.get( ), v );
	} else {
		int out = 0;
		Effect const f{ out, v, throws };
		auto r = [&] {
			if( form == 0 )
				return daw::expected_t<void>( f, trk::Passed( 5 ) );
			if( form == 1 )
				return daw::expected_t<void>::from_code( f, trk::Passed( 5 ) );
			return daw::expected_from_code( f, trk::Passed( 5 ) );
		}( );
		SIM_CHECK( out == v, "wrong-result", "the code ran to %d instead of %d", out, v );
		SIM_CHECK( r.has_value( ) == not throws and r.has_exception( ) == throws, "wrong-result", "the outcome of code that %s", throws ? "throws" : "returns" );
		int got = -1;
		try {
			r.get( );
		} catch( int x ) { got = x; }
		SIM_CHECK( got == ( throws ? v : -1 ), "wrong-result", "%d came out", got );
		if( form == 1 )
			r.set_value( v );
		else if( form == 2 )
			r = true;
		else
			r.set_value( );
		SIM_CHECK( r.has_value( ) and not r.empty( ), "wrong-state", "it has no value after it was set" );
	}
	// nothing can be taken from one that is empty
	static daw::expected_t<int> e;
	static daw::expected_t<void> n;
	e.clear( );
	n.clear( );
	switch( form ) {
	case 0: SIM_CHECK( stops( [] { (void)e.get( ); } ), "empty", "a value was taken from an empty result" ); break;
	case 1: SIM_CHECK( stops( [] { (void)std::as_const( e ).get( ); } ), "empty", "a value was taken from an empty result" ); break;
	default: SIM_CHECK( stops( [] { n.get( ); } ), "empty", "an empty result was taken" );
	}
}
