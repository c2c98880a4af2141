// runtime: conc
// C22: daw::function owns the callable it was given, in place.
#include "tracked.h"

#include <daw/daw_stack_function.h>
#include <functional>
#include <memory>
#include <string>

namespace sim {
	HarnessInfo const harness = {
	  "C22",
	  "A seeded run gives callables of eleven kinds (throwing or not, copyable, only movable, only copyable, function pointers, std::function, possibly empty, owning another function) to several in-place functions of two sizes, copies, moves, assigns, empties and calls them, with failing allocation and throwing copies, moves and calls at any point, and compares every call with a model. A run is non-trivial if a fault fired.",
	  "daw_stack_function.h",
	  "operator new, callables",
	  300000, 9000000, true };
}
namespace {
	using Sig = int( int, std::string, std::unique_ptr<int>, int & );
	using F = daw::function<192, Sig>;
	using G = daw::function<64, Sig>;
	int run( int v, int a, std::string const &s, std::unique_ptr<int> const &p, int &out ) {
		sim::throw_point( 9 );
		out = a + (int)s.size( ) + ( p ? *p : 1000 );
		return v * 2;
	}
	template<typename E>
	struct Small {
		E e;
		int operator( )( int a, std::string s, std::unique_ptr<int> p, int &out ) const { return run( e.val( ), a, s, p, out ); }
	};
	template<typename E>
	struct Call {
		E e;
		std::string s;
		explicit Call( int v )
		  : e( v )
		  , s( (size_t)v, 's' ) {}
		int operator( )( int a, std::string const &t, std::unique_ptr<int> p, int &out ) const {
			SIM_CHECK( (int)s.size( ) == e.val( ), "damaged-callable", "the parts of a callable disagree" );
			return run( e.val( ), a, t, p, out );
		}
		bool empty( ) const { return e.val( ) == 7; } // a callable that says it is empty
	};
	struct Nest { // owns a function
		std::shared_ptr<F> f;
		int operator( )( int a, std::string s, std::unique_ptr<int> p, int &out ) const { return ( *f )( a, std::move( s ), std::move( p ), out ); }
	};
	template<typename E>
	struct Counter { // changed by calls, unless it is const
		E e;
		int operator( )( int a, std::string s, std::unique_ptr<int> p, int &out ) {
			e.set( e.val( ) + 1 );
			return run( e.val( ), a, s, p, out );
		}
		int operator( )( int a, std::string s, std::unique_ptr<int> p, int &out ) const { return run( e.val( ), a, s, p, out ); }
	};
	template<int N>
	int plain( int a, std::string s, std::unique_ptr<int> p, int &out ) { return run( N, a, s, p, out ); }
	enum St { EMPTY, FN, GONE };
	struct Model {
		St st = EMPTY;
		int v = 0;
		bool copy = true; // the callable can be copied
		bool counts = false; // a call changes it
	};
	template<typename Fn>
	void same( Fn &f, Model &m, char const *after ) {
		if( m.st == GONE )
			return;
		auto const &c = f;
		SIM_CHECK( f.empty( ) == ( m.st == EMPTY ) and static_cast<bool>( c ) == ( m.st == FN ), "wrong-state", "after %s a function says empty=%d", after, f.empty( ) );
		int out = 0, r = -1;
		try {
			if( sim::choose( 2 ) ) {
				m.v += m.counts;
				r = f( 100, std::string( 20, 'a' ), std::make_unique<int>( 3 ), out );
			} else
				r = c( 100, std::string( 20, 'a' ), std::make_unique<int>( 3 ), out );
		} catch( std::bad_function_call const & ) { r = -2; }
		if( m.st == EMPTY )
			SIM_CHECK( r == -2 and out == 0, "empty-called", "calling an empty function gave %d", r );
		else
			SIM_CHECK( r == m.v * 2 and out == 123, "wrong-call", "after %s a function gave %d instead of %d (argument check %d)", after, r, m.v * 2, out );
	}
	template<typename Fn>
	void settle( Fn &f, Model &m, bool failed, Model const &next, char const *name ) {
		if( not failed ) {
			m = next;
			return;
		}
		sim::probe( "failed-operation" );
		if( m.st == GONE ) {
			f = Fn( );
			m = Model{ };
		} else if( f.empty( ) ) // what it held, or nothing
			m = Model{ };
		else
			SIM_CHECK( m.st == FN, "wrong-state", "a failed %s left something in an empty function", name );
	}
	// give a new callable to the function; by copy, move or construction
	template<typename Fn, typename C, typename... A>
	bool give( Fn &f, A &&...a ) {
		unsigned const form = sim::choose( 4 );
		return trk::faulted( [&] {
			C c{ (A &&)a... };
			switch( form ) {
			case 0: f = std::move( c ); break;
			case 1:
				if constexpr( std::is_copy_constructible_v<C> )
					f = c;
				else
					f = std::move( c );
				break;
			case 2:
				if constexpr( std::is_copy_constructible_v<C> )
					f = std::as_const( c );
				else
					f = std::move( c );
				break;
			default: {
				Fn t( std::move( c ) );
				f = std::move( t );
			}
			}
		} );
	}
	void history( ) {
		trk::World w;
		int64_t const base = sim::live_allocs( );
		trk::standard_faults( );
		{
			F f[3];
			Model m[3];
			G g[2];
			Model gm[2];
			for( int step = 0, n = 2 + (int)sim::choose( 10 ); step < n; ++step ) {
				int const i = (int)sim::choose( 3 ), j = (int)sim::choose( 3 ), k = (int)sim::choose( 2 );
				int const v = 1 + (int)sim::choose( 30 );
				Model next = m[i], gnext = gm[k];
				bool failed = false, gfailed = false;
				char const *name = "?";
				switch( sim::choose( 13 ) ) {
				case 0:
				case 1: {
					name = "giving a callable";
					St const st = v == 7 ? EMPTY : FN; // empty callables make empty functions
					next = { st, st == EMPTY ? 0 : v, true };
					switch( sim::choose( 9 ) ) {
					case 0: failed = give<F, Call<trk::Copy>>( f[i], v ); break;
					case 1: failed = give<F, Call<trk::NxMove>>( f[i], v ); break;
					case 2: failed = give<F, Call<trk::CopyOnly>>( f[i], v ); break;
					case 3: failed = give<F, Call<trk::Safe>>( f[i], v ); break;
					case 4:
						failed = give<F, Call<trk::MoveOnly>>( f[i], v );
						next.copy = st == EMPTY;
						break;
					case 5:
						failed = give<F, Call<trk::MoveOnlyThrow>>( f[i], v );
						next.copy = st == EMPTY;
						break;
					case 6:
						failed = give<F, Counter<trk::Copy>>( f[i], v );
						next = { FN, v, true, true };
						break;
					case 7:
						failed = give<F, Counter<trk::NxMove>>( f[i], v );
						next = { FN, v, true, true };
						break;
					default:
						failed = give<F, Small<trk::Copy>>( f[i], v );
						next = { FN, v, true };
					}
					break;
				}
				case 2: {
					name = "giving a function pointer";
					int ( *p )( int, std::string, std::unique_ptr<int>, int & ) = v % 3 == 0 ? nullptr : v % 3 == 1 ? &plain<1> : &plain<2>;
					failed = trk::faulted( [&] {
						if( v % 3 == 1 and v % 2 )
							f[i] = plain<1>;
						else
							f[i] = p;
					} );
					next = { p ? FN : EMPTY, p ? v % 3 : 0, true };
					break;
				}
				case 3: {
					name = "giving a std::function";
					bool const empty = sim::choose( 2 );
					failed = trk::faulted( [&] {
						std::function<Sig> const s = empty ? std::function<Sig>( ) : std::function<Sig>( Call<trk::Copy>( v ) );
						f[i] = s;
					} );
					next = { empty ? EMPTY : FN, empty ? 0 : v, true };
					break;
				}
				case 4:
					name = "emptying";
					failed = trk::faulted( [&] {
						if( sim::choose( 2 ) )
							f[i] = F( );
						else
							f[i] = F( nullptr );
					} );
					next = Model{ };
					break;
				case 5:
				case 6: { // copies
					name = "copying";
					if( m[j].st == GONE )
						continue;
					bool const assign = sim::choose( 2 );
					bool refused = false;
					next = m[j];
					failed = trk::faulted( [&] {
						try {
							if( assign )
								f[i] = std::as_const( f[j] );
							else {
								F t( std::as_const( f[j] ) );
								{
									sim::Disarmed d;
									Model tm = m[j];
									same( t, tm, "copy construction" );
									next = tm;
								}
								f[i] = std::move( t );
							}
						} catch( std::bad_function_call const & ) { refused = true; }
					} );
					if( i != j or not assign )
						SIM_CHECK( failed or refused == not m[j].copy, "wrong-copy", refused ? "a callable that can be copied was not" : "a callable that can only be moved was copied" );
					if( refused )
						failed = true;
					break;
				}
				case 7:
				case 8: { // moves
					name = "moving";
					if( m[j].st == GONE )
						continue;
					bool const assign = sim::choose( 2 );
					next = m[j];
					failed = trk::faulted( [&] {
						if( assign )
							f[i] = std::move( f[j] );
						else {
							F t( std::move( f[j] ) );
							f[i] = std::move( t );
						}
					} );
					if( not assign or i != j )
						m[j].st = GONE;
					break;
				}
				case 9: { // another size
					name = "copying from a smaller function";
					if( gm[k].st == GONE )
						continue;
					unsigned const form = sim::choose( 4 );
					failed = trk::faulted( [&] {
						switch( form ) {
						case 0: f[i] = std::as_const( g[k] ); break;
						case 1: {
							F t( std::as_const( g[k] ) );
							f[i] = std::move( t );
							break;
						}
						case 2: f[i] = g[k]; break;
						default: f[i] = std::move( g[k] );
						}
					} );
					next = gm[k];
					if( form == 3 )
						gm[k].st = GONE;
					gnext = gm[k];
					break;
				}
				case 10: {
					name = "giving a callable to a small function";
					unsigned const gform = sim::choose( 4 );
					switch( gform ) {
					case 0: gfailed = give<G, Small<trk::Copy>>( g[k], v ); break;
					case 1: gfailed = give<G, Small<trk::NxMove>>( g[k], v ); break;
					case 2: gfailed = give<G, Small<trk::CopyOnly>>( g[k], v ); break;
					default: gfailed = give<G, Counter<trk::Copy>>( g[k], v );
					}
					gnext = { FN, v, true, gform == 3 };
					break;
				}
				case 11: { // replaced by a function that is part of what it holds
					name = "assigning a function held by the callable";
					unsigned const form = sim::choose( 3 );
					failed = trk::faulted( [&] {
						auto in = std::make_shared<F>( Call<trk::Copy>( v == 7 ? 8 : v ) );
						F *const raw = in.get( );
						f[i] = Nest{ std::move( in ) };
						{
							sim::Disarmed d;
							m[i] = { FN, v == 7 ? 8 : v, true };
							same( f[i], m[i], "nesting" );
						}
						if( form == 0 )
							f[i] = std::as_const( *raw );
						else if( form == 1 )
							f[i] = std::move( *raw );
					} );
					next = { FN, v == 7 ? 8 : v, true };
					if( failed and form == 1 and m[i].st == FN and not f[i].empty( ) ) {
						// the function inside may have been moved from
						f[i] = F( );
						m[i] = Model{ };
						failed = false;
						next = Model{ };
					}
					break;
				}
				default: { // a call that fails
					name = "a failing call";
					if( m[i].st != FN )
						continue;
					int out = 0, r = -1;
					bool const fault = trk::faulted( [&] { r = std::as_const( f[i] )( 1, "abcd", nullptr, out ); } );
					if( not fault )
						SIM_CHECK( r == m[i].v * 2 and out == 1005, "wrong-call", "a function gave %d instead of %d (argument check %d)", r, m[i].v * 2, out );
				}
				}
				settle( f[i], m[i], failed, next, name );
				settle( g[k], gm[k], gfailed, gnext, name );
				for( int x = 0; x < 3; ++x )
					same( f[x], m[x], name );
				for( int x = 0; x < 2; ++x )
					same( g[x], gm[x], name );
				sim::state( (uint64_t)m[0].st * 64 + (uint64_t)m[1].st * 8 + (uint64_t)m[2].st + ( failed ? 512 : 0 ) );
			}
			sim::log( "%d %d %d", m[0].v, m[1].v, m[2].v );
		}
		w.end( "callable" );
		SIM_CHECK( sim::live_allocs( ) == base, "leaked-memory", "%ld allocations are left", (long)( sim::live_allocs( ) - base ) );
	}
}
SIM_SCENARIO( functions, 8 ) { history( ); }

namespace {
	// results that are nothing, a reference or only movable, and what arguments go through
	struct Sink {
		trk::Copy e;
		void operator( )( int &out, trk::Passed a, trk::Passed &&b ) const {
			SIM_CHECK( a.copies == 0 and b.copies == 0 and a.v == 5 and b.v == 6, "copied-argument", "the arguments %d and %d were copied %d and %d times", a.v, b.v, a.copies, b.copies );
			sim::throw_point( 11 );
			out += e.val( );
		}
	};
	struct Where {
		trk::Copy e;
		std::shared_ptr<int> at;
		int &operator( )( trk::Passed const &a ) const {
			SIM_CHECK( a.copies == 0, "copied-argument", "a referenced argument was copied %d times", a.copies );
			sim::throw_point( 11 );
			*at = e.val( );
			return *at;
		}
	};
	struct Make {
		trk::Copy e;
		std::unique_ptr<int> operator( )( std::unique_ptr<int> p ) const {
			sim::throw_point( 11 );
			*p += e.val( );
			return p;
		}
	};
	void plain_void( int &out, trk::Passed, trk::Passed && ) { out += 1000; }
}
SIM_SCENARIO( results, 1 ) {
	trk::World w;
	trk::standard_faults( );
	{
		int const v = 1 + (int)sim::choose( 30 );
		bool const empty = sim::chance( 1, 5 ), through_const = sim::chance( 1, 2 );
		int out = 0;
		bool refused = false;
		switch( sim::choose( 3 ) ) {
		case 0: {
			using V = daw::function<64, void( int &, trk::Passed, trk::Passed && )>;
			V f;
			bool const fn = sim::chance( 1, 4 );
			if( trk::faulted( [&] {
				    if( fn )
					    f = empty ? (void ( * )( int &, trk::Passed, trk::Passed && ))nullptr : &plain_void;
				    else if( not empty )
					    f = Sink{ trk::Copy( v ) };
			    } ) )
				break;
			V const g = [&] { sim::Disarmed d; return f; }( );
			bool const failed = trk::faulted( [&] {
				try {
					if( through_const )
						g( out, trk::Passed( 5 ), trk::Passed( 6 ) );
					else
						f( out, trk::Passed( 5 ), trk::Passed( 6 ) );
				} catch( std::bad_function_call const & ) { refused = true; }
			} );
			if( not failed )
				SIM_CHECK( refused == empty and out == ( empty ? 0 : fn ? 1000 : v ), "wrong-call", "a call without a result left %d instead of %d", out, v );
			break;
		}
		case 1: {
			using V = daw::function<64, int &( trk::Passed const & )>;
			V f;
			auto const at = std::make_shared<int>( 0 );
			if( trk::faulted( [&] {
				    if( not empty )
					    f = Where{ trk::Copy( v ), at };
			    } ) )
				break;
			trk::Passed const a( 5 );
			int *r = nullptr;
			bool const failed = trk::faulted( [&] {
				try {
					r = through_const ? &std::as_const( f )( a ) : &f( a );
				} catch( std::bad_function_call const & ) { refused = true; }
			} );
			if( not failed )
				SIM_CHECK( refused == empty and ( empty or ( r == at.get( ) and *at == v ) ), "wrong-call", "a call gave a reference to something else" );
			break;
		}
		default: {
			using V = daw::function<64, std::unique_ptr<int>( std::unique_ptr<int> )>;
			V f;
			if( trk::faulted( [&] {
				    if( not empty )
					    f = Make{ trk::Copy( v ) };
			    } ) )
				break;
			std::unique_ptr<int> r;
			bool const failed = trk::faulted( [&] {
				try {
					auto p = std::make_unique<int>( 7 );
					r = through_const ? std::as_const( f )( std::move( p ) ) : f( std::move( p ) );
				} catch( std::bad_function_call const & ) { refused = true; }
			} );
			if( not failed )
				SIM_CHECK( refused == empty and ( empty or ( r and *r == v + 7 ) ), "wrong-call", "a call gave another result" );
		}
		}
	}
	w.end( "callable" );
}
