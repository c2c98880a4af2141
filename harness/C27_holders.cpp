// runtime: conc
// C27: optional, validated, heap and copiable pointer values hold exactly what was put in.
#include "tracked.h"

#include <daw/daw_optional.h>
#include <daw/daw_validated.h>
#include <daw/deprecated/daw_copiable_unique_ptr.h>
#include <daw/deprecated/daw_heap_value.h>
#include <daw/deprecated/daw_optional_poly.h>
#include <memory>
#include <string>

namespace sim {
	HarnessInfo const harness = {
	  "C27",
	  "A seeded run makes, copies, moves, assigns (also from themselves and from what they hold), emplaces, swaps, resets, reads and compares daw::optional of values and references, validated values, heap values, optional_polys and copiable_unique_ptrs of several element types, with failing allocation and throwing copies, moves, comparisons and validators at any point, and compares with a model. A run is non-trivial if a fault fired.",
	  "daw_optional.h, daw_validated.h, deprecated/daw_heap_value.h, deprecated/daw_optional_poly.h, deprecated/daw_copiable_unique_ptr.h",
	  "operator new, element operations, validators",
	  1000000, 20000000, true };
}
namespace {
	constexpr int ANY = -1000000;
	struct Model {
		bool has = false;
		int v = 0; // ANY: moved from
	};
	// six comparisons of a and b, given the three way result of the models
	template<typename A, typename B>
	void compare( A const &a, B const &b, int expect, char const *what ) {
		bool r[6];
		if( trk::faulted( [&] {
			    r[0] = a == b;
			    r[1] = a != b;
			    r[2] = a < b;
			    r[3] = a <= b;
			    r[4] = a > b;
			    r[5] = a >= b;
		    } ) )
			return;
		bool const e[6] = { expect == 0, expect != 0, expect < 0, expect <= 0, expect > 0, expect >= 0 };
		static char const *const op[6] = { "==", "!=", "<", "<=", ">", ">=" };
		for( int i = 0; i < 6; ++i )
			SIM_CHECK( r[i] == e[i], "wrong-comparison", "%s %s is %d where the order is %d", what, op[i], r[i], expect );
	}
	int cmp( int a, int b ) { return a < b ? -1 : a > b; }
	int cmp( Model const &a, Model const &b ) { return a.has and b.has ? cmp( a.v, b.v ) : cmp( a.has, b.has ); }

	// ---- daw::optional of values
	template<typename T>
	void look( daw::optional<T> &o, Model &m, bool failed, char const *after ) {
		sim::Disarmed d;
		auto const &c = o;
		if( ( failed or m.v == ANY ) and m.has and not c.has_value( ) )
			m = Model{ };
		SIM_CHECK( c.has_value( ) == m.has and static_cast<bool>( c ) == m.has and ( c == daw::nullopt ) == not m.has and ( daw::nullopt != c ) == m.has, "wrong-state", "after %s an optional says has_value=%d", after, c.has_value( ) );
		bool threw = false;
		try {
			int const x = sim::choose( 2 ) ? c.value( ).val( ) : o.value( ).val( );
			if( m.v == ANY )
				m.v = x;
			SIM_CHECK( x == m.v, "wrong-value", "after %s an optional holds %d instead of %d", after, x, m.v );
			SIM_CHECK( ( *c ).val( ) == x and ( *o ).val( ) == x and c->val( ) == x and o->val( ) == x and &*o == &*c and o.operator->( ) == &*o, "wrong-value", "after %s two ways of reading an optional differ", after );
		} catch( std::bad_optional_access const & ) { threw = true; }
		SIM_CHECK( threw == not m.has, "wrong-state", "value( ) of an optional %s", threw ? "with a value threw" : "without a value did not throw" );
	}
	template<typename T>
	void optionals( ) {
		trk::World world;
		int64_t const base = sim::live_allocs( );
		{
			sim::Disarmed d0;
			using O = daw::optional<T>;
			constexpr bool copyable = std::is_copy_constructible_v<T>;
			O o[2];
			Model m[2];
			int next = 1;
			for( int ops = 4 + (int)sim::choose( 20 ), i = 0; i < ops; ++i ) {
				uint32_t const x = sim::choose( 2 ), y = sim::choose( 2 );
				char const *what = "";
				bool failed = false;
				switch( sim::choose( 11 ) ) {
				case 0: {
					what = "assigning a value";
					T t( next );
					if constexpr( copyable ) {
						if( sim::choose( 2 ) ) {
							failed = trk::faulted( [&] { o[x] = std::as_const( t ); } );
							if( not failed )
								m[x] = { true, next };
							++next;
							break;
						}
					}
					failed = trk::faulted( [&] { o[x] = std::move( t ); } );
					if( not failed )
						m[x] = { true, next };
					++next;
					break;
				}
				case 1:
					what = "emplace";
					if( trk::faulted( [&] {
						    auto &e = o[x].emplace( next );
						    SIM_CHECK( &e == &*o[x], "wrong-value", "emplace returned something else" );
					    } ) )
						m[x] = { };
					else
						m[x] = { true, next };
					++next;
					break;
				case 2:
					what = "reset";
					if( sim::choose( 2 ) )
						o[x].reset( );
					else
						o[x] = daw::nullopt;
					m[x] = { };
					break;
				case 3:
					if constexpr( copyable ) {
						what = "copy assignment";
						failed = trk::faulted( [&] { o[x] = std::as_const( o[y] ); } );
						if( not failed )
							m[x] = m[y];
					}
					break;
				case 4:
					what = "move assignment";
					if( x == y )
						break;
					failed = trk::faulted( [&] { o[x] = std::move( o[y] ); } );
					if( not failed ) {
						m[x] = m[y];
						m[y].v = ANY;
					}
					break;
				case 5: {
					what = "swap";
					if( trk::faulted( [&] { o[x].swap( o[y] ); } ) ) {
						// any of the moves may have been done
						sim::Disarmed d;
						o[x].reset( );
						o[y].reset( );
						m[x] = m[y] = { };
					} else
						std::swap( m[x], m[y] );
					break;
				}
				case 6:
					if constexpr( copyable ) {
						what = "copying";
						trk::faulted( [&] {
							O n = std::as_const( o[x] );
							Model k = m[x];
							look( n, k, false, "copying" );
						} );
					}
					break;
				case 7: {
					what = "making";
					T t( next );
					trk::faulted( [&] {
						O n( std::move( t ) );
						Model k{ true, next };
						look( n, k, false, "making" );
					} );
					++next;
					break;
				}
				case 8:
					what = "a change";
					if( m[x].has and not trk::faulted( [&] { *o[x] = T( next ); } ) )
						m[x].v = next;
					++next;
					break;
				case 9:
					what = "taking the value out";
					if( m[x].has ) {
						failed = trk::faulted( [&] {
							T t = sim::choose( 2 ) ? *std::move( o[x] ) : std::move( o[x] ).value( );
							SIM_CHECK( t.val( ) == m[x].v, "wrong-value", "the value taken out is %d instead of %d", t.val( ), m[x].v );
						} );
						if( not failed )
							m[x].v = ANY;
					}
					break;
				default:
					what = "comparison";
					compare( o[x], o[y], cmp( m[x], m[y] ), "optional with optional" );
					compare( o[x], daw::nullopt, m[x].has, "optional with nullopt" );
					compare( daw::nullopt, o[x], -m[x].has, "nullopt with optional" );
					T const t( (int)sim::choose( 24 ) );
					compare( o[x], t, m[x].has ? cmp( m[x].v, t.val( ) ) : -1, "optional with value" );
					compare( t, o[x], m[x].has ? cmp( t.val( ), m[x].v ) : 1, "value with optional" );
				}
				look( o[x], m[x], failed, what );
				look( o[y], m[y], failed, what );
			}
		}
		world.end( );
		SIM_CHECK( sim::live_allocs( ) == base, "leak", "an optional left memory behind" );
	}
	void references( ) {
		trk::World world;
		{
			sim::Disarmed d0;
			using T = trk::Copy;
			T things[3] = { T( 0 ), T( 1 ), T( 2 ) };
			daw::optional<T &> o[2];
			daw::optional<T const &> c;
			int at[2] = { -1, -1 }, cat = -1;
			for( int ops = 4 + (int)sim::choose( 16 ), i = 0; i < ops; ++i ) {
				uint32_t const x = sim::choose( 2 );
				int const k = (int)sim::choose( 3 );
				switch( sim::choose( 7 ) ) {
				case 0:
				case 1:
					o[x] = daw::optional<T &>( things[k] );
					at[x] = k;
					break;
				case 2:
					c = daw::optional<T const &>( things[k] );
					cat = k;
					break;
				case 3:
					o[x].swap( o[1 - x] );
					std::swap( at[0], at[1] );
					break;
				case 4:
					o[x] = o[1 - x];
					at[x] = at[1 - x];
					break;
				case 5:
					if( sim::choose( 2 ) )
						o[x].reset( );
					else
						o[x] = daw::nullopt;
					at[x] = -1;
					break;
				default:
					if( at[x] >= 0 )
						trk::faulted( [&] { *o[x] = T( (int)sim::choose( 9 ) ); } );
					Model a{ at[0] >= 0, at[0] >= 0 ? things[at[0]].val( ) : 0 }, b{ at[1] >= 0, at[1] >= 0 ? things[at[1]].val( ) : 0 };
					compare( o[0], o[1], cmp( a, b ), "optional references" );
				}
				for( int j = 0; j < 2; ++j ) {
					auto const &q = o[j];
					SIM_CHECK( q.has_value( ) == ( at[j] >= 0 ) and static_cast<bool>( q ) == ( at[j] >= 0 ), "wrong-state", "an optional reference says has_value=%d", q.has_value( ) );
					bool threw = false;
					try {
						T *const p = &o[j].value( );
						T const *const r = &q.value( );
						SIM_CHECK( p == &things[at[j]] and r == p and &*o[j] == p and &*q == p and o[j].operator->( ) == p and q.operator->( ) == p, "wrong-object", "an optional reference leads to another object" );
					} catch( std::bad_optional_access const & ) { threw = true; }
					SIM_CHECK( threw == ( at[j] < 0 ), "wrong-state", "value( ) of an optional reference is wrong about being empty" );
				}
				SIM_CHECK( c.has_value( ) == ( cat >= 0 ) and ( cat < 0 or ( &*c == &things[cat] and c->val( ) == things[cat].val( ) ) ), "wrong-object", "an optional reference to const leads to another object" );
			}
		}
		world.end( );
	}

	// ---- validated
	template<typename T>
	struct Small {
		bool operator( )( T const &t ) const {
			sim::throw_point( trk::S_CALL );
			return t.val( ) < 50;
		}
	};
	template<typename T>
	void validateds( ) {
		trk::World world;
		{
			sim::Disarmed d0;
			using V = daw::validated<T, Small<T>>;
			constexpr bool copyable = std::is_copy_constructible_v<T>;
			V v( std::in_place, 1 );
			int now = 1;
			for( int ops = 4 + (int)sim::choose( 16 ), i = 0; i < ops; ++i ) {
				int const n = (int)sim::choose( 80 );
				bool refused = false, done = false;
				auto tried = [&]( auto f ) {
					bool const bad = trk::faulted( [&] {
						try {
							f( );
							done = true;
						} catch( std::out_of_range const & ) { refused = true; }
					} );
					if( not bad )
						SIM_CHECK( refused == ( n >= 50 ), "wrong-result", "a value of %d was %s", n, refused ? "refused" : "taken" );
				};
				switch( sim::choose( 5 ) ) {
				case 0: {
					T t( n );
					tried( [&] { v = std::move( t ); } );
					break;
				}
				case 1:
					if constexpr( copyable ) {
						T const t( n );
						tried( [&] { v = t; } );
					}
					break;
				case 2: {
					T t( n );
					tried( [&] {
						V w( std::move( t ) );
						sim::Disarmed d;
						SIM_CHECK( w.get( ).val( ) == n, "wrong-value", "a validated value is %d instead of %d", w.get( ).val( ), n );
					} );
					done = false;
					break;
				}
				case 3:
					tried( [&] {
						V w( std::in_place, n );
						sim::Disarmed d;
						SIM_CHECK( w.get( ).val( ) == n, "wrong-value", "a validated value is %d instead of %d", w.get( ).val( ), n );
						if( sim::choose( 2 ) ) {
							sim::Armed a;
							T t = std::move( w ).get( );
							SIM_CHECK( t.val( ) == n, "wrong-value", "a value taken out is %d instead of %d", t.val( ), n );
						} else
							v = std::move( w );
					} );
					if( done and v.get( ).val( ) != now )
						now = n;
					done = false;
					break;
				default:
					if constexpr( copyable ) {
						trk::faulted( [&] {
							V w = std::as_const( v );
							sim::Disarmed d;
							SIM_CHECK( w.get( ).val( ) == now, "wrong-value", "a copy is %d instead of %d", w.get( ).val( ), now );
						} );
					}
				}
				if( done )
					now = n;
				auto const &c = v;
				SIM_CHECK( c.get( ).val( ) == now and ( *c ).val( ) == now and c->val( ) == now and static_cast<T const &>( c ).val( ) == now and &c.get( ) == &*c, "wrong-value", "a validated value is %d instead of %d", c.get( ).val( ), now );
			}
		}
		world.end( );
	}

	// ---- heap_value
	template<typename T>
	struct Fn : T { // can be indexed and called
		using T::T;
		Fn( int v = 0 )
		  : T( v ) {}
		int operator[]( int i ) const { return this->val( ) + i; }
		int operator( )( int i ) const { return this->val( ) * i; }
		int operator( )( int i ) { return this->val( ) * i + 1; }
	};
	template<typename T0>
	void heap_values( ) {
		trk::World world;
		int64_t const base = sim::live_allocs( );
		{
			sim::Disarmed d0;
			using T = Fn<T0>;
			using H = daw::heap_value<T>;
			H h[2];
			Model m[2] = { { true, 0 }, { true, 0 } }; // has: not moved from
			int next = 1;
			for( int ops = 4 + (int)sim::choose( 20 ), i = 0; i < ops; ++i ) {
				uint32_t const x = sim::choose( 2 ), y = sim::choose( 2 );
				char const *what = "";
				bool failed = false;
				switch( sim::choose( 9 ) ) {
				case 0:
					what = "copy assignment";
					failed = trk::faulted( [&] {
						if( sim::choose( 2 ) )
							h[x] = std::as_const( h[y] );
						else
							h[x] = h[y];
					} );
					if( not failed )
						m[x] = m[y];
					break;
				case 1:
					what = "move assignment";
					if( x == y )
						break;
					h[x] = std::move( h[y] );
					m[x] = m[y];
					m[y] = { };
					break;
				case 2:
					what = "assigning a value";
					{
						T const t( next );
						failed = trk::faulted( [&] { h[x] = t; } );
					}
					if( not failed )
						m[x] = { true, next };
					++next;
					break;
				case 3:
					what = "swap";
					if( sim::choose( 2 ) )
						h[x].swap( h[y] );
					else
						swap( h[x], h[y] );
					std::swap( m[x], m[y] );
					break;
				case 4:
					what = "a change";
					if( m[x].has and not trk::faulted( [&] { h[x].get( ) = T( next ); } ) )
						m[x].v = next;
					++next;
					break;
				case 5:
					what = "copying";
					trk::faulted( [&] {
						H n = h[x];
						sim::Disarmed d;
						SIM_CHECK( ( n.ptr( ) != nullptr ) == m[x].has and ( not m[x].has or ( n->val( ) == m[x].v and n.ptr( ) != h[x].ptr( ) ) ), "wrong-value", "a copy of a heap value differs" );
						H const k = std::as_const( n );
						SIM_CHECK( ( k.ptr( ) != nullptr ) == m[x].has and ( not m[x].has or k->val( ) == m[x].v ), "wrong-value", "a copy of a heap value differs" );
					} );
					break;
				case 6:
					what = "making";
					trk::faulted( [&] {
						H n( next );
						SIM_CHECK( n->val( ) == next, "wrong-value", "a heap value made from %d holds %d", next, n->val( ) );
						SIM_CHECK( n[3] == next + 3 and n( 3 ) == next * 3 + 1 and std::as_const( n )( 3 ) == next * 3 and std::as_const( n )[4] == next + 4, "wrong-value", "indexing or calling a heap value gave something else" );
					} );
					++next;
					break;
				default:
					what = "comparison";
					if( m[x].has and m[y].has )
						compare( h[x], h[y], cmp( m[x], m[y] ), "heap values" );
				}
				for( int j = 0; j < 2; ++j ) {
					auto const &c = h[j];
					SIM_CHECK( ( c.ptr( ) != nullptr ) == m[j].has, "wrong-state", "after %s a heap value is %s", what, c.ptr( ) ? "there" : "missing" );
					if( m[j].has )
						SIM_CHECK( c->val( ) == m[j].v and ( *c ).val( ) == m[j].v and h[j].get( ).val( ) == m[j].v and &*h[j] == c.ptr( ), "wrong-value", "after %s a heap value is %d instead of %d", what, c->val( ), m[j].v );
				}
			}
		}
		world.end( );
		SIM_CHECK( sim::live_allocs( ) == base, "leak", "a heap value left memory behind" );
	}

	// ---- optional_poly
	struct Shape {
		trk::Copy e;
		Shape( int v )
		  : e( v ) {}
		virtual ~Shape( ) = default;
		Shape( Shape const & ) = default;
		Shape &operator=( Shape const & ) = default;
		virtual int kind( ) const { return 0; }
		friend auto operator<=>( Shape const &a, Shape const &b ) { return a.e <=> b.e; }
		friend bool operator==( Shape const &a, Shape const &b ) { return a.e == b.e; }
	};
	struct Round : Shape {
		trk::NxMove f;
		Round( int v )
		  : Shape( v )
		  , f( v + 1 ) {}
		int kind( ) const override { return f.val( ) - e.val( ); }
	};
	void polys( ) {
		trk::World world;
		int64_t const base = sim::live_allocs( );
		{
			sim::Disarmed d0;
			using O = daw::optional_poly<Shape>;
			O o[2];
			daw::optional_poly<Round> r;
			struct K {
				Model m;
				int kind = 0;
			} k[2], kr;
			kr.kind = 1;
			int next = 1;
			for( int ops = 4 + (int)sim::choose( 20 ), i = 0; i < ops; ++i ) {
				uint32_t const x = sim::choose( 2 ), y = sim::choose( 2 );
				char const *what = "";
				bool done = false;
				auto go = [&]( auto f ) { done = not trk::faulted( f ); };
				switch( sim::choose( 12 ) ) {
				case 0:
					what = "assigning an object";
					{
						Shape const s( next );
						go( [&] { o[x] = s; } );
					}
					if( done )
						k[x] = { { true, next }, 0 };
					++next;
					break;
				case 1:
					what = "assigning an object of a derived class";
					{
						Round const s( next );
						go( [&] { o[x] = s; } );
					}
					if( done )
						k[x] = { { true, next }, 1 };
					++next;
					break;
				case 2:
					what = "emplace";
					go( [&] { o[x].emplace( next ); } );
					if( done )
						k[x] = { { true, next }, 0 };
					++next;
					break;
				case 3:
					what = "emplace of a derived class";
					go( [&] { r.emplace( next ); } );
					if( done )
						kr.m = { true, next };
					++next;
					break;
				case 4:
					what = "copying from an optional_poly of a derived class";
					go( [&] { o[x] = std::as_const( r ); } );
					if( done )
						k[x] = { kr.m, kr.m.has };
					break;
				case 5:
					what = "moving from an optional_poly of a derived class";
					if( sim::choose( 2 ) )
						o[x] = std::move( r );
					else {
						O n( std::move( r ) );
						o[x] = std::move( n );
					}
					k[x] = { kr.m, kr.m.has };
					kr.m = { };
					break;
				case 6:
					what = "copy assignment";
					if( k[y].kind ) // copies what it says it holds, not what is derived from it
						break;
					go( [&] { o[x] = std::as_const( o[y] ); } );
					if( done )
						k[x] = k[y];
					break;
				case 7:
					what = "move assignment";
					if( x == y )
						break;
					o[x] = std::move( o[y] );
					k[x] = k[y];
					k[y] = { };
					break;
				case 8:
					what = "swap";
					if( sim::choose( 2 ) )
						o[x].swap( o[y] );
					else
						swap( o[x], o[y] );
					std::swap( k[x], k[y] );
					break;
				case 9:
					what = "reset";
					o[x].reset( );
					k[x] = { };
					break;
				case 10:
					what = "making";
					go( [&] {
						O n{ Round( next ) };
						SIM_CHECK( n->kind( ) == 1 and n.get( ).e.val( ) == next, "wrong-value", "an optional_poly made from an object holds something else" );
						auto n2 = daw::make_optional_poly<Round>( next );
						SIM_CHECK( n2 and n2->f.val( ) == next + 1, "wrong-value", "make_optional_poly made something else" );
						O const n3( std::as_const( n2 ) );
						SIM_CHECK( n3 and ( *n3 ).kind( ) == 1, "wrong-value", "a copy from an optional_poly of a derived class is something else" );
					} );
					++next;
					break;
				default:
					what = "comparison";
					compare( o[x], o[y], cmp( k[x].m, k[y].m ), "optional_polys" );
				}
				for( int j = 0; j < 2; ++j ) {
					auto const &c = o[j];
					SIM_CHECK( c.has_value( ) == k[j].m.has and c.empty( ) == not k[j].m.has and static_cast<bool>( c ) == k[j].m.has, "wrong-state", "after %s an optional_poly says has_value=%d", what, c.has_value( ) );
					if( k[j].m.has )
						SIM_CHECK( c->kind( ) == k[j].kind and ( *c ).e.val( ) == k[j].m.v and &*o[j] == &c.get( ) and &o[j].get( ) == o[j].operator->( ), "wrong-value", "after %s an optional_poly holds kind %d with %d instead of kind %d with %d", what, c->kind( ), c->e.val( ), k[j].kind, k[j].m.v );
				}
				SIM_CHECK( r.has_value( ) == kr.m.has and ( not kr.m.has or ( r->e.val( ) == kr.m.v and r->kind( ) == 1 ) ), "wrong-value", "after %s an optional_poly of the derived class changed", what );
			}
		}
		world.end( );
		SIM_CHECK( sim::live_allocs( ) == base, "leak", "an optional_poly left memory behind" );
	}

	// ---- copiable_unique_ptr
	int deleted;
	template<typename T>
	struct Del {
		void operator( )( T *p ) const {
			++deleted;
			delete p;
		}
	};
	template<typename T>
	void pointers( ) {
		trk::World world;
		int64_t const base = sim::live_allocs( );
		deleted = 0;
		int made = 0;
		{
			sim::Disarmed d0;
			using P = daw::copiable_unique_ptr<T, Del<T>>;
			P p[2];
			Model m[2];
			int next = 1;
			for( int ops = 4 + (int)sim::choose( 20 ), i = 0; i < ops; ++i ) {
				uint32_t const x = sim::choose( 2 ), y = sim::choose( 2 );
				char const *what = "";
				switch( sim::choose( 9 ) ) {
				case 0: {
					what = "move assignment from a new one";
					P n( new T( next ) );
					++made;
					p[x] = std::move( n );
					m[x] = { true, next++ };
					break;
				}
				case 1: {
					what = "copy assignment";
					bool const fresh = not m[x].has and m[y].has;
					if( not trk::faulted( [&] { p[x] = std::as_const( p[y] ); } ) ) {
						m[x] = m[y];
						made += fresh;
					}
					break;
				}
				case 2:
					what = "move assignment";
					p[x] = std::move( p[y] );
					if( x != y ) {
						m[x] = m[y];
						m[y].v = ANY; // empty, or what the other one held
						p[y].reset( );
						m[y] = { };
					}
					break;
				case 3:
					what = "copying";
					trk::faulted( [&] {
						P n = std::as_const( p[x] );
						sim::Disarmed d;
						made += m[x].has;
						SIM_CHECK( static_cast<bool>( n ) == m[x].has and ( not n or ( n->val( ) == m[x].v and n.get( ) != p[x].get( ) ) ), "wrong-value", "a copy differs" );
					} );
					break;
				case 4:
					what = "swap";
					if( x == y )
						break;
					if( sim::choose( 2 ) )
						p[x].swap( p[y] );
					else
						swap( p[x], p[y] );
					std::swap( m[x], m[y] );
					break;
				case 5: {
					what = "release";
					T *const t = p[x].release( );
					SIM_CHECK( ( t != nullptr ) == m[x].has and ( not t or t->val( ) == m[x].v ), "wrong-value", "release gave something else" );
					made -= m[x].has;
					delete t;
					m[x] = { };
					break;
				}
				case 6:
					what = "reset";
					p[x].reset( );
					m[x] = { };
					break;
				case 7:
					what = "making";
					trk::faulted( [&] {
						auto n = daw::make_copiable_unique_ptr<T>( next );
						SIM_CHECK( n and n->val( ) == next, "wrong-value", "make_copiable_unique_ptr made something else" );
						if( sim::choose( 2 ) ) {
							auto n2 = n;
							SIM_CHECK( n2->val( ) == next, "wrong-value", "a copy differs" );
						}
					} );
					break;
				default: {
					what = "comparison";
					auto const &a = std::as_const( p[x] ), &b = std::as_const( p[y] );
					compare( a, b, std::less<T const *>{ }( a.get( ), b.get( ) ) ? -1 : a.get( ) != b.get( ), "pointers" );
					compare( a, nullptr, m[x].has, "pointer with nullptr" );
					compare( nullptr, a, -m[x].has, "nullptr with pointer" );
					SIM_CHECK( std::hash<P>{ }( a ) == std::hash<T const *>{ }( a.get( ) ), "wrong-hash", "the hash differs from that of the pointer" );
				}
				}
				int there = 0;
				for( int j = 0; j < 2; ++j ) {
					auto const &c = p[j];
					there += m[j].has;
					SIM_CHECK( static_cast<bool>( c ) == m[j].has and ( c.get( ) != nullptr ) == m[j].has, "wrong-state", "after %s a pointer says %d", what, static_cast<bool>( c ) );
					if( m[j].has )
						SIM_CHECK( c->val( ) == m[j].v and ( *c ).val( ) == m[j].v and p[j].get( ) == c.get( ), "wrong-value", "after %s a pointer leads to %d instead of %d", what, c->val( ), m[j].v );
				}
				SIM_CHECK( made == deleted + there, "wrong-deletes", "after %s the deleter was called %d times instead of %d", what, deleted, made - there );
			}
		}
		world.end( );
		SIM_CHECK( made == deleted, "wrong-deletes", "the deleter was called %d times for %d objects", deleted, made );
		SIM_CHECK( sim::live_allocs( ) == base, "leak", "a copiable_unique_ptr left memory behind" );
	}
} // namespace
SIM_SCENARIO( optionals, 3 ) {
	trk::standard_faults( );
	switch( sim::choose( 5 ) ) {
	case 0: return optionals<trk::Copy>( );
	case 1: return optionals<trk::NxMove>( );
	case 2: return optionals<trk::CopyOnly>( );
	case 3: return optionals<trk::MoveOnlyThrow>( );
	default: return references( );
	}
}
SIM_SCENARIO( validateds, 1 ) {
	trk::standard_faults( );
	switch( sim::choose( 3 ) ) {
	case 0: return validateds<trk::Copy>( );
	case 1: return validateds<trk::MoveOnlyThrow>( );
	default: return validateds<trk::NxMove>( );
	}
}
SIM_SCENARIO( heaps, 3 ) {
	trk::standard_faults( );
	switch( sim::choose( 6 ) ) {
	case 0: return heap_values<trk::Copy>( );
	case 1: return heap_values<trk::CopyOnly>( );
	case 2: return polys( );
	case 3: return pointers<trk::Copy>( );
	case 4: return pointers<trk::Calm>( );
	default: return pointers<trk::CopyOnly>( );
	}
}
