// runtime: conc
// C32: fixed-capacity and array-backed containers hold exactly what their operations say, also on failure.
#include "tracked.h"

#include <algorithm>
#include <initializer_list>
#include <map>
#include <memory>
#include <stdexcept>
#include <vector>

#include <daw/daw_bounded_vector.h>
#include <daw/deprecated/daw_bounded_hash_map.h>
#include <daw/deprecated/daw_bounded_hash_set.h>
#include <daw/deprecated/daw_heap_array.h>
#include <daw/deprecated/daw_ordered_map.h>

namespace sim {
	HarnessInfo const harness = {
	  "C32",
	  "A seeded run applies up to 24 operations to two bounded vectors, heap arrays, bounded hash maps, bounded hash sets (with colliding hashes) or ordered maps, whose elements may throw when made, copied, moved, assigned or compared and whose allocations may fail, and compares content, order, size and every look-up with a model after each. After a throw the container must hold what the statement allows, and in the end no element or allocation may be left. A run is non-trivial if a fault fired.",
	  "daw_bounded_vector.h, daw_bounded_array.h, deprecated/daw_heap_array.h, deprecated/daw_bounded_hash_map.h, deprecated/daw_bounded_hash_set.h, deprecated/daw_ordered_map.h",
	  "operator new, element type, hash and comparison functions",
	  1200000, 25000000, true };
}
namespace {
	// trivially destructible, for the bounded vector
	struct Plain {
		int v = 0;
		Plain( ) = default;
		Plain( int x )
		  : v( x ) {
			sim::throw_point( trk::S_VALUE );
		}
		Plain( int a, int b, int c )
		  : Plain( a * 100 + b * 10 + c ) {}
		Plain( Plain const &o ) {
			sim::throw_point( trk::S_COPY );
			v = o.v;
		}
		Plain &operator=( Plain const &o ) {
			sim::throw_point( trk::S_CASSIGN );
			v = o.v;
			return *this;
		}
	};
	int val( Plain const &p ) { return p.v; }
	template<unsigned F>
	int val( trk::Elem<F> const &e ) { return e.val( ); }

	template<typename C>
	std::vector<int> content( C &c ) {
		std::vector<int> r;
		for( auto it = c.begin( ); it != c.end( ); ++it )
			r.push_back( val( *it ) );
		return r;
	}
	void same( std::vector<int> const &got, std::vector<int> const &want, char const *what ) {
		SIM_CHECK( got.size( ) == want.size( ), "wrong-size", "after %s there are %zu elements instead of %zu", what, got.size( ), want.size( ) );
		for( size_t i = 0; i < got.size( ); ++i )
			SIM_CHECK( got[i] == want[i], "wrong-element", "after %s element %zu is %d instead of %d", what, i, got[i], want[i] );
	}

	// ---- bounded vector -------------------------------------------------
	template<size_t N>
	struct BV {
		using V = daw::bounded_vector_t<Plain, N>;
		void check( V &v, std::vector<int> const &m, char const *what ) {
			V const &c = v;
			SIM_CHECK( v.size( ) == m.size( ) and v.empty( ) == m.empty( ) and v.full( ) == ( m.size( ) == N ) and v.available( ) == N - m.size( ), "wrong-size", "after %s a bounded vector has %zu elements instead of %zu", what, v.size( ), m.size( ) );
			same( content( v ), m, what );
			same( content( c ), m, what );
			std::vector<int> r;
			for( auto it = v.rbegin( ); it != v.rend( ); ++it )
				r.insert( r.begin( ), val( *it ) );
			same( r, m, what );
			r.clear( );
			for( auto it = c.crbegin( ); it != c.crend( ); ++it )
				r.insert( r.begin( ), val( *it ) );
			same( r, m, what );
			for( size_t n = 0; n <= N + 1; ++n )
				SIM_CHECK( v.has_room( n ) == ( m.size( ) + n <= N ), "wrong-answer", "has_room( %zu ) of %zu elements in %zu is %d", n, m.size( ), N, v.has_room( n ) );
			if( not m.empty( ) ) {
				size_t const i = sim::choose( (uint32_t)m.size( ) );
				SIM_CHECK( val( v[i] ) == m[i] and val( c[i] ) == m[i] and val( v.at( i ) ) == m[i] and val( c.at( i ) ) == m[i] and v.data( ) + i == &v[i] and c.data( ) + i == &c[i], "wrong-element", "after %s element %zu is another", what, i );
				SIM_CHECK( val( v.front( ) ) == m.front( ) and val( v.back( ) ) == m.back( ) and val( c.front( ) ) == m.front( ) and val( c.back( ) ) == m.back( ), "wrong-element", "after %s the first or last element is another", what );
			}
		}
		// after a throw: nothing new, nothing invented
		void after_throw( V &v, std::vector<int> &m, std::vector<int> const &also, bool grew, char const *what ) {
			auto const got = content( v );
			SIM_CHECK( got.size( ) <= N, "wrong-size", "after %s a bounded vector has %zu elements", what, got.size( ) );
			SIM_CHECK( grew or got.size( ) == m.size( ), "wrong-size", "after %s a bounded vector has %zu elements instead of %zu", what, got.size( ), m.size( ) );
			for( int x : got )
				SIM_CHECK( std::count( m.begin( ), m.end( ), x ) or std::count( also.begin( ), also.end( ), x ), "wrong-element", "after %s there is an element %d that was never put in", what, x );
			m = got;
		}
		void run( ) {
			sim::Disarmed d0;
			V v[2];
			std::vector<int> m[2];
			bool popped[2] = { }; // elements may have to be moved to the front of the storage
			int next = 1;
			for( int k = 0, ops = 2 + (int)sim::choose( 23 ); k < ops; ++k ) {
				int const i = (int)sim::choose( 2 );
				V &x = v[i];
				auto &w = m[i];
				size_t const room = N - w.size( );
				std::vector<int> const before = w;
				std::vector<int> also;
				Plain src[N];
				bool threw = false, may_grow = false;
				char const *what = "";
				switch( sim::choose( 18 ) ) {
				case 0:
				case 1:
					what = "push_back";
					if( room ) {
						Plain const p( next++ );
						also = { p.v };
						if( sim::choose( 2 ) )
							threw = trk::faulted( [&] { x.push_back( p ); } );
						else
							threw = trk::faulted( [&] { x.push_back( Plain( p ) ); } );
						if( not threw )
							w.push_back( p.v );
					}
					break;
				case 2:
					what = "push_back of one of its elements";
					if( room and not w.empty( ) ) {
						size_t const at = sim::choose( (uint32_t)w.size( ) );
						threw = trk::faulted( [&] {
							if( sim::choose( 2 ) )
								x.push_back( x[at] );
							else
								x.emplace_back( x[at] );
						} );
						if( not threw )
							w.push_back( before[at] );
					}
					break;
				case 3:
					what = "push_back( )";
					if( room ) {
						size_t pos = 99;
						threw = trk::faulted( [&] { pos = x.push_back( ); } );
						if( not threw ) {
							SIM_CHECK( pos == w.size( ), "wrong-position", "push_back( ) of an element behind %zu said it is at %zu", w.size( ), pos );
							x[pos] = Plain( next );
							w.push_back( next++ );
						}
					}
					break;
				case 4:
				case 5: {
					what = "push_back of several";
					size_t const n = sim::choose( (uint32_t)room + 1 );
					int ints[N + 1];
					for( size_t j = 0; j < n; ++j ) {
						also.push_back( next );
						ints[j] = next;
						src[j] = Plain( next++ );
					}
					threw = trk::faulted( [&] {
						if( sim::choose( 2 ) )
							x.push_back( src, n );
						else
							x.push_back( (int const *)ints, n );
					} );
					if( not threw )
						w.insert( w.end( ), also.begin( ), also.end( ) );
					break;
				}
				case 6:
					what = "emplace_back";
					if( room ) {
						int const a = next++;
						bool const three = sim::choose( 2 ) == 1;
						also = { three ? a * 100 + 12 : a };
						threw = trk::faulted( [&] {
							if( three )
								x.emplace_back( a, 1, 2 );
							else
								x.emplace_back( a );
						} );
						if( not threw )
							w.push_back( also[0] );
					}
					break;
				case 7:
					what = "pop_back";
					if( not w.empty( ) ) {
						int got = -1;
						threw = trk::faulted( [&] { got = val( x.pop_back( ) ); } );
						if( not threw ) {
							SIM_CHECK( got == w.back( ), "wrong-element", "pop_back gave %d instead of %d", got, w.back( ) );
							w.pop_back( );
						} else
							same( content( x ), w, "a pop_back that threw" );
					}
					break;
				case 8:
				case 9:
					what = "pop_front";
					if( not w.empty( ) ) {
						int got = -1;
						threw = trk::faulted( [&] { got = val( x.pop_front( ) ); } );
						if( not threw ) {
							SIM_CHECK( got == w.front( ), "wrong-element", "pop_front gave %d instead of %d", got, w.front( ) );
							w.erase( w.begin( ) );
							popped[i] = true;
						} else
							same( content( x ), w, "a pop_front that threw" );
					}
					break;
				case 10: {
					what = "pop_front of several";
					size_t const n = sim::choose( (uint32_t)N + 3 );
					bool refused = false;
					try {
						x.pop_front( n );
					} catch( std::out_of_range const & ) {
						refused = true;
					}
					SIM_CHECK( refused == ( n > w.size( ) ), "wrong-answer", "popping %zu of %zu elements was %srefused", n, w.size( ), refused ? "" : "not " );
					if( not refused ) {
						w.erase( w.begin( ), w.begin( ) + (ptrdiff_t)n );
						popped[i] = true;
					}
					break;
				}
				case 11: {
					what = "resize";
					size_t const n = sim::choose( (uint32_t)N + 3 );
					bool refused = false;
					also = { 0 };
					threw = trk::faulted( [&] {
						try {
							x.resize( n );
						} catch( std::out_of_range const & ) {
							refused = true;
						}
					} );
					if( not threw ) {
						SIM_CHECK( refused == ( n > N ), "wrong-answer", "a resize to %zu was %srefused", n, refused ? "" : "not " );
						if( not refused )
							w.resize( n, 0 );
					}
					break;
				}
				case 12:
					what = "erase";
					if( not w.empty( ) ) {
						size_t const a = sim::choose( (uint32_t)w.size( ) );
						ptrdiff_t got = -1;
						threw = trk::faulted( [&] { got = x.erase( x.cbegin( ) + (ptrdiff_t)a ) - x.begin( ); } );
						if( not threw ) {
							SIM_CHECK( got == (ptrdiff_t)a, "wrong-position", "erase of element %zu returned position %td", a, got );
							w.erase( w.begin( ) + (ptrdiff_t)a );
						}
					}
					break;
				case 13: {
					what = "erase of several";
					size_t const a = sim::choose( (uint32_t)w.size( ) + 1 ), b = a + sim::choose( (uint32_t)( w.size( ) - a ) + 1 );
					ptrdiff_t got = -1;
					threw = trk::faulted( [&] { got = x.erase( x.cbegin( ) + (ptrdiff_t)a, x.cbegin( ) + (ptrdiff_t)b ) - x.begin( ); } );
					if( not threw ) {
						SIM_CHECK( got == (ptrdiff_t)a, "wrong-position", "erase from element %zu returned position %td", a, got );
						w.erase( w.begin( ) + (ptrdiff_t)a, w.begin( ) + (ptrdiff_t)b );
					}
					break;
				}
				case 14: {
					what = "swap";
					std::vector<int> const o = m[1 - i];
					threw = trk::faulted( [&] { x.swap( v[1 - i] ); } );
					if( threw ) { // the values may be mixed up, but none is invented
						popped[0] = popped[1] = true;
						v[0].clear( );
						v[1].clear( );
						m[0].clear( );
						m[1].clear( );
						threw = false;
					} else {
						std::swap( m[0], m[1] );
						std::swap( popped[0], popped[1] );
					}
					break;
				}
				case 15: {
					what = "assign";
					size_t const n = sim::choose( (uint32_t)N + 1 );
					bool const own = not w.empty( ) and sim::choose( 2 );
					Plain const p( next++ );
					size_t const at = own ? sim::choose( (uint32_t)w.size( ) ) : 0;
					int const value = own ? w[at] : p.v;
					also = { value };
					may_grow = true;
					threw = trk::faulted( [&] { x.assign( n, own ? x[at] : p ); } );
					if( not threw )
						w.assign( n, value );
					break;
				}
				case 16: {
					what = "construction";
					size_t const n = sim::choose( (uint32_t)N + 1 );
					for( size_t j = 0; j < n; ++j ) {
						also.push_back( next );
						src[j] = Plain( next++ );
					}
					uint32_t const how = sim::choose( 3 );
					bool ok = false;
					V fresh;
					(void)trk::faulted( [&] {
						if( how == 0 ) {
							V y( (Plain const *)src, n );
							sim::Disarmed d;
							check( y, also, "construction from a pointer" );
						} else if( how == 1 ) {
							V y( src, src + n );
							sim::Disarmed d;
							check( y, also, "construction from a range" );
						} else {
							V y( x );
							sim::Disarmed d;
							check( y, w, "copying" );
							ok = true;
						}
					} );
					if( ok ) {
						v[1 - i] = x;
						m[1 - i] = w;
						popped[1 - i] = popped[i];
						check( v[1 - i], m[1 - i], "copy assignment" );
					}
					also.clear( );
					break;
				}
				default:
					what = "clear";
					x.clear( );
					w.clear( );
					popped[i] = false;
				}
				if( threw ) {
					if( not popped[i] and ( what[0] == 'p' ) )
						same( content( x ), before, what );
					after_throw( x, w, also, may_grow, what );
				}
				check( x, w, what );
				check( v[1 - i], m[1 - i], what );
			}
		}
	};

	// ---- heap array -----------------------------------------------------
	void heap_arrays( ) {
		trk::World world;
		{
			sim::Disarmed d0;
			using E = trk::Copy;
			using A = daw::heap_array<E>;
			A a[2];
			std::vector<int> m[2];
			int next = 1;
			auto check = [&]( A &x, std::vector<int> const &w, char const *what ) {
				A const &c = x;
				SIM_CHECK( x.size( ) == w.size( ) and ( w.empty( ) or not x.empty( ) ), "wrong-size", "after %s a heap array has %zu elements instead of %zu", what, x.size( ), w.size( ) );
				SIM_CHECK( (size_t)( x.end( ) - x.begin( ) ) == w.size( ), "wrong-size", "after %s iterators of a heap array span %td elements instead of %zu", what, x.end( ) - x.begin( ), w.size( ) );
				same( content( x ), w, what );
				same( content( c ), w, what );
				if( not w.empty( ) ) {
					size_t const i = sim::choose( (uint32_t)w.size( ) );
					SIM_CHECK( (bool)x, "wrong-answer", "a heap array of %zu elements is false", w.size( ) );
					SIM_CHECK( x[i].val( ) == w[i] and c[i].val( ) == w[i] and x.at( i ).val( ) == w[i] and c.at( i ).val( ) == w[i] and x.data( ) + i == &x[i] and c.data( ) + i == &c[i] and x.front( ).val( ) == w[0] and c.front( ).val( ) == w[0] and x.back( ).val( ) == w.back( ) and c.back( ).val( ) == w.back( ) and c.cend( ) - c.cbegin( ) == x.end( ) - x.begin( ), "wrong-element", "after %s an element of a heap array is another", what );
				}
				bool threw = false;
				try {
					(void)( sim::choose( 2 ) ? x.at( w.size( ) + sim::choose( 3 ) ) : c.at( w.size( ) + sim::choose( 3 ) ) );
				} catch( std::out_of_range const & ) {
					threw = true;
				}
				SIM_CHECK( threw, "wrong-answer", "an element past the end was not refused" );
			};
			for( int k = 0, ops = 2 + (int)sim::choose( 14 ); k < ops; ++k ) {
				int const i = (int)sim::choose( 2 );
				A &x = a[i], &y = a[1 - i];
				auto &w = m[i], &u = m[1 - i];
				size_t const n = sim::choose( 6 );
				bool threw = false;
				char const *what = "";
				switch( sim::choose( 10 ) ) {
				case 0:
					what = "making elements";
					threw = trk::faulted( [&] {
						A t( n );
						x = std::move( t );
					} );
					if( not threw )
						w.assign( n, 0 );
					break;
				case 1: {
					what = "making copies of a value";
					E const e( next++ );
					threw = trk::faulted( [&] {
						A t( n, e );
						x.swap( t );
					} );
					if( not threw )
						w.assign( n, e.val( ) );
					break;
				}
				case 2: {
					what = "copying from a pointer";
					std::vector<E> src;
					src.reserve( n + 1 );
					std::vector<int> s;
					for( size_t j = 0; j < n; ++j ) {
						src.emplace_back( next );
						s.push_back( next++ );
					}
					threw = trk::faulted( [&] {
						A t( src.data( ), n );
						using daw::swap;
						swap( x, t );
					} );
					if( not threw )
						w = s;
					break;
				}
				case 3:
					what = "copy assignment";
					threw = trk::faulted( [&] { x = y; } );
					if( not threw )
						w = u;
					break;
				case 4:
					what = "copy assignment to itself";
					threw = trk::faulted( [&] { x = std::as_const( x ); } );
					break;
				case 5:
					what = "move assignment";
					x = std::move( y );
					w = u;
					y.clear( );
					u.clear( );
					break;
				case 6: {
					what = "copy and move construction";
					threw = trk::faulted( [&] {
						A t( x );
						A s( std::move( t ) );
						sim::Disarmed d;
						check( t, { }, "being moved from" );
						check( s, w, "move construction" );
						y = std::move( s );
					} );
					if( not threw )
						u = w;
					break;
				}
				case 7: {
					what = "assignment of a list";
					int const p = next++, q = next++;
					threw = trk::faulted( [&] {
						if( n < 2 )
							x = std::initializer_list<E>{ E( p ) };
						else
							x = std::initializer_list<E>{ E( p ), E( q ), E( p ) };
					} );
					if( not threw )
						w = n < 2 ? std::vector<int>{ p } : std::vector<int>{ p, q, p };
					break;
				}
				case 8:
					what = "find_first_of";
					if( not w.empty( ) ) {
						bool const in = sim::choose( 2 ) == 1;
						size_t const from = sim::choose( (uint32_t)w.size( ) + 1 );
						int const q = in ? w[sim::choose( (uint32_t)w.size( ) )] : 9999;
						E const e( q );
						size_t got = 99;
						threw = trk::faulted( [&] { got = (size_t)( ( from ? x.find_first_of( e, x.cbegin( ) + from ) : x.find_first_of( e ) ) - x.begin( ) ); } );
						size_t want = from;
						while( want < w.size( ) and w[want] != q )
							++want;
						if( not threw )
							SIM_CHECK( got == want, "wrong-position", "find_first_of from %zu found %zu instead of %zu", from, got, want );
					}
					break;
				default:
					what = "clear";
					x.clear( );
					w.clear( );
				}
				check( x, w, what );
				check( y, u, what );
			}
		}
		world.end( );
	}

	// ---- bounded hash map and set ---------------------------------------
	struct Hash {
		static inline uint32_t buckets = 1;
		template<typename T>
		size_t operator( )( T const &e ) const { return (size_t)e.val( ) % buckets; }
	};
	template<size_t N, typename E>
	void hash_map( ) {
		trk::World world;
		{
			sim::Disarmed d0;
			Hash::buckets = 1 + sim::choose( 4 ) * 2;
			using M = daw::bounded_hash_map<E, E, N, Hash>;
			M x;
			std::map<int, int> w;
			int next = 100;
			auto check = [&]( char const *what ) {
				M const &c = x;
				SIM_CHECK( x.size( ) == w.size( ) and (bool)x.empty( ) == w.empty( ), "wrong-size", "after %s a map has %zu keys instead of %zu", what, x.size( ), w.size( ) );
				std::map<int, int> g, h;
				size_t k = 0;
				for( auto it = x.begin( ); it != x.end( ); ++it, ++k ) {
					SIM_CHECK( k < w.size( ), "wrong-size", "after %s a map shows more than its %zu keys", what, w.size( ) );
					g[it->key.val( )] = ( *it ).value.val( );
				}
				for( auto it = c.begin( ); it != c.cend( ); it++ )
					h[( *it ).key.val( )] = it->value.val( );
				SIM_CHECK( g == w and h == w and k == w.size( ), "wrong-element", "after %s a map has other keys or values", what );
				k = 0;
				if( not w.empty( ) ) {
					auto it = x.end( );
					do
						--it, ++k;
					while( it != x.begin( ) and k <= w.size( ) );
					SIM_CHECK( k == w.size( ), "wrong-size", "after %s going back through a map shows %zu keys instead of %zu", what, k, w.size( ) );
				}
				for( int q = 0; q < 8; ++q ) {
					E const e( q );
					bool const in = w.count( q ) != 0;
					auto f = x.find( e );
					auto cf = c.find( e );
					auto t = c.try_get( e );
					SIM_CHECK( x.exists( e ) == in and x.count( e ) == in and ( f != x.end( ) ) == in and ( cf != c.end( ) ) == in and static_cast<bool>( t ) == in, "wrong-answer", "after %s looking up key %d, which is %s, disagrees", what, q, in ? "there" : "not there" );
					if( in )
						SIM_CHECK( f->key.val( ) == q and f->value.val( ) == w[q] and cf->value.val( ) == w[q] and ( *t ).val( ) == w[q] and c[e].val( ) == w[q], "wrong-element", "after %s key %d has another value", what, q );
				}
			};
			check( "construction" );
			for( int k = 0, ops = 2 + (int)sim::choose( 16 ); k < ops; ++k ) {
				int const q = (int)sim::choose( 8 ), value = next++;
				bool const in = w.count( q ) != 0;
				if( not in and w.size( ) == N ) { // full
					if( sim::choose( 2 ) and not w.empty( ) ) {
						auto it = w.begin( );
						std::advance( it, (int)sim::choose( (uint32_t)w.size( ) ) );
						E const e( it->first );
						x.erase( e );
						w.erase( it );
						check( "erase from a full map" );
					}
					continue;
				}
				E const e( q ), nv( value );
				bool threw = false;
				char const *what = "";
				switch( sim::choose( 7 ) ) {
				case 0:
				case 1:
					what = "insert";
					threw = trk::faulted( [&] {
						switch( sim::choose( 3 ) ) {
						case 0: x.insert( e, nv ); break;
						case 1: x.insert( E( q ), E( value ) ); break;
						default: x.insert( std::pair<E const, E>( e, nv ) ); break;
						}
					} );
					if( not threw )
						w[q] = value;
					break;
				case 2:
					what = "operator[]";
					threw = trk::faulted( [&] {
						E &r = sim::choose( 2 ) ? x[e] : x[E( q )];
						sim::Disarmed d;
						SIM_CHECK( r.val( ) == ( in ? w[q] : 0 ), "wrong-element", "operator[] gave %d", r.val( ) );
						r = nv;
					} );
					if( not threw )
						w[q] = value;
					break;
				case 3:
				case 4:
				case 5:
					what = "erase";
					x.erase( e );
					w.erase( q );
					break;
				default: {
					what = "copying";
					threw = trk::faulted( [&] {
						M t( x );
						sim::Disarmed d;
						x = t;
					} );
					if( threw )
						threw = false; // nothing happened to x
				}
				}
				if( threw and in ) { // the key may have been in the middle of being replaced
					sim::Disarmed d;
					M const &c = x;
					E const ee( q );
					auto t = c.try_get( ee );
					if( t and ( ( *t ).val( ) == value or ( *t ).val( ) == w[q] ) )
						w[q] = ( *t ).val( );
					else { // start again
						x = M( );
						w.clear( );
					}
				}
				check( threw ? "an operation that threw" : what );
			}
		}
		world.end( );
	}
	template<size_t N, typename E>
	void hash_set( ) {
		trk::World world;
		{
			sim::Disarmed d0;
			Hash::buckets = 1 + sim::choose( 4 ) * 2;
			using S = daw::bounded_hash_set_t<E, N, Hash>;
			auto const px = std::make_unique<S>( ); // against the end of an allocation
			S &x = *px;
			std::map<int, int> w;
			auto check = [&]( char const *what ) {
				S const &c = x;
				SIM_CHECK( x.size( ) == w.size( ) and (bool)x.empty( ) == w.empty( ), "wrong-size", "after %s a set has %zu keys instead of %zu", what, x.size( ), w.size( ) );
				std::map<int, int> g, h;
				size_t k = 0;
				for( auto it = x.begin( ); it != x.end( ); ++it, ++k ) {
					SIM_CHECK( k < w.size( ), "wrong-size", "after %s a set shows more than its %zu keys", what, w.size( ) );
					g[( *it ).val( )] = it->val( ) >= 0;
				}
				for( auto it = c.cbegin( ); it != c.end( ); it++ )
					h[it->val( )] = ( *it ).val( ) >= 0;
				SIM_CHECK( g == w and h == w and k == w.size( ), "wrong-element", "after %s a set has other keys", what );
				for( int q = 0; q < 8; ++q ) {
					E const e( q );
					bool const in = w.count( q ) != 0;
					auto f = x.find( e );
					auto cf = c.find( e );
					SIM_CHECK( x.exists( e ) == in and x.count( e ) == in and ( f != x.end( ) ) == in and ( cf != c.end( ) ) == in, "wrong-answer", "after %s looking up key %d, which is %s, disagrees", what, q, in ? "there" : "not there" );
					if( in )
						SIM_CHECK( f->val( ) == q and cf->val( ) == q, "wrong-element", "after %s looking up key %d found %d", what, q, f->val( ) );
				}
			};
			check( "construction" );
			for( int k = 0, ops = 2 + (int)sim::choose( 16 ); k < ops; ++k ) {
				int const q = (int)sim::choose( 8 );
				bool const in = w.count( q ) != 0;
				E const e( q );
				bool threw = false;
				char const *what = "";
				if( sim::choose( 2 ) ) {
					if( not in and w.size( ) == N )
						continue;
					what = "insert";
					threw = trk::faulted( [&] {
						auto it = sim::choose( 2 ) ? x.insert( e ) : x.insert( E( q ) );
						sim::Disarmed d;
						SIM_CHECK( it->val( ) == q, "wrong-element", "insert of key %d returned the place of %d", q, it->val( ) );
					} );
					if( not threw )
						w[q] = 1;
				} else {
					what = "erase";
					auto const r = x.erase( e );
					SIM_CHECK( r.has_value( ) == in, "wrong-answer", "erasing a key that is %s said %s", in ? "there" : "not there", r ? "yes" : "no" );
					w.erase( q );
				}
				check( threw ? "an insert that threw" : what );
			}
		}
		world.end( );
	}

	// ---- ordered map ----------------------------------------------------
	void ordered( ) {
		trk::World world;
		{
			sim::Disarmed d0;
			using E = trk::NxMove;
			using M = daw::ordered_map<E, E>;
			M x;
			std::vector<std::pair<int, int>> w;
			int next = 100;
			auto at = [&]( int q ) {
				size_t i = 0;
				while( i < w.size( ) and w[i].first != q )
					++i;
				return i;
			};
			auto check = [&]( char const *what ) {
				M const &c = x;
				SIM_CHECK( x.size( ) == w.size( ) and x.empty( ) == w.empty( ), "wrong-size", "after %s an ordered map has %zu keys instead of %zu", what, x.size( ), w.size( ) );
				std::vector<std::pair<int, int>> g, h, r, cr;
				for( auto &kv : x )
					g.emplace_back( kv.first.val( ), kv.second.val( ) );
				for( auto it = c.cbegin( ); it != c.end( ); ++it )
					h.emplace_back( it->first.val( ), it->second.val( ) );
				for( auto it = x.rbegin( ); it != x.rend( ); ++it )
					r.insert( r.begin( ), { it->first.val( ), it->second.val( ) } );
				for( auto it = c.crbegin( ); it != c.rend( ); ++it )
					cr.insert( cr.begin( ), { it->first.val( ), it->second.val( ) } );
				SIM_CHECK( g == w and h == w and r == w and cr == w, "wrong-element", "after %s an ordered map has other keys or values, or another order", what );
				if( not w.empty( ) )
					SIM_CHECK( x.front( ).first.val( ) == w.front( ).first and c.back( ).first.val( ) == w.back( ).first, "wrong-element", "after %s the first or last key is another", what );
				for( int q = 0; q < 6; ++q ) {
					E const e( q );
					size_t const i = at( q );
					SIM_CHECK( (size_t)( x.find( e ) - x.begin( ) ) == i and (size_t)( c.find( e ) - c.begin( ) ) == i, "wrong-position", "after %s key %d is found elsewhere", what, q );
					int got = -1;
					try {
						got = sim::choose( 2 ) ? x.at( e ).val( ) : c.at( e ).val( );
					} catch( std::out_of_range const & ) {
					}
					SIM_CHECK( got == ( i < w.size( ) ? w[i].second : -1 ), "wrong-element", "after %s key %d has another value", what, q );
				}
			};
			for( int k = 0, ops = 1 + (int)sim::choose( 12 ); k < ops; ++k ) {
				int const q = (int)sim::choose( 6 ), value = next++;
				size_t const i = at( q );
				bool const in = i < w.size( );
				E const e( q ), nv( value );
				bool threw = false;
				char const *what = "";
				switch( sim::choose( 5 ) ) {
				case 0:
				case 1: {
					what = "insert";
					threw = trk::faulted( [&] {
						std::pair<E const, E> const p( e, nv );
						auto const r = sim::choose( 2 ) ? x.insert( p ) : x.insert( std::pair<E, E>( e, nv ) );
						SIM_CHECK( r.second == not in and (size_t)( r.first - x.begin( ) ) == i, "wrong-answer", "inserting a key that is %s said %d", in ? "there" : "not there", r.second );
					} );
					if( not threw and not in )
						w.emplace_back( q, value );
					break;
				}
				case 2:
				case 3: {
					what = "operator[]";
					bool there = false;
					threw = trk::faulted( [&] {
						E &r = x[e];
						there = true;
						sim::Disarmed d;
						SIM_CHECK( r.val( ) == ( in ? w[i].second : 0 ), "wrong-element", "operator[] gave %d", r.val( ) );
						r = nv;
					} );
					if( not threw ) {
						if( in )
							w[i].second = value;
						else
							w.emplace_back( q, value );
					}
					break;
				}
				default: {
					what = "construction from a range";
					std::vector<std::pair<E, E>> src;
					std::vector<std::pair<int, int>> s;
					src.reserve( 4 );
					for( size_t j = 0, n = sim::choose( 5 ); j < n; ++j ) {
						int const p = (int)sim::choose( 3 );
						src.emplace_back( E( p ), E( next ) );
						if( std::none_of( s.begin( ), s.end( ), [p]( auto const &kv ) { return kv.first == p; } ) )
							s.emplace_back( p, next );
						++next;
					}
					threw = trk::faulted( [&] {
						if( sim::choose( 2 ) or src.size( ) < 2 ) {
							M t( src.begin( ), src.end( ), std::allocator<std::pair<E, E>>( ) );
							x = std::move( t );
						} else {
							M t( { { src[0].first, src[0].second }, { src[1].first, src[1].second } }, std::less<E>( ), std::allocator<std::pair<E, E>>( ) );
							sim::Disarmed d;
							std::erase_if( s, [&]( auto const &kv ) { return kv.first != src[0].first.val( ) and kv.first != src[1].first.val( ); } );
							// a later source element may be the first of its key only if it is not among the two
							x = std::move( t );
						}
					} );
					if( not threw )
						w = s;
				}
				}
				check( threw ? "an operation that threw" : what );
			}
			x.clear( );
			w.clear( );
			check( "clear" );
		}
		world.end( );
	}
} // namespace
SIM_SCENARIO( bounded_vector, 4 ) {
	trk::standard_faults( );
	switch( sim::choose( 3 ) ) {
	case 0: return BV<1>{ }.run( );
	case 1: return BV<3>{ }.run( );
	default: return BV<6>{ }.run( );
	}
}
SIM_SCENARIO( heap_array, 3 ) {
	trk::standard_faults( );
	heap_arrays( );
}
SIM_SCENARIO( hash_map, 3 ) {
	trk::standard_faults( );
	switch( sim::choose( 3 ) ) {
	case 0: return hash_map<1, trk::Copy>( );
	case 1: return hash_map<4, trk::NxMove>( );
	default: return hash_map<7, trk::Copy>( );
	}
}
SIM_SCENARIO( hash_set, 3 ) {
	trk::standard_faults( );
	switch( sim::choose( 3 ) ) {
	case 0: return hash_set<1, trk::Copy>( );
	case 1: return hash_set<4, trk::Copy>( );
	default: return hash_set<7, trk::NxMove>( );
	}
}
SIM_SCENARIO( ordered_map, 2 ) {
	trk::standard_faults( );
	ordered( );
}
