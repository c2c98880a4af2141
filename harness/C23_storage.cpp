// runtime: conc
// C23: small buffer storage, uninitialized storage and owned arrays.
#include "tracked.h"

#include <daw/daw_sbo.h>
#include <daw/daw_uninitialized_storage.h>
#include <daw/daw_unique_array.h>
#include <memory>
#include <string>

namespace sim {
	HarnessInfo const harness = {
	  "C23",
	  "A seeded run stores, reads and drops values of nine types in small buffer storages of four shapes (with the default or a counting allocator) and in uninitialized storage, or makes, fills, moves and reads owned arrays of four element types, with failing allocation and throwing constructors, copies and moves at any point, and compares what is held with a model. A run is non-trivial if a fault fired.",
	  "daw_sbo.h, daw_uninitialized_storage.h, daw_unique_array.h",
	  "operator new, element operations, allocators",
	  500000, 15000000, true };
}
namespace {
	template<typename E>
	struct Big {
		E e;
		char fill[90];
		Big( int v )
		  : e( v ) {
			memset( fill, v, sizeof fill );
		}
		int val( ) const {
			for( char c : fill )
				SIM_CHECK( c == (char)e.val( ) or e.val( ) == trk::MOVED, "damaged-value", "the parts of a value disagree" );
			return e.val( );
		}
	};
	struct alignas( 64 ) Wide {
		trk::Copy e;
		Wide( int v )
		  : e( v ) {}
		int val( ) const {
			SIM_CHECK( (uintptr_t)this % 64 == 0, "misaligned", "a value is at an address it cannot be at" );
			return e.val( );
		}
	};
	struct Agg {
		trk::Copy e;
		int twice;
		int val( ) const {
			SIM_CHECK( twice == 2 * e.val( ), "damaged-value", "the parts of a value disagree" );
			return e.val( );
		}
	};
	int val( int64_t x ) { return (int)x; }
	int val( std::string const &s ) { return (int)s.size( ); }
	template<typename T>
	int val( T const &x ) { return x.val( ); }
	template<typename T>
	T fresh( int v ) {
		if constexpr( std::is_same_v<T, std::string> )
			return std::string( (size_t)v, 'x' );
		else if constexpr( std::is_same_v<T, Agg> )
			return Agg{ trk::Copy( v ), 2 * v };
		else
			return T( v );
	}
	struct Ids {
		int live[3];
	} ids;
	template<typename T>
	struct Counting {
		using value_type = T;
		int id;
		explicit Counting( int i )
		  : id( i ) {}
		template<typename U>
		Counting( Counting<U> const &o )
		  : id( o.id ) {}
		T *allocate( size_t n ) {
			SIM_CHECK( n == 1, "wrong-size", "%zu values were asked for", n );
			T *p = std::allocator<T>( ).allocate( n );
			sim::Quiet q;
			++ids.live[id];
			return p;
		}
		void deallocate( T *p, size_t n ) {
			SIM_CHECK( n == 1, "wrong-size", "%zu values were given back", n );
			{
				sim::Quiet q;
				if( --ids.live[id] < 0 )
					sim::fail( "wrong-allocator", "a block went back to another allocator than it came from" );
			}
			std::allocator<T>( ).deallocate( p, n );
		}
		bool operator==( Counting const & ) const = default;
	};
	template<size_t S, size_t A>
	struct Box {
		daw::sbo_storage<S, A> s{ };
		int type = -1, v = 0, alloc = -1;
		static constexpr int NTYPES = 9;
		template<typename F>
		static auto with( int type, F f ) {
			switch( type ) {
			case 0: return f( std::type_identity<trk::Copy>{ } );
			case 1: return f( std::type_identity<trk::MoveOnlyThrow>{ } );
			case 2: return f( std::type_identity<trk::NxMove>{ } );
			case 3: return f( std::type_identity<std::string>{ } );
			case 4: return f( std::type_identity<Big<trk::Copy>>{ } );
			case 5: return f( std::type_identity<Big<trk::MoveOnly>>{ } );
			case 6: return f( std::type_identity<Wide>{ } );
			case 7: return f( std::type_identity<Agg>{ } );
			default: return f( std::type_identity<int64_t>{ } );
			}
		}
		bool put( int t, int nv, int al, unsigned form ) {
			return with( t, [&]<typename T>( std::type_identity<T> ) {
				void *got = nullptr;
				bool const failed = trk::faulted( [&] {
					T x = fresh<T>( nv );
					auto const go = [&]( auto &&y ) {
						if( al < 0 )
							got = s.allocate( (decltype( y ) &&)y );
						else
							got = s.allocate( (decltype( y ) &&)y, Counting<T>( al ) );
					};
					if( form == 0 or not std::is_copy_constructible_v<T> )
						go( std::move( x ) );
					else if constexpr( std::is_copy_constructible_v<T> ) {
						if( form == 1 )
							go( x );
						else
							go( std::as_const( x ) );
					}
				} );
				if( not failed ) {
					SIM_CHECK( (void *)s.template get<T>( ) == got, "wrong-address", "the value stored is not the value read" );
					bool const in = (char *)got >= (char *)this and (char *)got < (char *)( this + 1 );
					SIM_CHECK( not in or sizeof( T ) <= sizeof s.data, "wrong-place", "a value that does not fit was stored in place" );
					type = t;
					v = nv;
					alloc = al;
				}
				return failed;
			} );
		}
		void drop( ) {
			with( type, [&]<typename T>( std::type_identity<T> ) {
				if( alloc < 0 )
					s.template deallocate<T>( );
				else
					s.template deallocate<T>( Counting<T>( alloc ) );
			} );
			type = -1;
		}
		void check( ) {
			using E = typename daw::sbo_storage<S, A>::engaged_types;
			SIM_CHECK( ( s.engaged == E::none ) == ( type < 0 ), "wrong-state", "a storage says it is %s", type < 0 ? "used" : "free" );
			if( type >= 0 )
				with( type, [&]<typename T>( std::type_identity<T> ) {
					T *p = s.template get<T>( );
					T const *c = std::as_const( s ).template get<T>( );
					SIM_CHECK( p == c and (uintptr_t)p % alignof( T ) == 0, "wrong-address", "the value is at %p and at %p", (void *)p, (void *)c );
					SIM_CHECK( val( *p ) == v and val( *c ) == v, "wrong-value", "a storage holds %d instead of %d", val( *p ), v );
				} );
		}
	};
	template<size_t S, size_t A>
	void boxes( ) {
		trk::World w;
		int64_t const base = sim::live_allocs( );
		memset( &ids, 0, sizeof ids );
		trk::standard_faults( );
		{
			using B = Box<S, A>;
			B b[2];
			for( int step = 0, n = 2 + (int)sim::choose( 10 ); step < n; ++step ) {
				B &x = b[sim::choose( 2 )];
				bool failed = false;
				if( x.type < 0 ) {
					int const t = (int)sim::choose( B::NTYPES ), v = 1 + (int)sim::choose( 40 ), al = (int)sim::choose( 4 ) - 1;
					failed = x.put( t, v, al, sim::choose( 3 ) );
				} else if( sim::choose( 2 ) )
					x.drop( );
				for( auto &y : b )
					y.check( );
				int elems = 0;
				for( auto &y : b )
					elems += y.type >= 0 and y.type != 3 and y.type != 8;
				SIM_CHECK( trk::live( ) == elems, "leaked-element", "there are %d values instead of %d", trk::live( ), elems );
				sim::state( (uint64_t)( b[0].type + 1 ) * 16 + (uint64_t)( b[1].type + 1 ) + ( failed ? 256 : 0 ) );
				if( failed )
					sim::probe( "failed-operation" );
			}
			for( auto &y : b )
				if( y.type >= 0 )
					y.drop( );
			for( int l : ids.live )
				SIM_CHECK( l == 0, "leaked-memory", "%d blocks of an allocator are left", l );
		}
		w.end( "value" );
		SIM_CHECK( sim::live_allocs( ) == base, "leaked-memory", "%ld allocations are left", (long)( sim::live_allocs( ) - base ) );
	}
	template<typename T>
	void raw( ) {
		trk::World w;
		int64_t const base = sim::live_allocs( );
		trk::standard_faults( );
		{
			daw::uninitialized_storage<T> s;
			bool held = false;
			int v = 0;
			for( int step = 0, n = 2 + (int)sim::choose( 6 ); step < n; ++step ) {
				if( not held ) {
					v = 1 + (int)sim::choose( 40 );
					unsigned const form = sim::choose( 2 );
					held = not trk::faulted( [&] {
						if constexpr( std::is_same_v<T, Agg> )
							s.construct( trk::Copy( v ), 2 * v );
						else if constexpr( std::is_same_v<T, std::string> )
							s.construct( (size_t)v, 'x' );
						else if( form )
							s.construct( v );
						else
							s.construct( fresh<T>( v ) );
					} );
				} else if( sim::choose( 3 ) == 0 ) {
					// taking the value leaves one that was moved from, to be destroyed
					int got = v;
					trk::faulted( [&] {
						T t = s.rref( );
						sim::Disarmed d;
						got = val( t );
					} );
					SIM_CHECK( got == v, "wrong-value", "the value taken is %d instead of %d", got, v );
					s.destruct( );
					held = false;
				} else if( sim::choose( 2 ) ) {
					s.destruct( );
					held = false;
				}
				if( held ) {
					auto const &c = s;
					SIM_CHECK( s.ptr( ) == c.ptr( ) and s.ptr( ) == c.cptr( ) and &s.ref( ) == s.ptr( ) and &c.cref( ) == s.ptr( ) and &*s == s.ptr( ) and &*c == s.ptr( ) and s.operator->( ) == s.ptr( ) and c.operator->( ) == s.ptr( ), "wrong-address", "the ways to reach the value disagree" );
					SIM_CHECK( val( *c ) == v and (uintptr_t)c.ptr( ) % alignof( T ) == 0, "wrong-value", "the storage holds %d instead of %d", val( *c ), v );
				}
				if constexpr( not std::is_same_v<T, std::string> )
					SIM_CHECK( trk::live( ) == held, "leaked-element", "there are %d values", trk::live( ) );
			}
			if( held )
				s.destruct( );
		}
		w.end( "value" );
		SIM_CHECK( sim::live_allocs( ) == base, "leaked-memory", "%ld allocations are left", (long)( sim::live_allocs( ) - base ) );
	}
	struct Model {
		int n = 0;
		int v[12];
	};
	template<typename T>
	void arrays( ) {
		using P = daw::unique_array_t<T>;
		constexpr bool elem = not std::is_same_v<T, std::string> and not std::is_same_v<T, int64_t>;
		trk::World w;
		int64_t const base = sim::live_allocs( );
		sim::swarm( sim::D_THROW, { 0, 0, 2500, 10000 } ); // running out of memory ends the program here
		{
			P p[2];
			Model m[2];
			for( int step = 0, n = 2 + (int)sim::choose( 8 ); step < n; ++step ) {
				int const i = (int)sim::choose( 2 ), j = (int)sim::choose( 2 );
				unsigned const sz = sim::choose( 12 );
				int const v = 1 + (int)sim::choose( 40 );
				bool failed = false;
				switch( sim::choose( 6 ) ) {
				case 0: {
					failed = trk::faulted( [&] {
						P t( (size_t)sz );
						p[i] = std::move( t );
					} );
					if( not failed ) {
						m[i].n = (int)sz;
						for( unsigned k = 0; k < sz; ++k ) {
							if constexpr( std::is_same_v<T, int64_t> )
								p[i][k] = 0; // not initialized
							m[i].v[k] = 0;
						}
					}
					break;
				}
				case 1: {
					failed = trk::faulted( [&] {
						if constexpr( std::is_same_v<T, std::string> ) {
							P t( (size_t)sz, (size_t)v, 'x' );
							p[i] = std::move( t );
						} else {
							P t( (size_t)sz, v );
							p[i] = std::move( t );
						}
					} );
					if( not failed ) {
						m[i].n = (int)sz;
						for( unsigned k = 0; k < sz; ++k )
							m[i].v[k] = v;
					}
					break;
				}
				case 2: {
					T const *const from = p[j].begin( );
					p[i] = std::move( p[j] );
					SIM_CHECK( p[i].begin( ) == from, "elements-moved", "moving an array moved its elements" );
					if( i != j ) {
						m[i] = m[j];
						m[j].n = 0;
					}
					break;
				}
				case 3: {
					T const *const from = p[i].begin( );
					P t( std::move( p[i] ) );
					SIM_CHECK( t.begin( ) == from and p[i].empty( ), "elements-moved", "moving an array moved its elements" );
					p[j] = std::move( t );
					if( i != j ) {
						m[j] = m[i];
						m[i].n = 0;
					}
					break;
				}
				default:
					if( m[i].n > 0 ) {
						int const k = (int)sim::choose( (uint32_t)m[i].n );
						failed = trk::faulted( [&] {
							T t = fresh<T>( v );
							switch( sim::choose( 3 ) ) {
							case 0: p[i][(size_t)k] = std::move( t ); break;
							case 1: p[i].at( (size_t)k ) = std::move( t ); break;
							default: *( p[i].begin( ) + k ) = std::move( t );
							}
						} );
						if( not failed )
							m[i].v[k] = v;
					}
				}
				if( failed )
					sim::probe( "failed-operation" );
				int total = 0;
				for( int x = 0; x < 2; ++x ) {
					P &a = p[x];
					P const &c = a;
					size_t const n = (size_t)m[x].n;
					total += m[x].n;
					SIM_CHECK( c.size( ) == n and c.empty( ) == ( n == 0 ) and (size_t)( c.end( ) - c.begin( ) ) == n and a.end( ) - a.begin( ) == c.cend( ) - c.cbegin( ) and c.capacity( ) == n, "wrong-size", "an array has %zu elements instead of %zu", c.size( ), n );
					for( size_t k = 0; k < n; ++k )
						SIM_CHECK( val( c[k] ) == m[x].v[k] and &a[k] == &c[k] and &a.at( k ) == &c[k] and &c.at( k ) == &c[k] and a.begin( ) + k == &c[k], "wrong-value", "element %zu of an array is %d instead of %d", k, val( c[k] ), m[x].v[k] );
					if( n )
						SIM_CHECK( &a.front( ) == &a[0] and &c.front( ) == &a[0] and &a.back( ) == &a[n - 1] and &c.back( ) == &a[n - 1], "wrong-address", "front or back is another element" );
					int refused = 0;
					try {
						(void)a.at( n );
					} catch( std::out_of_range const & ) { ++refused; }
					try {
						(void)c.at( n + 5 );
					} catch( std::out_of_range const & ) { ++refused; }
					SIM_CHECK( refused == 2, "range-not-checked", "a position outside of an array was accepted" );
				}
				if constexpr( elem )
					SIM_CHECK( trk::live( ) == total, "leaked-element", "there are %d elements instead of %d", trk::live( ), total );
				sim::state( (uint64_t)m[0].n * 16 + (uint64_t)m[1].n + ( failed ? 256 : 0 ) );
			}
		}
		w.end( "element" );
		SIM_CHECK( sim::live_allocs( ) == base, "leaked-memory", "%ld allocations are left", (long)( sim::live_allocs( ) - base ) );
	}
}
SIM_SCENARIO( small_buffer, 4 ) {
	switch( sim::choose( 4 ) ) {
	case 0: boxes<8, alignof( std::max_align_t )>( ); break;
	case 1: boxes<32, alignof( std::max_align_t )>( ); break;
	case 2: boxes<128, 4>( ); break;
	default: boxes<200, 64>( );
	}
}
SIM_SCENARIO( uninitialized, 1 ) {
	switch( sim::choose( 5 ) ) {
	case 0: raw<trk::Copy>( ); break;
	case 1: raw<trk::MoveOnlyThrow>( ); break;
	case 2: raw<Wide>( ); break;
	case 3: raw<Agg>( ); break;
	default: raw<std::string>( );
	}
}
SIM_SCENARIO( owned_array, 3 ) {
	switch( sim::choose( 4 ) ) {
	case 0: arrays<trk::Copy>( ); break;
	case 1: arrays<trk::NxMove>( ); break;
	case 2: arrays<std::string>( ); break;
	default: arrays<int64_t>( );
	}
}
