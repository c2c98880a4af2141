// C14: daw::vector against an executable sequence model, with failing allocations and element operations.
#include "tracked.h"

#include <daw/vector.h>

#include <iterator>
#include <stdexcept>

namespace sim {
	HarnessInfo const harness = {
	  "C14",
	  "A seeded run applies up to 24 operations (construction in every form, assignment, insertion of one, n or a range at any place with aliased or foreign values, erasure, resizing, overwrite callbacks, block append, swap, shrink) to 3 vectors of one of 6 element kinds and one of 4 allocator kinds; allocations and any element construction, copy, move or assignment may fail, and the sequence read from a single pass source may fail too. After every operation the content, the capacity, the addresses and the life of every element are compared with a model.",
	  "vector.h, split_buffer.h, compressed_pair.h, wrap_iter.h, daw_scope_guard.h (pop_back_value)",
	  "operator new and the allocator (failure, size and owner of every block checked), element type operations, source iterators",
	  2500000, 80000000, false };
}
namespace {
	// ---- allocator that checks what it is given back -------------------------
	struct Block {
		void *p;
		size_t n;
		int id;
	};
	struct Ledger {
		Block b[64];
		int n;
	};
	Ledger *L;
	void ledger_add( void *p, size_t n, int id ) {
		sim::Quiet q;
		if( L->n == 64 )
			sim::fail( "sim-limit", "allocation ledger full" );
		L->b[L->n++] = { p, n, id };
	}
	void ledger_del( void *p, size_t n, int id ) {
		sim::Quiet q;
		for( int i = 0; i < L->n; ++i ) {
			if( L->b[i].p != p )
				continue;
			SIM_CHECK( L->b[i].n == n, "wrong-deallocate-size", "a block of %zu elements was deallocated as %zu", L->b[i].n, n );
			SIM_CHECK( L->b[i].id == id, "wrong-allocator", "a block of allocator %d was deallocated with allocator %d", L->b[i].id, id );
			L->b[i] = L->b[--L->n];
			return;
		}
		sim::fail( "wrong-deallocate", "deallocation of a block that was not allocated (n=%zu, allocator %d)", n, id );
	}
	template<typename T, bool PROP, bool EQ>
	struct Al {
		using value_type = T;
		using propagate_on_container_copy_assignment = std::bool_constant<PROP>;
		using propagate_on_container_move_assignment = std::bool_constant<PROP>;
		using propagate_on_container_swap = std::bool_constant<PROP>;
		using is_always_equal = std::bool_constant<EQ>;
		template<typename U>
		struct rebind {
			using other = Al<U, PROP, EQ>;
		};
		int id = 1;
		Al( ) = default;
		explicit Al( int i )
		  : id( i ) {}
		template<typename U>
		Al( Al<U, PROP, EQ> const &o )
		  : id( o.id ) {}
		int tag( ) const { return EQ ? 0 : id; }
		T *allocate( size_t n ) {
			T *p = static_cast<T *>( ::operator new( n * sizeof( T ) ) );
			ledger_add( p, n, tag( ) );
			return p;
		}
		void deallocate( T *p, size_t n ) {
			if( not p and n == 0 )
				return;
			ledger_del( p, n, tag( ) );
			::operator delete( p );
		}
		friend bool operator==( Al const &a, Al const &b ) { return a.tag( ) == b.tag( ); }
		friend bool operator!=( Al const &a, Al const &b ) { return a.tag( ) != b.tag( ); }
	};

	// ---- single pass and multi pass sources -----------------------------------
	struct Input { // single pass; reading may fail
		using iterator_category = std::input_iterator_tag;
		using value_type = int;
		using difference_type = std::ptrdiff_t;
		using pointer = int const *;
		using reference = int;
		int const *p = nullptr;
		int operator*( ) const {
			sim::throw_point( trk::S_CALL );
			return *p;
		}
		Input &operator++( ) {
			++p;
			return *this;
		}
		void operator++( int ) { ++p; }
		bool operator==( Input const &o ) const { return p == o.p; }
	};
	struct Fwd { // multi pass, not random access
		using iterator_category = std::forward_iterator_tag;
		using value_type = int;
		using difference_type = std::ptrdiff_t;
		using pointer = int const *;
		using reference = int const &;
		int const *p = nullptr;
		int const &operator*( ) const { return *p; }
		Fwd &operator++( ) {
			++p;
			return *this;
		}
		Fwd operator++( int ) {
			Fwd t = *this;
			++p;
			return t;
		}
		bool operator==( Fwd const &o ) const { return p == o.p; }
	};

	constexpr int MAXN = 40, NV = 3;
	struct Mod {
		int n = 0;
		int v[160];
		int al = 1;
		void ins( int at, int const *src, int k ) {
			memmove( v + at + k, v + at, sizeof( int ) * (size_t)( n - at ) );
			memcpy( v + at, src, sizeof( int ) * (size_t)k );
			n += k;
		}
		void del( int at, int k ) {
			memmove( v + at, v + at + k, sizeof( int ) * (size_t)( n - at - k ) );
			n -= k;
		}
		void set( int const *src, int k ) {
			memcpy( v, src, sizeof( int ) * (size_t)k );
			n = k;
		}
	};

	template<typename V, typename E>
	void same( V const &v, Mod const &m, char const *op, char const *when ) {
		SIM_CHECK( (int)v.size( ) == m.n, "wrong-content", "%s%s: size is %d, should be %d", op, when, (int)v.size( ), m.n );
		SIM_CHECK( v.empty( ) == ( m.n == 0 ), "wrong-content", "%s%s: empty() is wrong", op, when );
		SIM_CHECK( v.capacity( ) >= v.size( ), "wrong-capacity", "%s%s: capacity %zu < size %zu", op, when, v.capacity( ), v.size( ) );
		SIM_CHECK( (int)v.ssize( ) == m.n, "wrong-content", "%s%s: ssize() is wrong", op, when );
		auto it = v.begin( );
		for( int i = 0; i < m.n; ++i, ++it ) {
			int x = v[(size_t)i].val( );
			SIM_CHECK( x == m.v[i], "wrong-content", "%s%s: element %d is %d, should be %d", op, when, i, x, m.v[i] );
			SIM_CHECK( &*it == &v[(size_t)i] and &v.data( )[i] == &*it, "wrong-content", "%s%s: iterator %d goes elsewhere", op, when, i );
		}
		SIM_CHECK( it == v.end( ), "wrong-content", "%s%s: end() is wrong", op, when );
		if( m.n ) {
			SIM_CHECK( &v.front( ) == v.data( ) and &v.back( ) == v.data( ) + ( m.n - 1 ) and v.data_end( ) == v.data( ) + m.n, "wrong-content", "%s%s: front/back/data_end", op, when );
			SIM_CHECK( v.rbegin( )->val( ) == m.v[m.n - 1], "wrong-content", "%s%s: rbegin()", op, when );
		}
	}

	template<typename E, typename A>
	void run( ) {
		using V = daw::vector<E, A>;
		constexpr bool CP = std::is_copy_constructible_v<E>;
		constexpr bool DF = std::is_default_constructible_v<E>;
		constexpr bool SA = requires( A a ) { a.id; };
		// an element can be moved to a new buffer without losing the old one on failure
		constexpr bool STRONG = CP or std::is_nothrow_move_constructible_v<E>;
		trk::World w;
		Ledger led{ };
		L = &led;
		trk::standard_faults( );
		int next = 1;
		int const ops = 1 + (int)sim::choose( 24 );
		{
			V *s[NV] = { };
			Mod m[NV];
			alignas( V ) unsigned char room[NV][sizeof( V )];
			auto alloc_of = [&]( int id ) {
				if constexpr( SA )
					return A( id );
				else
					return A( );
			};
			auto alid = [&]( V const &v ) {
				if constexpr( SA )
					return v.get_allocator( ).id;
				else
					return 1;
			};
			int total_before = 0;
			auto held = [&] {
				int t = 0;
				for( int i = 0; i < NV; ++i )
					if( s[i] )
						t += (int)s[i]->size( );
				return t;
			};
			// after every operation, whatever its outcome
			auto audit = [&]( char const *op ) {
				SIM_CHECK( trk::live( ) == held( ), "leaked-element", "%s: %d elements are alive, the vectors hold %d", op, trk::live( ), held( ) );
				int blocks = 0;
				if constexpr( SA ) {
					for( int i = 0; i < NV; ++i )
						blocks += s[i] and s[i]->data( ) != nullptr;
					SIM_CHECK( led.n == blocks, "leaked-memory", "%s: %d blocks are allocated, the vectors have %d", op, led.n, blocks );
				}
			};
			auto resync = [&]( int i, char const *op ) {
				Mod &x = m[i];
				SIM_CHECK( s[i]->size( ) <= s[i]->capacity( ), "wrong-capacity", "%s failed: size exceeds capacity", op );
				SIM_CHECK( s[i]->size( ) < 160, "wrong-content", "%s failed: size is %zu", op, s[i]->size( ) );
				x.n = (int)s[i]->size( );
				for( int k = 0; k < x.n; ++k )
					x.v[k] = ( *s[i] )[(size_t)k].val( );
			};
			for( int o = 0; o < ops; ++o ) {
				int const i = (int)sim::choose( NV );
				int vals[24];
				// a fresh vector by one of the constructors
				if( not s[i] ) {
					int const how = (int)sim::choose( 12 );
					int const n = (int)sim::choose( 12 );
					for( int k = 0; k < n; ++k )
						vals[k] = next++;
					int const al = SA ? 1 + (int)sim::choose( 2 ) : 1;
					int const j = ( i + 1 + (int)sim::choose( NV - 1 ) ) % NV;
					Mod r;
					r.al = 1;
					bool ok = true, moved = false, stolen = false;
					V *nv = nullptr;
					bool threw = trk::faulted( [&] {
						void *at = room[i];
						switch( how ) {
						case 1:
							if constexpr( DF ) {
								r.n = n;
								memset( r.v, 0, sizeof r.v );
								nv = new( at ) V( (size_t)n );
								return;
							}
							break;
						case 2:
							if constexpr( CP ) {
								E x( next );
								for( int k = 0; k < n; ++k )
									r.v[k] = next;
								r.n = n;
								r.al = al;
								nv = new( at ) V( (size_t)n, x, alloc_of( al ) );
								++next;
								return;
							}
							break;
						case 3:
							r.set( vals, n );
							nv = new( at ) V( Input{ vals }, Input{ vals + n } );
							return;
						case 4:
							r.set( vals, n );
							r.al = al;
							nv = new( at ) V( Input{ vals }, Input{ vals + n }, alloc_of( al ) );
							return;
						case 5:
							r.set( vals, n );
							nv = new( at ) V( Fwd{ vals }, Fwd{ vals + n } );
							return;
						case 6:
							r.set( vals, n );
							r.al = al;
							nv = new( at ) V( vals, vals + n, alloc_of( al ) );
							return;
						case 7:
							if constexpr( CP )
								if( s[j] ) {
									r = m[j];
									nv = new( at ) V( *s[j] );
									return;
								}
							break;
						case 8:
							if constexpr( CP )
								if( s[j] ) {
									r = m[j];
									r.al = al;
									nv = new( at ) V( *s[j], alloc_of( al ) );
									return;
								}
							break;
						case 9:
							if( s[j] ) {
								r = m[j];
								moved = true;
								stolen = true;
								nv = new( at ) V( std::move( *s[j] ) );
								return;
							}
							break;
						case 10:
							if constexpr( std::is_move_constructible_v<E> and std::is_move_assignable_v<E> )
								if( s[j] ) {
									r = m[j];
									r.al = al;
									moved = true;
									stolen = alloc_of( al ) == s[j]->get_allocator( );
									nv = new( at ) V( std::move( *s[j] ), alloc_of( al ) );
									return;
								}
							break;
						case 11: {
							int const keep = (int)sim::choose( (uint32_t)n + 1 );
							r.set( vals, keep );
							nv = new( at ) V( daw::do_resize_and_overwrite, (size_t)n, [&]( E *p, size_t sz ) -> size_t {
								SIM_CHECK( (int)sz == n, "wrong-content", "overwrite callback got %zu, asked for %d", sz, n );
								int k = 0;
								try {
									for( ; k < keep; ++k )
										new( p + k ) E( vals[k] );
								} catch( ... ) {
									while( k )
										p[--k].~E( );
									throw;
								}
								return (size_t)keep;
							} );
							return;
						}
						default:
							break;
						}
						r.al = al;
						nv = new( at ) V( alloc_of( al ) );
					} );
					sim::log( "%d: construct how %d n %d from %d%s", i, how, n, j, threw ? " failed" : "" );
					if( threw ) {
						sim::probe( "construction-failed" );
						if( moved and s[j] ) {
							SIM_CHECK( not stolen, "threw", "a vector's move constructor threw" );
							resync( j, "move construction" );
						}
						audit( "failed construction" );
						continue;
					}
					s[i] = nv;
					if( moved ) {
						if( stolen )
							SIM_CHECK( s[j]->empty( ), "wrong-content", "the vector moved from is not empty" );
						resync( j, "move construction" );
						if( stolen )
							r.al = m[j].al;
						if( how == 10 )
							r.al = al;
					}
					m[i] = r;
					same<V, E>( *s[i], m[i], "construction", "" );
					if constexpr( SA )
						SIM_CHECK( alid( *s[i] ) == m[i].al or ( how == 7 and alid( *s[i] ) == 1 ), "wrong-allocator", "construction (how %d): allocator is %d, should be %d", how, alid( *s[i] ), m[i].al );
					(void)ok;
					audit( "construction" );
					continue;
				}
				V &v = *s[i];
				Mod pre = m[i], post = m[i];
				size_t const cap = v.capacity( );
				E *const addr = v.data( );
				bool strong = false, stays = false, other = false, grows = false;
				int const j = ( i + 1 + (int)sim::choose( NV - 1 ) ) % NV;
				Mod pre_j = m[j], post_j = m[j];
				char const *op = "?";
				int const k = (int)sim::choose( 25 );
				int const at = (int)sim::choose( (uint32_t)pre.n + 1 );
				int n = (int)sim::choose( 7 );
				if( pre.n + n > MAXN )
					n = 0;
				for( int q = 0; q < n; ++q )
					vals[q] = next++;
				int const alias = sim::chance( 1, 3 ) and pre.n ? (int)sim::choose( (uint32_t)pre.n ) : -1;
				int ret = -1; // index an iterator result should have
				int got = -1;
				size_t free_room = cap - (size_t)pre.n;
				bool threw = trk::faulted( [&] {
					switch( k ) {
					case 1:
						if constexpr( CP ) {
							op = "push_back(const&)";
							strong = true;
							stays = free_room >= 1;
							grows = not stays;
							int x = alias >= 0 ? pre.v[alias] : next++;
							post.ins( pre.n, &x, 1 );
							if( alias >= 0 ) {
								v.push_back( v[(size_t)alias] );
							} else {
								E e( x );
								v.push_back( e );
							}
							return;
						}
						break;
					case 2:
						op = "push_back(&&)";
						if constexpr( std::is_move_constructible_v<E> ) {
							strong = STRONG;
							stays = free_room >= 1;
							grows = not stays;
							int x = next++;
							post.ins( pre.n, &x, 1 );
							E e( x );
							v.push_back( std::move( e ) );
							return;
						}
						break;
					case 3: {
						op = "insert(const&)";
						if constexpr( CP and std::is_copy_assignable_v<E> ) {
							strong = at == pre.n;
							stays = free_room >= 1;
							int x = alias >= 0 ? pre.v[alias] : next++;
							post.ins( at, &x, 1 );
							ret = at;
							if( alias >= 0 ) {
								got = (int)( v.insert( v.begin( ) + at, v[(size_t)alias] ) - v.begin( ) );
							} else {
								E e( x );
								got = (int)( v.insert( v.begin( ) + at, e ) - v.begin( ) );
							}
							return;
						}
						break;
					}
					case 4: {
						op = "insert(&&)";
						if constexpr( std::is_move_assignable_v<E> and std::is_move_constructible_v<E> ) {
							strong = STRONG and at == pre.n;
							stays = free_room >= 1;
							int x = next++;
							post.ins( at, &x, 1 );
							ret = at;
							E e( x );
							got = (int)( v.insert( v.begin( ) + at, std::move( e ) ) - v.begin( ) );
							return;
						}
						break;
					}
					case 5: {
						op = "emplace";
						if constexpr( std::is_move_assignable_v<E> and std::is_move_constructible_v<E> ) {
							strong = STRONG and at == pre.n;
							stays = free_room >= 1;
							int x = alias >= 0 ? pre.v[alias] : next++;
							post.ins( at, &x, 1 );
							ret = at;
							if( alias >= 0 )
								got = (int)( v.emplace( v.begin( ) + at, v[(size_t)alias].v ) - v.begin( ) );
							else
								got = (int)( v.emplace( v.begin( ) + at, x ) - v.begin( ) );
							return;
						}
						break;
					}
					case 6:
						if constexpr( CP and std::is_copy_assignable_v<E> ) {
							op = "insert(n, x)";
							stays = free_room >= (size_t)n;
							int x = alias >= 0 ? pre.v[alias] : next++;
							for( int q = 0; q < n; ++q )
								vals[q] = x;
							post.ins( at, vals, n );
							ret = at;
							if( alias >= 0 ) {
								got = (int)( v.insert( v.begin( ) + at, (size_t)n, v[(size_t)alias] ) - v.begin( ) );
							} else {
								E e( x );
								got = (int)( v.insert( v.begin( ) + at, (size_t)n, e ) - v.begin( ) );
							}
							return;
						}
						break;
					case 7:
						if constexpr( std::is_move_assignable_v<E> and std::is_move_constructible_v<E> ) {
							op = "insert(single pass range)";
							stays = free_room >= (size_t)n;
							post.ins( at, vals, n );
							ret = at;
							got = (int)( v.insert( v.begin( ) + at, Input{ vals }, Input{ vals + n } ) - v.begin( ) );
							return;
						}
						break;
					case 8:
						if constexpr( std::is_move_assignable_v<E> and std::is_move_constructible_v<E> ) {
							op = "insert(range)";
							stays = free_room >= (size_t)n;
							post.ins( at, vals, n );
							ret = at;
							got = (int)( v.insert( v.begin( ) + at, Fwd{ vals }, Fwd{ vals + n } ) - v.begin( ) );
							return;
						}
						break;
					case 9:
						if( at < pre.n ) {
							op = "erase";
							stays = true;
							post.del( at, 1 );
							ret = at;
							got = (int)( v.erase( v.begin( ) + at ) - v.begin( ) );
							return;
						}
						break;
					case 10: {
						op = "erase(range)";
						stays = true;
						int e = at + (int)sim::choose( (uint32_t)( pre.n - at ) + 1 );
						post.del( at, e - at );
						ret = at;
						got = (int)( v.erase( v.begin( ) + at, v.begin( ) + e ) - v.begin( ) );
						return;
					}
					case 11:
						if constexpr( DF and std::is_move_constructible_v<E> ) {
							op = "resize";
							int t = at + n;
							strong = STRONG;
							stays = (size_t)t <= cap;
							memset( vals, 0, sizeof vals );
							if( t > pre.n )
								post.ins( pre.n, vals, t - pre.n );
							else
								post.n = t;
							v.resize( (size_t)t );
							return;
						}
						break;
					case 12:
						if constexpr( CP ) {
							op = sim::chance( 1, 2 ) ? "resize(n, x)" : "append(n, x)";
							int t = op[0] == 'a' ? pre.n + n : at + n;
							strong = true;
							stays = (size_t)t <= cap;
							int x = alias >= 0 ? pre.v[alias] : next++;
							for( int q = 0; q < 24; ++q )
								vals[q] = x;
							if( t > pre.n )
								post.ins( pre.n, vals, t - pre.n );
							else
								post.n = t;
							auto go = [&]( E const &e ) {
								if( op[0] == 'a' )
									v.append( (size_t)n, e );
								else
									v.resize( (size_t)t, e );
							};
							if( alias >= 0 ) {
								go( v[(size_t)alias] );
							} else {
								E e( x );
								go( e );
							}
							return;
						}
						break;
					case 13: {
						op = "assign(single pass range)";
						post.set( vals, n );
						v.assign( Input{ vals }, Input{ vals + n } );
						return;
					}
					case 14:
						if constexpr( std::is_move_assignable_v<E> or std::is_copy_assignable_v<E> ) {
							op = "assign(range)";
							stays = (size_t)n <= cap;
							post.set( vals, n );
							v.assign( Fwd{ vals }, Fwd{ vals + n } );
							return;
						}
						break;
					case 15:
						if constexpr( CP ) {
							op = "assign(n, x)";
							stays = (size_t)n <= cap;
							int x = next++;
							for( int q = 0; q < n; ++q )
								vals[q] = x;
							post.set( vals, n );
							E e( x );
							v.assign( (size_t)n, e );
							return;
						}
						break;
					case 16:
						if constexpr( CP )
							if( s[j] ) {
								op = "copy assignment";
								int al = post.al;
								post = m[j];
								if( not std::allocator_traits<A>::propagate_on_container_copy_assignment::value )
									post.al = al;
								v = *s[j];
								return;
							}
						break;
					case 17:
						if constexpr( std::is_move_constructible_v<E> and std::is_move_assignable_v<E> )
							if( s[j] ) {
								op = "move assignment";
								other = true;
								int al = post.al;
								post = m[j];
								if( not std::allocator_traits<A>::propagate_on_container_move_assignment::value )
									post.al = al;
								if( std::allocator_traits<A>::propagate_on_container_move_assignment::value or v.get_allocator( ) == s[j]->get_allocator( ) ) {
									post_j.n = 0;
									E *from = s[j]->data( );
									sim::Disarmed d; // cannot fail
									v = std::move( *s[j] );
									SIM_CHECK( v.data( ) == from, "wrong-content", "move assignment did not take the buffer over" );
								} else {
									post_j.n = -1; // valid, content unspecified
									v = std::move( *s[j] );
								}
								return;
							}
						break;
					case 18:
						if( s[j] and ( std::allocator_traits<A>::propagate_on_container_swap::value or v.get_allocator( ) == s[j]->get_allocator( ) ) ) {
							op = "swap";
							other = true;
							std::swap( post, post_j );
							if( not std::allocator_traits<A>::propagate_on_container_swap::value )
								std::swap( post.al, post_j.al );
							sim::Disarmed d;
							if( sim::chance( 1, 2 ) )
								v.swap( *s[j] );
							else
								swap( v, *s[j] );
							return;
						}
						break;
					case 19: {
						op = "reserve";
						if constexpr( std::is_move_constructible_v<E> ) {
							strong = STRONG;
							size_t t = (size_t)sim::choose( MAXN );
							stays = t <= cap;
							v.reserve( t );
							SIM_CHECK( v.capacity( ) >= t, "wrong-capacity", "capacity %zu after reserve(%zu)", v.capacity( ), t );
							bool le = false;
							try {
								v.reserve( v.max_size( ) + 1 );
							} catch( std::length_error const & ) {
								le = true;
							}
							SIM_CHECK( le, "no-length-error", "reserve beyond max_size() did not throw length_error" );
							return;
						}
						break;
					}
					case 20:
						op = "shrink_to_fit";
						if constexpr( std::is_move_constructible_v<E> ) {
							// documented never to throw; may leave the capacity as it is
							if constexpr( STRONG ) {
								v.shrink_to_fit( );
								return;
							}
						}
						break;
					case 21:
						if( pre.n ) {
							op = "pop_back_value";
							if constexpr( CP or std::is_nothrow_move_constructible_v<E> ) {
								stays = true;
								strong = true;
								post.del( pre.n - 1, 1 );
								E e = v.pop_back_value( );
								SIM_CHECK( e.val( ) == pre.v[pre.n - 1], "wrong-content", "pop_back_value returned %d, should be %d", e.val( ), pre.v[pre.n - 1] );
								return;
							} else {
								post.del( pre.n - 1, 1 );
								v.pop_back( );
								return;
							}
						}
						break;
					case 22: {
						if constexpr( std::is_move_constructible_v<E> ) {
							bool const app = sim::chance( 1, 2 );
							op = app ? "append_and_overwrite" : "resize_and_overwrite";
							// the callback gets room for t elements, the first `old` of them alive, and says how many are alive afterwards
							int t = app ? n : at + n;
							int keep = (int)sim::choose( (uint32_t)t + 1 );
							int old = app ? 0 : pre.n;
							int made = keep > old ? keep - old : 0;
							strong = STRONG;
							stays = (size_t)( app ? pre.n + n : t ) <= cap;
							int fresh[64];
							for( int q = 0; q < made; ++q )
								fresh[q] = next++;
							if( app ) {
								post.ins( pre.n, fresh, made );
							} else {
								if( keep < post.n )
									post.n = keep;
								post.ins( post.n, fresh, made );
							}
							auto fill = [&]( E *p, size_t sz ) {
								SIM_CHECK( (int)sz == t, "wrong-content", "overwrite callback got %zu, asked for %d", sz, t );
								int c = 0;
								try {
									for( ; c < made; ++c )
										new( p + old + c ) E( fresh[c] );
								} catch( ... ) {
									while( c )
										p[old + --c].~E( );
									throw;
								}
								return keep;
							};
							bool const with_alloc = sim::chance( 1, 2 );
							int r;
							if( with_alloc ) {
								auto f2 = [&]( E *p, size_t sz, A & ) { return fill( p, sz ); };
								r = app ? v.append_and_overwrite( (size_t)t, f2 ) : v.resize_and_overwrite( (size_t)t, f2 );
							} else {
								r = app ? v.append_and_overwrite( (size_t)t, fill ) : v.resize_and_overwrite( (size_t)t, fill );
							}
							SIM_CHECK( r == keep, "wrong-content", "%s returned %d, the callback %d", op, r, keep );
							return;
						}
						break;
					}
					case 23: {
						bool oor = false;
						op = "at";
						stays = true;
						int q = (int)sim::choose( (uint32_t)pre.n + 3 );
						try {
							int x = v.at( (size_t)q ).val( );
							SIM_CHECK( q < pre.n and x == pre.v[q], "wrong-content", "at(%d) of %d", q, pre.n );
							SIM_CHECK( &std::as_const( v ).at( (size_t)q ) == v.data( ) + q, "wrong-content", "const at(%d)", q );
						} catch( std::out_of_range const & ) {
							oor = true;
						}
						SIM_CHECK( oor == ( q >= pre.n ), "no-out-of-range", "at(%d) of %d elements %s", q, pre.n, oor ? "threw" : "did not throw" );
						return;
					}
					case 24: {
						if( sim::chance( 1, 2 ) ) {
							op = "erase(value)";
							if constexpr( std::is_move_assignable_v<E> ) {
								stays = true;
								int x = pre.n ? pre.v[at % pre.n] : 3;
								auto pred = [&]( E const &e ) {
									sim::throw_point( trk::S_CALL );
									return e.val( ) == x;
								};
								int c = 0;
								for( int q = 0; q < post.n; )
									if( post.v[q] == x )
										post.del( q, 1 ), ++c;
									else
										++q;
								int r;
								if( sim::chance( 1, 2 ) ) {
									r = (int)daw::erase_if( v, pred );
								} else {
									E e( x );
									r = (int)daw::erase( v, e );
								}
								SIM_CHECK( r == c, "wrong-content", "%s returned %d, %d elements were removed", op, r, c );
								return;
							}
						}
						op = "clear";
						stays = true;
						post.n = 0;
						v.clear( );
						return;
					}
					default:
						break;
					}
					op = "emplace_back";
					if constexpr( std::is_move_constructible_v<E> ) {
						strong = STRONG;
						stays = free_room >= 1;
						grows = not stays;
						int x = alias >= 0 ? pre.v[alias] : next++;
						post = pre;
						post.ins( pre.n, &x, 1 );
						E &r = alias >= 0 ? v.emplace_back( v[(size_t)alias].v ) : v.emplace_back( x );
						SIM_CHECK( &r == &v.back( ), "wrong-content", "emplace_back returned a reference to another element" );
					}
				} );
				sim::log( "%d: %s k %d at %d n %d alias %d%s", i, op, k, at, n, alias, threw ? " failed" : "" );
				if( threw ) {
					sim::probe( "operation-failed" );
					if( strong ) {
						sim::probe( "strong-guarantee-checked" );
						same<V, E>( v, pre, op, " (failed, must have no effect)" );
					} else {
						resync( i, op );
					}
					if( other and s[j] )
						resync( j, op );
				} else {
					if( post.n > 120 )
						sim::fail( "sim-limit", "model full" );
					same<V, E>( v, post, op, "" );
					SIM_CHECK( got == ret, "wrong-iterator", "%s returned an iterator to %d, should be %d", op, got, ret );
					if( stays )
						SIM_CHECK( v.data( ) == addr and v.capacity( ) == cap, "reallocated", "%s moved the elements although the capacity of %zu sufficed", op, cap );
					if( grows )
						SIM_CHECK( v.capacity( ) >= cap + cap / 2, "slow-growth", "%s grew the capacity only from %zu to %zu", op, cap, v.capacity( ) );
					m[i] = post;
					if( other ) {
						if( post_j.n == -1 ) {
							resync( j, op );
						} else {
							m[j] = post_j;
						}
					}
					sim::state( (uint64_t)k * 1000 + (uint64_t)post.n * 20 + (uint64_t)( v.capacity( ) - v.size( ) ) % 20 );
				}
				if constexpr( SA )
					SIM_CHECK( threw or alid( v ) == m[i].al, "wrong-allocator", "%s: allocator is %d, should be %d", op, alid( v ), m[i].al );
				else
					m[i].al = 1;
				if( threw )
					m[i].al = alid( v );
				for( int q = 0; q < NV; ++q )
					if( s[q] )
						same<V, E>( *s[q], m[q], op, " (all vectors)" );
				audit( op );
				if( s[j] and sim::chance( 1, 4 ) ) {
					sim::Disarmed d;
					bool eq = m[i].n == m[j].n and not memcmp( m[i].v, m[j].v, sizeof( int ) * (size_t)m[i].n );
					bool lt = std::lexicographical_compare( m[i].v, m[i].v + m[i].n, m[j].v, m[j].v + m[j].n );
					SIM_CHECK( ( v == *s[j] ) == eq and ( v != *s[j] ) == not eq and ( v < *s[j] ) == lt and ( v >= *s[j] ) == not lt and ( v > *s[j] ) == ( not eq and not lt ) and ( v <= *s[j] ) == ( eq or lt ), "wrong-comparison", "comparison of vectors %d and %d", i, j );
				}
				if( sim::chance( 1, 6 ) ) {
					s[i]->~V( );
					s[i] = nullptr;
					m[i] = Mod{ };
					audit( "destruction" );
				}
			}
			for( int i = 0; i < NV; ++i )
				if( s[i] )
					s[i]->~V( );
			(void)total_before;
		}
		SIM_CHECK( led.n == 0, "leaked-memory", "%d blocks were never deallocated", led.n );
		w.end( "element" );
	}
	template<typename E>
	void kinds( ) {
		switch( sim::choose( 4 ) ) {
		case 0:
			return run<E, std::allocator<E>>( );
		case 1:
			return run<E, Al<E, false, false>>( );
		case 2:
			return run<E, Al<E, true, false>>( );
		default:
			return run<E, Al<E, false, true>>( );
		}
	}
}
SIM_SCENARIO( copyable, 3 ) { kinds<trk::Copy>( ); }
SIM_SCENARIO( nothrow_move, 3 ) { kinds<trk::NxMove>( ); }
SIM_SCENARIO( move_only, 2 ) { kinds<trk::MoveOnly>( ); }
SIM_SCENARIO( move_only_throwing, 1 ) { kinds<trk::MoveOnlyThrow>( ); }
SIM_SCENARIO( copy_only, 2 ) { kinds<trk::CopyOnly>( ); }

// appending a sequence of unknown length in blocks
namespace {
template<typename E, typename F>
void blocks( F value ) {
	trk::World wd;
	trk::standard_faults( );
	{
	int src[96];
	for( int i = 0; i < 96; ++i )
		src[i] = i + 1;
	int const n = (int)sim::choose( std::is_same_v<E, int> ? 80 : 24 );
	int const block = 1 + (int)sim::choose( 20 );
	int const have = (int)sim::choose( 20 );
	daw::vector<E> v;
	for( int i = 0; i < have; ++i )
		v.push_back( -i - 1 );
	bool const create = sim::chance( 1, 4 );
	bool const input = sim::chance( 1, 2 );
	daw::vector<E> w;
	bool threw = trk::faulted( [&] {
		if( create ) {
			if( input )
				w = daw::block_create_from<E>( Input{ src }, Input{ src + n }, (size_t)block );
			else
				w = daw::block_create_from<E>( src, src + n, (size_t)block );
		} else if( input ) {
			daw::block_append_from( v, Input{ src }, Input{ src + n }, (size_t)block );
		} else {
			daw::block_append_from( v, src, src + n, (size_t)block );
		}
	} );
	sim::log( "block append of %d in blocks of %d to %d%s", n, block, have, threw ? " failed" : "" );
	auto &r = create ? w : v;
	int const base = create ? 0 : have;
	if( not threw )
		SIM_CHECK( (int)r.size( ) == base + n, "wrong-content", "block append of %d elements (block %d) to %d gives %zu", n, block, base, r.size( ) );
	else
		SIM_CHECK( r.size( ) >= (size_t)( create ? 0 : base ), "wrong-content", "a failed block append removed elements" );
	for( int i = 0; i < (int)r.size( ); ++i ) {
		int want = i < base ? -i - 1 : src[i - base];
		SIM_CHECK( value( r[(size_t)i] ) == want, "wrong-content", "element %d is %d, should be %d", i, value( r[(size_t)i] ), want );
	}
	}
	wd.end( );
}
}
SIM_SCENARIO( block_append, 1 ) { blocks<int>( []( int x ) { return x; } ); }
SIM_SCENARIO( block_append_objects, 1 ) { blocks<trk::Copy>( []( trk::Copy const &x ) { return x.val( ); } ); }
