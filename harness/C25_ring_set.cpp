// runtime: conc
// C25: a ring gives back what was put in, in order, and a hash set has exactly its keys.
#include "tracked.h"

#include <array>
#include <daw/daw_hash_set.h>
#include <daw/daw_ring_adaptor.h>
#include <stdexcept>
#include <vector>

namespace sim {
	HarnessInfo const harness = {
	  "C25",
	  "A seeded run pushes, emplaces, pops, reads, changes, clears, copies and assigns rings over arrays, std::array, std::span and vectors of five element types, or inserts, erases, looks up and counts keys of three types with good and colliding hashes in fixed-size hash sets, full and of size zero included, with failing allocation and throwing copies, moves, hashes and comparisons at any point, and compares everything with a model. A run is non-trivial if a fault fired.",
	  "daw_ring_adaptor.h, daw_hash_set.h, daw_indexed_iterator.h",
	  "operator new, element operations, hashes, comparisons",
	  500000, 12000000, true };
}
namespace {
	int val( int v ) { return v; }
	template<unsigned F>
	int val( trk::Elem<F> const &t ) { return t.val( ); }

	struct Model {
		int v[64];
		size_t n = 0;
		void push( int x ) { v[n++] = x; }
		void pop( ) {
			for( size_t i = 1; i < n; ++i )
				v[i - 1] = v[i];
			--n;
		}
	};
	template<typename R>
	void same( R &r, Model const &m, size_t cap, char const *after ) {
		sim::Disarmed d;
		R const &c = r;
		SIM_CHECK( c.capacity( ) == cap, "wrong-capacity", "after %s a ring has capacity %zu instead of %zu", after, (size_t)c.capacity( ), cap );
		SIM_CHECK( c.size( ) == m.n and c.is_empty( ) == ( m.n == 0 ) and c.is_full( ) == ( m.n == cap ), "wrong-size", "after %s a ring of %zu has %zu elements instead of %zu", after, cap, (size_t)c.size( ), m.n );
		for( size_t i = 0; i < m.n; ++i )
			SIM_CHECK( val( c[i] ) == m.v[i] and val( r[i] ) == m.v[i], "wrong-element", "after %s element %zu of a ring is %d instead of %d", after, i, val( c[i] ), m.v[i] );
		size_t k = 0;
		for( auto &e : r )
			SIM_CHECK( k < m.n and val( e ) == m.v[k++], "wrong-element", "after %s a walk over a ring finds something else", after );
		SIM_CHECK( k == m.n, "wrong-element", "after %s a walk over a ring finds %zu elements", after, k );
		k = 0;
		for( auto const &e : c )
			SIM_CHECK( k < m.n and val( e ) == m.v[k++], "wrong-element", "after %s a walk over a const ring finds something else", after );
		SIM_CHECK( k == m.n and size_t( c.end( ) - c.begin( ) ) == m.n, "wrong-element", "after %s a walk over a ring finds %zu elements", after, k );
	}
	template<typename T, bool Copyable, typename R, typename... Args>
	void ring( size_t cap, Args &&...args ) {
		constexpr bool copyable = Copyable;
		R r( std::forward<Args>( args )... );
		Model m;
		same( r, m, cap, "making" );
		int next = 1, ops = 4 + (int)sim::choose( 30 );
		for( int i = 0; i < ops; ++i ) {
			char const *what = "";
			switch( sim::choose( 10 ) ) {
			case 0:
			case 1: {
				what = "push_back of an lvalue";
				if( m.n == cap )
					break;
				if constexpr( std::is_copy_constructible_v<T> ) {
					if( m.n and not sim::choose( 3 ) ) {
						size_t const k = sim::choose( (uint32_t)m.n );
						what = "push_back of one of its elements";
						int const x = m.v[k];
						if( not trk::faulted( [&] {
							    auto &e = r.push_back( r[k] );
							    SIM_CHECK( &e == &r[m.n] or m.n + 1 != r.size( ), "wrong-element", "push_back returned another element" );
						    } ) )
							m.push( x );
						break;
					}
					T const t( next );
					if( not trk::faulted( [&] {
						    auto &e = r.push_back( t );
						    SIM_CHECK( val( e ) == next, "wrong-element", "push_back returned another element" );
					    } ) )
						m.push( next );
					++next;
				}
				break;
			}
			case 2: {
				what = "push_back of an rvalue";
				if( m.n == cap )
					break;
				T t( next );
				if( not trk::faulted( [&] { r.push_back( std::move( t ) ); } ) )
					m.push( next );
				++next;
				break;
			}
			case 3:
			case 4: {
				what = "emplace_back";
				if( m.n == cap )
					break;
				if( not trk::faulted( [&] {
					    auto &e = r.emplace_back( next );
					    SIM_CHECK( val( e ) == next, "wrong-element", "emplace_back returned another element" );
				    } ) )
					m.push( next );
				++next;
				break;
			}
			case 5:
			case 6:
			case 7: {
				what = "pop_front";
				if( not m.n )
					break;
				if( not trk::faulted( [&] {
					    T t = r.pop_front( );
					    sim::Disarmed d;
					    SIM_CHECK( val( t ) == m.v[0], "wrong-element", "pop_front gave %d instead of %d", val( t ), m.v[0] );
				    } ) )
					m.pop( );
				break;
			}
			case 8: {
				what = "a change of an element";
				if( not m.n )
					break;
				size_t const k = sim::choose( (uint32_t)m.n );
				if( not trk::faulted( [&] { r[k] = T( next ); } ) )
					m.v[k] = next;
				++next;
				break;
			}
			default:
				what = "clear";
				if( sim::choose( 3 ) ) {
					what = "copying";
					if constexpr( copyable ) {
						trk::faulted( [&] {
							R c = r;
							sim::Disarmed d;
							same( c, m, cap, "copying" );
							if( m.n ) {
								T t = c.pop_front( );
								SIM_CHECK( val( t ) == m.v[0], "wrong-element", "pop_front of a copy gave something else" );
							}
						} );
					}
					break;
				}
				r.clear( );
				m.n = 0;
			}
			same( r, m, cap, what );
		}
	}
	template<typename T>
	void rings( ) {
		trk::World w;
		int64_t const base = sim::live_allocs( );
		{
			sim::Disarmed d;
			if constexpr( std::is_default_constructible_v<T> ) {
				switch( sim::choose( 6 ) ) {
				case 0: ring<T, true, daw::ring_adaptor<T[1]>>( 1 ); break;
				case 1: ring<T, true, daw::ring_adaptor<T[5]>>( 5 ); break;
				case 2: ring<T, true, daw::ring_adaptor<std::array<T, 3>>>( 3 ); break;
				case 3: {
					T store[7]{ };
					std::span<T> s( store );
					ring<T, false, daw::ring_adaptor<std::span<T, 7>>>( 7, store );
					break;
				}
				default: {
					size_t const n = 1 + sim::choose( 9 );
					std::vector<T> v( n );
					ring<T, true, daw::ring_adaptor<std::vector<T>>>( n, std::move( v ) );
				}
				}
			} else {
				size_t const n = 1 + sim::choose( 9 );
				std::vector<T> v;
				for( size_t i = 0; i < n; ++i )
					v.emplace_back( 0 );
				ring<T, false, daw::ring_adaptor<std::vector<T>>>( n, std::move( v ) );
			}
		}
		w.end( );
		SIM_CHECK( sim::live_allocs( ) == base, "leak", "a ring left memory behind" );
	}

	// ---- hash sets
	template<typename K, unsigned Mod>
	struct Hash {
		size_t operator( )( K const &k ) const {
			sim::throw_point( trk::S_HASH );
			int const v = val( k );
			return Mod ? (size_t)( v % (int)Mod ) : (size_t)v;
		}
	};
	constexpr int KEYS = 14;
	struct SetModel {
		bool in[KEYS] = { };
		size_t pos[KEYS] = { };
		size_t n = 0;
	};
	template<typename S, typename K>
	void same_set( S const &s, K const *keys, SetModel const &m, size_t cap, char const *after ) {
		sim::Disarmed d;
		SIM_CHECK( s.capacity( ) == cap, "wrong-capacity", "after %s a set has capacity %zu instead of %zu", after, s.capacity( ), cap );
		SIM_CHECK( s.size( ) == m.n, "wrong-size", "after %s a set has %zu keys instead of %zu", after, s.size( ), m.n );
		for( int k = 0; k < KEYS; ++k ) {
			SIM_CHECK( s.exists( keys[k] ) == m.in[k], "wrong-keys", "after %s key %d is %s", after, k, m.in[k] ? "missing" : "in the set" );
			SIM_CHECK( s.count( keys[k] ) == m.in[k], "wrong-keys", "after %s key %d is counted %zu times", after, k, (size_t)s.count( keys[k] ) );
		}
	}
	template<typename K, unsigned Mod>
	void set( ) {
		trk::World w;
		int64_t const base = sim::live_allocs( );
		{
			sim::Disarmed d0;
			using S = daw::hash_set_t<K, Hash<K, Mod>>;
			size_t cap = sim::choose( 12 );
			std::vector<K> keys;
			keys.reserve( KEYS );
			for( int k = 0; k < KEYS; ++k )
				keys.emplace_back( k );
			std::optional<S> s;
			while( trk::faulted( [&] { s.emplace( cap ); } ) )
				SIM_CHECK( not s, "wrong-state", "a set that could not be made is there" );
			SetModel m;
			same_set( *s, keys.data( ), m, cap, "making" );
			int const ops = 4 + (int)sim::choose( 40 );
			for( int i = 0; i < ops; ++i ) {
				char const *what = "";
				int const k = (int)sim::choose( KEYS );
				switch( sim::choose( 8 ) ) {
				case 0:
				case 1:
				case 2:
				case 3: {
					what = "insert";
					bool full = false;
					size_t at = 0;
					bool const f = trk::faulted( [&] {
						try {
							at = (size_t)s->insert( keys[(size_t)k] );
						} catch( std::out_of_range const & ) { full = true; }
					} );
					if( f )
						break;
					SIM_CHECK( full == ( not m.in[k] and m.n == cap ), "wrong-result", "insert into a set with %zu of %zu keys %s", m.n, cap, full ? "says it is full" : "found room" );
					if( full )
						break;
					SIM_CHECK( at < cap, "wrong-position", "insert returned position %zu of %zu", at, cap );
					for( int j = 0; j < KEYS; ++j )
						if( m.in[j] )
							SIM_CHECK( ( m.pos[j] == at ) == ( j == k ), "wrong-position", "insert of key %d returned position %zu, key %d is at %zu", k, at, j, m.pos[j] );
					m.pos[k] = at;
					m.n += not m.in[k];
					m.in[k] = true;
					break;
				}
				case 4:
				case 5: {
					what = "erase";
					std::optional<size_t> at;
					if( trk::faulted( [&] { at = s->erase( keys[(size_t)k] ); } ) )
						break;
					SIM_CHECK( at.has_value( ) == m.in[k], "wrong-result", "erase of a key that is %s returned %s", m.in[k] ? "there" : "not there", at ? "a position" : "nothing" );
					if( at )
						SIM_CHECK( *at == m.pos[k], "wrong-position", "erase returned position %zu instead of %zu", *at, m.pos[k] );
					m.n -= m.in[k];
					m.in[k] = false;
					break;
				}
				case 6: {
					what = "looking up";
					bool e = false;
					size_t c = 0;
					if( not trk::faulted( [&] {
						    e = s->exists( keys[(size_t)k] );
						    c = s->count( keys[(size_t)k] );
					    } ) )
						SIM_CHECK( e == m.in[k] and c == m.in[k], "wrong-keys", "key %d is %s", k, m.in[k] ? "missing" : "in the set" );
					break;
				}
				default: {
					what = "copying";
					trk::faulted( [&] {
						S c = *s;
						same_set( c, keys.data( ), m, cap, "copying" );
						sim::Disarmed d;
						if( m.in[k] ) {
							c.erase( keys[(size_t)k] );
							SIM_CHECK( not c.exists( keys[(size_t)k] ), "wrong-keys", "an erased key is still there" );
						}
						if( sim::choose( 2 ) ) {
							S t = std::move( *s );
							same_set( t, keys.data( ), m, cap, "moving" );
							*s = std::move( t );
						}
					} );
				}
				}
				same_set( *s, keys.data( ), m, cap, what );
			}
		}
		w.end( );
		SIM_CHECK( sim::live_allocs( ) == base, "leak", "a set left memory behind" );
	}
} // namespace
SIM_SCENARIO( rings, 1 ) {
	trk::standard_faults( );
	switch( sim::choose( 6 ) ) {
	case 0: return rings<int>( );
	case 1: return rings<trk::Copy>( );
	case 2: return rings<trk::NxMove>( );
	case 3: return rings<trk::CopyOnly>( );
	case 4: return rings<trk::MoveOnly>( );
	default: return rings<trk::MoveOnlyThrow>( );
	}
}
SIM_SCENARIO( sets, 1 ) {
	trk::standard_faults( );
	switch( sim::choose( 6 ) ) {
	case 0: return set<int, 0>( );
	case 1: return set<int, 3>( );
	case 2: return set<trk::Copy, 0>( );
	case 3: return set<trk::Copy, 3>( );
	case 4: return set<trk::CopyOnly, 1>( );
	default: return set<trk::NxMove, 2>( );
	}
}
