// runtime: conc
// C38: a perfect hash table finds the keys it was made from, and only those.
#include "tracked.h"

#include <cstdint>
#include <daw/daw_min_perfect_hash.h>
#include <iterator>
#include <memory>
#include <new>
#include <string_view>
#include <utility>
#include <vector>

namespace sim {
	HarnessInfo const harness = {
	  "C38",
	  "A seeded run makes a table of 1 to 33 random distinct keys (dense, strided, high bits only, random, default key in or out) with a hasher that is the identity, a multiple, a byte swap or a mixer, from pointers, checked forward iterators or an array, while the hasher, the key comparison or an iterator step may throw, and looks up every key, near misses and strangers, writing values through what it finds. A run is non-trivial if a fault fired or a key that is not in the table was looked up.",
	  "daw_min_perfect_hash.h, daw_bounded_vector.h, daw_sort_n.h",
	  "hasher, key comparison, iterators",
	  3000000, 100000000, true };
}
namespace {
	enum { S_ITER = 20 };
	uint64_t g_hashed;   // calls of the hasher in this table
	unsigned g_hash;     // which hash function
	unsigned g_stride;
	void hashing( ) {
		sim::throw_point( trk::S_HASH );
		++g_hashed;
		SIM_CHECK( g_hashed < 60000, "never-done", "the hasher was called %llu times and the table is not finished", (unsigned long long)g_hashed );
	}
	// all of them give distinct keys distinct hashes
	template<typename R>
	struct Hash {
		R operator( )( R k ) const {
			hashing( );
			switch( g_hash ) {
			case 0: return k;
			case 1: return static_cast<R>( k * static_cast<R>( 0x9e3779b1U ) );
			case 2: return sizeof( R ) == 8 ? static_cast<R>( __builtin_bswap64( k ) ) : static_cast<R>( __builtin_bswap32( (uint32_t)k ) );
			case 3: return static_cast<R>( ~k );
			default: {
				R h = k;
				h ^= h >> ( sizeof( R ) * 4 );
				h *= static_cast<R>( 0x9e3779b97f4a7c15ull );
				h ^= h >> ( sizeof( R ) * 4 - 1 );
				return h;
			}
			}
		}
	};
	// a key compared the way it is hashed: its low bit does not count
	template<typename R>
	struct HalfHash {
		R operator( )( R k ) const { return Hash<R>{ }( k >> 1U ); }
	};
	struct Equal {
		template<typename T>
		bool operator( )( T const &a, T const &b ) const {
			sim::throw_point( trk::S_COMPARE );
			return a == b;
		}
	};
	struct HalfEqual {
		template<typename T>
		bool operator( )( T const &a, T const &b ) const {
			sim::throw_point( trk::S_COMPARE );
			return ( a >> 1U ) == ( b >> 1U );
		}
	};
	template<typename K>
	struct Item {
		K first;
		int second;
	};
	template<typename T>
	struct Fwd {
		using value_type = T;
		using reference = T const &;
		using pointer = T const *;
		using difference_type = ptrdiff_t;
		using iterator_category = std::forward_iterator_tag;
		T const *p = nullptr, *b = nullptr, *e = nullptr;
		void ok( ) const {
			SIM_CHECK( p and p >= b and p < e, "out-of-range", "an iterator is used at %td of %td", p - b, e - b );
			sim::throw_point( S_ITER );
		}
		reference operator*( ) const {
			ok( );
			return *p;
		}
		pointer operator->( ) const { return &**this; }
		Fwd &operator++( ) {
			ok( );
			++p;
			return *this;
		}
		Fwd operator++( int ) {
			Fwd r = *this;
			++*this;
			return r;
		}
		friend bool operator==( Fwd const &x, Fwd const &y ) { return x.p == y.p; }
		friend bool operator!=( Fwd const &x, Fwd const &y ) { return x.p != y.p; }
	};
	template<typename K>
	K key_at( unsigned kind, uint64_t base, unsigned i ) {
		switch( kind ) {
		case 0: return static_cast<K>( i );                                     // dense, the default key in it
		case 1: return static_cast<K>( i + 1 );                                 // dense, without it
		case 2: return static_cast<K>( base + ( uint64_t( i ) << g_stride ) );  // strided
		case 3: return static_cast<K>( uint64_t( i + 1 ) << ( sizeof( K ) * 8 - 7 ) ); // high bits only
		default: {
			uint64_t h = base + i * 0x9e3779b97f4a7c15ull;
			h = ( h ^ ( h >> 30U ) ) * 0xbf58476d1ce4e5b9ull;
			return static_cast<K>( h ^ ( h >> 31U ) );
		}
		}
	}
	template<size_t N, typename K, typename H, typename E, unsigned Shift>
	void table( ) {
		using Table = daw::perfect_hash_table<N, K, int, H, E>;
		using P = std::pair<K, int>;
		g_hash = sim::choose( 5 );
		unsigned const kind = sim::choose( 5 );
		g_stride = 1 + sim::choose( 16 );
		uint64_t const base = sim::chance( 1, 2 ) ? 0 : sim::choose64( );
		std::vector<P> items;
		auto const half = []( K k ) { return k >> Shift; };
		auto const at = [&]( K k ) {
			for( size_t i = 0; i < items.size( ); ++i )
				if( half( items[i].first ) == half( k ) )
					return (int)i;
			return -1;
		};
		{
			sim::Quiet q;
			items.reserve( N );
			unsigned const step = 1 + sim::choose( 3 );
			for( unsigned i = 0; items.size( ) < N; i += step ) {
				K const k = static_cast<K>( key_at<K>( kind, base, i ) << Shift );
				if( at( k ) < 0 )
					items.emplace_back( k, (int)items.size( ) * 7 + 3 );
				if( i > 5000 )
					return;
			}
			// in any order
			for( size_t i = N; i > 1; --i )
				std::swap( items[i - 1], items[sim::choose( (uint32_t)i )] );
		}
		trk::standard_faults( );
		alignas( Table ) static unsigned char room[sizeof( Table )];
		memset( room, sim::choose( 2 ) ? 0xff : 0, sizeof room );
		g_hashed = 0;
		Table *t = nullptr;
		unsigned const from = sim::choose( 3 );
		try {
			sim::Armed a;
			if( from == 0 ) {
				t = new( room ) Table( items.data( ), items.data( ) + N );
			} else if( from == 1 ) {
				using It = Fwd<P>;
				P const *const b = items.data( );
				t = new( room ) Table( It{ b, b, b + N }, It{ b + N, b, b + N } );
			} else {
				t = new( room ) Table( *reinterpret_cast<P const( * )[N]>( items.data( ) ) );
			}
		} catch( sim::Injected const & ) {
			sim::probe( "fault" );
			return;
		}
		g_hashed = 0;
		sim::log( "%zu keys kind %u hash %u from %u", N, kind, g_hash, from );
		sim::state( N * 1024 + kind * 64 + g_hash * 8 + from );
		SIM_CHECK( t->size( ) == N, "wrong-size", "a table of %zu says it has %zu", N, (size_t)t->size( ) );
		std::vector<int> values;
		{
			sim::Quiet q;
			for( auto const &i : items )
				values.push_back( i.second );
		}
		int const *where[N] = { };
		auto const look = [&]( K k ) {
			int const i = at( k );
			if( i < 0 )
				sim::probe( "absent" );
			int *got = nullptr;
			bool fault = false;
			unsigned const how = sim::choose( 4 );
			try {
				sim::Armed a;
				switch( how ) {
				case 0: got = t->find( k ); break;
				case 1: got = const_cast<int *>( static_cast<Table const &>( *t ).find( k ) ); break;
				case 2:
					if( i < 0 )
						return; // what operator[] gives for another key is not promised
					got = &( *t )[k];
					break;
				default:
					if( i < 0 )
						return;
					got = const_cast<int *>( &static_cast<Table const &>( *t )[k] );
				}
			} catch( sim::Injected const & ) {
				fault = true;
			}
			if( fault ) {
				sim::probe( "fault" );
				return;
			}
			bool const has = t->contains( k );
			if( i < 0 ) {
				SIM_CHECK( not got and not has, "found-absent", "the table of %zu keys found %llu, which is not one of them", N, (unsigned long long)k );
				return;
			}
			SIM_CHECK( got and has, "lost-key", "the table of %zu keys did not find %llu, number %d of them", N, (unsigned long long)k, i );
			SIM_CHECK( *got == values[(size_t)i], "wrong-value", "key %llu has the value %d instead of %d", (unsigned long long)k, *got, values[(size_t)i] );
			SIM_CHECK( not where[i] or where[i] == got, "moved", "two look ups of key %llu gave different places", (unsigned long long)k );
			where[i] = got;
			if( sim::chance( 1, 3 ) )
				*got = values[(size_t)i] = (int)sim::choose( 1000 );
		};
		for( size_t i = 0; i < N; ++i )
			look( static_cast<K>( items[i].first + ( Shift ? sim::choose( 2 ) : 0 ) ) );
		look( K{ } );
		for( int n = 6; n > 0; --n ) {
			K const near = items[sim::choose( N )].first;
			switch( sim::choose( 5 ) ) {
			case 0: look( static_cast<K>( near + ( 1U << Shift ) ) ); break;
			case 1: look( static_cast<K>( near ^ ( K( 1 ) << ( Shift + sim::choose( sizeof( K ) * 8 - Shift ) ) ) ) ); break;
			case 2: look( static_cast<K>( near + ( K( 1 ) << ( sizeof( K ) * 8 - 8 ) ) ) ); break;
			case 3: look( near ); break;
			default: look( static_cast<K>( sim::choose64( ) ) );
			}
		}
		// a copy is a table of its own
		Table copy = *t;
		for( size_t i = 0; i < N; ++i ) {
			auto const *const p = copy.find( items[i].first );
			SIM_CHECK( p and *p == values[i], "bad-copy", "the copy of the table has lost key number %zu", i );
			auto *const o = t->find( items[i].first );
			SIM_CHECK( o and *o == values[i] and o != p, "lost-key", "key number %zu is no longer found or is shared with the copy", i );
		}
	}
	template<size_t N>
	void sized( ) {
		switch( sim::choose( 4 ) ) {
		case 0: return table<N, uint32_t, Hash<uint32_t>, Equal, 0>( );
		case 1: return table<N, uint64_t, HalfHash<uint64_t>, HalfEqual, 1>( );
		default: return table<N, uint64_t, Hash<uint64_t>, Equal, 0>( );
		}
	}

	struct StdEnd { };
	// what the standard hasher makes of ints is the int itself
	template<size_t N>
	void standard( ) {
		std::pair<int, std::string_view> items[N];
		unsigned const shift = sim::choose( 24 );
		int const off = sim::chance( 1, 2 ) ? 0 : (int)sim::choose( 1000 ) - 500;
		for( size_t i = 0; i < N; ++i )
			items[i] = { (int)( i << shift ) + off, std::string_view( "abcdefghijklmnopqrstuvwxyz" ).substr( i, 3 ) };
		daw::perfect_hash_table<N, int, std::string_view> const t( items );
		for( size_t i = 0; i < N; ++i ) {
			auto const *const p = t.find( items[i].first );
			SIM_CHECK( p and *p == items[i].second and t.contains( items[i].first ) and t[items[i].first] == items[i].second, "lost-key", "key number %zu is not found with its value", i );
		}
		for( int n = 0; n < 6; ++n ) {
			int const k = (int)sim::choose64( );
			bool in = false;
			for( auto const &i : items )
				in = in or i.first == k;
			sim::probe( "absent" );
			SIM_CHECK( ( t.find( k ) != nullptr ) == in and t.contains( k ) == in, "found-absent", "the table found a key that it was not made from" );
		}
	}
} // namespace

SIM_SCENARIO( tables, 8 ) {
	switch( sim::choose( 13 ) ) {
	case 0: return sized<1>( );
	case 1: return sized<2>( );
	case 2: return sized<3>( );
	case 3: return sized<4>( );
	case 4: return sized<5>( );
	case 5: return sized<6>( );
	case 6: return sized<7>( );
	case 7: return sized<8>( );
	case 8: return sized<9>( );
	case 9: return sized<15>( );
	case 10: return sized<16>( );
	case 11: return sized<32>( );
	default: return sized<33>( );
	}
}
// std::hash hangs rather than failing when keys never separate: bounded by the step limit of the process
SIM_SCENARIO( standard_hash, 1 ) {
	switch( sim::choose( 4 ) ) {
	case 0: return standard<1>( );
	case 1: return standard<4>( );
	case 2: return standard<6>( );
	default: return standard<16>( );
	}
}
