// extra: fs.cpp
// C09: memory mapped files show the file, report failure truthfully and leak nothing.
#include "fs.h"
#include "tracked.h"

#include <daw/daw_ensure.h>
#include <daw/daw_memory_mapped_file.h>

#include <new>
#include <optional>
#include <string_view>

namespace sim {
	HarnessInfo const harness = {
	  "C09",
	  "A seeded run makes up to four files of chosen sizes (absent, empty, page multiples, odd, unreadable, read-only, a directory) in a simulated file system, then opens, reopens, moves, self-moves, assigns, swaps and destroys up to 3 mapped-file objects of one value type (1, 2, 4 or 8 bytes) with descriptors numbered from 0, 3 or 1000. Every open, lseek, fstat, mmap and close may fail and another process may grow, shrink or delete the file between two calls. A run is non-trivial if at least one open was attempted with a fault or a race.",
	  "daw_memory_mapped_file.h, daw_unique_resource.h, daw_string_view.h (path argument)",
	  "open, close, lseek, fstat, stat, read, mmap, munmap (simulated kernel; the mapping itself is a real one of a memory file)",
	  1200000, 40000000, false };
}
namespace {
	using daw::filesystem::open_mode;
	constexpr int NS = 3;
	bool raced;
	size_t seen_sizes[64];
	int nseen;
	int race_target;
	void note_sizes( ) {
		if( nseen < 64 )
			seen_sizes[nseen++] = simfs::files[race_target].size;
	}
	void resize_file( int f, size_t n ) {
		auto &x = simfs::files[f];
		auto *c = simfs::content( f );
		if( n > simfs::FILE_MAX )
			n = simfs::FILE_MAX;
		for( size_t k = x.size; k < n; ++k )
			c[k] = (unsigned char)( k * 7 + (size_t)f + 1 );
		if( n < x.size )
			memset( c + n, 0, x.size - n );
		x.size = n;
	}
	void race( ) {
		auto &x = simfs::files[race_target];
		raced = true;
		switch( sim::choose( 4 ) ) {
		case 0:
			resize_file( race_target, x.size + 1 + sim::choose( 5000 ) );
			break;
		case 1:
			resize_file( race_target, x.size / 2 );
			break;
		case 2:
			resize_file( race_target, 0 );
			break;
		default:
			x.exists = false; // unlinked; who has it open keeps it
			break;
		}
		note_sizes( );
	}

	template<typename T>
	void run( ) {
		using M = daw::filesystem::memory_mapped_file_t<T>;
		static int const bases[] = { 3, 0, 1000 };
		simfs::begin( bases[sim::choose( 3 )] );
		sim::swarm( sim::D_IO, { 0, 4000, 12000, 24000 } );
		sim::swarm( sim::D_RACEFS, { 0, 0, 6000 } );
		static size_t const sizes[] = { 10, 0, 1, 4096, 4095, 4097, 8192, 12289, 7, 16 };
		for( int f = 0; f < simfs::NFILES; ++f ) {
			auto &x = simfs::files[f];
			x.exists = not sim::chance( 1, 6 );
			x.readable = not sim::chance( 1, 10 );
			x.writable = not sim::chance( 1, 6 );
			x.dir = sim::chance( 1, 14 );
			resize_file( f, sizes[sim::choose( 10 )] );
		}
		struct Slot {
			bool there; // object exists
			bool open;
			int file;
			size_t bytes;
			open_mode mode;
		} m[NS] = { };
		alignas( M ) unsigned char room[NS][sizeof( M )];
		auto obj = [&]( int i ) -> M & { return *std::launder( reinterpret_cast<M *>( room[i] ) ); };
		auto audit = [&]( char const *op ) {
			int n = 0;
			for( int i = 0; i < NS; ++i )
				n += m[i].there and m[i].open;
			SIM_CHECK( simfs::live_mappings( ) == n, "leaked-mapping", "%s: %d mappings are live, %d objects are open", op, simfs::live_mappings( ), n );
			SIM_CHECK( simfs::open_descriptors( ) <= n, "leaked-descriptor", "%s: %d descriptors are open, %d objects are open", op, simfs::open_descriptors( ), n );
		};
		auto look = [&]( int i, char const *op ) {
			if( not m[i].there )
				return;
			M &o = obj( i );
			M const &c = o;
			Slot const &s = m[i];
			SIM_CHECK( static_cast<bool>( c ) == s.open, "wrong-state", "%s: object %d says it is %s", op, i, s.open ? "closed, it is open" : "open, it is closed" );
			size_t const n = s.open ? s.bytes / sizeof( T ) : 0;
			SIM_CHECK( c.size( ) == n, "wrong-size", "%s: size() is %zu for a file of %zu bytes of %zu byte values", op, c.size( ), s.open ? s.bytes : 0, sizeof( T ) );
			SIM_CHECK( c.empty( ) == ( n == 0 ), "wrong-state", "%s: empty() is wrong", op );
			SIM_CHECK( c.begin( ) == c.data( ) and o.begin( ) == o.data( ) and c.cbegin( ) == c.data( ) and o.data( ) == c.data( ), "wrong-range", "%s: begin() is not data()", op );
			if( not s.open ) {
				SIM_CHECK( c.data( ) == nullptr and c.end( ) == c.begin( ) and o.end( ) == o.begin( ), "wrong-state", "%s: a closed object shows data", op );
				return;
			}
			SIM_CHECK( o.end( ) == o.begin( ) + n and c.end( ) == c.begin( ) + n and c.cend( ) == c.end( ), "wrong-range", "%s: [begin, end) is not %zu values", op, n );
			SIM_CHECK( simfs::mapping_of( c.data( ), n * sizeof( T ) ) >= 0, "wrong-range", "%s: data() does not point to a mapping of %zu bytes", op, n * sizeof( T ) );
			size_t vis = s.bytes < simfs::files[s.file].size ? s.bytes : simfs::files[s.file].size;
			SIM_CHECK( memcmp( c.data( ), simfs::content( s.file ), vis ) == 0, "wrong-content", "%s: the mapping does not show the file", op );
			if( vis / sizeof( T ) ) {
				size_t k = sim::choose( (uint32_t)( vis / sizeof( T ) ) );
				T v;
				memcpy( &v, simfs::content( s.file ) + k * sizeof( T ), sizeof( T ) );
				SIM_CHECK( c[k] == v and o[k] == v, "wrong-content", "%s: value %zu is wrong", op, k );
			}
			if constexpr( std::is_same_v<T, char> ) {
				std::string_view sv = c;
				SIM_CHECK( sv.data( ) == c.data( ) and sv.size( ) == n, "wrong-range", "%s: string_view of the object", op );
			}
		};
		auto did_open = [&]( int i, int f, open_mode mode, bool ok, unsigned failed ) {
			auto &x = simfs::files[f];
			m[i].open = ok;
			m[i].file = f;
			m[i].mode = mode;
			if( ok ) {
				m[i].bytes = x.size;
				if( raced ) { // the size is one the file had during the call
					bool found = false;
					for( int k = 0; k < nseen; ++k ) {
						size_t n = seen_sizes[k] / sizeof( T );
						if( obj( i ).size( ) == n ) {
							m[i].bytes = n * sizeof( T );
							found = true;
						}
					}
					SIM_CHECK( found, "wrong-size", "size() is %zu, which the file never had", obj( i ).size( ) );
				}
			}
			if( failed == 0 and not raced ) {
				bool can = x.exists and x.readable and not x.dir and x.size > 0 and ( mode == open_mode::read or x.writable );
				SIM_CHECK( ok == can, "wrong-result", "opening %s says %s (exists %d readable %d writable %d directory %d size %zu)", simfs::path( f ), ok ? "success" : "failure", x.exists, x.readable, x.writable, x.dir, x.size );
				if( not ok )
					sim::probe( "cannot-open" );
			}
			if( failed )
				sim::probe( ok ? "fault-survived" : "fault-reported" );
			sim::state( (uint64_t)ok * 64 + raced * 32 + failed * 4 + (uint64_t)mode );
		};
		int const ops = 1 + (int)sim::choose( 16 );
		for( int o = 0; o < ops; ++o ) {
			int const i = (int)sim::choose( NS );
			int const j = (int)sim::choose( NS );
			int const f = (int)sim::choose( simfs::NFILES );
			open_mode const mode = sim::chance( 1, 2 ) ? open_mode::read_write : open_mode::read;
			raced = false;
			nseen = 0;
			race_target = f;
			note_sizes( );
			simfs::race = race;
			unsigned const before = simfs::nfailed;
			char const *op = "nothing";
			switch( sim::choose( 9 ) ) {
			case 0:
			case 1:
				if( not m[i].there ) {
					op = "open by constructor";
					sim::log( "%d: %s %s %s", i, op, simfs::path( f ), mode == open_mode::read ? "r" : "rw" );
					{
						sim::Armed a;
						if( mode == open_mode::read and sim::chance( 1, 2 ) )
							new( room[i] ) M( simfs::path( f ) );
						else
							new( room[i] ) M( simfs::path( f ), mode );
					}
					m[i].there = true;
					did_open( i, f, mode, static_cast<bool>( obj( i ) ), simfs::nfailed - before );
					break;
				}
				[[fallthrough]];
			case 2:
				if( m[i].there ) {
					op = m[i].open ? "reopen" : "open";
					sim::log( "%d: %s %s %s", i, op, simfs::path( f ), mode == open_mode::read ? "r" : "rw" );
					bool ok;
					{
						sim::Armed a;
						ok = obj( i ).open( simfs::path( f ), mode );
					}
					m[i].open = false;
					did_open( i, f, mode, ok, simfs::nfailed - before );
					break;
				}
				op = "default construction";
				sim::log( "%d: %s", i, op );
				new( room[i] ) M( );
				m[i] = { true, false, 0, 0, open_mode::read };
				break;
			case 3:
				if( m[i].there and not m[j].there ) {
					op = "move construction";
					sim::log( "%d: %s from %d", j, op, i );
					new( room[j] ) M( std::move( obj( i ) ) );
					m[j] = m[i];
					m[i].open = false;
				}
				break;
			case 4:
				if( m[i].there and m[j].there ) {
					op = i == j ? "self move" : "move assignment";
					sim::log( "%d: %s from %d", j, op, i );
					bool was = m[i].open;
					{
						sim::Armed a;
						obj( j ) = std::move( obj( i ) );
					}
					if( i == j ) { // stays as it was or becomes empty
						m[i].open = was and static_cast<bool>( obj( i ) );
					} else {
						m[j] = m[i];
						m[i].open = false;
					}
				}
				break;
			case 5:
				if( m[i].there and m[j].there and i != j ) {
					op = "swap";
					sim::log( "%d: %s with %d", i, op, j );
					std::swap( obj( i ), obj( j ) );
					std::swap( m[i], m[j] );
				}
				break;
			case 6:
				if( m[i].there ) {
					op = "destruction";
					sim::log( "%d: %s", i, op );
					{
						sim::Armed a;
						obj( i ).~M( );
					}
					m[i].there = false;
				}
				break;
			case 7:
				if( m[i].there and m[i].open and m[i].mode == open_mode::read_write ) {
					size_t vis = m[i].bytes < simfs::files[m[i].file].size ? m[i].bytes : simfs::files[m[i].file].size;
					if( vis / sizeof( T ) ) {
						op = "write";
						size_t k = sim::choose( (uint32_t)( vis / sizeof( T ) ) );
						T v = (T)( 0x5a + k );
						sim::log( "%d: %s [%zu]", i, op, k );
						obj( i )[k] = v;
						SIM_CHECK( memcmp( simfs::content( m[i].file ) + k * sizeof( T ), &v, sizeof( T ) ) == 0, "lost-write", "a write through a read-write mapping did not reach the file" );
					}
				}
				break;
			case 8:
				op = "another process";
				race_target = f;
				simfs::race = nullptr;
				resize_file( f, sizes[sim::choose( 10 )] );
				if( sim::chance( 1, 3 ) )
					simfs::files[f].exists = not simfs::files[f].exists;
				sim::log( "file %d now %zu bytes, exists %d", f, simfs::files[f].size, simfs::files[f].exists );
				break;
			}
			simfs::race = nullptr;
			audit( op );
			for( int q = 0; q < NS; ++q )
				look( q, op );
		}
		for( int i = 0; i < NS; ++i )
			if( m[i].there )
				obj( i ).~M( );
		SIM_CHECK( simfs::live_mappings( ) == 0, "leaked-mapping", "%d mappings are left", simfs::live_mappings( ) );
		SIM_CHECK( simfs::open_descriptors( ) == 0, "leaked-descriptor", "%d descriptors are left open", simfs::open_descriptors( ) );
	}
}
SIM_SCENARIO( bytes, 2 ) { run<char>( ); }
SIM_SCENARIO( unsigned_bytes, 1 ) { run<uint8_t>( ); }
SIM_SCENARIO( half_words, 1 ) { run<uint16_t>( ); }
SIM_SCENARIO( words, 1 ) { run<uint32_t>( ); }
SIM_SCENARIO( doubles, 1 ) { run<uint64_t>( ); }
