// extra: fs.cpp
// C10: read_file gives the whole file or nothing, and leaves nothing open.
#include "fs.h"
#include "stops.h"
#include "tracked.h"

#include <daw/daw_read_file.h>

#include <iostream>
#include <optional>
#include <streambuf>
#include <string>

namespace sim {
	HarnessInfo const harness = {
	  "C10",
	  "A seeded run makes up to four files of chosen sizes (absent, empty, odd, a directory, unreadable) in a simulated file system and reads some of them as char, char16_t, wchar_t or char32_t text. Every stat, open, read and close may fail, reads may be short or interrupted, any allocation may fail, and another process may grow, shrink or delete the file between two system calls.",
	  "daw_read_file.h, std::filesystem::file_size, std::basic_string",
	  "stat, fopen, fread, fclose and the system calls below them (simulated kernel and stdio), operator new",
	  1500000, 45000000, false };
}
namespace {
	bool raced;
	size_t seen[64];
	int nseen, target;
	void note( ) {
		if( nseen < 64 )
			seen[nseen++] = simfs::files[target].size;
	}
	unsigned char byte_at( int f, size_t k ) { return (unsigned char)( k * 37 + ( k >> 8 ) * 11 + (size_t)f * 5 + 1 ); }
	void resize_file( int f, size_t n ) {
		auto &x = simfs::files[f];
		if( n > simfs::FILE_MAX )
			n = simfs::FILE_MAX;
		for( size_t k = x.size; k < n; ++k )
			simfs::content( f )[k] = byte_at( f, k );
		x.size = n;
	}
	void race( ) {
		raced = true;
		switch( sim::choose( 4 ) ) {
		case 0:
			resize_file( target, simfs::files[target].size + 1 + sim::choose( 300 ) );
			break;
		case 1:
			resize_file( target, simfs::files[target].size / 2 );
			break;
		case 2:
			resize_file( target, 0 );
			break;
		default:
			simfs::files[target].exists = false;
		}
		note( );
	}
	template<typename C>
	void run( ) {
		static int const bases[] = { 3, 0, 1000 };
		simfs::begin( bases[sim::choose( 3 )] );
		sim::swarm( sim::D_IO, { 0, 0, 4000, 16000 } );
		sim::swarm( sim::D_RACEFS, { 0, 0, 8000 } );
		sim::swarm( sim::D_ALLOC, { 0, 0, 8000 } );
		static size_t const sizes[] = { 10, 0, 1, 2, 3, 4, 7, 15, 16, 17, 31, 400, 1023, 4096, 9001 };
		for( int f = 0; f < simfs::NFILES; ++f ) {
			auto &x = simfs::files[f];
			x.exists = not sim::chance( 1, 8 );
			x.readable = not sim::chance( 1, 10 );
			x.writable = true;
			x.dir = sim::chance( 1, 12 );
			resize_file( f, sizes[sim::choose( 15 )] );
		}
		int const ops = 1 + (int)sim::choose( 6 );
		int64_t const base = sim::live_allocs( );
		for( int o = 0; o < ops; ++o ) {
			int const f = target = (int)sim::choose( simfs::NFILES );
			auto &x = simfs::files[f];
			bool const can = x.exists and x.readable and not x.dir;
			raced = false;
			nseen = 0;
			note( );
			if( sizeof( C ) == 1 and sim::chance( 1, 8 ) ) { // the form that ends the program when it cannot read
				struct Nowhere : std::streambuf {
					int overflow( int c ) override { return c == EOF ? 0 : c; }
				} nowhere;
				auto *const old = std::cerr.rdbuf( &nowhere );
				unsigned const before = simfs::nfailed;
				bool no_memory = false, back = false;
				std::string r;
				bool stopped;
				std::string const path = simfs::path( f );
				simfs::race = race;
				{
					sim::Armed a;
					stopped = stops( [&] {
						try {
							r = daw::read_file( path, daw::terminate_on_read_file_error );
							back = true;
						} catch( std::bad_alloc const & ) {
							no_memory = true;
						}
					} );
				}
				simfs::race = nullptr;
				std::cerr.rdbuf( old );
				unsigned const failed = simfs::nfailed - before;
				sim::log( "read_file(%s) or terminate: %s, %u calls failed, raced %d", path.c_str( ), no_memory ? "no memory" : stopped ? "terminated" : "content", failed, raced );
				if( back ) {
					bool size_ok = false;
					for( int k = 0; k < nseen; ++k )
						size_ok |= r.size( ) == seen[k];
					SIM_CHECK( size_ok, "wrong-size", "read_file of %zu bytes, or terminate, returned %zu bytes", seen[0], r.size( ) );
					for( size_t k = 0; k < r.size( ); ++k )
						SIM_CHECK( (unsigned char)r[k] == byte_at( f, k ), "wrong-content", "byte %zu of the result is not the file's", k );
					if( not raced )
						SIM_CHECK( can or ( x.exists and not x.dir and x.size == 0 ), "wrong-result", "read_file returned %zu characters of something that cannot be read, instead of terminating", r.size( ) );
				} else if( failed == 0 and not raced and not no_memory ) {
					SIM_CHECK( not can, "wrong-result", "read_file terminated for a readable file of %zu bytes", x.size );
				}
				if( stopped )
					sim::probe( "terminated" );
			} else {
				unsigned const before = simfs::nfailed;
				bool no_memory = false;
				std::optional<std::basic_string<C>> r;
				simfs::race = race;
				try {
					sim::Armed a;
					if constexpr( sizeof( C ) == 1 )
						r = daw::read_file( simfs::path( f ) );
					else
						r = daw::read_file<C>( simfs::path( f ) );
				} catch( std::bad_alloc const & ) {
					no_memory = true;
				}
				simfs::race = nullptr;
				unsigned const failed = simfs::nfailed - before;
				sim::log( "read_file(%s): %s, %u calls failed, raced %d", simfs::path( f ), no_memory ? "no memory" : r ? "content" : "nothing", failed, raced );
				if( no_memory )
					sim::probe( "no-memory" );
				if( r ) {
					size_t const n = r->size( );
					bool size_ok = false;
					for( int k = 0; k < nseen; ++k )
						size_ok |= n == seen[k] / sizeof( C );
					SIM_CHECK( size_ok, "wrong-size", "read_file of %zu bytes returned %zu characters of %zu bytes", seen[0], n, sizeof( C ) );
					auto const *b = reinterpret_cast<unsigned char const *>( r->data( ) );
					for( size_t k = 0; k < n * sizeof( C ); ++k )
						SIM_CHECK( b[k] == byte_at( f, k ), "wrong-content", "byte %zu of the result is not the file's", k );
					if( failed )
						sim::probe( "content-despite-fault" );
				} else if( failed == 0 and not raced and not no_memory ) {
					SIM_CHECK( not can, "wrong-result", "read_file gave nothing for a readable file of %zu bytes", x.size );
				}
				if( r and not raced )
					SIM_CHECK( can or ( x.exists and not x.dir and x.size == 0 ), "wrong-result", "read_file returned %zu characters of something that cannot be read", r->size( ) );
				sim::state( (uint64_t)r.has_value( ) + 2 * raced + 4 * no_memory + 8 * (uint64_t)failed + 64 * (uint64_t)o );
			}
			SIM_CHECK( simfs::open_streams( ) == 0, "leaked-stream", "%d streams are left open", simfs::open_streams( ) );
			SIM_CHECK( simfs::open_descriptors( ) == 0, "leaked-descriptor", "%d descriptors are left open", simfs::open_descriptors( ) );
			if( sim::chance( 1, 4 ) )
				resize_file( f, sizes[sim::choose( 15 )] );
		}
		SIM_CHECK( sim::live_allocs( ) == base, "leaked-memory", "%ld allocations are left", (long)( sim::live_allocs( ) - base ) );
	}
}
SIM_SCENARIO( chars, 3 ) { run<char>( ); }
SIM_SCENARIO( char16, 1 ) { run<char16_t>( ); }
SIM_SCENARIO( wide, 1 ) { run<wchar_t>( ); }
SIM_SCENARIO( char32, 1 ) { run<char32_t>( ); }
