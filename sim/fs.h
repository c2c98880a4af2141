// Simulated file system: files named /sim/<n> live in memory; open, lseek, fstat, stat,
// read, mmap, munmap, close and the stdio calls on them are served here, may fail
// (D_IO) and may race with another process changing the file (D_RACEFS).
#pragma once
#include <cstddef>
#include <cstdint>
namespace simfs {
	constexpr int NFILES = 4;
	constexpr size_t FILE_MAX = 16 * 1024;
	struct File {
		bool exists;
		bool dir;
		bool readable, writable;
		size_t size;
		uint64_t version; // bumped by every change made by the other process
	};
	extern File files[NFILES];
	void begin( int first_fd );                // start of a run; descriptors are numbered from first_fd
	unsigned char *content( int i );           // always mapped read-write
	char const *path( int i );                 // "/sim/<i>"
	int open_descriptors( );
	int open_streams( );
	int live_mappings( );
	// the mapping that holds [p, p+n), or -1
	int mapping_of( void const *p, size_t n );
	// called (armed and when D_RACEFS fires) between two system calls
	extern void ( *race )( );
	// calls that reached the simulated kernel in this run
	extern unsigned ncalls;
	// the last fault made the call it hit fail (not merely short)
	extern unsigned nfailed;
} // namespace simfs
