#include "fs.h"
#include "sim.h"

#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <stdarg.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

extern "C" void __tsan_write_range( void *a, size_t n );

namespace simfs {
	File files[NFILES];
	void ( *race )( ) = nullptr;
	unsigned ncalls, nfailed;
	namespace {
		constexpr int MAXFD = 32, MAXMAP = 32, MAXSTREAM = 16;
		constexpr uintptr_t ARENA = 0x5a0000000000ull;
		constexpr size_t SLOT = 64 * 1024;
		struct Fd {
			bool open;
			int file;
			int flags;
			size_t pos;
			uint64_t stale_size;
		} fds[MAXFD];
		struct Map {
			bool live;
			uintptr_t at;
			size_t len;
			int file;
			int prot;
		} maps[MAXMAP];
		struct Stream {
			bool open;
			int fd;
			bool eof, err;
			int unget;
		} streams[MAXSTREAM];
		unsigned map_serial;
		int base_fd;
		unsigned char *store = nullptr;
		int mem = -1;
		pid_t owner = 0;

		bool on( ) { return sim::rt::active; }
		int sys_fail( int e ) {
			++nfailed;
			errno = e;
			return -1;
		}
		// a system call begins: another process may run first
		void enter( ) {
			++ncalls;
			if( race and sim::deviate( sim::D_RACEFS, 2 ) ) {
				sim::log( "  another process changes a file" );
				race( );
			}
		}
		Fd *fd_of( int fd ) {
			int i = fd - base_fd;
			if( i < 0 or i >= MAXFD or not fds[i].open )
				return nullptr;
			return &fds[i];
		}
		int lookup( char const *p ) {
			if( strncmp( p, "/sim/", 5 ) != 0 or p[5] < '0' or p[5] >= '0' + NFILES or p[6] )
				return -1;
			int i = p[5] - '0';
			return files[i].exists ? i : -1;
		}
		int do_open( char const *p, int flags ) {
			enter( );
			uint32_t f = sim::deviate( sim::D_IO, 5 );
			if( f ) {
				sim::log( "  open(%s) fails", p );
				return sys_fail( f == 1 ? EMFILE : f == 2 ? EACCES : f == 3 ? ENOENT : EINTR );
			}
			int i = lookup( p );
			if( i < 0 )
				return sys_fail( ENOENT );
			int acc = flags & O_ACCMODE;
			if( ( acc != O_WRONLY and not files[i].readable ) or ( acc != O_RDONLY and not files[i].writable ) )
				return sys_fail( EACCES );
			if( files[i].dir and acc != O_RDONLY )
				return sys_fail( EISDIR );
			for( int k = 0; k < MAXFD; ++k )
				if( not fds[k].open ) {
					fds[k] = { true, i, flags, 0, 0 };
					if( flags & O_TRUNC )
						files[i].size = 0;
					sim::log( "  open(%s) = %d", p, base_fd + k );
					return base_fd + k;
				}
			return sys_fail( EMFILE );
		}
		int do_close( int fd ) {
			enter( );
			Fd *f = fd_of( fd );
			sim::log( "  close(%d)", fd );
			if( not f )
				sim::fail( "bad-close", "close(%d) of a descriptor that is not open", fd );
			f->open = false;
			if( sim::deviate( sim::D_IO, 3 ) )
				return sys_fail( EIO ); // the descriptor is gone all the same
			return 0;
		}
		ssize_t do_read( int fd, void *b, size_t n, bool at, off_t off ) {
			enter( );
			Fd *f = fd_of( fd );
			if( not f )
				sim::fail( "bad-read", "read of descriptor %d, which is not open", fd );
			if( files[f->file].dir )
				return sys_fail( EISDIR );
			uint32_t d = sim::deviate( sim::D_IO, 5 );
			if( d == 1 or d == 2 ) {
				sim::log( "  read(%d) fails", fd );
				return sys_fail( d == 1 ? EIO : EINTR );
			}
			size_t pos = at ? (size_t)off : f->pos;
			size_t have = pos < files[f->file].size ? files[f->file].size - pos : 0;
			size_t k = n < have ? n : have;
			if( d and k > 1 )
				k = d == 3 ? 1 : k / 2; // a short read
			if( k ) {
				__tsan_write_range( b, k );
				memcpy( b, content( f->file ) + pos, k );
			}
			if( not at )
				f->pos += k;
			sim::log( "  read(%d, %zu) = %zu", fd, n, k );
			return (ssize_t)k;
		}
		off_t do_seek( int fd, off_t o, int wh ) {
			enter( );
			Fd *f = fd_of( fd );
			if( not f )
				sim::fail( "bad-seek", "seek on descriptor %d, which is not open", fd );
			if( sim::deviate( sim::D_IO, 2 ) ) {
				sim::log( "  lseek(%d) fails", fd );
				return sys_fail( EIO );
			}
			off_t to = wh == SEEK_SET ? o : wh == SEEK_CUR ? (off_t)f->pos + o : (off_t)files[f->file].size + o;
			if( to < 0 )
				return sys_fail( EINVAL );
			f->pos = (size_t)to;
			sim::log( "  lseek(%d, %ld, %d) = %ld", fd, (long)o, wh, (long)to );
			return to;
		}
		int fill_stat( int i, struct stat *st ) {
			if( sim::deviate( sim::D_IO, 2 ) ) {
				sim::log( "  stat fails" );
				return sys_fail( EIO );
			}
			memset( st, 0, sizeof *st );
			st->st_mode = ( files[i].dir ? S_IFDIR : S_IFREG ) | 0644;
			st->st_size = files[i].dir ? 4096 : (off_t)files[i].size;
			st->st_nlink = 1;
			st->st_ino = (ino_t)i + 10;
			st->st_dev = 1;
			st->st_blksize = 4096;
			sim::log( "  stat: %zu bytes", files[i].size );
			return 0;
		}
		int stat_path( char const *p, struct stat *st ) {
			enter( );
			int i = lookup( p );
			if( i < 0 )
				return sys_fail( ENOENT );
			return fill_stat( i, st );
		}
		size_t pages( size_t n ) { return ( n + 4095 ) / 4096 * 4096; }
		void *do_mmap( void *, size_t len, int prot, int flags, int fd, off_t off ) {
			enter( );
			Fd *f = fd_of( fd );
			if( not f )
				sim::fail( "bad-mmap", "mmap of descriptor %d, which is not open", fd );
			auto bad = [&]( int e ) {
				sim::log( "  mmap(%zu) fails", len );
				sys_fail( e );
				return MAP_FAILED;
			};
			uint32_t d = sim::deviate( sim::D_IO, 3 );
			if( d )
				return bad( d == 1 ? ENOMEM : EAGAIN );
			if( len == 0 or off % 4096 )
				return bad( EINVAL );
			int acc = f->flags & O_ACCMODE;
			if( acc == O_WRONLY or ( ( flags & MAP_SHARED ) and ( prot & PROT_WRITE ) and acc != O_RDWR ) )
				return bad( EACCES );
			if( files[f->file].dir )
				return bad( ENODEV );
			if( pages( len ) > SLOT )
				return bad( ENOMEM );
			for( int k = 0; k < MAXMAP; ++k )
				if( not maps[k].live ) {
					uintptr_t at = ARENA + ( map_serial++ ) * 2 * SLOT;
					void *r = (void *)syscall( SYS_mmap, at, pages( len ), prot, ( flags & MAP_SHARED ? MAP_SHARED : MAP_PRIVATE ) | MAP_FIXED_NOREPLACE, mem, (long)( (size_t)f->file * SLOT + (size_t)off ) );
					if( (uintptr_t)r != at )
						sim::fail( "sim-limit", "cannot place a mapping (errno %d)", errno );
					maps[k] = { true, at, len, f->file, prot };
					sim::log( "  mmap(%zu)", len );
					return r;
				}
			return bad( ENOMEM );
		}
		int do_munmap( void *p, size_t len ) {
			enter( );
			for( Map &m : maps )
				if( m.live and m.at == (uintptr_t)p ) {
					if( pages( len ) != pages( m.len ) )
						sim::fail( "bad-munmap", "munmap of %zu bytes at a mapping of %zu", len, m.len );
					m.live = false;
					syscall( SYS_munmap, p, pages( m.len ) );
					sim::log( "  munmap(%zu)", len );
					return 0;
				}
			sim::fail( "bad-munmap", "munmap(%s, %zu): there is no such mapping", p == MAP_FAILED ? "MAP_FAILED" : p ? "?" : "nullptr", len );
		}
		Stream *stream_of( FILE *f ) {
			auto a = (uintptr_t)f, b = (uintptr_t)&streams[0];
			if( a < b or a >= b + sizeof streams )
				return nullptr;
			auto *s = &streams[( a - b ) / sizeof( Stream )];
			if( not s->open )
				sim::fail( "bad-stream", "use of a closed stream" );
			return s;
		}
		FILE *make_stream( int fd ) {
			for( auto &s : streams )
				if( not s.open ) {
					s = { true, fd, false, false, -1 };
					return (FILE *)&s;
				}
			sim::fail( "sim-limit", "too many streams" );
		}
		size_t stream_read( Stream *s, char *b, size_t n ) {
			size_t got = 0;
			if( n and s->unget >= 0 ) {
				b[got++] = (char)s->unget;
				s->unget = -1;
			}
			while( got < n ) {
				ssize_t r = do_read( s->fd, b + got, n - got, false, 0 );
				if( r < 0 ) {
					s->err = true;
					break;
				}
				if( r == 0 ) {
					s->eof = true;
					break;
				}
				got += (size_t)r;
			}
			return got;
		}
		template<typename F>
		F real( F, char const *name ) {
			return (F)dlsym( RTLD_NEXT, name );
		}
	} // namespace

	void begin( int first_fd ) {
		sim::Quiet q;
		if( owner != getpid( ) ) {
			owner = getpid( );
			mem = (int)syscall( SYS_memfd_create, "sim", 0 );
			if( mem < 0 or ftruncate( mem, (off_t)( SLOT * NFILES ) ) != 0 )
				abort( );
			store = (unsigned char *)syscall( SYS_mmap, nullptr, SLOT * NFILES, PROT_READ | PROT_WRITE, MAP_SHARED, mem, 0 );
		}
		for( Map &m : maps )
			if( m.live )
				syscall( SYS_munmap, m.at, pages( m.len ) );
		memset( maps, 0, sizeof maps );
		memset( fds, 0, sizeof fds );
		memset( streams, 0, sizeof streams );
		memset( files, 0, sizeof files );
		for( int i = 0; i < NFILES; ++i )
			memset( content( i ), 0, FILE_MAX );
		map_serial = 0;
		base_fd = first_fd;
		race = nullptr;
		ncalls = nfailed = 0;
	}
	unsigned char *content( int i ) { return store + (size_t)i * SLOT; }
	char const *path( int i ) {
		static char const *const p[] = { "/sim/0", "/sim/1", "/sim/2", "/sim/3" };
		return p[i];
	}
	int open_descriptors( ) {
		int n = 0;
		for( auto &f : fds )
			n += f.open;
		return n;
	}
	int open_streams( ) {
		int n = 0;
		for( auto &f : streams )
			n += f.open;
		return n;
	}
	int live_mappings( ) {
		int n = 0;
		for( auto &f : maps )
			n += f.live;
		return n;
	}
	int mapping_of( void const *p, size_t n ) {
		for( int k = 0; k < MAXMAP; ++k )
			if( maps[k].live and maps[k].at <= (uintptr_t)p and (uintptr_t)p + n <= maps[k].at + maps[k].len )
				return k;
		return -1;
	}
} // namespace simfs

using namespace simfs;
extern "C" {
int open( char const *p, int flags, ... ) {
	va_list ap;
	va_start( ap, flags );
	int mode = va_arg( ap, int );
	va_end( ap );
	if( not on( ) )
		return (int)syscall( SYS_openat, AT_FDCWD, p, flags, mode );
	return do_open( p, flags );
}
int open64( char const *p, int flags, ... ) {
	va_list ap;
	va_start( ap, flags );
	int mode = va_arg( ap, int );
	va_end( ap );
	if( not on( ) )
		return (int)syscall( SYS_openat, AT_FDCWD, p, flags, mode );
	return do_open( p, flags );
}
int openat( int d, char const *p, int flags, ... ) {
	va_list ap;
	va_start( ap, flags );
	int mode = va_arg( ap, int );
	va_end( ap );
	if( not on( ) )
		return (int)syscall( SYS_openat, d, p, flags, mode );
	return do_open( p, flags );
}
int close( int fd ) {
	if( not on( ) )
		return (int)syscall( SYS_close, fd );
	return do_close( fd );
}
ssize_t read( int fd, void *b, size_t n ) {
	if( not on( ) )
		return syscall( SYS_read, fd, b, n );
	return do_read( fd, b, n, false, 0 );
}
ssize_t pread( int fd, void *b, size_t n, off_t o ) {
	if( not on( ) )
		return syscall( SYS_pread64, fd, b, n, o );
	return do_read( fd, b, n, true, o );
}
off_t lseek( int fd, off_t o, int w ) noexcept {
	if( not on( ) )
		return syscall( SYS_lseek, fd, o, w );
	return do_seek( fd, o, w );
}
off64_t lseek64( int fd, off64_t o, int w ) noexcept { return lseek( fd, o, w ); }
int fstat( int fd, struct stat *st ) noexcept {
	if( not on( ) )
		return (int)syscall( SYS_fstat, fd, st );
	enter( );
	Fd *f = fd_of( fd );
	if( not f )
		sim::fail( "bad-stat", "fstat of descriptor %d, which is not open", fd );
	return fill_stat( f->file, st );
}
int fstat64( int fd, struct stat64 *st ) noexcept { return fstat( fd, (struct stat *)st ); }
int stat( char const *p, struct stat *st ) noexcept {
	if( not on( ) )
		return (int)syscall( SYS_newfstatat, AT_FDCWD, p, st, 0 );
	return stat_path( p, st );
}
int stat64( char const *p, struct stat64 *st ) noexcept { return stat( p, (struct stat *)st ); }
int lstat( char const *p, struct stat *st ) noexcept {
	if( not on( ) )
		return (int)syscall( SYS_newfstatat, AT_FDCWD, p, st, AT_SYMLINK_NOFOLLOW );
	return stat_path( p, st );
}
void *mmap( void *a, size_t n, int prot, int flags, int fd, off_t o ) noexcept {
	if( not on( ) or ( flags & MAP_ANONYMOUS ) )
		return (void *)syscall( SYS_mmap, a, n, prot, flags, fd, o );
	return do_mmap( a, n, prot, flags, fd, o );
}
void *mmap64( void *a, size_t n, int prot, int flags, int fd, off_t o ) noexcept { return mmap( a, n, prot, flags, fd, o ); }
int munmap( void *p, size_t n ) noexcept {
	if( not on( ) )
		return (int)syscall( SYS_munmap, p, n );
	return do_munmap( p, n );
}
FILE *fopen( char const *p, char const *mode ) {
	if( not on( ) )
		return real( &fopen, "fopen" )( p, mode );
	int flags = mode[0] == 'r' ? ( strchr( mode, '+' ) ? O_RDWR : O_RDONLY ) : O_RDWR;
	int fd = do_open( p, flags );
	return fd < 0 ? nullptr : make_stream( fd );
}
FILE *fopen64( char const *p, char const *mode ) { return fopen( p, mode ); }
FILE *fdopen( int fd, char const *mode ) noexcept {
	if( not on( ) )
		return real( &fdopen, "fdopen" )( fd, mode );
	return make_stream( fd );
}
int fclose( FILE *f ) {
	if( not on( ) )
		return real( &fclose, "fclose" )( f );
	Stream *s = stream_of( f );
	if( not s )
		sim::fail( "bad-stream", "fclose of something that is not an open stream" );
	s->open = false;
	return do_close( s->fd ) ? EOF : 0;
}
size_t fread( void *b, size_t sz, size_t n, FILE *f ) {
	if( not on( ) )
		return real( &fread, "fread" )( b, sz, n, f );
	Stream *s = stream_of( f );
	if( not s )
		sim::fail( "bad-stream", "fread from something that is not an open stream" );
	return sz ? stream_read( s, (char *)b, sz * n ) / sz : 0;
}
size_t fread_unlocked( void *b, size_t sz, size_t n, FILE *f ) { return fread( b, sz, n, f ); }
int fgetc( FILE *f ) {
	if( not on( ) )
		return real( &fgetc, "fgetc" )( f );
	Stream *s = stream_of( f );
	unsigned char c;
	return s and stream_read( s, (char *)&c, 1 ) == 1 ? c : EOF;
}
int getc( FILE *f ) { return fgetc( f ); }
int feof( FILE *f ) noexcept {
	if( not on( ) )
		return real( &feof, "feof" )( f );
	Stream *s = stream_of( f );
	return s and s->eof;
}
int ferror( FILE *f ) noexcept {
	if( not on( ) )
		return real( &ferror, "ferror" )( f );
	Stream *s = stream_of( f );
	return s and s->err;
}
void clearerr( FILE *f ) noexcept {
	if( not on( ) )
		return real( &clearerr, "clearerr" )( f );
	if( Stream *s = stream_of( f ) )
		s->eof = s->err = false;
}
int fileno( FILE *f ) noexcept {
	if( not on( ) )
		return real( &fileno, "fileno" )( f );
	Stream *s = stream_of( f );
	return s ? s->fd : -1;
}
int fseeko( FILE *f, off_t o, int w ) {
	if( not on( ) )
		return real( &fseeko, "fseeko" )( f, o, w );
	Stream *s = stream_of( f );
	if( not s )
		return -1;
	s->eof = false;
	s->unget = -1;
	return do_seek( s->fd, o, w ) < 0 ? -1 : 0;
}
int fseek( FILE *f, long o, int w ) { return fseeko( f, o, w ); }
int fseeko64( FILE *f, off64_t o, int w ) { return fseeko( f, o, w ); }
off_t ftello( FILE *f ) {
	if( not on( ) )
		return real( &ftello, "ftello" )( f );
	Stream *s = stream_of( f );
	Fd *d = s ? fd_of( s->fd ) : nullptr;
	return d ? (off_t)d->pos : -1;
}
long ftell( FILE *f ) { return ftello( f ); }
void rewind( FILE *f ) { (void)fseeko( f, 0, SEEK_SET ); }
}
