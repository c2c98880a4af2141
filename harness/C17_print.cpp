// flags: -D__NO_INLINE__
// runtime: conc
// C17: what one print call prints arrives whole, once and in order.
#include "tracked.h"

#include <array>
#include <atomic>
#include <daw/daw_print.h>
#include <daw/daw_print_ostream.h>

#include <cstdio>
#include <dlfcn.h>
#include <ostream>
#include <string>
#include <tuple>
#include <vector>

namespace sim {
	HarnessInfo const harness = {
	  "C17",
	  "A seeded run lets one to four threads print lines of 0 to 9000 characters through every print form (FILE*, standard output, run time formats, ranges, tuples, user types, streams) to one shared stream that is unbuffered, line or fully buffered; between any two stdio calls another thread may run. Allocation may fail, a user formatter may throw, a run time format may be malformed, and in some runs writing fails. A run is non-trivial if a fault fired or two threads were interleaved.",
	  "daw_print.h, daw_print_ostream.h, daw_format_range.h, daw_format_tuple.h, std::format, glibc stdio buffering",
	  "thread scheduler, the sink behind the FILE and the stream, operator new, user formatters",
	  200000, 6000000, true };
}
namespace {
	FILE *file;
	char text[1 << 18];
	size_t ntext;
	uint64_t io_faults;
	bool yielding = false;

	// called with the stream's lock held: ordered by it, which the race detector cannot see
	__attribute__( ( disable_sanitizer_instrumentation ) ) ssize_t sink_write( void *, char const *p, size_t n ) {
		if( sim::deviate( sim::D_IO, 2 ) ) {
			++io_faults;
			errno = ENOSPC;
			return 0;
		}
		if( ntext + n > sizeof text )
			sim::fail( "sim-limit", "too much output" );
		for( size_t k = 0; k < n; ++k )
			const_cast<char volatile *>( text )[ntext + k] = p[k];
		ntext += n;
		return (ssize_t)n;
	}
	std::atomic<int> lock_owner{ -1 };
	int lock_depth = 0; // only its owner looks at it
	void wait_for_lock( ) {
		for( int o; ( o = lock_owner ) >= 0 and o != sim::self( ); )
			sim::sleep_ns( 100 );
	}
	// every call into stdio is a scheduling point before and after
	struct Point {
		FILE *f;
		Point( FILE *x )
		  : f( x ) {
			if( yielding and f == file ) {
				sim::op_point( );
				wait_for_lock( );
			}
		}
		~Point( ) {
			if( yielding and f == file )
				sim::op_point( );
		}
	};
}
#define REAL( name ) ( (decltype( &::name ))real_of( #name ) )
static void *real_of( char const *n ) { return dlsym( RTLD_NEXT, n ); }
static auto const real_fwrite = REAL( fwrite );
static auto const real_fwrite_unlocked = REAL( fwrite_unlocked );
static auto const real_fputs = REAL( fputs );
static auto const real_fputc = REAL( fputc );
static auto const real_putc = REAL( putc );
static auto const real_putchar = REAL( putchar );
static auto const real_puts = REAL( puts );
static auto const real_vfprintf = REAL( vfprintf );
static auto const real_fflush = REAL( fflush );
extern "C" {
void flockfile( FILE *f ) noexcept {
	if( not yielding or f != file )
		return;
	int free_ = -1;
	while( lock_owner != sim::self( ) and not lock_owner.compare_exchange_strong( free_, sim::self( ) ) ) {
		free_ = -1;
		sim::sleep_ns( 100 );
	}
	++lock_depth;
}
int ftrylockfile( FILE *f ) noexcept {
	if( not yielding or f != file )
		return 0;
	int free_ = -1;
	if( lock_owner != sim::self( ) and not lock_owner.compare_exchange_strong( free_, sim::self( ) ) )
		return -1;
	++lock_depth;
	return 0;
}
void funlockfile( FILE *f ) noexcept {
	if( yielding and f == file and --lock_depth == 0 )
		lock_owner = -1;
}
size_t fwrite( void const *p, size_t s, size_t n, FILE *f ) {
	auto r = real_fwrite;
	Point pt( f );
	return r( p, s, n, f );
}
size_t fwrite_unlocked( void const *p, size_t s, size_t n, FILE *f ) {
	auto r = real_fwrite_unlocked;
	Point pt( f );
	return r( p, s, n, f );
}
int fputs( char const *p, FILE *f ) {
	auto r = real_fputs;
	Point pt( f );
	return r( p, f );
}
int fputc( int c, FILE *f ) {
	auto r = real_fputc;
	Point pt( f );
	return r( c, f );
}
int putc( int c, FILE *f ) {
	auto r = real_putc;
	Point pt( f );
	return r( c, f );
}
int putchar( int c ) {
	auto r = real_putchar;
	Point pt( stdout );
	return r( c );
}
int puts( char const *p ) {
	auto r = real_puts;
	Point pt( stdout );
	return r( p );
}
int vfprintf( FILE *f, char const *fmt, va_list a ) {
	auto r = real_vfprintf;
	Point pt( f );
	return r( f, fmt, a );
}
int fprintf( FILE *f, char const *fmt, ... ) {
	auto r = real_vfprintf;
	va_list a;
	va_start( a, fmt );
	int n;
	{
		Point pt( f );
		n = r( f, fmt, a );
	}
	va_end( a );
	return n;
}
int fflush( FILE *f ) {
	auto r = real_fflush;
	Point pt( f );
	return r( f );
}
}
namespace {
	// ---- a user type whose formatter may fail ---------------------------------
	struct Custom {
		int v;
	};
}
template<>
struct std::formatter<Custom, char> {
	constexpr auto parse( std::format_parse_context &c ) { return c.begin( ); }
	template<typename C>
	auto format( Custom const &c, C &ctx ) const {
		auto o = std::format_to( ctx.out( ), "[{}", c.v );
		sim::throw_point( 1 );
		*o++ = ']';
		return o;
	}
};
namespace {
	struct Rec {
		std::string text;
		bool printed = false; // the call returned normally
		bool failed = false;  // it threw
	};
	constexpr int MAXR = 16;
	std::vector<Rec> rec[4];

	std::string payload( int t, int s ) {
		static unsigned const len[] = { 5, 0, 1, 60, 300, 1100, 4096, 9000 };
		unsigned n = len[sim::choose( 8 )];
		std::string r;
		for( unsigned k = 0; k < n; ++k )
			r += (char)( 'a' + ( k * 7 + (unsigned)( t * 5 + s ) ) % 26 );
		if( n > 4 and sim::chance( 1, 4 ) ) // text is not a format and not a C string
			r.replace( 1, 3, std::string( "\0%s{}\n%d{0}", 11 ), 3 * sim::choose( 4 ), 3 );
		return r;
	}
	struct Op {
		unsigned form;
		int s;
		std::string pay;
		bool bad;
		bool to_stdout;
	};
	Op make_op( int t, int s ) {
		sim::Quiet q;
		Op o;
		o.form = sim::choose( 9 );
		o.s = s;
		o.pay = payload( t, s );
		o.bad = sim::chance( 1, 3 );
		o.to_stdout = sim::choose( 2 );
		return o;
	}
	// runs one op; OUT is called with the expected text before the call
	void run_op( int t, Op const &o ) {
		int s = o.s;
		std::string const &p = o.pay;
		Rec r;
		bool want_throw = false;
		std::string fmt;
		std::vector<int> vec;
		{
			sim::Quiet q;
			std::string const mark = "<" + std::to_string( t ) + "." + std::to_string( s ) + ":";
			switch( o.form ) {
			case 0: r.text = mark + p + ( o.bad ? "[7]>" : ">" ); break;
			case 1: r.text = mark + p + ">\n"; break;
			case 2:
				r.text = mark + p + ">";
				fmt = o.bad ? "<{}.{}:{}>{" : "<{}.{}:{}>";
				want_throw = o.bad;
				break;
			case 3:
				r.text = mark + p + ">\n";
				fmt = o.bad ? "<{}.{}:{}>{} and {}" : "<{}.{}:{}>";
				want_throw = o.bad;
				break;
			case 4: r.text = mark + p + "> \n"; break;
			case 5:
				r.text = mark + ( o.bad ? p : "" ) + "[" + std::to_string( s * 3 ) + "]" + ( o.bad ? "" : p ) + ">\n";
				break;
			case 6: {
				int n = (int)( p.size( ) % 7 );
				r.text = mark + "[";
				for( int k = 0; k < n; ++k ) {
					vec.push_back( k * t + s );
					r.text += ( k ? "," : "" ) + std::to_string( k * t + s );
				}
				r.text += "]>\n";
				break;
			}
			case 7: r.text = mark + "[" + std::to_string( t ) + "," + p + ",7]>"; break;
			default: r.text = mark + std::string( p.size( ) % 30, ' ' ) + "x{}>\n"; break;
			}
		}
		int width = (int)( p.size( ) % 30 ) + 1;
		bool threw = false, bad_format = false;
		try {
			sim::Armed a;
			FILE *f = file;
			bool const std_ = o.to_stdout;
			switch( o.form ) {
			case 0:
				if( o.bad ) {
					std_ ? daw::print( "<{}.{}:{}{}>", t, s, p, Custom{ 7 } ) : daw::print( f, "<{}.{}:{}{}>", t, s, p, Custom{ 7 } );
					break;
				}
				std_ ? daw::print( "<{}.{}:{}>", t, s, p ) : daw::print( f, "<{}.{}:{}>", t, s, p ); break;
			case 1: std_ ? daw::println( "<{}.{}:{}>", t, s, p ) : daw::println( f, "<{}.{}:{}>", t, s, p ); break;
			case 2: std_ ? daw::vprint( fmt, t, s, p ) : daw::vprint( f, fmt, t, s, p ); break;
			case 3: std_ ? daw::vprintln( fmt, t, s, p ) : daw::vprintln( f, fmt, t, s, p ); break;
			case 4: {
				std::string m;
				{
					sim::Quiet q;
					m = r.text.substr( 0, r.text.size( ) - 2 );
				}
				try {
					daw::dump( m );
				} catch( ... ) {
					sim::Quiet q;
					m = std::string( );
					throw;
				}
				sim::Quiet q;
				m = std::string( );
				break;
			}
			case 5:
				if( o.bad )
					std_ ? daw::println( "<{}.{}:{}{}>", t, s, p, Custom{ s * 3 } ) : daw::println( f, "<{}.{}:{}{}>", t, s, p, Custom{ s * 3 } );
				else
					std_ ? daw::println( "<{}.{}:{}{}>", t, s, Custom{ s * 3 }, p ) : daw::println( f, "<{}.{}:{}{}>", t, s, Custom{ s * 3 }, p ); break;
			case 6: std_ ? daw::println( "<{}.{}:{}>", t, s, daw::fmt_range( vec ) ) : daw::println( f, "<{}.{}:{}>", t, s, daw::fmt_range( vec ) ); break;
			case 7: {
				std::tuple<int, std::string const &, int> tp( t, p, 7 );
				std_ ? daw::print( "<{}.{}:{}>", t, s, daw::fmt_tuple( tp ) ) : daw::print( f, "<{}.{}:{}>", t, s, daw::fmt_tuple( tp ) );
				break;
			}
			default: std_ ? daw::println( "<{}.{}:{:>{}}{{}}>", t, s, "x", width ) : daw::println( f, "<{}.{}:{:>{}}{{}}>", t, s, "x", width );
			}
		} catch( sim::Injected const & ) {
			threw = true;
			SIM_CHECK( o.form == 5 or o.form == 0, "wrong-exception", "an exception came from nowhere" );
		} catch( std::bad_alloc const & ) {
			threw = true;
		} catch( std::format_error const & ) {
			threw = bad_format = true;
		}
		sim::Quiet q;
		if( threw )
			sim::probe( bad_format ? "format-error" : "print-failed" );
		SIM_CHECK( bad_format <= want_throw, "wrong-exception", "a sound format was refused" );
		SIM_CHECK( threw or not want_throw, "missing-exception", "a malformed run time format was accepted" );
		r.printed = not threw;
		r.failed = threw;
		rec[t].push_back( r );
	}
	std::string buf_storage;
	void check( int nt, bool lossy ) {
		sim::Quiet q;
		size_t at = 0;
		size_t next[4] = { };
		unsigned records = 0;
		for( ;; ) {
			for( int t = 0; t < nt; ++t )
				while( next[t] < rec[t].size( ) and not rec[t][next[t]].printed )
					++next[t];
			if( at == ntext )
				break;
			bool found = false;
			for( int t = 0; t < nt and not found; ++t )
				if( next[t] < rec[t].size( ) ) {
					std::string const &x = rec[t][next[t]].text;
					if( ntext - at >= x.size( ) and memcmp( text + at, x.data( ), x.size( ) ) == 0 ) {
						at += x.size( );
						++next[t];
						++records;
						found = true;
					}
				}
			if( not found and lossy )
				return;
			SIM_CHECK( found, "torn-output", "what follows is not the whole text of one call: %.80s", std::string( text + at, std::min<size_t>( 80, ntext - at ) ).c_str( ) );
		}
		if( not lossy )
			for( int t = 0; t < nt; ++t )
				SIM_CHECK( next[t] == rec[t].size( ), "lost-output", "the text of a call of thread %d did not arrive: %.60s", t, rec[t][next[t]].text.c_str( ) );
		sim::log( "%u records, %zu characters", records, ntext );
		sim::state( records );
	}
	FILE *saved;
	void open_file( ) {
		sim::Quiet q;
		ntext = 0;
		io_faults = 0;
		for( auto &r : rec )
			r.clear( );
		cookie_io_functions_t io{ };
		io.write = sink_write;
		file = fopencookie( nullptr, "w", io );
		static char buf[4096];
		switch( sim::choose( 3 ) ) {
		case 0: setvbuf( file, nullptr, _IONBF, 0 ); break;
		case 1: setvbuf( file, buf, _IOLBF, sizeof buf ); break;
		default: setvbuf( file, buf, _IOFBF, sizeof buf );
		}
		saved = stdout;
		stdout = file;
	}
	void close_file( ) {
		sim::Quiet q;
		stdout = saved;
		fclose( file );
		file = nullptr;
	}
	void faults( ) {
		sim::swarm( sim::D_ALLOC, { 0, 0, 4000, 12000 } );
		sim::swarm( sim::D_THROW, { 0, 8000, 20000 } );
	}
}
SIM_SCENARIO( shared, 4 ) {
	faults( );
	open_file( );
	int const nt = 2 + (int)sim::choose( 3 );
	std::vector<Op> ops[4];
	{
		sim::Quiet q;
		for( int t = 0; t < nt; ++t )
			for( int s = 0, n = 1 + (int)sim::choose( 4 ); s < n; ++s )
				ops[t].push_back( make_op( t, s ) );
	}
	int64_t const base = sim::live_allocs( );
	yielding = true;
	for( int t = 0; t < nt; ++t )
		sim::spawn( [&, t] {
			for( auto const &o : ops[t] )
				run_op( t, o );
		} );
	sim::join_all( );
	yielding = false;
	SIM_CHECK( sim::live_allocs( ) == base, "leaked-memory", "%ld allocations are left", (long)( sim::live_allocs( ) - base ) );
	close_file( );
	check( nt, false );
	sim::Quiet q;
	for( auto &o : ops )
		std::vector<Op>( ).swap( o );
	for( auto &r : rec )
		std::vector<Rec>( ).swap( r );
}
SIM_SCENARIO( failing, 2 ) {
	// one thread, a device that fails: printing goes on, nothing is torn before the first failure
	faults( );
	sim::swarm( sim::D_IO, { 0, 8000, 30000 } );
	open_file( );
	int64_t const base = sim::live_allocs( );
	{
		Op o;
		for( int s = 0, n = 1 + (int)sim::choose( 8 ); s < n; ++s ) {
			{
				sim::Quiet q;
				o = make_op( 0, s );
			}
			run_op( 0, o );
		}
		sim::Quiet q;
		o = Op{ };
	}
	SIM_CHECK( sim::live_allocs( ) == base, "leaked-memory", "%ld allocations are left", (long)( sim::live_allocs( ) - base ) );
	close_file( );
	check( 1, io_faults != 0 );
	sim::Quiet q;
	for( auto &r : rec )
		std::vector<Rec>( ).swap( r );
}
namespace {
	struct Buf : std::streambuf {
		std::string got;
		int failing = 0;
		int overflow( int c ) override {
			sim::Quiet q;
			if( sim::deviate( sim::D_IO, 2 ) )
				return ++failing, EOF;
			got += (char)c;
			return c;
		}
		std::streamsize xsputn( char const *p, std::streamsize n ) override {
			sim::Quiet q;
			if( uint32_t d = sim::deviate( sim::D_IO, 3 ) ) {
				++failing;
				if( d == 2 )
					throw sim::Injected{ 5 };
				return 0;
			}
			got.append( p, (size_t)n );
			return n;
		}
	};
}
SIM_SCENARIO( streams, 2 ) {
	faults( );
	sim::swarm( sim::D_IO, { 0, 0, 16000 } );
	int64_t const base = sim::live_allocs( );
	{
		sim::Quiet q0;
		Buf b;
		std::ostream os( &b );
		std::streambuf *const log_was = std::clog.rdbuf( &b );
		std::clog.clear( );
		std::string want;
		for( int s = 0, n = 1 + (int)sim::choose( 8 ); s < n; ++s ) {
			std::string const p = payload( 0, s );
			unsigned const form = sim::choose( 5 );
			std::string expect = "<" + std::to_string( s ) + ":" + p + ">" + ( form == 0 ? "" : "\n" );
			if( form >= 3 )
				expect = "<" + p + "[" + std::to_string( s ) + ( form == 3 ? "]>\n" : "]>" );
			os.clear( );
			std::clog.clear( );
			b.failing = 0;
			bool threw = false;
			std::ostream *r = nullptr;
			{
				int const lvl = sim::armed_level( );
				(void)lvl;
				try {
					sim::Armed a;
					switch( form ) {
					case 0: r = &daw::print( os, "<{}:{}>", s, p ); break;
					case 1: r = &daw::println( os, "<{}:{}>", s, p ); break;
					case 2: r = &daw::print_log( "<{}:{}>", s, p ); break;
					case 3: r = &daw::println( os, "<{}{}>", p, Custom{ s } ); break;
					default: r = &daw::print( os, "<{}{}>", p, Custom{ s } );
					}
				} catch( sim::Injected const &i ) {
					threw = true;
					SIM_CHECK( i.site != 5, "wrong-exception", "a failing device made printing to a stream throw" );
				} catch( std::bad_alloc const & ) {
					threw = true;
				}
			}
			if( threw ) {
				sim::probe( "stream-print-failed" );
				SIM_CHECK( b.got == want, "torn-output", "a call that failed printed something" );
			} else if( b.failing ) {
				SIM_CHECK( r->fail( ), "lost-output", "text was lost but the stream does not say so" );
				sim::probe( "stream-lost" );
				want = b.got;
			} else {
				SIM_CHECK( r == ( form == 2 ? &std::clog : &os ), "wrong-result", "another stream was returned" );
				want += expect;
				SIM_CHECK( b.got == want, "torn-output", "the text of the call is not what arrived: %.60s", expect.c_str( ) );
			}
			sim::state( form * 8 + threw * 4 + ( b.failing ? 1 : 0 ) );
		}
		std::clog.rdbuf( log_was );
		std::clog.clear( );
	}
	SIM_CHECK( sim::live_allocs( ) == base, "leaked-memory", "%ld allocations are left", (long)( sim::live_allocs( ) - base ) );
}
SIM_SCENARIO( empty_line, 1 ) {
	open_file( );
	daw::println( );
	daw::println( file, "" );
	daw::print( file, "" );
	daw::print( "" );
	close_file( );
	SIM_CHECK( ntext == 2 and text[0] == '\n' and text[1] == '\n', "lost-output", "two empty lines became %zu characters", ntext );
}
