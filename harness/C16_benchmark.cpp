// C16: the timing helpers report the time the callable really took.
#include "tracked.h"

#include <daw/daw_benchmark.h>

#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>

namespace sim {
	HarnessInfo const harness = {
	  "C16",
	  "A seeded run measures one callable with one timing helper (one shot, with title, with item count, n times for n in 1, 2, 5, 10 and 25, with byte rate, with validation, as data). Each call of the callable takes a chosen simulated time (nothing to minutes), may throw, and the validator may reject; the process may stall between any two clock readings, the wall clock may jump at any of them, and the output stream may fail. A run is non-trivial if at least one call took time or failed.",
	  "daw_benchmark.h, daw_expected.h, std::chrono, iostreams",
	  "clocks (clock_gettime), stalls, the sink behind std::cout and std::cerr, the measured callable and the validator",
	  300000, 12000000, false };
}
namespace {
	using sim::now_ns;
	constexpr int64_t EPS = 4000; // measuring overhead allowed, ns

	// ---- where the text goes ------------------------------------------------
	struct Sink : std::streambuf {
		char text[8192];
		size_t n = 0;
		bool lost = false;
		bool put( char const *p, size_t k ) {
			if( sim::deviate( sim::D_IO, 2 ) ) {
				lost = true;
				return false;
			}
			if( n + k >= sizeof text )
				sim::fail( "sim-limit", "too much output" );
			memcpy( text + n, p, k );
			n += k;
			text[n] = 0;
			return true;
		}
		int overflow( int c ) override {
			char ch = (char)c;
			return put( &ch, 1 ) ? c : EOF;
		}
		std::streamsize xsputn( char const *p, std::streamsize k ) override { return put( p, (size_t)k ) ? k : 0; }
		void clear( ) {
			n = 0;
			lost = false;
			text[0] = 0;
		}
	};
	Sink out, err;
	struct Redirect {
		std::streambuf *o, *e;
		Redirect( ) {
			sim::Quiet q;
			out.clear( );
			err.clear( );
			o = std::cout.rdbuf( &out );
			e = std::cerr.rdbuf( &err );
			std::cout.clear( );
			std::cerr.clear( );
			sim::armed_set( 1 );
		}
		~Redirect( ) {
			sim::armed_set( 0 );
			std::cout.clear( );
			std::cerr.clear( );
			std::cout.rdbuf( o );
			std::cerr.rdbuf( e );
		}
	};

	// ---- the measured callable -----------------------------------------------
	constexpr int MAXC = 64;
	struct Work {
		int calls = 0;
		int64_t took[MAXC];
		bool threw[MAXC];
		int throws_at = -1; // -2: always
		int64_t plan[MAXC];
		int arg_bad = 0;
		bool last_threw( ) const { return threw[calls - 1]; }
		int64_t sum( int n ) const {
			int64_t s = 0;
			for( int k = 0; k < n; ++k )
				s += took[k];
			return s;
		}
	};
	Work w;
	int64_t pick_time( ) {
		static int64_t const t[] = { 3000000, 0, 1, 700, 40000, 1000000, 999999, 250000000, 1500000000, 61000000000ll };
		switch( sim::choose( 4 ) ) {
		case 0:
			return t[sim::choose( 10 )];
		default:
			return (int64_t)sim::choose( 20000000 );
		}
	}
	void body( int a, int b ) {
		int const i = w.calls++;
		if( w.calls > MAXC )
			sim::fail( "too-many-calls", "the callable was called more than %d times", MAXC );
		if( a != 41 or b != -7 )
			w.arg_bad = 1;
		int64_t const t0 = now_ns( );
		sim::advance_ns( w.plan[i] );
		w.took[i] = now_ns( ) - t0;
		w.threw[i] = w.throws_at == i or w.throws_at == -2;
		if( w.threw[i] )
			throw sim::Injected{ i };
	}
	int result_of( int i ) { return 1000 + i * 3; }
	struct IntFn {
		int operator( )( int a, int b ) const {
			int const i = w.calls;
			body( a, b );
			return result_of( i );
		}
	};
	struct VoidFn {
		void operator( )( int a, int b ) const { body( a, b ); }
	};
	struct Validator {
		int reject_at;
		int *seen;
		bool operator( )( int r ) const {
			SIM_CHECK( r == result_of( w.calls - 1 ), "wrong-result", "the validator was shown %d instead of the result of the last call", r );
			sim::advance_ns( 5000000 ); // validation takes time too: it is not the callable's
			return ( *seen )++ != reject_at;
		}
	};

	uint64_t stalls0;
	int64_t t_begin, t_end;
	bool calm; // nothing but the callable and the measuring itself took time
	uint64_t fault_count( ) { return sim::injected_count( ); }
	void begin( ) {
		memset( (void *)&w, 0, sizeof w );
		w.throws_at = -1;
		bool const same = sim::chance( 1, 4 );
		int64_t const one = pick_time( );
		for( int k = 0; k < MAXC; ++k )
			w.plan[k] = k < 30 ? ( same ? one : pick_time( ) ) : 1000;
		if( sim::chance( 1, 4 ) )
			w.throws_at = sim::chance( 1, 6 ) ? -2 : (int)sim::choose( 30 );
		out.clear( );
		err.clear( );
		std::cout.clear( );
		std::cerr.clear( );
		stalls0 = fault_count( );
		t_begin = now_ns( );
	}
	void end( ) {
		t_end = now_ns( );
		sim::log( "%d calls, %lld ns in them, %lld ns in all: %.160s", w.calls, (long long)w.sum( w.calls ), (long long)( t_end - t_begin ), out.text );
		SIM_CHECK( not w.arg_bad, "wrong-arguments", "the callable was not given the arguments passed" );
		sim::state( (uint64_t)w.calls * 8 + ( w.calls and w.last_threw( ) ) * 4 + out.lost * 2 + ( fault_count( ) == stalls0 ) );
	}
	// time that is not the callable's: an upper bound for what may be added to a measurement
	int64_t extra( int64_t other ) { return t_end - t_begin - w.sum( w.calls ) - other; }
	// upper bound of the time that did not pass in the callable, beyond plain measuring overhead
	bool stalled( ) { return fault_count( ) != stalls0; }
	void duration( char const *what, double ns, double tol, int64_t lo, int64_t hi ) {
		int64_t const slack = EPS + ( stalled( ) ? extra( 0 ) : 0 );
		SIM_CHECK( ns >= (double)lo - EPS - tol, "too-short", "%s is %.0f ns, but the callable took %lld ns", what, ns, (long long)lo );
		SIM_CHECK( ns <= (double)( hi + slack ) + tol, "too-long", "%s is %.0f ns, but the callable took %lld ns (%lld ns at most with everything else)", what, ns, (long long)hi, (long long)( hi + slack ) );
	}

	// ---- reading the report ----------------------------------------------------
	struct Num {
		bool ok = false;
		double v = 0, tol = 0; // in ns, or in bytes per second
	};
	Num read_time( char const *p ) {
		Num r;
		char *e;
		double x = strtod( p, &e );
		if( e == p )
			return r;
		struct {
			char const *u;
			double f;
		} const us[] = { { "fs", 1e-6 }, { "ps", 1e-3 }, { "ns", 1 }, { "us", 1e3 }, { "ms", 1e6 }, { "s", 1e9 } };
		for( auto &u : us )
			if( strncmp( e, u.u, strlen( u.u ) ) == 0 and not isalpha( (unsigned char)e[strlen( u.u )] ) ) {
				r.ok = true;
				r.v = x * u.f;
				int prec = 0;
				if( char const *dot = (char const *)memchr( p, '.', (size_t)( e - p ) ) )
					prec = (int)( e - dot ) - 1;
				r.tol = 0.51 * u.f * std::pow( 10, -prec ) + std::fabs( r.v ) * 1e-9;
				SIM_CHECK( u.f == 1e9 or x < 1000.1, "wrong-unit", "a time is shown as '%.20s'", p );
				SIM_CHECK( u.f == 1e-6 or x > 0.99, "wrong-unit", "a time is shown as '%.20s'", p );
				return r;
			}
		return r;
	}
	Num read_rate( char const *p ) {
		Num r;
		char *e;
		double x = strtod( p, &e );
		if( e == p )
			return r;
		struct {
			char const *u;
			double f;
		} const us[] = { { "bytes", 1 }, { "KB", 1e3 }, { "MB", 1e6 }, { "GB", 1e9 }, { "TB", 1e12 }, { "PB", 1e15 } };
		for( auto &u : us )
			if( strncmp( e, u.u, strlen( u.u ) ) == 0 ) {
				r.ok = true;
				r.v = x * u.f;
				int prec = 0;
				if( char const *dot = (char const *)memchr( p, '.', (size_t)( e - p ) ) )
					prec = (int)( e - dot ) - 1;
				r.tol = 0.51 * u.f * std::pow( 10, -prec ) + std::fabs( r.v ) * 1e-9;
				return r;
			}
		return r;
	}
	char const *after( char const *p, char const *label ) {
		char const *q = p ? strstr( p, label ) : nullptr;
		if( not q )
			sim::fail( "missing-report", "no '%s' in the report: %.300s", label, out.text );
		q += strlen( label );
		while( *q == ' ' )
			++q;
		return q;
	}
	Num time_after( char const *label ) {
		Num r = read_time( after( out.text, label ) );
		SIM_CHECK( r.ok, "missing-report", "no time after '%s': %.300s", label, out.text );
		return r;
	}
	void rate_check( char const *p, double bytes, Num t ) {
		Num r = read_rate( p );
		SIM_CHECK( r.ok, "missing-report", "no rate in the report: %.300s", out.text );
		if( t.v - t.tol < 1000 ) // the time shown is too small to judge a rate by
			return;
		double const lo = bytes / ( t.v + t.tol ) * 1e9 - r.tol, hi = bytes / ( t.v - t.tol ) * 1e9 + r.tol;
		SIM_CHECK( r.v >= lo * 0.9999 and r.v <= hi * 1.0001, "wrong-rate", "%.0f bytes in %.0f ns are shown as %.3g bytes/s", bytes, t.v, r.v );
	}

	template<typename R>
	void check_expected( R const &r ) {
		SIM_CHECK( r.has_exception( ) == w.last_threw( ) and r.has_value( ) != w.last_threw( ), "wrong-result", "the last call %s, the result says value %d exception %d", w.last_threw( ) ? "threw" : "returned", r.has_value( ), r.has_exception( ) );
		if( r.has_exception( ) ) {
			int site = -1;
			try {
				std::rethrow_exception( r.get_exception_ptr( ) );
			} catch( sim::Injected const &i ) {
				site = i.site;
			}
			SIM_CHECK( site == w.calls - 1, "wrong-result", "the exception kept is not the one of the last call" );
		} else if constexpr( requires { *r; } ) {
			SIM_CHECK( *r == result_of( w.calls - 1 ), "wrong-result", "the value kept is not the last result" );
		}
	}
	void faults( ) {
		sim::swarm( sim::D_STALL, { 0, 0, 40, 400 } );
		sim::swarm( sim::D_CLOCK, { 0, 200, 4000 } );
		sim::swarm( sim::D_IO, { 0, 0, 0, 3000 } );
	}

	// ---- one shot ---------------------------------------------------------------
	void one_shot( ) {
		faults( );
		Redirect rd;
		for( int rep = 0, n = 1 + (int)sim::choose( 3 ); rep < n; ++rep ) {
			begin( );
			bool const is_void = sim::chance( 1, 3 );
			switch( sim::choose( 4 ) ) {
			case 0: {
				bool threw = false;
				double s = 0;
				try {
					s = is_void ? daw::benchmark( [] { VoidFn{ }( 41, -7 ); } ) : daw::benchmark( [] { return IntFn{ }( 41, -7 ); } );
				} catch( sim::Injected const & ) {
					threw = true;
				}
				end( );
				SIM_CHECK( w.calls == 1, "wrong-call-count", "benchmark called the callable %d times", w.calls );
				SIM_CHECK( threw == w.threw[0], "wrong-result", "the exception of the callable was lost" );
				if( not threw )
					duration( "the time returned", s * 1e9, 1e-3, w.took[0], w.took[0] );
				break;
			}
			case 1: {
				size_t const bytes = sim::choose( 2 ) ? 1 + sim::choose( 100000000 ) : 1024;
				size_t const items = sim::choose( 3 ) ? 1 + sim::choose( 1000 ) : 1;
				bool threw = false;
				try {
					daw::show_benchmark( bytes, "a title", [] { return IntFn{ }( 41, -7 ); }, 2, 2, items );
				} catch( sim::Injected const & ) {
					threw = true;
				}
				end( );
				SIM_CHECK( w.calls == 1, "wrong-call-count", "show_benchmark called the callable %d times", w.calls );
				SIM_CHECK( threw == w.threw[0], "wrong-result", "the exception of the callable was lost" );
				if( threw or out.lost )
					break;
				SIM_CHECK( strncmp( out.text, "a title", 7 ) == 0, "missing-report", "no title: %s", out.text );
				Num t = time_after( "took" );
				duration( "the time shown", t.v, t.tol, w.took[0], w.took[0] );
				if( items > 1 ) {
					Num per = time_after( " or " );
					SIM_CHECK( std::fabs( per.v * (double)items - t.v ) <= per.tol * (double)items + t.tol, "wrong-per-item", "%zu items in %.0f ns are shown as %.3f ns each", items, t.v, per.v );
				}
				rate_check( after( out.text, " at" ), (double)bytes, t );
				break;
			}
			case 2: {
				if( is_void )
					check_expected( ( [&] { auto r = daw::bench_test( "a title", VoidFn{ }, 41, -7 ); end( ); return r; }( ) ) );
				else
					check_expected( ( [&] { auto r = daw::bench_test( "a title", IntFn{ }, 41, -7 ); end( ); return r; }( ) ) );
				SIM_CHECK( w.calls == 1, "wrong-call-count", "bench_test called the callable %d times", w.calls );
				if( w.threw[0] or out.lost )
					break;
				Num t = time_after( "a title took" );
				duration( "the time shown", t.v, t.tol, w.took[0], w.took[0] );
				break;
			}
			default: {
				size_t const items = sim::choose( 3 ) ? 1 + sim::choose( 1000 ) : 1;
				if( is_void )
					check_expected( ( [&] { auto r = daw::bench_test2( "a title", VoidFn{ }, items, 41, -7 ); end( ); return r; }( ) ) );
				else
					check_expected( ( [&] { auto r = daw::bench_test2( "a title", IntFn{ }, items, 41, -7 ); end( ); return r; }( ) ) );
				SIM_CHECK( w.calls == 1, "wrong-call-count", "bench_test2 called the callable %d times", w.calls );
				if( w.threw[0] or out.lost )
					break;
				Num t = time_after( "a title took" );
				duration( "the time shown", t.v, t.tol, w.took[0], w.took[0] );
				if( items > 1 ) {
					char want[48];
					snprintf( want, sizeof want, "to process %zu items", items );
					after( out.text, want );
					Num per = time_after( "items at" );
					SIM_CHECK( std::fabs( per.v * (double)items - t.v ) <= per.tol * (double)items + t.tol, "wrong-per-item", "%zu items in %.0f ns are shown as %.3f ns each", items, t.v, per.v );
				}
			}
			}
		}
	}

	// ---- many runs, with a report -------------------------------------------------
	template<size_t N>
	void check_report( bool mbs, double bytes ) {
		if( out.lost )
			return;
		SIM_CHECK( strncmp( out.text, "many", 4 ) == 0, "missing-report", "no title: %.200s", out.text );
		SIM_CHECK( strtoul( after( out.text, "runs:" ), nullptr, 10 ) == N, "wrong-runs", "the number of runs shown is not %zu", N );
		int64_t lo = INT64_MAX, hi = 0;
		for( size_t k = 0; k < N; ++k ) {
			lo = std::min( lo, w.took[k] );
			hi = std::max( hi, w.took[k] );
		}
		int64_t const sum = w.sum( N );
		Num total = time_after( "total:" ), min = time_after( "min:" ), max = time_after( "max:" ), avg = time_after( "avg:" );
		duration( "the shortest run", min.v, min.tol, lo, lo );
		duration( "the longest run", max.v, max.tol, hi, hi );
		// every run adds its own overhead to the total
		int64_t const ovh = EPS * (int64_t)N;
		duration( "the total", total.v, total.tol + ovh, sum, sum );
		SIM_CHECK( min.v <= avg.v + min.tol + avg.tol + EPS, "average-outside", "the average %.0f ns is below the minimum %.0f ns", avg.v, min.v );
		if( not stalled( ) ) {
			SIM_CHECK( avg.v <= max.v + max.tol + avg.tol + EPS, "average-outside", "the average %.0f ns is above the maximum %.0f ns", avg.v, max.v );
			double const mean = N >= 10 ? (double)( sum - hi ) / (double)( N - 1 ) : (double)sum / (double)N;
			SIM_CHECK( std::fabs( avg.v - mean ) <= avg.tol + EPS, "wrong-average", "the average shown is %.0f ns, the runs took %.0f ns on average", avg.v, mean );
		}
		if( mbs ) {
			struct {
				char const *l;
				Num t;
			} const rows[] = { { "min:", min }, { "avg:", avg }, { "max:", max } };
			for( auto &r : rows )
				rate_check( after( after( out.text, r.l ), "->" ), bytes, r.t );
			double const rps = strtod( after( out.text, "runs/second:" ), nullptr );
			if( min.v - min.tol > 1000 )
				SIM_CHECK( rps >= 1e9 / ( min.v + min.tol ) * 0.999 and rps <= 1e9 / ( min.v - min.tol ) * 1.001, "wrong-rate", "%g runs per second are shown for runs of %.0f ns", rps, min.v );
		}
	}
	template<size_t N, char D>
	void many_n( ) {
		bool const mbs = sim::choose( 2 );
		bool const is_void = sim::chance( 1, 4 );
		size_t const bytes = 1 + sim::choose( 1000000000 );
		auto fin = [&]( auto r ) {
			end( );
			SIM_CHECK( w.calls >= (int)N and w.calls <= (int)N + 1, "wrong-call-count", "%zu runs called the callable %d times", N, w.calls );
			check_expected( r );
			if( not( mbs and w.last_threw( ) ) )
				check_report<N>( mbs, (double)bytes );
		};
		if( mbs ) {
			if( is_void )
				fin( daw::bench_n_test_mbs<N, D>( "many", bytes, VoidFn{ }, 41, -7 ) );
			else
				fin( daw::bench_n_test_mbs<N, D>( "many", bytes, IntFn{ }, 41, -7 ) );
		} else {
			if( is_void )
				fin( daw::bench_n_test<N, D>( "many", VoidFn{ }, 41, -7 ) );
			else
				fin( daw::bench_n_test<N, D>( "many", IntFn{ }, 41, -7 ) );
		}
	}
	void many( ) {
		faults( );
		Redirect rd;
		begin( );
		switch( sim::choose( 6 ) ) {
		case 0: many_n<5, '\n'>( ); break;
		case 1: many_n<1, '\n'>( ); break;
		case 2: many_n<2, ';'>( ); break;
		case 3: many_n<10, '\n'>( ); break;
		case 4: many_n<9, '\n'>( ); break;
		default: many_n<25, '|'>( );
		}
	}

	// ---- many runs, as data -----------------------------------------------------------
	template<size_t N>
	void data_n( ) {
		int const reject = sim::chance( 1, 3 ) ? (int)sim::choose( N ) : -1;
		int seen = 0;
		unsigned const kind = sim::choose( 3 );
		bool threw = false, rejected = false;
		double r[N];
		size_t got = 0;
		try {
			switch( kind ) {
			case 0: {
				auto v = daw::bench_n_test_json<N>( IntFn{ }, 41, -7 );
				for( auto d : v )
					if( got < N )
						r[got++] = (double)d.count( );
				SIM_CHECK( v.size( ) == N, "wrong-runs", "%zu runs gave %zu times", N, v.size( ) );
				break;
			}
			case 1: {
				auto v = daw::bench_n_test_json_val<N>( Validator{ reject, &seen }, IntFn{ }, 41, -7 );
				for( auto d : v )
					if( got < N )
						r[got++] = (double)d.count( );
				SIM_CHECK( v.size( ) == N, "wrong-runs", "%zu runs gave %zu times", N, v.size( ) );
				break;
			}
			default: {
				auto v = daw::bench_n_test_mbs2<N>( "x", 100, Validator{ reject, &seen }, IntFn{ }, 41, -7 );
				for( double d : v )
					r[got++] = d * 1e9;
			}
			}
		} catch( sim::Injected const & ) {
			threw = true;
		} catch( daw::expected_failure const & ) {
			rejected = true;
		}
		end( );
		int const t = w.throws_at == -2 ? 0 : w.throws_at >= 0 and w.throws_at < (int)N ? w.throws_at : -1;
		int const rj = kind == 0 ? -1 : reject;
		bool const want_throw = t >= 0 and ( rj < 0 or t <= rj );
		bool const want_reject = not want_throw and rj >= 0;
		SIM_CHECK( threw == want_throw and rejected == want_reject, "wrong-result", "threw %d rejected %d, expected %d %d", threw, rejected, want_throw, want_reject );
		SIM_CHECK( w.calls == ( want_throw ? t + 1 : want_reject ? rj + 1 : (int)N ), "wrong-call-count", "%zu runs called the callable %d times", N, w.calls );
		if( threw or rejected )
			return;
		if( kind )
			SIM_CHECK( seen == (int)N, "not-validated", "%d of %zu results were validated", seen, N );
		int64_t const save_end = t_end;
		if( kind )
			t_end -= 5000000 * (int64_t)N; // the validator's time belongs to no run
		for( size_t k = 0; k < N; ++k )
			duration( "a run", r[k], 1e-3, w.took[k], w.took[k] );
		t_end = save_end;
	}
	void data( ) {
		faults( );
		Redirect rd;
		begin( );
		switch( sim::choose( 3 ) ) {
		case 0: data_n<4>( ); break;
		case 1: data_n<1>( ); break;
		default: data_n<20>( );
		}
	}

	// ---- checking helpers -----------------------------------------------------------------
	struct Base {
		virtual ~Base( ) = default;
	};
	struct Derived : Base {};
	void helpers( ) {
		sim::swarm( sim::D_IO, { 0, 0, 16000 } );
		Redirect rd;
		for( int k = 0, n = 1 + (int)sim::choose( 8 ); k < n; ++k ) {
			int const a = (int)sim::choose( 4 ) - 1, b = (int)sim::choose( 4 ) - 1;
			unsigned const form = sim::choose( 6 );
			unsigned const what = sim::choose( 4 ); // nothing, Base, Derived, int
			bool const accept = sim::choose( 2 );
			bool failed = false, other = false;
			int calls = 0;
			bool want_fail, want_other = false;
			try {
				switch( form ) {
				case 0:
					want_fail = a != b;
					daw::expecting( a, b );
					break;
				case 1:
					want_fail = a <= 0;
					daw::expecting( a > 0 );
					break;
				case 2:
					want_fail = a <= 0;
					daw::expecting_message( a > 0, "a message" );
					break;
				case 4: // as numbers, whatever their types
					want_fail = a != b;
					if( sim::choose( 2 ) )
						daw::expecting( (long long)a, b );
					else if( a >= 0 )
						daw::expecting( (unsigned)a, b );
					else if( b >= 0 )
						daw::expecting( a, (unsigned long)b );
					else
						want_fail = false;
					break;
				case 5: // any exception of the kind will do
					want_fail = what == 0;
					want_other = what == 3;
					daw::expecting_exception<Base>( [&] {
						++calls;
						if( what == 1 )
							throw Base{ };
						if( what == 2 )
							throw Derived{ };
						if( what == 3 )
							throw 5;
					} );
					break;
				default:
					want_fail = what == 0 or ( what != 3 and not accept );
					want_other = what == 3;
					daw::expecting_exception<Base>(
					  [&] {
						  ++calls;
						  if( what == 1 )
							  throw Base{ };
						  if( what == 2 )
							  throw Derived{ };
						  if( what == 3 )
							  throw 5;
					  },
					  [&]( Base const &x ) {
						  SIM_CHECK( ( dynamic_cast<Derived const *>( &x ) != nullptr ) == ( what == 2 ), "wrong-result", "the predicate was shown another exception" );
						  return accept;
					  } );
				}
			} catch( daw::expected_failure const & ) {
				failed = true;
			} catch( int ) {
				other = true;
			}
			SIM_CHECK( failed == want_fail and other == want_other, "wrong-verdict", "form %u (%d, %d, thrown %u, accepted %d): failed %d, passed on %d", form, a, b, what, accept, failed, other );
			if( form == 3 or form == 5 )
				SIM_CHECK( calls == 1, "wrong-call-count", "the expression was run %d times", calls );
			if( form == 2 and failed and not err.lost )
				SIM_CHECK( strstr( err.text, "a message" ), "missing-report", "the message was not shown" );
			err.clear( );
			std::cerr.clear( );
			sim::state( 1000 + form * 64 + what * 8 + failed * 2 + other );
		}
	}
}
namespace {
	// numbers with units: the unit that leaves between one and a thousand, and the same amount
	void units( ) {
		sim::Quiet q;
		for( int k = 0, n = 1 + (int)sim::choose( 4 ); k < n; ++k ) {
			int const e = (int)sim::choose( 24 );
			double x = (double)( 1 + sim::choose( 1000000 ) ) / 1000.0 * std::pow( 10.0, e - 12 );
			if( sim::chance( 1, 16 ) )
				x = 0;
			int const prec = (int)sim::choose( 7 );
			bool const rate = sim::choose( 2 );
			double per = rate ? ( sim::choose( 2 ) ? 1.0 : (double)( 1 + sim::choose( 5000 ) ) / 100.0 ) : 1.0;
			double bytes = std::floor( x * 1e9 );
			std::string const t = rate ? ( per == 1.0 and bytes < 1.8e19 ? daw::utility::to_bytes_per_second( (unsigned long long)bytes, 1.0, (size_t)prec ) : daw::utility::to_bytes_per_second( bytes, per, (size_t)prec ) ) : daw::utility::format_seconds( x, (size_t)prec );
			static char const *const tu[] = { "fs", "ps", "ns", "us", "ms", "s" };
			static char const *const ru[] = { "bytes", "KB", "MB", "GB", "TB", "PB" };
			char *end;
			double const got = strtod( t.c_str( ), &end );
			SIM_CHECK( end != t.c_str( ), "missing-number", "'%s' has no number", t.c_str( ) );
			if( char const *dot = strchr( t.c_str( ), '.' ) )
				SIM_CHECK( prec and end - dot - 1 == prec, "wrong-precision", "'%s' does not have %d digits", t.c_str( ), prec );
			int u = 0;
			while( u < 6 and strcmp( end, rate ? ru[u] : tu[u] ) != 0 )
				++u;
			SIM_CHECK( u < 6, "wrong-unit", "'%s' has no unit", t.c_str( ) );
			double const want = rate ? bytes / per : x * 1e15;
			double const shown = want / std::pow( 1000.0, u );
			SIM_CHECK( std::fabs( got - shown ) <= 0.5000001 * std::pow( 10.0, -prec ) + std::fabs( shown ) * 1e-9, "wrong-number", "%g is shown as '%s'", want, t.c_str( ) );
			SIM_CHECK( ( u == 5 or shown < 1000.0000001 ) and ( u == 0 or shown > 0.9999999 ), "wrong-unit", "%g is shown as '%s'", want, t.c_str( ) );
			sim::log( "%s", t.c_str( ) );
			sim::state( (uint64_t)( u * 20 + prec ) * 2 + rate );
		}
	}
}
SIM_SCENARIO( unit, 1 ) { units( ); }
SIM_SCENARIO( once, 3 ) { one_shot( ); }
SIM_SCENARIO( many, 4 ) { many( ); }
SIM_SCENARIO( data, 3 ) { data( ); }
SIM_SCENARIO( helpers, 1 ) { helpers( ); }
