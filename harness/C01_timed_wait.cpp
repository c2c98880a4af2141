// runtime: conc
// C01: timed atomic waits report the truth and honour their deadline.
#include "sim.h"

#include <daw/daw_atomic_wait.h>

#include <atomic>
#include <chrono>
#include <cstdint>

namespace sim {
	HarnessInfo const harness = {
	  "C01",
	  "A seeded run starts 1-2 waiters (one of the six timed wait functions, random timeout, clock and duration type) and 1-2 writers that store a random value sequence at random simulated times; the scheduler decides every interleaving.",
	  "daw_atomic_wait.h timed family, std::atomic and std::chrono headers, std::this_thread::sleep_for/yield",
	  "thread scheduler, clock_gettime, nanosleep, sched_yield, atomic memory model, thread stalls, oversleeping, EINTR, wall clock jumps",
	  1500000, 40000000, true };
}

namespace {
	using ns = std::chrono::nanoseconds;
	constexpr int64_t US = 1000, MS = 1000000, S = 1000000000;
	constexpr int64_t BOUND = 100 * MS; // promised promptness when threads are not stalled

	struct Change {
		int64_t before, after; // simulated time just before / after the store
		int64_t value;
		int payload;
	};
	struct World {
		// history of the object's value, in modification order (one writer at a time)
		Change hist[40];
		int n = 0;
	};

	struct Cfg {
		bool stale, stalls, oversleep, jumps, spur;
		bool timing( ) const { return not stalls and not oversleep and not stale; }
	};

	template<typename T>
	struct Run {
		std::atomic<T> obj;
		World w;
		Cfg cfg;

		void record( int64_t b, int64_t v, int p ) {
			sim::Quiet q;
			w.hist[w.n].before = b;
			w.hist[w.n].value = v;
			w.hist[w.n].payload = p;
			w.hist[w.n].after = INT64_MAX;
			++w.n;
		}
		void done( int64_t a ) {
			sim::Quiet q;
			w.hist[w.n - 1].after = a;
		}
	};

	int64_t pick_timeout( ) {
		static constexpr int64_t t[] = { 0,        1,         -5 * MS,  700,      3 * US,   50 * US,  70 * US,  200 * US, 1 * MS,   5 * MS,
		                                 20 * MS,  90 * MS,   127 * MS, 129 * MS, 150 * MS, 200 * MS, 300 * MS, 1 * S,    5 * S,    12 * S };
		int64_t b = t[sim::choose( 20 )];
		return b;
	}

	template<typename T>
	struct Pred {
		T want;
		int kind; // 0 equal, 1 >=, 2 odd
		bool operator( )( T v ) const {
			switch( kind ) {
			case 0: return v == want;
			case 1: return v >= want;
			default: return ( (int64_t)v & 1 ) == ( (int64_t)want & 1 );
			}
		}
	};

	template<typename T>
	void waiter( Run<T> &r ) {
		int const fn = (int)sim::choose( 6 );
		int64_t const timeout = pick_timeout( );
		int const clockk = (int)sim::choose( 2 );
		int const durk = (int)sim::choose( 3 );
		T const want = (T)sim::choose( 4 );
		int const pk = (int)sim::choose( 3 );
		bool const relaxed = sim::choose( 5 ) == 4;
		auto const order = relaxed ? std::memory_order_relaxed : std::memory_order_acquire;
		if( sim::choose( 3 ) )
			sim::sleep_ns( (int64_t)sim::choose( 300 ) * US );
		Pred<T> pred{ want, fn < 2 ? 3 : pk };
		// what counts as satisfied for this call
		auto sat = [&]( int64_t v ) {
			if( fn < 2 )
				return (T)v != want;
			if( fn < 4 )
				return pred( (T)v );
			return (T)v == want;
		};
		daw::wait_status st{ };
		int64_t t0 = 0, t1 = 0, eff = timeout;
		bool sys_until = false;
		auto rel = [&]( auto call ) {
			t0 = sim::now_ns( );
			switch( durk ) {
			case 0: st = call( ns( timeout ) ); break;
			case 1:
				if( timeout % MS == 0 ) {
					st = call( std::chrono::milliseconds( timeout / MS ) );
				} else {
					st = call( ns( timeout ) );
				}
				break;
			default:
				if( timeout % US == 0 )
					st = call( std::chrono::microseconds( timeout / US ) );
				else
					st = call( ns( timeout ) );
			}
			t1 = sim::now_ns( );
		};
		auto until = [&]( auto call ) {
			// a deadline given as a time point of a clock
			if( clockk == 0 or r.cfg.jumps ) {
				auto tp = std::chrono::steady_clock::now( ) + ns( timeout );
				t0 = sim::now_ns( );
				eff = tp.time_since_epoch( ).count( ) - t0;
				st = call( tp );
			} else {
				sys_until = true;
				auto tp = std::chrono::system_clock::now( ) + ns( timeout );
				t0 = sim::now_ns( );
				eff = tp.time_since_epoch( ).count( ) - sim::realtime_offset( ) - t0;
				st = call( tp );
			}
			t1 = sim::now_ns( );
		};
		switch( fn ) {
		case 0: rel( [&]( auto d ) { return daw::atomic_wait_for( &r.obj, want, d, order ); } ); break;
		case 1: until( [&]( auto tp ) { return daw::atomic_wait_until( &r.obj, want, tp, order ); } ); break;
		case 2: rel( [&]( auto d ) { return daw::atomic_wait_if_for( &r.obj, pred, d, order ); } ); break;
		case 3: until( [&]( auto tp ) { return daw::atomic_wait_if_until( &r.obj, Pred<T>( pred ), tp, order ); } ); break;
		case 4: rel( [&]( auto d ) { return daw::atomic_wait_value_equal_for( &r.obj, want, d, order ); } ); break;
		default: until( [&]( auto tp ) { return daw::atomic_wait_value_equal_until( &r.obj, want, tp, order ); } ); break;
		}
		sim::Quiet q;
		static char const *names[] = { "wait_for", "wait_until", "wait_if_for", "wait_if_until", "wait_value_equal_for", "wait_value_equal_until" };
		bool const found = st == daw::wait_status::found;
		sim::log( "t%d atomic_%s want=%d pk=%d timeout=%lld -> %s after %lld ns", sim::self( ), names[fn], (int)want, pk, (long long)timeout,
		          found ? "found" : "timeout", (long long)( t1 - t0 ) );
		SIM_CHECK( found or st == daw::wait_status::timeout, "bad-status", "%s returned neither found nor timeout", names[fn] );
		World const &w = r.w;
		// A value is visible from `before` of its store to `after` of the next store.
		bool could = false, could_stale = false;
		int64_t since = INT64_MAX; // condition holds continuously since this time
		for( int i = 0; i < w.n; ++i ) {
			int64_t from = w.hist[i].before;
			int64_t to = i + 1 < w.n ? w.hist[i + 1].after : INT64_MAX;
			if( sat( w.hist[i].value ) ) {
				could_stale = true;
				if( from <= t1 and to >= t0 )
					could = true;
			}
		}
		for( int i = w.n - 1; i >= 0; --i ) {
			// continuous truth up to t1: look backwards from the return
			int64_t from_start = w.hist[i].before; // from when the value may have been visible
			if( from_start > t1 )
				continue; // store began after the return
			if( not sat( w.hist[i].value ) )
				break;
			since = w.hist[i].after; // certainly visible from here
		}
		if( found ) {
			SIM_CHECK( r.cfg.stale ? could_stale : could, "found-without-condition",
			           "atomic_%s reported found but the condition never held between call and return", names[fn] );
			if( r.cfg.timing( ) and since < t1 ) {
				int64_t s = since > t0 ? since : t0;
				SIM_CHECK( t1 - s <= BOUND, "late-found", "atomic_%s noticed the change %lld ms after it happened", names[fn], (long long)( ( t1 - s ) / MS ) );
			}
		} else {
			SIM_CHECK( t1 - t0 >= eff, "early-timeout", "atomic_%s reported a timeout after %lld ns, the timeout was %lld ns", names[fn], (long long)( t1 - t0 ),
			           (long long)eff );
			// The condition held from before the call: must have been found
			if( not r.cfg.stale )
				SIM_CHECK( not( since <= t0 ), "missed", "atomic_%s reported a timeout although the condition held from before the call until its return", names[fn] );
			if( not r.cfg.stale and r.cfg.timing( ) )
				SIM_CHECK( not( since != INT64_MAX and since < t0 + eff - 400 * US ), "missed",
				           "atomic_%s reported a timeout although the condition held from %lld us before the deadline until the return", names[fn],
				           (long long)( ( t0 + eff - since ) / US ) );
			if( r.cfg.timing( ) ) {
				int64_t e = eff > 0 ? eff : 0;
				SIM_CHECK( t1 - t0 - e <= BOUND, "late-timeout", "atomic_%s returned %lld ms after its deadline", names[fn], (long long)( ( t1 - t0 - e ) / MS ) );
			}
		}
		(void)sys_until;
		sim::probe( found ? "found" : "timeout" );
		if( found and t1 - t0 > 200 * US )
			sim::probe( "found after sleeping" );
		if( not found and timeout > 100 * MS )
			sim::probe( "long timeout" );
		sim::state( ( (uint64_t)fn << 8 ) | ( (uint64_t)found << 4 ) | ( t1 - t0 > 64 * US ) | ( ( t1 - t0 > 128 * MS ) << 1 ) | ( ( t1 - t0 > 4 * US ) << 2 ) );
	}

	template<typename T>
	void scenario( Cfg cfg ) {
		Run<T> r;
		r.cfg = cfg;
		r.w.n = 0;
		T init = (T)sim::choose( 4 );
		r.record( -1, (int64_t)init, 0 );
		r.w.hist[0].after = -1;
		r.obj.store( init );
		if( not cfg.stale )
			sim::set_rate( sim::D_STALE, 0 );
		else
			sim::set_rate( sim::D_STALE, 20000 );
		if( cfg.stalls )
			sim::set_rate( sim::D_STALL, 1200 );
		if( cfg.oversleep )
			sim::set_rate( sim::D_OVERSLEEP, 30000 );
		if( cfg.jumps ) {
			sim::set_rate( sim::D_CLOCK, 1500 );
			sim::cap( sim::D_CLOCK, 6 );
		}
		if( cfg.spur )
			sim::set_rate( sim::D_SPUR, 20000 );
		static constexpr int64_t speed[] = { 20, 5, 100, 1 };
		sim::set_ns_per_step( speed[sim::choose( 4 )] );
		int nwait = 1 + (int)sim::choose( 2 );
		for( int i = 0; i < nwait; ++i )
			sim::spawn( [&r] { waiter( r ); } );
		int nst = (int)sim::choose( 7 );
		sim::spawn( [&r, nst] {
			for( int i = 0; i < nst; ++i ) {
				static constexpr int64_t gaps[] = { 0, 0, 300, 5 * US, 60 * US, 90 * US, 1 * MS, 30 * MS, 120 * MS, 160 * MS, 900 * MS, 2 * S };
				int64_t g = gaps[sim::choose( 12 )];
				if( g )
					sim::sleep_ns( g + (int64_t)sim::choose( 1000 ) * ( g / 1000 ) );
				T v = (T)sim::choose( 4 );
				r.record( sim::now_ns( ), (int64_t)v, i + 1 );
				r.obj.store( v, std::memory_order_release );
				r.done( sim::now_ns( ) );
			}
		} );
		sim::join_all( );
	}
	// data is written once before each store; found must make it visible
	template<typename T>
	void publish_once( ) {
		struct P {
			std::atomic<T> flag{ T( 0 ) };
			int data[4] = { };
		} p;
		int steps = 1 + (int)sim::choose( 3 );
		int fn = (int)sim::choose( 6 );
		bool jumps = sim::choose( 4 ) == 3;
		if( jumps )
			sim::set_rate( sim::D_CLOCK, 800 );
		auto waiter = [&] {
			daw::wait_status st{ };
			T last = (T)steps;
			auto pr = [=]( T v ) { return v >= last; };
			auto tmo = std::chrono::seconds( 3 );
			T from = (T)( steps - 1 );
			switch( fn ) {
			case 0:
				if( steps != 1 )
					return;
				st = daw::atomic_wait_for( &p.flag, from, tmo );
				break;
			case 1:
				if( steps != 1 )
					return;
				st = daw::atomic_wait_until( &p.flag, from, std::chrono::steady_clock::now( ) + tmo );
				break;
			case 2: st = daw::atomic_wait_if_for( &p.flag, pr, tmo ); break;
			case 3: st = daw::atomic_wait_if_until( &p.flag, pr, std::chrono::steady_clock::now( ) + tmo ); break;
			case 4: st = daw::atomic_wait_value_equal_for( &p.flag, last, tmo ); break;
			default: st = daw::atomic_wait_value_equal_until( &p.flag, last, std::chrono::steady_clock::now( ) + tmo ); break;
			}
			SIM_CHECK( st == daw::wait_status::found, "missed", "a value set within a 3 s timeout and kept was not found" );
			int sum = 0;
			for( int i = 0; i < steps; ++i )
				sum += p.data[i]; // race detector: must be ordered after the writes
			sim::Quiet q;
			SIM_CHECK( sum == 10 * steps, "stale-data", "data published before the awaited store is not visible" );
			sim::log( "publish fn=%d steps=%d ok", fn, steps );
			sim::probe( "publication read" );
		};
		sim::spawn( waiter );
		if( sim::choose( 2 ) )
			sim::spawn( waiter );
		sim::spawn( [&] {
			for( int i = 0; i < steps; ++i ) {
				if( sim::choose( 2 ) )
					sim::sleep_ns( sim::choose( 4 ) == 0 ? 100 * MS : (int64_t)sim::choose( 500 ) * US );
				p.data[i] = 10;
				p.flag.store( (T)( i + 1 ), std::memory_order_release );
			}
		} );
		sim::join_all( );
	}
} // namespace

SIM_SCENARIO( plain, 5 ) {
	switch( sim::choose( 4 ) ) {
	case 0: scenario<int>( { } ); break;
	case 1: scenario<long>( { } ); break;
	case 2: scenario<unsigned char>( { } ); break;
	default: scenario<int>( { } ); break;
	}
}
SIM_SCENARIO( clock_jumps, 3 ) { scenario<int>( Cfg{ false, false, false, true, sim::choose( 2 ) == 1 } ); }
SIM_SCENARIO( stalls, 3 ) { scenario<int>( Cfg{ false, true, sim::choose( 2 ) == 1, sim::choose( 2 ) == 1, true } ); }
SIM_SCENARIO( stale_reads, 2 ) { scenario<int>( Cfg{ true, sim::choose( 4 ) == 3, false, false, false } ); }
SIM_SCENARIO( publish, 3 ) {
	switch( sim::choose( 3 ) ) {
	case 0: publish_once<int>( ); break;
	case 1: publish_once<short>( ); break;
	default: publish_once<long>( ); break;
	}
}
