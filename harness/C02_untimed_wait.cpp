// runtime: conc
// C02: untimed atomic waits: no lost wake-up, no early return, publication.
#include "sim.h"

#include <daw/daw_atomic_wait.h>

#include <atomic>

namespace sim {
	HarnessInfo const harness = {
	  "C02",
	  "A seeded run starts 1-3 waiters (atomic_wait_if with a random predicate, or atomic_wait_value_equal) and 1-2 writers that step the object through a random value sequence, publish plain data before each store, and notify (one or all) as the standard requires; futex wake-ups may be spurious or interrupted.",
	  "daw_atomic_wait.h untimed family, std::atomic wait/notify headers (waiter pool, spinning, proxy waits)",
	  "thread scheduler, futex, sched_yield, atomic memory model, thread stalls, spurious wake-ups, EINTR",
	  3000000, 90000000, true };
}

namespace {
	template<typename T>
	struct Shared {
		std::atomic<T> v{ T( 0 ) };
		int data[12] = { };
	};

	// A counter is stepped 0..last; data[i] is written before value i+1 is stored.
	template<typename T>
	void counting( bool notify_every ) {
		Shared<T> s;
		int const last = 1 + (int)sim::choose( 6 );
		int const nwait = 1 + (int)sim::choose( 3 );
		int const nwriter = 1 + (int)sim::choose( 2 );
		sim::set_rate( sim::D_SPUR, sim::choose( 2 ) ? 20000 : 0 );
		sim::swarm( sim::D_STALL, { 0, 0, 600 } );
		for( int w = 0; w < nwait; ++w ) {
			int const kind = (int)sim::choose( 4 );
			int const thr = kind == 3 ? last : 1 + (int)sim::choose( (unsigned)last );
			int const rounds = 1 + (int)sim::choose( 2 );
			sim::spawn( [&s, kind, thr, last, rounds] {
				for( int r = 0; r < rounds; ++r ) {
					if( kind == 3 ) {
						daw::atomic_wait_value_equal( &s.v, (T)last );
					} else if( kind == 2 ) {
						// seq_cst order argument
						daw::atomic_wait_if( &s.v, [=]( T v ) { return (int)v >= thr; }, std::memory_order_seq_cst );
					} else {
						bool seen = false;
						daw::atomic_wait_if( &s.v, [&]( T v ) { return seen = (int)v >= thr; } );
						sim::Quiet q;
						SIM_CHECK( seen, "early-return", "atomic_wait_if returned although the last value it looked at does not satisfy the predicate" );
					}
					// the value is monotonic, so the condition must still hold for us
					int now = (int)s.v.load( std::memory_order_relaxed );
					int sum = 0;
					for( int i = 0; i < thr; ++i )
						sum += s.data[i]; // race detector checks the ordering
					sim::Quiet q;
					SIM_CHECK( now >= thr, "early-return", "wait returned while the object had only reached %d of %d", now, thr );
					SIM_CHECK( sum == thr * 7, "stale-data", "data published before the awaited store is not visible" );
					sim::log( "t%d kind=%d threshold=%d ok", sim::self( ), kind, thr );
				}
				sim::probe( "waiter done" );
			} );
		}
		// writers take turns; a later writer continues after acquiring the value
		for( int w = 0; w < nwriter; ++w ) {
			int const from = w == 0 ? 0 : last / 2, to = ( nwriter == 2 and w == 0 ) ? last / 2 : last;
			sim::spawn( [&s, from, to, last, notify_every] {
				if( from ) // hand over between writers
					daw::atomic_wait_if( &s.v, [=]( T v ) { return (int)v >= from; } );
				for( int i = from; i < to; ++i ) {
					if( sim::choose( 3 ) == 2 )
						sim::sleep_ns( 100000 );
					s.data[i] = 7;
					s.v.store( (T)( i + 1 ), std::memory_order_release );
					if( notify_every or i + 1 == last or i + 1 == to )
						s.v.notify_all( );
				}
			} );
		}
		sim::join_all( ); // a lost wake-up shows as a deadlock
	}

	// a value that is not monotonic: found must correspond to a value really stored
	template<typename T>
	void arbitrary( ) {
		std::atomic<T> v{ (T)sim::choose( 4 ) };
		struct H {
			int vals[24];
			int n;
		} h;
		h.n = 0;
		h.vals[h.n++] = (int)v.load( );
		sim::set_rate( sim::D_SPUR, sim::choose( 2 ) ? 16000 : 0 );
		int const nwait = 1 + (int)sim::choose( 3 );
		T const fin = (T)sim::choose( 4 );
		for( int w = 0; w < nwait; ++w ) {
			int const kind = (int)sim::choose( 2 );
			sim::spawn( [&, kind] {
				if( kind ) {
					daw::atomic_wait_value_equal( &v, fin );
				} else {
					int lastv = -1;
					bool res = false;
					daw::atomic_wait_if( &v, [&]( T x ) {
						lastv = (int)x;
						return res = ( x == fin );
					} );
					sim::Quiet q;
					SIM_CHECK( res and lastv == (int)fin, "early-return", "returned although the predicate was last false (value %d)", lastv );
				}
				sim::Quiet q;
				bool was = false;
				for( int i = 0; i < h.n; ++i )
					was = was or h.vals[i] == (int)fin;
				SIM_CHECK( was, "early-return", "returned although the object never held the awaited value" );
				sim::log( "t%d kind=%d returned", sim::self( ), kind );
			} );
		}
		int const nst = (int)sim::choose( 6 );
		sim::spawn( [&, nst] {
			for( int i = 0; i < nst; ++i ) {
				T x = (T)sim::choose( 4 );
				{
					sim::Quiet q;
					h.vals[h.n++] = (int)x;
				}
				v.store( x );
				switch( sim::choose( 3 ) ) {
				case 0: v.notify_all( ); break;
				case 1: v.notify_one( ); break;
				default: break;
				}
			}
			{
				sim::Quiet q;
				h.vals[h.n++] = (int)fin;
			}
			v.store( fin );
			v.notify_all( );
		} );
		sim::join_all( );
	}
} // namespace

SIM_SCENARIO( counting_int, 3 ) { counting<int>( true ); }
SIM_SCENARIO( counting_final_notify, 2 ) { counting<int>( false ); }
SIM_SCENARIO( counting_wide, 2 ) { counting<long>( sim::choose( 2 ) ); }
SIM_SCENARIO( counting_narrow, 1 ) { counting<signed char>( sim::choose( 2 ) ); }
SIM_SCENARIO( arbitrary_int, 2 ) { arbitrary<int>( ); }
SIM_SCENARIO( arbitrary_wide, 2 ) { arbitrary<unsigned long>( ); }
