// runtime: conc
// C04: operations of the library's atomic order other memory as requested.
#include "sim.h"

#include <daw/daw_cx_atomic.h>

namespace sim {
	HarnessInfo const harness = {
	  "C04",
	  "A seeded run passes plain data along a chain of 2-4 threads: each link publishes with a random releasing operation (store, exchange, fetch-op, compare-exchange, operator form) and receives with a random acquiring one; races and stale data are violations. Further scenarios: spin lock and Dekker style mutual exclusion built from the atomic.",
	  "daw_cx_atomic.h (all operations and order arguments), std::atomic_ref headers",
	  "thread scheduler, atomic memory model with stale reads, happens-before race detection, spurious failure of weak compare-exchange, thread stalls",
	  2500000, 75000000, true };
}
namespace {
	using mo = std::memory_order;
	using A = daw::atomic<int>;

	// each advances the flag from v-1 to v with release semantics
	constexpr int NREL = 20;
	bool publish( A &f, int v, int kind ) {
		int e = v - 1;
		switch( kind ) {
		case 0: f.store( v, mo::release ); return true;
		case 1: f.store( v ); return true;
		case 2: f = v; return true;
		case 3: (void)f.exchange( v, mo::release ); return true;
		case 4: (void)f.exchange( v, mo::acq_rel ); return true;
		case 5: (void)f.exchange( v ); return true;
		case 6: (void)f.fetch_add( 1, mo::release ); return true;
		case 7: (void)f.fetch_add( 1 ); return true;
		case 8: (void)f.fetch_sub( -1, mo::acq_rel ); return true;
		case 9: ++f; return true;
		case 10: f++; return true;
		case 11: f += 1; return true;
		case 12: f -= -1; return true;
		case 13: (void)f.fetch_xor( e ^ v, mo::release ); return true;
		case 14: f ^= ( e ^ v ); return true;
		case 15: {
			while( not f.compare_exchange_weak( e, v, mo::release, mo::relaxed ) )
				e = v - 1;
			return true;
		}
		case 16: return f.compare_exchange_strong( e, v, mo::release, mo::relaxed );
		case 17: return f.compare_exchange_strong( e, v );
		case 18: {
			A const tmp( v );
			f = tmp;
			return true;
		}
		default: return f.compare_exchange_strong( e, v, mo::acq_rel );
		}
	}
	// each tries to see a value >= v with acquire semantics, leaving the value alone
	constexpr int NACQ = 18;
	bool receive( A &f, int v, int kind ) {
		int e = -1;
		switch( kind ) {
		case 0: return f.load( mo::acquire ) >= v;
		case 1: return f.load( ) >= v;
		case 2: return (int)f >= v;
		case 3: {
			A y( static_cast<A const &>( f ) );
			return y.load( mo::relaxed ) >= v;
		}
		case 4: return f.fetch_add( 0, mo::acquire ) >= v;
		case 5: return f.fetch_sub( 0 ) >= v;
		case 6: return f.fetch_or( 0, mo::acquire ) >= v;
		case 7: return f.fetch_and( ~0, mo::acquire ) >= v;
		case 8: return f.fetch_xor( 0, mo::acq_rel ) >= v;
		case 9: return ( f += 0 ) >= v;
		case 10: return ( f |= 0 ) >= v;
		case 11: return ( f &= ~0 ) >= v;
		case 12: return not f.compare_exchange_strong( e, 77, mo::relaxed, mo::acquire ) and e >= v; // failing: failure order
		case 13: return not f.compare_exchange_weak( e, 77, mo::acq_rel, mo::acquire ) and e >= v;
		case 14: {
			e = v;
			return f.compare_exchange_strong( e, v, mo::acquire, mo::relaxed ); // succeeding: success order
		}
		case 15: {
			e = v;
			return f.compare_exchange_weak( e, v, mo::acquire, mo::relaxed );
		}
		case 16: return not f.compare_exchange_strong( e, 77, mo::acquire ) and e >= v; // one order: derived failure order
		default: {
			A y( 0 );
			y = static_cast<A const &>( f );
			return y.load( mo::relaxed ) >= v;
		}
		}
	}

	struct Chain {
		A flag{ 0 };
		int data[5] = { };
	};
} // namespace

SIM_SCENARIO( message_chain, 5 ) {
	Chain c;
	int const n = 2 + (int)sim::choose( 3 );
	sim::set_rate( sim::D_STALE, 30000 );
	sim::swarm( sim::D_CASFAIL, { 0, 10000 } );
	for( int t = 0; t < n; ++t ) {
		int const pk = (int)sim::choose( NREL ), ak = (int)sim::choose( NACQ );
		sim::spawn( [&c, t, pk, ak] {
			// link t waits for value t, checks all earlier data, publishes t+1
			bool got = t == 0;
			for( int i = 0; i < 24 and not got; ++i ) {
				got = receive( c.flag, t, ak );
				if( not got )
					sim::sleep_ns( 300 );
			}
			if( not got ) {
				sim::probe( "gave up" );
				return;
			}
			int sum = 0;
			for( int i = 0; i < t; ++i )
				sum += c.data[i];
			SIM_CHECK( sum == t * 5, "stale-data", "receive form %d saw the flag but not the data behind it", ak );
			c.data[t] = 5;
			if( not publish( c.flag, t + 1, pk ) ) {
				// compare_exchange_strong from the expected value may not fail: nobody else advances it
				SIM_CHECK( false, "cas", "compare_exchange_strong failed although the value was the expected one" );
			}
			sim::Quiet q;
			sim::log( "t%d link %d recv %d publish %d", sim::self( ), t, ak, pk );
			sim::probe( "link passed" );
			sim::state( (uint64_t)pk * 64 + (uint64_t)ak );
		} );
	}
	sim::join_all( );
}

SIM_SCENARIO( spin_lock, 3 ) {
	struct L {
		A lock{ 0 };
		daw::atomic<bool> block{ false };
		int counter = 0;
	} l;
	int const kind = (int)sim::choose( 5 );
	int const nt = 2 + (int)sim::choose( 2 ), rounds = 1 + (int)sim::choose( 2 );
	sim::set_rate( sim::D_STALE, 20000 );
	sim::swarm( sim::D_CASFAIL, { 0, 10000 } );
	for( int t = 0; t < nt; ++t )
		sim::spawn( [&, kind, rounds] {
			for( int r = 0; r < rounds; ++r ) {
				auto try_lock = [&] {
					int e = 0;
					switch( kind ) {
					case 0: return l.lock.exchange( 1, mo::acquire ) == 0;
					case 1: return l.lock.compare_exchange_weak( e, 1, mo::acquire, mo::relaxed );
					case 2: return l.lock.compare_exchange_strong( e, 1 );
					case 3: return not l.block.exchange( true, mo::acquire );
					default: return l.lock.fetch_or( 1, mo::acquire ) == 0;
					}
				};
				auto unlock = [&] {
					switch( kind ) {
					case 0: l.lock.store( 0, mo::release ); break;
					case 1: l.lock.fetch_sub( 1, mo::release ); break;
					case 2: l.lock = 0; break;
					case 3: l.block.store( false, mo::release ); break;
					default: l.lock.fetch_and( 0, mo::release ); break;
					}
				};
				while( not try_lock( ) )
					sim::sleep_ns( 200 );
				++l.counter;
				unlock( );
			}
		} );
	sim::join_all( );
	SIM_CHECK( l.counter == nt * rounds, "lost-update", "mutual exclusion was broken: %d of %d increments survived", l.counter, nt * rounds );
	sim::log( "spin lock kind=%d threads=%d counter=%d", kind, nt, l.counter );
}

SIM_SCENARIO( store_buffering, 2 ) {
	// default orders are sequentially consistent: two threads cannot both miss the other's store
	struct D {
		A x{ 0 }, y{ 0 };
		int crit = 0;
	} d;
	int const sk = (int)sim::choose( 4 ), lk = (int)sim::choose( 4 );
	sim::set_rate( sim::D_STALE, 40000 );
	int r[2] = { -1, -1 };
	for( int t = 0; t < 2; ++t )
		sim::spawn( [&, t] {
			A &mine = t ? d.y : d.x;
			A &other = t ? d.x : d.y;
			switch( sk ) {
			case 0: mine.store( 1 ); break;
			case 1: mine = 1; break;
			case 2: {
				A const one( 1 );
				mine = one;
				break;
			}
			default: mine.exchange( 1 ); break;
			}
			int v = 0;
			switch( lk ) {
			case 0: v = other.load( ); break;
			case 1: v = other; break;
			case 2: {
				A c( static_cast<A const &>( other ) );
				v = c.load( );
				break;
			}
			default: v = other.load( mo::seq_cst ); break;
			}
			r[t] = v;
			if( v == 0 )
				++d.crit; // Dekker: at most one thread gets here, otherwise this is a race
		} );
	sim::join_all( );
	SIM_CHECK( r[0] or r[1], "not-sequentially-consistent", "both threads missed the other's store (store form %d, load form %d)", sk, lk );
	sim::log( "store buffering r0=%d r1=%d", r[0], r[1] );
}

SIM_SCENARIO( independent_reads, 1 ) {
	// IRIW with default orders: two readers must agree on the order of two stores
	A x{ 0 }, y{ 0 };
	sim::set_rate( sim::D_STALE, 40000 );
	int a[2], b[2];
	sim::spawn( [&] { x.store( 1 ); } );
	sim::spawn( [&] { y = 1; } );
	sim::spawn( [&] {
		a[0] = x.load( );
		a[1] = y;
	} );
	sim::spawn( [&] {
		b[0] = y.load( );
		b[1] = x;
	} );
	sim::join_all( );
	SIM_CHECK( not( a[0] == 1 and a[1] == 0 and b[0] == 1 and b[1] == 0 ), "not-sequentially-consistent", "readers disagree on the order of two stores" );
	sim::log( "iriw %d%d %d%d", a[0], a[1], b[0], b[1] );
}
