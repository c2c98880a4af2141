// runtime: conc
// C05: the once gate lets exactly one caller through per arming.
#include "sim.h"

#include <daw/daw_allow_once.h>

namespace sim {
	HarnessInfo const harness = {
	  "C05",
	  "A seeded run lets 2-4 threads call check / boolean test / reset on one gate in random order; the history is checked against a sequential flag, and plain data handed over through the gate is checked for races.",
	  "daw_allow_once.h, std::atomic headers",
	  "thread scheduler, atomic memory model with stale reads, happens-before race detection, thread stalls",
	  3000000, 90000000, true };
}
namespace {
	// code 0: check, 1: reset
	bool step( uint64_t *st, int, sim::HOp const &o ) {
		if( o.code == 1 ) {
			st[0] = 0;
			return true;
		}
		bool ok = o.r == st[0];
		st[0] = 1;
		return ok;
	}
} // namespace

SIM_SCENARIO( single_arming, 3 ) {
	daw::allow_once_t gate;
	int const nt = 2 + (int)sim::choose( 4 );
	sim::swarm( sim::D_STALL, { 0, 4000 } );
	int passed = 0; // only the winner may touch this
	int wins[6] = { };
	for( int t = 0; t < nt; ++t ) {
		int const calls = 1 + (int)sim::choose( 3 ), form = (int)sim::choose( 2 );
		sim::spawn( [&, t, calls, form] {
			for( int i = 0; i < calls; ++i ) {
				bool already = form ? static_cast<bool>( gate ) : gate.check( );
				if( not already ) {
					++passed;
					++wins[t];
				}
			}
		} );
	}
	sim::join_all( );
	int w = 0;
	for( int t = 0; t < nt; ++t )
		w += wins[t];
	SIM_CHECK( w == 1 and passed == 1, "not-once", "%d callers were let through a gate that was armed once", w );
	SIM_CHECK( gate.check( ), "not-once", "a used gate let another caller through" );
	sim::log( "threads=%d winners=%d", nt, w );
}

SIM_SCENARIO( with_resets, 3 ) {
	daw::allow_once_t gate;
	struct H {
		sim::HOp ops[20];
		int n = 0;
	} h;
	int const nt = 2 + (int)sim::choose( 3 );
	sim::swarm( sim::D_STALL, { 0, 4000 } );
	for( int t = 0; t < nt; ++t ) {
		int const k = 1 + (int)sim::choose( 4 );
		int const mask = (int)sim::choose( 256 );
		sim::spawn( [&, k, mask] {
			for( int i = 0; i < k; ++i ) {
				int code = ( mask >> i ) & 1;
				int slot;
				{
					sim::Quiet q;
					slot = h.n++;
					h.ops[slot] = sim::HOp{ sim::self( ), sim::seq( ), ~0ull, code, 0, 0, 0, 0 };
				}
				bool r = false;
				if( code )
					gate.reset( );
				else
					r = ( mask >> 7 ) ? static_cast<bool>( gate ) : gate.check( );
				sim::Quiet q;
				h.ops[slot].r = r;
				h.ops[slot].ret = sim::seq( );
				sim::log( "t%d %s -> %d", sim::self( ), code ? "reset" : "check", (int)r );
			}
		} );
	}
	sim::join_all( );
	sim::Quiet q;
	uint64_t init = 0;
	SIM_CHECK( sim::linearizable( { h.ops, h.ops + h.n }, &init, 1, step, nullptr ), "not-linearizable", "no sequential order of %d check/reset calls explains the results", h.n );
}

SIM_SCENARIO( handover, 2 ) {
	// what the passer did before its check is visible to a caller that is refused;
	// what was done before a reset is visible to the caller that passes after it
	daw::allow_once_t gate;
	int data[2] = { 0, 0 };
	int const kind = (int)sim::choose( 2 );
	sim::set_rate( sim::D_STALE, 30000 );
	if( kind == 0 ) {
		for( int t = 0; t < 2; ++t )
			sim::spawn( [&, t] {
				data[t] = 1;
				if( gate.check( ) ) {
					// refused: the other thread passed before us
					SIM_CHECK( data[1 - t] == 1, "stale-data", "the refused caller does not see what the passer did before" );
					sim::probe( "refused read" );
				}
			} );
	} else {
		SIM_CHECK( not gate.check( ), "not-once", "a fresh gate refused its first caller" );
		sim::spawn( [&] {
			data[0] = 1;
			gate.reset( );
		} );
		sim::spawn( [&] {
			for( int i = 0; i < 20; ++i ) {
				if( not gate.check( ) ) {
					SIM_CHECK( data[0] == 1, "stale-data", "passing after a reset does not see what was done before the reset" );
					sim::probe( "passed after reset" );
					return;
				}
				sim::sleep_ns( 100 );
			}
		} );
	}
	sim::join_all( );
	sim::log( "handover kind=%d", kind );
}
