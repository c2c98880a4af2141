// Deterministic simulation core: public interface used by the harnesses.
//
// One run is a pure function of (scenario, seed, code under test).  A run makes
// two kinds of decision:
//   * workload choices  (choose/chance/range): a dense list W, 0 = simplest;
//   * deviations        (scheduling, stale reads, faults): a sparse list S of
//                       (kind, index-within-kind) -> value, absent = default.
// In seeded mode both are drawn from a PRNG and recorded; in replay mode they
// are read back from a replay file.  Nothing else may influence a run.
#pragma once
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <exception>
#include <functional>
#include <new>
#include <string>
#include <vector>

namespace sim {
	enum Dev : unsigned {
		D_SCHED,    // which thread runs next (schedule, not a fault)
		D_STALE,    // an atomic load returns an older, still visible store
		D_CASFAIL,  // weak compare-exchange fails spuriously
		D_SPUR,     // blocked futex wait returns spuriously / EINTR
		D_STALL,    // running thread is descheduled for a long simulated time
		D_OVERSLEEP,// sleep lasts longer than asked
		D_CLOCK,    // wall clock jumps forwards or backwards
		D_ALLOC,    // operator new fails with bad_alloc
		D_THROW,    // user supplied callback / element operation throws
		D_IO,       // simulated syscall or stream fails / is short / EINTR
		D_RACEFS,   // file changes size between two system calls
		D_RAND,     // value handed out by the simulated entropy source
		D_COUNT
	};
	char const *dev_name( unsigned d );

	// ---- decisions ---------------------------------------------------------
	uint32_t choose( uint32_t n );                 // workload choice in [0,n)
	inline bool chance( uint32_t num, uint32_t den ) { return choose( den ) >= den - num; }
	inline int64_t range( int64_t lo, int64_t hi ) { return lo + (int64_t)choose( (uint32_t)( hi - lo + 1 ) ); }
	uint64_t choose64( );                          // arbitrary 64 bit value
	uint32_t deviate( Dev kind, uint32_t n );      // 0 = default, else 1..n-1
	// Per run enabling of fault kinds; p is per opportunity, in 1/65536
	void set_rate( Dev kind, uint32_t p65536 );
	uint32_t get_rate( Dev kind );
	// pick a swarm rate for `kind` from the seed (may be 0 for this run)
	void swarm( Dev kind, std::initializer_list<uint32_t> rates );
	void cap( Dev kind, uint32_t max_per_run );

	// ---- reporting ---------------------------------------------------------
	[[noreturn]] void fail( char const *cls, char const *fmt, ... ) __attribute__( ( format( printf, 2, 3 ) ) );
	void log( char const *fmt, ... ) __attribute__( ( format( printf, 1, 2 ) ) );
	void mix( uint64_t v );                        // into run hash
	void probe( char const *name );                // reach counter
	void state( uint64_t h );                      // record an abstract state reached
#define SIM_CHECK( cond, cls, ... )            \
	do {                                         \
		if( not( cond ) )                          \
			::sim::fail( cls, __VA_ARGS__ );         \
	} while( 0 )

	// ---- fault injection: allocation and callbacks ---------------------------
	// Faults of kind D_ALLOC / D_THROW / D_IO only fire inside an armed region
	int armed_level( );
	void armed_set( int v );
	struct Armed {
		Armed( ) { armed_set( armed_level( ) + 1 ); }
		~Armed( ) { armed_set( armed_level( ) - 1 ); }
		Armed( Armed const & ) = delete;
	};
	struct Disarmed {
		int save;
		Disarmed( )
		  : save( armed_level( ) ) {
			armed_set( 0 );
		}
		~Disarmed( ) { armed_set( save ); }
		Disarmed( Disarmed const & ) = delete;
	};
	struct Injected {
		int site;
	};
	void throw_point( int site );                  // may throw Injected
	uint64_t injected_count( );                    // faults fired so far in run (all but SCHED/STALE)

	// ---- allocation accounting ------------------------------------------------
	int64_t live_allocs( );                        // allocations of the run not yet freed
	int64_t live_bytes( );
	// A scope in which allocations are the simulator's own (not counted)
	struct Quiet {
		Quiet( );
		~Quiet( );
		Quiet( Quiet const & ) = delete;
	};

	// ---- time -------------------------------------------------------------------
	int64_t now_ns( );                             // simulated monotonic time
	void advance_ns( int64_t ns );
	int64_t realtime_offset( );

	// ---- threads (concurrent runtime only) --------------------------------------
	int spawn_impl( void ( *fn )( void * ), void *arg );
	void join( int tid );
	void join_all( );
	int self( );
	void op_point( );                              // explicit scheduling point
	void sleep_ns( int64_t ns );
	uint64_t seq( );                               // global event sequence number
	void set_ns_per_step( int64_t ns );
	void set_step_limit( uint64_t n );
	bool blocked( int tid );
	template<typename F>
	int spawn( F f ) {
		F *p = new F( std::move( f ) );
		return spawn_impl(
		  []( void *a ) {
			  F *q = static_cast<F *>( a );
			  ( *q )( );
			  delete q;
		  },
		  p );
	}

	// ---- scenarios ----------------------------------------------------------------
	struct Scenario {
		char const *name;
		int weight; // 0: probe, run a few times on its own, key into known findings
		void ( *fn )( );
		int expect; // 1: known-defect probe
	};
	void add_scenario( Scenario );
	struct AddScenario {
		AddScenario( Scenario s ) { add_scenario( s ); }
	};
#define SIM_SCENARIO( nm, weight )                                                              \
	static void sim_scn_##nm( );                                                                  \
	static ::sim::AddScenario sim_scn_reg_##nm( ::sim::Scenario{ #nm, weight, sim_scn_##nm, 0 } ); \
	static void sim_scn_##nm( )

	// property text for evidence, defined by each harness
	struct HarnessInfo {
		char const *property;
		char const *rule;         // how cases are made and what is non-trivial
		char const *real;         // components running real code
		char const *stubbed;      // components simulated
		uint64_t quick_runs;
		uint64_t thorough_runs;
		bool conc;                // uses the concurrent runtime
	};
	extern HarnessInfo const harness;

	// ---- linearizability ------------------------------------------------------------
	struct HOp {
		int tid;
		uint64_t inv, ret;
		int code;
		uint64_t a, b;     // arguments
		uint64_t r, r2;    // results
	};
	// step: applies op to state (opaque words), returns false if result impossible
	using StepFn = bool ( * )( uint64_t *state, int nstate, HOp const &op );
	bool linearizable( std::vector<HOp> const &ops, uint64_t const *init, int nstate, StepFn step,
	                   uint64_t const *final_state /*nullable*/ );

	// ---- low level (runtime <-> core) -------------------------------------------------
	namespace rt {
		void begin_run( );
		void execute( void ( *fn )( ) );
		void end_run( );
		void stats( uint64_t &steps, uint64_t &switches, int64_t &sim_ns );
		extern bool active;
		// scheduling decision helpers
		uint64_t rng_next( ); // deviation rng, seeded mode only
		bool replaying( );
		uint32_t dev_record( Dev kind, uint32_t value ); // record a decision made by the runtime
		bool dev_lookup( Dev kind, uint32_t &value );    // advance index, replay lookup
		uint64_t cfg_next( );  // configuration rng (seeded mode; constant in replay)
		void count_fault( Dev kind );
		[[noreturn]] void raise_violation( char const *cls, char const *msg );
	} // namespace rt
} // namespace sim
