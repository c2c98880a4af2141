// C12: scope guards run their handler exactly once, exactly when they should.
#include "tracked.h"

#include <daw/daw_scope_guard.h>

#include <memory>
#include <optional>

namespace sim {
	HarnessInfo const harness = {
	  "C12",
	  "A seeded run builds a tree of nested scopes holding scope guards and success-only guards; exceptions are raised at random points (between guards, in nested scopes entered while another exception unwinds, inside a guard's clean-up code), guards are cancelled, dismissed, run early and moved, and every handler run is compared with what the history demands, including the order of runs.",
	  "daw_scope_guard.h, std::optional, the C++ exception runtime",
	  "exceptions raised at fault points",
	  4000000, 120000000, false };
}
namespace {
	constexpr int NG = 48;
	struct Log {
		int runs[NG];
		int expect[NG]; // -1 unknown, else number of runs
		int order[NG * 2];
		int n, ids;
		int depth;
	};
	Log *L;
	int fresh( ) {
		sim::Quiet q;
		if( L->ids >= NG - 1 )
			return NG - 1;
		L->expect[L->ids] = -1;
		return L->ids++;
	}
	void ran( int id ) {
		sim::Quiet q;
		L->runs[id]++;
		if( L->n < NG * 2 )
			L->order[L->n++] = id;
		if( id != NG - 1 )
			SIM_CHECK( L->runs[id] == 1, "ran-twice", "handler %d ran %d times", id, L->runs[id] );
	}
	struct Handler {
		int id;
		trk::Safe probe; // catches use of a destroyed handler
		explicit Handler( int i )
		  : id( i )
		  , probe( i ) {}
		void operator( )( ) {
			SIM_CHECK( probe.val( ) == id, "dead-handler", "a moved-from or dead handler was run" );
			ran( id );
		}
	};
	struct CopyHandler {
		int id;
		void operator( )( ) const noexcept { ran( id ); }
	};
	void scope( int depth );
	// clean-up code that itself uses guards, possibly while an exception is in flight
	struct Cleanup {
		int depth;
		~Cleanup( ) {
			if( depth <= 0 )
				return;
			try {
				scope( depth );
			} catch( sim::Injected const & ) {
				sim::probe( "exception inside clean-up" );
			}
		}
	};
	void check( int id, int want, char const *what ) {
		sim::Quiet q;
		if( id == NG - 1 )
			return;
		SIM_CHECK( L->runs[id] == want, want > L->runs[id] ? "not-run" : "ran-unasked", "%s: handler %d ran %d times, expected %d", what, id, L->runs[id], want );
	}
	struct FailingHandler { // may fail after it has done its work
		int id;
		int in_flight = std::uncaught_exceptions( );
		trk::Safe probe;
		explicit FailingHandler( int i )
		  : id( i )
		  , probe( i ) {}
		void operator( )( ) {
			SIM_CHECK( probe.val( ) == id, "dead-handler", "a moved-from or dead handler was run" );
			ran( id );
			if( std::uncaught_exceptions( ) == in_flight ) // not allowed while its own scope unwinds
				sim::throw_point( 30 );
			SIM_CHECK( probe.val( ) == id, "dead-handler", "a handler was destroyed while it was running" );
		}
	};
	void one_guard( int depth ) {
		int const id = fresh( );
		unsigned const kind = sim::choose( 11 );
		int want = 0;
		bool threw = false;
		try {
			switch( kind ) {
			case 0: {
				auto g = daw::on_scope_exit( Handler( id ) );
				want = 1;
				sim::throw_point( 1 );
				scope( depth - 1 );
				check( id, 0, "before the end of its scope" );
			} break;
			case 1: {
				auto g = daw::on_scope_exit( CopyHandler{ id } );
				want = 1;
				scope( depth - 1 );
				sim::throw_point( 2 );
				want = 0;
				g.cancel( );
				sim::throw_point( 3 );
			} break;
			case 2: {
				auto g = daw::on_scope_exit( CopyHandler{ id } );
				want = 1;
				scope( depth - 1 );
				sim::throw_point( 2 );
				want = 0;
				g.dismiss( );
				sim::throw_point( 3 );
			} break;
			case 3: {
				auto g = daw::on_scope_exit( Handler( id ) );
				want = 1;
				sim::throw_point( 4 );
				g.run_now( );
				check( id, 1, "run_now" );
				sim::throw_point( 5 );
			} break;
			case 4: { // moved guard: runs at the end of the new owner
				std::optional<daw::ScopeGuard<Handler>> holder;
				{
					auto g = daw::on_scope_exit( Handler( id ) );
					want = 1;
					sim::throw_point( 6 );
					holder.emplace( std::move( g ) );
					sim::throw_point( 7 );
				}
				check( id, 0, "after the guard was moved away" );
				scope( depth - 1 );
				if( sim::choose( 2 ) ) {
					holder.reset( );
					check( id, 1, "end of the moved guard" );
				} else if( sim::choose( 2 ) ) {
					want = 0;
					holder->cancel( );
				}
			} break;
			case 5: { // guard object on the heap, from an lvalue handler
				CopyHandler h{ id };
				auto p = std::make_unique<daw::ScopeGuard<CopyHandler>>( h );
				want = 1;
				sim::throw_point( 8 );
				p.reset( );
				check( id, 1, "end of the guard" );
			} break;
			case 6: { // member of an object
				struct Obj {
					Cleanup c;
					daw::ScopeGuard<Handler> g;
				};
				Obj o{ Cleanup{ 0 }, daw::on_scope_exit( Handler( id ) ) };
				want = 1;
				Obj o2 = std::move( o );
				sim::throw_point( 9 );
				check( id, 0, "after the guard was moved away" );
			} break;
			case 9: { // the handler itself fails when it is asked to run early
				auto g = daw::on_scope_exit( FailingHandler( id ) );
				want = 1;
				sim::throw_point( 4 );
				g.run_now( );
				check( id, 1, "run_now" );
			} break;
			case 10: { // the handler fails at the end of the scope, left normally
				auto g = daw::on_scope_exit( FailingHandler( id ) );
				want = 1;
			} break;
			default: { // success only
				want = 0;
				auto const h = CopyHandler{ id };
				if( kind == 7 ) {
					daw::on_exit_success g( h );
					sim::throw_point( 10 );
					Cleanup c{ depth - 1 };
					scope( depth - 1 );
					sim::throw_point( 11 );
					check( id, 0, "before the end of its scope" );
					want = 1;
				} else {
					daw::on_exit_success g( Handler{ id } );
					scope( depth - 1 );
					sim::throw_point( 12 );
					want = 1;
				}
			}
			}
		} catch( sim::Injected const & ) {
			threw = true;
			check( id, want, kind == 7 or kind == 8 ? "success-only guard left by an exception" : "guard left by an exception" );
			sim::probe( "guard left by an exception" );
			throw;
		}
		(void)threw;
		check( id, want, kind == 7 or kind == 8 ? "success-only guard left normally" : "guard left normally" );
	}
	void scope( int depth ) {
		if( depth <= 0 )
			return;
		int const n = (int)sim::choose( 3 );
		for( int i = 0; i < n; ++i ) {
			one_guard( depth );
			sim::throw_point( 20 );
		}
		if( sim::choose( 3 ) == 2 ) {
			Cleanup c{ depth - 1 };
			sim::throw_point( 21 );
		}
	}
	void begin( Log &l ) {
		memset( (void *)&l, 0, sizeof l );
		L = &l;
		sim::swarm( sim::D_THROW, { 0, 2000, 8000, 20000 } );
	}
} // namespace
SIM_SCENARIO( nested, 4 ) {
	Log l;
	begin( l );
	trk::World w;
	bool threw = trk::faulted( [&] {
		Cleanup c{ (int)sim::choose( 3 ) };
		scope( 3 );
		one_guard( 3 );
	} );
	w.end( "handler" );
	sim::log( "guards=%d runs=%d threw=%d", l.ids, l.n, (int)threw );
	L = nullptr;
}
SIM_SCENARIO( reassign, 1 ) {
	// guards handed on by assignment: the handler moves with the guard, and runs once, at the end
	// of the guard that holds it last
	Log l;
	begin( l );
	trk::World w;
	int at[3] = { -1, -1, -1 }; // the handler each guard holds
	bool threw = trk::faulted( [&] {
		using G = daw::ScopeGuard<Handler>;
		int const i0 = fresh( ), i1 = fresh( ), i2 = fresh( );
		std::optional<G> g[3];
		int order[] = { i0, i1, i2 };
		for( int i = 0; i < 3; ++i ) {
			sim::throw_point( 1 );
			g[i].emplace( daw::on_scope_exit( Handler( order[i] ) ) );
			at[i] = order[i];
		}
		int const steps = 1 + (int)sim::choose( 6 );
		for( int s = 0; s < steps; ++s ) {
			int const a = (int)sim::choose( 3 ), b = (int)sim::choose( 3 );
			switch( sim::choose( 5 ) ) {
			case 0:
			case 1:
				if( not g[a] or not g[b] )
					break;
				*g[a] = std::move( *g[b] );
				if( a != b ) {
					// whether the replaced handler ran is not judged
					at[a] = at[b];
					at[b] = -1;
				}
				break;
			case 2:
				if( g[a] ) {
					g[a]->dismiss( );
					at[a] = -1;
				}
				break;
			case 3:
				if( at[a] >= 0 ) {
					int const id = at[a];
					at[a] = -1;
					g[a]->run_now( );
					check( id, 1, "run_now after an assignment" );
				}
				break;
			default:
				if( g[a] ) {
					int const id = at[a];
					at[a] = -1;
					g[a].reset( );
					if( id >= 0 )
						check( id, 1, "the end of an assigned guard" );
				}
			}
			for( int i = 0; i < 3; ++i )
				if( at[i] >= 0 )
					check( at[i], 0, "while its guard lives" );
			sim::throw_point( 2 );
		}
	} );
	for( int i = 0; i < 3; ++i )
		if( at[i] >= 0 )
			check( at[i], 1, "the end of the scope" );
	for( int id = 0; id < l.ids; ++id )
		SIM_CHECK( l.runs[id] <= 1, "ran-twice", "handler %d ran %d times", id, l.runs[id] );
	w.end( "handler" );
	sim::log( "runs=%d threw=%d", l.n, (int)threw );
	L = nullptr;
}
SIM_SCENARIO( equal, 1 ) {
	// two guards compare as their handlers do; a guard without one is equal only to another
	struct H {
		int v;
		int *out;
		void operator( )( ) const { ++*out; }
		bool operator==( H const &r ) const { return v == r.v; }
	};
	int runs = 0;
	int const va = (int)sim::choose( 3 ), vb = (int)sim::choose( 3 );
	bool const ea = sim::choose( 3 ) == 0, eb = sim::choose( 3 ) == 0;
	{
		auto a = daw::on_scope_exit( H{ va, &runs } );
		auto b = daw::on_scope_exit( H{ vb, &runs } );
		if( ea )
			a.cancel( );
		if( eb )
			b.dismiss( );
		bool const want = ( ea or eb ) ? ( ea and eb ) : va == vb;
		SIM_CHECK( ( a == b ) == want, "equal", "two guards compare %d, expected %d", (int)( a == b ), (int)want );
		SIM_CHECK( ( a != b ) == not want, "equal", "two guards compare unequal wrongly" );
		SIM_CHECK( runs == 0, "ran-unasked", "comparing ran a handler" );
	}
	SIM_CHECK( runs == ( ea ? 0 : 1 ) + ( eb ? 0 : 1 ), "not-run", "%d handlers ran", runs );
	sim::log( "equal %d %d %d %d", va, vb, (int)ea, (int)eb );
}
SIM_SCENARIO( order, 2 ) {
	// several guards in one scope: handlers run in reverse order of construction
	Log l;
	begin( l );
	trk::World w;
	int ids[5];
	int armed = 0;
	unsigned const cancel = sim::choose( 32 );
	bool const success_first = sim::choose( 2 );
	bool threw = trk::faulted( [&] {
		for( int i = 0; i < 5; ++i )
			ids[i] = fresh( );
		sim::throw_point( 1 );
		auto a = daw::on_scope_exit( Handler( ids[0] ) );
		armed = 1;
		sim::throw_point( 2 );
		auto b = daw::on_scope_exit( CopyHandler{ ids[1] } );
		armed = 2;
		sim::throw_point( 3 );
		auto c = daw::on_scope_exit( Handler( ids[2] ) );
		armed = 3;
		sim::throw_point( 4 );
		daw::on_exit_success d( CopyHandler{ ids[3] } );
		armed = 4;
		sim::throw_point( 5 );
		auto e = daw::on_scope_exit( Handler( ids[4] ) );
		armed = 5;
		sim::throw_point( 6 );
		if( cancel & 1 )
			a.cancel( );
		if( cancel & 2 )
			b.cancel( );
		if( cancel & 4 )
			c.cancel( );
		if( cancel & 16 )
			e.cancel( );
		armed = 6;
		sim::throw_point( 7 );
	} );
	int want[5], n = 0;
	for( int i = 4; i >= 0; --i ) {
		if( i >= armed )
			continue;
		if( armed == 6 and ( cancel >> i & 1 ) and i != 3 )
			continue;
		if( i == 3 and threw )
			continue;
		want[n++] = ids[i];
	}
	SIM_CHECK( l.n == n, l.n < n ? "not-run" : "ran-unasked", "%d handlers ran, expected %d", l.n, n );
	for( int i = 0; i < n; ++i )
		SIM_CHECK( l.order[i] == want[i], "order", "handlers did not run in reverse order of construction" );
	w.end( "handler" );
	sim::log( "armed=%d cancel=%u threw=%d", armed, cancel, (int)threw );
	(void)success_first;
	L = nullptr;
}
