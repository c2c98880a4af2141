// runtime: conc
// C07: shared callable ownership under concurrency.
#include "shared_fn.h"

namespace sim {
	HarnessInfo const harness = {
	  "C07",
	  "A seeded run lets 2-4 threads copy, move, assign, drop, call and weakly reference handles to 1-2 (or more, created on the fly) shared callables; signatures cover all qualifier kinds; allocation failure and throwing callables are injected. The callable's lifetime is tracked exactly.",
	  "daw_shared_function.h, daw_cx_atomic.h, std::optional",
	  "thread scheduler, atomic memory model, happens-before race detection, operator new with use-after-free detection, allocation failure, throwing callbacks, spurious weak compare-exchange failure, stalls",
	  2500000, 75000000, true };
}
SIM_SCENARIO( plain, 4 ) { sf::workload<int( int ), sf::FnPlain>( false, 8 ); }
SIM_SCENARIO( const_call, 1 ) { sf::workload<int( int ) const, sf::FnPlain>( false, 8 ); }
SIM_SCENARIO( ref_call, 1 ) { sf::workload<int( int ) &, sf::FnPlain>( false, 8 ); }
SIM_SCENARIO( const_ref_call, 1 ) { sf::workload<int( int ) const &, sf::FnPlain>( false, 8 ); }
SIM_SCENARIO( rvalue_call, 1 ) { sf::workload<int( int ) &&, sf::FnPlain, true>( false, 8 ); }
SIM_SCENARIO( noexcept_call, 1 ) { sf::workload<int( int ) noexcept, sf::FnNoexcept>( false, 8 ); }

namespace {
	// a callable that owns another shared callable and a weak handle to itself
	struct Nested {
		daw::shared_function<int( int )> inner;
		std::optional<daw::weak_shared_function<int( int )>> *self;
		int operator( )( int x ) { return inner( x ) + 1; }
	};
	int twice( int x ) { return x * 2; }
} // namespace
SIM_SCENARIO( nested, 1 ) {
	sf::World world;
	sf::W = &world;
	{
		using A = sf::Actor<int( int ), sf::FnPlain>;
		A a;
		if( not a.create( 0 ) )
			return;
		int const g = a.sg[0];
		A::acq_begin( g );
		daw::shared_function<int( int )> outer{ Nested{ a.s[0], nullptr } };
		A::acq_end( g );
		auto weak = outer.get_weak( );
		int const nt = 2 + (int)sim::choose( 2 );
		sim::set_rate( sim::D_STALE, 16000 );
		daw::shared_function<int( int )> copies[3];
		for( int t = 0; t < nt; ++t )
			copies[t] = outer;
		a.drop( 0 );
		{
			sim::Quiet q;
			world.g[g].strong_lo = 1;
		}
		A::rel_begin( g ); // from here on the threads may release it
		outer = daw::shared_function<int( int )>{ };
		for( int t = 0; t < nt; ++t ) {
			bool const lk = sim::choose( 2 );
			auto wk = weak;
			sim::spawn( [&, t, lk, g, wk]( ) mutable {
				SIM_CHECK( copies[t]( 1 ) == g * 100 + 2, "wrong-result", "nested call returned the wrong value" );
				copies[t] = daw::shared_function<int( int )>{ };
				if( lk )
					if( auto l = wk.lock( ) )
						SIM_CHECK( l( 2 ) == g * 100 + 3, "wrong-result", "nested call returned the wrong value" );
			} );
		}
		sim::join_all( );
		SIM_CHECK( not weak.lock( ), "resurrected", "locking succeeded although no owning handle existed" );
		A::rel_end( g );
	}
	sf::W = nullptr;
	sim::log( "nested" );
}
SIM_SCENARIO( trivial_callables, 1 ) {
	// function pointers and trivially destructible closures; null pointers give an empty handle
	daw::shared_function<int( int )> fp( &twice );
	int k = 3;
	daw::shared_function<int( int )> lam( [k]( int x ) { return x + k; } );
	int ( *null )( int ) = nullptr;
	daw::shared_function<int( int )> empty( null );
	SIM_CHECK( not empty and fp and lam, "bool", "wrong engagement of a fresh handle" );
	int const nt = 2 + (int)sim::choose( 2 );
	sim::set_rate( sim::D_STALE, 16000 );
	auto wf = fp.get_weak( );
	auto wl = lam.get_weak( );
	for( int t = 0; t < nt; ++t ) {
		auto a = fp, b = lam;
		auto x = wf, y = wl;
		unsigned v = sim::choose( 16 );
		sim::spawn( [a, b, x, y, v]( ) mutable {
			SIM_CHECK( a( 4 ) == 8 and b( 4 ) == 7, "wrong-result", "a call returned the wrong value" );
			if( v & 1 )
				a = std::move( b );
			if( v & 2 )
				b = a;
			if( v & 4 )
				a = { };
			if( auto l = x.lock( ) )
				SIM_CHECK( l( 5 ) == 10, "wrong-result", "a call returned the wrong value" );
			if( auto l = y.lock( ) )
				SIM_CHECK( l( 5 ) == 8, "wrong-result", "a call returned the wrong value" );
		} );
	}
	fp = { };
	lam = { };
	sim::join_all( );
	sim::log( "trivial threads=%d", nt );
}
SIM_SCENARIO( chain, 1 ) { sf::Chain<int( int )>::run( ); }
SIM_SCENARIO( chain_const, 1 ) { sf::Chain<int( int ) const>::run( ); }
SIM_SCENARIO( signatures, 1 ) {
	if( sim::choose( 2 ) )
		sf::signatures<true>( );
	else
		sf::signatures<false>( );
}
