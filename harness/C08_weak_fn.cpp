// runtime: conc
// C08: weak handles lock exactly while an owner exists.
#include "shared_fn.h"

namespace sim {
	HarnessInfo const harness = {
	  "C08",
	  "A seeded run races locking of weak handles against copies and the release of the last owning handle (2-4 threads, few operations each, biased to lock/drop); each lock's outcome is checked against the owners that certainly or possibly existed during it.",
	  "daw_shared_function.h, daw_cx_atomic.h, std::optional",
	  "thread scheduler, atomic memory model, happens-before race detection, operator new with use-after-free detection, spurious weak compare-exchange failure, stalls",
	  3000000, 90000000, true };
}
SIM_SCENARIO( weak_mix, 3 ) { sf::workload<int( int ), sf::FnPlain>( true, 5 ); }
SIM_SCENARIO( weak_mix_const, 1 ) { sf::workload<int( int ) const, sf::FnPlain>( true, 5 ); }
SIM_SCENARIO( weak_mix_noexcept, 1 ) { sf::workload<int( int ) const noexcept, sf::FnNoexcept>( true, 5 ); }
SIM_SCENARIO( weak_mix_rvalue, 1 ) { sf::workload<int( int ) &&, sf::FnPlain, true>( true, 5 ); }

namespace {
	template<typename Sig, typename Fn>
	void last_release( ) {
		sf::World world;
		sf::W = &world;
		{
			using A = sf::Actor<Sig, Fn>;
			A a[4];
			int const nl = 1 + (int)sim::choose( 2 ), no = 1 + (int)sim::choose( 2 );
			sim::set_rate( sim::D_STALE, 20000 );
			sim::swarm( sim::D_CASFAIL, { 0, 20000 } );
			a[0].create( 0 );
			int const g = a[0].sg[0];
			for( int t = 1; t < nl + no; ++t ) {
				if( t < no ) {
					A::acq_begin( g );
					a[t].s[0] = a[0].s[0];
					a[t].sg[0] = g;
					A::acq_end( g );
				} else {
					a[t].w[0].emplace( a[0].s[0].get_weak( ) );
					a[t].wg[0] = g;
				}
			}
			for( int t = 0; t < nl + no; ++t ) {
				A *x = &a[t];
				unsigned v = sim::choose( 8 );
				if( t < no )
					sim::spawn( [x, v] {
						if( v & 1 )
							x->call( 0 );
						x->drop( 0 );
					} );
				else
					sim::spawn( [x, v] {
						x->lock( 0, 0 );
						if( v & 1 )
							x->lock( 0, 1 );
						if( v & 2 ) {
							x->w[0].reset( );
							x->wg[0] = -1;
						}
						if( v & 4 )
							x->call( 0 );
						x->finish( );
					} );
			}
			sim::join_all( );
			// afterwards every weak handle must fail to lock
			for( int t = no; t < nl + no; ++t )
				if( a[t].w[0] )
					SIM_CHECK( not a[t].w[0]->lock( ), "resurrected", "locking succeeded although no owning handle existed" );
			sim::Quiet q;
			SIM_CHECK( world.g[g].live == 0, "not-destroyed", "all owning handles are gone but the callable is still alive" );
			sim::log( "owners=%d lockers=%d", no, nl );
		}
		sf::W = nullptr;
	}
} // namespace
SIM_SCENARIO( last_release_plain, 4 ) { last_release<int( int ), sf::FnPlain>( ); }
SIM_SCENARIO( last_release_cref, 1 ) { last_release<int( int ) const &, sf::FnPlain>( ); }
SIM_SCENARIO( self_reference, 1 ) { sf::Chain<int( int )>::run( ); }
SIM_SCENARIO( signatures, 1 ) {
	if( sim::choose( 2 ) )
		sf::signatures<true>( );
	else
		sf::signatures<false>( );
}
