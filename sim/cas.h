// Force-included in front of every harness of the concurrent runtime: gives the
// simulator a seam for the spurious failure of weak compare-exchange (the
// compiler instrumentation does not say whether a compare-exchange is weak).
#pragma once
extern "C" bool sim_cas_spurious( );
#define __atomic_compare_exchange_n( p, e, d, w, s, f )                                          \
	( ( ( w ) and ::sim_cas_spurious( ) ) ? ( (void)( *( e ) = __atomic_load_n( ( p ), ( f ) ) ), false ) \
	                                      : __atomic_compare_exchange_n( p, e, d, w, s, f ) )
#define __atomic_compare_exchange( p, e, d, w, s, f )                                          \
	( ( ( w ) and ::sim_cas_spurious( ) ) ? ( (void)__atomic_load( ( p ), ( e ), ( f ) ), false ) \
	                                      : __atomic_compare_exchange( p, e, d, w, s, f ) )
