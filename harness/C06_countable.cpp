// runtime: conc
// C06: the live-object counter equals the number of live objects.
#include "sim.h"

#include <daw/daw_countable_resource.h>

#include <new>
#include <utility>

namespace sim {
	HarnessInfo const harness = {
	  "C06",
	  "A seeded run lets 1-4 threads create, copy, move, assign and destroy counted objects (also inside classes whose construction or assignment throws) while others read the count; reads are checked against the bounds implied by the operations in flight and the count against the exact number when threads are quiescent.",
	  "daw_countable_resource.h, std::atomic headers",
	  "thread scheduler, atomic memory model, thread stalls, throwing member constructors, failing operator new",
	  4000000, 120000000, true };
}
namespace {
	struct Thrower {
		Thrower( ) { sim::throw_point( 1 ); }
		Thrower( Thrower const & ) { sim::throw_point( 2 ); }
		Thrower( Thrower && ) { sim::throw_point( 4 ); }
		Thrower &operator=( Thrower const & ) {
			sim::throw_point( 3 );
			return *this;
		}
	};
	template<typename T, int Tag>
	struct Base : daw::countable_resource_t<T> {};
	template<typename T>
	struct Obj {
		daw::countable_resource_t<T> c;
		Thrower t;
	};
	// completed / started operations
	struct Bounds {
		int64_t lo = 0, hi = 0; // certain minimum and maximum of live counters
	};
	template<typename T>
	void run( ) {
		using C = daw::countable_resource_t<T>;
		Bounds b;
		int const nt = 1 + (int)sim::choose( 4 );
		sim::swarm( sim::D_STALL, { 0, 3000 } );
		bool const faults = sim::choose( 2 );
		if( faults ) {
			sim::swarm( sim::D_THROW, { 4000, 16000 } );
			sim::swarm( sim::D_ALLOC, { 0, 6000 } );
		}
		SIM_CHECK( C::value( ) == T( 0 ), "count", "count is %lld before any object exists", (long long)C::value( ) );
		for( int t = 0; t < nt; ++t ) {
			int const k = 1 + (int)sim::choose( 8 );
			unsigned const plan = sim::choose( 0x7fffffff );
			sim::spawn( [&, k, plan] {
				Obj<T> *own[10] = { };
				int n = 0;
				unsigned p = plan;
				auto make = [&]( auto f ) {
					{
						sim::Quiet q;
						b.hi++;
					}
					bool ok = false;
					try {
						sim::Armed a;
						own[n] = f( );
						ok = true;
					} catch( sim::Injected const & ) {
					} catch( std::bad_alloc const & ) {
					}
					sim::Quiet q;
					if( ok ) {
						++n;
						b.lo++;
					} else {
						b.hi--;
						sim::probe( "construction failed" );
					}
				};
				for( int i = 0; i < k; ++i ) {
					int op = (int)( p % 7 );
					p = p / 7 + p * 31;
					switch( op ) {
					case 0:
					case 1:
						if( n < 8 )
							make( [] { return new Obj<T>; } );
						break;
					case 2:
						if( n > 0 and n < 8 )
							make( [&] { return new Obj<T>( *own[n - 1] ); } );
						break;
					case 3:
						if( n > 0 and n < 8 )
							make( [&] { return new Obj<T>( std::move( *own[0] ) ); } );
						break;
					case 4:
						if( n > 1 ) {
							try {
								sim::Armed a;
								*own[0] = *own[n - 1]; // assignment creates nothing
							} catch( sim::Injected const & ) {
							}
							own[0]->c = own[n - 1]->c;
							Obj<T> &r = *own[0];
							SIM_CHECK( &( r.c = own[1]->c ) == &r.c, "assign-result", "assignment does not return the assigned object" );
						}
						break;
					case 5:
						if( n > 0 ) {
							{
								sim::Quiet q;
								b.lo--;
							}
							delete own[--n];
							own[n] = nullptr;
							sim::Quiet q;
							b.hi--;
						}
						break;
					default: {
						int64_t lo, hi;
						{
							sim::Quiet q;
							lo = b.lo;
						}
						int64_t v = (int64_t)C::value( );
						{
							sim::Quiet q;
							hi = b.hi;
						}
						// other threads may run between: widen by what they can do
						sim::Quiet q;
						sim::log( "t%d value=%lld lo=%lld hi=%lld", sim::self( ), (long long)v, (long long)lo, (long long)hi );
						if( nt == 1 )
							SIM_CHECK( v == lo and v == hi, "count", "count is %lld with %lld live objects", (long long)v, (long long)lo );
						else
							SIM_CHECK( v >= 0 and v <= 4 * 9, "count", "count is %lld, impossible for the objects created", (long long)v );
					}
					}
				}
				while( n > 0 ) {
					if( ( plan >> 8 ) % 5 == 0 and n == 1 )
						break; // keep one alive past the thread's end, released below
					{
						sim::Quiet q;
						b.lo--;
					}
					delete own[--n];
					sim::Quiet q;
					b.hi--;
				}
				if( n == 1 ) {
					C tmp( own[0]->c );
					delete own[0];
					sim::Quiet q;
					b.lo--;
					b.hi--;
				}
			} );
		}
		sim::join_all( );
		SIM_CHECK( (int64_t)C::value( ) == 0, "count", "count is %lld after every object was destroyed", (long long)C::value( ) );
		{
			C one;
			C two( one );
			two = one;
			C three( std::move( two ) );
			three = std::move( one );
			SIM_CHECK( (int64_t)C::value( ) == 3, "count", "count is %lld with 3 live objects", (long long)C::value( ) );
		}
		SIM_CHECK( (int64_t)C::value( ) == 0, "count", "count is %lld after every object was destroyed", (long long)C::value( ) );
		sim::log( "threads=%d done", nt );
	}
	// code 0: create, 1: destroy, 2: read
	bool step( uint64_t *st, int, sim::HOp const &o ) {
		if( o.code == 0 )
			++st[0];
		else if( o.code == 1 )
			--st[0];
		else
			return o.r == st[0];
		return true;
	}
	template<typename T>
	void reads( ) {
		using C = daw::countable_resource_t<T>;
		struct H {
			sim::HOp ops[24];
			int n = 0;
		} h;
		int const nt = 2 + (int)sim::choose( 2 );
		sim::swarm( sim::D_STALL, { 0, 3000 } );
		sim::set_rate( sim::D_STALE, 20000 );
		for( int t = 0; t < nt; ++t ) {
			unsigned const plan = sim::choose( 81 );
			sim::spawn( [&, plan] {
				alignas( C ) char buf[4][sizeof( C )];
				int n = 0;
				unsigned p = plan;
				for( int i = 0; i < 4; ++i ) {
					int code = (int)( p % 3 );
					p /= 3;
					if( code == 1 and n == 0 )
						code = 0;
					int slot;
					{
						sim::Quiet q;
						slot = h.n++;
						h.ops[slot] = sim::HOp{ sim::self( ), sim::seq( ), ~0ull, code, 0, 0, 0, 0 };
					}
					uint64_t r = 0;
					if( code == 0 ) {
						if( n > 0 and i == 2 )
							new( buf[n] ) C( *reinterpret_cast<C *>( buf[0] ) );
						else
							new( buf[n] ) C;
						++n;
					} else if( code == 1 ) {
						reinterpret_cast<C *>( buf[--n] )->~C( );
					} else {
						r = (uint64_t)C::value( );
					}
					sim::Quiet q;
					h.ops[slot].r = r;
					h.ops[slot].ret = sim::seq( );
					sim::log( "t%d %s -> %llu", sim::self( ), code == 0 ? "create" : code == 1 ? "destroy" : "read", (unsigned long long)r );
				}
				for( ; n > 0; --n ) {
					int slot;
					{
						sim::Quiet q;
						slot = h.n++;
						h.ops[slot] = sim::HOp{ sim::self( ), sim::seq( ), ~0ull, 1, 0, 0, 0, 0 };
					}
					reinterpret_cast<C *>( buf[n - 1] )->~C( );
					sim::Quiet q;
					h.ops[slot].ret = sim::seq( );
				}
			} );
		}
		sim::join_all( );
		sim::Quiet q;
		uint64_t init = 0, fin = 0;
		SIM_CHECK( sim::linearizable( { h.ops, h.ops + h.n }, &init, 1, step, &fin ), "not-linearizable", "the counts read are not explained by any order of the %d operations", h.n );
	}
	// per-thread quiescent points with several threads
	template<typename T>
	void phases( ) {
		using C = daw::countable_resource_t<T>;
		int expect = 0;
		C *keep[32];
		int nk = 0;
		for( int phase = 0; phase < 3; ++phase ) {
			int const nt = 1 + (int)sim::choose( 2 );
			for( int t = 0; t < nt; ++t ) {
				int const mk = (int)sim::choose( 4 );
				C **base = keep + nk;
				nk += mk;
				expect += mk;
				sim::spawn( [=] {
					C local;
					for( int i = 0; i < mk; ++i )
						base[i] = i & 1 ? new C( local ) : new C;
				} );
			}
			sim::join_all( );
			SIM_CHECK( (int64_t)C::value( ) == expect, "count", "count is %lld with %d live objects", (long long)C::value( ), expect );
		}
		for( int i = 0; i < nk; ++i ) {
			delete keep[i];
			SIM_CHECK( (int64_t)C::value( ) == --expect, "count", "count is %lld with %d live objects", (long long)C::value( ), expect );
		}
		sim::log( "phases objects=%d", nk );
	}
} // namespace
SIM_SCENARIO( mixed_int, 3 ) { run<int>( ); }
SIM_SCENARIO( mixed_size, 2 ) { run<unsigned long>( ); }
SIM_SCENARIO( mixed_short, 1 ) { run<short>( ); }
SIM_SCENARIO( phases_int, 1 ) { phases<int>( ); }
SIM_SCENARIO( phases_long, 1 ) { phases<long>( ); }
SIM_SCENARIO( reads_int, 2 ) { reads<int>( ); }
