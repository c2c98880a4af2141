// C11: an owned resource is released exactly once.
#include "tracked.h"

#include <daw/daw_unique_resource.h>

#include <array>
#include <memory>

namespace sim {
	HarnessInfo const harness = {
	  "C11",
	  "A seeded run opens up to 24 simulated resources and passes them through 4 owners with random construction, emplacement, move, reset, release, replacement and scope exit; opening a resource, building a handle and code between two operations may throw, so every sequence is also run with unwinding at arbitrary points. Every open and close is recorded against the handle's identity.",
	  "daw_unique_resource.h, std::optional",
	  "the resources behind the handles, exceptions raised at fault points, operator new failure",
	  4000000, 120000000, false };
}
namespace {
	struct Sys {
		bool open[32];
		int opened, closed, n;
	};
	Sys *sys;
	int sys_open( ) {
		sim::throw_point( 1 );
		sim::Quiet q;
		if( sys->n >= 24 )
			throw sim::Injected{ 99 };
		sys->open[sys->n] = true;
		sys->opened++;
		return sys->n++;
	}
	void sys_close( int h ) {
		sim::Quiet q;
		SIM_CHECK( h >= 0 and h < sys->n, "bad-handle", "a handle (%d) was released that was never acquired", h );
		SIM_CHECK( sys->open[h], "double-release", "resource %d was released twice", h );
		sys->open[h] = false;
		sys->closed++;
	}
	struct IntDel {
		void operator( )( int &h ) const { sys_close( h ); }
	};
	// handle classes
	struct Rich { // move only, owns memory
		int h;
		int *mem;
		Rich( int x )
		  : h( x )
		  , mem( new int( x ) ) {}
		Rich( int x, int y )
		  : Rich( x + y ) {}
		Rich( Rich &&o ) noexcept
		  : h( std::exchange( o.h, -1 ) )
		  , mem( std::exchange( o.mem, nullptr ) ) {}
		Rich &operator=( Rich &&o ) noexcept {
			if( this != &o ) {
				delete mem;
				h = std::exchange( o.h, -1 );
				mem = std::exchange( o.mem, nullptr );
			}
			return *this;
		}
		~Rich( ) { delete mem; }
	};
	struct RichDel {
		void operator( )( Rich &r ) const {
			SIM_CHECK( r.mem and *r.mem == r.h, "bad-handle", "the deleter was given a handle that is not intact" );
			sys_close( r.h );
		}
	};
	struct Pod {
		int h;
		int tag;
	};
	struct PodDel {
		void operator( )( Pod &p ) const { sys_close( p.h ); }
	};
	template<typename T>
	int id( T const &t ) {
		if constexpr( std::is_same_v<T, int> )
			return t;
		else
			return t.h;
	}
	template<typename T>
	T mk( int h ) {
		if constexpr( std::is_same_v<T, Pod> )
			return Pod{ h, h * 3 };
		else
			return T( h );
	}
	// acquire a resource and build its handle; if building fails the resource is closed by hand
	template<typename T>
	T acquire( ) {
		int h = sys_open( );
		try {
			return mk<T>( h );
		} catch( ... ) {
			sys_close( h );
			throw;
		}
	}
	template<typename T, typename D>
	void run( ) {
		Sys s{ };
		sys = &s;
		sim::swarm( sim::D_THROW, { 0, 2000, 8000 } );
		sim::swarm( sim::D_ALLOC, { 0, 0, 6000 } );
		using R = daw::unique_resource<T, D>;
		constexpr int N = 4;
		int loose = -1; // handle released to the caller
		int const ops = 1 + (int)sim::choose( 14 );
		auto expect = [&]( int const *m, char const *what ) {
			sim::Quiet q;
			for( int h = 0; h < s.n; ++h ) {
				bool owned = h == loose;
				for( int i = 0; i < N; ++i )
					owned |= m[i] == h;
				if( owned )
					SIM_CHECK( s.open[h], "released-early", "resource %d was released while it is still owned (%s)", h, what );
				else
					SIM_CHECK( not s.open[h], "not-released", "resource %d has no owner any more but was not released (%s)", h, what );
			}
		};
		bool threw = trk::faulted( [&] {
			auto r = std::make_unique<std::array<R, N>>( );
			auto &o = *r;
			int m[N] = { -1, -1, -1, -1 };
			for( int k = 0; k < ops; ++k ) {
				int i = (int)sim::choose( N ), j = (int)sim::choose( N );
				unsigned op = sim::choose( 10 );
				sim::throw_point( 50 );
				switch( op ) {
				case 0: { // reset( value )
					int h = sys_open( );
					bool handed = false;
					try {
						T t = mk<T>( h );
						handed = true;
						o[i].reset( std::move( t ) );
					} catch( ... ) {
						if( not handed )
							sys_close( h );
						throw;
					}
					m[i] = h;
				} break;
				case 1: { // emplace
					int h = sys_open( );
					try {
						// built in place of the arguments; on failure the argument stays with us
						if constexpr( std::is_same_v<T, Pod> ) {
							T &x = o[i].emplace( h, 5 );
							SIM_CHECK( &x == &o[i].get( ) and x.tag == 5, "value", "emplace returned another object" );
						} else if constexpr( std::is_same_v<T, Rich> ) {
							T &x = o[i].emplace( h, 0 );
							SIM_CHECK( &x == &o[i].get( ), "value", "emplace returned another object" );
						} else {
							o[i].emplace( h );
						}
					} catch( ... ) {
						sys_close( h );
						throw;
					}
					m[i] = h;
				} break;
				case 2: // move assign
					if( i == j ) {
						R &self = o[i];
						o[i] = std::move( self );
					} else {
						o[i] = std::move( o[j] );
						m[i] = m[j];
						m[j] = -1;
					}
					break;
				case 3: { // move construct and drop, or hand back
					R t( std::move( o[i] ) );
					int h = m[i];
					m[i] = -1;
					sim::throw_point( 51 );
					if( h >= 0 )
						SIM_CHECK( id( t.get( ) ) == h and id( *t ) == h, "value", "a moved owner holds another handle" );
					if( sim::choose( 2 ) ) {
						o[j] = std::move( t );
						m[j] = h;
					}
				} break;
				case 4:
				case 5:
					o[i].reset( );
					m[i] = -1;
					break;
				case 6: // release
					if( m[i] >= 0 and loose < 0 ) {
						T t = o[i].release( );
						SIM_CHECK( id( t ) == m[i], "value", "release returned another handle" );
						loose = m[i];
						m[i] = -1;
						expect( m, "release" );
						sim::Disarmed d;
						D{ }( t );
						loose = -1;
					}
					break;
				case 7: { // scoped owner
					R t( acquire<T>( ) );
					sim::throw_point( 52 );
					if( sim::choose( 2 ) ) {
						int h = id( t.get( ) );
						o[i] = std::move( t );
						m[i] = h;
					}
				} break;
				case 8: { // several owners acquired in one scope
					R a( acquire<T>( ) );
					R b( acquire<T>( ) );
					R c;
					sim::throw_point( 53 );
					c = std::move( a );
					sim::throw_point( 54 );
					a.reset( acquire<T>( ) );
				} break;
				default:
					if( m[i] >= 0 )
						SIM_CHECK( id( o[i].get( ) ) == m[i] and id( *o[i] ) == m[i] and id( *o[i].operator->( ) ) == m[i] and id( std::as_const( o[i] ).get( ) ) == m[i],
						           "value", "the owner shows another handle" );
				}
				expect( m, "after an operation" );
				sim::state( (uint64_t)s.n << 8 | (uint64_t)s.closed );
			}
		} );
		if( threw )
			sim::probe( "unwound" );
		sim::Quiet q;
		SIM_CHECK( s.opened == s.closed, "not-released", "%d resources were acquired but %d released when every owner was gone", s.opened, s.closed );
		sim::log( "opened=%d threw=%d", s.opened, (int)threw );
		sys = nullptr;
	}
} // namespace
SIM_SCENARIO( int_handle, 3 ) { run<int, IntDel>( ); }
SIM_SCENARIO( rich_handle, 2 ) { run<Rich, RichDel>( ); }
SIM_SCENARIO( pod_handle, 1 ) { run<Pod, PodDel>( ); }

namespace {
	// built from what it is given: a copy of what was kept, the rest by move
	struct Built {
		trk::Passed a, b;
		Built( trk::Passed x, trk::Passed const &y )
		  : a( std::move( x ) )
		  , b( y ) {}
		void is( char const *who, int v ) const {
			SIM_CHECK( a.v == v and b.v == v + 1 and a.copies == 0 and b.copies == 1, "copied-argument", "%s: got %d and %d, copied %d and %d times", who, a.v, b.v, a.copies, b.copies );
		}
	};
	struct Parts {
		trk::Passed a, b;
		void is( char const *who, int v ) const {
			SIM_CHECK( a.v == v and b.v == v + 1 and a.copies == 0 and b.copies == 1, "copied-argument", "%s: got %d and %d, copied %d and %d times", who, a.v, b.v, a.copies, b.copies );
		}
	};
}
SIM_SCENARIO( arguments, 1 ) {
	int const v = (int)sim::choose( 100 );
	trk::Passed const kept( v + 1 );
	struct Nothing {
		void operator( )( Built const & ) const {}
	};
	daw::unique_resource<Built, Nothing> r;
	r.emplace( trk::Passed( v ), kept ).is( "emplace", v );
}
