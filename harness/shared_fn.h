// Shared by C07 and C08: workload over daw::shared_function / weak handles.
#pragma once
#include "sim.h"

#include <daw/daw_ensure.h>
#include <daw/daw_shared_function.h>

#include <memory>
#include <optional>
#include <type_traits>
#include <utility>

namespace sf {
	constexpr int NG = 24;
	struct Group {
		int live = 0;          // live callable instances
		bool constructing = false;
		bool existed = false;
		int strong_lo = 0;     // handles that certainly own the callable
		int strong_hi = 0;     // handles that may own the callable
		uint64_t rel_started = 0;
		int destroyed = 0;
		int calls = 0;
	};
	struct World {
		Group g[NG];
		int ng = 0;
	};
	extern World *W;
	inline World *W = nullptr;

	struct Tracked {
		int group;
		unsigned magic;
		int payload;
		explicit Tracked( int g )
		  : group( g )
		  , magic( 0xabcd1234 )
		  , payload( g * 100 ) {
			sim::Quiet q;
			W->g[g].live++;
		}
		void alive( char const *what ) const {
			unsigned m = magic; // instrumented: ordered against the destructor's write
			SIM_CHECK( m == 0xabcd1234, "dead-callable", "%s on a callable that is not alive", what );
		}
		Tracked( Tracked const &o )
		  : group( o.group )
		  , magic( 0 )
		  , payload( o.payload ) {
			o.alive( "copy" );
			sim::throw_point( 1 );
			magic = 0xabcd1234;
			sim::Quiet q;
			W->g[group].live++;
		}
		~Tracked( ) {
			alive( "destruction" );
			magic = 0xdeadbeef;
			payload = -1;
			sim::Quiet q;
			Group &g = W->g[group];
			g.live--;
			if( not g.constructing ) {
				g.destroyed++;
				SIM_CHECK( g.strong_lo <= 0, "destroyed-early", "the callable was destroyed while %d handle(s) still own it", g.strong_lo );
				SIM_CHECK( g.destroyed == 1, "destroyed-twice", "the callable was destroyed %d times", g.destroyed );
			}
		}
		int invoke( int x ) const {
			alive( "call" );
			int r = payload + x;
			{
				sim::Quiet q;
				W->g[group].calls++;
			}
			return r;
		}
	};
	// callable for each kind of signature
	struct FnPlain : Tracked {
		using Tracked::Tracked;
		int operator( )( int x ) { return maybe( x ); }
		int operator( )( int x ) const { return maybe( x ); }
		int maybe( int x ) const {
			int r = invoke( x );
			sim::throw_point( 7 );
			alive( "end of call" );
			return r;
		}
	};
	struct FnNoexcept : Tracked {
		using Tracked::Tracked;
		int operator( )( int x ) const noexcept { return invoke( x ); }
	};
	struct FnMoveOnly : Tracked {
		explicit FnMoveOnly( int g )
		  : Tracked( g ) {}
		FnMoveOnly( FnMoveOnly && ) = default;
		FnMoveOnly( FnMoveOnly const & ) = delete;
		int operator( )( int x ) const { return invoke( x ); }
	};

	template<typename Sig, typename Fn, bool RRef = false>
	struct Actor {
		using SF = daw::shared_function<Sig>;
		using WF = daw::weak_shared_function<Sig>;
		static constexpr int NS = 4, NW = 3;
		SF s[NS];
		int sg[NS]; // model: group or -1
		std::optional<WF> w[NW];
		int wg[NW];
		Actor( ) {
			for( auto &x : sg )
				x = -1;
			for( auto &x : wg )
				x = -1;
		}

		static void acq_begin( int g ) {
			sim::Quiet q;
			if( g >= 0 )
				W->g[g].strong_hi++;
		}
		static void acq_end( int g ) {
			sim::Quiet q;
			if( g >= 0 )
				W->g[g].strong_lo++;
		}
		static void acq_fail( int g ) {
			sim::Quiet q;
			if( g >= 0 )
				W->g[g].strong_hi--;
		}
		static void rel_begin( int g ) {
			sim::Quiet q;
			if( g >= 0 ) {
				W->g[g].strong_lo--;
				W->g[g].rel_started++;
			}
		}
		static void rel_end( int g ) {
			sim::Quiet q;
			if( g < 0 )
				return;
			Group &x = W->g[g];
			x.strong_hi--;
			if( x.strong_hi == 0 )
				SIM_CHECK( x.live == 0, "not-destroyed", "the last owning handle is gone but the callable is still alive" );
		}
		void check_bool( int i ) {
			SIM_CHECK( static_cast<bool>( s[i] ) == ( sg[i] >= 0 ), "bool", "handle reports %s but should be %s", s[i] ? "engaged" : "empty",
			           sg[i] >= 0 ? "engaged" : "empty" );
		}
		void call( int i ) {
			if( sg[i] < 0 )
				return;
			int r = 0;
			bool threw = false;
			try {
				sim::Armed a;
				if constexpr( RRef )
					r = std::move( s[i] )( 5 );
				else
					r = s[i]( 5 );
			} catch( sim::Injected const &e ) {
				threw = true;
				SIM_CHECK( e.site == 7, "wrong-exception", "a call raised a foreign exception" );
			}
			SIM_CHECK( threw or r == sg[i] * 100 + 5, "wrong-result", "call returned %d, expected %d", r, sg[i] * 100 + 5 );
			check_bool( i );
			sim::probe( threw ? "call threw" : "call" );
		}
		bool create( int i ) {
			int g;
			{
				sim::Quiet q;
				if( W->ng >= NG )
					return false;
				g = W->ng++;
				W->g[g].constructing = true;
				W->g[g].strong_hi++;
			}
			int old = sg[i];
			bool ok = false;
			rel_begin( old );
			bool moved = false;
			try {
				sim::Armed a;
				SF tmp{ Fn( g ) };
				{
					sim::Quiet q;
					W->g[g].constructing = false;
					W->g[g].strong_lo++;
					SIM_CHECK( W->g[g].live == 1, "instances", "%d instances of the callable are alive after construction", W->g[g].live );
				}
				ok = true;
				sim::Disarmed d;
				moved = true;
				s[i] = std::move( tmp );
				SIM_CHECK( not tmp, "moved-from", "a moved-from handle still claims to hold a callable" );
			} catch( std::bad_alloc const & ) {
				sim::probe( "creation: allocation failed" );
			} catch( sim::Injected const & ) {
				sim::probe( "creation: callable copy threw" );
			}
			if( ok ) {
				sg[i] = g;
				rel_end( old );
			} else {
				(void)moved;
				sim::Quiet q;
				W->g[g].strong_hi--;
				SIM_CHECK( W->g[g].live == 0, "leaked-callable", "construction failed but %d instances of the callable are alive", W->g[g].live );
				if( old >= 0 )
					W->g[old].strong_lo++;
			}
			check_bool( i );
			return ok;
		}
		void copy_assign( int i, int j ) {
			int from = sg[j], old = sg[i];
			if( i == j ) {
				SF &self = s[j];
				s[i] = self;
				check_bool( i );
				return;
			}
			acq_begin( from );
			rel_begin( old );
			s[i] = s[j];
			sg[i] = from;
			acq_end( from );
			rel_end( old );
			check_bool( i );
			check_bool( j );
		}
		void move_assign( int i, int j ) {
			if( i == j ) {
				SF &self = s[j];
				s[i] = std::move( self );
				check_bool( i );
				return;
			}
			int old = sg[i];
			rel_begin( old );
			s[i] = std::move( s[j] );
			sg[i] = sg[j];
			sg[j] = -1;
			rel_end( old );
			check_bool( i );
			check_bool( j );
		}
		void copy_ctor( int i ) {
			acq_begin( sg[i] );
			{
				SF tmp( static_cast<SF const &>( s[i] ) );
				acq_end( sg[i] );
				SIM_CHECK( static_cast<bool>( tmp ) == ( sg[i] >= 0 ), "bool", "copy of a handle differs in engagement" );
				rel_begin( sg[i] );
			}
			rel_end( sg[i] );
			check_bool( i );
		}
		void drop( int i ) {
			int old = sg[i];
			rel_begin( old );
			s[i] = SF{ };
			sg[i] = -1;
			rel_end( old );
			check_bool( i );
		}
		void weaken( int k, int i ) {
			if( sg[i] < 0 )
				return;
			w[k].reset( );
			w[k].emplace( s[i].get_weak( ) );
			wg[k] = sg[i];
		}
		void weak_ops( int k, int l, int kind ) {
			if( not w[k] )
				return;
			switch( kind ) {
			case 0:
				w[l] = w[k];
				wg[l] = wg[k];
				break;
			case 1:
				if( k != l ) {
					w[l] = std::move( w[k] );
					wg[l] = wg[k];
					// moved-from weak handle: locks nothing
					SF x = w[k]->lock( );
					SIM_CHECK( not x, "moved-from", "a moved-from weak handle still locks" );
					w[k].reset( );
					wg[k] = -1;
				}
				break;
			case 2: {
				auto &self = *w[k];
				*w[k] = self;
				break;
			}
			default:
				w[k].reset( );
				wg[k] = -1;
			}
		}
		void lock( int k, int i ) {
			if( not w[k] )
				return;
			int g = wg[k], old = sg[i];
			int lo, hi;
			uint64_t rs;
			{
				sim::Quiet q;
				lo = W->g[g].strong_lo;
				hi = W->g[g].strong_hi;
				rs = W->g[g].rel_started;
				W->g[g].strong_hi++;
			}
			SF tmp = w[k]->lock( );
			bool got = static_cast<bool>( tmp );
			{
				sim::Quiet q;
				Group &x = W->g[g];
				if( got ) {
					x.strong_lo++;
					SIM_CHECK( hi > 0, "resurrected", "locking succeeded although no owning handle existed" );
					SIM_CHECK( x.live == 1, "dead-callable", "locking succeeded but the callable is not alive" );
					sim::probe( "lock succeeded" );
				} else {
					x.strong_hi--;
					SIM_CHECK( not( lo > 0 and x.rel_started == rs ), "lock-refused", "locking failed although an owning handle existed throughout" );
					sim::probe( "lock failed" );
				}
				if( got and lo <= 0 )
					sim::probe( "lock raced with last release" );
				sim::log( "t%d lock group %d -> %d", sim::self( ), g, (int)got );
			}
			if( not got ) {
				// failed lock: nothing owned
				return;
			}
			rel_begin( old );
			s[i] = std::move( tmp );
			sg[i] = g;
			rel_end( old );
			check_bool( i );
			call( i );
		}
		void finish( ) {
			for( int i = 0; i < NS; ++i )
				drop( i );
		}
		void step( unsigned v, bool weak_bias ) {
			int op = (int)( v % 16 ), i = (int)( v / 16 % NS ), j = (int)( v / 64 % NS ), k = (int)( v / 256 % NW );
			if( weak_bias and op < 3 )
				op = 11 + op;
			switch( op ) {
			case 0: copy_assign( i, j ); break;
			case 1: move_assign( i, j ); break;
			case 2:
			case 3: drop( i ); break;
			case 4:
			case 5: call( i ); break;
			case 6: copy_ctor( i ); break;
			case 7:
				if( v & 0x1000 )
					create( i );
				else
					copy_assign( i, j );
				break;
			case 8:
			case 9: weaken( k, i ); break;
			case 10: weak_ops( k, (int)( v / 1024 % NW ), (int)( v / 4096 % 4 ) ); break;
			case 11:
			case 12:
			case 13: lock( k, i ); break;
			case 14: drop( i ); break;
			default: copy_assign( i, j );
			}
		}
	};

	template<typename Sig, typename Fn, bool RRef = false>
	void workload( bool weak_bias, int max_ops ) {
		World world;
		W = &world;
		using A = Actor<Sig, Fn, RRef>;
		int const nt = 2 + (int)sim::choose( 3 );
		sim::set_rate( sim::D_STALE, 16000 );
		sim::swarm( sim::D_CASFAIL, { 0, 20000 } );
		sim::swarm( sim::D_STALL, { 0, 0, 2000 } );
		sim::swarm( sim::D_ALLOC, { 0, 8000 } );
		sim::swarm( sim::D_THROW, { 0, 4000 } );
		{
			A main;
			int ngroups = 1 + (int)sim::choose( 2 );
			for( int i = 0; i < ngroups; ++i )
				main.create( i );
			for( int i = 0; i < ngroups; ++i )
				if( main.sg[i] >= 0 and sim::choose( 2 ) )
					main.weaken( i, i );
			// hand out handles
			A actors[4];
			for( int t = 0; t < nt; ++t ) {
				for( int i = 0; i < ngroups; ++i ) {
					unsigned what = sim::choose( 4 );
					if( main.sg[i] < 0 )
						continue;
					if( what & 1 or not what ) {
						A::acq_begin( main.sg[i] );
						actors[t].s[i] = main.s[i];
						actors[t].sg[i] = main.sg[i];
						A::acq_end( main.sg[i] );
					}
					if( what >= 2 ) {
						actors[t].w[i].emplace( main.s[i].get_weak( ) );
						actors[t].wg[i] = main.sg[i];
					}
				}
			}
			bool const drop_first = sim::choose( 2 );
			if( drop_first )
				main.finish( );
			for( int t = 0; t < nt; ++t ) {
				int const n = 1 + (int)sim::choose( (unsigned)max_ops );
				struct P {
					unsigned v[10];
				} p;
				for( int i = 0; i < n; ++i )
					p.v[i] = sim::choose( 1u << 14 );
				A *a = &actors[t];
				sim::spawn( [a, p, n, weak_bias] {
					for( int i = 0; i < n; ++i )
						a->step( p.v[i], weak_bias );
					a->finish( );
				} );
			}
			if( not drop_first )
				main.finish( );
			sim::join_all( );
			sim::Quiet q;
			for( int g = 0; g < world.ng; ++g )
				SIM_CHECK( world.g[g].live == 0, "not-destroyed", "all owning handles are gone but a callable is still alive" );
			sim::log( "threads=%d groups=%d", nt, world.ng );
		}
		W = nullptr;
	}
} // namespace sf
// Callables that own handles: a chain walked from the front by assignment from a
// handle that lives inside the callable being replaced, and callables that hold
// weak handles to themselves and look at them while they are destroyed.
namespace sf {
	template<typename Sig>
	struct Chain {
		using SF = daw::shared_function<Sig>;
		using WF = daw::weak_shared_function<Sig>;
		struct Link : Tracked {
			SF next;
			std::optional<WF> *self = nullptr; // owned: freed in the destructor
			static inline Link *where = nullptr;
			Link( int g, SF n )
			  : Tracked( g )
			  , next( std::move( n ) ) {
				self = new std::optional<WF>( );
			}
			Link( Link const &o )
			  : Tracked( o )
			  , next( o.next ) {
				try {
					sim::Disarmed d;
					self = new std::optional<WF>( );
				} catch( ... ) {}
			}
			~Link( ) {
				if( self and *self ) {
					SF l = ( *self )->lock( );
					SIM_CHECK( not l, "resurrected", "a callable that is being destroyed was locked through its own weak handle" );
				}
				delete self;
			}
			int operator( )( int x ) const {
				if( x == -1 )
					where = const_cast<Link *>( this );
				return invoke( x );
			}
		};
		static Link *inside( SF &f ) {
			Link::where = nullptr;
			(void)f( -1 );
			return Link::where;
		}
		static void run( ) {
			World world;
			W = &world;
			sim::swarm( sim::D_ALLOC, { 0, 0, 6000 } );
			int const n = 1 + (int)sim::choose( 6 );
			bool threw = false;
			try {
				SF head;
				std::optional<WF> out[8];
				for( int g = n - 1; g >= 0; --g ) {
					W->g[g].constructing = true;
					struct Built {
						int g;
						~Built( ) { W->g[g].constructing = false; }
					} built{ g };
					sim::Armed a;
					SF tmp{ Link( g, head ) };
					head = std::move( tmp );
				}
				sim::Disarmed dis;
				{ // weak handles, some held by the callable they refer to
					SF *h = &head;
					for( int g = 0; g < n; ++g ) {
						Link *l = inside( *h );
						if( sim::choose( 2 ) )
							l->self->emplace( h->get_weak( ) );
						if( sim::choose( 2 ) )
							out[g].emplace( h->get_weak( ) );
						h = &l->next;
					}
				}
				SF keep;
				int kept = -1, at_head = 0;
				bool emptied[8] = { };
				auto expect = [&]( char const *what ) {
					sim::Quiet q;
					bool prev = false;
					for( int g = 0; g < n; ++g ) {
						bool const owned = g == at_head or g == kept or ( g > 0 and prev and not emptied[g - 1] );
						SIM_CHECK( W->g[g].live == ( owned ? 1 : 0 ), owned ? "destroyed-early" : "not-destroyed", "%s: link %d is %s", what, g,
						           owned ? "owned but was destroyed" : "not owned any more but is alive" );
						if( out[g] ) {
							sim::Disarmed d;
							bool const got = static_cast<bool>( out[g]->lock( ) );
							SIM_CHECK( got == owned, got ? "resurrected" : "lock-refused", "%s: locking link %d %s", what, g, got ? "succeeded" : "failed" );
						}
						prev = owned;
					}
				};
				expect( "before the walk" );
				for( int at = 0; at < n; ++at ) {
					SIM_CHECK( head and head( 5 ) == at * 100 + 5, "wrong-result", "a chain of callables lost its link %d", at );
					if( sim::choose( 4 ) == 3 ) {
						keep = head;
						kept = at;
					}
					Link *l = inside( head );
					switch( sim::choose( 4 ) ) {
					case 0: head = l->next; break;
					case 1:
						emptied[at] = true;
						head = std::move( l->next );
						break;
					case 2: {
						SF t( l->next );
						head = std::move( t );
					} break;
					default: {
						auto w = l->next ? std::optional<WF>( l->next.get_weak( ) ) : std::nullopt;
						emptied[at] = true;
						SF t( std::move( l->next ) );
						head = SF{ };
						head = t;
						if( w )
							SIM_CHECK( w->lock( ), "lock-refused", "locking failed although an owning handle existed throughout" );
					}
					}
					at_head = at + 1;
					expect( "step of the walk" );
					if( kept >= 0 and sim::choose( 2 ) ) {
						keep = SF{ };
						kept = -1;
						expect( "dropping the second owner" );
					}
					sim::probe( "chain step" );
				}
				SIM_CHECK( not head, "bool", "the end of the chain is not empty" );
			} catch( std::bad_alloc const & ) {
				threw = true;
			} catch( sim::Injected const & ) {
				threw = true;
			}
			for( int g = 0; g < n; ++g )
				SIM_CHECK( W->g[g].live == 0, "not-destroyed", "all owning handles are gone but a callable is still alive" );
			sim::log( "chain %d threw=%d", n, (int)threw );
			W = nullptr;
		}
	};
	// Every kind of signature calls the matching form of the callable, hands its arguments on
	// and its result back, and has working weak handles.
	struct Arg { // can be moved only, and tells when it was
		int v;
		explicit Arg( int x )
		  : v( x ) {}
		Arg( Arg &&o ) noexcept
		  : v( std::exchange( o.v, -1 ) ) {}
		Arg &operator=( Arg &&o ) noexcept {
			v = std::exchange( o.v, -1 );
			return *this;
		}
	};
	struct Last {
		int form = 0, arg = 0, destroyed = 0;
	};
	template<bool Trivial>
	struct Forms {
		Last *l;
		int id;
		Arg go( int form, Arg a, int &r ) const noexcept {
			l->form = form;
			l->arg = a.v;
			r += 10;
			return Arg( a.v + id );
		}
		Arg operator( )( Arg a, int &r, int const &c ) & noexcept { return go( 1 + 10 * c, std::move( a ), r ); }
		Arg operator( )( Arg a, int &r, int const &c ) const & noexcept { return go( 2 + 10 * c, std::move( a ), r ); }
		Arg operator( )( Arg a, int &r, int const &c ) && noexcept { return go( 3 + 10 * c, std::move( a ), r ); }
		Arg operator( )( Arg a, int &r, int const &c ) const && noexcept { return go( 4 + 10 * c, std::move( a ), r ); }
	};
	template<>
	struct Forms<false> : Forms<true> {
		bool on = true;
		Forms( Last *x, int i )
		  : Forms<true>{ x, i } {}
		Forms( Forms const &o )
		  : Forms<true>( o ) {}
		Forms( Forms &&o ) noexcept
		  : Forms<true>( o )
		  , on( std::exchange( o.on, false ) ) {}
		using Forms<true>::operator( );
		~Forms( ) { l->destroyed += on; }
	};
	template<typename Sig, bool Trivial, int Want, bool Rvalue, bool Noexcept>
	void signature( ) {
		using F = daw::shared_function<Sig>;
		Last last;
		int const id = 1 + (int)sim::choose( 100 ), a = (int)sim::choose( 1000 ), c = (int)sim::choose( 5 );
		int r = 0;
		{
			F f{ Forms<Trivial>{ &last, id } };
			int const before = last.destroyed;
			auto const call = [&]( F &h ) {
				Arg arg( a );
				auto const in = [&]( auto &&g ) {
					constexpr bool quiet = noexcept( std::forward<decltype( g )>( g )( std::move( arg ), r, c ) );
					SIM_CHECK( quiet == Noexcept, "wrong-form", "a call %s fail, but its signature says otherwise", quiet ? "cannot" : "can" );
					return std::forward<decltype( g )>( g )( std::move( arg ), r, c );
				};
				int const r0 = r;
				Arg const got = [&] {
					if constexpr( Rvalue )
						return in( std::move( h ) );
					else
						return in( h );
				}( );
				SIM_CHECK( last.form == Want + 10 * c, "wrong-form", "the call went to form %d of the callable instead of %d", last.form % 10, Want );
				SIM_CHECK( last.arg == a and arg.v == -1 and r == r0 + 10 and got.v == a + id, "wrong-result", "an argument or a result was not handed on" );
			};
			call( f );
			auto w = f.get_weak( );
			auto const wc = w;
			{
				F g = f;
				call( g );
				if( auto h = w.lock( ) )
					call( h );
				else
					SIM_CHECK( false, "not-locked", "locking failed although an owning handle existed" );
				F const k = std::move( g );
				SIM_CHECK( not g and k, "bool", "wrong engagement after a move" );
				if constexpr( Want == 2 ) {
					Arg const x = k( Arg( a ), r, c );
					SIM_CHECK( last.form == 2 + 10 * c and x.v == a + id, "wrong-form", "calling a const handle changed the callable" );
				}
			}
			SIM_CHECK( last.destroyed == before, "early-destruction", "the callable was destroyed while a handle owned it" );
			f = F{ };
			SIM_CHECK( Trivial or last.destroyed == before + 1, "not-destroyed", "all owning handles are gone but the callable is still alive" );
			auto w2 = wc;
			SIM_CHECK( not w.lock( ) and not w2.lock( ), "resurrected", "locking succeeded although no owning handle existed" );
		}
		sim::log( "signature %d %d %d", Want, (int)Rvalue, a );
	}
	template<bool Trivial>
	void signatures( ) {
		switch( sim::choose( 12 ) ) {
		case 0: signature<Arg( Arg, int &, int const & ), Trivial, 1, false, false>( ); break;
		case 1: signature<Arg( Arg, int &, int const & ) const, Trivial, 2, false, false>( ); break;
		case 2: signature<Arg( Arg, int &, int const & ) &, Trivial, 1, false, false>( ); break;
		case 3: signature<Arg( Arg, int &, int const & ) const &, Trivial, 2, false, false>( ); break;
		case 4: signature<Arg( Arg, int &, int const & ) &&, Trivial, 3, true, false>( ); break;
		case 5: signature<Arg( Arg, int &, int const & ) const &&, Trivial, 4, true, false>( ); break;
		case 6: signature<Arg( Arg, int &, int const & ) noexcept, Trivial, 1, false, true>( ); break;
		case 7: signature<Arg( Arg, int &, int const & ) const noexcept, Trivial, 2, false, true>( ); break;
		case 8: signature<Arg( Arg, int &, int const & ) & noexcept, Trivial, 1, false, true>( ); break;
		case 9: signature<Arg( Arg, int &, int const & ) const & noexcept, Trivial, 2, false, true>( ); break;
		case 10: signature<Arg( Arg, int &, int const & ) && noexcept, Trivial, 3, true, true>( ); break;
		default: signature<Arg( Arg, int &, int const & ) const && noexcept, Trivial, 4, true, true>( );
		}
	}
} // namespace sf
