// C13: reference counted pointers destroy their object once, with the last owner.
#include "tracked.h"

#include <daw/daw_ref_counted_pointer.h>

#include <array>
#include <memory>
#include <vector>

namespace sim {
	HarnessInfo const harness = {
	  "C13",
	  "A seeded run creates objects (single, array, custom deleter, nodes that own further nodes) through reference counted pointers in 5 slots and copies, moves, assigns, swaps, resets and drops them at random, including assignment from a pointer that the replaced object itself owns; allocation of objects and counts and object construction may fail at any point. An exact model of the owners is compared after every operation.",
	  "daw_ref_counted_pointer.h",
	  "operator new (failure, use-after-free and double free detection), exceptions raised at fault points",
	  4000000, 120000000, false };
}
namespace {
	constexpr int N = 5, NO = 20;
	struct Model {
		int owners[NO]; // owners of object i that we know about
		bool dead[NO];
		int n;
	};
	Model *M;
	void obj_dead( int id ) {
		sim::Quiet q;
		SIM_CHECK( not M->dead[id], "destroyed-twice", "object %d was destroyed twice", id );
		SIM_CHECK( M->owners[id] == 0, "destroyed-early", "object %d was destroyed while %d owner(s) remain", id, M->owners[id] );
		M->dead[id] = true;
	}
	struct Obj {
		int id;
		trk::Safe e;
		explicit Obj( int i )
		  : id( i )
		  , e( i ) {}
		~Obj( ) { obj_dead( id ); }
	};
	struct Arr {
		int id = -1;
		trk::Safe e;
		~Arr( ) {
			if( id >= 0 )
				obj_dead( id );
		}
	};
	struct Custom {
		void operator( )( Obj *p ) const {
			sim::probe( "custom deleter ran" );
			delete p;
		}
	};
	struct Agg {
		Obj o;
		int k;
	};
	struct Ops {
		template<typename P, typename Make>
		static void run( Make make ) {
			trk::World w;
			Model m{ };
			M = &m;
			trk::standard_faults( );
			int const ops = 1 + (int)sim::choose( 16 );
			bool threw = trk::faulted( [&] {
				auto box = std::make_unique<std::array<P, N>>( );
				auto &s = *box;
				int g[N];
				for( auto &x : g )
					x = -1;
				struct Undo { // the owners all disappear when the box goes, before it does so
					int *g;
					~Undo( ) {
						for( int i = 0; i < N; ++i )
							if( g[i] >= 0 )
								M->owners[g[i]]--;
					}
				} undo{ g };
				auto drop = [&]( int i ) {
					if( g[i] >= 0 )
						m.owners[g[i]]--;
				};
				auto check = [&]( char const *what ) {
					sim::Quiet q;
					for( int i = 0; i < N; ++i ) {
						SIM_CHECK( static_cast<bool>( s[i] ) == ( g[i] >= 0 ), "engaged", "%s: slot %d is %s but should be %s", what, i, s[i] ? "engaged" : "empty",
						           g[i] >= 0 ? "engaged" : "empty" );
						SIM_CHECK( ( s[i] == nullptr ) == ( g[i] < 0 ), "engaged", "comparison with null disagrees" );
						std::less<> const lt{ };
						auto const &a = s[i], &b = s[( i + 1 ) % N];
						bool const less = lt( a.get( ), b.get( ) ), more = lt( b.get( ), a.get( ) );
						SIM_CHECK( ( a == b ) == not( less or more ) and ( a != b ) == ( less or more ) and ( a < b ) == less and ( a > b ) == more and ( a <= b ) == not more and ( a >= b ) == not less, "order", "slots %d and the next compare unlike their pointers", i );
						SIM_CHECK( ( a != nullptr ) == ( g[i] >= 0 ) and not( a < nullptr ) and ( a <= nullptr ) == ( g[i] < 0 ) and ( a > nullptr ) == ( g[i] >= 0 ) and a >= nullptr, "order", "slot %d compares with null unlike its pointer", i );
						if( g[i] >= 0 ) {
							SIM_CHECK( std::as_const( s[i] ).ref_count( ) == (size_t)m.owners[g[i]], "count", "%s: slot %d reports %zu owners, there are %d", what, i,
							           std::as_const( s[i] ).ref_count( ), m.owners[g[i]] );
							SIM_CHECK( s[i].get( )->id == g[i], "identity", "%s: slot %d points to object %d, expected %d", what, i, s[i].get( )->id, g[i] );
						}
						for( int j = 0; j < N; ++j )
							SIM_CHECK( ( s[i] == s[j] ) == ( g[i] == g[j] ) and ( s[i] != s[j] ) == ( g[i] != g[j] ), "identity", "equality of slots %d and %d is wrong", i, j );
					}
					for( int o = 0; o < m.n; ++o )
						SIM_CHECK( m.dead[o] == ( m.owners[o] == 0 ), "not-destroyed", "%s: object %d has %d owners but is %s", what, o, m.owners[o], m.dead[o] ? "dead" : "alive" );
				};
				for( int k = 0; k < ops; ++k ) {
					unsigned const op = sim::choose( 9 );
					int const i = (int)sim::choose( N ), j = (int)sim::choose( N );
					sim::throw_point( 40 );
					switch( op ) {
					case 0:
					case 1: {
						if( m.n >= NO )
							break;
						int const id = m.n;
						P p;
						make( p, id ); // may throw: then nothing may be left behind
						m.n++;
						m.owners[id] = 1;
						SIM_CHECK( p and p.get( )->id == id, "identity", "a fresh pointer does not hold its object" );
						drop( i );
						g[i] = -1;
						s[i] = std::move( p );
						g[i] = id;
						SIM_CHECK( not p, "engaged", "a moved-from pointer is still engaged" );
						break;
					}
					case 2:
						if( i == j ) {
							P &self = s[i];
							s[i] = self;
						} else {
							if( g[j] >= 0 )
								m.owners[g[j]]++;
							drop( i );
							g[i] = -1;
							s[i] = s[j];
							g[i] = g[j];
						}
						break;
					case 3:
						if( i == j ) {
							P &self = s[i];
							s[i] = std::move( self );
						} else {
							drop( i );
							g[i] = -1;
							s[i] = std::move( s[j] );
							g[i] = g[j];
							g[j] = -1;
						}
						break;
					case 4: {
						P t( s[i] );
						if( g[i] >= 0 )
							m.owners[g[i]]++;
						struct T {
							int o;
							~T( ) {
								if( o >= 0 )
									M->owners[o]--;
							}
						} tt{ g[i] };
						check( "copy construction" );
						sim::throw_point( 41 );
					} break;
					case 5: {
						P t( std::move( s[i] ) );
						int o = g[i];
						g[i] = -1;
						check( "move construction" );
						if( sim::choose( 2 ) ) {
							s[i] = std::move( t );
							g[i] = o;
						} else if( o >= 0 )
							m.owners[o]--;
					} break;
					case 6:
						drop( i );
						g[i] = -1;
						s[i].reset( );
						break;
					case 7:
						if( sim::choose( 2 ) )
							s[i].swap( s[j] );
						else {
							using daw::swap;
							swap( s[i], s[j] );
						}
						std::swap( g[i], g[j] );
						break;
					default:
						drop( i );
						g[i] = -1;
						s[i] = P{ };
					}
					check( "after an operation" );
					if( g[i] >= 0 )
						SIM_CHECK( s[i]->e.val( ) >= 0, "identity", "the object is damaged" );
				}
			} );
			for( int o = 0; o < m.n; ++o )
				SIM_CHECK( m.dead[o] and m.owners[o] == 0, "not-destroyed", "object %d was never destroyed", o );
			w.end( "object" );
			sim::log( "objects=%d threw=%d", m.n, (int)threw );
			M = nullptr;
		}
	};
	// A failing construction must clean up after itself; the objects made here
	// report their death with 0 owners, which is what the model holds for them.
	struct FreshGuard {
		int id;
		bool ok = false;
		~FreshGuard( ) {
			if( not ok )
				M->dead[id] = false; // the id is reused
		}
	};
} // namespace
SIM_SCENARIO( single, 3 ) {
	Ops::run<daw::rc_ptr<Obj>>( []( auto &p, int id ) {
		FreshGuard f{ id };
		p = daw::make_rc_ptr<Obj>( id );
		f.ok = true;
	} );
}
SIM_SCENARIO( raw_pointer, 2 ) {
	Ops::run<daw::rc_ptr<Obj>>( []( auto &p, int id ) {
		FreshGuard f{ id };
		p = daw::rc_ptr<Obj>( new Obj( id ) );
		f.ok = true;
	} );
}
SIM_SCENARIO( custom_deleter, 2 ) {
	Ops::run<daw::rc_ptr<Obj, Custom>>( []( auto &p, int id ) {
		FreshGuard f{ id };
		p = daw::rc_ptr<Obj, Custom>( new Obj( id ) );
		f.ok = true;
	} );
}
SIM_SCENARIO( array, 2 ) {
	Ops::run<daw::rc_ptr<Arr[]>>( []( auto &p, int id ) {
		FreshGuard f{ id };
		p = daw::rc_ptr<Arr[]>( new Arr[1 + id % 3] );
		p[0].id = id;
		f.ok = true;
	} );
}
namespace {
	struct Node {
		int id;
		trk::Safe e;
		daw::rc_ptr<Node> next;
		explicit Node( int i )
		  : id( i )
		  , e( i ) {}
		~Node( ) noexcept {}
	};
} // namespace
SIM_SCENARIO( linked, 3 ) {
	// a list of owned nodes, consumed from the front while other owners come and go
	trk::World w;
	sim::swarm( sim::D_ALLOC, { 0, 0, 4000 } );
	bool threw = trk::faulted( [&] {
		daw::rc_ptr<Node> head;
		int const len = 1 + (int)sim::choose( 6 );
		for( int i = len - 1; i >= 0; --i ) {
			auto n = daw::make_rc_ptr<Node>( i );
			n->next = std::move( head );
			head = std::move( n );
		}
		daw::rc_ptr<Node> keep;
		int kept = -1, at = 0;
		while( head ) {
			SIM_CHECK( head->id == at and head->e.val( ) == at, "identity", "the list lost a node" );
			switch( sim::choose( 4 ) ) {
			case 0: head = head->next; break;
			case 1: head = std::move( head->next ); break;
			case 2:
				keep = head;
				kept = at;
				head = head->next;
				break;
			default: {
				auto t = head->next;
				head.swap( t );
			}
			}
			if( kept >= 0 and keep )
				SIM_CHECK( keep->id == kept and keep->e.val( ) == kept, "identity", "an owned node was destroyed" );
			++at;
			sim::probe( "list step" );
			if( kept >= 0 and sim::choose( 3 ) == 0 )
				keep.reset( );
		}
		SIM_CHECK( at == len, "identity", "the list ended early" );
	} );
	w.end( "node" );
	sim::log( "linked threw=%d", (int)threw );
}

namespace {
	template<typename P, typename Make>
	void crowd( Make make ) {
		// very many owners of one object
		trk::World w;
		Model m{ };
		M = &m;
		static constexpr unsigned sizes[] = { 3, 64, 130, 257, 300, 600, 1100 };
		unsigned n = sizes[sim::choose( 7 )];
		if( sim::choose( 120 ) == 119 )
			n = 66000;
		sim::set_step_limit( 20000000 );
		bool const star = sim::choose( 2 );
		{
			std::vector<P> v;
			{
				sim::Quiet q;
				v.reserve( n );
			}
			v.emplace_back( );
			make( v[0], 0 );
			m.n = 1;
			m.owners[0] = 1;
			while( v.size( ) < n ) {
				v.emplace_back( v[star ? 0 : v.size( ) - 1] );
				m.owners[0]++;
			}
			SIM_CHECK( not m.dead[0] and v[0].ref_count( ) == n and v.back( ).ref_count( ) == n, "count", "%zu owners are reported, there are %u",
			           v[0].ref_count( ), n );
			unsigned left = n;
			while( left > 1 ) {
				unsigned k = 1 + left / ( 2 + sim::choose( 3 ) );
				if( k > left - 1 )
					k = left - 1;
				for( unsigned i = 0; i < k; ++i ) {
					m.owners[0]--;
					if( i % 3 == 0 )
						v.back( ).reset( );
					v.pop_back( );
				}
				left -= k;
				SIM_CHECK( not m.dead[0], "destroyed-early", "the object was destroyed while %u owners remain", left );
				SIM_CHECK( v[0].ref_count( ) == left, "count", "%zu owners are reported, there are %u", v[0].ref_count( ), left );
			}
			m.owners[0] = 0;
			v.pop_back( );
		}
		SIM_CHECK( m.dead[0], "not-destroyed", "the object was never destroyed" );
		w.end( "object" );
		sim::log( "crowd %u", n );
		M = nullptr;
	}
	struct Reentrant;
	daw::rc_ptr<Reentrant> *home = nullptr;
	int reentrant_dead;
	struct Reentrant { // on destruction looks at, and gives up, the pointer it was reached through
		int what;
		trk::Safe e;
		explicit Reentrant( int k )
		  : what( k )
		  , e( k ) {}
		~Reentrant( ) noexcept {
			++reentrant_dead;
			SIM_CHECK( reentrant_dead == 1, "destroyed-twice", "an object was destroyed twice" );
			if( what & 1 )
				home->reset( );
			if( what & 2 )
				SIM_CHECK( not *home, "engaged", "a pointer still shows the object that is being destroyed" );
			if( what & 4 )
				*home = daw::rc_ptr<Reentrant>( );
			if( what & 8 ) {
				daw::rc_ptr<Reentrant> t( *home );
				SIM_CHECK( not t, "engaged", "an object that is being destroyed was shared again" );
			}
		}
	};
} // namespace
SIM_SCENARIO( crowd_single, 1 ) {
	crowd<daw::rc_ptr<Obj>>( []( auto &p, int id ) { p = daw::make_rc_ptr<Obj>( id ); } );
}
SIM_SCENARIO( crowd_array, 1 ) {
	crowd<daw::rc_ptr<Arr[]>>( []( auto &p, int id ) {
		p = daw::rc_ptr<Arr[]>( new Arr[2] );
		p[0].id = id;
	} );
}
SIM_SCENARIO( reentrant, 1 ) {
	trk::World w;
	reentrant_dead = 0;
	int const k = (int)sim::choose( 16 );
	{
		auto box = std::make_unique<daw::rc_ptr<Reentrant>>( );
		home = box.get( );
		*box = daw::make_rc_ptr<Reentrant>( k );
		daw::rc_ptr<Reentrant> other;
		if( sim::choose( 2 ) )
			other = *box;
		switch( sim::choose( 3 ) ) {
		case 0: box->reset( ); break;
		case 1: *box = daw::rc_ptr<Reentrant>( ); break;
		default: box->swap( other ); box->reset( );
		}
		SIM_CHECK( not *box, "engaged", "a reset pointer is engaged" );
		other.reset( );
		SIM_CHECK( reentrant_dead == 1, "not-destroyed", "an object was not destroyed with its last owner" );
	}
	w.end( "object" );
	sim::log( "reentrant %d", k );
}

namespace {
	// built from what it is given: a copy of what was kept, the rest by move
	struct Built {
		trk::Passed a, b;
		Built( trk::Passed x, trk::Passed const &y )
		  : a( std::move( x ) )
		  , b( y ) {}
		void is( char const *who, int v ) const {
			SIM_CHECK( a.v == v and b.v == v + 1 and a.copies == 0 and b.copies == 1, "copied-argument", "%s: got %d and %d, copied %d and %d times", who, a.v, b.v, a.copies, b.copies );
		}
	};
	struct Parts {
		trk::Passed a, b;
		void is( char const *who, int v ) const {
			SIM_CHECK( a.v == v and b.v == v + 1 and a.copies == 0 and b.copies == 1, "copied-argument", "%s: got %d and %d, copied %d and %d times", who, a.v, b.v, a.copies, b.copies );
		}
	};
}
SIM_SCENARIO( arguments, 1 ) {
	int const v = (int)sim::choose( 100 );
	trk::Passed const kept( v + 1 );
	daw::make_rc_ptr<Built>( trk::Passed( v ), kept )->is( "make_rc_ptr", v );
	daw::make_rc_ptr<Parts>( trk::Passed( v ), kept )->is( "make_rc_ptr", v );
}
