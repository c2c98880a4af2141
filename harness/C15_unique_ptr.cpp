// C15: single-owner pointers delete what they own once and never what they do not own.
#include "tracked.h"

#include <daw/daw_maybe_unique_ptr.h>
#include <daw/daw_unique_ptr.h>

#include <array>
#include <memory>

namespace sim {
	HarnessInfo const harness = {
	  "C15",
	  "A seeded run makes objects (single, derived behind a base, arrays, file-descriptor-like handles with their own deleter, self-linked nodes) and moves, converts, swaps, resets, releases and drops single-owner and maybe-owning pointers in 5 slots at random; object construction and allocation may fail anywhere. Which object is owned by which slot, which is merely borrowed, and which is with the caller is modelled exactly.",
	  "daw_unique_ptr.h, daw_maybe_unique_ptr.h, daw_monadic_pointer_ops.h",
	  "operator new (failure, use-after-free and double free detection), exceptions raised at fault points",
	  4000000, 120000000, false };
}
namespace {
	constexpr int N = 5, NO = 24;
	struct Model {
		int owner[NO]; // slot that owns object i, -2 with the caller, -1 nobody
		bool dead[NO];
		int n;
	};
	Model *M;
	void obj_dead( int id ) {
		sim::Quiet q;
		SIM_CHECK( not M->dead[id], "destroyed-twice", "object %d was destroyed twice", id );
		SIM_CHECK( M->owner[id] == -1, "destroyed-early", "object %d was destroyed although it is owned by %d", id, M->owner[id] );
		M->dead[id] = true;
	}
	struct Base {
		int id;
		trk::Safe e;
		explicit Base( int i )
		  : id( i )
		  , e( i ) {}
		virtual ~Base( ) { obj_dead( id ); }
	};
	struct Derived : Base {
		trk::Safe f;
		explicit Derived( int i )
		  : Base( i )
		  , f( i ) {}
	};
	struct Custom {
		void operator( )( Base *p ) const { delete p; }
	};
	struct Arr {
		int id = -1;
		trk::Safe e;
		~Arr( ) {
			if( id >= 0 )
				obj_dead( id );
		}
	};
	// a handle type that is not a pointer to memory
	struct FdDel {
		using pointer = int;
		using does_validity_check = void;
		static constexpr int default_pointer_value = -1;
		void operator( )( int fd ) const {
			if( fd >= 0 )
				obj_dead( fd );
		}
	};
	struct DerivedUndo {
		bool ok = false;
		int id;
		explicit DerivedUndo( int i )
		  : id( i ) {}
		~DerivedUndo( ) {
			if( not ok )
				M->dead[id] = false;
		}
	};
	// a borrowed object's owner: the scenario itself
	constexpr int CALLER = -2;

	template<typename P, bool MAYBE, typename Fresh, typename Id, typename Del>
	void run( Fresh fresh, Id ident, Del destroy ) {
		trk::World w;
		Model m{ };
		for( auto &o : m.owner )
			o = -1;
		M = &m;
		trk::standard_faults( );
		using ptr_t = typename P::pointer;
		int const ops = 1 + (int)sim::choose( 16 );
		ptr_t raw[NO] = { };
		auto create = [&]( ) -> int {
			int id = m.n;
			DerivedUndo u( id );
			raw[id] = fresh( id );
			u.ok = true;
			m.n++;
			m.owner[id] = CALLER;
			return id;
		};
		bool threw = trk::faulted( [&] {
			auto box = std::make_unique<std::array<P, N>>( );
			auto &s = *box;
			int g[N];
			bool own[N];
			for( int i = 0; i < N; ++i ) {
				g[i] = -1;
				own[i] = true;
			}
			struct Undo {
				int *g;
				bool *own;
				~Undo( ) {
					for( int i = 0; i < N; ++i )
						if( g[i] >= 0 and own[i] )
							M->owner[g[i]] = -1;
				}
			} undo{ g, own };
			auto lose = [&]( int i ) { // slot i is about to give up what it has
				if( g[i] >= 0 and own[i] )
					m.owner[g[i]] = -1;
				g[i] = -1;
				own[i] = true;
			};
			auto take = [&]( int i, int id, bool o ) {
				g[i] = id;
				own[i] = o;
				if( id >= 0 and o )
					m.owner[id] = i;
			};
			auto check = [&] {
				sim::Quiet q;
				for( int i = 0; i < N; ++i ) {
					ptr_t const want = g[i] >= 0 ? raw[g[i]] : P{ }.get( );
					SIM_CHECK( s[i].get( ) == want, "identity", "slot %d does not hold the expected pointer (object %d)", i, g[i] );
				}
				for( int i = 0; i < N; ++i ) {
					P const &a = s[i], &b = s[( i + 1 ) % N];
					std::less<> const lt{ };
					bool const less = lt( a.get( ), b.get( ) ), more = lt( b.get( ), a.get( ) );
					SIM_CHECK( ( a == b ) == not( less or more ) and ( a != b ) == ( less or more ) and ( a < b ) == less and ( a > b ) == more and ( a <= b ) == not more and ( a >= b ) == not less, "order", "slots %d and the next compare unlike their pointers", i );
				}
				for( int o = 0; o < m.n; ++o )
					SIM_CHECK( m.dead[o] == ( m.owner[o] == -1 ), "not-destroyed", "object %d has owner %d but is %s", o, m.owner[o], m.dead[o] ? "dead" : "alive" );
			};
			for( int k = 0; k < ops; ++k ) {
				unsigned const op = sim::choose( 10 );
				int const i = (int)sim::choose( N ), j = (int)sim::choose( N );
				sim::throw_point( 40 );
				switch( op ) {
				case 0: { // construct and move in
					if( m.n >= NO )
						break;
					int id = create( );
					P p{ raw[id] };
					lose( i );
					s[i] = std::move( p );
					take( i, id, true );
				} break;
				case 1: { // reset( p )
					if( m.n >= NO )
						break;
					if constexpr( requires { s[i].reset( raw[0] ); } ) {
						int id = create( );
						lose( i );
						if constexpr( MAYBE ) {
							bool const o = sim::choose( 2 );
							s[i].reset( raw[id], o );
							take( i, id, o );
						} else {
							s[i].reset( raw[id] );
							take( i, id, true );
						}
					}
				} break;
				case 2:
					if( i == j ) {
						P &self = s[i];
						s[i] = std::move( self );
					} else {
						int id = g[j];
						bool o = own[j];
						lose( i );
						g[j] = -1;
						own[j] = true;
						take( i, id, o );
						if( id >= 0 and o )
							m.owner[id] = i;
						s[i] = std::move( s[j] );
					}
					break;
				case 3: {
					int id = g[i];
					bool o = own[i];
					g[i] = -1;
					own[i] = true;
					P t( std::move( s[i] ) );
					SIM_CHECK( t.get( ) == ( id >= 0 ? raw[id] : P{ }.get( ) ), "identity", "a moved pointer is not the original" );
					check( );
					if( sim::choose( 2 ) ) {
						lose( j );
						take( j, id, o );
						s[j] = std::move( t );
					} else if( id >= 0 and o )
						m.owner[id] = -1;
				} break;
				case 4:
					lose( i );
					s[i].reset( );
					break;
				case 5: { // release: the caller destroys it
					int id = g[i];
					bool o = own[i];
					ptr_t p = s[i].release( );
					g[i] = -1;
					own[i] = true;
					if( id >= 0 ) {
						SIM_CHECK( p == raw[id], "identity", "release returned another pointer" );
						if( o ) {
							m.owner[id] = CALLER;
							check( );
							m.owner[id] = -1;
							sim::Disarmed d;
							destroy( p );
						}
					}
				} break;
				case 6:
					s[i].swap( s[j] );
					if( i != j ) {
						std::swap( g[i], g[j] );
						std::swap( own[i], own[j] );
						if( g[i] >= 0 and own[i] )
							m.owner[g[i]] = i;
						if( g[j] >= 0 and own[j] )
							m.owner[g[j]] = j;
					}
					break;
				case 7: // borrowed pointer
					if constexpr( MAYBE ) {
						if( m.n >= NO )
							break;
						int id = create( );
						P p( raw[id], false );
						sim::throw_point( 41 );
						lose( i );
						s[i] = std::move( p );
						take( i, id, false );
					}
					break;
				case 8: // a pointer to another slot's object is borrowed
					if constexpr( MAYBE ) {
						if( i != j and g[j] >= 0 ) {
							int id = g[j];
							lose( i );
							s[i] = P( raw[id], false );
							take( i, id, false );
							if( m.dead[id] ) { // cannot happen: j owns it or the caller does
							}
							check( );
							lose( i );
							s[i] = P( nullptr );
						}
					}
					break;
				default:
					if( g[i] >= 0 and m.owner[g[i]] != -1 )
						SIM_CHECK( ident( s[i] ) == g[i], "identity", "the object is damaged" );
				}
				check( );
			}
		} );
		// what is still with the caller
		for( int o = 0; o < m.n; ++o )
			if( m.owner[o] == CALLER ) {
				SIM_CHECK( not m.dead[o], "destroyed-early", "object %d, which was never owned, was destroyed", o );
				m.owner[o] = -1;
				destroy( raw[o] );
			}
		for( int o = 0; o < m.n; ++o )
			SIM_CHECK( m.dead[o], "not-destroyed", "object %d was never destroyed", o );
		w.end( "object" );
		sim::log( "objects=%d threw=%d", m.n, (int)threw );
		M = nullptr;
	}
	template<typename P, bool MAYBE, typename T>
	void run_obj( ) {
		run<P, MAYBE>( []( int id ) { return new T( id ); },
		               []( auto &p ) {
			               SIM_CHECK( p and p->e.val( ) == p->id and ( *p ).id == p->id, "identity", "the object is damaged" );
			               return p->id;
		               },
		               []( auto *p ) { delete p; } );
	}
	template<typename P, bool MAYBE>
	void run_arr( ) {
		run<P, MAYBE>(
		  []( int id ) {
			  auto *p = new Arr[1 + id % 3];
			  p[0].id = id;
			  return p;
		  },
		  []( auto &p ) { return p[0].id; },
		  []( auto *p ) { delete[] p; } );
	}
} // namespace
SIM_SCENARIO( unique_single, 3 ) { run_obj<daw::unique_ptr<Derived>, false, Derived>( ); }
SIM_SCENARIO( unique_base, 1 ) { run_obj<daw::unique_ptr<Base>, false, Derived>( ); }
SIM_SCENARIO( unique_custom, 1 ) { run_obj<daw::unique_ptr<Base, Custom>, false, Base>( ); }
SIM_SCENARIO( unique_array, 2 ) { run_arr<daw::unique_ptr<Arr[]>, false>( ); }
SIM_SCENARIO( unique_handle, 2 ) {
	run<daw::unique_ptr<int, FdDel>, false>( []( int id ) { sim::throw_point( 9 ); return id; }, []( auto &p ) { return p.get( ); },
	                                         []( int fd ) { FdDel{ }( fd ); } );
}
SIM_SCENARIO( maybe_single, 3 ) { run_obj<daw::maybe_unique_ptr<Derived>, true, Derived>( ); }
SIM_SCENARIO( maybe_base, 1 ) { run_obj<daw::maybe_unique_ptr<Base>, true, Derived>( ); }
SIM_SCENARIO( maybe_array, 2 ) { run_arr<daw::maybe_unique_ptr<Arr[]>, true>( ); }

SIM_SCENARIO( convert, 2 ) {
	// derived to base, single-owner to maybe-owner, into engaged and borrowed targets
	trk::World w;
	Model m{ };
	for( auto &o : m.owner )
		o = -1;
	M = &m;
	trk::standard_faults( );
	Derived *borrowed = nullptr;
	bool threw = trk::faulted( [&] {
		auto fresh = [&] {
			DerivedUndo u( m.n );
			auto p = daw::make_unique<Derived>( m.n );
			u.ok = true;
			m.n++; // may die at any time; the checks below say when it must not
			return p;
		};
		unsigned const target = sim::choose( 3 );
		daw::maybe_unique_ptr<Base> t;
		daw::unique_ptr<Base> b;
		if( target == 1 ) {
			auto p = fresh( );
			t = daw::maybe_unique_ptr<Base>( std::move( p ) );
		} else if( target == 2 ) {
			auto p = fresh( );
			m.owner[m.n - 1] = CALLER;
			borrowed = p.release( );
			t.reset( borrowed, false );
		}
		int const old = m.n - 1;
		auto p = fresh( );
		int const now = m.n - 1;
		Derived *rp = p.get( );
		switch( sim::choose( 4 ) ) {
		case 0: t = std::move( p ); break;
		case 1: {
			daw::maybe_unique_ptr<Derived> d( p.release( ), true );
			t = std::move( d );
		} break;
		case 2: {
			b = daw::unique_ptr<Base>( std::move( p ) );
			SIM_CHECK( b.get( ) == rp, "identity", "conversion changed the pointer" );
			t.reset( b.release( ) );
		} break;
		default: {
			daw::maybe_unique_ptr<Derived> d( p.release( ), false );
			daw::maybe_unique_ptr<Base> e( std::move( d ) );
			t = std::move( e );
			SIM_CHECK( t.get( ) == rp, "identity", "conversion changed the pointer" );
			t.reset( );
			SIM_CHECK( not m.dead[now], "destroyed-early", "a borrowed object was destroyed" );
			t.reset( rp, true );
		}
		}
		SIM_CHECK( not p, "identity", "a moved-from pointer still holds its object" );
		SIM_CHECK( t.get( ) == rp and not m.dead[now] and t->e.val( ) == now, "identity", "conversion lost the object" );
		if( target == 1 )
			SIM_CHECK( m.dead[old], "not-destroyed", "the replaced object was not destroyed" );
		if( target == 2 )
			SIM_CHECK( not m.dead[old], "destroyed-early", "a borrowed object was destroyed" );
		// monadic chain keeps the ownership with one pointer
		auto u = fresh( );
		int const uid = m.n - 1;
		Derived *ru = u.get( );
		auto v = std::move( u ).or_else( []( ) { return daw::unique_ptr<Derived>( ); } );
		SIM_CHECK( v.get( ) == ru and not u, "identity", "or_else did not hand the pointer on" );
		auto x = std::move( v ).and_then( []( daw::unique_ptr<Derived> q ) { return q; } );
		SIM_CHECK( x.get( ) == ru and not v and not m.dead[uid], "identity", "and_then did not hand the pointer on" );
	} );
	// everything not borrowed is gone
	for( int i = 0; i < m.n; ++i )
		if( borrowed and i == 0 )
			SIM_CHECK( not m.dead[0], "destroyed-early", "a borrowed object was destroyed" );
		else
			SIM_CHECK( m.dead[i], "not-destroyed", "object %d was never destroyed", i );
	if( borrowed ) {
		m.owner[0] = -1;
		delete borrowed;
	}
	w.end( "object" );
	sim::log( "convert objects=%d threw=%d", m.n, (int)threw );
	M = nullptr;
}
namespace {
	template<template<typename> class P>
	struct Node {
		int id;
		trk::Safe e;
		P<Node> next;
		explicit Node( int i )
		  : id( i )
		  , e( i ) {}
	};
	template<typename T>
	using U = daw::unique_ptr<T>;
	template<typename T>
	using MU = daw::maybe_unique_ptr<T>;
	template<template<typename> class P>
	void linked( ) {
		trk::World w;
		sim::swarm( sim::D_ALLOC, { 0, 0, 4000 } );
		bool threw = trk::faulted( [&] {
			P<Node<P>> head;
			int const len = 1 + (int)sim::choose( 6 );
			for( int i = len - 1; i >= 0; --i ) {
				P<Node<P>> n( new Node<P>( i ) );
				n->next = std::move( head );
				head = std::move( n );
			}
			int at = 0;
			while( head ) {
				SIM_CHECK( head->id == at and head->e.val( ) == at, "identity", "the list lost a node" );
				switch( sim::choose( 3 ) ) {
				case 0: head = std::move( head->next ); break;
				case 1: head.reset( head->next.release( ) ); break;
				default: {
					P<Node<P>> t( std::move( head->next ) );
					head.swap( t );
				}
				}
				++at;
			}
			SIM_CHECK( at == len, "identity", "the list ended early" );
		} );
		w.end( "node" );
		sim::log( "linked threw=%d", (int)threw );
	}
} // namespace
SIM_SCENARIO( linked_unique, 1 ) { linked<U>( ); }
SIM_SCENARIO( linked_maybe, 1 ) { linked<MU>( ); }

namespace {
	template<template<typename> class P>
	struct Reentrant { // on destruction looks at, and gives up, the pointer that owned it
		static inline P<Reentrant> *home = nullptr;
		static inline int dead = 0;
		int what;
		trk::Safe e;
		explicit Reentrant( int k )
		  : what( k )
		  , e( k ) {}
		~Reentrant( ) noexcept {
			++dead;
			SIM_CHECK( dead == 1, "destroyed-twice", "an object was destroyed twice" );
			if( what & 1 )
				home->reset( );
			if( what & 2 )
				SIM_CHECK( not *home and home->get( ) == nullptr, "identity", "a pointer still shows the object that is being destroyed" );
			if( what & 4 )
				*home = P<Reentrant>( );
			if( what & 8 )
				SIM_CHECK( home->release( ) == nullptr, "identity", "an object that is being destroyed was handed out" );
		}
	};
	template<template<typename> class P>
	void reentrant( ) {
		trk::World w;
		using R = Reentrant<P>;
		R::dead = 0;
		int const k = (int)sim::choose( 16 );
		{
			auto box = std::make_unique<P<R>>( );
			R::home = box.get( );
			*box = P<R>( new R( k ) );
			switch( sim::choose( 3 ) ) {
			case 0: box->reset( ); break;
			case 1: *box = P<R>( ); break;
			default: box->reset( nullptr );
			}
			SIM_CHECK( not *box, "identity", "a reset pointer is engaged" );
			SIM_CHECK( R::dead == 1, "not-destroyed", "an object was not destroyed with its owner" );
		}
		w.end( "object" );
		sim::log( "reentrant %d", k );
	}
} // namespace
SIM_SCENARIO( reentrant_unique, 1 ) { reentrant<U>( ); }
SIM_SCENARIO( reentrant_maybe, 1 ) { reentrant<MU>( ); }

namespace {
	// built from what it is given: a copy of what was kept, the rest by move
	struct Built {
		trk::Passed a, b;
		Built( trk::Passed x, trk::Passed const &y )
		  : a( std::move( x ) )
		  , b( y ) {}
		void is( char const *who, int v ) const {
			SIM_CHECK( a.v == v and b.v == v + 1 and a.copies == 0 and b.copies == 1, "copied-argument", "%s: got %d and %d, copied %d and %d times", who, a.v, b.v, a.copies, b.copies );
		}
	};
	struct Parts {
		trk::Passed a, b;
		void is( char const *who, int v ) const {
			SIM_CHECK( a.v == v and b.v == v + 1 and a.copies == 0 and b.copies == 1, "copied-argument", "%s: got %d and %d, copied %d and %d times", who, a.v, b.v, a.copies, b.copies );
		}
	};
}
SIM_SCENARIO( arguments, 1 ) {
	int const v = (int)sim::choose( 100 );
	trk::Passed const kept( v + 1 );
	daw::make_unique<Built>( trk::Passed( v ), kept )->is( "make_unique", v );
	daw::make_unique<Parts>( trk::Passed( v ), kept )->is( "make_unique", v );
	daw::make_maybe_unique<Built>( trk::Passed( v ), kept )->is( "make_maybe_unique", v );
	daw::make_maybe_unique<Parts>( trk::Passed( v ), kept )->is( "make_maybe_unique", v );
	auto const a = daw::make_unique_array<trk::Passed[]>( trk::Passed( v ), kept );
	auto const b = daw::make_maybe_unique_array<trk::Passed[]>( trk::Passed( v ), kept );
	SIM_CHECK( a[0].v == v and a[1].v == v + 1 and a[0].copies == 0 and a[1].copies == 1, "copied-argument", "make_unique_array: got %d and %d, copied %d and %d times", a[0].v, a[1].v, a[0].copies, a[1].copies );
	SIM_CHECK( b[0].v == v and b[1].v == v + 1 and b[0].copies == 0 and b[1].copies == 1, "copied-argument", "make_maybe_unique_array: got %d and %d, copied %d and %d times", b[0].v, b[1].v, b[0].copies, b[1].copies );
}
