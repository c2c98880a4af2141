// runtime: conc
// unit: C19_unit.cc
// C19: contract values and their per thread violation handlers.
#include "C19_shared.h"

#include <vector>

namespace sim {
	HarnessInfo const harness = {
	  "C19",
	  "A seeded run lets one to four threads set their violation handler (objects that throw, return or hand over, functions, the default) and make contract values, from two translation units, by construction, conversion and adding conditions; conditions are scheduling points and may throw, copying the value may throw. A run is non-trivial if a fault fired or two threads were interleaved.",
	  "daw_contract.h, daw_function_ref.h",
	  "thread scheduler, thread local storage, conditions, handlers and element operations",
	  400000, 12000000, true };
}
namespace {
	int fn_calls[8];
	void thrower( ) {
		++fn_calls[sim::self( )];
		throw Violated{ 1000 };
	}
	enum Expect { FINE, VIOLATES };
	struct Thread {
		// -1: default, -2: function, otherwise the index of the handler object
		int current = -1;
		Handler h[3] = { };
		int calls[3] = { };
		int fcalls = 0;
	};
}
void Handler::operator( )( ) const {
	++calls;
	caller = sim::self( );
	sim::op_point( );
	if( kind == 1 )
		return;
	if( kind == 2 )
		daw::contract_failure_handler = daw::default_contract_failure;
	throw Violated{ id };
}
namespace {
	bool even( int v ) { return v % 2 == 0; }
	bool small( int v ) { return v < 100; }
	bool positive( int v ) { return v >= 0; }

	// F makes the value, and is expected to violate the contract or not
	template<typename F>
	void attempt( Thread &t, bool ok, F f ) {
		int const cur = t.current;
		bool threw = false, injected = false, by_default = false;
		int by = -1;
		try {
			sim::Armed a;
			f( );
		} catch( sim::Injected const & ) { injected = true; } catch( std::bad_alloc const & ) {
			injected = true;
		} catch( Violated const &v ) {
			threw = true;
			by = v.id;
		} catch( daw::daw_contract_violation const & ) { threw = by_default = true; }
		if( ok ) {
			SIM_CHECK( not threw, "false-violation", "a value that meets its conditions was reported" );
		} else if( not injected ) {
			int const kind = cur < 0 ? 0 : t.h[cur].kind;
			SIM_CHECK( threw == ( kind != 1 ), "missed-violation", "a value that breaks its conditions was accepted, or a handler's decision ignored" );
			if( threw )
				SIM_CHECK( by_default == ( cur == -1 ) and ( cur == -1 or by == ( cur == -2 ? 1000 : t.h[cur].id ) ), "wrong-handler", "the violation was handled by another handler" );
			if( cur >= 0 ) {
				++t.calls[cur];
				if( kind == 2 )
					t.current = -1;
			} else if( cur == -2 )
				++t.fcalls;
		}
		for( int k = 0; k < 3; ++k ) {
			if( ok or not injected )
				SIM_CHECK( t.h[k].calls == t.calls[k], "wrong-handler", "a handler ran %d times instead of %d", t.h[k].calls, t.calls[k] );
			else { // a fault came before or after the violation was noticed
				if( t.h[k].calls != t.calls[k] and k == cur and t.h[k].kind == 2 )
					t.current = -1;
				SIM_CHECK( t.h[k].calls <= t.calls[k] + ( k == cur ), "wrong-handler", "a handler ran too often" );
				t.calls[k] = t.h[k].calls;
			}
			SIM_CHECK( t.h[k].calls == 0 or t.h[k].caller == sim::self( ), "wrong-handler", "a handler ran on another thread" );
		}
		if( injected )
			t.fcalls = fn_calls[sim::self( )];
		SIM_CHECK( fn_calls[sim::self( )] == t.fcalls, "wrong-handler", "a handler function ran %d times instead of %d", fn_calls[sim::self( )], t.fcalls );
		if( not ok )
			sim::probe( "violation" );
		sim::state( (uint64_t)( cur + 2 ) * 8 + ok * 4 + threw * 2 + injected );
	}
	template<typename C>
	void make( Thread &t, int v, bool ok ) {
		attempt( t, ok, [&] {
			int const r = make_from<C>( v, ok );
			if( ok )
				SIM_CHECK( r == v, "wrong-value", "a contract of %d holds %d", v, r );
		} );
	}
	template<typename E>
	void element( Thread &t, int v, bool with_add ) {
		using CE = daw::contract<E, Even>;
		attempt( t, even( v ) and ( not with_add or small( v ) ), [&] {
			if( with_add and not even( v ) ) {
				CE c( v ); // must not get past this unless the handler returns
				return;
			}
			CE c( v );
			if( not even( v ) )
				return;
			SIM_CHECK( c.get( ).val( ) == v and c->val( ) == v, "wrong-value", "a contract of %d holds another value", v );
			if( with_add ) {
				auto d = c.add_condition( Small{ } );
				if( small( v ) )
					SIM_CHECK( d.get( ).val( ) == v, "wrong-value", "an extended contract of %d holds another value", v );
				return;
			}
			E e = c.extract( );
			SIM_CHECK( e.val( ) == v, "wrong-value", "what was taken from a contract of %d is another value", v );
		} );
	}
}
namespace trk {
	template<unsigned F>
	struct IElem : Elem<F> {
		using Elem<F>::Elem;
		explicit operator int( ) const { return this->val( ); }
	};
}
namespace {
	struct LitEven {
		constexpr bool operator( )( int v ) const { return v % 2 == 0; }
	};
	struct NotNull {
		bool operator( )( int const *p ) const { return p != nullptr; }
	};
	void step( Thread &t ) {
		int const v = sim::chance( 1, 3 ) ? (int)sim::range( -6, 6 ) * 40 + (int)sim::choose( 2 ) : (int)sim::choose( 12 ) * 10 + (int)sim::chance( 1, 3 );
		switch( sim::choose( 10 ) ) {
		case 0: {
			int const k = (int)sim::choose( 3 );
			if( sim::choose( 2 ) )
				daw::contract_failure_handler = t.h[k];
			else
				other_set( t.h[k] );
			t.current = k;
			break;
		}
		case 1:
			if( sim::choose( 2 ) )
				daw::contract_failure_handler = thrower;
			else
				other_set( thrower );
			t.current = -2;
			break;
		case 2:
			if( sim::choose( 2 ) )
				daw::contract_failure_handler = daw::default_contract_failure;
			else
				other_set( daw::default_contract_failure );
			t.current = -1;
			break;
		case 3: make<C1>( t, v, even( v ) ); break;
		case 4: make<C3>( t, v, positive( v ) and even( v ) and small( v ) ); break;
		case 5: {
			int const form = (int)sim::choose( 3 );
			bool const ok = even( v ) and ( form == 0 or small( v ) ) and ( form < 2 or positive( v ) );
			attempt( t, ok, [&] {
				int const r = other_make( form, v, ok );
				if( ok )
					SIM_CHECK( r == v, "wrong-value", "a contract of %d holds %d", v, r );
			} );
			break;
		}
		case 6: // conversion to a contract with other conditions
			if( even( v ) )
				attempt( t, positive( v ) and small( v ), [&] {
					C1 const a( v );
					daw::contract<int, Positive, Small> const b = a;
					if( positive( v ) and small( v ) )
						SIM_CHECK( b == v and a.get( ) == v, "wrong-value", "a converted contract holds another value" );
				} );
			break;
		case 7: // added conditions
			if( even( v ) )
				attempt( t, positive( v ) and small( v ), [&] {
					C1 const a( v );
					auto const b = a.add_condition( Small{ }, Positive{ } );
					static_assert( std::is_same_v<decltype( b ), daw::contract<int, Even, Small, Positive> const> );
					if( positive( v ) and small( v ) )
						SIM_CHECK( *b == v, "wrong-value", "an extended contract holds another value" );
				} );
			break;
		case 8: {
			bool const add = sim::choose( 2 );
			switch( sim::choose( 3 ) ) {
			case 0: element<trk::IElem<trk::COPY | trk::MOVE>>( t, v, add ); break;
			case 1: element<trk::IElem<trk::COPY | trk::MOVE | trk::NX_MOVE>>( t, v, add ); break;
			default: element<trk::IElem<trk::COPY>>( t, v, add );
			}
			break;
		}
		default: {
			int x = v;
			int *const p = sim::choose( 2 ) ? &x : nullptr;
			using CP = daw::contract<int *, NotNull>;
			attempt( t, p != nullptr, [&] {
				CP c( p );
				if( p )
					SIM_CHECK( *c == p and *c.get( ) == v and c.operator->( ) == p, "wrong-value", "a contract holds another pointer" );
			} );
			attempt( t, true, [&] {
				auto const lit = daw::contract<int, LitEven>( 42 );
				SIM_CHECK( *lit == 42, "wrong-value", "a constant contract holds another value" );
			} );
		}
		}
	}
}
SIM_SCENARIO( contracts, 1 ) {
	sim::swarm( sim::D_THROW, { 0, 0, 1500, 8000 } );
	trk::World w;
	for( auto &c : fn_calls )
		c = 0;
	int const nt = 1 + (int)sim::choose( 4 );
	int n[5];
	for( int &k : n )
		k = 1 + (int)sim::choose( 7 );
	int const kinds = (int)sim::choose( 27 );
	auto work = [&]( int who ) {
		Thread t;
		for( int k = 0, x = kinds; k < 3; ++k, x /= 3 ) {
			t.h[k].id = who * 10 + k;
			t.h[k].kind = x % 3;
		}
		for( int s = 0; s < n[who]; ++s )
			step( t );
		daw::contract_failure_handler = daw::default_contract_failure;
	};
	for( int i = 1; i <= nt; ++i )
		sim::spawn( [&, i] { work( i ); } );
	if( sim::choose( 2 ) )
		work( 0 );
	sim::join_all( );
	w.end( "value" );
	sim::log( "threads=%d", nt );
}
