// C34: a wrapper calls what it was given, once per call, with the arguments it was given, whatever throws.
#include "tracked.h"

#include <array>
#include <functional>
#include <memory>
#include <optional>
#include <tuple>
#include <type_traits>
#include <utility>

#include <daw/daw_bind_args_at.h>
#include <daw/daw_bind_front.h>
#include <daw/daw_do_n.h>
#include <daw/daw_function.h>
#include <daw/daw_function_ref.h>
#include <daw/daw_function_table.h>
#include <daw/daw_function_view.h>
#include <daw/daw_fwd_pack_apply.h>
#include <daw/daw_overload.h>
#include <daw/daw_piecewise_factory.h>

namespace sim {
	HarnessInfo const harness = {
	  "C34",
	  "A seeded run makes wrappers around functions, stateful and stateless callables, calls, rebinds, copies and assigns them up to 14 times, with temporaries, lvalues and references as arguments, while copies and moves of arguments, of bound values and of callables, the callables themselves and allocations may fail; a model says which target is called how often with which values, and what the wrapper must do afterwards. Factories are set argument by argument, by value, index and late callable, and build objects; tables are called and changed by index; repeated calls are counted. A run is non-trivial if a fault fired.",
	  "daw_function_ref.h, daw_function_view.h, daw_function_table.h, daw_piecewise_factory.h, daw_bind_args_at.h, daw_bind_front.h, daw_overload.h, daw_do_n.h, daw_function.h (make_callable), daw_fwd_pack_apply.h",
	  "callables, argument types",
	  3000000, 60000000, true };
}
namespace {
	using trk::faulted;

	// what the targets saw
	struct Seen {
		int target, calls, value;
		void const *ref;
	};
	Seen g_seen;
	void seen_reset( ) { g_seen = { -1, 0, 0, nullptr }; }
	void note( int target, int value, void const *ref ) {
		g_seen.target = target;
		++g_seen.calls;
		g_seen.value = value;
		g_seen.ref = ref;
		sim::throw_point( trk::S_CALL );
	}

	template<typename E>
	int free_a( E e, int &r ) {
		note( 100, e.val( ), &r );
		return ++r, 100 + e.val( );
	}
	template<typename E>
	int free_b( E e, int &r ) {
		note( 101, e.val( ), &r );
		return ++r, 101 + e.val( );
	}
	template<typename E>
	struct Stateless {
		int operator( )( E e, int &r ) const {
			note( 102, e.val( ), &r );
			return ++r, 102 + e.val( );
		}
	};
	template<typename E>
	struct Tally {
		int id;
		int operator( )( E e, int &r ) const {
			note( id, e.val( ), &r );
			return ++r, id + e.val( );
		}
	};
	// the same, for a wrapper that returns nothing
	template<typename E>
	void vfree( E e, int &r ) {
		note( 100, e.val( ), &r );
		++r;
	}

	template<typename E, typename Call>
	void check_call( char const *what, int want, Call &&call ) {
		int const v = (int)sim::choose( 50 );
		int r = 7;
		seen_reset( );
		bool const lvalue = std::is_copy_constructible_v<E> and sim::choose( 2 ) == 1;
		int got = 0;
		bool failed = false;
		uint64_t copies = 0;
		{
			E e( v );
			uint64_t const before = trk::S->copies;
			failed = faulted( [&] {
				if constexpr( std::is_copy_constructible_v<E> ) {
					if( lvalue ) {
						got = call( e, r );
						return;
					}
				}
				got = call( std::move( e ), r );
			} );
			copies = trk::S->copies - before;
			if( lvalue )
				SIM_CHECK( e.val( ) == v, "argument-changed", "%s: the argument it was called with has become %d, was %d", what, e.val( ), v );
		}
		SIM_CHECK( g_seen.calls <= 1, "called-again", "%s: one call reached its target %d times", what, g_seen.calls );
		if( not failed ) {
			SIM_CHECK( g_seen.calls == 1, "not-called", "%s: the call did not reach a target", what );
			SIM_CHECK( got == want + v, "wrong-result", "%s: the call returned %d, expected %d", what, got, want + v );
			SIM_CHECK( r == 8, "lost-reference", "%s: what the target wrote through its reference is lost", what );
			if constexpr( std::is_move_constructible_v<E> and std::is_copy_constructible_v<E> )
				SIM_CHECK( copies == ( lvalue ? 1u : 0u ), "extra-copy", "%s: an argument given as %s was copied %d times", what, lvalue ? "an lvalue" : "a temporary", (int)copies );
		}
		if( g_seen.calls == 1 ) {
			SIM_CHECK( g_seen.target == want, "wrong-target", "%s: the call went to target %d, expected %d", what, g_seen.target, want );
			SIM_CHECK( g_seen.value == v, "wrong-argument", "%s: the target was given %d, expected %d", what, g_seen.value, v );
			SIM_CHECK( g_seen.ref == &r, "wrong-reference", "%s: the target was given a reference to something else", what );
		}
	}

	template<template<typename> class W, typename E, bool IsRef>
	void references( char const *what ) {
		trk::World world;
		trk::standard_faults( );
		{
			using Sig = int( E, int & );
			Tally<E> const targets[3] = { { 0 }, { 1 }, { 2 } };
			Stateless<E> const empty{ };
			auto const make = [&]( int t ) -> W<Sig> {
				switch( t ) {
				case 0:
				case 1:
				case 2:
					return W<Sig>( targets[t] );
				case 3:
					if constexpr( IsRef )
						return W<Sig>( &free_a<E> );
					else
						return W<Sig>( +free_a<E> );
				case 4:
					return W<Sig>( free_b<E> );
				default:
					return W<Sig>( empty );
				}
			};
			static int const ids[6] = { 0, 1, 2, 100, 101, 102 };
			int m[2] = { (int)sim::choose( 6 ), (int)sim::choose( 6 ) };
			std::optional<W<Sig>> w[2];
			w[0].emplace( make( m[0] ) );
			w[1].emplace( make( m[1] ) );
			int const steps = 1 + (int)sim::choose( 12 );
			for( int s = 0; s < steps; ++s ) {
				int const i = (int)sim::choose( 2 );
				switch( sim::choose( 5 ) ) {
				case 0: { // another target
					m[i] = (int)sim::choose( 6 );
					if constexpr( IsRef ) {
						switch( m[i] ) {
						case 3:
							*w[i] = &free_a<E>;
							break;
						case 4:
							*w[i] = &free_b<E>;
							break;
						case 5:
							*w[i] = make( 5 );
							break;
						default:
							*w[i] = targets[m[i]];
							break;
						}
					} else {
						*w[i] = make( m[i] );
					}
					break;
				}
				case 1: // what the other one has
					*w[i] = *w[1 - i];
					m[i] = m[1 - i];
					break;
				case 2: { // a copy outlives what it was copied from
					W<Sig> copy( *w[1 - i] );
					w[1 - i].reset( );
					w[1 - i].emplace( make( ( m[1 - i] + 1 ) % 6 ) );
					w[i].reset( );
					w[i].emplace( copy );
					m[i] = m[1 - i];
					m[1 - i] = ( m[1 - i] + 1 ) % 6;
					break;
				}
				default:
					check_call<E>( what, ids[m[i]], [&]( auto &&e, int &r ) { return ( *w[i] )( std::forward<decltype( e )>( e ), r ); } );
					break;
				}
			}
			for( int i = 0; i < 2; ++i )
				check_call<E>( what, ids[m[i]], [&]( auto &&e, int &r ) { return ( *w[i] )( std::forward<decltype( e )>( e ), r ); } );
			// nothing is returned
			Tally<E> const target{ 3 };
			auto const quiet = [&]( E e, int &r ) { (void)target( std::move( e ), r ); };
			W<void( E, int & )> v( quiet );
			if( sim::choose( 2 ) )
				check_call<E>( what, 3, [&]( auto &&e, int &r ) {
					v( std::forward<decltype( e )>( e ), r );
					return 3 + g_seen.value;
				} );
			W<void( E, int & )> vf( +vfree<E> );
			if( sim::choose( 2 ) )
				check_call<E>( what, 100, [&]( auto &&e, int &r ) {
					vf( std::forward<decltype( e )>( e ), r );
					return 100 + g_seen.value;
				} );
		}
		world.end( );
	}
	template<typename T>
	using Ref = daw::function_ref<T>;
	template<typename T>
	using View = daw::function_view<T>;

	
SIM_SCENARIO( function_ref, 2 ) {
		switch( sim::choose( 3 ) ) {
		case 0:
			references<Ref, trk::NxMove, true>( "function_ref" );
			break;
		case 1:
			references<Ref, trk::MoveOnly, true>( "function_ref" );
			break;
		default:
			references<Ref, trk::Copy, true>( "function_ref" );
			break;
		}
	}
	
SIM_SCENARIO( function_view, 2 ) {
		switch( sim::choose( 3 ) ) {
		case 0:
			references<View, trk::NxMove, false>( "function_view" );
			break;
		case 1:
			references<View, trk::MoveOnly, false>( "function_view" );
			break;
		default:
			references<View, trk::Copy, false>( "function_view" );
			break;
		}
	}

	// a callable whose copies may fail
	template<typename E>
	struct Held {
		E id;
		explicit Held( int i )
		  : id( i ) {}
		Held( )
		  : id( 0 ) {}
		int operator( )( trk::NxMove e, int &r ) const {
			note( id.val( ), e.val( ), &r );
			return ++r, id.v + e.val( );
		}
	};
	template<typename E, int N>
	struct Held2 : Held<E> {
		using Held<E>::Held;
	};

	template<typename Table>
	void table_steps( Table &t, int *m, int n, auto const &fresh ) {
		int const steps = 1 + (int)sim::choose( 10 );
		for( int s = 0; s < steps; ++s ) {
			int const i = (int)sim::choose( (uint64_t)n );
			if( sim::choose( 3 ) == 0 ) {
				int const id = 10 + (int)sim::choose( 30 );
				bool const failed = faulted( [&] { fresh( t, i, id ); } );
				if( not failed )
					m[i] = id;
			} else {
				check_call<trk::NxMove>( "function_table", m[i], [&]( auto &&e, int &r ) {
					if( sim::choose( 2 ) )
						return t( (size_t)i, std::forward<decltype( e )>( e ), r );
					return t.call( (size_t)i, std::forward<decltype( e )>( e ), r );
				} );
			}
		}
	}
	
SIM_SCENARIO( function_table, 2 ) {
		trk::World world;
		trk::standard_faults( );
		{
			int m[3] = { 1, 2, 3 };
			if( sim::choose( 2 ) == 0 ) { // all the same type
				using H = Held<trk::NxMove>;
				auto t = daw::make_function_table<int>( H( 1 ), H( 2 ), H( 3 ) );
				SIM_CHECK( t.size( ) == 3, "size", "a table of 3 functions says it has %d", (int)t.size( ) );
				table_steps( t, m, 3, []( auto &tb, int i, int id ) {
					H h( id );
					if( sim::choose( 2 ) )
						tb.set( (size_t)i, h );
					else
						tb.set( (size_t)i, std::move( h ) );
				} );
			} else {
				using A = Held<trk::NxMove>;
				using B = Held2<trk::NxMove, 1>;
				using C = Held2<trk::MoveOnly, 2>;
				auto t = daw::make_function_table<int>( A( 1 ), B( 2 ), C( 3 ) );
				SIM_CHECK( t.size( ) == 3, "size", "a table of 3 functions says it has %d", (int)t.size( ) );
				table_steps( t, m, 3, []( auto &tb, int i, int id ) {
					A const a( id );
					B const b( id );
					bool const copied = sim::choose( 2 );
					if( i == 0 )
						copied ? tb.set( 0, a ) : tb.set( 0, A( id ) );
					else if( i == 1 )
						copied ? tb.set( 1, b ) : tb.set( 1, B( id ) );
					else
						tb.set( 2, C( id ) );
				} );
			}
			{ // some functions take no arguments
				int calls = 0;
				auto t = daw::make_function_table<int>( [&]( int x ) {
					++calls;
					return x;
				}, [&] {
					calls += 10;
					return 42;
				} );
				if( sim::choose( 4 ) == 0 ) {
					SIM_CHECK( ( t.template call<true>( 1, 5 ) == 42 ) and calls == 10, "wrong-target", "function_table: a function without arguments was not called" );
					SIM_CHECK( ( t.template operator( )<true>( 1, 5 ) == 42 ) and calls == 20, "wrong-target", "function_table: a function without arguments was not called" );
					SIM_CHECK( ( t.template operator( )<true>( 0, 5 ) == 5 ) and calls == 21, "wrong-target", "function_table: the wrong function was called" );
				}
			}
		}
		world.end( );
	}

	// ---- factories ----
	template<typename E>
	struct Made {
		E a;
		int b;
		E c;
		Made( E const &x, int y, E const &z )
		  requires std::is_copy_constructible_v<E>
		  : a( x )
		  , b( y )
		  , c( z ) {}
		Made( E &&x, int y, E &&z )
		  : a( std::move( x ) )
		  , b( y )
		  , c( std::move( z ) ) {}
	};
	template<typename E, bool Late>
	void factory( ) {
		trk::World world;
		trk::standard_faults( );
		char const *const what = Late ? "piecewise_factory_late_t" : "piecewise_factory_t";
		{
			using F = std::conditional_t<Late, daw::piecewise_factory_late_t<Made<E>, E, int, E>, daw::piecewise_factory_t<Made<E>, E, int, E>>;
			std::optional<F> f( std::in_place );
			int m[3] = { 1, 2, 3 };
			f->template set<0>( E( 1 ) );
			f->template set<1>( 2 );
			f->template set<2>( E( 3 ) );
			int late_calls = 0, late_want = 0;
			bool is_late[3] = { false, false, false };
			auto const build = [&]( bool last ) {
				late_calls = 0;
				late_want = (int)is_late[0] + (int)is_late[1] + (int)is_late[2];
				uint64_t const before = trk::S->copies;
				bool const failed = faulted( [&] {
					bool const armed = true;
					(void)armed;
					Made<E> const made = last ? ( *std::move( f ) )( ) : ( sim::choose( 2 ) ? ( *f )( ) : std::as_const( *f )( ) );
					sim::Disarmed d;
					SIM_CHECK( made.a.val( ) == m[0] and made.b == m[1] and made.c.val( ) == m[2], "wrong-arguments", "%s built (%d, %d, %d), expected (%d, %d, %d)", what, made.a.val( ), made.b, made.c.val( ), m[0], m[1], m[2] );
				} );
				SIM_CHECK( late_calls <= late_want, "called-again", "%s: building once called %d late values %d times", what, late_want, late_calls );
				if( not failed ) {
					SIM_CHECK( late_calls == late_want, "not-called", "%s: building called %d of %d late values", what, late_calls, late_want );
					if( last )
						SIM_CHECK( trk::S->copies == before, "extra-copy", "%s: building for the last time copied a value", what );
				}
			};
			int const steps = 1 + (int)sim::choose( 10 );
			for( int s = 0; s < steps; ++s ) {
				int const v = 10 + (int)sim::choose( 50 );
				int const i = (int)sim::choose( 3 );
				bool failed = false, late = false;
				switch( sim::choose( 5 ) ) {
				case 0: // by value
					failed = faulted( [&] {
						if( i == 1 ) {
							f->template set<1>( v );
							return;
						}
						E e( v );
						if( i == 0 )
							sim::choose( 2 ) ? f->template set<0>( e ) : f->template set<0>( std::move( e ) );
						else
							sim::choose( 2 ) ? f->template set<2>( e ) : f->template set<2>( std::move( e ) );
					} );
					break;
				case 1: // by index
					failed = faulted( [&] {
						if( i == 1 ) {
							f->set( 1, v );
							return;
						}
						E e( v );
						if( sim::choose( 4 ) == 0 )
							f->set( 1, e ); // not a value for that argument
						if( sim::choose( 2 ) )
							f->set( (size_t)i, e );
						else
							f->set( (size_t)i, std::move( e ) );
					} );
					break;
				case 2: { // an index that is not there
					bool threw = false;
					try {
						f->set( 3 + sim::choose( 3 ), v );
					} catch( std::out_of_range const & ) {
						threw = true;
					}
					SIM_CHECK( threw, "no-error", "%s: setting an argument that does not exist did not throw", what );
					continue;
				}
				case 3:
					if constexpr( Late ) {
						late = true;
						failed = faulted( [&] {
							if( i == 1 ) {
								f->template set<1>( [&late_calls, v] {
									++late_calls;
									sim::throw_point( trk::S_CALL );
									return v;
								} );
								return;
							}
							auto make = [&late_calls, v, pad = std::array<int, 8>{ }] {
								(void)pad;
								++late_calls;
								sim::throw_point( trk::S_CALL );
								return E( v );
							};
							if( i == 0 )
								f->template set<0>( make );
							else
								f->template set<2>( std::move( make ) );
						} );
						break;
					}
					[[fallthrough]];
				default:
					build( false );
					continue;
				}
				if( not failed ) {
					m[i] = v;
					is_late[i] = late;
				}
			}
			build( false );
			build( true );
			f.reset( );
		}
		world.end( );
		SIM_CHECK( sim::live_allocs( ) == 0, "leak", "%s: %d allocations are left", what, (int)sim::live_allocs( ) );
	}
	
SIM_SCENARIO( factory, 2 ) {
		switch( sim::choose( 2 ) ) {
		case 0:
			factory<trk::NxMove, false>( );
			break;
		default:
			factory<trk::Copy, false>( );
			break;
		}
	}
	
SIM_SCENARIO( late_factory, 2 ) { factory<trk::NxMove, true>( ); }

	// ---- bound arguments ----
	template<typename E>
	struct Gather {
		E mine;
		int want0, want1;
		int operator( )( E a, E b, trk::NxMove e, int &r ) const {
			SIM_CHECK( a.val( ) == want0 and b.val( ) == want1, "bound-changed", "a bound call was given (%d, %d) for its bound values, expected (%d, %d)", a.val( ), b.val( ), want0, want1 );
			note( mine.val( ), e.val( ), &r );
			return ++r, mine.v + e.val( );
		}
	};
	template<typename E>
	struct Middle {
		E mine;
		int want0, want1;
		int operator( )( trk::NxMove e, E a, E b, int &r ) const {
			SIM_CHECK( a.val( ) == want0 and b.val( ) == want1, "bound-changed", "a bound call was given (%d, %d) for its bound values, expected (%d, %d)", a.val( ), b.val( ), want0, want1 );
			note( mine.val( ), e.val( ), &r );
			return ++r, mine.v + e.val( );
		}
	};
	template<typename E>
	struct Last {
		E mine;
		int want0, want1;
		int operator( )( trk::NxMove e, int &r, E a, E b ) const {
			SIM_CHECK( a.val( ) == want0 and b.val( ) == want1, "bound-changed", "a bound call was given (%d, %d) for its bound values, expected (%d, %d)", a.val( ), b.val( ), want0, want1 );
			note( mine.val( ), e.val( ), &r );
			return ++r, mine.v + e.val( );
		}
	};
	template<typename E, typename Bound>
	void bound_calls( char const *what, Bound &bound, int id ) {
		int const steps = 1 + (int)sim::choose( 5 );
		for( int s = 0; s < steps; ++s ) {
			// the bound values are copied for each call
			int const v = (int)sim::choose( 50 );
			int r = 7, got = 0;
			seen_reset( );
			bool const lvalue = sim::choose( 2 ) == 1;
			trk::NxMove e( v );
			bool const failed = faulted( [&] {
				switch( sim::choose( 2 ) ) {
				case 0:
					got = lvalue ? bound( e, r ) : bound( std::move( e ), r );
					break;
				default:
					got = lvalue ? std::as_const( bound )( e, r ) : std::as_const( bound )( std::move( e ), r );
					break;
				}
			} );
			SIM_CHECK( g_seen.calls <= 1, "called-again", "%s: one call reached its target %d times", what, g_seen.calls );
			if( lvalue )
				SIM_CHECK( e.val( ) == v, "argument-changed", "%s: the argument it was called with has become %d, was %d", what, e.val( ), v );
			if( g_seen.calls == 1 ) {
				SIM_CHECK( g_seen.target == id and g_seen.value == v, "wrong-argument", "%s: target %d was given %d, expected %d given %d", what, g_seen.target, g_seen.value, id, v );
				SIM_CHECK( g_seen.ref == &r, "wrong-reference", "%s: the target was given a reference to something else", what );
			}
			if( not failed ) {
				SIM_CHECK( g_seen.calls == 1, "not-called", "%s: the call did not reach its target", what );
				SIM_CHECK( got == id + v, "wrong-result", "%s: the call returned %d, expected %d", what, got, id + v );
				SIM_CHECK( r == 8, "lost-reference", "%s: what the target wrote through its reference is lost", what );
			}
		}
	}
	template<typename E>
	void binding( ) {
		trk::World world;
		trk::standard_faults( );
		{
			int const x = (int)sim::choose( 20 ), y = (int)sim::choose( 20 ), id = 50 + (int)sim::choose( 20 );
			// the values that are bound, as lvalues or temporaries
			auto const with = [&]( auto const &bind, char const *what, auto fn ) {
				E a( x ), b( y );
				bool const move = sim::choose( 2 ) == 1;
				faulted( [&] {
					auto bound = move ? bind( fn, std::move( a ), std::move( b ) ) : bind( fn, a, b );
					sim::Disarmed d;
					if( not move )
						SIM_CHECK( a.val( ) == x and b.val( ) == y, "argument-changed", "%s: binding changed the values it was given", what );
					bound_calls<E>( what, bound, id );
					decltype( bound ) copy( bound ); // not a wrapper around the first
					bound_calls<E>( what, copy, id );
				} );
			};
			switch( sim::choose( 4 ) ) {
			case 0:
				with( []( auto &f, auto &&p, auto &&q ) { return daw::bind_front<Gather<E>, E, E>( f, std::forward<decltype( p )>( p ), std::forward<decltype( q )>( q ) ); }, "bind_front", Gather<E>{ E( id ), x, y } );
				break;
			case 1:
				with( []( auto &f, auto &&p, auto &&q ) { return daw::bind_args_at<0>( f, std::forward<decltype( p )>( p ), std::forward<decltype( q )>( q ) ); }, "bind_args_at", Gather<E>{ E( id ), x, y } );
				break;
			case 2:
				with( []( auto &f, auto &&p, auto &&q ) { return daw::bind_args_at<1>( f, std::forward<decltype( p )>( p ), std::forward<decltype( q )>( q ) ); }, "bind_args_at", Middle<E>{ E( id ), x, y } );
				break;
			default:
				with( []( auto &f, auto &&p, auto &&q ) { return daw::bind_args_at<2>( f, std::forward<decltype( p )>( p ), std::forward<decltype( q )>( q ) ); }, "bind_args_at", Last<E>{ E( id ), x, y } );
				break;
			}
			if( sim::choose( 4 ) == 0 ) { // nothing bound
				Tally<trk::NxMove> const t{ id };
				daw::bind_front<Tally<trk::NxMove>> bound( t );
				decltype( bound ) copy( bound );
				bound_calls<E>( "bind_front", bound, id );
				bound_calls<E>( "bind_front", copy, id );
			}
		}
		world.end( );
	}
	
SIM_SCENARIO( bind, 2 ) {
		if( sim::choose( 2 ) )
			binding<trk::NxMove>( );
		else
			binding<trk::Copy>( );
	}

	// ---- overload, make_callable, fwd_pack ----
	
SIM_SCENARIO( overload, 1 ) {
		using E = trk::NxMove;
		trk::World world;
		trk::standard_faults( );
		{
			Held<E> const h( 5 );
			faulted( [&] {
				// by value: it has its own copies
				daw::overload o( h, []( char const *, int &r ) {
					note( 6, 0, &r );
					return ++r, 6;
				}, []( E &e, int &r, int ) {
					note( 7, e.val( ), &r );
					return ++r, 7 + e.val( );
				} );
				sim::Disarmed d;
				for( int s = (int)sim::choose( 4 ); s >= 0; --s ) {
					switch( sim::choose( 3 ) ) {
					case 0:
						check_call<E>( "overload", 5, [&]( auto &&e, int &r ) { return o( std::forward<decltype( e )>( e ), r ); } );
						break;
					case 1: {
						int r = 7, got = 0;
						seen_reset( );
						bool const failed = faulted( [&] { got = o( "x", r ); } );
						SIM_CHECK( g_seen.calls == 1 and g_seen.target == 6 and g_seen.ref == &r and ( failed or got == 6 ), "wrong-target", "overload called target %d", g_seen.target );
						break;
					}
					default: {
						int r = 7, got = 0;
						E e( 3 );
						seen_reset( );
						bool const failed = faulted( [&] { got = o( e, r, 1 ); } );
						SIM_CHECK( g_seen.calls == 1 and g_seen.target == 7 and g_seen.value == 3 and ( failed or got == 10 ), "wrong-target", "overload called target %d", g_seen.target );
						break;
					}
					}
				}
				auto const c = daw::make_callable( free_a<E> );
				check_call<E>( "make_callable", 100, [&]( auto &&e, int &r ) { return c( std::forward<decltype( e )>( e ), r ); } );
				check_call<E>( "lift", 101, [&]( auto &&e, int &r ) { return daw::lift<free_b<E>>( std::forward<decltype( e )>( e ), r ); } );
				check_call<E>( "fwd_pack", 5, [&]( auto &&e, int &r ) { return daw::apply( h, daw::fwd_pack( std::forward<decltype( e )>( e ), r ) ); } );
			} );
		}
		world.end( );
	}

	// ---- repeated calls ----
	
SIM_SCENARIO( do_n, 1 ) {
		using E = trk::NxMove;
		trk::World world;
		trk::standard_faults( );
		{
			int const n = (int)sim::choose( 7 ), v = (int)sim::choose( 50 );
			E e( v );
			int calls = 0, done = 0;
			auto const by_value = [&]( E x, int &r ) {
				++calls;
				SIM_CHECK( x.val( ) == v, "argument-changed", "do_n: call %d was given %d, expected %d", calls, x.val( ), v );
				sim::throw_point( trk::S_CALL );
				++r;
				++done;
			};
			// the argument can fail to be copied, the function itself cannot fail
			auto const quiet = [&]( E x ) noexcept {
				++calls;
				SIM_CHECK( x.v == v, "argument-changed", "do_n: call %d was given %d, expected %d", calls, x.v, v );
				++done;
			};
			auto const index = [&]( size_t i ) {
				SIM_CHECK( i == (size_t)calls, "wrong-index", "do_n_arg: call %d was given %d", calls, (int)i );
				++calls;
				sim::throw_point( trk::S_CALL );
				++done;
			};
			auto const even = [&]( size_t i ) {
				SIM_CHECK( i == 2 * (size_t)calls, "wrong-index", "do_n_arg: call %d was given %d", calls, (int)i );
				++calls;
				sim::throw_point( trk::S_CALL );
				++done;
			};
			int r = 0, want = n;
			bool uses_r = false;
			uint64_t const which = sim::choose( 7 );
			bool const failed = faulted( [&] {
				switch( which ) {
				case 0:
					uses_r = true;
					daw::algorithm::do_n( (size_t)n, by_value, e, r );
					break;
				case 1:
					uses_r = true;
					want = 3;
					daw::algorithm::do_n<3>( by_value, e, r );
					break;
				case 2:
					daw::algorithm::do_n( (size_t)n, quiet, E( v ) );
					break;
				case 3:
					want = 4;
					daw::algorithm::do_n<4>( quiet, E( v ) );
					break;
				case 4:
					daw::algorithm::do_n_arg( (size_t)n, index );
					break;
				case 5:
					want = 5;
					daw::algorithm::do_n_arg<5>( index );
					break;
				default:
					want = 3;
					daw::algorithm::do_n_arg<6, 2>( even );
					break;
				}
			} );
			SIM_CHECK( e.val( ) == v, "argument-changed", "do_n changed the argument it was given to %d, was %d", e.val( ), v );
			SIM_CHECK( calls <= want and calls - done <= 1, "called-again", "%d calls were made, %d expected", calls, want );
			if( failed )
				SIM_CHECK( done < want or which == 2 or which == 3, "went-on", "a call failed and the calls went on" );
			else
				SIM_CHECK( done == want, "call-count", "%d calls were made, expected %d", done, want );
			if( uses_r )
				SIM_CHECK( r == done, "lost-reference", "do_n: %d calls changed what they were given %d times", done, r );
		}
		world.end( );
	}
} // namespace
