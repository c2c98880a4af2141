// runtime: conc
// C26: visiting reaches exactly the alternative that is held, and storing replaces it whole.
#include "tracked.h"

#include <array>
#include <daw/daw_poly_var.h>
#include <daw/daw_union_pair.h>
#include <daw/daw_variant_cast.h>
#include <daw/daw_visit.h>
#include <daw/daw_visit_as.h>
#include <memory>
#include <string>
#include <utility>
#include <variant>

namespace sim {
	HarnessInfo const harness = {
	  "C26",
	  "A seeded run stores, copies, moves, assigns (from itself and from its own parts too) and visits union pairs of six pairs of types and poly_vars, and visits, casts and asks std::variants and a user's variant of 1 to 35 alternatives, valueless ones included, as const, lvalue and rvalue with one or several visitors, with throwing copies, moves and visitors at any point, and compares with a model. A run is non-trivial if a fault fired.",
	  "daw_visit.h, daw_variant_cast.h, daw_union_pair.h, daw_poly_var.h, daw_visit_as.h",
	  "operator new, element operations, visitors",
	  1500000, 20000000, true };
}
namespace {
	constexpr int NONE = 2, ANY = -1000000;
	int val( int v ) { return v; }
	template<unsigned F>
	int val( trk::Elem<F> const &t ) { return t.val( ); }
	int val( std::string const &s ) { return (int)s.size( ); }
	template<typename T>
	T make( int v ) {
		if constexpr( std::is_same_v<T, std::string> )
			return std::string( (size_t)v, 'v' );
		else
			return T( v );
	}

	// ---- union_pair_t
	struct PModel {
		int which = NONE;
		int v = 0;
	};
	template<typename A, typename B>
	void same_pair( daw::union_pair_t<A, B> &u, PModel &m, bool failed, char const *after ) {
		sim::Disarmed d;
		auto const &c = u;
		if( ( failed or m.v == ANY ) and c.which( ) == NONE )
			m = PModel{ };
		SIM_CHECK( c.which( ) == m.which, "wrong-alternative", "after %s a pair holds alternative %d instead of %d", after, c.which( ), m.which );
		int w = -1, v = -1;
		bool none = false;
		try {
			auto see = [&]( auto &x ) {
				using X = std::remove_cvref_t<decltype( x )>;
				w = std::is_same_v<X, A> ? 0 : 1;
				v = val( x );
				return 17 + w;
			};
			int const r = sim::choose( 2 ) ? u.visit( see ) : c.visit( see );
			SIM_CHECK( r == 17 + w, "wrong-result", "visit returned %d", r );
		} catch( daw::visit_null_union_pair_exception const & ) { none = true; }
		if( m.which == NONE ) {
			SIM_CHECK( none, "wrong-alternative", "after %s visiting an empty pair found alternative %d", after, w );
			return;
		}
		if( m.v == ANY )
			m.v = v;
		SIM_CHECK( not none and w == m.which and v == m.v, "wrong-value", "after %s a pair shows alternative %d with %d instead of %d with %d", after, w, v, m.which, m.v );
	}
	template<typename A, typename B>
	void pairs( ) {
		trk::World world;
		int64_t const base = sim::live_allocs( );
		{
			sim::Disarmed d0;
			using U = daw::union_pair_t<A, B>;
			constexpr bool copyable = std::is_copy_constructible_v<A> and std::is_copy_constructible_v<B>;
			U u[3];
			PModel m[3];
			int next = 1;
			for( int ops = 4 + (int)sim::choose( 24 ), i = 0; i < ops; ++i ) {
				uint32_t const x = sim::choose( 3 ), y = sim::choose( 3 );
				char const *what = "";
				bool failed = false;
				auto set = [&]<typename T>( T *, int w ) {
					T t = make<T>( next );
					if( sim::choose( 2 ) or not std::is_copy_constructible_v<T> ) {
						what = "assigning an rvalue";
						failed = trk::faulted( [&] { u[x] = std::move( t ); } );
					} else if constexpr( std::is_copy_constructible_v<T> ) {
						what = "assigning an lvalue";
						failed = trk::faulted( [&] { u[x] = std::as_const( t ); } );
						SIM_CHECK( val( t ) == next, "wrong-value", "assigning an lvalue changed it" );
					}
					if( not failed )
						m[x] = { w, next };
					++next;
				};
				auto init = [&]<typename T>( T *, int w ) {
					T t = make<T>( next );
					what = "making";
					trk::faulted( [&] {
						auto see = [&]( U &&n ) {
							PModel k{ w, next };
							same_pair( n, k, false, "making" );
						};
						if( sim::choose( 2 ) or not std::is_copy_constructible_v<T> )
							see( U( std::move( t ) ) );
						else if constexpr( std::is_copy_constructible_v<T> )
							see( U( std::as_const( t ) ) );
					} );
					++next;
				};
				switch( sim::choose( 9 ) ) {
				case 0: set( (A *)nullptr, 0 ); break;
				case 1: set( (B *)nullptr, 1 ); break;
				case 2:
					if( sim::choose( 2 ) )
						init( (A *)nullptr, 0 );
					else
						init( (B *)nullptr, 1 );
					break;
				case 3:
					if constexpr( copyable ) {
						what = "copy assignment";
						failed = trk::faulted( [&] { u[x] = std::as_const( u[y] ); } );
						if( not failed )
							m[x] = m[y];
					}
					break;
				case 4:
					what = "move assignment";
					failed = trk::faulted( [&] { u[x] = std::move( u[y] ); } );
					if( not failed and x != y ) {
						m[x] = m[y];
						m[y].v = ANY;
						same_pair( u[y], m[y], true, "being moved from" );
					} else if( failed and x != y and m[y].which != NONE ) {
						m[y].v = ANY; // part of the move may have happened
						same_pair( u[y], m[y], true, "a failed move from" );
					}
					break;
				case 5:
					if constexpr( copyable ) {
						what = "copying";
						trk::faulted( [&] {
							U n = std::as_const( u[x] );
							PModel k = m[x];
							same_pair( n, k, false, "copying" );
						} );
					}
					break;
				case 6: {
					what = "moving there and back";
					bool made = false;
					failed = trk::faulted( [&] {
						U n = std::move( u[x] );
						made = true;
						PModel k = m[x];
						same_pair( n, k, false, "moving" );
						sim::Disarmed d;
						u[x] = std::move( n );
					} );
					if( failed )
						SIM_CHECK( not made, "wrong-value", "a fault out of nowhere" );
					break;
				}
				case 7:
					if constexpr( copyable ) { // its own part
						what = "assigning what it holds";
						if( m[x].which == NONE )
							break;
						failed = trk::faulted( [&] {
							u[x].visit( [&]( auto const &p ) {
								u[x] = p;
								return 0;
							} );
						} );
					}
					break;
				default: {
					what = "a change through visit";
					if( m[x].which == NONE )
						break;
					bool done = false;
					trk::faulted( [&] {
						u[x].visit( [&]( auto &p ) {
							sim::throw_point( trk::S_CALL );
							p = make<std::remove_cvref_t<decltype( p )>>( next );
							done = true;
							return 0;
						} );
					} );
					if( done )
						m[x].v = next;
					++next;
				}
				}
				same_pair( u[x], m[x], failed, what );
				if( x != y )
					same_pair( u[y], m[y], false, what );
			}
		}
		world.end( );
		SIM_CHECK( sim::live_allocs( ) == base, "leak", "a union pair left memory behind" );
	}

	// ---- visiting variants
	template<size_t I>
	struct Alt {
		trk::Copy e;
		explicit Alt( int v )
		  : e( v ) {}
		static constexpr int index = (int)I;
	};
	struct Bad {}; // thrown by a constructor to make a variant valueless
	struct Thrower {
		operator Alt<0>( ) const { throw Bad( ); }
		explicit Thrower( ) = default;
	};
	template<typename... Ts>
	struct UserVariant { // not std::variant: reached by argument dependent look-up only
		std::variant<Ts...> v;
		size_t index( ) const { return v.index( ); }
	};
	template<size_t I, typename... Ts>
	auto *get_if( UserVariant<Ts...> *u ) { return std::get_if<I>( &u->v ); }
	template<size_t I, typename... Ts>
	auto const *get_if( UserVariant<Ts...> const *u ) { return std::get_if<I>( &u->v ); }

	struct Seen {
		int calls = 0, index = -1, v = 0;
		void const *at = nullptr;
		bool lvalue = false, constant = false;
	};
	template<typename Seq>
	struct Variants;
	struct Visitor {
		Seen *s;
		template<size_t I>
		int operator( )( Alt<I> const &a ) const { return note( a, true, true ); }
		template<size_t I>
		int operator( )( Alt<I> &a ) const { return note( a, true, false ); }
		template<size_t I>
		int operator( )( Alt<I> &&a ) const { return note( a, false, false ); }
		template<size_t I>
		int note( Alt<I> const &a, bool lvalue, bool constant ) const {
			++s->calls;
			s->index = (int)I;
			s->at = &a;
			s->lvalue = lvalue;
			s->constant = constant;
			sim::throw_point( trk::S_CALL );
			s->v = a.e.val( );
			return 1000 + (int)I;
		}
	};
	template<size_t... Is>
	struct Variants<std::index_sequence<Is...>> {
		static constexpr size_t N = sizeof...( Is );
		using V = std::variant<Alt<Is>...>;
		using UV = UserVariant<Alt<Is>...>;
		static void const *where( V &v ) {
			void const *p = nullptr;
			( ( v.index( ) == Is ? (void)( p = std::get_if<Is>( &v ) ) : void( ) ), ... );
			return p;
		}
		static void put( V &v, size_t k, int x ) { ( ( k == Is ? (void)v.template emplace<Is>( x ) : void( ) ), ... ); }
		static void valueless( V &v ) {
			try {
				v.template emplace<0>( Thrower( ) ); // Alt<0>( Thrower ) throws while nothing is held
			} catch( Bad const & ) { }
		}
		// one visit in one of the forms; true if it returned
		template<typename Var>
		static bool one( Var &var, Seen &s, int &r, bool &bad, bool empty ) {
			Visitor vis{ &s };
			auto forms = [&]( auto &&x ) -> int {
				using X = decltype( x );
				switch( sim::choose( empty ? 2 : 4 ) ) {
				case 0: return daw::visit( std::forward<X>( x ), vis );
				case 1: return (int)daw::visit<long>( std::forward<X>( x ), vis );
				case 2: return daw::visit_nt( std::forward<X>( x ), vis );
				default: return (int)daw::visit_nt<long>( std::forward<X>( x ), vis );
				}
			};
			bool lvalue = true, constant = false;
			bool const f = trk::faulted( [&] {
				try {
					switch( sim::choose( 3 ) ) {
					case 0:
						constant = true;
						r = forms( std::as_const( var ) );
						break;
					case 1: r = forms( var ); break;
					default: lvalue = false; r = forms( std::move( var ) );
					}
				} catch( daw::bad_variant_access const & ) { bad = true; }
			} );
			if( s.calls )
				SIM_CHECK( s.lvalue == lvalue and s.constant == constant, "wrong-category", "visiting %s variant gave the visitor %s", constant ? "a const" : lvalue ? "an lvalue" : "an rvalue", s.constant ? "a const object" : s.lvalue ? "an lvalue" : "an rvalue" );
			return not f;
		}
		static void several( V &v, int index, int x ) {
			if constexpr( N >= 2 and N <= 4 ) {
				Seen s;
				struct First { // may fail to be copied into the set of visitors
					Seen *s;
					trk::Copy e;
					int operator( )( Alt<0> &a ) const { return s->calls++, e.val( ) + a.e.val( ); }
				};
				First first{ &s, trk::Copy( 50 ) };
				int r = -1;
				bool bad = false;
				bool const f = trk::faulted( [&] {
					try {
						r = daw::visit( v, first, [&]( auto &a ) -> int {
							++s.calls;
							return 100 * a.index + a.e.val( );
						} );
					} catch( daw::bad_variant_access const & ) { bad = true; }
				} );
				if( f )
					return;
				SIM_CHECK( bad == ( index < 0 ), "wrong-result", "visiting a variant %s a value %s", index < 0 ? "without" : "with", bad ? "failed" : "succeeded" );
				if( not bad )
					SIM_CHECK( s.calls == 1 and r == ( index == 0 ? 50 + x : 100 * index + x ), "wrong-visit", "several visitors: alternative %d with %d gave %d after %d calls", index, x, r, s.calls );
			}
		}
		static void run( ) {
			trk::World world;
			{
				sim::Disarmed d0;
				V v( std::in_place_index<0>, 1 );
				UV uv{ V( std::in_place_index<0>, 1 ) };
				int index = 0, x = 1, next = 2;
				for( int ops = 2 + (int)sim::choose( 14 ), i = 0; i < ops; ++i ) {
					switch( sim::choose( 6 ) ) {
					case 0:
					case 1: {
						size_t const k = sim::choose( (uint32_t)N );
						bool const f = trk::faulted( [&] { put( v, k, next ); } );
						index = f ? ( v.valueless_by_exception( ) ? -1 : index ) : (int)k;
						if( not f )
							x = next;
						++next;
						break;
					}
					case 2:
						if( not sim::choose( 4 ) ) {
							valueless( v );
							index = v.valueless_by_exception( ) ? -1 : (int)v.index( );
						}
						break;
					case 3: several( v, index, x ); break;
					case 4: {
						if( index < 0 )
							break;
						if( trk::faulted( [&] { uv.v = v; } ) and uv.v.valueless_by_exception( ) )
							put( uv.v, (size_t)index, x );
						Seen s;
						int r = -1;
						bool bad = false;
						int const k = (int)uv.v.index( );
						bool const ok = one( uv, s, r, bad, false );
						SIM_CHECK( s.calls == 1 and s.index == k and s.at == where( uv.v ) and not bad, "wrong-visit", "visiting a user's variant holding alternative %d of %zu reached %d (%d calls)", k, N, s.index, s.calls );
						if( ok )
							SIM_CHECK( r == 1000 + k, "wrong-result", "visit returned %d instead of %d", r, 1000 + k );
						break;
					}
					default: {
						Seen s;
						int r = -1;
						bool bad = false;
						bool const ok = one( v, s, r, bad, index < 0 );
						if( index < 0 ) {
							SIM_CHECK( bad and s.calls == 0, "wrong-visit", "visiting a variant without a value %s", s.calls ? "called the visitor" : "was not reported" );
							break;
						}
						SIM_CHECK( not bad and s.calls == 1 and s.index == index and s.at == where( v ), "wrong-visit", "visiting a variant holding alternative %d of %zu reached %d (%d calls)", index, N, s.index, s.calls );
						if( ok )
							SIM_CHECK( r == 1000 + index and s.v == x, "wrong-result", "visit returned %d and saw %d instead of %d", r, s.v, x );
					}
					}
				}
			}
			world.end( );
		}
	};
	template<size_t N>
	void variants( ) { Variants<std::make_index_sequence<N>>::run( ); }

	// ---- casting
	void casts( ) {
		trk::World world;
		int64_t const base = sim::live_allocs( );
		{
			sim::Disarmed d0;
			using V = std::variant<int, trk::Copy, std::string>;
			V v = 1;
			int x = 1, next = 2;
			for( int ops = 3 + (int)sim::choose( 14 ), i = 0; i < ops; ++i ) {
				switch( sim::choose( 6 ) ) {
				case 0:
					trk::faulted( [&] {
						switch( sim::choose( 3 ) ) {
						case 0: v.emplace<0>( next ); break;
						case 1: v.emplace<1>( next ); break;
						default: v.emplace<2>( (size_t)next + 20, 'x' );
						}
						x = next;
					} );
					++next;
					break;
				default: {
					size_t const k = v.index( );
					bool const nothing = v.valueless_by_exception( );
					bool bad = false;
					int const form = (int)sim::choose( 7 );
					int got = -1;
					bool const f = trk::faulted( [&] {
						try {
							switch( form ) {
							case 0: got = daw::variant_cast<trk::Copy>( v ).val( ); break;
							case 1: got = daw::variant_cast<trk::Copy>( std::as_const( v ) ).val( ); break;
							case 2: got = daw::variant_cast<trk::Copy>( std::move( v ) ).val( ); break;
							case 3: got = (int)daw::variant_cast<std::string>( v ).size( ) - 20; break;
							case 4: got = daw::can_extract<trk::Copy>( v ); break;
							case 5: got = daw::can_extract<std::string>( std::move( v ) ); break;
							default: got = (int)daw::variant_cast<std::string>( std::move( v ) ).size( ) - 20;
							}
						} catch( std::bad_variant_access const & ) { bad = true; }
					} );
					if( f )
						break;
					if( form == 4 or form == 5 ) {
						SIM_CHECK( not bad and got == ( k == ( form == 4 ? 1 : 2 ) ), "wrong-result", "can_extract of alternative %zd says %d", (ssize_t)k, got );
						break;
					}
					bool const can = not nothing and ( form <= 2 ? k <= 1 : k == 2 );
					SIM_CHECK( bad == not can, "wrong-result", "a cast from alternative %zd %s", (ssize_t)k, bad ? "failed" : "succeeded" );
					if( can )
						SIM_CHECK( got == x, "wrong-value", "a cast gave %d instead of %d", got, x );
					if( can and ( ( form == 2 and k == 1 ) or form == 6 ) ) { // was moved out of
						if( form == 2 )
							SIM_CHECK( std::get<1>( v ).val( ) == trk::MOVED, "copied", "a cast of an rvalue variant copied what it held" );
						else
							SIM_CHECK( std::get<2>( v ).empty( ), "copied", "a cast of an rvalue variant copied what it held" );
						v.emplace<0>( x );
					}
				}
				}
				if( not v.valueless_by_exception( ) ) {
					int const n = v.index( ) == 0 ? std::get<0>( v ) : v.index( ) == 1 ? std::get<1>( v ).val( ) : (int)std::get<2>( v ).size( ) - 20;
					SIM_CHECK( n == x or n == trk::MOVED, "wrong-value", "the variant changed to %d from %d", n, x );
				}
				if( sim::choose( 2 ) ) { // reinterpretation
					uint32_t w = 0x01020300u + (uint32_t)next;
					uint32_t const before = w;
					bool const f = trk::faulted( [&] {
						int const r = daw::visit_as<std::array<unsigned char, 4>>( w, [&]( auto &b ) {
							b[3] = 9;
							sim::throw_point( trk::S_CALL );
							return (int)b[0];
						} );
						SIM_CHECK( r == (int)( before & 255 ), "wrong-result", "visit_as showed %d", r );
					} );
					SIM_CHECK( w == ( f ? before : ( before & 0xffffff ) | 9u << 24 ), "wrong-value", "visit_as left %x", w );
					SIM_CHECK( daw::visit_as<int32_t>( std::as_const( w ), []( int32_t const &n ) { return n; } ) == (int32_t)w, "wrong-value", "visit_as of a const shows something else" );
				}
			}
		}
		world.end( );
		SIM_CHECK( sim::live_allocs( ) == base, "leak", "casting left memory behind" );
	}

	// ---- poly_var
	struct Other {
		int pad = 5;
		virtual ~Other( ) = default;
	};
	struct Base {
		virtual int kind( ) const = 0;
		virtual int get( ) const = 0;
		virtual void put( int ) = 0;
		Base( ) = default;
		Base( Base const & ) = default;
		Base &operator=( Base const & ) = default;
		virtual ~Base( ) = default;
	};
	template<int K>
	struct D : Other, Base {
		trk::Copy e;
		explicit D( int v )
		  : e( v ) {}
		int kind( ) const override { return K; }
		int get( ) const override { return e.val( ); }
		void put( int v ) override { e.set( v ); }
	};
	struct Plain { // a base without virtual functions
		int n = 0;
	};
	template<int K>
	struct P : Other, Plain {
		trk::NxMove e;
		explicit P( int v )
		  : e( v ) { n = v * 10 + K; }
	};
	template<int K>
	int kind( D<K> const & ) { return K; }
	void polys( ) {
		trk::World world;
		{
			sim::Disarmed d0;
			using V = daw::poly_var<Base, D<0>, D<1>, D<2>>;
			V p[2] = { V( D<0>( 1 ) ), V( D<1>( 2 ) ) };
			int k[2] = { 0, 1 }, x[2] = { 1, 2 }, next = 3;
			daw::poly_var<Plain, P<3>, P<4>> q( P<3>( 7 ) );
			for( int ops = 3 + (int)sim::choose( 16 ), i = 0; i < ops; ++i ) {
				uint32_t const a = sim::choose( 2 );
				switch( sim::choose( 5 ) ) {
				case 0:
				case 1: {
					int const w = (int)sim::choose( 3 );
					if( not trk::faulted( [&] {
						    switch( w ) {
						    case 0: p[a] = D<0>( next ); break;
						    case 1: p[a] = D<1>( next ); break;
						    default: {
							    D<2> const d( next );
							    p[a] = d;
						    }
						    }
					    } ) ) {
						k[a] = w;
						x[a] = next;
					}
					++next;
					break;
				}
				case 2:
					if( p[1 - a].m_value.valueless_by_exception( ) )
						break;
					if( not trk::faulted( [&] { p[a] = std::as_const( p[1 - a] ); } ) ) {
						k[a] = k[1 - a];
						x[a] = x[1 - a];
					}
					break;
				case 3:
					if( p[a].m_value.valueless_by_exception( ) )
						break;
					( *p[a] ).put( next );
					x[a] = next++;
					break;
				default:
					trk::faulted( [&] {
						if( p[a].m_value.valueless_by_exception( ) )
							return;
						V const c = p[a];
						sim::Disarmed d;
						SIM_CHECK( c->kind( ) == k[a] and c->get( ) == x[a], "wrong-value", "a copy of a poly_var differs" );
					} );
				}
				for( int j = 0; j < 2; ++j ) {
					if( p[j].m_value.valueless_by_exception( ) )
						continue;
					V const &c = p[j];
					Base const *const held = std::visit( []( auto &d ) -> Base const * { return &d; }, c.m_value );
					SIM_CHECK( &*p[j] == held and &*c == held and p[j].operator->( ) == held and c.operator->( ) == held, "wrong-object", "a poly_var leads to another object than the one it holds" );
					SIM_CHECK( c->kind( ) == k[j] and ( *p[j] ).get( ) == x[j], "wrong-value", "a poly_var holds kind %d with %d instead of kind %d with %d", c->kind( ), c->get( ), k[j], x[j] );
				}
				Plain const *const held = std::visit( []( auto &d ) -> Plain const * { return &d; }, q.m_value );
				SIM_CHECK( &*q == held and &*std::as_const( q ) == held and ( *q ).n == q->n, "wrong-object", "a poly_var leads to another object than the one it holds" );
			}
		}
		world.end( );
	}
} // namespace
SIM_SCENARIO( pairs, 3 ) {
	trk::standard_faults( );
	switch( sim::choose( 6 ) ) {
	case 0: return pairs<int, trk::Copy>( );
	case 1: return pairs<trk::Copy, trk::NxMove>( );
	case 2: return pairs<trk::CopyOnly, std::string>( );
	case 3: return pairs<trk::MoveOnly, trk::MoveOnlyThrow>( );
	case 4: return pairs<std::string, trk::Copy>( );
	default: return pairs<trk::MoveOnlyThrow, int>( );
	}
}
SIM_SCENARIO( variants, 2 ) {
	trk::standard_faults( );
	switch( sim::choose( 22 ) ) {
	case 0: return variants<1>( );
	case 1: return variants<2>( );
	case 2: return variants<3>( );
	case 3: return variants<4>( );
	case 4: return variants<5>( );
	case 5: return variants<6>( );
	case 6: return variants<7>( );
	case 7: return variants<8>( );
	case 8: return variants<9>( );
	case 9: return variants<10>( );
	case 10: return variants<11>( );
	case 11: return variants<12>( );
	case 12: return variants<13>( );
	case 13: return variants<14>( );
	case 14: return variants<15>( );
	case 15: return variants<16>( );
	case 16: return variants<17>( );
	case 17: return variants<18>( );
	case 18: return variants<33>( );
	case 19: return variants<35>( );
	default: return variants<2>( );
	}
}
SIM_SCENARIO( casts, 1 ) {
	trk::standard_faults( );
	casts( );
}
SIM_SCENARIO( polys, 1 ) {
	trk::standard_faults( );
	polys( );
}
