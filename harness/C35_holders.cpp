// C35: small holders of a value keep what they hold, whatever throws.
#include "stops.h"
#include "tracked.h"

#include <array>
#include <csetjmp>
#include <exception>
#include <forward_list>
#include <memory>
#include <optional>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>

#include <daw/compressed_pair.h>
#include <daw/daw_keep_n.h>
#include <daw/daw_mutable_capture.h>
#include <daw/daw_natural.h>
#include <daw/daw_not_null.h>
#include <daw/daw_observer_ptr.h>
#include <daw/daw_prop_const_ptr.h>
#include <daw/daw_read_only.h>
#include <daw/daw_reference.h>
#include <daw/daw_rw_ref.h>
#include <daw/daw_safe_pointer.h>
#include <daw/daw_string_concat.h>
#include <daw/daw_swap.h>
#include <daw/daw_take.h>
#include <daw/daw_tuple2.h>

namespace sim {
	HarnessInfo const harness = {
	  "C35",
	  "A seeded run picks one of the small holders - the n least or greatest values, a taken value, a natural number, a pair without empty members, a captured value, a non-null, observing, const-propagating or range-checked pointer, a list of references, joined strings, the swap functions - and applies up to 16 operations while element construction, copies, moves, comparisons, user swap functions, callbacks and allocations may fail; a model says what is held after each operation, and what must still be held when one fails. Null given to a non-null pointer must stop the program (the stop is intercepted). A run is non-trivial if a fault fired.",
	  "daw_keep_n.h, daw_take.h, daw_natural.h, compressed_pair.h, daw_mutable_capture.h, daw_not_null.h, daw_observer_ptr.h, daw_monadic_pointer_ops.h, daw_prop_const_ptr.h, daw_rw_ref.h, daw_read_only.h, daw_reference.h, daw_safe_pointer.h, daw_string_concat.h, daw_swap.h, daw_tuple2.h",
	  "element types, callbacks, the terminate handler",
	  4000000, 80000000, true };
}
namespace {
	using trk::faulted;

	// ---- the n least or greatest ----
	template<typename E, size_t N, daw::keep_n_order Order>
	void keep( ) {
		constexpr bool up = Order == daw::keep_n_order::ascending;
		constexpr bool strong = std::is_nothrow_move_constructible_v<E>;
		trk::World world;
		trk::standard_faults( );
		{
			int const dflt = up ? 100 : -100;
			std::optional<daw::keep_n<E, N, Order>> k;
			int m[N + 1];
			for( size_t i = 0; i <= N; ++i )
				m[i] = dflt;
			{
				std::optional<E> d;
				d.emplace( dflt );
				faulted( [&] { k.emplace( *d ); } );
			}
			int const steps = k ? 1 + (int)sim::choose( 14 ) : 0;
			for( int s = 0; s < steps; ++s ) {
				int v = (int)sim::choose( 12 );
				std::optional<E> e;
				e.emplace( v );
				bool moved = false, compared = false;
				bool const failed = faulted( [&] {
					switch( sim::choose( 4 ) ) {
					case 0: // one of its own
						if constexpr( strong and N > 0 ) {
							size_t const i = sim::choose( N );
							v = m[i];
							k->insert( ( *k )[i] );
							break;
						}
						[[fallthrough]];
					case 1:
						k->insert( *e );
						break;
					default:
						moved = true;
						k->insert( std::move( *e ) );
						break;
					}
				} );
				(void)compared;
				if( not moved )
					SIM_CHECK( e->val( ) != trk::MOVED, "argument-changed", "keep_n moved a value it was told to copy" );
				if( failed ) {
					if( not strong )
						break; // a move failed half way: the rest is only destroyed
					if( moved )
						SIM_CHECK( e->val( ) == v, "lost-value", "keep_n: an insertion that failed took the value" );
				} else {
					size_t at = 0;
					while( at < N and not( up ? v < m[at] : v >= m[at] ) )
						++at;
					if( at < N ) {
						for( size_t j = N - 1; j > at; --j )
							m[j] = m[j - 1];
						m[at] = v;
					}
				}
				SIM_CHECK( k->size( ) == N, "size", "keep_n of %d says it holds %d", (int)N, (int)k->size( ) );
				size_t i = 0;
				for( auto const &x : *k ) {
					SIM_CHECK( x.val( ) == m[i], "wrong-values", "keep_n: value %d of %d is %d, expected %d%s", (int)i, (int)N, x.val( ), m[i], failed ? " (after a failed insertion)" : "" );
					SIM_CHECK( ( *k )[i].val( ) == m[i], "wrong-values", "keep_n: [%d] is %d, expected %d", (int)i, ( *k )[i].val( ), m[i] );
					++i;
				}
				SIM_CHECK( i == N, "size", "keep_n: iteration gave %d of %d", (int)i, (int)N );
				SIM_CHECK( k->front( ).val( ) == m[0] and k->back( ).val( ) == m[N - 1], "wrong-values", "keep_n: the first and last are %d and %d, expected %d and %d", k->front( ).val( ), k->back( ).val( ), m[0], m[N - 1] );
			}
			k.reset( );
		}
		world.end( );
	}
	// copies never fail, everything else may
	struct OddCopy : trk::Safe {
		OddCopy( ) = default;
		OddCopy( int x )
		  : trk::Safe( x ) {}
		OddCopy( OddCopy const &o ) noexcept = default;
		OddCopy( OddCopy && ) noexcept = default;
		OddCopy &operator=( OddCopy const &o ) {
			sim::throw_point( trk::S_CASSIGN );
			trk::Safe::operator=( o );
			return *this;
		}
		OddCopy &operator=( OddCopy && ) noexcept = default;
	};
	SIM_SCENARIO( keep_n, 3 ) {
		using enum daw::keep_n_order;
		switch( sim::choose( 6 ) ) {
		case 0:
			keep<trk::NxMove, 3, ascending>( );
			break;
		case 1:
			keep<trk::NxMove, 3, descending>( );
			break;
		case 2:
			keep<trk::NxMove, 1, ascending>( );
			break;
		case 3:
			keep<trk::NxMove, 5, descending>( );
			break;
		case 4:
			keep<trk::Copy, 4, ascending>( );
			break;
		default:
			keep<OddCopy, 6, ascending>( );
			break;
		}
	}

	// ---- take ----
	SIM_SCENARIO( take, 2 ) {
		trk::World world;
		trk::standard_faults( );
		{
			auto const once = []<typename E>( std::type_identity<E>, char const *what ) {
				int const v = 1 + (int)sim::choose( 50 );
				E e( v );
				std::optional<E> out;
				bool const failed = faulted( [&] { out.emplace( daw::take( e ) ); } );
				if( not failed ) {
					SIM_CHECK( out->val( ) == v, "wrong-values", "take of %d gave %d (%s)", v, out->val( ), what );
					SIM_CHECK( e.val( ) == 0, "not-reset", "take left %d behind (%s)", e.val( ), what );
				} else if( std::is_nothrow_move_constructible_v<E> ) {
					SIM_CHECK( e.val( ) == v, "lost-value", "a take that failed left %d, was %d (%s)", e.val( ), v, what );
				}
			};
			switch( sim::choose( 4 ) ) {
			case 0:
				once( std::type_identity<trk::NxMove>{ }, "noexcept moves" );
				break;
			case 1:
				once( std::type_identity<trk::Copy>{ }, "throwing moves" );
				break;
			default: {
				using E = trk::NxMove;
				std::optional<daw::take_t<E>> t[2];
				int m[2] = { 1, 2 };
				t[0].emplace( 1 );
				t[1].emplace( 2 );
				for( int s = (int)sim::choose( 10 ); s >= 0; --s ) {
					int const i = (int)sim::choose( 2 ), j = (int)sim::choose( 2 );
					int got = -1, want = -1, old_i = m[i], old_j = m[j];
					bool assigned = false;
					uint64_t const op = sim::choose( 7 );
					bool const failed = faulted( [&] {
						switch( op ) {
						case 0: {
							assigned = true;
							*t[i] = *t[j];
							break;
						}
						case 1: {
							assigned = true;
							*t[i] = std::move( *t[j] );
							break;
						}
						case 2: {
							daw::take_t<E> x( std::move( *t[i] ) );
							sim::Disarmed d;
							got = ( *x ).val( );
							want = old_i;
							break;
						}
						case 3: {
							E x = *std::move( *t[i] );
							sim::Disarmed d;
							got = x.val( );
							want = old_i;
							break;
						}
						case 4: {
							E x = std::move( *t[i] ).get( );
							sim::Disarmed d;
							got = x.val( );
							want = old_i;
							break;
						}
						case 5:
							t[i]->reset( );
							break;
						default: {
							int const v = 10 + (int)sim::choose( 30 );
							*t[i] = daw::take_t<E>( v );
							m[i] = v;
							break;
						}
						}
					} );
					if( failed ) {
						m[i] = old_i;
					} else {
						if( op == 0 )
							m[i] = old_j;
						if( op == 1 ) {
							m[j] = 0;
							m[i] = old_j;
						}
						if( op >= 2 and op <= 5 )
							m[i] = 0;
						SIM_CHECK( got == want, "wrong-values", "take_t gave %d, expected %d", got, want );
					}
					(void)assigned;
					for( int q = 0; q < 2; ++q ) {
						SIM_CHECK( ( **t[q] ).val( ) == m[q] and t[q]->get( ).val( ) == m[q] and ( *t[q] )->val( ) == m[q], "wrong-values", "take_t holds %d, expected %d%s", ( **t[q] ).val( ), m[q], failed ? " (after a failed operation)" : "" );
					}
				}
				break;
			}
			}
		}
		world.end( );
	}

	// ---- natural numbers ----
	template<typename F>
	bool refused( F &&f ) {
		try {
			f( );
			return false;
		} catch( daw::invalid_natural_number const & ) {
			return true;
		}
	}
	SIM_SCENARIO( natural, 1 ) {
		daw::natural_t<int> n[2] = { 1, 1 };
		daw::natural_t<long long> big = 1;
		long long m[3] = { 1, 1, 1 };
		for( int s = (int)sim::choose( 14 ); s >= 0; --s ) {
			int const i = (int)sim::choose( 2 ), j = (int)sim::choose( 3 );
			int const x = (int)sim::range( -2, 40 );
			long long const old = m[i];
			long long want = old;
			bool other = j == 2;
			uint64_t const op = sim::choose( 13 );
			bool binary = op >= 1 and op <= 5, result_op = op >= 8 and op <= 12;
			long long r = 0;
			if( binary or result_op ) {
				uint64_t const o = binary ? op : op - 7;
				r = o == 1 ? old + m[j] : o == 2 ? old - m[j] : o == 3 ? old * m[j] : o == 4 ? old / m[j] : old % m[j];
				if( r > 1000000 or r < -1000000 )
					continue;
			}
			long long got = 0;
			bool const no = refused( [&] {
				auto const with = [&]( auto const &rhs ) {
					switch( op ) {
					case 1:
						n[i] += rhs;
						break;
					case 2:
						n[i] -= rhs;
						break;
					case 3:
						n[i] *= rhs;
						break;
					case 4:
						n[i] /= rhs;
						break;
					case 5:
						n[i] %= rhs;
						break;
					case 8:
						got = ( n[i] + rhs ).value( );
						break;
					case 9:
						got = ( n[i] - rhs ).value( );
						break;
					case 10:
						got = ( n[i] * rhs ).value( );
						break;
					case 11:
						got = ( n[i] / rhs ).value( );
						break;
					default:
						got = ( n[i] % rhs ).value( );
						break;
					}
				};
				switch( op ) {
				case 0:
					want = x;
					if( sim::choose( 2 ) )
						n[i] = x;
					else
						n[i] = daw::natural_t<int>( x );
					break;
				case 6:
					want = old - 1;
					if( sim::choose( 2 ) )
						--n[i];
					else
						got = ( n[i]-- ).value( );
					break;
				case 7:
					want = old + 1;
					if( sim::choose( 2 ) )
						++n[i];
					else
						got = ( n[i]++ ).value( );
					break;
				default:
					if( binary )
						want = r;
					if( other )
						with( big );
					else
						with( n[j] );
					break;
				}
			} );
			bool const should = ( result_op ? r : want ) < 1;
			SIM_CHECK( no == should, should ? "not-natural" : "refused", "natural: operation %d of %lld and %lld gave %lld and was %s", (int)op, old, m[j], result_op ? r : want, no ? "refused" : "accepted" );
			if( not no ) {
				if( result_op )
					SIM_CHECK( got == r, "wrong-values", "natural: operation %d gave %lld, expected %lld", (int)op, got, r );
				else
					m[i] = want;
			}
			for( int q = 0; q < 2; ++q ) {
				SIM_CHECK( n[q].value( ) == m[q] and (int)n[q] == m[q], "wrong-values", "natural holds %d, expected %lld%s", n[q].value( ), m[q], no ? " (after a refused operation)" : "" );
			}
			SIM_CHECK( ( n[0] == n[1] ) == ( m[0] == m[1] ) and ( n[0] < n[1] ) == ( m[0] < m[1] ) and ( n[0] <= big ) == ( m[0] <= m[2] ) and ( n[0] > n[1] ) == ( m[0] > m[1] ) and ( n[0] >= n[1] ) == ( m[0] >= m[1] ) and ( n[0] != n[1] ) == ( m[0] != m[1] ), "wrong-values", "natural: %lld and %lld compare wrongly", m[0], m[1] );
			if( sim::choose( 8 ) == 0 ) {
				m[2] = m[0];
				big = (long long)m[2];
			}
		}
	}

	// ---- swapping ----
	struct MemberSwap {
		trk::NxMove e;
		explicit MemberSwap( int x )
		  : e( x ) {}
		MemberSwap( MemberSwap const & ) = delete;
		void swap( MemberSwap &o ) {
			sim::throw_point( trk::S_CALL );
			int const t = e.val( );
			e.set( o.e.val( ) );
			o.e.set( t );
		}
		int val( ) const { return e.val( ); }
	};
	struct AdlSwap {
		trk::NxMove e;
		explicit AdlSwap( int x )
		  : e( x ) {}
		AdlSwap( AdlSwap const & ) = delete;
		friend void swap( AdlSwap &a, AdlSwap &b ) {
			sim::throw_point( trk::S_CALL );
			int const t = a.e.val( );
			a.e.set( b.e.val( ) );
			b.e.set( t );
		}
		int val( ) const { return e.val( ); }
	};
	// copies never fail, moves do
	struct BadMove : trk::Safe {
		explicit BadMove( int x )
		  : trk::Safe( x ) {}
		BadMove( BadMove const & ) noexcept = default;
		BadMove( BadMove &&o )
		  : trk::Safe( std::move( o ) ) {
			sim::throw_point( trk::S_MOVE );
		}
		BadMove &operator=( BadMove const & ) noexcept = default;
		BadMove &operator=( BadMove &&o ) {
			sim::throw_point( trk::S_MASSIGN );
			trk::Safe::operator=( std::move( o ) );
			return *this;
		}
	};
	struct Plain {
		int v;
		explicit Plain( int x )
		  : v( x ) {}
		int val( ) const { return v; }
	};
	template<typename E>
	void swapping( char const *what ) {
		// a fault leaves both as they were only where there is a single step
		constexpr bool one_step = std::is_same_v<E, MemberSwap> or std::is_same_v<E, AdlSwap> or std::is_nothrow_move_constructible_v<E>;
		trk::World world;
		trk::standard_faults( );
		{
			int m[2][3] = { { 1, 2, 3 }, { 4, 5, 6 } };
			bool known = true;
			auto const same = [&]( auto const &a, auto const &b, bool failed ) {
				int i = 0;
				for( auto const &x : a ) {
					SIM_CHECK( x.val( ) == m[0][i], "wrong-values", "%s: the first has %d, expected %d%s", what, x.val( ), m[0][i], failed ? " (after a failed swap)" : "" );
					++i;
				}
				i = 0;
				for( auto const &x : b ) {
					SIM_CHECK( x.val( ) == m[1][i], "wrong-values", "%s: the second has %d, expected %d%s", what, x.val( ), m[1][i], failed ? " (after a failed swap)" : "" );
					++i;
				}
			};
			if( sim::choose( 2 ) == 0 ) {
				E a[3] = { E( 1 ), E( 2 ), E( 3 ) };
				E b[3] = { E( 4 ), E( 5 ), E( 6 ) };
				for( int s = (int)sim::choose( 6 ); s >= 0 and known; --s ) {
					int const i = (int)sim::choose( 3 ), j = (int)sim::choose( 3 );
					bool whole = false;
					bool const failed = faulted( [&] {
						if constexpr( std::is_move_assignable_v<E> and std::is_move_constructible_v<E> ) {
							switch( sim::choose( 3 ) ) {
							case 0:
								daw::iter_swap( a + i, b + j );
								return;
							case 1:
								whole = true;
								if( auto const r = daw::swap_ranges( a, a + 3, b ); r != b + 3 ) {
									sim::Disarmed d;
									SIM_CHECK( false, "wrong-values", "swap_ranges returned the wrong end" );
								}
								return;
							default:
								break;
							}
						}
						daw::cswap( a[i], b[j] );
					} );
					if( failed ) {
						if( not one_step )
							known = false;
					} else if( whole ) {
						std::swap( m[0], m[1] );
					} else {
						std::swap( m[0][i], m[1][j] );
					}
					if( known )
						same( a, b, failed );
				}
			} else if constexpr( std::is_move_assignable_v<E> and std::is_move_constructible_v<E> ) {
				std::array<E, 3> a = { E( 1 ), E( 2 ), E( 3 ) }, b = { E( 4 ), E( 5 ), E( 6 ) };
				for( int s = (int)sim::choose( 3 ); s >= 0 and known; --s ) {
					bool const failed = faulted( [&] { daw::cswap( a, b ); } );
					if( not failed )
						std::swap( m[0], m[1] );
					else
						known = false;
					if( known )
						same( a, b, failed );
				}
			}
		}
		world.end( );
	}
	SIM_SCENARIO( swap, 2 ) {
		switch( sim::choose( 6 ) ) {
		case 0:
			swapping<trk::NxMove>( "swap" );
			break;
		case 1:
			swapping<trk::Copy>( "swap, throwing moves" );
			break;
		case 2:
			swapping<MemberSwap>( "swap, member swap" );
			break;
		case 3:
			swapping<AdlSwap>( "swap, friend swap" );
			break;
		case 4:
			swapping<Plain>( "swap, trivial" );
			break;
		default:
			swapping<BadMove>( "swap, copies that cannot fail" );
			break;
		}
	}

	// ---- a pair ----
	struct Nothing {
		int val( ) const { return 0; }
	};
	SIM_SCENARIO( pair, 1 ) {
		using E = trk::NxMove;
		trk::World world;
		trk::standard_faults( );
		{
			using P = daw::compressed_pair<E, trk::Safe>;
			using Q = daw::compressed_pair<Nothing, E>;
			static_assert( sizeof( Q ) == sizeof( E ) );
			std::optional<P> p[2];
			std::optional<Q> q[2];
			int m[2] = { 0, 0 }, k[2] = { 0, 0 };
			for( int s = (int)sim::choose( 12 ); s >= 0; --s ) {
				int const i = (int)sim::choose( 2 ), v = (int)sim::choose( 50 );
				switch( sim::choose( 6 ) ) {
				case 0: {
					p[i].reset( );
					faulted( [&] { p[i].emplace( v, v + 1 ); } );
					m[i] = v;
					break;
				}
				case 1: {
					p[i].reset( );
					faulted( [&] { p[i].emplace( std::piecewise_construct, std::forward_as_tuple( v ), std::forward_as_tuple( v + 1 ) ); } );
					m[i] = v;
					break;
				}
				case 2: {
					q[i].reset( );
					faulted( [&] { q[i].emplace( Nothing{ }, v ); } );
					k[i] = v;
					break;
				}
				case 3:
					if( p[0] and p[1] and not faulted( [&] { sim::choose( 2 ) ? p[0]->swap( *p[1] ) : swap( *p[0], *p[1] ); } ) )
						std::swap( m[0], m[1] );
					break;
				case 4:
					if( p[1 - i] ) {
						p[i].reset( );
						faulted( [&] { p[i].emplace( *p[1 - i] ); } );
						m[i] = m[1 - i];
					}
					break;
				default:
					if( q[0] and q[1] and not faulted( [&] { *q[i] = *q[1 - i]; } ) )
						k[i] = k[1 - i];
					break;
				}
				for( int x = 0; x < 2; ++x ) {
					if( p[x] )
						SIM_CHECK( p[x]->first( ).val( ) == m[x] and p[x]->second( ).val( ) == m[x] + 1 and std::as_const( *p[x] ).first( ).v == m[x] and std::as_const( *p[x] ).second( ).v == m[x] + 1, "wrong-values", "compressed_pair holds (%d, %d), expected (%d, %d)", p[x]->first( ).val( ), p[x]->second( ).val( ), m[x], m[x] + 1 );
					if( q[x] )
						SIM_CHECK( q[x]->second( ).val( ) == k[x] and q[x]->first( ).val( ) == 0, "wrong-values", "compressed_pair holds %d, expected %d", q[x]->second( ).val( ), k[x] );
				}
			}
		}
		world.end( );
	}

	// the second part's own swap may fail
	SIM_SCENARIO( pair_swap, 1 ) {
		trk::World world;
		trk::standard_faults( );
		{
			auto const run = [&]( auto type, auto const &ours, auto const &theirs, bool turned ) {
				std::optional<typename decltype( type )::type> a, b;
				if( faulted( [&] {
					    turned ? (void)a.emplace( 2, 1 ) : (void)a.emplace( 1, 2 );
					    turned ? (void)b.emplace( 4, 3 ) : (void)b.emplace( 3, 4 );
				    } ) )
					return;
				int o[2] = { 1, 3 }, t[2] = { 2, 4 };
				for( int s = (int)sim::choose( 4 ); s >= 0; --s ) {
					bool const member = sim::choose( 2 );
					bool const failed = faulted( [&] {
						if( member )
							a->swap( *b );
						else
							swap( *a, *b );
					} );
					if( not failed ) {
						std::swap( o[0], o[1] );
						std::swap( t[0], t[1] );
					} else { // each part was exchanged or was not
						if( ours( *a ).val( ) != o[0] )
							std::swap( o[0], o[1] );
						if( theirs( *a ).val( ) != t[0] )
							std::swap( t[0], t[1] );
					}
					SIM_CHECK( ours( *a ).val( ) == o[0] and ours( *b ).val( ) == o[1] and theirs( *a ).val( ) == t[0] and theirs( *b ).val( ) == t[1], "wrong-values", "compressed_pair: after a swap%s the pairs hold (%d, %d) and (%d, %d)", failed ? " that failed" : "", ours( *a ).val( ), theirs( *a ).val( ), ours( *b ).val( ), theirs( *b ).val( ) );
				}
			};
			auto const first = []( auto &p ) -> auto & { return p.first( ); };
			auto const second = []( auto &p ) -> auto & { return p.second( ); };
			if( sim::choose( 2 ) )
				run( std::type_identity<daw::compressed_pair<trk::NxMove, AdlSwap>>{ }, first, second, false );
			else
				run( std::type_identity<daw::compressed_pair<AdlSwap, trk::NxMove>>{ }, second, first, true );
		}
		world.end( );
	}

	SIM_SCENARIO( tuple, 1 ) {
		using E = trk::NxMove;
		trk::World world;
		trk::standard_faults( );
		{
			using T = daw::tuple2<E, int, trk::MoveOnly>;
			int m = (int)sim::choose( 50 );
			faulted( [&] {
				T t{ E( m ), m + 1, trk::MoveOnly( m + 2 ) };
				int k = m;
				for( int s = (int)sim::choose( 5 ); s >= 0; --s ) {
					SIM_CHECK( daw::get<0>( t ).v == k and daw::get<1>( t ) == m + 1 and daw::get<2>( t ).v == m + 2 and daw::get<0>( std::as_const( t ) ).v == k, "wrong-values", "tuple2 holds (%d, %d, %d), expected (%d, %d, %d)", daw::get<0>( t ).v, daw::get<1>( t ), daw::get<2>( t ).v, k, m + 1, m + 2 );
					switch( sim::choose( 3 ) ) {
					case 0: {
						int const v = (int)sim::choose( 50 );
						daw::get<0>( t ) = E( v );
						k = v;
						break;
					}
					case 1: {
						T u( std::move( t ) );
						SIM_CHECK( daw::get<2>( u ).v == m + 2 and daw::get<2>( t ).v == trk::MOVED, "wrong-values", "a moved tuple2 holds %d", daw::get<2>( u ).v );
						t = std::move( u );
						break;
					}
					default: {
						E out = daw::get<0>( std::move( t ) );
						SIM_CHECK( out.v == k and daw::get<0>( t ).v == trk::MOVED, "wrong-values", "what was taken out of a tuple2 is %d, expected %d", out.v, k );
						daw::get<0>( t ) = std::move( out );
						break;
					}
					}
				}
			} );
		}
		world.end( );
	}

	// ---- captured values ----
	SIM_SCENARIO( capture, 1 ) {
		using E = trk::NxMove;
		trk::World world;
		trk::standard_faults( );
		{
			E e( 5 );
			faulted( [&] {
				bool const copy = sim::choose( 2 ) == 1;
				auto const c = copy ? daw::mutable_capture<E>( e ) : daw::mutable_capture<E>( std::move( e ) );
				sim::Disarmed off;
				SIM_CHECK( e.val( ) == ( copy ? 5 : trk::MOVED ), "argument-changed", "mutable_capture left %d in what it was given", e.val( ) );
				int m = 5;
				for( int s = (int)sim::choose( 6 ); s >= 0; --s ) {
					E &r = c;
					SIM_CHECK( c.get( ).val( ) == m and c.ptr( )->val( ) == m and ( *c ).val( ) == m and c->val( ) == m and r.val( ) == m, "wrong-values", "mutable_capture holds %d, expected %d", c.get( ).val( ), m );
					SIM_CHECK( c.ptr( ) == &r and &c.get( ) == &r and &*c == &r, "wrong-reference", "mutable_capture refers to different values" );
					switch( sim::choose( 4 ) ) {
					case 0: {
						int const v = (int)sim::choose( 50 );
						if( not faulted( [&] { c.get( ) = E( v ); } ) )
							m = v;
						break;
					}
					case 1: {
						E out = c.move_out( );
						SIM_CHECK( out.val( ) == m, "wrong-values", "mutable_capture gave %d, expected %d", out.val( ), m );
						m = trk::MOVED;
						break;
					}
					case 2: {
						E out = *std::move( c );
						SIM_CHECK( out.val( ) == m, "wrong-values", "mutable_capture gave %d, expected %d", out.val( ), m );
						m = trk::MOVED;
						break;
					}
					default: {
						int want = m;
						faulted( [&] {
							auto d( c ); // a copy of the value
							sim::Disarmed o;
							SIM_CHECK( d.get( ).val( ) == want, "wrong-values", "a copy of a mutable_capture holds %d, expected %d", d.get( ).val( ), want );
							d.get( ).set( 77 );
						} );
						break;
					}
					}
				}
			} );
		}
		world.end( );
	}

	// ---- joined strings ----
	SIM_SCENARIO( concat, 1 ) {
		trk::standard_faults( );
		long const before = (long)sim::live_allocs( );
		{
			auto const piece = [] { return std::string( sim::choose( 3 ) * sim::choose( 20 ), (char)( 'a' + sim::choose( 26 ) ) ); };
			std::string const a = piece( ), b = piece( ), c = piece( );
			std::string const want2 = a + b, want3 = a + b + c;
			for( int s = 0; s < 2; ++s ) {
				bool three = sim::choose( 2 ) == 1;
				faulted( [&] {
					std::string const got = three ? daw::string_concat( a, b, c ) : daw::string_concat( a, b );
					sim::Disarmed d;
					SIM_CHECK( got == ( three ? want3 : want2 ), "wrong-values", "string_concat gave \"%s\"", got.c_str( ) );
				} );
				SIM_CHECK( a + b + c == want3, "argument-changed", "string_concat changed its arguments" );
			}
		}
		SIM_CHECK( (long)sim::live_allocs( ) == before, "leak", "string_concat: %ld allocations are left", (long)sim::live_allocs( ) - before );
	}

	// ---- pointers ----
	int g_cells[8];
	int *volatile g_ptr;

	SIM_SCENARIO( not_null, 1 ) {
		for( int i = 0; i < 8; ++i )
			g_cells[i] = i;
		g_ptr = g_cells;
		daw::not_null<int *> p( (int *)g_ptr );
		int at = 0;
		for( int s = (int)sim::choose( 10 ); s >= 0; --s ) {
			int const to = (int)sim::choose( 8 );
			switch( sim::choose( 8 ) ) {
			case 0:
				g_ptr = nullptr;
				SIM_CHECK( stops( [] {
					daw::not_null<int *> q( (int *)g_ptr );
					(void)q;
				} ),
				           "null", "a not_null was made from a null pointer" );
				break;
			case 1: {
				g_ptr = nullptr;
				static int other;
				static daw::not_null<int *> q( &other );
				q = &other;
				SIM_CHECK( stops( [] { q = (int *)g_ptr; } ), "null", "a null pointer was assigned to a not_null" );
				break;
			}
			case 2:
				g_ptr = g_cells + to;
				p = (int *)g_ptr;
				at = to;
				break;
			case 3:
				if( at < 7 ) {
					++at;
					if( sim::choose( 2 ) )
						++p;
					else
						SIM_CHECK( *p++ == at - 1, "wrong-place", "not_null ++ gave the wrong place" );
				}
				break;
			case 4:
				if( at > 0 ) {
					--at;
					if( sim::choose( 2 ) )
						--p;
					else
						SIM_CHECK( *p-- == at + 1, "wrong-place", "not_null -- gave the wrong place" );
				}
				break;
			case 5:
				p += to - at;
				at = to;
				break;
			case 6:
				p -= at - to;
				at = to;
				break;
			default: {
				daw::not_null<int *> q = p + ( to - at );
				SIM_CHECK( *q == to and q - p == to - at and *( q - ( to - at ) ) == at, "wrong-place", "not_null arithmetic gave the wrong place" );
				SIM_CHECK( ( q == p ) == ( to == at ) and ( q != p ) == ( to != at ) and ( p < q ) == ( at < to ) and ( p <= q ) == ( at <= to ) and ( p > q ) == ( at > to ) and ( p >= q ) == ( at >= to ), "wrong-place", "not_null pointers compare wrongly" );
				break;
			}
			}
			SIM_CHECK( p.get( ) == g_cells + at and *p == at and (int *)p == g_cells + at and p[0] == at, "wrong-place", "not_null is at %d, expected %d", *p, at );
		}
	}
	SIM_SCENARIO( observer, 1 ) {
		using E = trk::NxMove;
		trk::World world;
		trk::standard_faults( );
		{
			E e[2] = { E( 1 ), E( 2 ) };
			daw::observer_ptr<E> p[2] = { nullptr, nullptr };
			E *m[2] = { nullptr, nullptr };
			for( int s = (int)sim::choose( 10 ); s >= 0; --s ) {
				int const i = (int)sim::choose( 2 );
				E *const to = sim::choose( 3 ) ? &e[sim::choose( 2 )] : nullptr;
				int calls = 0;
				switch( sim::choose( 8 ) ) {
				case 0:
					p[i] = to;
					m[i] = to;
					break;
				case 1:
					p[i].reset( to );
					m[i] = to;
					break;
				case 2:
					SIM_CHECK( p[i].release( ) == m[i], "wrong-place", "observer_ptr released another pointer" );
					m[i] = nullptr;
					break;
				case 3:
					*p[i].get_out( ) = to;
					m[i] = to;
					break;
				case 4: {
					E *seen = nullptr;
					std::optional<daw::observer_ptr<E>> r;
					bool const failed = faulted( [&] {
						r = p[i].and_then( [&]( daw::observer_ptr<E> x ) {
							++calls;
							seen = x.get( );
							sim::throw_point( trk::S_CALL );
							return daw::observer_ptr<E>( x.get( ) );
						} );
					} );
					SIM_CHECK( calls == ( m[i] ? 1 : 0 ), "call-count", "and_then made %d calls for a %s pointer", calls, m[i] ? "non-null" : "null" );
					if( not failed )
						SIM_CHECK( r and r->get( ) == m[i] and seen == m[i], "wrong-place", "and_then gave another pointer" );
					break;
				}
				case 5: {
					std::optional<daw::observer_ptr<E>> r;
					bool const failed = faulted( [&] {
						r = p[i].or_else( [&] {
							++calls;
							sim::throw_point( trk::S_CALL );
							return daw::observer_ptr<E>( to );
						} );
					} );
					SIM_CHECK( calls == ( m[i] ? 0 : 1 ), "call-count", "or_else made %d calls for a %s pointer", calls, m[i] ? "non-null" : "null" );
					if( not failed )
						SIM_CHECK( r and r->get( ) == ( m[i] ? m[i] : to ), "wrong-place", "or_else gave another pointer" );
					break;
				}
				case 6:
					if( m[i] ) {
						int got = 0;
						bool const failed = faulted( [&] {
							got = p[i].transform( [&]( daw::observer_ptr<E> x ) {
								++calls;
								sim::throw_point( trk::S_CALL );
								return x->val( ) + 1;
							} );
						} );
						SIM_CHECK( calls == 1 and ( failed or got == m[i]->val( ) + 1 ), "call-count", "transform made %d calls", calls );
					}
					break;
				default: {
					daw::observer_ptr<E const> c( p[i] );
					SIM_CHECK( c.get( ) == m[i] and p[0] == m[0] and ( p[0] == p[1] ) == ( m[0] == m[1] ) and ( p[0] < p[1] ) == std::less<>{ }( m[0], m[1] ), "wrong-place", "observer_ptr compares wrongly" );
					break;
				}
				}
				for( int q = 0; q < 2; ++q ) {
					SIM_CHECK( p[q].get( ) == m[q] and static_cast<bool>( p[q] ) == ( m[q] != nullptr ), "wrong-place", "observer_ptr points to the wrong place" );
					if( m[q] )
						SIM_CHECK( &*p[q] == m[q] and &p[q].value( ) == m[q] and p[q].operator->( ) == m[q], "wrong-place", "observer_ptr points to the wrong place" );
				}
			}
		}
		world.end( );
	}
	template<typename P>
	void walk( char const *what, P p ) {
		int at = 0;
		auto const move_to = [&]( int to ) {
			int const d = to - at;
			switch( sim::choose( 4 ) ) {
			case 0:
				p += d;
				break;
			case 1:
				p -= -d;
				break;
			case 2:
				p = p + d;
				break;
			default:
				for( ; at < to; ++at ) {
					if( sim::choose( 2 ) )
						++p;
					else
						(void)p++;
				}
				for( ; at > to; --at ) {
					if( sim::choose( 2 ) )
						--p;
					else
						(void)p--;
				}
				break;
			}
			at = to;
		};
		for( int s = (int)sim::choose( 8 ); s >= 0; --s ) {
			int const to = (int)sim::choose( 8 );
			P const before = p;
			int const was = at;
			if( sim::choose( 4 ) == 0 and at < 7 ) {
				SIM_CHECK( *p++ == at, "wrong-place", "%s: ++ gave the wrong place", what );
				++at;
			} else if( sim::choose( 4 ) == 0 and at > 0 ) {
				SIM_CHECK( *p-- == at, "wrong-place", "%s: -- gave the wrong place", what );
				--at;
			} else {
				move_to( to );
			}
			SIM_CHECK( *p == at and p.get( ) == g_cells + at and p.operator->( ) == g_cells + at, "wrong-place", "%s is at %d, expected %d", what, *p, at );
			int const k = (int)sim::choose( 8 );
			SIM_CHECK( p[k - at] == k, "wrong-place", "%s: [%d] from %d is %d", what, k - at, at, p[k - at] );
			SIM_CHECK( p - before == at - was, "wrong-place", "%s: from %d to %d is %d", what, was, at, (int)( p - before ) );
			SIM_CHECK( ( p == before ) == ( at == was ) and ( p != before ) == ( at != was ) and ( p < before ) == ( at < was ) and ( p <= before ) == ( at <= was ) and ( p > before ) == ( at > was ) and ( p >= before ) == ( at >= was ), "wrong-place", "%s at %d and %d compare wrongly", what, at, was );
		}
		*p = 50 + at;
		SIM_CHECK( g_cells[at] == 50 + at, "wrong-place", "%s: what is written through it is elsewhere", what );
		g_cells[at] = at;
	}
	SIM_SCENARIO( pointers, 1 ) {
		for( int i = 0; i < 8; ++i )
			g_cells[i] = i;
		switch( sim::choose( 3 ) ) {
		case 0:
			walk( "safe_pointer", daw::memory::safe_pointer<int>( g_cells ) );
			break;
		case 1: {
			walk( "prop_const_ptr", daw::prop_const_ptr<int>( g_cells ) );
			daw::prop_const_ptr<int> const c( g_cells + 2 );
			SIM_CHECK( *( c + 2 ) == 4 and *c == 2 and c[1] == 3, "wrong-place", "a const prop_const_ptr is at the wrong place" );
			static_assert( std::is_same_v<decltype( *c ), int const &> );
			break;
		}
		default: {
			daw::rw_ref<int> r( g_cells[0] );
			int at = 0;
			for( int s = (int)sim::choose( 6 ); s >= 0; --s ) {
				int const to = (int)sim::choose( 8 );
				if( sim::choose( 2 ) ) {
					r = g_cells[to]; // refers to another
					at = to;
				} else {
					auto const c = r;
					r.get( ) = 60;
					SIM_CHECK( c.get( ) == 60 and g_cells[at] == 60, "wrong-place", "rw_ref writes to the wrong place" );
					r( ) = at;
				}
				int &x = r;
				SIM_CHECK( &r.get( ) == g_cells + at and &x == g_cells + at and &r( ) == g_cells + at and *&std::as_const( r ).get( ) == at, "wrong-place", "rw_ref refers to %d, expected %d", r.get( ), at );
				for( int i = 0; i < 8; ++i )
					SIM_CHECK( g_cells[i] == i, "wrong-values", "rw_ref changed a value that it does not refer to" );
			}
			break;
		}
		}
	}
	SIM_SCENARIO( references, 1 ) {
		using E = trk::NxMove;
		trk::World world;
		trk::standard_faults( );
		long const before = (long)sim::live_allocs( );
		{
			E e[4] = { E( 1 ), E( 2 ), E( 3 ), E( 4 ) };
			int const n = (int)sim::choose( 5 );
			faulted( [&] {
				auto const v = daw::to_reference_vector( e, e + n );
				sim::Disarmed d;
				SIM_CHECK( (int)v.size( ) == n, "wrong-values", "%d references to %d values", (int)v.size( ), n );
				for( int i = 0; i < n; ++i ) {
					SIM_CHECK( &*v[(size_t)i] == e + i and &v[(size_t)i].get( ) == e + i, "wrong-reference", "reference %d is to something else", i );
					SIM_CHECK( v[(size_t)i] == v[(size_t)i] and ( v[0] < v[(size_t)i] ) == ( i > 0 ), "wrong-values", "references compare wrongly" );
				}
			} );
			std::optional<daw::read_only<E>> r;
			faulted( [&] { sim::choose( 2 ) ? r.emplace( e[1] ) : r.emplace( E( 2 ) ); } );
			if( r ) {
				E const &x = *r;
				SIM_CHECK( x.val( ) == 2 and r->get( ).val( ) == 2, "wrong-values", "read_only holds %d", x.val( ) );
				faulted( [&] {
					auto const c( *r );
					sim::Disarmed d;
					SIM_CHECK( c.get( ).val( ) == 2 and r->get( ).val( ) == 2, "wrong-values", "a copy of a read_only holds %d", c.get( ).val( ) );
				} );
			}
		}
		world.end( );
		SIM_CHECK( (long)sim::live_allocs( ) == before, "leak", "%ld allocations are left", (long)sim::live_allocs( ) - before );
	}
} // namespace
