// Walks an iterator back and forth, comparing it with the place its steps add up to.
#pragma once
#include "tracked.h"

namespace {
	// Walk an adaptor. Traits T: make(pos) at model position; lo..hi allowed
	// positions; value(pos) expected element; readable(pos).
	enum Can : unsigned { BACK = 1, RANDOM = 2, DIFF = 4, ORDER = 8, INDEX = 16, POSTBACK = 32, ARROW = 64, NPLUS = 128 };
	template<unsigned C, typename I, typename Make, typename Value, typename Readable, typename Get>
	void walk( char const *who, ptrdiff_t lo, ptrdiff_t hi, Make make, Value value, Readable readable, Get get ) {
		ptrdiff_t pos = lo + sim::choose( (uint32_t)( hi - lo ) + 1 );
		I it = make( pos );
		auto const at = [&]( I &i, ptrdiff_t p, char const *what ) {
			if( readable( p ) ) {
				auto const g = get( i );
				SIM_CHECK( g == value( p ), "wrong-element", "%s: after %s the element is %d instead of %d (place %td)", who, what, (int)g, (int)value( p ), p );
			}
			I const there = make( p );
			SIM_CHECK( i == there and not( i != there ), "wrong-position", "%s: after %s it is not at place %td", who, what, p );
		};
		for( int k = 0, ops = 1 + (int)sim::choose( 24 ); k < ops; ++k ) {
			bool threw = false;
			char const *what = "";
			ptrdiff_t const to = lo + sim::choose( (uint32_t)( hi - lo ) + 1 );
			switch( sim::choose( 12 ) ) {
			case 0:
			case 1:
				what = "++";
				if( pos < hi ) {
					I *r = nullptr;
					threw = trk::faulted( [&] { r = const_cast<I *>( &++it ); } );
					if( not threw ) {
						++pos;
						SIM_CHECK( r == &it, "wrong-position", "%s: ++ returned another iterator", who );
					}
				}
				break;
			case 2:
				what = "postfix ++";
				if( pos < hi ) {
					threw = trk::faulted( [&] {
						I o = it++;
						sim::Disarmed d;
						at( o, pos, "what postfix ++ returned" );
					} );
					if( not threw )
						++pos;
				}
				break;
			case 3:
			case 4:
				if constexpr( C & BACK ) {
					what = "--";
					if( pos > lo ) {
						I *r = nullptr;
						threw = trk::faulted( [&] { r = const_cast<I *>( &--it ); } );
						if( not threw ) {
							--pos;
							SIM_CHECK( r == &it, "wrong-position", "%s: -- returned another iterator", who );
						}
					}
				}
				break;
			case 5:
				if constexpr( C & POSTBACK ) {
					what = "postfix --";
					if( pos > lo ) {
						threw = trk::faulted( [&] {
							I o = it--;
							sim::Disarmed d;
							at( o, pos, "what postfix -- returned" );
						} );
						if( not threw )
							--pos;
					}
				}
				break;
			case 6:
				if constexpr( C & RANDOM ) {
					what = "+=";
					threw = trk::faulted( [&] { it += to - pos; } );
					if( not threw )
						pos = to;
				}
				break;
			case 7:
				if constexpr( C & RANDOM ) {
					what = "-=";
					threw = trk::faulted( [&] { it -= pos - to; } );
					if( not threw )
						pos = to;
				}
				break;
			case 8:
				if constexpr( C & RANDOM ) {
					what = "+";
					threw = trk::faulted( [&] {
						I o = it + ( to - pos );
						sim::Disarmed d;
						at( o, to, "what + returned" );
					} );
					if constexpr( C & NPLUS ) {
						I o = ( to - pos ) + it;
						at( o, to, "what n + returned" );
					}
				}
				break;
			case 9:
				if constexpr( C & RANDOM ) {
					what = "-";
					threw = trk::faulted( [&] {
						I o = it - ( pos - to );
						sim::Disarmed d;
						at( o, to, "what - returned" );
					} );
				}
				break;
			case 10: {
				what = "looking";
				I other = make( to );
				if constexpr( C & DIFF )
					SIM_CHECK( other - it == to - pos and it - other == pos - to, "wrong-position", "%s: the distance from %td to %td is %td", who, pos, to, (ptrdiff_t)( other - it ) );
				if constexpr( C & ORDER )
					SIM_CHECK( ( it < other ) == ( pos < to ) and ( it > other ) == ( pos > to ) and ( it <= other ) == ( pos <= to ) and ( it >= other ) == ( pos >= to ), "wrong-answer", "%s: %td and %td are ordered the wrong way", who, pos, to );
				SIM_CHECK( ( it == other ) == ( pos == to ) and ( it != other ) == ( pos != to ), "wrong-answer", "%s: %td and %td compare the wrong way", who, pos, to );
				if constexpr( C & INDEX )
					if( readable( to ) )
						threw = trk::faulted( [&] {
							auto g = it[to - pos];
							SIM_CHECK( g == value( to ), "wrong-element", "%s: element [%td] is another", who, to - pos );
						} );
				break;
			}
			default:
				what = "reading";
				if( readable( pos ) )
					threw = trk::faulted( [&] {
						auto g = get( it );
						SIM_CHECK( g == value( pos ), "wrong-element", "%s: the element is another", who );
					} );
			}
			at( it, pos, threw ? "a step that threw" : what );
		}
	}
}
