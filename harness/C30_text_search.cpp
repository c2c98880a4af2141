// runtime: conc
// C30: searching and comparing views finds what is there, and looks at nothing else.
#include "guarded.h"
#include "tracked.h"

#include <compare>
#include <daw/daw_string_view.h>
#include <functional>
#include <initializer_list>
#include <string>
#include <string_view>

namespace sim {
	HarnessInfo const harness = {
	  "C30",
	  "A seeded run puts two or three texts of one of five character types against inaccessible pages and asks a view of one, from any position, for characters, texts, sets and predicates (which may throw), forwards and backwards, for prefixes, suffixes, orderings and hashes, and compares every answer with std::string_view or a written-out definition. A run is non-trivial if a fault fired.",
	  "daw_string_view.h, daw_algorithm_find.h, daw_fnv1a_hash.h, daw_bitset.h",
	  "predicates, comparison functions",
	  2000000, 30000000, true };
}
namespace {
	constexpr size_t npos = (size_t)-1;
	template<typename CharT>
	int order( std::basic_string_view<CharT> a, std::basic_string_view<CharT> b ) {
		for( size_t i = 0; i < a.size( ) and i < b.size( ); ++i ) {
			if( a[i] < b[i] )
				return -1;
			if( b[i] < a[i] )
				return 1;
		}
		return a.size( ) < b.size( ) ? -1 : a.size( ) > b.size( ) ? 1 : 0;
	}
	int sign( int x ) { return x < 0 ? -1 : x > 0; }

	template<typename CharT>
	void searching( ) {
		using V = daw::basic_string_view<CharT>;
		using S = std::basic_string_view<CharT>;
		sim::Disarmed d0;
		auto const th = grd::place<0, CharT>( sim::choose( 4 ) == 3 ? 70 : 20, true );
		auto const tn = grd::place<1, CharT>( sim::choose( 3 ) == 2 ? 20 : 3, true );
		auto const tz = grd::place<2, CharT>( 4, true );
		if( sim::choose( 2 ) and tn.n <= th.n ) { // plant it, perhaps at the very end
			size_t const at = sim::choose( 2 ) ? th.n - tn.n : sim::choose( (uint32_t)( th.n - tn.n ) + 1 );
			for( size_t i = 0; i < tn.n; ++i )
				th.lo[at + i] = tn.lo[i];
		}
		V h( th.lo, th.n ), n( tn.lo, tn.n ), z( tz.lo, tz.n );
		S sh( th.lo, th.n ), sn( tn.lo, tn.n ), sz( tz.lo, tz.n );
		if( sim::choose( 3 ) == 2 ) {
			size_t const a = sim::choose( (uint32_t)th.n + 1 );
			h.remove_prefix( a );
			sh.remove_prefix( a );
		}
		if( sim::choose( 3 ) == 2 ) {
			size_t const a = sim::choose( (uint32_t)sh.size( ) + 1 );
			h.remove_suffix( a );
			sh.remove_suffix( a );
		}
		if( sh.empty( ) and sim::choose( 4 ) == 3 )
			h = V{ };
		if( sn.empty( ) and sim::choose( 4 ) == 3 )
			n = V{ };
		for( int ops = 2 + (int)sim::choose( 14 ), k = 0; k < ops; ++k ) {
			CharT const c = grd::letter<CharT>( true );
			size_t const size = sh.size( );
			size_t const in = sim::choose( (uint32_t)size + 1 );
			size_t const any = sim::choose( 4 ) == 3 ? ( sim::choose( 2 ) ? npos - sim::choose( 3 ) : size + 1 + sim::choose( 4 ) ) : in;
			uint32_t const set = sim::choose( 4 );
			auto in_set = [set, c]( CharT q ) {
				switch( set ) {
				case 0: return q == c;
				case 1: return q == CharT( ' ' ) or q == CharT( '\n' );
				case 2: return q == CharT( 'a' ) or q == CharT( 'b' );
				default: return q != CharT( 'a' );
				}
			};
			auto pred = [&]( CharT q ) {
				sim::throw_point( trk::S_CALL );
				return in_set( q );
			};
			auto eq = [&]( size_t got, size_t want, char const *what ) {
				SIM_CHECK( got == want, "wrong-position", "%s in %zu characters (of %zu; position %zd) gave %zd instead of %zd", what, size, n.size( ), (ssize_t)any, (ssize_t)got, (ssize_t)want );
			};
			auto is = [&]( bool got, bool want, char const *what ) {
				SIM_CHECK( got == want, "wrong-answer", "%s of %zu and %zu characters was %s", what, size, n.size( ), got ? "true" : "false" );
			};
			bool const zt = tn.zt and sn.find( CharT{ } ) == npos; // the needle can be given as a pointer
			CharT const *const np = tn.lo;
			switch( sim::choose( 34 ) ) {
			case 0: eq( h.find( c, in ), sh.find( c, in ), "find(char, pos)" ); break;
			case 1: eq( h.find( c ), sh.find( c ), "find(char)" ); break;
			case 2: eq( h.find( n, any ), sh.find( sn, any ), "find(text, pos)" ); break;
			case 3: eq( h.find( n ), sh.find( sn ), "find(text)" ); break;
			case 4: eq( h.find( np, in, sn.size( ) ), sh.find( sn, in ), "find(pointer, pos, n)" ); break;
			case 5:
				if( zt )
					eq( h.find( np, in ), sh.find( sn, in ), "find(pointer, pos)" );
				break;
			case 6: eq( h.rfind( n, any ), sh.rfind( sn, any ), "rfind(text, pos)" ); break;
			case 7: eq( h.rfind( n ), sh.rfind( sn ), "rfind(text)" ); break;
			case 8:
				eq( h.rfind( c, any ), sh.rfind( c, any ), "rfind(char, pos)" );
				eq( h.rfind( np, any, sn.size( ) ), sh.rfind( sn, any ), "rfind(pointer, pos, n)" );
				break;
			case 9:
				if( zt )
					eq( h.rfind( np, any ), sh.rfind( sn, any ), "rfind(pointer, pos)" );
				break;
			case 10: eq( h.find_first_of( n, any ), sh.find_first_of( sn, any ), "find_first_of(set, pos)" ); break;
			case 11:
				eq( h.find_first_of( c, any ), sh.find_first_of( c, any ), "find_first_of(char, pos)" );
				eq( h.find_first_of( np, any, sn.size( ) ), sh.find_first_of( sn, any ), "find_first_of(pointer, pos, n)" );
				break;
			case 12:
				if( zt ) {
					eq( h.find_first_of( np, any ), sh.find_first_of( sn, any ), "find_first_of(pointer, pos)" );
					eq( h.find_first_of( np ), sh.find_first_of( sn ), "find_first_of(pointer)" );
				}
				break;
			case 13: eq( h.find_first_not_of( n, any ), sh.find_first_not_of( sn, any ), "find_first_not_of(set, pos)" ); break;
			case 14:
				eq( h.find_first_not_of( n ), sh.find_first_not_of( sn ), "find_first_not_of(set)" );
				eq( h.find_first_not_of( c ), sh.find_first_not_of( c ), "find_first_not_of(char)" );
				eq( h.find_first_not_of( c, any ), sh.find_first_not_of( c, any ), "find_first_not_of(char, pos)" );
				eq( h.find_first_not_of( np, any, sn.size( ) ), sh.find_first_not_of( sn, any ), "find_first_not_of(pointer, pos, n)" );
				break;
			case 15:
				if( zt ) {
					eq( h.find_first_not_of( np, any ), sh.find_first_not_of( sn, any ), "find_first_not_of(pointer, pos)" );
					eq( h.find_first_not_of( np ), sh.find_first_not_of( sn ), "find_first_not_of(pointer)" );
				}
				break;
			case 16: eq( h.find_last_of( n ), sh.find_last_of( sn ), "find_last_of(set)" ); break;
			case 17:
				eq( h.find_last_of( c ), sh.find_last_of( c ), "find_last_of(char)" );
				eq( h.find_last_of( np, npos, sn.size( ) ), sh.find_last_of( sn ), "find_last_of(pointer, npos, n)" );
				if( zt )
					eq( h.find_last_of( np ), sh.find_last_of( sn ), "find_last_of(pointer)" );
				break;
			case 18: eq( h.find_last_not_of( n, any ), sh.find_last_not_of( sn, any ), "find_last_not_of(set, pos)" ); break;
			case 19:
				eq( h.find_last_not_of( n ), sh.find_last_not_of( sn ), "find_last_not_of(set)" );
				eq( h.find_last_not_of( c ), sh.find_last_not_of( c ), "find_last_not_of(char)" );
				eq( h.find_last_not_of( c, any ), sh.find_last_not_of( c, any ), "find_last_not_of(char, pos)" );
				eq( h.find_last_not_of( np, any, sn.size( ) ), sh.find_last_not_of( sn, any ), "find_last_not_of(pointer, pos, n)" );
				break;
			case 20:
				if( zt ) {
					eq( h.find_last_not_of( np, any ), sh.find_last_not_of( sn, any ), "find_last_not_of(pointer, pos)" );
					eq( h.find_last_not_of( np ), sh.find_last_not_of( sn ), "find_last_not_of(pointer)" );
				}
				break;
			case 21: {
				size_t got = 0, want = npos;
				uint32_t const which = sim::choose( 6 );
				bool const from = sim::choose( 2 );
				if( trk::faulted( [&] {
					    switch( which ) {
					    case 0: got = from ? h.find_first_of_if( pred, any ) : h.find_first_of_if( pred ); break;
					    case 1: got = from ? h.find_first_not_of_if( pred, any ) : h.find_first_not_of_if( pred ); break;
					    case 2: got = h.find_last_of_if( pred ); break;
					    case 3: got = h.find_last_of_if( pred, npos ); break;
					    default: got = from ? h.find_last_not_of_if( pred, any ) : h.find_last_not_of_if( pred ); break;
					    }
				    } ) )
					break;
				if( which <= 1 ) {
					for( size_t i = from ? any : 0; i < size and want == npos; ++i )
						if( in_set( sh[i] ) == ( which == 0 ) )
							want = i;
				} else {
					size_t const lim = which > 3 and from and any < size ? any + 1 : size;
					for( size_t i = lim; i > 0 and want == npos; --i )
						if( in_set( sh[i - 1] ) == ( which <= 3 ) )
							want = i - 1;
				}
				eq( got, want, which == 0 ? "find_first_of_if" : which == 1 ? "find_first_not_of_if" : which <= 3 ? "find_last_of_if" : "find_last_not_of_if" );
				break;
			}
			case 22:
				if( not sn.empty( ) ) {
					eq( h.search( n ), sh.find( sn ), "search(text)" );
					eq( h.search( n, any ), sh.find( sn, any ), "search(text, pos)" );
					if( zt )
						eq( h.search( np, any ), sh.find( sn, any ), "search(pointer, pos)" );
				}
				break;
			case 23:
				if( not sn.empty( ) ) {
					size_t const last = sh.rfind( sn );
					eq( h.search_last( n ), last, "search_last(text)" );
					eq( h.search_last( n, any ), last == npos or last < any ? npos : last, "search_last(text, pos)" );
					if( zt )
						eq( h.search_last( np ), last, "search_last(pointer)" );
				}
				break;
			case 24:
			case 25: { // the first of several texts
				size_t want = std::min( { sh.find( sn, in ), sh.find( sz, in ) } );
				eq( sim::choose( 2 ) ? h.find_first_match( { n, z }, in ) : h.find_first_match( { z, n }, in ), want, "find_first_match(texts, pos)" );
				eq( h.find_first_match( { z } ), sh.find( sz ), "find_first_match(one text)" );
				S const ab = sh.substr( 0, std::min<size_t>( 2, size ) );
				want = std::min( want, ab.empty( ) ? in : sh.find( ab, in ) );
				eq( h.find_first_match( { n, V( ab.data( ), ab.size( ) ), z }, in ), want, "find_first_match(three texts, pos)" );
				break;
			}
			case 26: eq( h.find_first_match( n, in ), sh.find( sn, in ), "find_first_match(text, pos)" ); break;
			case 27:
				is( h.contains( n ), sh.find( sn ) != npos, "contains(text)" );
				is( h.contains( c, in ), sh.find( c, in ) != npos, "contains(char, pos)" );
				is( h.contains( c ), sh.find( c ) != npos, "contains(char)" );
				is( h.contains( np, in, sn.size( ) ), sh.find( sn, in ) != npos, "contains(pointer, pos, n)" );
				if( zt ) {
					is( h.contains( np, in ), sh.find( sn, in ) != npos, "contains(pointer, pos)" );
					is( h.contains( np ), sh.find( sn ) != npos, "contains(pointer)" );
				}
				break;
			case 28:
				is( h.starts_with( n ), sh.starts_with( sn ), "starts_with" );
				is( h.starts_with( c ), sh.starts_with( c ), "starts_with(char)" );
				is( h.ends_with( n ), sh.ends_with( sn ), "ends_with" );
				is( h.ends_with( c ), sh.ends_with( c ), "ends_with(char)" );
				if( zt ) {
					is( h.starts_with( np ), sh.starts_with( sn ), "starts_with(pointer)" );
					is( h.ends_with( np ), sh.ends_with( sn ), "ends_with(pointer)" );
				}
				break;
			case 29: { // parts that do match
				size_t const q = sim::choose( (uint32_t)size + 1 );
				is( h.starts_with( h.substr( 0, q ) ), true, "starts_with(own start)" );
				is( h.ends_with( h.substr( q ) ), true, "ends_with(own end)" );
				is( h.contains( h.substr( q ) ), true, "contains(own end)" );
				is( h.compare( h.substr( 0, q ) ) > 0, q < size, "compare with own start" );
				break;
			}
			case 30:
			case 31: {
				// the needle, or a near copy of the haystack
				std::basic_string<CharT> near( sh );
				if( sim::choose( 2 ) )
					near = sn;
				else if( near.size( ) and sim::choose( 2 ) )
					near[sim::choose( (uint32_t)near.size( ) )] = c;
				else if( near.size( ) and sim::choose( 2 ) )
					near.resize( sim::choose( (uint32_t)near.size( ) ) );
				V const x( near.data( ), near.size( ) );
				S const sx( near );
				int const want = order( sh, sx );
				auto cmp = [&]( int got, int w, char const *what ) { SIM_CHECK( sign( got ) == w, "wrong-order", "%s of %zu and %zu characters was %d instead of %d", what, size, sx.size( ), got, w ); };
				cmp( h.compare( x ), want, "compare" );
				cmp( V::compare( h, x ), want, "static compare" );
				cmp( h.compare( sx ), want, "compare with a standard view" );
				size_t const q = sim::choose( 24 ), q2 = sim::choose( 24 ), p2 = sim::choose( (uint32_t)sx.size( ) + 1 );
				cmp( h.compare( in, q, x ), order( sh.substr( in, q ), sx ), "compare of a part" );
				cmp( h.compare( in, q, x, p2, q2 ), order( sh.substr( in, q ), sx.substr( p2, q2 ) ), "compare of parts" );
				cmp( h.compare( in, q, near.data( ), std::min( q2, sx.size( ) ) ), order( sh.substr( in, q ), sx.substr( 0, q2 ) ), "compare of a part with a pointer" );
				if( near.find( CharT{ } ) == npos )
					cmp( h.compare( in, q, near.c_str( ) ), order( sh.substr( in, q ), sx ), "compare of a part with a terminated text" );
				is( h == x, want == 0, "==" );
				is( x == h, want == 0, "reversed ==" );
				is( h != x, want != 0, "!=" );
				is( h < x, want < 0, "<" );
				is( h <= x, want <= 0, "<=" );
				is( h > x, want > 0, ">" );
				is( h >= x, want >= 0, ">=" );
				is( ( h <=> x ) == ( want <=> 0 ), true, "<=>" );
				is( near == h, want == 0, "== with a string" );
				is( near != h, want != 0, "!= with a string" );
				is( sx == h, want == 0, "== with a standard view" );
				if( near.find( CharT{ } ) == npos ) {
					is( near.c_str( ) == h, want == 0, "== with a terminated text" );
					is( near.c_str( ) != h, want != 0, "!= with a terminated text" );
				}
				if( want == 0 )
					is( std::hash<V>{ }( h ) == std::hash<V>{ }( x ), true, "equal hashes of equal texts" );
				break;
			}
			case 32: {
				int got = 7;
				S const sx = sn;
				auto rev = [&]( CharT a, CharT b ) {
					sim::throw_point( trk::S_COMPARE );
					return b < a;
				};
				if( trk::faulted( [&] { got = sim::choose( 2 ) ? h.compare( n, rev ) : V::compare( h, n, rev ); } ) )
					break;
				int want = order( sh.substr( 0, sx.size( ) ), sx.substr( 0, size ) );
				want = want ? -want : size < sx.size( ) ? -1 : size > sx.size( );
				SIM_CHECK( sign( got ) == want, "wrong-order", "compare with a reversed order was %d instead of %d", got, want );
				break;
			}
			default: {
				bool threw = false;
				size_t const pos = size + 1 + sim::choose( 3 );
				try {
					(void)h.compare( pos, 3, n );
				} catch( std::out_of_range const & ) { threw = true; }
				SIM_CHECK( threw, "unchecked", "compare of a part that starts beyond the end did not throw" );
			}
			}
		}
	}
} // namespace
SIM_SCENARIO( searching, 1 ) {
	trk::standard_faults( );
	switch( sim::choose( 8 ) ) {
	default: return searching<char>( );
	case 4: return searching<wchar_t>( );
	case 5: return searching<char16_t>( );
	case 6: return searching<char32_t>( );
	case 7: return searching<char8_t>( );
	}
}
