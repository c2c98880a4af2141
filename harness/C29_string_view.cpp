// runtime: conc
// C29: a string view is a window on its text: cutting it loses nothing and shows nothing else.
#include "guarded.h"
#include "tracked.h"

#include <daw/daw_format_string_view.h>
#include <daw/daw_string_view.h>
#include <format>
#include <memory>
#include <ostream>
#include <streambuf>
#include <string>
#include <string_view>
#include <vector>

namespace sim {
	HarnessInfo const harness = {
	  "C29",
	  "A seeded run puts a text of one of five character types against inaccessible pages, with or without a terminator and with or without zero characters inside, and applies up to 24 cutting, popping, trimming, growing and copying operations to up to three views of it, with predicates that may throw; after each, every view and every piece handed out is compared with a window model, and a view that claims a terminator must have one. It also turns views into terminated strings, standard strings, formatted text and stream output with failing allocation and with streams that fill up or throw, in comparison with std::string_view. A run is non-trivial if a fault fired.",
	  "daw_string_view.h, daw_string_view_fwd.h, daw_format_string_view.h",
	  "operator new, predicates, output stream buffers",
	  1500000, 20000000, true };
}
namespace {
	constexpr size_t npos = (size_t)-1;
	template<typename CharT>
	struct Win {
		CharT const *p = nullptr;
		size_t n = 0;
		std::basic_string_view<CharT> sv( ) const { return n ? std::basic_string_view<CharT>( p, n ) : std::basic_string_view<CharT>( ); }
	};
	template<typename CharT>
	struct Bench {
		using V = daw::basic_string_view<CharT>;
		using S = std::basic_string_view<CharT>;
		using W = Win<CharT>;
		grd::Text<CharT> text;

		void same( V v, W &w, char const *what ) {
			SIM_CHECK( v.size( ) == w.n and v.length( ) == w.n and v.empty( ) == ( w.n == 0 ), "wrong-size", "after %s a view has %zu characters instead of %zu", what, v.size( ), w.n );
			CharT const *const d = v.data( );
			if( w.n == 0 ) {
				SIM_CHECK( d == nullptr or ( d >= text.lo and d <= text.hi ), "outside", "after %s an empty view points outside its text", what );
				w.p = d;
			}
			SIM_CHECK( d == w.p, "wrong-window", "after %s a view starts %td characters from where it should", what, d - w.p );
			SIM_CHECK( v.begin( ) == d and v.end( ) == d + w.n and v.cbegin( ) == d and v.cend( ) == d + w.n and v.data_end( ) == d + w.n, "wrong-window", "after %s iterators disagree with the data", what );
			if( v.is_zero_terminated( ) )
				SIM_CHECK( d == nullptr or ( d + w.n < text.hi and d[w.n] == CharT{ } ), "false-terminator", "after %s a view of %zu characters claims a terminator that is not there", what, w.n );
		}
		W sub( W w, size_t pos, size_t n ) { return { w.p + pos, std::min( n, w.n - pos ) }; }

		// what an until/while operation should leave and return
		struct Cut {
			W rest, piece;
			bool found;
		};
		static constexpr auto yes = true, no = false;
		Cut front( W w, size_t pos, size_t len ) {
			if( pos == npos )
				return { { w.p + w.n, 0 }, w, false };
			return { { w.p + pos + len, w.n - pos - len }, { w.p, pos }, true };
		}
		// the piece starts `len` after pos; the rest ends `keep` after pos
		Cut back( W w, size_t pos, size_t len, size_t keep ) {
			if( pos == npos )
				return { { w.p + w.n, 0 }, w, false };
			return { { w.p, pos + keep }, { w.p + pos + len, w.n - pos - len }, true };
		}
		void check( V v, W &w, V piece, Cut c, char const *what ) {
			w = c.rest;
			same( v, w, what );
			same( piece, c.piece, what );
		}
	};
	template<typename CharT>
	bool is_space( CharT c ) { return c == CharT( ' ' ) or c == CharT( '\t' ) or c == CharT( '\n' ) or c == CharT( '\v' ) or c == CharT( '\f' ) or c == CharT( '\r' ); }

	template<typename CharT>
	void cutting( ) {
		using B = Bench<CharT>;
		using V = typename B::V;
		using S = typename B::S;
		using W = typename B::W;
		sim::Disarmed d0;
		B b;
		b.text = grd::place<0, CharT>( 24, true );
		auto const &t = b.text;
		grd::Text<CharT> const nt = grd::place<1, CharT>( 2, true );
		V v[3];
		W w[3];
		auto fresh = [&]( int i ) {
			w[i] = { t.lo, t.n };
			char const *what = "making";
			switch( sim::choose( 8 ) ) {
			case 0: v[i] = V( t.lo, t.n ); break;
			case 1:
				if( t.zt )
					v[i] = V( t.lo, t.n, daw::sv2::zero_terminated );
				else
					v[i] = V( t.lo, t.n );
				break;
			case 2:
				if( t.zt ) {
					v[i] = V( (CharT const *)t.lo );
					w[i].n = std::char_traits<CharT>::length( t.lo );
					SIM_CHECK( (bool)v[i].is_zero_terminated( ), "lost-terminator", "a view made from a terminated string does not know" );
				} else
					v[i] = V( t.lo, t.lo + t.n );
				break;
			case 3: v[i] = V( S( t.lo, t.n ) ); break;
			case 4:
				if( t.zt )
					v[i] = V( t.lo, t.lo + t.n, daw::sv2::zero_terminated );
				else
					v[i] = V( t.lo, t.lo + t.n );
				break;
			case 5: {
				size_t const k = sim::choose( 30 );
				v[i] = V( S( t.lo, t.n ), k );
				w[i].n = std::min( k, t.n );
				break;
			}
			case 6: {
				size_t const k = sim::choose( (uint32_t)t.n + 1 );
				v[i] = V( S( t.lo, t.n ), k, daw::dont_clip_to_bounds );
				w[i].n = k;
				break;
			}
			default:
				v[i] = V{ };
				w[i] = { };
				what = "default construction";
			}
			b.same( v[i], w[i], what );
		};
		for( int i = 0; i < 3; ++i )
			fresh( i );
		for( int ops = 3 + (int)sim::choose( 22 ), k = 0; k < ops; ++k ) {
			int const i = (int)sim::choose( 3 );
			V &x = v[i];
			W &m = w[i];
			V const before = x;
			W const mb = m;
			size_t const cnt = sim::choose( 8 ) == 7 ? npos - sim::choose( 2 ) : sim::choose( (uint32_t)m.n + 3 );
			size_t const in = sim::choose( (uint32_t)m.n + 1 );
			CharT const c = grd::letter<CharT>( true );
			uint32_t const set = sim::choose( 4 );
			auto in_set = [set, c]( CharT q ) {
				switch( set ) {
				case 0: return q == c;
				case 1: return is_space( q );
				case 2: return q == CharT( 'a' ) or q == CharT( 'b' );
				default: return q != CharT( 'a' );
				}
			};
			auto pred = [in_set]( CharT q ) {
				sim::throw_point( trk::S_CALL );
				return in_set( q );
			};
			V const where( nt.lo, nt.n );
			S const swhere( nt.lo, nt.n );
			S const s = m.sv( );
			auto first_in = [&]( bool want ) {
				for( size_t j = 0; j < m.n; ++j )
					if( in_set( m.p[j] ) == want )
						return j;
				return npos;
			};
			auto last_in = [&]( bool want ) {
				for( size_t j = m.n; j > 0; --j )
					if( in_set( m.p[j - 1] ) == want )
						return j - 1;
				return npos;
			};
			// an operation with a predicate: if it throws nothing may have changed
			auto with_pred = [&]( auto &&f, char const *what ) {
				if( trk::faulted( f ) ) {
					SIM_CHECK( x.data( ) == before.data( ) and x.size( ) == before.size( ), "changed-by-throw", "%s changed the view although its predicate threw", what );
					return false;
				}
				return true;
			};
			uint32_t const op = sim::choose( 56 );
			switch( op ) {
			case 0:
				x.remove_prefix( cnt );
				m = b.sub( m, std::min( cnt, m.n ), npos );
				b.same( x, m, "remove_prefix(n)" );
				break;
			case 1:
				x.remove_prefix( );
				m = b.sub( m, m.n ? 1 : 0, npos );
				b.same( x, m, "remove_prefix()" );
				break;
			case 2:
				x.remove_suffix( cnt );
				m.n -= std::min( cnt, m.n );
				b.same( x, m, "remove_suffix(n)" );
				break;
			case 3:
				x.remove_suffix( );
				m.n -= m.n ? 1 : 0;
				b.same( x, m, "remove_suffix()" );
				break;
			case 4:
				x.remove_prefix_unsafe( in );
				m = b.sub( m, in, npos );
				b.same( x, m, "remove_prefix_unsafe(n)" );
				break;
			case 5:
				x.remove_suffix_unsafe( in );
				m.n -= in;
				b.same( x, m, "remove_suffix_unsafe(n)" );
				break;
			case 6:
				if( m.n ) {
					bool const f = sim::choose( 2 );
					CharT const got = sim::choose( 2 ) ? ( f ? x.pop_front( ) : x.pop_back( ) ) : ( f ? x.pop_front_unsafe( ) : x.pop_back_unsafe( ) );
					CharT const want = f ? m.p[0] : m.p[m.n - 1];
					SIM_CHECK( got == want, "wrong-character", "popping one character returned another" );
					m = f ? b.sub( m, 1, npos ) : b.sub( m, 0, m.n - 1 );
					b.same( x, m, "popping one character" );
				}
				break;
			case 7:
				if( m.n ) {
					if( sim::choose( 2 ) ) {
						x.remove_prefix_unsafe( );
						m = b.sub( m, 1, npos );
					} else {
						x.remove_suffix_unsafe( );
						--m.n;
					}
					b.same( x, m, "removing one character" );
				}
				break;
			case 8: {
				size_t const q = std::min( cnt, m.n );
				V const p = x.pop_front( cnt );
				b.check( x, m, p, { { m.p + q, m.n - q }, { m.p, q }, true }, "pop_front(n)" );
				break;
			}
			case 9: {
				size_t const q = std::min( cnt, m.n );
				V const p = x.pop_back( cnt );
				b.check( x, m, p, { { m.p, m.n - q }, { m.p + ( m.n - q ), q }, true }, "pop_back(n)" );
				break;
			}
			case 10: {
				V const p = x.pop_front_unsafe( in );
				b.check( x, m, p, { { m.p + in, m.n - in }, { m.p, in }, true }, "pop_front_unsafe(n)" );
				break;
			}
			case 11: {
				V const p = x.pop_back_unsafe( in );
				b.check( x, m, p, { { m.p, m.n - in }, { m.p + ( m.n - in ), in }, true }, "pop_back_unsafe(n)" );
				break;
			}
			case 12: {
				V const p = x.pop_front_until( where );
				b.check( x, m, p, b.front( m, s.find( swhere ), nt.n ), "pop_front_until(text)" );
				break;
			}
			case 13: {
				V const p = x.pop_front_until( where, daw::nodiscard );
				b.check( x, m, p, b.front( m, s.find( swhere ), 0 ), "pop_front_until(text, nodiscard)" );
				break;
			}
			case 14: {
				V const p = x.pop_front_until( c );
				b.check( x, m, p, b.front( m, s.find( c ), 1 ), "pop_front_until(char)" );
				break;
			}
			case 15: {
				V const p = x.pop_front_until( c, daw::nodiscard );
				b.check( x, m, p, b.front( m, s.find( c ), 0 ), "pop_front_until(char, nodiscard)" );
				break;
			}
			case 16: {
				V p;
				if( with_pred( [&] { p = x.pop_front_until( pred ); }, "pop_front_until" ) )
					b.check( x, m, p, b.front( m, first_in( true ), 1 ), "pop_front_until(predicate)" );
				break;
			}
			case 17: {
				V p;
				if( with_pred( [&] { p = x.pop_front_until( pred, daw::nodiscard ); }, "pop_front_until" ) )
					b.check( x, m, p, b.front( m, first_in( true ), 0 ), "pop_front_until(predicate, nodiscard)" );
				break;
			}
			case 18: {
				V const p = x.pop_front_while( c );
				b.check( x, m, p, b.front( m, s.find_first_not_of( c ), 0 ), "pop_front_while(char)" );
				break;
			}
			case 19: {
				V const p = x.pop_front_while( where );
				b.check( x, m, p, b.front( m, s.find_first_not_of( swhere ), 0 ), "pop_front_while(set)" );
				break;
			}
			case 20: {
				V p;
				if( with_pred( [&] { p = x.pop_front_while( pred ); }, "pop_front_while" ) )
					b.check( x, m, p, b.front( m, first_in( false ), 0 ), "pop_front_while(predicate)" );
				break;
			}
			case 21: {
				V const p = x.pop_back_until( where );
				b.check( x, m, p, b.back( m, s.rfind( swhere ), nt.n, 0 ), "pop_back_until(text)" );
				break;
			}
			case 22: {
				V const p = x.pop_back_until( where, daw::nodiscard );
				b.check( x, m, p, b.back( m, s.rfind( swhere ), nt.n, nt.n ), "pop_back_until(text, nodiscard)" );
				break;
			}
			case 23: {
				V const p = x.pop_back_until( c );
				b.check( x, m, p, b.back( m, s.rfind( c ), 1, 0 ), "pop_back_until(char)" );
				break;
			}
			case 24: {
				V const p = x.pop_back_until( c, daw::nodiscard );
				b.check( x, m, p, b.back( m, s.rfind( c ), 1, 1 ), "pop_back_until(char, nodiscard)" );
				break;
			}
			case 25: {
				V p;
				if( with_pred( [&] { p = x.pop_back_until( pred ); }, "pop_back_until" ) )
					b.check( x, m, p, b.back( m, last_in( true ), 1, 0 ), "pop_back_until(predicate)" );
				break;
			}
			case 26: {
				V p;
				if( with_pred( [&] { p = x.pop_back_until( pred, daw::nodiscard ); }, "pop_back_until" ) )
					b.check( x, m, p, b.back( m, last_in( true ), 0, 0 ), "pop_back_until(predicate, nodiscard)" ); // the character goes with the piece
				break;
			}
			case 27:
			case 28:
			case 29:
			case 30: {
				bool const keep = op & 1, txt = op > 28;
				V const p = txt ? ( keep ? x.try_pop_front_until( where, daw::nodiscard ) : x.try_pop_front_until( where ) )
				                : ( keep ? x.try_pop_front_until( c, daw::nodiscard ) : x.try_pop_front_until( c ) );
				auto cut = b.front( m, txt ? s.find( swhere ) : s.find( c ), keep ? 0 : txt ? nt.n : 1 );
				if( not cut.found )
					cut = { m, { }, false };
				b.check( x, m, p, cut, "try_pop_front_until" );
				break;
			}
			case 31:
			case 32: {
				V p;
				if( with_pred( [&] { p = op == 31 ? x.try_pop_front_until( pred ) : x.try_pop_front_until( pred, daw::nodiscard ); }, "try_pop_front_until" ) ) {
					auto cut = b.front( m, first_in( true ), op == 31 ? 1 : 0 );
					if( not cut.found )
						cut = { m, { }, false };
					b.check( x, m, p, cut, op == 31 ? "try_pop_front_until(predicate)" : "try_pop_front_until(predicate, nodiscard)" );
				}
				break;
			}
			case 33:
			case 34:
			case 35:
			case 36: {
				bool const keep = op & 1, txt = op > 34;
				V const p = txt ? ( keep ? x.try_pop_back_until( where, daw::nodiscard ) : x.try_pop_back_until( where ) )
				                : ( keep ? x.try_pop_back_until( c, daw::nodiscard ) : x.try_pop_back_until( c ) );
				size_t const len = txt ? nt.n : 1;
				auto cut = b.back( m, txt ? s.rfind( swhere ) : s.rfind( c ), len, keep ? len : 0 );
				if( not cut.found )
					cut = { m, { }, false };
				b.check( x, m, p, cut, txt ? keep ? "try_pop_back_until(text, nodiscard)" : "try_pop_back_until(text)" : keep ? "try_pop_back_until(char, nodiscard)" : "try_pop_back_until(char)" );
				break;
			}
			case 37:
			case 38: {
				V p;
				if( with_pred( [&] { p = op == 37 ? x.try_pop_back_until( pred ) : x.try_pop_back_until( pred, daw::nodiscard ); }, "try_pop_back_until" ) ) {
					auto cut = b.back( m, last_in( true ), 1, op == 37 ? 0 : 1 );
					if( not cut.found )
						cut = { m, { }, false };
					b.check( x, m, p, cut, op == 37 ? "try_pop_back_until(predicate)" : "try_pop_back_until(predicate, nodiscard)" );
				}
				break;
			}
			case 39:
			case 40:
			case 41:
			case 42: {
				bool const keep = op & 1, txt = op > 40;
				V &r = txt ? ( keep ? x.remove_prefix_until( where, daw::nodiscard ) : x.remove_prefix_until( where ) )
				           : ( keep ? x.remove_prefix_until( c, daw::nodiscard ) : x.remove_prefix_until( c ) );
				SIM_CHECK( &r == &x, "wrong-reference", "remove_prefix_until returned another view" );
				m = b.front( m, txt ? s.find( swhere ) : s.find( c ), keep ? 0 : txt ? nt.n : 1 ).rest;
				b.same( x, m, "remove_prefix_until" );
				break;
			}
			case 43:
			case 44:
				if( with_pred( [&] {
					    if( op == 43 )
						    x.remove_prefix_until( pred );
					    else
						    x.remove_prefix_until( pred, daw::nodiscard );
				    },
				               "remove_prefix_until" ) ) {
					m = b.front( m, first_in( true ), op == 43 ? 1 : 0 ).rest;
					b.same( x, m, "remove_prefix_until(predicate)" );
				}
				break;
			case 45:
				if( with_pred( [&] { x.remove_prefix_while( pred ); }, "remove_prefix_while" ) ) {
					m = b.front( m, first_in( false ), 0 ).rest;
					b.same( x, m, "remove_prefix_while(predicate)" );
				}
				break;
			case 46:
				if( with_pred( [&] { x.remove_suffix_while( pred ); }, "remove_suffix_while" ) ) {
					m.n = last_in( false ) + 1;
					b.same( x, m, "remove_suffix_while(predicate)" );
				}
				break;
			case 47:
				if( sim::choose( 2 ) ) {
					x.remove_prefix_while( c );
					m = b.front( m, s.find_first_not_of( c ), 0 ).rest;
					b.same( x, m, "remove_prefix_while(char)" );
				} else {
					x.remove_suffix_while( c );
					m.n = s.find_last_not_of( c ) + 1;
					b.same( x, m, "remove_suffix_while(char)" );
				}
				break;
			case 48: {
				size_t lo = 0, hi = m.n;
				bool const copy = sim::choose( 2 );
				uint32_t const which = sim::choose( 3 );
				if( which != 1 )
					while( lo < hi and is_space( m.p[lo] ) )
						++lo;
				if( which != 0 )
					while( hi > lo and is_space( m.p[hi - 1] ) )
						--hi;
				W r{ m.p + lo, hi - lo };
				if( copy ) {
					V const y = which == 0 ? std::as_const( x ).trim_prefix_copy( ) : which == 1 ? std::as_const( x ).trim_suffix_copy( ) : std::as_const( x ).trim_copy( );
					b.same( y, r, "a trimming copy" );
					b.same( x, m, "a trimming copy of it" );
				} else {
					V &y = which == 0 ? x.trim_prefix( ) : which == 1 ? x.trim_suffix( ) : x.trim( );
					SIM_CHECK( &y == &x, "wrong-reference", "trimming returned another view" );
					m = r;
					b.same( x, m, "trimming" );
				}
				break;
			}
			case 49:
				x.resize( in );
				m.n = in;
				b.same( x, m, "resize" );
				break;
			case 50: {
				size_t const pos = sim::choose( (uint32_t)m.n + 2 );
				W r;
				if( pos > m.n ) {
					bool threw = false;
					try {
						(void)x.substr( pos, cnt );
					} catch( std::out_of_range const & ) { threw = true; }
					SIM_CHECK( threw, "unchecked", "substr beyond the end did not throw" );
					break;
				}
				switch( sim::choose( 5 ) ) {
				case 0:
					r = b.sub( m, pos, cnt );
					b.same( x.substr( pos, cnt ), r, "substr(pos, n)" );
					break;
				case 1:
					r = b.sub( m, pos, npos );
					b.same( x.substr( pos ), r, "substr(pos)" );
					break;
				case 2:
					r = m;
					b.same( x.substr( ), r, "substr()" );
					break;
				case 3: {
					size_t const q = sim::choose( (uint32_t)( m.n - pos ) + 1 );
					r = b.sub( m, pos, q );
					b.same( x.substr_unsafe( pos, q ), r, "substr_unsafe(pos, n)" );
					break;
				}
				default:
					r = b.sub( m, pos, npos );
					b.same( x.substr_unsafe( pos ), r, "substr_unsafe(pos)" );
				}
				break;
			}
			case 51:
				if( m.p ) {
					if( sim::choose( 2 ) ) {
						size_t const q = sim::choose( (uint32_t)( m.p - t.lo ) + 1 );
						if( q == 1 and sim::choose( 2 ) )
							x.expand_prefix( );
						else
							x.expand_prefix( q );
						m = { m.p - q, m.n + q };
						b.same( x, m, "expand_prefix" );
					} else {
						size_t const q = sim::choose( (uint32_t)( t.lo + t.n - ( m.p + m.n ) ) + 1 );
						if( q == 1 and sim::choose( 2 ) )
							x.expand_suffix( );
						else
							x.expand_suffix( q );
						m.n += q;
						b.same( x, m, "expand_suffix" );
					}
				}
				break;
			case 52: {
				CharT out[40];
				for( auto &o : out )
					o = (CharT)'#';
				size_t const pos = sim::choose( 2 ) ? 0 : in;
				size_t const q = std::min<size_t>( cnt, 33 );
				size_t const want = std::min( q, m.n - pos );
				size_t const got = pos == 0 and sim::choose( 2 ) ? x.copy( out + 1, q ) : x.copy( out + 1, q, pos );
				SIM_CHECK( got == want, "wrong-size", "copy reported %zu characters instead of %zu", got, want );
				for( size_t j = 0; j < 40; ++j ) {
					CharT const e = j >= 1 and j <= want ? m.p[pos + j - 1] : (CharT)'#';
					SIM_CHECK( out[j] == e, "wrong-character", "copy left another character at %zu", j );
				}
				break;
			}
			case 53: {
				size_t const pos = sim::choose( 9 ) == 8 ? npos - sim::choose( 3 ) : sim::choose( (uint32_t)m.n + 2 );
				bool threw = false;
				try {
					CharT const &r = x.at( pos );
					SIM_CHECK( pos < m.n and &r == m.p + pos, "wrong-character", "at(%zu) of %zu led elsewhere", pos, m.n );
				} catch( std::out_of_range const & ) { threw = true; }
				SIM_CHECK( threw == ( pos >= m.n ), "unchecked", "at(%zu) of %zu characters %s", pos, m.n, threw ? "threw" : "did not throw" );
				if( m.n ) {
					size_t const j = sim::choose( (uint32_t)m.n );
					SIM_CHECK( &x[j] == m.p + j and &x.front( ) == m.p and &x.back( ) == m.p + m.n - 1, "wrong-character", "element access led elsewhere" );
					SIM_CHECK( &*x.rbegin( ) == m.p + m.n - 1 and &*( x.rend( ) - 1 ) == m.p and x.crend( ) - x.crbegin( ) == (ptrdiff_t)m.n, "wrong-window", "reverse iterators lead elsewhere" );
				}
				break;
			}
			case 54: {
				int const j = (int)sim::choose( 3 );
				if( sim::choose( 2 ) ) {
					x = v[j];
					m = w[j];
				} else {
					V const tmp( v[j] );
					v[j] = std::move( x );
					x = tmp;
					std::swap( w[j], m );
				}
				break;
			}
			default:
				switch( sim::choose( 4 ) ) {
				case 0:
					x.clear( );
					m.n = 0;
					b.same( x, m, "clear" );
					break;
				case 1:
					x.reset( );
					m = { };
					b.same( x, m, "reset" );
					break;
				case 2:
					if( m.p and m.p + m.n < t.hi and m.p[m.n] == CharT{ } ) {
						x.set_zero_terminated( );
						b.same( x, m, "set_zero_terminated" );
						SIM_CHECK( (bool)x.is_zero_terminated( ), "lost-terminator", "set_zero_terminated had no effect" );
						break;
					}
					[[fallthrough]];
				default: fresh( i );
				}
			}
			// the others are not affected
			for( int j = 0; j < 3; ++j )
				b.same( v[j], w[j], "an operation on some view" );
			(void)mb;
		}
	}

	// ---- text handed out
	template<typename CharT>
	struct Sink : std::basic_streambuf<CharT> {
		std::basic_string<CharT> got;
		int room;
		bool throws;
		Sink( int r, bool t )
		  : room( r )
		  , throws( t ) { got.reserve( 64 ); }
		using int_type = typename std::basic_streambuf<CharT>::int_type;
		int_type overflow( int_type c ) override {
			if( room == 0 ) {
				if( throws )
					throw sim::Injected{ 77 };
				return std::char_traits<CharT>::eof( );
			}
			--room;
			got.push_back( (CharT)c );
			return c;
		}
	};
	template<typename CharT>
	void streamed( daw::basic_string_view<CharT> v, std::basic_string_view<CharT> s ) {
		int const room = sim::choose( 2 ) ? 1000 : (int)sim::choose( 40 );
		bool const throws = sim::choose( 2 ), mask = sim::choose( 3 ) == 2;
		int const width = sim::choose( 2 ) ? 0 : (int)sim::choose( 40 );
		uint32_t const adj = sim::choose( 4 );
		CharT const fill = sim::choose( 2 ) ? (CharT)' ' : (CharT)'*';
		auto run = [&]( auto text, Sink<CharT> &sink, bool &good, int &left, bool &threw ) {
			std::basic_ostream<CharT> os( &sink );
			os.fill( fill );
			os.width( width );
			if( adj == 1 )
				os << std::left;
			else if( adj == 2 )
				os << std::right;
			else if( adj == 3 )
				os << std::internal;
			if( mask )
				os.exceptions( std::ios_base::badbit );
			try {
				auto &r = os << text;
				SIM_CHECK( &r == &os, "wrong-reference", "output returned another stream" );
			} catch( sim::Injected const & ) { threw = true; } catch( std::ios_base::failure const & ) {
				threw = true;
			}
			good = os.good( );
			left = (int)os.width( );
		};
		Sink<CharT> a( room, throws ), e( room, throws );
		bool ga = true, ge = true, ta = false, te = false;
		int la = 0, le = 0;
		run( v, a, ga, la, ta );
		run( s, e, ge, le, te );
		if( not ge )
			sim::throw_point( trk::S_CALL );
		SIM_CHECK( a.got == e.got, "wrong-output", "streaming %zu characters (width %d) put out %zu characters where %zu were due or others", v.size( ), width, a.got.size( ), e.got.size( ) );
		SIM_CHECK( ga == ge and ta == te, "wrong-state", "streaming %zu characters left a %s stream (width %d, room %d)%s", v.size( ), ga ? "good" : "failed", width, room, ta != te ? " and the exception was not passed on" : "" );
		if( ge )
			SIM_CHECK( la == 0, "wrong-state", "streaming left a width of %d", la );
	}
	template<typename CharT>
	void handing( ) {
		using V = daw::basic_string_view<CharT>;
		using S = std::basic_string_view<CharT>;
		using Str = std::basic_string<CharT>;
		sim::Disarmed d0;
		bool const zero = sim::choose( 4 ) == 3;
		int64_t const base = sim::live_allocs( );
		for( int rounds = 1 + (int)sim::choose( 4 ), k = 0; k < rounds; ++k ) {
			auto const t = grd::place<0, CharT>( sim::choose( 3 ) ? 24 : 40, zero );
			V v = t.zt and sim::choose( 2 ) ? V( t.lo, t.n, daw::sv2::zero_terminated ) : V( t.lo, t.n );
			if( t.n == 0 and sim::choose( 2 ) )
				v = V{ };
			S s( t.lo, t.n );
			if( sim::choose( 2 ) and t.n ) {
				size_t const a = sim::choose( (uint32_t)t.n + 1 );
				v.remove_prefix( a );
				s.remove_prefix( a );
			}
			if( sim::choose( 2 ) and s.size( ) ) {
				size_t const a = sim::choose( (uint32_t)s.size( ) + 1 );
				v.remove_suffix( a );
				s.remove_suffix( a );
			}
			switch( sim::choose( 6 ) ) {
			case 0:
			case 1: // a terminated copy, or the text itself
				if( s.find( CharT{ } ) != S::npos )
					break;
				trk::faulted( [&] {
					auto p = v.get_c_str( );
					sim::Disarmed d;
					auto see = [&]( CharT const *q, char const *what ) {
						SIM_CHECK( q != nullptr or s.empty( ), "wrong-character", "%s gave nothing", what );
						if( q )
							SIM_CHECK( S( q, s.size( ) ) == s and q[s.size( )] == CharT{ }, "wrong-character", "%s gave another text or no terminator", what );
					};
					see( p.c_str( ), "c_str" );
					see( p.data( ), "data" );
					see( p, "conversion" );
					SIM_CHECK( p.size( ) == s.size( ), "wrong-size", "a terminated copy has %zu characters instead of %zu", p.size( ), s.size( ) );
					if( v.is_zero_terminated( ) )
						SIM_CHECK( p.c_str( ) == v.data( ), "copied", "a terminated text was copied" );
					for( int j = 0; j < 2; ++j ) {
						Str out;
						bool const failed = trk::faulted( [&] { out = j == 0 and sim::choose( 2 ) ? std::as_const( p ).string( ) : p.string( ); } );
						if( not failed )
							SIM_CHECK( S( out ) == s, "wrong-character", "string() of a terminated copy gave another text the %s time", j ? "second" : "first" );
						see( p.c_str( ), "c_str after string()" );
					}
					Str out;
					if( not trk::faulted( [&] { out = std::move( p ).string( ); } ) )
						SIM_CHECK( S( out ) == s, "wrong-character", "string() of an expiring terminated copy gave another text" );
				} );
				break;
			case 2: {
				Str out( 3, (CharT)'q' );
				if( not trk::faulted( [&] { out = static_cast<Str>( v ); } ) )
					SIM_CHECK( S( out ) == s, "wrong-character", "conversion to a string gave another text" );
				S const y = static_cast<S>( v );
				SIM_CHECK( y == s, "wrong-character", "conversion to a standard view gave another text" );
				break;
			}
			case 3: { // from containers
				Str const str( s );
				V const a = str;
				SIM_CHECK( a.data( ) == str.data( ) and a.size( ) == s.size( ) and (bool)a.is_zero_terminated( ), "wrong-window", "a view of a string is not its text" );
				std::vector<CharT> const vec( s.begin( ), s.end( ) );
				V const c = vec;
				SIM_CHECK( c.size( ) == s.size( ) and ( s.empty( ) or c.data( ) == vec.data( ) ) and not( c.is_zero_terminated( ) and c.data( ) ), "wrong-window", "a view of a vector is not its text" );
				size_t const q = sim::choose( 44 );
				V const e( str, q );
				SIM_CHECK( e.data( ) == str.data( ) and e.size( ) == std::min( q, s.size( ) ), "wrong-window", "a clipped view of a string is not the start of its text" );
				if( e.is_zero_terminated( ) )
					SIM_CHECK( e.data( )[e.size( )] == CharT{ }, "false-terminator", "a clipped view of a string claims a terminator that is not there" );
				CharT lit[5] = { (CharT)'a', (CharT)'b', (CharT)'c', (CharT)'d', CharT{ } };
				if( sim::choose( 2 ) )
					lit[4] = (CharT)'e';
				CharT const( &cl )[5] = lit;
				V const f( cl );
				SIM_CHECK( f.data( ) == lit and f.size( ) == ( lit[4] == CharT{ } ? 4u : 5u ) and (bool)f.is_zero_terminated( ) == ( lit[4] == CharT{ } ), "wrong-window", "a view of an array is not its text" );
				V const g( cl, daw::sv2::not_zero_terminated );
				SIM_CHECK( g.data( ) == lit and g.size( ) == 5 and not g.is_zero_terminated( ), "wrong-window", "a view of a whole array is not the whole array" );
				break;
			}
			case 4:
				if constexpr( std::is_same_v<CharT, char> ) {
					if( s.find( CharT{ } ) != S::npos )
						break;
					std::string a, e;
					bool const bad = trk::faulted( [&] {
						switch( k % 3 ) {
						case 0: a = std::format( "{}", v ); break;
						case 1: a = std::format( "<{:*>30}>", v ); break;
						default: a = std::format( "{:.3}|", v );
						}
					} );
					switch( k % 3 ) {
					case 0: e = std::format( "{}", s ); break;
					case 1: e = std::format( "<{:*>30}>", s ); break;
					default: e = std::format( "{:.3}|", s );
					}
					if( not bad )
						SIM_CHECK( a == e, "wrong-output", "formatting gave another text" );
				}
				break;
			default:
				if constexpr( std::is_same_v<CharT, char> or std::is_same_v<CharT, wchar_t> )
					streamed<CharT>( v, s );
			}
		}
		SIM_CHECK( sim::live_allocs( ) == base, "leaked-memory", "%lld allocations were never freed", (long long)( sim::live_allocs( ) - base ) );
	}
} // namespace
SIM_SCENARIO( cutting, 4 ) {
	trk::standard_faults( );
	switch( sim::choose( 8 ) ) {
	default: return cutting<char>( );
	case 4: return cutting<wchar_t>( );
	case 5: return cutting<char16_t>( );
	case 6: return cutting<char32_t>( );
	case 7: return cutting<char8_t>( );
	}
}
SIM_SCENARIO( handing, 2 ) {
	sim::swarm( sim::D_ALLOC, { 0, 8000, 24000 } );
	switch( sim::choose( 6 ) ) {
	default: return handing<char>( );
	case 3: return handing<wchar_t>( );
	case 4: return handing<char16_t>( );
	case 5: return handing<char32_t>( );
	}
}
