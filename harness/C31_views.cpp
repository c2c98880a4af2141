// runtime: conc
// C31: a view of elements stays inside its window and in step with it, also when an element throws.
#include "guarded.h"
#include "tracked.h"

#include <csetjmp>
#include <exception>
#include <list>
#include <memory>
#include <new>
#include <span>
#include <stdexcept>
#include <string_view>
#include <vector>

#include <daw/daw_contiguous_view.h>
#include <daw/daw_exception.h>
#include <daw/daw_iter_view.h>
#include <daw/daw_span.h>
#include <daw/daw_span_writer.h>
#include <daw/daw_view.h>

namespace sim {
	HarnessInfo const harness = {
	  "C31",
	  "A seeded run puts elements against inaccessible pages or in a list and applies up to 16 operations (shrinking, growing back, popping elements and pieces, searching, sub-views, element access, comparison, copying) to up to two views of them, of each view type, with element copies and comparisons that may throw; after each, every view and piece is compared with a window model, and an element outside the window of the view in use must not be looked at. It also writes values, ranges and literals through span writers, with conversions that may throw and with writes that do not fit, which must stop the program before they touch anything (the stop is intercepted). A run is non-trivial if a fault fired.",
	  "daw_contiguous_view.h, wrap_iter.h, daw_span.h, daw_view.h, daw_iter_view.h, daw_span_writer.h, daw_ensure.h",
	  "element type, list nodes, the terminate handler",
	  4000000, 80000000, true };
}
namespace {
	constexpr size_t npos = (size_t)-1;
	constexpr int MAGIC = 0x5ce11;
	int g_lo, g_hi; // indices of the elements that may be looked at

	struct Cell {
		int v, idx, magic;
		Cell( ) noexcept
		  : v( 0 )
		  , idx( -1 )
		  , magic( MAGIC ) {}
		Cell( int value ) noexcept
		  : v( value )
		  , idx( -1 )
		  , magic( MAGIC ) {}
		Cell( int value, int index ) noexcept
		  : v( value )
		  , idx( index )
		  , magic( MAGIC ) {}
		void touch( char const *what ) const {
			SIM_CHECK( magic == MAGIC, "outside", "%s of memory that is not an element", what );
			SIM_CHECK( idx < 0 or ( idx >= g_lo and idx < g_hi ), "outside", "%s of element %d; the view shows [%d, %d)", what, idx, g_lo, g_hi );
		}
		Cell( Cell const &o )
		  : idx( -1 )
		  , magic( MAGIC ) {
			o.touch( "copy" );
			sim::throw_point( trk::S_COPY );
			v = o.v;
		}
		Cell &operator=( Cell const &o ) {
			o.touch( "copy" );
			touch( "assignment" );
			sim::throw_point( trk::S_CASSIGN );
			v = o.v;
			return *this;
		}
		friend bool operator==( Cell const &a, Cell const &b ) {
			a.touch( "comparison" );
			b.touch( "comparison" );
			sim::throw_point( trk::S_COMPARE );
			return a.v == b.v;
		}
		friend bool operator<( Cell const &a, Cell const &b ) {
			a.touch( "comparison" );
			b.touch( "comparison" );
			sim::throw_point( trk::S_COMPARE );
			return a.v < b.v;
		}
	};

	// an array of elements against an inaccessible page
	struct Arr {
		using It = Cell *;
		Cell *base;
		int n;
		Arr( ) {
			char *const page = grd::region<0>( );
			memset( page, 0x5a, grd::PAGE );
			n = (int)sim::choose( 9 );
			bool const at_start = sim::choose( 2 ) == 1;
			base = at_start ? (Cell *)page : (Cell *)( page + grd::PAGE ) - n;
			for( int i = 0; i < n; ++i )
				new( base + i ) Cell( (int)sim::choose( 3 ), i );
		}
		It at( int i ) { return base + i; }
		int value( int i ) { return base[i].v; }
	};
	// a list of elements
	struct Lst {
		using It = std::list<Cell>::iterator;
		std::list<Cell> l;
		int n;
		Lst( ) {
			n = (int)sim::choose( 9 );
			for( int i = 0; i < n; ++i )
				l.emplace_back( (int)sim::choose( 3 ), i );
		}
		It at( int i ) { return std::next( l.begin( ), i ); }
		int value( int i ) { return at( i )->v; }
	};

	struct W {
		int a = 0, b = 0;
		int size( ) const { return b - a; }
	};
	// what a kind of view offers
	enum : unsigned {
		DATA = 1,     // data(), reverse iteration through pointers
		BACK = 2,     // back(), remove_suffix, pop_back
		CLIP = 4,     // remove_prefix/suffix clip
		FIND = 8,     // find, until, while
		SUB = 16,     // subspan clips, never throws
		SUBTHROW = 32,// subspan throws past the end
		PIECES = 64,  // pop_front(n), pop_back(n)
		POPBACK = 128,// pop( T& ) takes the last
		POPFRONT = 256,
		AT = 512,
		PLAINCOPY = 1024,
		GROWF = 2048,
		GROWB = 4096,
		ORDER = 8192,
		REV = 16384,
		BYTES = 32768,
		ENDS = 65536, // front(), and back() with BACK
	};

	template<unsigned K, typename V, typename Src>
	struct Bench {
		Src &src;
		using It = typename Src::It;

		template<typename I>
		void walk( I f, I l, W w, int step, char const *what ) {
			int i = step > 0 ? w.a : w.b - 1;
			int k = 0;
			for( ; f != l; ++f, i += step, ++k ) {
				SIM_CHECK( k < w.size( ), "wrong-window", "after %s a view shows more than its %d elements", what, w.size( ) );
				SIM_CHECK( ( *f ).idx == i, "wrong-window", "after %s a view shows element %d where %d should be", what, ( *f ).idx, i );
			}
			SIM_CHECK( k == w.size( ), "wrong-window", "after %s a view shows %d elements instead of %d", what, k, w.size( ) );
		}
		template<typename X>
		void same( X &v, W w, char const *what ) {
			SIM_CHECK( v.size( ) == (size_t)w.size( ), "wrong-size", "after %s a view has %zd elements instead of %d", what, (ssize_t)v.size( ), w.size( ) );
			SIM_CHECK( v.empty( ) == ( w.size( ) == 0 ), "wrong-size", "after %s a view of %d elements is %sempty", what, w.size( ), v.empty( ) ? "" : "not " );
			auto const &c = std::as_const( v );
			walk( v.begin( ), v.end( ), w, 1, what );
			walk( c.begin( ), c.end( ), w, 1, what );
			walk( v.cbegin( ), v.cend( ), w, 1, what );
			if constexpr( ( K & REV ) != 0 ) {
				walk( v.rbegin( ), v.rend( ), w, -1, what );
				walk( c.rbegin( ), c.rend( ), w, -1, what );
				walk( v.crbegin( ), v.crend( ), w, -1, what );
			}
			if constexpr( ( K & BYTES ) != 0 )
				SIM_CHECK( v.size_bytes( ) == (size_t)w.size( ) * sizeof( Cell ), "wrong-size", "after %s size_bytes is wrong", what );
			if( w.size( ) == 0 )
				return;
			if constexpr( ( K & DATA ) != 0 )
				SIM_CHECK( v.data( ) == src.at( w.a ) and c.data( ) == src.at( w.a ), "wrong-window", "after %s data() is not the first element", what );
			if constexpr( ( K & ENDS ) != 0 )
				SIM_CHECK( v.front( ).idx == w.a and c.front( ).idx == w.a, "wrong-window", "after %s front() is not the first element", what );
			if constexpr( ( K & ENDS ) != 0 and ( K & BACK ) != 0 )
				SIM_CHECK( v.back( ).idx == w.b - 1 and c.back( ).idx == w.b - 1, "wrong-window", "after %s back() is not the last element", what );
		}
		int find( W w, int x, bool equal ) {
			int i = w.a;
			while( i < w.b and ( src.value( i ) == x ) != equal )
				++i;
			return i;
		}
		static void bound( W w ) {
			g_lo = w.a;
			g_hi = w.b;
		}

		template<typename X>
		void step( X &v, W &w, X &other, W &wo ) {
			bound( w );
			int const size = w.size( );
			size_t const in = sim::choose( (uint32_t)size + 1 );
			size_t const any = sim::choose( 3 ) == 2 ? ( sim::choose( 2 ) ? npos - sim::choose( 2 ) : (size_t)size + 1 + sim::choose( 3 ) ) : in;
			size_t const clipped = any < (size_t)size ? any : (size_t)size;
			int const x = (int)sim::choose( 4 );
			Cell const needle( x );
			bool const discard = sim::choose( 2 ) == 1;
			auto const &c = std::as_const( v );
			switch( sim::choose( 17 ) ) {
			case 0: // shrink at the front
				if( sim::choose( 2 ) and size > 0 ) {
					v.remove_prefix( );
					++w.a;
				} else {
					size_t const n = ( K & CLIP ) != 0 ? any : in;
					v.remove_prefix( n );
					w.a += (int)( ( K & CLIP ) != 0 ? clipped : in );
				}
				same( v, w, "remove_prefix" );
				break;
			case 1:
				if constexpr( ( K & BACK ) != 0 ) {
					if( sim::choose( 2 ) and size > 0 ) {
						v.remove_suffix( );
						--w.b;
					} else {
						size_t const n = ( K & CLIP ) != 0 ? any : in;
						v.remove_suffix( n );
						w.b -= (int)( ( K & CLIP ) != 0 ? clipped : in );
					}
					same( v, w, "remove_suffix" );
				}
				break;
			case 2:
				if constexpr( ( K & CLIP ) != 0 ) {
					v.remove_prefix( in, daw::dont_clip_to_bounds );
					w.a += (int)in;
					same( v, w, "remove_prefix without clipping" );
					if constexpr( ( K & BACK ) != 0 ) {
						size_t const m = sim::choose( (uint32_t)w.size( ) + 1 );
						v.remove_suffix( m, daw::dont_clip_to_bounds );
						w.b -= (int)m;
						same( v, w, "remove_suffix without clipping" );
					}
				}
				break;
			case 3:
				if constexpr( ( K & GROWF ) != 0 ) {
					int const m = (int)sim::choose( (uint32_t)w.a + 1 );
					if( m == 1 and sim::choose( 2 ) )
						v.add_prefix( );
					else
						v.add_prefix( (size_t)m );
					w.a -= m;
					same( v, w, "add_prefix" );
				}
				break;
			case 4:
				if constexpr( ( K & GROWB ) != 0 ) {
					int const m = (int)sim::choose( (uint32_t)( src.n - w.b ) + 1 );
					if( m == 1 and sim::choose( 2 ) )
						v.add_suffix( );
					else
						v.add_suffix( (size_t)m );
					w.b += m;
					same( v, w, "add_suffix" );
				}
				break;
			case 5: // one element off the front
				if( size > 0 ) {
					int got = -1;
					bool const threw = trk::faulted( [&] {
						Cell const e = v.pop_front( );
						got = e.v;
					} );
					if( not threw ) {
						SIM_CHECK( got == src.value( w.a ), "wrong-element", "pop_front gave %d instead of %d", got, src.value( w.a ) );
						++w.a;
					}
					same( v, w, threw ? "a pop_front that threw" : "pop_front" );
				}
				break;
			case 6:
				if constexpr( ( K & BACK ) != 0 ) {
					if( size > 0 ) {
						int got = -1;
						bool const threw = trk::faulted( [&] {
							Cell const e = v.pop_back( );
							got = e.v;
						} );
						if( not threw ) {
							SIM_CHECK( got == src.value( w.b - 1 ), "wrong-element", "pop_back gave %d instead of %d", got, src.value( w.b - 1 ) );
							--w.b;
						}
						same( v, w, threw ? "a pop_back that threw" : "pop_back" );
					}
				}
				break;
			case 7:
				if constexpr( ( K & ( POPBACK | POPFRONT ) ) != 0 ) {
					Cell out( 77 );
					bool got = false;
					bool const threw = trk::faulted( [&] { got = v.pop( out ); } );
					if( threw ) {
						SIM_CHECK( size > 0, "wrong-answer", "popping an empty view threw" );
					} else {
						SIM_CHECK( got == ( size > 0 ), "wrong-answer", "pop of a view of %d elements said %d", size, got );
						if( got ) {
							int const i = ( K & POPBACK ) != 0 ? w.b - 1 : w.a;
							SIM_CHECK( out.v == src.value( i ), "wrong-element", "pop gave %d instead of %d", out.v, src.value( i ) );
							if( ( K & POPBACK ) != 0 )
								--w.b;
							else
								++w.a;
						} else
							SIM_CHECK( out.v == 77, "wrong-element", "pop of an empty view wrote %d", out.v );
					}
					same( v, w, threw ? "a pop that threw" : "pop" );
				}
				break;
			case 8:
				if constexpr( ( K & PIECES ) != 0 ) {
					bool const front = sim::choose( 2 ) == 0;
					W piece = front ? W{ w.a, w.a + (int)clipped } : W{ w.b - (int)clipped, w.b };
					try {
						if( front ) {
							auto r = v.pop_front( any );
							w.a += (int)clipped;
							same( r, piece, "pop_front(n), the piece" );
						} else {
							auto r = v.pop_back( any );
							w.b -= (int)clipped;
							same( r, piece, "pop_back(n), the piece" );
						}
					} catch( std::out_of_range const & ) {
						SIM_CHECK( any > (size_t)size, "wrong-answer", "popping %zu of %d elements was refused", any, size );
					}
					same( v, w, "popping a piece" );
				}
				break;
			case 9:
				if constexpr( ( K & ( SUB | SUBTHROW ) ) != 0 ) {
					size_t const m = sim::choose( 2 ) ? sim::choose( 10 ) : npos - sim::choose( 3 );
					W p{ w.a + (int)clipped, 0 };
					p.b = p.a + (int)std::min( m, (size_t)( w.b - p.a ) );
					bool const no_count = sim::choose( 3 ) == 2;
					if( no_count )
						p.b = w.b;
					try {
						if( sim::choose( 2 ) ) {
							auto r = no_count ? v.subspan( any ) : v.subspan( any, m );
							SIM_CHECK( ( K & SUB ) or any <= (size_t)size, "wrong-answer", "a sub-view from %zd of %d elements was not refused", (ssize_t)any, size );
							same( r, p, "subspan, the part" );
						} else {
							auto r = no_count ? c.subspan( any ) : c.subspan( any, m );
							SIM_CHECK( ( K & SUB ) or any <= (size_t)size, "wrong-answer", "a sub-view from %zd of %d elements was not refused", (ssize_t)any, size );
							same( r, p, "subspan of a constant view, the part" );
						}
					} catch( std::out_of_range const & ) {
						SIM_CHECK( ( K & SUBTHROW ) and any > (size_t)size, "wrong-answer", "a sub-view from %zu of %d elements was refused", any, size );
					}
					same( v, w, "subspan" );
				}
				break;
			case 10: // element access
				if( size > 0 ) {
					int const i = (int)sim::choose( (uint32_t)size );
					SIM_CHECK( v[(size_t)i].idx == w.a + i and c[(size_t)i].idx == w.a + i, "wrong-element", "element %d of a view is another", i );
				}
				if constexpr( ( K & AT ) != 0 ) {
					for( int k = 0; k < 2; ++k ) {
						int got = -1;
						bool threw = false;
						try {
							got = k ? c.at( any ).idx : v.at( any ).idx;
						} catch( std::out_of_range const & ) {
							threw = true;
						}
						SIM_CHECK( threw == ( any >= (size_t)size ), "wrong-answer", "at(%zd) of %d elements %s", (ssize_t)any, size, threw ? "was refused" : "was not refused" );
						if( not threw )
							SIM_CHECK( got == w.a + (int)any, "wrong-element", "at(%zu) is another element", any );
					}
				}
				break;
			case 11:
				if constexpr( ( K & FIND ) != 0 ) {
					bool const until = sim::choose( 2 ) == 0;
					bool const constant = sim::choose( 2 ) == 0;
					int const want = find( w, x, until );
					int got = -2;
					auto where = [&]( auto it, auto last ) {
						if( it == last )
							got = w.b;
						else
							got = ( *it ).idx;
					};
					bool const threw = trk::faulted( [&] {
						if( until ) {
							if( constant )
								where( c.find( needle ), c.end( ) );
							else
								where( v.find( needle ), v.end( ) );
						} else {
							if( constant )
								where( c.find_first_not_of( needle ), c.end( ) );
							else
								where( v.find_first_not_of( needle ), v.end( ) );
						}
					} );
					if( not threw )
						SIM_CHECK( got == want, "wrong-position", "%s found element %d instead of %d", until ? "find" : "find_first_not_of", got, want );
					same( v, w, "find" );
				}
				break;
			case 12:
				if constexpr( ( K & FIND ) != 0 ) {
					bool const until = sim::choose( 2 ) == 0;
					int const want = find( w, x, until );
					void const *self = nullptr;
					bool const threw = trk::faulted( [&] {
						if( until )
							self = discard ? &v.remove_prefix_until( needle, daw::discard ) : &v.remove_prefix_until( needle );
						else
							self = discard ? &v.remove_prefix_while( needle, daw::discard ) : &v.remove_prefix_while( needle );
					} );
					if( not threw ) {
						SIM_CHECK( self == &v, "wrong-answer", "remove_prefix_until/while returned another view" );
						w.a = want + ( discard and want < w.b );
					}
					same( v, w, threw ? "a remove_prefix_until/while that threw" : discard ? "remove_prefix_until/while, discarding" : "remove_prefix_until/while" );
				}
				break;
			case 13:
				if constexpr( ( K & FIND ) != 0 ) {
					bool const until = sim::choose( 2 ) == 0;
					int const want = find( w, x, until );
					bool const threw = trk::faulted( [&] {
						auto r = until ? ( discard ? v.pop_front_until( needle, daw::discard ) : v.pop_front_until( needle ) )
						               : ( discard ? v.pop_front_while( needle, daw::discard ) : v.pop_front_while( needle ) );
						sim::Disarmed d;
						same( r, { w.a, want }, "pop_front_until/while, the piece" );
					} );
					if( not threw )
						w.a = want + ( discard and want < w.b );
					same( v, w, threw ? "a pop_front_until/while that threw" : discard ? "pop_front_until/while, discarding" : "pop_front_until/while" );
				}
				break;
			case 14: // another view of the same, or of a part
				if( sim::choose( 2 ) ) {
					other = v;
					wo = w;
				} else {
					X fresh( v );
					same( fresh, w, "copying a view" );
					other = std::move( fresh );
					wo = w;
				}
				same( other, wo, "assigning a view" );
				same( v, w, "being copied" );
				break;
			case 15: // a view of another part of the elements
				w.a = (int)sim::choose( (uint32_t)src.n + 1 );
				w.b = w.a + (int)sim::choose( (uint32_t)( src.n - w.a ) + 1 );
				v = X( src.at( w.a ), src.at( w.b ) );
				same( v, w, "assigning a new view" );
				break;
			default:
				if constexpr( ( K & ORDER ) != 0 ) {
					g_lo = std::min( w.size( ) ? w.a : wo.a, wo.size( ) ? wo.a : w.a );
					g_hi = std::max( w.size( ) ? w.b : wo.b, wo.size( ) ? wo.b : w.b );
					int want = 0;
					for( int i = 0; want == 0; ++i ) {
						if( i >= w.size( ) or i >= wo.size( ) ) {
							want = w.size( ) < wo.size( ) ? -1 : w.size( ) > wo.size( );
							break;
						}
						int const p = src.value( w.a + i ), q = src.value( wo.a + i );
						want = p < q ? -1 : p > q;
					}
					auto const &o = std::as_const( other );
					bool b = false, e = false;
					char const *what = "";
					uint32_t const op = sim::choose( 6 );
					bool const threw = trk::faulted( [&] {
						switch( op ) {
						case 0: b = c == o, e = want == 0, what = "=="; break;
						case 1: b = c != o, e = want != 0, what = "!="; break;
						case 2: b = c < o, e = want < 0, what = "<"; break;
						case 3: b = c > o, e = want > 0, what = ">"; break;
						case 4: b = c <= o, e = want <= 0, what = "<="; break;
						default: b = c >= o, e = want >= 0, what = ">="; break;
						}
					} );
					if( not threw )
						SIM_CHECK( b == e, "wrong-answer", "%s of views of %d and %d elements was %d", what, w.size( ), wo.size( ), b );
				}
				break;
			}
			same( other, wo, "an operation on another view" );
		}
		void run( ) {
			sim::Disarmed d0;
			g_lo = 0, g_hi = src.n;
			W w1{ 0, src.n }, w2{ 0, src.n };
			V v1( src.at( 0 ), src.at( src.n ) ), v2( src.at( 0 ), src.at( src.n ) );
			if constexpr( ( K & PLAINCOPY ) == 0 ) {
				if( sim::choose( 4 ) == 3 ) {
					v1 = V( src.at( 0 ), (size_t)src.n );
					same( v1, w1, "construction from a size" );
				}
			}
			same( v1, w1, "construction" );
			for( int k = 0, ops = 2 + (int)sim::choose( 15 ); k < ops; ++k ) {
				if( sim::choose( 3 ) == 2 )
					step( v2, w2, v1, w1 );
				else
					step( v1, w1, v2, w2 );
			}
			same( v1, w1, "everything" );
			same( v2, w2, "everything" );
		}
	};

	constexpr unsigned K_CONTIGUOUS = DATA | BACK | CLIP | FIND | SUB | AT | GROWF | GROWB | ORDER | REV;
	constexpr unsigned K_SPAN = ENDS | DATA | BACK | SUBTHROW | PIECES | POPBACK | AT | REV | BYTES;
	constexpr unsigned K_VIEW = ENDS | BACK | PIECES | POPFRONT | AT | PLAINCOPY;
	constexpr unsigned K_ITER = ENDS | CLIP | FIND | SUB | GROWF | ORDER;

	template<unsigned K, typename V, typename Src>
	void bench( ) {
		sim::Disarmed d0;
		Src s;
		Bench<K, V, Src>{ s }.run( );
	}
	void contiguous( ) {
		trk::standard_faults( );
		switch( sim::choose( 3 ) ) {
		case 0: bench<K_CONTIGUOUS | ENDS, daw::contiguous_view<Cell>, Arr>( ); break;
		case 1: bench<K_CONTIGUOUS, daw::contiguous_view<Cell const>, Arr>( ); break;
		default: bench<K_CONTIGUOUS | ENDS, daw::contiguous_view<Cell, true>, Arr>( ); break;
		}
	}
	void spans( ) {
		trk::standard_faults( );
		if( sim::choose( 2 ) )
			bench<K_SPAN, daw::span<Cell>, Arr>( );
		else
			bench<K_SPAN, daw::span<Cell const>, Arr>( );
	}
	void iterators( ) {
		trk::standard_faults( );
		switch( sim::choose( 4 ) ) {
		case 0: bench<K_VIEW | DATA | REV, daw::view<Cell *>, Arr>( ); break;
		case 1: bench<K_VIEW | REV, daw::view<std::list<Cell>::iterator>, Lst>( ); break;
		case 2: bench<K_ITER | REV, daw::iter_view<Cell *>, Arr>( ); break;
		default: bench<K_ITER | REV, daw::iter_view<std::list<Cell>::iterator>, Lst>( ); break;
		}
	}

	// Iterators that make their elements up, ending at a sentinel
	struct Made {
		using value_type = trk::Safe;
		using reference = trk::Safe;
		using pointer = void;
		using difference_type = std::ptrdiff_t;
		using iterator_category = std::forward_iterator_tag;
		int i = 0;
		trk::Safe operator*( ) const {
			SIM_CHECK( i >= g_lo and i < g_hi, "outside", "element %d was made; the view shows [%d, %d)", i, g_lo, g_hi );
			return trk::Safe( i % 3 );
		}
		Made &operator++( ) {
			++i;
			return *this;
		}
		Made operator++( int ) { return Made{ i++ }; }
		bool operator==( Made const & ) const = default;
	};
	void made( ) {
		trk::World world;
		trk::standard_faults( );
		sim::Disarmed d0;
		using V = daw::iter_view<Made>;
		W w{ 0, (int)sim::choose( 8 ) };
		V v( Made{ w.a }, Made{ w.b } );
		for( int k = 0, ops = 1 + (int)sim::choose( 8 ); k < ops; ++k ) {
			g_lo = w.a, g_hi = w.b;
			int const x = (int)sim::choose( 4 );
			bool const until = sim::choose( 2 ) == 1, discard = sim::choose( 2 ) == 1;
			int want = w.a;
			while( want < w.b and ( want % 3 == x ) != until )
				++want;
			auto const &c = std::as_const( v );
			bool threw = false;
			char const *what = "";
			switch( sim::choose( 5 ) ) {
			case 0:
				if( w.size( ) ) {
					int const i = (int)sim::choose( (uint32_t)w.size( ) );
					threw = trk::faulted( [&] {
						int const a = v[(size_t)i].val( ), b = v.front( ).val( );
						SIM_CHECK( a == ( w.a + i ) % 3 and b == w.a % 3, "wrong-element", "element %d of a view of made elements is another", i );
					} );
					what = "access";
				}
				break;
			case 1:
				if( w.size( ) ) {
					int const i = (int)sim::choose( (uint32_t)w.size( ) );
					threw = trk::faulted( [&] {
						int const a = c[(size_t)i].val( ), b = c.front( ).val( );
						SIM_CHECK( a == ( w.a + i ) % 3 and b == w.a % 3, "wrong-element", "element %d of a constant view of made elements is another", i );
					} );
					what = "access";
				}
				break;
			case 2:
				if( w.size( ) ) {
					threw = trk::faulted( [&] {
						auto const e = v.pop_front( );
						SIM_CHECK( e.val( ) == w.a % 3, "wrong-element", "pop_front of made elements gave %d", e.val( ) );
					} );
					if( not threw )
						++w.a;
					what = "pop_front";
				}
				break;
			case 3:
				threw = trk::faulted( [&] {
					trk::Safe const needle( x );
					if( sim::choose( 2 ) ) {
						Made const m = until ? v.find( needle ) : v.find_first_not_of( needle );
						SIM_CHECK( m.i == want, "wrong-position", "find among made elements gave %d instead of %d", m.i, want );
					} else {
						Made const m = until ? c.find( needle ) : c.find_first_not_of( needle );
						SIM_CHECK( m.i == want, "wrong-position", "find among made elements gave %d instead of %d", m.i, want );
					}
				} );
				what = "find";
				break;
			default:
				threw = trk::faulted( [&] {
					trk::Safe const needle( x );
					auto const r = until ? ( discard ? v.pop_front_until( needle, daw::discard ) : v.pop_front_until( needle ) )
					                     : ( discard ? v.pop_front_while( needle, daw::discard ) : v.pop_front_while( needle ) );
					SIM_CHECK( r.begin( ).i == w.a and r.end( ).i == want and r.size( ) == (size_t)( want - w.a ), "wrong-window", "a piece of made elements is [%d, %d)", r.begin( ).i, r.end( ).i );
				} );
				if( not threw )
					w.a = want + ( discard and want < w.b );
				what = "pop_front_until/while";
				break;
			}
			SIM_CHECK( v.size( ) == (size_t)w.size( ) and v.begin( ).i == w.a and v.end( ).i == w.b, "wrong-window", "after %s%s a view of made elements is [%d, %d) instead of [%d, %d)", what, threw ? " that threw" : "", v.begin( ).i, v.end( ).i, w.a, w.b );
		}
		world.end( );
	}

	// Views of containers
	void containers( ) {
		sim::Disarmed d0;
		g_lo = 0, g_hi = 1 << 20;
		std::vector<Cell> vec;
		int const n = (int)sim::choose( 6 );
		vec.reserve( 8 );
		for( int i = 0; i < n; ++i )
			vec.emplace_back( i, i );
		auto const &cv = vec;
		size_t const m = sim::choose( (uint32_t)n + 1 );
		Cell arr[3] = { Cell( 0, 0 ), Cell( 1, 1 ), Cell( 2, 2 ) };
		auto is = [&]( auto &&v, Cell const *p, size_t count, char const *what ) {
			SIM_CHECK( v.size( ) == count, "wrong-size", "%s has %zu elements instead of %zu", what, v.size( ), count );
			size_t k = 0;
			for( auto const &e : v ) {
				SIM_CHECK( &e == p + k, "wrong-window", "%s shows another element at %zu", what, k );
				++k;
			}
			SIM_CHECK( k == count, "wrong-window", "%s shows %zu elements instead of %zu", what, k, count );
		};
		is( daw::contiguous_view( vec ), vec.data( ), vec.size( ), "a contiguous view of a vector" );
		is( daw::contiguous_view( cv ), vec.data( ), vec.size( ), "a contiguous view of a constant vector" );
		is( daw::contiguous_view( vec, m ), vec.data( ), m, "a contiguous view of part of a vector" );
		is( daw::contiguous_view<Cell const>( vec ), vec.data( ), vec.size( ), "a constant contiguous view of a vector" );
		is( daw::contiguous_view( arr ), arr, 3, "a contiguous view of an array" );
		daw::contiguous_view<Cell> mv( vec.data( ), vec.size( ) );
		daw::contiguous_view<Cell const> const fromm( mv );
		is( fromm, vec.data( ), vec.size( ), "a constant view made from a mutable one" );
		is( static_cast<std::span<Cell const>>( fromm ), vec.data( ), vec.size( ), "a standard span made from a view" );
		is( daw::span<Cell>( vec ), vec.data( ), vec.size( ), "a span of a vector" );
		is( daw::span<Cell const>( cv ), vec.data( ), vec.size( ), "a constant span of a vector" );
		is( daw::span<Cell>( arr ), arr, 3, "a span of an array" );
		daw::span<Cell> ms( vec.data( ), m );
		daw::span<Cell const> const froms( ms );
		is( froms, vec.data( ), m, "a constant span made from a mutable one" );
		is( std::as_const( ms ).copy( ), vec.data( ), m, "copy() of a span" );
		is( daw::span<Cell>( vec.data( ) + m, vec.data( ) ), vec.data( ) + m, 0, "a span that ends before it starts" );
		is( daw::iter_view<std::vector<Cell>::iterator>( vec ), vec.data( ), vec.size( ), "an iterator view of a vector" );
		is( daw::iter_view( vec.data( ), (size_t)m ), vec.data( ), m, "an iterator view of a part" );
		is( daw::iter_view( arr ), arr, 3, "an iterator view of an array" );
		// iterators of contiguous views move like pointers
		auto const b = mv.begin( ), e = mv.end( );
		SIM_CHECK( e - b == (ptrdiff_t)vec.size( ) and b + (ptrdiff_t)vec.size( ) == e and e - (ptrdiff_t)vec.size( ) == b and (ptrdiff_t)vec.size( ) + b == e, "wrong-position", "iterator arithmetic disagrees with itself" );
		if( n > 0 ) {
			ptrdiff_t const i = (ptrdiff_t)sim::choose( (uint32_t)n );
			auto it = b;
			it += i;
			SIM_CHECK( it.base( ) == vec.data( ) + i and &*it == vec.data( ) + i and it.operator->( ) == vec.data( ) + i and &b[i] == vec.data( ) + i, "wrong-position", "an iterator moved by %td is elsewhere", i );
			auto const old = it++;
			SIM_CHECK( old.base( ) == vec.data( ) + i and it - old == 1 and old < it and it > old and old != it and ( old <=> it ) < 0, "wrong-position", "++ of an iterator moved it elsewhere" );
			auto const nw = it--;
			SIM_CHECK( nw.base( ) == vec.data( ) + i + 1 and it == old and ++it == nw and --it == old and ( it += 1 ) == nw and ( it -= 1 ) == old, "wrong-position", "-- of an iterator moved it elsewhere" );
			daw::contiguous_view<Cell>::const_iterator const ci = it;
			SIM_CHECK( ci.base( ) == it.base( ), "wrong-position", "a constant iterator made from an iterator is elsewhere" );
		}
	}

	// ---- writers --------------------------------------------------------
	std::jmp_buf g_back;
	bool g_expect;
	void on_terminate( ) {
		if( g_expect ) {
			g_expect = false;
			std::longjmp( g_back, 1 );
		}
		abort( );
	}
	// true if f stopped the program (nothing with a destructor may be alive in f then)
	template<typename F>
	__attribute__( ( noinline ) ) bool stopped( F &f ) {
		auto *const prev = std::set_terminate( on_terminate );
		bool volatile s = true;
		if( setjmp( g_back ) == 0 ) {
			g_expect = true;
			f( );
			s = false;
		}
		g_expect = false;
		std::set_terminate( prev );
		return s;
	}
	struct Conv { // converts, or throws
		int v;
		explicit operator Cell( ) const {
			sim::throw_point( trk::S_VALUE );
			return Cell( v );
		}
	};
	template<size_t... I>
	void write_values( daw::span_writer<Cell> &w, Conv const *c, std::index_sequence<I...> ) {
		w.write( c[I]... );
	}
	template<size_t... I>
	std::span<Cell> put_values( std::span<Cell> s, Conv const *c, std::index_sequence<I...> ) {
		return daw::write_to_span( s, c[I]... );
	}
	void writing( ) {
		sim::Disarmed d0;
		trk::standard_faults( );
		Arr dst;
		int model[9];
		for( int i = 0; i < dst.n; ++i )
			model[i] = dst.base[i].v;
		std::span<Cell> all( dst.base, (size_t)dst.n ), s = all;
		daw::span_writer<Cell> wr( all );
		if( sim::choose( 3 ) == 2 ) {
			size_t const n = sim::choose( (uint32_t)dst.n + 1 );
			wr = daw::span_writer<Cell>( all, n );
			s = all.first( n );
		}
		size_t const left = s.size( );
		size_t at = 0;
		Cell src[6];
		for( int k = 0, ops = 1 + (int)sim::choose( 8 ); k < ops; ++k ) {
			g_lo = (int)at, g_hi = (int)left;
			bool const w = sim::choose( 2 ) == 1;
			size_t const n = sim::choose( 6 );
			Conv c[5];
			for( auto &x : c )
				x.v = 10 + (int)sim::choose( 50 );
			for( auto &x : src )
				x.v = 100 + (int)sim::choose( 50 );
			bool const fits = n <= left - at;
			bool threw = false;
			std::span<Cell> rest;
			uint32_t const op = sim::choose( 6 );
			auto const before = wr;
			auto run = [&] {
				threw = trk::faulted( [&] {
					switch( op ) {
					case 0:
					case 1:
						switch( n ) {
#define N_VALUES( N ) \
						case N: \
							if( w ) \
								write_values( wr, c, std::make_index_sequence<N>{ } ); \
							else \
								rest = put_values( s, c, std::make_index_sequence<N>{ } ); \
							break
							N_VALUES( 0 );
							N_VALUES( 1 );
							N_VALUES( 2 );
							N_VALUES( 3 );
							N_VALUES( 4 );
							N_VALUES( 5 );
						}
						break;
					case 2: {
						std::span<Cell const> const r( src, n );
						if( w )
							wr.write( r );
						else
							rest = daw::write_to_span( s, r );
						break;
					}
					case 3:
						switch( n ) {
#define N_LITERAL( N, L ) \
						case N: \
							if( w ) \
								wr.write_ntz( L ); \
							else \
								rest = daw::write_to_span_ntz( s, L ); \
							break
							N_LITERAL( 0, "" );
							N_LITERAL( 1, "k" );
							N_LITERAL( 2, "kl" );
							N_LITERAL( 3, "klm" );
							N_LITERAL( 4, "klmn" );
							N_LITERAL( 5, "klmno" );
						}
						break;
					case 4: wr.remove_prefix( n ); break;
					default: {
						auto const sub = wr.subspan( n );
						SIM_CHECK( sub.size( ) == left - at - n and ( sub.size( ) == 0 or sub.data( ) == dst.base + at + n ), "wrong-window", "subspan(%zu) of a writer is elsewhere", n );
					}
					}
				} );
			};
			bool const stop = stopped( run );
			SIM_CHECK( stop == not fits, "wrong-answer", "operation %u of %zu elements into %zu %s", op, n, left - at, stop ? "was refused" : "was not refused" );
			if( stop ) { // nothing may have changed
				wr = before;
				for( int i = 0; i < dst.n; ++i )
					SIM_CHECK( dst.base[i].v == model[i], "wrong-element", "a write that was refused changed element %d", i );
				return;
			}
			size_t const done = op < 4 ? n : 0;
			if( threw ) {
				// some of the new elements may be there, nothing else, and the window has not moved
				for( size_t i = 0; i < n; ++i ) {
					int const v = dst.base[at + i].v;
					int const want = op < 2 ? c[i].v : op == 2 ? src[i].v : "klmno"[i];
					SIM_CHECK( v == want or v == model[at + i], "wrong-element", "after a write that threw element %zu is %d", at + i, v );
					model[at + i] = v;
				}
			} else {
				for( size_t i = 0; i < done; ++i )
					model[at + i] = op < 2 ? c[i].v : op == 2 ? src[i].v : "klmno"[i];
				if( op < 4 ) {
					if( w )
						s = s.subspan( n );
					else {
						SIM_CHECK( rest.size( ) == left - at - n and rest.data( ) == dst.base + at + n, "wrong-window", "a write of %zu elements returned the wrong rest", n );
						s = rest;
						wr.remove_prefix( n );
					}
					at += n;
				} else if( op == 4 ) {
					s = s.subspan( n );
					at += n;
				}
			}
			for( int i = 0; i < dst.n; ++i )
				SIM_CHECK( dst.base[i].v == model[i], "wrong-element", "after operation %u of %zu elements, element %d is %d instead of %d", op, n, i, dst.base[i].v, model[i] );
			auto const &cw = wr;
			SIM_CHECK( wr.size( ) == left - at and cw.data( ) == dst.base + at and wr.data( ) == dst.base + at and wr.begin( ) == wr.data( ) and wr.end( ) == dst.base + left and cw.begin( ) == wr.begin( ) and cw.end( ) == wr.end( ), "wrong-window", "after operation %u a writer is at %td with %zu left instead of at %zu with %zu", op, wr.data( ) - dst.base, wr.size( ), at, left - at );
			size_t const i = sim::choose( 10 );
			Cell const *p = nullptr;
			bool const constant = sim::choose( 2 ) == 1;
			auto look = [&] { p = constant ? &cw[i] : &wr[i]; };
			SIM_CHECK( stopped( look ) == ( i >= left - at ), "wrong-answer", "element %zu of %zu left %s", i, left - at, p ? "was given" : "was refused" );
			if( p )
				SIM_CHECK( p == dst.base + at + i, "wrong-element", "element %zu of a writer is another", i );
		}
	}
} // namespace
SIM_SCENARIO( view_contiguous, 3 ) { contiguous( ); }
SIM_SCENARIO( view_spans, 3 ) { spans( ); }
SIM_SCENARIO( view_iterators, 3 ) { iterators( ); }
SIM_SCENARIO( view_made, 1 ) { made( ); }
SIM_SCENARIO( view_containers, 1 ) { containers( ); }
SIM_SCENARIO( view_writing, 2 ) { writing( ); }
