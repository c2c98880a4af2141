// runtime: conc
// C33: iterator adaptors go where they say, and lose nothing when something throws.
#include "tracked.h"
#include "walk.h"

#include <algorithm>
#include <array>
#include <deque>
#include <list>
#include <memory>
#include <numeric>
#include <ostream>
#include <set>
#include <stdexcept>
#include <streambuf>
#include <string>
#include <string_view>
#include <vector>

#include <daw/iterator/InputIterator.h>
#include <daw/iterator/daw_argument_iterator.h>
#include <daw/iterator/daw_back_inserter.h>
#include <daw/iterator/daw_checked_iterator_proxy.h>
#include <daw/iterator/daw_chunk_iterator.h>
#include <daw/iterator/daw_circular_iterator.h>
#include <daw/iterator/daw_counting_iterators.h>
#include <daw/iterator/daw_end_inserter.h>
#include <daw/iterator/daw_find_iterator.h>
#include <daw/iterator/daw_find_one_iterator.h>
#include <daw/iterator/daw_function_iterator.h>
#include <daw/iterator/daw_indexed_iterator.h>
#include <daw/iterator/daw_inserter.h>
#include <daw/iterator/daw_integer_iterator.h>
#include <daw/iterator/daw_iota_iterator.h>
#include <daw/iterator/daw_output_stream_iterator.h>
#include <daw/iterator/daw_pointer_iterator.h>
#include <daw/iterator/daw_random_iterator.h>
#include <daw/iterator/daw_repeat_n_char_iterator.h>
#include <daw/iterator/daw_reverse_iterator.h>
#include <daw/iterator/daw_sorted_insert_iterator.h>
#include <daw/iterator/daw_zipiter.h>

namespace sim {
	HarnessInfo const harness = {
	  "C33",
	  "A seeded run walks an iterator adaptor over a sequence of up to 12 elements with up to 24 steps in either direction, comparing place, element, distance and order with a model after each, or keeps up to three type-erased iterators, or writes through output iterators into containers, functions and streams. Iterators, elements, predicates, comparisons and streams throw and allocations fail. A run is non-trivial if a fault fired.",
	  "iterator/*.h (InputIterator, argument, back/end/sorted inserter, checked proxy, chunk, circular, counting, find, find_one, function, indexed, integer, iota, output stream, pointer, random, repeat_n_char, reverse, zip)",
	  "operator new, element, iterator, predicate and comparison types, stream buffer",
	  2500000, 50000000, true };
}
namespace {
	enum { S_STEP = 40, S_DEREF, S_PRED, S_STREAM };

	// An iterator over an array that may throw when stepped or dereferenced.
	template<bool Throws>
	struct It {
		using value_type = int;
		using reference = int &;
		using pointer = int *;
		using difference_type = std::ptrdiff_t;
		using iterator_category = std::random_access_iterator_tag;
		int *p = nullptr;
		static void step( ) {
			if constexpr( Throws )
				sim::throw_point( S_STEP );
		}
		int &operator*( ) const {
			if constexpr( Throws )
				sim::throw_point( S_DEREF );
			return *p;
		}
		int *operator->( ) const { return &**this; }
		int &operator[]( difference_type n ) const { return *( *this + n ); }
		It &operator++( ) {
			step( );
			++p;
			return *this;
		}
		It operator++( int ) {
			It r = *this;
			++*this;
			return r;
		}
		It &operator--( ) {
			step( );
			--p;
			return *this;
		}
		It operator--( int ) {
			It r = *this;
			--*this;
			return r;
		}
		It &operator+=( difference_type n ) {
			step( );
			p += n;
			return *this;
		}
		It &operator-=( difference_type n ) {
			step( );
			p -= n;
			return *this;
		}
		friend It operator+( It i, difference_type n ) { return i += n; }
		friend It operator+( difference_type n, It i ) { return i += n; }
		friend It operator-( It i, difference_type n ) { return i -= n; }
		friend difference_type operator-( It const &a, It const &b ) { return a.p - b.p; }
		friend bool operator==( It const &a, It const &b ) { return a.p == b.p; }
		friend auto operator<=>( It const &a, It const &b ) { return a.p <=> b.p; }
	};

	struct Source {
		size_t n;
		std::unique_ptr<int[]> d; // exactly as large as needed, so a step too far is reported
		explicit Source( size_t n_ )
		  : n( n_ )
		  , d( new int[n_] ) {
			for( size_t i = 0; i < n; ++i )
				d[i] = 100 + (int)i;
		}
	};

	auto const star = []( auto &i ) { return *i; };
	auto const both = []( auto &i ) { // * and -> name the same element
		auto &&r = *i;
		SIM_CHECK( &*i.operator->( ) == &r, "wrong-element", "* and -> name different elements" );
		return r;
	};

	template<bool Throws>
	void over_array( ) {
		sim::Disarmed d0;
		using B = It<Throws>;
		size_t const n = sim::choose( 13 );
		Source s( n );
		ptrdiff_t const N = (ptrdiff_t)n;
		int *const d = s.d.get( );
		auto const val = [&]( ptrdiff_t p ) { return 100 + (int)p; };
		auto const inside = [&]( ptrdiff_t p ) { return p >= 0 and p < N; };
		switch( sim::choose( 9 ) ) {
		case 0: {
			using I = daw::reverse_iterator<B>;
			return walk<BACK | RANDOM | DIFF | ORDER | INDEX | POSTBACK | NPLUS, I>( "reverse_iterator", 0, N, [&]( ptrdiff_t p ) { return I( B{ d + ( N - p ) } ); }, [&]( ptrdiff_t p ) { return 100 + (int)( N - 1 - p ); }, inside, star );
		}
		case 1: {
			using I = daw::forward_counting_iterator<B>;
			I c{ B{ d } };
			for( ptrdiff_t p = 0; p < N; ++p ) {
				SIM_CHECK( c.distance( ) == p and *c == val( p ), "wrong-position", "a counting iterator counted %td instead of %td", c.distance( ), p );
				bool const threw = trk::faulted( [&] {
					if( sim::choose( 2 ) )
						++c;
					else
						c++;
				} );
				if( threw )
					--p;
			}
			SIM_CHECK( c.distance( ) == N and c == B{ d + N } and not( c != B{ d + N } ), "wrong-position", "a counting iterator counted %td instead of %td", c.distance( ), N );
			return walk<0, I>( "forward_counting_iterator", 0, N, [&]( ptrdiff_t p ) { return I( B{ d + p } ); }, val, inside, star );
		}
		case 2: {
			using I = daw::bidirectional_counting_iterator<B>;
			I c{ B{ d } };
			ptrdiff_t p = 0;
			for( int k = 0; k < 20; ++k ) {
				bool const up = p < N and ( p == 0 or sim::choose( 2 ) );
				if( not up and p == 0 )
					break;
				bool const threw = trk::faulted( [&] {
					if( up ) {
						if( sim::choose( 2 ) )
							++c;
						else
							c++;
					} else {
						if( sim::choose( 2 ) )
							--c;
						else
							c--;
					}
				} );
				if( not threw )
					p += up ? 1 : -1;
				SIM_CHECK( c.distance( ) == p and c == B{ d + p }, "wrong-position", "a counting iterator counted %td instead of %td", c.distance( ), p );
			}
			return walk<BACK | POSTBACK, I>( "bidirectional_counting_iterator", 0, N, [&]( ptrdiff_t q ) { return I( B{ d + q } ); }, val, inside, star );
		}
		case 3: {
			using I = daw::chunk_iterator<B>;
			ptrdiff_t const c = 1 + sim::choose( 4 ), chunks = N / c;
			return walk<BACK | RANDOM | DIFF | ORDER | POSTBACK | NPLUS, I>( "chunk_iterator", 0, chunks, [&]( ptrdiff_t p ) { return I( B{ d + p * c }, (size_t)c ); }, [&]( ptrdiff_t p ) { return val( p * c ); }, [&]( ptrdiff_t p ) { return p < chunks; }, [&]( I &i ) {
				int const r = *i;
				SIM_CHECK( i[(size_t)c - 1] == r + (int)c - 1 and &*i.operator->( ) == &*i, "wrong-element", "a chunk has another last element" );
				return r;
			} );
		}
		case 4: {
			using I = daw::zip_iterator<B, B>;
			Source t( n );
			std::vector<int> const o( t.d.get( ), t.d.get( ) + n );
			int *const e = t.d.get( );
			ptrdiff_t pos = sim::choose( (uint32_t)n + 1 );
			I it( B{ d + pos }, B{ e + pos } );
			for( int k = 0, ops = 1 + (int)sim::choose( 16 ); k < ops; ++k ) {
				bool threw = false;
				ptrdiff_t to = pos;
				switch( sim::choose( 5 ) ) {
				case 0: if( pos < N ) { ++to; threw = trk::faulted( [&] { ++it; } ); } break;
				case 1: if( pos > 0 ) { --to; threw = trk::faulted( [&] { --it; } ); } break;
				case 2: if( pos < N ) { ++to; threw = trk::faulted( [&] { it++; } ); } break;
				case 3: if( pos > 0 ) { --to; threw = trk::faulted( [&] { it--; } ); } break;
				default: to = sim::choose( (uint32_t)n + 1 ); threw = trk::faulted( [&] { it.advance( to - pos ); } );
				}
				if( threw ) { // each part where it was or where it was going
					for( B const &b : { std::get<0>( it.as_tuple( ) ), B{ d + ( daw::get<1>( it ).p - e ) } } )
						SIM_CHECK( b.p - d >= std::min( pos, to ) and b.p - d <= std::max( pos, to ), "wrong-position", "a zip iterator that threw is somewhere else" );
					it = I( B{ d + to }, B{ e + to } );
				}
				pos = to;
				I const there( B{ d + pos }, B{ e + pos } );
				SIM_CHECK( it == there and not( it != there ) and daw::get<0>( it ).p == d + pos and it.template get<1>( ).p == e + pos, "wrong-position", "a zip iterator is not at place %td", pos );
				if( pos < N ) {
					auto [x, y] = *it;
					SIM_CHECK( &x == d + pos and &y == e + pos, "wrong-element", "a zip iterator names another element" );
				}
			}
			return;
		}
		case 5: {
			// an element is at most once passed over, whatever throws
			auto const even = []( int x ) {
				sim::throw_point( S_PRED );
				return x % 2 == 0;
			};
			for( size_t i = 0; i < n; ++i )
				d[i] = (int)sim::choose( 4 );
			std::vector<int> want, got;
			for( size_t i = 0; i < n; ++i )
				if( d[i] % 2 == 0 )
					want.push_back( (int)i );
			using I = decltype( daw::find_iterator( B{ d }, B{ d + n }, even ) );
			std::unique_ptr<I> p;
			for( int tries = 0; not p; ++tries ) {
				if( tries > 5 )
					p.reset( new I( B{ d }, B{ d + n }, even ) );
				else
					(void)trk::faulted( [&] { p.reset( new I( B{ d }, B{ d + n }, even ) ); } );
			}
			for( int k = 0; *p != p->end( ) and k < 40; ) {
				B const b = p->raw_begin( );
				SIM_CHECK( k < (int)n and **p == *b and b.p < d + n, "wrong-element", "a find iterator names another element" );
				if( got.empty( ) or got.back( ) != (int)( b.p - d ) )
					got.push_back( (int)( b.p - d ) );
				bool const threw = trk::faulted( [&] {
					if( sim::choose( 2 ) )
						++*p;
					else
						( *p )++;
				} );
				if( not threw )
					++k;
				else
					SIM_CHECK( p->raw_begin( ) == b, "wrong-position", "a find iterator whose predicate threw has moved" );
			}
			SIM_CHECK( got == want, "wrong-element", "a find iterator stopped at %zu elements instead of %zu", got.size( ), want.size( ) );
			return;
		}
		case 6: {
			for( size_t i = 0; i < n; ++i )
				d[i] = (int)sim::choose( 8 );
			auto const is = []( int m ) {
				return [m]( int x ) {
					sim::throw_point( S_PRED );
					return x == m;
				};
			};
			auto const f1 = is( 1 );
			auto const f2 = [f = is( 2 )]( int x ) { return f( x ); };
			auto const f3 = [f = is( 3 )]( int x ) { return f( x ); };
			auto const big = [&]( ) { return daw::find_one_iterator( B{ d }, B{ d + n }, f1, f2, f3 ); };
			std::vector<std::pair<int, int>> want, got;
			for( size_t i = 0; i < n; ++i )
				if( d[i] >= 1 and d[i] <= 3 )
					want.emplace_back( (int)i, d[i] - 1 );
			auto it = big( );
			for( int k = 0; it != it.end( ) and k < 40; ) {
				B const b = it.raw_begin( );
				auto const e = *it;
				SIM_CHECK( e.value == *b, "wrong-element", "a find_one iterator names another element" );
				SIM_CHECK( it->index == e.index and it->value == e.value, "wrong-element", "* and -> of a find_one iterator differ" );
				if( got.empty( ) or got.back( ).first != (int)( b.p - d ) )
					got.emplace_back( (int)( b.p - d ), (int)e.index );
				bool const threw = trk::faulted( [&] {
					if( sim::choose( 2 ) )
						++it;
					else
						it++;
				} );
				if( not threw )
					++k;
				else
					SIM_CHECK( it.raw_begin( ) == b and ( *it ).index == e.index, "wrong-position", "a find_one iterator whose predicate threw has moved" );
			}
			SIM_CHECK( got == want, "wrong-element", "a find_one iterator stopped at %zu elements instead of %zu, or said the wrong filter", got.size( ), want.size( ) );
			return;
		}
		case 7: {
			// every combination of checks
			bool const ci = sim::choose( 2 ), cd = sim::choose( 2 ), cr = sim::choose( 2 );
			auto it = daw::make_checked_iterator_proxy( B{ d }, B{ d + n }, ci, cd, cr );
			using I = decltype( it );
			ptrdiff_t pos = 0;
			for( int k = 0, ops = 1 + (int)sim::choose( 20 ); k < ops; ++k ) {
				bool refused = false, threw = false, stop = false;
				uint32_t const op = sim::choose( 5 );
				bool const up = op < 2, down = op == 2 or op == 3;
				if( ( up and pos == N and not ci ) or ( down and pos == 0 and not cd ) or ( op == 4 and pos == N and not cr ) )
					continue; // nothing is promised
				threw = trk::faulted( [&] {
					try {
						switch( op ) {
						case 0: ++it; break;
						case 1: {
							I o = it++;
							sim::Disarmed x;
							SIM_CHECK( o == B{ d + pos }, "wrong-position", "checked proxy: postfix ++ returned another place" );
							break;
						}
						case 2: --it; break;
						case 3: {
							I o = it--;
							sim::Disarmed x;
							SIM_CHECK( o == B{ d + pos }, "wrong-position", "checked proxy: postfix -- returned another place" );
							break;
						}
						default: {
							int *const p = &*it, *const q = it.operator->( ), *const r = (int *)&*std::as_const( it );
							SIM_CHECK( p == d + pos and q == p and r == p, "wrong-element", "checked proxy names another element" );
						}
						}
					} catch( std::out_of_range const & ) {
						refused = true;
					}
				} );
				stop = ( up and pos == N ) or ( down and pos == 0 ) or ( op == 4 and pos == N );
				if( not threw ) {
					SIM_CHECK( refused == stop, "wrong-answer", "checked proxy: a step at %td of %td was %srefused", pos, N, refused ? "" : "not " );
					if( not refused )
						pos += up ? 1 : down ? -1 : 0;
				}
				I const other = daw::make_checked_iterator_proxy( B{ d + pos }, B{ d + n } );
				SIM_CHECK( it == B{ d + pos } and not( it != B{ d + pos } ) and it == other and not( it != other ), "wrong-position", "checked proxy: it is not at place %td", pos );
			}
			return;
		}
		default: {
			// another type of the same adaptor in the same program
			std::vector<int> v( d, d + n );
			auto a = daw::make_checked_iterator_proxy( v.cbegin( ), v.cend( ) );
			int sum = 0;
			for( ; a != v.cend( ); ++a )
				sum += *a - 99;
			SIM_CHECK( sum == (int)( n * ( n + 1 ) / 2 ), "wrong-element", "checked proxy: passed over an element" );
			if( n == 0 )
				return;
			int ( *const odd )( int ) = []( int x ) -> int { return x % 2; };
			int count = 0;
			for( auto f = daw::find_iterator( B{ d }, B{ d + n }, odd ); f != f.end( ); ++f )
				++count;
			SIM_CHECK( count == (int)n / 2, "wrong-element", "a find iterator with a function stopped %d times", count );
		}
		}
	}

	void over_values( ) {
		sim::Disarmed d0;
		size_t const n = sim::choose( 13 );
		ptrdiff_t const N = (ptrdiff_t)n;
		Source s( n );
		int *const d = s.d.get( );
		auto const val = [&]( ptrdiff_t p ) { return 100 + (int)p; };
		auto const inside = [&]( ptrdiff_t p ) { return p >= 0 and p < N; };
		switch( sim::choose( 9 ) ) {
		case 0: {
			using I = daw::pointer_iterator<int>;
			if( n )
				walk<BACK | RANDOM | DIFF | ORDER | INDEX | POSTBACK, I>( "pointer_iterator", 0, N, [&]( ptrdiff_t p ) { return I( d + p ); }, val, inside, both );
			return;
		}
		case 1: {
			using I = daw::RandomIterator<int>;
			return walk<BACK | RANDOM | DIFF | ORDER | POSTBACK, I>( "RandomIterator", 0, N, [&]( ptrdiff_t p ) { return daw::make_random_iterator( d + p ); }, val, inside, both );
		}
		case 2: {
			std::vector<int> v( d, d + n );
			if( n == 0 )
				return;
			using I = daw::circular_iterator<std::vector<int>>;
			// going round: place p + k * size is place p
			I it = daw::make_circular_iterator( v, v.begin( ) );
			ptrdiff_t pos = 0;
			for( int k = 0, ops = 1 + (int)sim::choose( 24 ); k < ops; ++k ) {
				ptrdiff_t const j = (ptrdiff_t)sim::choose( (uint32_t)( 6 * n ) ) - 3 * N;
				switch( sim::choose( 8 ) ) {
				case 0: ++it, ++pos; break;
				case 1: it++, ++pos; break;
				case 2: --it, --pos; break;
				case 3: it--, --pos; break;
				case 4: it += j, pos += j; break;
				case 5: it -= j, pos -= j; break;
				case 6: it = it + j, pos += j; break;
				default: it = it - j, pos -= j; break;
				}
				pos = ( pos % N + N ) % N;
				SIM_CHECK( &*it == &v[(size_t)pos], "wrong-element", "a circular iterator over %zu elements is not at place %td", n, pos );
				SIM_CHECK( &*it.operator->( ) == &*it, "wrong-element", "* and -> of a circular iterator differ" );
				I const there = daw::make_circular_iterator( v, v.begin( ) + pos );
				SIM_CHECK( it == there and not( it != there ) and it - daw::make_circular_iterator( v ) == pos and it < it.end( ) and it.end( ) > it and it <= there and it >= there, "wrong-position", "a circular iterator is not at place %td", pos );
			}
			return;
		}
		case 3: {
			std::vector<int> v( d, d + n );
			using I = decltype( daw::ibegin( v ) );
			walk<BACK | RANDOM | ORDER | POSTBACK, I>( "indexed_iterator", 0, N, [&]( ptrdiff_t p ) { return I( &v, (size_t)p ); }, val, inside, both );
			SIM_CHECK( std::accumulate( daw::ibegin( v ), daw::iend( v ), 0 ) == std::accumulate( d, d + n, 0 ) and daw::iend( v ) - daw::ibegin( v ) == N and daw::cibegin( v ) + N == daw::ciend( v ) and daw::ibegin( v ).next( N ) == daw::iend( v ) and daw::iend( v ).prev( N ) == daw::ibegin( v ), "wrong-position", "an indexed range has other ends" );
			return;
		}
		case 4: {
			std::vector<std::string> text;
			std::vector<char const *> argv;
			for( size_t i = 0; i < n; ++i )
				text.push_back( std::string( i % 4, 'a' ) + (char)( 'A' + i ) );
			for( auto &t : text )
				argv.push_back( t.c_str( ) );
			argv.push_back( nullptr );
			using I = daw::arg_iterator_t;
			I const first( (int)n, argv.data( ) );
			walk<BACK | RANDOM | DIFF | ORDER | POSTBACK, I>( "arg_iterator_t", 0, N, [&]( ptrdiff_t p ) { return first + p; }, [&]( ptrdiff_t p ) { return (int)text[(size_t)p].size( ) * 100 + (int)p; }, inside, []( I &i ) {
				std::string_view const v = *i;
				return (int)v.size( ) * 100 + v.back( ) - 'A';
			} );
			I const e = I::end( );
			for( ptrdiff_t p = 0; p <= N; ++p ) {
				I const i = first + p;
				SIM_CHECK( ( i == e ) == ( p == N ) and ( i != e ) == ( p != N ) and ( e == i ) == ( p == N ) and i.at_end( ) == ( p == N ) and (bool)i == ( p < N ), "wrong-position", "argument %td of %td is%s at the end", p, N, p == N ? " not" : "" );
				SIM_CHECK( e - i == N - p and i - e == p - N, "wrong-position", "from argument %td of %td the end is %td away", p, N, e - i );
				SIM_CHECK( ( i < e ) == ( p < N ) and ( e > i ) == ( p < N ) and i <= e and e >= i and not( e < i ), "wrong-answer", "argument %td of %td is ordered the wrong way to the end", p, N );
				for( ptrdiff_t q = -1; q <= N; ++q ) {
					bool refused = false;
					std::string_view got;
					try {
						got = i.at( q - p );
					} catch( std::out_of_range const & ) {
						refused = true;
					}
					SIM_CHECK( refused == not inside( q ), "wrong-answer", "argument %td of %td was %srefused", q, N, refused ? "" : "not " );
					if( not refused )
						SIM_CHECK( got == text[(size_t)q] and i[q - p] == got, "wrong-element", "argument %td is another", q );
				}
			}
			return;
		}
		case 5: {
			using I = daw::iota_iterator<int>;
			int const start = (int)sim::choose( 20 ) - 10, step = 1 + (int)sim::choose( 4 );
			// place of the value start + step * p
			return [&] {
				ptrdiff_t pos = 0;
				I it( start, step );
				for( int k = 0, ops = 1 + (int)sim::choose( 24 ); k < ops; ++k ) {
					int const j = (int)sim::choose( 12 ) - 6;
					switch( sim::choose( 8 ) ) {
					case 0: ++it, ++pos; break;
					case 1: SIM_CHECK( *it++ == start + step * (int)pos, "wrong-element", "postfix ++ of iota gave another number" ); ++pos; break;
					case 2: --it, --pos; break;
					case 3: it--, --pos; break;
					case 4: it += j, pos += j; break;
					case 5: it -= j, pos -= j; break;
					case 6: it = it + j, pos += j; break;
					default: it = it - j, pos -= j; break;
					}
					SIM_CHECK( *it == start + step * (int)pos and it[j] == start + step * ( (int)pos + j ) and it - I( start, step ) == pos, "wrong-element", "iota from %d by %d is at %d instead of %d", start, step, *it, start + step * (int)pos );
					I const o = it + j;
					SIM_CHECK( ( it < o ) == ( 0 < j ) and ( it > o ) == ( 0 > j ) and ( it <= o ) == ( 0 <= j ) and ( it >= o ) == ( 0 >= j ), "wrong-answer", "iota orders %d and %d the wrong way", *it, *o );
				}
			}( );
		}
		case 6: {
			unsigned const a = sim::choose( 10 ), b = a + sim::choose( 10 ), step = 1 + sim::choose( 3 );
			unsigned expect = a;
			for( unsigned x : daw::iota_range<unsigned>( a, b, (int)step ) ) {
				SIM_CHECK( x == expect and x < b, "wrong-element", "an unsigned range has %u instead of %u", x, expect );
				expect += step;
			}
			SIM_CHECK( expect >= b, "wrong-size", "an unsigned range from %u to %u by %u ended at %u", a, b, step, expect );
			int c = (int)a - 5;
			for( auto x : daw::integer_range<int>( (int)a - 5, (int)b ) ) {
				SIM_CHECK( x == c, "wrong-element", "an integer range has %d instead of %d", x, c );
				++c;
			}
			SIM_CHECK( c == (int)b, "wrong-size", "an integer range ended at %d", c );
			daw::integer_range_iterator<int> i( (int)a );
			SIM_CHECK( *i++ == (int)a and *i == (int)a + 1, "wrong-element", "postfix ++ of an integer range iterator gave another number" );
			return;
		}
		case 7: {
			using I = daw::repeat_n_char_iterator<char>;
			walk<BACK | RANDOM | DIFF | POSTBACK, I>( "repeat_n_char_iterator", 0, N, [&]( ptrdiff_t p ) { return I( (size_t)( N - p ), 'x' ); }, []( ptrdiff_t ) { return (int)'x'; }, inside, []( I &i ) { return (int)*i; } );
			std::string t;
			for( auto i = I( n, 'y' ); i != daw::repeat_n_char_end( ); ++i )
				t += *i;
			SIM_CHECK( t == std::string( n, 'y' ), "wrong-size", "a character was repeated %zu times instead of %zu", t.size( ), n );
			return;
		}
		default: {
			using I = daw::reverse_iterator<int *>;
			return walk<BACK | RANDOM | DIFF | ORDER | INDEX | POSTBACK | NPLUS, I>( "reverse_iterator of pointers", 0, N, [&]( ptrdiff_t p ) { return I( d + ( N - p ) ); }, [&]( ptrdiff_t p ) { return 100 + (int)( N - 1 - p ); }, inside, both );
		}
		}
	}

	// ---- type-erased iterators --------------------------------------------
	template<int Size>
	struct Held { // an iterator that is alive as long as it says, and may throw when copied
		using value_type = int;
		using reference = int const &;
		using pointer = int const *;
		using difference_type = std::ptrdiff_t;
		using iterator_category = std::forward_iterator_tag;
		trk::CopyOnly pos;
		int const *base;
		int pad[Size]{ };
		Held( int const *b, int p )
		  : pos( p )
		  , base( b ) {}
		reference operator*( ) const { return base[pos.val( )]; }
		pointer operator->( ) const { return base + pos.val( ); }
		Held &operator++( ) {
			sim::throw_point( S_STEP );
			pos.set( pos.val( ) + 1 );
			return *this;
		}
		friend bool operator==( Held const &a, Held const &b ) { return a.base + a.pos.val( ) == b.base + b.pos.val( ); }
		friend bool operator!=( Held const &a, Held const &b ) { return not( a == b ); }
	};
	void erased( ) {
		trk::World world;
		{
			sim::Disarmed d0;
			int const n = 1 + (int)sim::choose( 8 );
			Source s( (size_t)n );
			int *const d = s.d.get( );
			using I = daw::InputIterator<int>;
			struct Model {
				int kind, pos; // kind 0: nothing (moved from)
			};
			auto const make = [&]( int kind, int pos ) {
				return kind == 1 ? I( Held<1>( d, pos ) ) : kind == 2 ? I( Held<200>( d, pos ) ) : I( (int const *)d + pos );
			};
			std::array<Model, 3> m{ };
			std::array<std::unique_ptr<I>, 3> it;
			for( int i = 0; i < 3; ++i ) {
				m[(size_t)i] = { 1 + (int)sim::choose( 3 ), (int)sim::choose( (uint32_t)n + 1 ) };
				it[(size_t)i] = std::make_unique<I>( make( m[(size_t)i].kind, m[(size_t)i].pos ) );
			}
			auto const check = [&]( char const *what ) {
				for( size_t i = 0; i < 3; ++i ) {
					if( m[i].kind == 0 )
						continue;
					if( m[i].pos < n )
						SIM_CHECK( **it[i] == 100 + m[i].pos and it[i]->operator->( ) == d + m[i].pos, "wrong-element", "after %s a type-erased iterator is at %d instead of %d", what, **it[i], 100 + m[i].pos );
					for( size_t j = 0; j < 3; ++j ) {
						if( m[j].kind == 0 )
							continue;
						bool const same = m[i].kind == m[j].kind;
						SIM_CHECK( it[i]->are_same_base_iterator_type( *it[j] ) == same, "wrong-answer", "after %s two type-erased iterators are%s said to be of one type", what, same ? " not" : "" );
						if( same )
							SIM_CHECK( ( *it[i] == *it[j] ) == ( m[i].pos == m[j].pos ) and ( *it[i] != *it[j] ) == ( m[i].pos != m[j].pos ), "wrong-answer", "after %s two type-erased iterators compare the wrong way", what );
					}
				}
			};
			check( "construction" );
			for( int k = 0, ops = 1 + (int)sim::choose( 20 ); k < ops; ++k ) {
				size_t const a = sim::choose( 3 ), b = sim::choose( 3 );
				bool const va = m[a].kind != 0, vb = m[b].kind != 0;
				bool threw = false;
				char const *what = "";
				switch( sim::choose( 8 ) ) {
				case 0:
					what = "copy assignment";
					if( vb ) {
						threw = trk::faulted( [&] { *it[a] = *it[b]; } );
						if( not threw )
							m[a] = m[b];
					}
					break;
				case 1:
					what = "move assignment";
					if( vb ) {
						*it[a] = std::move( *it[b] );
						if( a != b ) {
							m[a] = m[b];
							m[b].kind = 0;
						}
					}
					break;
				case 2:
					what = "copying";
					if( vb ) {
						std::unique_ptr<I> t;
						threw = trk::faulted( [&] { t = std::make_unique<I>( *it[b] ); } );
						if( not threw ) {
							it[a] = std::move( t );
							m[a] = m[b];
						}
					}
					break;
				case 3:
					what = "moving";
					if( vb and a != b ) {
						it[a] = std::make_unique<I>( std::move( *it[b] ) );
						m[a] = m[b];
						m[b].kind = 0;
					}
					break;
				case 4:
					what = "++";
					if( va and m[a].pos < n ) {
						threw = trk::faulted( [&] { ++*it[a]; } );
						if( not threw )
							++m[a].pos;
					}
					break;
				case 5:
					what = "postfix ++";
					if( va and m[a].pos < n ) {
						threw = trk::faulted( [&] {
							I o = ( *it[a] )++;
							sim::Disarmed x;
							SIM_CHECK( *o == 100 + m[a].pos, "wrong-element", "postfix ++ of a type-erased iterator returned another place" );
						} );
						if( not threw )
							++m[a].pos;
					}
					break;
				case 6: {
					what = "assigning a new one";
					int const kind = 1 + (int)sim::choose( 3 ), pos = (int)sim::choose( (uint32_t)n + 1 );
					threw = trk::faulted( [&] { *it[a] = make( kind, pos ); } );
					if( not threw )
						m[a] = { kind, pos };
					break;
				}
				default: {
					what = "going through a range";
					int sum = 0;
					threw = trk::faulted( [&] {
						if( sim::choose( 2 ) ) {
							daw::InputRange r( Held<200>( d, 0 ), Held<200>( d, n ) );
							for( auto i = r.begin( ); i != r.end( ); ++i )
								sum += *i - 99;
						} else {
							std::vector<int> v( d, d + n );
							daw::InputRange<int> r( v );
							for( int x : r )
								sum += x - 99;
						}
					} );
					if( not threw )
						SIM_CHECK( sum == n * ( n + 1 ) / 2, "wrong-element", "a type-erased range passed over an element" );
				}
				}
				check( threw ? "an operation that threw" : what );
			}
		}
		world.end( "iterator" );
	}

	// ---- output ------------------------------------------------------------
	struct Buf : std::streambuf {
		std::string text;
		int_type overflow( int_type c ) override {
			sim::throw_point( S_STREAM );
			text += (char)c;
			return c;
		}
	};
	template<typename C, typename Make>
	void inserting( char const *who, bool strong, bool sorted, Make make ) {
		using E = typename C::value_type;
		C c;
		std::multiset<int> have;
		std::vector<int> order;
		auto out = make( c );
		for( int k = 0, ops = 1 + (int)sim::choose( 10 ); k < ops; ++k ) {
			E const e( (int)sim::choose( 6 ) );
			int const v = e.val( );
			bool const threw = trk::faulted( [&] {
				if( sim::choose( 2 ) ) {
					*out = e;
					++out;
				} else
					*out++ = E( v );
			} );
			std::vector<int> got;
			for( auto const &x : c )
				got.push_back( x.val( ) );
			if( not threw ) {
				have.insert( v );
				order.push_back( v );
			} else if( not strong ) { // what is there may be in disorder
				SIM_CHECK( got.size( ) == have.size( ) or got.size( ) == have.size( ) + 1, "wrong-size", "%s: after a throw there are %zu elements instead of %zu", who, got.size( ), have.size( ) );
				c.clear( );
				have.clear( );
				order.clear( );
				continue;
			}
			SIM_CHECK( std::multiset<int>( got.begin( ), got.end( ) ) == have, "wrong-element", "%s: after %s there are %zu elements instead of %zu, or others", who, threw ? "a throw" : "writing", got.size( ), have.size( ) );
			SIM_CHECK( sorted ? std::is_sorted( got.begin( ), got.end( ) ) : got == order, "wrong-order", "%s: the elements are in another order", who );
		}
	}
	void output( ) {
		trk::World world;
		{
			sim::Disarmed d0;
			using E = trk::Copy;
			auto const less = []( E const &a, E const &b ) { return a < b; };
			switch( sim::choose( 8 ) ) {
			case 0: inserting<std::vector<trk::NxMove>>( "back_inserter", true, false, []( auto &c ) { return daw::back_inserter( c ); } ); break;
			case 1: inserting<std::list<E>>( "end_inserter", true, false, []( auto &c ) { return daw::end_inserter( c ); } ); break;
			case 2: inserting<std::multiset<E>>( "inserter", true, true, []( auto &c ) { return daw::inserter( c ); } ); break;
			case 3: inserting<std::vector<E>>( "sorted insert into a vector", false, true, []( auto &c ) { return daw::make_sorted_insert_iterator( c ); } ); break;
			case 4: inserting<std::deque<E>>( "sorted insert into a deque", false, true, [&]( auto &c ) { return daw::make_sorted_insert_iterator( c, less ); } ); break;
			case 5: inserting<std::list<E>>( "sorted insert into a list", true, true, []( auto &c ) { return daw::make_sorted_insert_iterator( c ); } ); break;
			case 6: {
				std::vector<int> got, want;
				auto f = [&]( int x ) {
					sim::throw_point( S_PRED );
					sim::Disarmed d;
					got.push_back( x );
				};
				auto out = daw::make_function_iterator( f );
				for( int k = 0; k < 6; ++k ) {
					bool const threw = trk::faulted( [&] { *out++ = k; } );
					if( not threw )
						want.push_back( k );
					SIM_CHECK( got == want, "wrong-element", "a function iterator called its function %zu times instead of %zu", got.size( ), want.size( ) );
				}
				break;
			}
			default: {
				Buf buf;
				std::ostream os( &buf );
				if( sim::choose( 2 ) )
					os.exceptions( std::ios::badbit );
				auto out = daw::make_output_stream_iterator( os );
				std::string want;
				for( int k = 0; k < 6; ++k ) {
					bool const good = os.good( );
					bool failed = false;
					bool const threw = trk::faulted( [&] {
						try {
							*out++ = (char)( 'a' + k );
						} catch( std::ios_base::failure const & ) {
							failed = true;
						}
					} ) or failed;
					if( good and os.good( ) )
						want += (char)( 'a' + k );
					SIM_CHECK( not threw or not os.good( ), "wrong-answer", "a stream that threw is good" );
					SIM_CHECK( buf.text == want, "wrong-element", "a stream iterator wrote %zu characters instead of %zu", buf.text.size( ), want.size( ) );
				}
			}
			}
		}
		world.end( );
	}
} // namespace
SIM_SCENARIO( adaptor, 4 ) {
	trk::standard_faults( );
	over_array<false>( );
}
SIM_SCENARIO( adaptor_throwing, 4 ) {
	trk::standard_faults( );
	over_array<true>( );
}
SIM_SCENARIO( values, 3 ) { over_values( ); }
SIM_SCENARIO( type_erased, 4 ) {
	trk::standard_faults( );
	erased( );
}
SIM_SCENARIO( output, 3 ) {
	trk::standard_faults( );
	output( );
}
