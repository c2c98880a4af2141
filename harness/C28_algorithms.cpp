// runtime: conc
// C28: the algorithms visit their ranges once, in order, and pass on what is thrown.
#include "tracked.h"

#include <algorithm>
#include <daw/algorithms/daw_algorithm_find_transform.h>
#include <daw/algorithms/daw_algorithm_partial_sum.h>
#include <daw/daw_algorithm.h>
#include <daw/daw_container_algorithm.h>
#include <list>
#include <map>
#include <set>
#include <string>
#include <vector>

namespace sim {
	HarnessInfo const harness = {
	  "C28",
	  "A seeded run calls the algorithms over raw pointers, checked forward iterators, single-pass streams with sentinels and lists, with random elements, predicates and operations, empty ranges included, while any callback, comparison, copy, assignment, iterator step or allocation may throw, and compares the callbacks made, the elements written and the results with a model. A run is non-trivial if a fault fired.",
	  "daw_algorithm.h, daw_container_algorithm.h, algorithms/*.h, cpp_17_iterator.h",
	  "operator new, element operations, callbacks, iterators",
	  3000000, 60000000, true };
}
namespace {
	enum { S_ITER = 20, S_OUT };
	struct E : trk::Copy {
		using trk::Copy::Copy;
		E( ) : trk::Copy( 0 ) {}
		operator bool( ) const { return val( ) != 0; }
		friend E operator+( E const &a, E const &b ) {
			sim::throw_point( trk::S_CALL );
			return E( a.val( ) * 3 + b.val( ) ); // order matters
		}
		friend E &operator++( E &a ) {
			sim::throw_point( trk::S_CALL );
			a.set( a.val( ) + 1 );
			return a;
		}
	};
	int val( int v ) { return v; }
	int val( trk::Copy const &e ) { return e.val( ); }
	int val( std::pair<int, int> const &p ) { return p.first * 100 + p.second; }

	// ---- what happened
	using Ints = std::vector<int>;
	Ints *g_log;
	int note( int v ) {
		sim::throw_point( trk::S_CALL );
		sim::Quiet q;
		sim::Disarmed d;
		g_log->push_back( v );
		return v;
	}
	char const *g_what;
	void compare( char const *kind, Ints const &got, Ints const &want, bool threw ) {
		SIM_CHECK( got.size( ) <= want.size( ) and ( threw or got.size( ) == want.size( ) ), kind, "%s: %zu of them instead of %zu", g_what, got.size( ), want.size( ) );
		for( size_t i = 0; i < got.size( ); ++i )
			SIM_CHECK( got[i] == want[i], kind, "%s: number %zu is %d instead of %d", g_what, i, got[i], want[i] );
	}
	void calls( Ints const &want, bool threw ) { compare( "wrong-calls", *g_log, want, threw ); }
	void result( bool ok, char const *what = "result" ) { SIM_CHECK( ok, "wrong-result", "%s gave the wrong %s", g_what, what ); }

	// ---- iterators over [b,e) that check what is done with them
	struct Rng {
		E *b, *e, *cur;
	};
	struct End {
		Rng *r;
	};
	template<typename T, bool Single>
	struct It {
		using value_type = E;
		using reference = T &;
		using pointer = T *;
		using difference_type = ptrdiff_t;
		using iterator_category = std::conditional_t<Single, std::input_iterator_tag, std::forward_iterator_tag>;
		T *p = nullptr;
		Rng *r = nullptr;
		void ok( char const *what ) const {
			SIM_CHECK( p and p >= r->b and p < r->e, "out-of-range", "%s: %s at %td of a range of %td", g_what, what, p - r->b, r->e - r->b );
			if constexpr( Single )
				SIM_CHECK( p == r->cur, "second-pass", "%s: %s at %td of a stream that is at %td", g_what, what, p - r->b, r->cur - r->b );
		}
		reference operator*( ) const {
			ok( "read" );
			sim::throw_point( S_ITER );
			return *p;
		}
		pointer operator->( ) const { return &**this; }
		It &operator++( ) {
			ok( "step" );
			sim::throw_point( S_ITER );
			++p;
			if constexpr( Single )
				++r->cur;
			return *this;
		}
		It operator++( int ) {
			It i = *this;
			++*this;
			return i;
		}
		friend bool operator==( It const &a, It const &b ) {
			SIM_CHECK( a.r == b.r, "mixed-ranges", "%s: iterators of two ranges are compared", g_what );
			return a.p == b.p;
		}
		friend bool operator!=( It const &a, It const &b ) { return not( a == b ); }
		friend bool operator==( It const &a, End const & ) { return a.p == a.r->e; }
		friend bool operator!=( It const &a, End const & ) { return a.p != a.r->e; }
		friend bool operator==( End const &, It const &a ) { return a.p == a.r->e; }
		friend bool operator!=( End const &, It const &a ) { return a.p != a.r->e; }
	};
	using Fwd = It<E, false>;
	using CFwd = It<E const, false>;
	using In = It<E const, true>;

	// elements with one more on each side
	struct Arr {
		std::vector<E> v;
		Ints x;
		Rng r;
		explicit Arr( Ints const &in ) : x( in ) {
			v.emplace_back( 1000 );
			for( int i : in )
				v.emplace_back( i );
			v.emplace_back( 1001 );
			r = { v.data( ) + 1, v.data( ) + 1 + in.size( ), v.data( ) + 1 };
		}
		size_t n( ) const { return x.size( ); }
		Ints now( ) const {
			Ints y;
			for( auto *p = r.b; p != r.e; ++p )
				y.push_back( p->val( ) );
			return y;
		}
		void guards( ) const {
			SIM_CHECK( v.front( ).val( ) == 1000 and v.back( ).val( ) == 1001, "out-of-range", "%s changed an element next to its range", g_what );
		}
		void same( ) const {
			guards( );
			for( size_t i = 0; i < x.size( ); ++i )
				SIM_CHECK( v[i + 1].val( ) == x[i], "changed-input", "%s changed element %zu of a range it only reads from %d to %d", g_what, i, x[i], v[i + 1].val( ) );
		}
	};
	template<typename I>
	struct View { // how a range is passed
		Arr &a;
		explicit View( Arr &arr ) : a( arr ) {}
		I at( size_t i ) { return I{ a.r.b + i, &a.r }; }
		I b( ) { return at( 0 ); }
		I e( ) { return at( a.n( ) ); }
		End s( ) { return End{ &a.r }; }
		size_t pos( I i ) { return size_t( i.p - a.r.b ); }
	};
	template<typename T>
	struct View<T *> {
		Arr &a;
		explicit View( Arr &arr ) : a( arr ) {}
		T *at( size_t i ) { return a.r.b + i; }
		T *b( ) { return at( 0 ); }
		T *e( ) { return at( a.n( ) ); }
		T *s( ) { return e( ); }
		size_t pos( T *p ) { return size_t( p - a.r.b ); }
	};

	// an output that takes each position once, in order
	struct Out {
		Ints got;
		size_t assigned = 0;
	};
	struct OutIt {
		using value_type = E;
		using reference = void;
		using pointer = void;
		using difference_type = ptrdiff_t;
		using iterator_category = std::output_iterator_tag;
		Out *o;
		size_t pos = 0;
		struct Ref {
			Out *o;
			size_t pos;
			template<typename X>
			Ref const &operator=( X const &x ) const {
				sim::throw_point( S_OUT );
				sim::Quiet q;
				sim::Disarmed d;
				SIM_CHECK( pos == o->got.size( ), "wrong-output", "%s wrote position %zu as number %zu", g_what, pos, o->got.size( ) );
				o->got.push_back( val( x ) );
				return *this;
			}
		};
		Ref operator*( ) const { return { o, pos }; }
		OutIt &operator++( ) {
			sim::throw_point( S_ITER );
			SIM_CHECK( pos + 1 == o->got.size( ), "wrong-output", "%s stepped over position %zu of its output", g_what, pos );
			++pos;
			return *this;
		}
		OutIt operator++( int ) {
			OutIt i = *this;
			++*this;
			return i;
		}
	};
	void wrote( Out const &o, Ints const &want, bool threw ) { compare( "wrong-output", o.got, want, threw ); }

	Ints ints( unsigned max = 9 ) {
		Ints x;
		size_t const n = sim::choose( max );
		for( size_t i = 0; i < n; ++i )
			x.push_back( (int)sim::choose( 8 ) );
		return x;
	}
	struct Pred {
		unsigned mask;
		bool operator[]( int v ) const { return ( mask >> ( v & 7 ) ) & 1; }
		bool operator( )( E const &e ) const { return ( *this )[note( e.val( ) )]; }
	};
	Pred pred( ) {
		switch( sim::choose( 4 ) ) {
		case 0: return { 0 };
		case 1: return { 255 };
		case 2: return { 1u << sim::choose( 8 ) };
		default: return { sim::choose( 256 ) };
		}
	}
	struct World {
		trk::World w;
		Ints log;
		int64_t base;
		World( ) {
			g_log = &log;
			log.reserve( 256 );
			base = sim::live_allocs( );
		}
		void end( ) {
			w.end( );
			SIM_CHECK( sim::live_allocs( ) == base, "leak", "%s left memory behind", g_what );
		}
	};
	size_t first( Ints const &x, Pred p ) {
		size_t i = 0;
		while( i < x.size( ) and not p[x[i]] )
			++i;
		return i;
	}
	Ints upto( Ints const &x, size_t k ) { // the elements looked at if the k-th answers
		return Ints( x.begin( ), x.begin( ) + (ptrdiff_t)std::min( x.size( ), k + 1 ) );
	}
#define TRY( ... ) ( trk::faulted( [&] { __VA_ARGS__ } ) )

	// ---- one pass, any range -----------------------------------------------------
	template<typename I>
	void searching( ) {
		sim::Disarmed d;
		Arr a( ints( ) );
		View<I> v( a );
		Ints const &x = a.x;
		size_t const n = x.size( );
		Pred p = pred( ), q{ sim::choose( 256 ) };
		auto np = [&]( E const &e ) { return not p( e ); };
		size_t const k = first( x, p );
		bool threw;
		switch( sim::choose( 17 ) ) {
		case 0:
			g_what = "find_if";
			threw = TRY( auto r = daw::algorithm::find_if( v.b( ), v.e( ), p ); result( v.pos( r ) == k ); );
			calls( upto( x, k ), threw );
			break;
		case 1:
			g_what = "find_if_not";
			threw = TRY( auto r = daw::algorithm::find_if_not( v.b( ), v.e( ), np ); result( v.pos( r ) == k ); );
			calls( upto( x, k ), threw );
			break;
		case 2: {
			g_what = "find";
			E const t( (int)sim::choose( 8 ) );
			size_t const f = size_t( std::find( x.begin( ), x.end( ), t.val( ) ) - x.begin( ) );
			TRY( auto r = daw::algorithm::find( v.b( ), v.e( ), t ); result( v.pos( r ) == f ); );
			break;
		}
		case 3:
			g_what = "find_first_of with a predicate";
			threw = TRY( auto r = daw::algorithm::find_first_of( v.b( ), v.e( ), p ); result( v.pos( r ) == k ); );
			calls( upto( x, k ), threw );
			break;
		case 4: {
			g_what = "find_first_of with a range";
			Arr s( ints( 5 ) );
			View<CFwd> sv( s );
			size_t const f = size_t( std::find_first_of( x.begin( ), x.end( ), s.x.begin( ), s.x.end( ) ) - x.begin( ) );
			TRY( auto r = daw::algorithm::find_first_of( v.b( ), v.e( ), sv.b( ), sv.e( ) ); result( v.pos( r ) == f ); );
			s.same( );
			break;
		}
		case 5:
			g_what = "all_of";
			threw = TRY( result( daw::algorithm::all_of( v.b( ), v.e( ), np ) == ( k == n ) ); );
			calls( upto( x, k ), threw );
			break;
		case 6:
			g_what = "any_of";
			threw = TRY( result( daw::algorithm::any_of( v.b( ), v.e( ), p ) == ( k < n ) ); );
			calls( upto( x, k ), threw );
			break;
		case 7:
			g_what = "none_of";
			threw = TRY( result( daw::algorithm::none_of( v.b( ), v.e( ), p ) == ( k == n ) ); );
			calls( upto( x, k ), threw );
			break;
		case 8:
			g_what = "find_index_if";
			threw = TRY( auto r = daw::algorithm::find_index_if( v.b( ), v.e( ), p ); result( r.has_value( ) == ( k < n ) and ( not r or *r == k ) ); );
			calls( upto( x, k ), threw );
			break;
		case 9: {
			g_what = "find_index";
			E const t( (int)sim::choose( 8 ) );
			size_t const f = size_t( std::find( x.begin( ), x.end( ), t.val( ) ) - x.begin( ) );
			TRY( auto r = daw::algorithm::find_index( v.b( ), v.e( ), t ); result( r.has_value( ) == ( f < n ) and ( not r or *r == f ) ); );
			break;
		}
		case 10: {
			g_what = "contains";
			E const t( (int)sim::choose( 8 ) );
			bool const has = std::find( x.begin( ), x.end( ), t.val( ) ) != x.end( );
			TRY( result( daw::algorithm::contains( v.b( ), v.s( ), t ) == has ); );
			break;
		}
		case 11:
			g_what = "contains_if";
			threw = TRY( result( daw::algorithm::contains_if( v.b( ), v.s( ), p ) == ( k < n ) ); );
			calls( upto( x, k ), threw );
			break;
		case 12: {
			g_what = "find_some";
			size_t f = 0;
			Ints want;
			for( ; f < n; ++f ) {
				want.push_back( x[f] );
				want.push_back( x[f] );
				if( p[x[f]] or q[x[f]] )
					break;
			}
			threw = TRY( auto r = daw::algorithm::find_some( v.b( ), v.s( ), p, q );
			             result( v.pos( r.position ) == f );
			             if( f < n ) result( r.results[0] == p[x[f]] and r.results[1] == q[x[f]], "flags" ); );
			calls( want, threw );
			break;
		}
		case 13: {
			g_what = "find_one_of";
			size_t f = 0, which = size_t( -1 );
			Ints want;
			for( ; f < n; ++f ) {
				want.push_back( x[f] );
				if( p[x[f]] ) {
					which = 0;
					break;
				}
				want.push_back( x[f] );
				if( q[x[f]] ) {
					which = 1;
					break;
				}
			}
			threw = TRY( auto r = daw::algorithm::find_one_of( v.b( ), v.s( ), p, q );
			             result( v.pos( r.position ) == f );
			             result( r.index == which, "index" ); );
			calls( want, threw );
			break;
		}
		case 14: {
			g_what = "satisfies_one";
			Ints want;
			bool hit = false;
			for( size_t i = 0; i < n and not hit; ++i ) {
				want.push_back( x[i] );
				if( not( hit = p[x[i]] ) ) {
					want.push_back( x[i] );
					hit = q[x[i]];
				}
			}
			threw = TRY( result( daw::algorithm::satisfies_one( v.b( ), v.e( ), p, q ) == hit ); );
			calls( want, threw );
			break;
		}
		case 15: {
			g_what = "satisfies_all";
			Ints want;
			bool all = true;
			for( size_t i = 0; i < n and all; ++i ) {
				want.push_back( x[i] );
				if( ( all = p[x[i]] ) ) {
					want.push_back( x[i] );
					all = q[x[i]];
				}
			}
			threw = TRY( result( daw::algorithm::satisfies_all( v.b( ), v.e( ), p, q ) == all ); );
			calls( want, threw );
			break;
		}
		default: {
			g_what = "find_transform";
			Ints want;
			size_t f = 0;
			for( ; f < n; ++f ) {
				want.push_back( x[f] );
				want.push_back( 500 + x[f] );
				if( p[x[f]] )
					break;
			}
			threw = TRY( auto r = daw::algorithm::find_transform(
			               v.b( ), v.s( ), []( E const &e ) { return E( 500 + note( e.val( ) ) ); },
			               [&]( E const &e ) { return p[note( e.val( ) ) - 500]; } );
			             result( v.pos( r.iterator ) == f and bool( r ) == ( f < n ) );
			             if( f < n ) result( r.value->val( ) == 500 + x[f], "value" ); );
			calls( want, threw );
		}
		}
		a.same( );
	}
	template<typename I>
	void writing( ) {
		sim::Disarmed d;
		Arr a( ints( ) );
		View<I> v( a );
		Ints const &x = a.x;
		size_t const n = x.size( );
		Pred p = pred( );
		Out o;
		OutIt out{ &o };
		Ints want, seen = x;
		auto fn = []( E const &e ) { return E( 100 + note( e.val( ) ) ); };
		for( int i : x )
			want.push_back( 100 + i );
		bool threw;
		switch( sim::choose( 14 ) ) {
		case 0:
			g_what = "copy";
			threw = TRY( auto r = daw::algorithm::copy( v.b( ), v.s( ), out ); result( r.pos == n ); );
			wrote( o, x, threw );
			break;
		case 1: {
			g_what = "copy_n";
			size_t const m = sim::choose( (uint32_t)n + 1 );
			threw = TRY( auto r = daw::algorithm::copy_n( v.b( ), out, m ); result( r.output.pos == m and v.pos( r.input ) == m ); );
			wrote( o, Ints( x.begin( ), x.begin( ) + (ptrdiff_t)m ), threw );
			break;
		}
		case 2:
			g_what = "copy_if";
			want.clear( );
			for( int i : x )
				if( p[i] )
					want.push_back( i );
			threw = TRY( auto r = daw::algorithm::copy_if( v.b( ), v.s( ), out, p ); result( r.pos == want.size( ) ); );
			calls( x, threw );
			wrote( o, want, threw );
			break;
		case 3:
			g_what = "transform";
			threw = TRY( auto r = daw::algorithm::transform( v.b( ), v.s( ), out, fn ); result( r.pos == n ); );
			calls( x, threw );
			wrote( o, want, threw );
			break;
		case 4: {
			g_what = "transform_n";
			size_t const m = sim::choose( (uint32_t)n + 1 );
			threw = TRY( auto r = daw::algorithm::transform_n( v.b( ), out, m, fn ); result( r.output.pos == m and v.pos( r.input ) == m ); );
			want.resize( m );
			seen.resize( m );
			calls( seen, threw );
			wrote( o, want, threw );
			break;
		}
		case 5: {
			g_what = "transform_n with the position";
			size_t const m = sim::choose( (uint32_t)n + 1 );
			threw = TRY( auto r = daw::algorithm::transform_n( v.b( ), out, m, []( E const &e, size_t i ) { return E( note( e.val( ) ) * 10 + (int)i ); } );
			             result( r.output.pos == m and v.pos( r.input ) == m ); );
			want.clear( );
			for( size_t i = 0; i < m; ++i )
				want.push_back( x[i] * 10 + (int)i );
			seen.resize( m );
			calls( seen, threw );
			wrote( o, want, threw );
			break;
		}
		case 6:
			g_what = "transform_it";
			want.clear( );
			for( int i : x )
				for( int j = 0; j < i % 3; ++j )
					want.push_back( i );
			threw = TRY( auto r = daw::algorithm::transform_it( v.b( ), v.s( ), out, []( E const &e, OutIt w ) {
				             for( int j = 0, i = note( e.val( ) ); j < i % 3; ++j ) {
					             *w = i;
					             ++w;
				             }
				             return w;
			             } );
			             result( r.pos == want.size( ) ); );
			calls( x, threw );
			wrote( o, want, threw );
			break;
		case 7:
			g_what = "map";
			threw = TRY( auto r = daw::algorithm::map( v.b( ), v.e( ), out, fn ); result( r.pos == n ); );
			calls( x, threw );
			wrote( o, want, threw );
			break;
		case 8: {
			g_what = "map of two ranges";
			Ints y = ints( );
			y.resize( n + sim::choose( 2 ) );
			Arr b( y );
			View<CFwd> w( b );
			want.clear( );
			for( size_t i = 0; i < n; ++i )
				want.push_back( x[i] * 10 + y[i] );
			threw = TRY( auto r = daw::algorithm::map( v.b( ), v.e( ), w.b( ), out, []( E const &e, E const &f ) { return E( note( e.val( ) * 10 + f.val( ) ) ); } );
			             result( r.pos == n ); );
			calls( want, threw );
			wrote( o, want, threw );
			b.same( );
			break;
		}
		case 9: {
			g_what = "partial_sum";
			want.clear( );
			int s = 0;
			for( size_t i = 0; i < n; ++i )
				want.push_back( s = i ? ( s * 3 + x[i] ) % 1000 : x[i] );
			threw = TRY( auto r = daw::algorithm::partial_sum( v.b( ), v.e( ), out, []( E const &l, E const &r ) { note( r.val( ) ); return E( ( l.val( ) * 3 + r.val( ) ) % 1000 ); } );
			             result( r.pos == n ); );
			if( n )
				seen.erase( seen.begin( ) );
			calls( seen, threw );
			wrote( o, want, threw );
			break;
		}
		case 10: {
			g_what = "convert_copy";
			size_t m = n;
			if constexpr( std::is_pointer_v<I> ) {
				if( sim::choose( 2 ) ) {
					g_what = "convert_copy_n";
					m = sim::choose( (uint32_t)n + 1 );
				}
			}
			want.clear( );
			if constexpr( std::is_pointer_v<I> ) {
				if( m < n ) {
					threw = TRY( auto r = daw::algorithm::convert_copy_n<bool>( v.b( ), out, m ); result( r.pos == m ); );
					for( size_t i = 0; i < m; ++i )
						want.push_back( x[i] != 0 );
					wrote( o, want, threw );
					break;
				}
			}
			threw = TRY( auto r = daw::algorithm::convert_copy<bool>( v.b( ), v.s( ), out ); result( r.pos == n ); );
			for( int i : x )
				want.push_back( i != 0 );
			wrote( o, want, threw );
			break;
		}
		case 11: {
			g_what = "for_each_if";
			want.clear( );
			for( int i : x ) {
				want.push_back( i );
				if( p[i] )
					want.push_back( 300 + i );
			}
			threw = TRY( daw::algorithm::for_each_if( v.b( ), v.e( ), p, []( E const &e ) { note( 300 + e.val( ) ); } ); );
			calls( want, threw );
			break;
		}
		case 12: {
			g_what = "count_if";
			size_t const c = (size_t)std::count_if( x.begin( ), x.end( ), [&]( int i ) { return p[i]; } );
			threw = TRY( result( daw::algorithm::count_if( v.b( ), v.s( ), p ) == c ); );
			calls( x, threw );
			break;
		}
		default: {
			g_what = "cartesian_product";
			Ints y = ints( );
			y.resize( n + sim::choose( 2 ) );
			Arr b( y );
			View<CFwd> w( b );
			want.clear( );
			for( size_t i = 0; i < n; ++i )
				want.push_back( x[i] * 10 + y[i] );
			auto f = []( E const &e, E const &f ) { return E( note( e.val( ) * 10 + f.val( ) ) ); };
			uint32_t const form = sim::choose( 3 );
			if( form == 0 ) {
				threw = TRY( daw::algorithm::cartesian_product( f, v.b( ), v.s( ), w.b( ) ); );
			} else if( form == 1 ) {
				g_what = "transform_many";
				threw = TRY( auto r = daw::algorithm::transform_many( v.b( ), v.e( ), w.b( ), out, f ); result( r.pos == n ); );
				wrote( o, want, threw );
			} else {
				g_what = "cartesian_product_map";
				threw = TRY( auto r = daw::algorithm::cartesian_product_map( f, v.b( ), v.s( ), out, w.b( ) ); result( r.pos == n ); );
				wrote( o, want, threw );
			}
			calls( want, threw );
			b.same( );
		}
		}
		a.same( );
	}
	template<typename I>
	void folding( ) {
		sim::Disarmed d;
		Arr a( ints( ) );
		View<I> v( a );
		Ints const &x = a.x;
		Ints y = ints( );
		int const s = (int)sim::choose( 5 );
		int want = s;
		bool threw;
		switch( sim::choose( 9 ) ) {
		case 0:
			g_what = "accumulate";
			for( int i : x )
				want = want * 3 + i;
			{
				E const init( s );
				TRY( auto r = daw::algorithm::accumulate( v.b( ), v.e( ), init ); result( r.val( ) == want ); );
			}
			break;
		case 1:
		case 2:
			g_what = "accumulate with an operation";
			for( int i : x )
				want = want * 3 + i;
			{
				E const init( s );
				threw = TRY( auto r = daw::algorithm::accumulate( v.b( ), v.s( ), init, []( E const &l, E const &r ) { note( r.val( ) ); return l + r; } ); result( r.val( ) == want ); );
			}
			calls( x, threw );
			break;
		case 3:
			g_what = "reduce";
			for( int i : x )
				want = want * 3 + i;
			{
				E const init( s );
				threw = TRY( auto r = daw::algorithm::reduce( v.b( ), v.s( ), init, []( E const &l, E const &r ) { note( r.val( ) ); return l + r; } ); result( r.val( ) == want ); );
			}
			calls( x, threw );
			break;
		case 4: {
			g_what = "map_reduce";
			y.resize( x.size( ) );
			Arr b( y );
			View<CFwd> w( b );
			for( size_t i = 0; i < x.size( ); ++i )
				want = want * 3 + ( x[i] + 2 * y[i] );
			E const init( s );
			threw = TRY( auto r = daw::algorithm::map_reduce(
			               v.b( ), v.s( ), w.b( ), init, []( E const &l, E const &r ) { return l + r; }, []( E const &l, E const &r ) { return E( note( l.val( ) ) + 2 * r.val( ) ); } );
			             result( r.val( ) == want ); );
			calls( x, threw );
			b.same( );
			break;
		}
		case 5: {
			g_what = "equal";
			if( sim::choose( 2 ) )
				y = x;
			if( y.size( ) and sim::choose( 2 ) )
				y[sim::choose( (uint32_t)y.size( ) )] ^= 1;
			Arr b( y );
			View<In> w( b );
			switch( sim::choose( 6 ) ) {
			case 3:
				g_what = "not_equal";
				TRY( result( daw::algorithm::not_equal( v.b( ), v.e( ), w.b( ), w.e( ) ) == ( x != y ) ); );
				break;
			case 4:
				g_what = "not_equal with a comparison";
				TRY( result( daw::algorithm::not_equal( v.b( ), v.s( ), w.b( ), w.s( ), []( E const &l, E const &r ) { return note( l.val( ) ) != r.val( ); } ) == ( x != y ) ); );
				break;
			case 5:
				g_what = "not_equal of three iterators";
				if( y.size( ) >= x.size( ) )
					TRY( result( daw::algorithm::not_equal( v.b( ), v.s( ), w.b( ) ) != std::equal( x.begin( ), x.end( ), y.begin( ) ) ); );
				break;
			case 0: TRY( result( daw::algorithm::equal( v.b( ), v.e( ), w.b( ), w.e( ) ) == ( x == y ) ); ); break;
			case 1: TRY( result( daw::algorithm::equal( v.b( ), v.s( ), w.b( ), w.s( ), []( E const &l, E const &r ) { return note( l.val( ) ) == r.val( ); } ) == ( x == y ) ); ); break;
			default:
				if( y.size( ) >= x.size( ) )
					TRY( result( daw::algorithm::equal( v.b( ), v.s( ), w.b( ) ) == std::equal( x.begin( ), x.end( ), y.begin( ) ) ); );
			}
			b.same( );
			break;
		}
		case 6: {
			g_what = "lexicographical_compare";
			if( sim::choose( 2 ) and not x.empty( ) ) {
				y = x;
				y.resize( sim::choose( (uint32_t)y.size( ) + 2 ), 7 );
			}
			Arr b( y );
			View<In> w( b );
			if( sim::choose( 2 ) )
				TRY( result( daw::algorithm::lexicographical_compare( v.b( ), v.s( ), w.b( ), w.s( ) ) == ( x < y ) ); );
			else
				TRY( result( daw::algorithm::lexicographical_compare( v.b( ), v.s( ), w.b( ), w.s( ), []( E const &l, E const &r ) { return note( l.val( ) ) > r.val( ); } ) ==
				             std::lexicographical_compare( x.begin( ), x.end( ), y.begin( ), y.end( ), std::greater<>{ } ) ); );
			b.same( );
			break;
		}
		case 7: {
			g_what = "compare_range";
			if( sim::choose( 2 ) and not x.empty( ) ) {
				y = x;
				y.resize( sim::choose( (uint32_t)y.size( ) + 2 ), 7 );
			}
			Arr b( y );
			View<In> w( b );
			int const c = x < y ? -1 : x == y ? 0 : 1;
			TRY( int r = daw::algorithm::compare_range( v.b( ), v.s( ), w.b( ), w.s( ) ); result( r == c ); );
			b.same( );
			break;
		}
		default: {
			g_what = "set_intersection";
			Ints sx = x;
			std::sort( sx.begin( ), sx.end( ) );
			std::sort( y.begin( ), y.end( ) );
			Arr b( y ), c( sx );
			View<In> w( b );
			View<I> u( c );
			Out o;
			Ints want;
			std::set_intersection( sx.begin( ), sx.end( ), y.begin( ), y.end( ), std::back_inserter( want ) );
			threw = TRY( auto r = daw::algorithm::set_intersection( u.b( ), u.s( ), w.b( ), w.s( ), OutIt{ &o } ); result( r.pos == want.size( ) ); );
			wrote( o, want, threw );
			b.same( );
			c.same( );
		}
		}
		a.same( );
	}
	// ---- ranges that can be read again -----------------------------------------
	template<typename I>
	void ordered( ) {
		sim::Disarmed d;
		Ints x = ints( 12 );
		uint32_t const alg = sim::choose( 16 );
		bool const desc = sim::choose( 2 );
		auto cmp = [&]( E const &l, E const &r ) { note( 0 ); return desc ? r.val( ) < l.val( ) : l.val( ) < r.val( ); };
		auto icmp = [&]( int l, int r ) { return desc ? r < l : l < r; };
		if( alg < 3 or ( alg < 6 and sim::choose( 2 ) ) )
			std::sort( x.begin( ), x.end( ), icmp );
		Arr a( x );
		View<I> v( a );
		size_t const n = x.size( );
		int const t = (int)sim::choose( 9 ) - 1;
		E const e( t );
		auto at = [&]( auto i ) { return size_t( i - x.begin( ) ); };
		switch( alg ) {
		case 0: g_what = "lower_bound"; TRY( auto r = daw::algorithm::lower_bound( v.b( ), v.e( ), e, cmp ); result( v.pos( r ) == at( std::lower_bound( x.begin( ), x.end( ), t, icmp ) ) ); ); break;
		case 1: g_what = "upper_bound"; TRY( auto r = daw::algorithm::upper_bound( v.b( ), v.e( ), e, cmp ); result( v.pos( r ) == at( std::upper_bound( x.begin( ), x.end( ), t, icmp ) ) ); ); break;
		case 2:
			g_what = "binary_search";
			if constexpr( std::is_pointer_v<I> ) {
				if( n == 0 )
					break;
				TRY( auto r = daw::algorithm::binary_search( v.b( ), v.e( ), e, cmp ); bool const has = std::binary_search( x.begin( ), x.end( ), t, icmp );
				     result( has ? r != v.e( ) and v.pos( r ) < n and x[v.pos( r )] == t : r == v.e( ) ); );
			}
			break;
		case 3: g_what = "is_sorted_until"; TRY( auto r = daw::algorithm::is_sorted_until( v.b( ), v.e( ), cmp ); result( v.pos( r ) == at( std::is_sorted_until( x.begin( ), x.end( ), icmp ) ) ); ); break;
		case 4: g_what = "is_sorted"; TRY( result( daw::algorithm::is_sorted( v.b( ), v.e( ), cmp ) == std::is_sorted( x.begin( ), x.end( ), icmp ) ); ); break;
		case 5:
			g_what = "find_unsorted";
			if constexpr( std::is_pointer_v<I> ) {
				// the element before the first one that is out of order
				size_t const u = at( std::is_sorted_until( x.begin( ), x.end( ), icmp ) );
				TRY( auto r = daw::algorithm::find_unsorted( v.b( ), v.e( ), cmp ); result( v.pos( r ) == ( u == n ? n : u - 1 ) ); );
			}
			break;
		case 6: g_what = "max_element"; TRY( auto r = daw::algorithm::max_element( v.b( ), v.e( ), cmp ); result( v.pos( r ) == at( std::max_element( x.begin( ), x.end( ), icmp ) ) ); ); break;
		case 7:
			g_what = "minmax_element";
			TRY( auto r = daw::algorithm::minmax_element( v.b( ), v.e( ), cmp ); auto m = std::minmax_element( x.begin( ), x.end( ), icmp );
			     result( v.pos( r.min_element ) == at( m.first ), "minimum" ); result( v.pos( r.max_element ) == at( m.second ), "maximum" ); );
			break;
		case 8: {
			g_what = "adjacent_find";
			int const k = (int)sim::choose( 4 );
			TRY( auto r = daw::algorithm::adjacent_find( v.b( ), v.e( ), [&]( E const &l, E const &r ) { note( 0 ); return r.val( ) == l.val( ) + k; } );
			     result( v.pos( r ) == at( std::adjacent_find( x.begin( ), x.end( ), [&]( int l, int r ) { return r == l + k; } ) ) ); );
			break;
		}
		case 9: {
			g_what = "search";
			Ints y;
			if( n and sim::choose( 3 ) ) {
				size_t const b = sim::choose( (uint32_t)n );
				y.assign( x.begin( ) + (ptrdiff_t)b, x.begin( ) + (ptrdiff_t)( b + sim::choose( (uint32_t)( n - b ) + 1 ) ) );
				if( y.size( ) and not sim::choose( 3 ) )
					y.back( ) ^= 1;
			} else {
				y = ints( 4 );
			}
			Arr b( y );
			View<CFwd> w( b );
			TRY( auto r = daw::algorithm::search( v.b( ), v.e( ), w.b( ), w.e( ) ); result( v.pos( r ) == at( std::search( x.begin( ), x.end( ), y.begin( ), y.end( ) ) ) ); );
			b.same( );
			break;
		}
		case 10: {
			g_what = "all_equal";
			if( sim::choose( 2 ) and n ) {
				Ints y( n, x[0] );
				if( sim::choose( 2 ) )
					y[sim::choose( (uint32_t)n )] ^= 1;
				Arr b( y );
				View<I> w( b );
				bool const all = std::adjacent_find( y.begin( ), y.end( ), std::not_equal_to<>{ } ) == y.end( );
				TRY( result( daw::algorithm::all_equal<>{ }( w.b( ), w.e( ) ) == all ); );
				b.same( );
			} else {
				bool const all = std::adjacent_find( x.begin( ), x.end( ), std::not_equal_to<>{ } ) == x.end( );
				TRY( result( daw::algorithm::all_equal<>{ }( v.b( ), v.e( ) ) == all ); );
			}
			break;
		}
		case 11: {
			// the elements of the leading run for which the predicate holds
			g_what = "find_last_of";
			Pred p = pred( );
			size_t k = 0;
			while( k < n and p[x[k]] )
				++k;
			bool threw = TRY( auto r = daw::algorithm::find_last_of( v.b( ), v.e( ), p ); result( v.pos( r ) == ( k ? k - 1 : n ) ); );
			calls( upto( x, k ), threw );
			break;
		}
		case 12: {
			g_what = "find_index_of";
			size_t const f = at( std::find( x.begin( ), x.end( ), t ) );
			TRY( result( daw::algorithm::find_index_of( v.b( ), v.e( ), e ) == f ); );
			break;
		}
		case 13: {
			g_what = "find_index_of_if";
			Pred p = pred( );
			bool threw = TRY( result( daw::algorithm::find_index_of_if( v.b( ), v.e( ), p ) == first( x, p ) ); );
			calls( upto( x, first( x, p ) ), threw );
			break;
		}
		case 14:
			g_what = "is_sorted_until with another end type";
			if constexpr( std::is_pointer_v<I> ) {
				E *last = a.r.e;
				TRY( auto r = daw::algorithm::is_sorted_until( v.b( ), last, cmp ); result( v.pos( r ) == at( std::is_sorted_until( x.begin( ), x.end( ), icmp ) ) ); );
				TRY( result( daw::algorithm::is_sorted( v.b( ), last, cmp ) == std::is_sorted( x.begin( ), x.end( ), icmp ) ); );
			}
			break;
		default: {
			g_what = "find_first_range_of";
			if constexpr( std::is_pointer_v<I> ) {
				Pred p = pred( );
				size_t const b = first( x, p );
				size_t k = b;
				while( k < n and p[x[k]] )
					++k;
				TRY( auto r = daw::algorithm::find_first_range_of( v.b( ), v.e( ), p ); result( v.pos( r.first ) == b and v.pos( r.second ) == k ); );
			}
		}
		}
		a.same( );
	}
	// ---- ranges that are written to ------------------------------------------------
	template<typename I>
	void changing( ) {
		sim::Disarmed d;
		Arr a( ints( ) );
		View<I> v( a );
		Ints const x = a.x;
		size_t const n = x.size( );
		Pred p = pred( );
		bool threw;
		Ints want, now;
		auto prefix = [&]( size_t upto ) { // written up to some point, untouched after it
			now = a.now( );
			size_t k = 0;
			while( k < upto and now[k] == want[k] )
				++k;
			SIM_CHECK( threw or k == upto, "wrong-output", "%s: element %zu is %d instead of %d", g_what, k, now[k], want[k] );
			for( size_t i = k; i < n; ++i )
				SIM_CHECK( now[i] == x[i], "wrong-output", "%s: element %zu is %d, was %d", g_what, i, now[i], x[i] );
		};
		switch( sim::choose( 11 ) ) {
		case 0: {
			g_what = "fill";
			E const t( 50 );
			threw = TRY( daw::algorithm::fill( v.b( ), v.s( ), t ); );
			want.assign( n, 50 );
			prefix( n );
			break;
		}
		case 1: {
			g_what = "fill_n";
			E const t( 50 );
			size_t const m = sim::choose( (uint32_t)n + 1 );
			threw = TRY( auto r = daw::algorithm::fill_n( v.b( ), m, t ); result( v.pos( r ) == m ); );
			want.assign( m, 50 );
			prefix( m );
			break;
		}
		case 2: {
			g_what = "iota";
			E const t( 40 );
			threw = TRY( daw::algorithm::iota( v.b( ), v.s( ), t ); );
			for( size_t i = 0; i < n; ++i )
				want.push_back( 40 + (int)i );
			prefix( n );
			break;
		}
		case 3: {
			g_what = "iota with a setter";
			threw = TRY( daw::algorithm::iota( v.b( ), v.s( ), 40, []( E &e, int k ) { note( k ); e.set( k * 2 ); } ); );
			Ints seen;
			for( size_t i = 0; i < n; ++i ) {
				want.push_back( 80 + 2 * (int)i );
				seen.push_back( 40 + (int)i );
			}
			prefix( n );
			calls( seen, threw );
			break;
		}
		case 4:
		case 5: {
			bool const iff = sim::choose( 2 );
			g_what = iff ? "remove_if" : "remove";
			int const t = (int)sim::choose( 8 );
			for( int i : x )
				if( not( iff ? p[i] : i == t ) )
					want.push_back( i );
			size_t got = 0;
			if( iff )
				threw = TRY( got = v.pos( daw::algorithm::remove_if( v.b( ), v.e( ), p ) ); );
			else {
				E const e( t );
				threw = TRY( got = v.pos( daw::algorithm::remove( v.b( ), v.e( ), e ) ); );
			}
			now = a.now( );
			if( iff )
				calls( x, threw );
			if( not threw ) {
				result( got == want.size( ) );
				now.resize( got );
				compare( "wrong-output", now, want, false );
			} else {
				// whatever had been kept is at the front, and what was not reached is where it was
				for( int i : want )
					SIM_CHECK( std::count( now.begin( ), now.end( ), i ) >= 1, "wrong-output", "%s lost the element %d", g_what, i );
			}
			break;
		}
		case 6: {
			g_what = "move";
			Out o;
			std::vector<E> to;
			for( size_t i = 0; i < n; ++i )
				to.emplace_back( 0 );
			size_t m = n;
			if( sim::choose( 2 ) )
				threw = TRY( auto r = daw::algorithm::move( v.b( ), v.s( ), to.data( ) ); result( r == to.data( ) + n ); );
			else {
				g_what = "move_n";
				m = sim::choose( (uint32_t)n + 1 );
				threw = TRY( auto r = daw::algorithm::move_n( v.b( ), to.data( ), m ); result( r.output == to.data( ) + m and v.pos( r.input ) == m ); );
			}
			now = a.now( );
			bool moved = true;
			for( size_t i = 0; i < n; ++i ) {
				bool const here = now[i] == x[i];
				bool const there = now[i] == trk::MOVED and to[i].val( ) == x[i];
				if( here )
					moved = false;
				SIM_CHECK( here ? to[i].val( ) == 0 and ( threw or i >= m ) : there and moved and i < m, "wrong-output", "%s: element %zu is %d and %d, was %d", g_what, i, now[i], to[i].val( ), x[i] );
			}
			break;
		}
		case 7:
			if( sim::choose( 2 ) ) {
				g_what = "reverse of a container";
				std::list<int> l( x.begin( ), x.end( ) );
				Ints y;
				for( int i : daw::algorithm::reverse( l ) )
					y.push_back( i );
				want.assign( x.rbegin( ), x.rend( ) );
				compare( "wrong-output", y, want, false );
				break;
			}
			g_what = "reverse";
			if constexpr( std::is_pointer_v<I> ) {
				threw = TRY( daw::algorithm::reverse( v.b( ), v.e( ) ); );
				want.assign( x.rbegin( ), x.rend( ) );
				now = a.now( );
				if( not threw )
					compare( "wrong-output", now, want, false );
			}
			break;
		case 8: {
			g_what = "gather";
			size_t const t = sim::choose( (uint32_t)n + 1 );
			if constexpr( std::is_pointer_v<I> ) {
				Ints in;
				size_t before = 0;
				for( size_t i = 0; i < n; ++i )
					if( p[x[i]] ) {
						in.push_back( x[i] );
						before += i < t;
					}
				for( size_t i = 0, k = 0; i <= n; ++i ) {
					if( i == t )
						want.insert( want.end( ), in.begin( ), in.end( ) );
					if( i < n and not p[x[i]] )
						want.push_back( x[i] );
					(void)k;
				}
				threw = TRY( auto r = daw::algorithm::gather( v.b( ), v.e( ), v.at( t ), p ); result( v.pos( r.first ) == t - before and v.pos( r.second ) == t - before + in.size( ) ); );
				if( not threw )
					compare( "wrong-output", a.now( ), want, false );
			}
			break;
		}
		case 9: {
			g_what = "transform in place";
			threw = TRY( auto r = daw::algorithm::transform( v.b( ), v.e( ), v.b( ), []( E const &e ) { return E( 100 + note( e.val( ) ) ); } ); result( v.pos( r ) == n ); );
			for( int i : x )
				want.push_back( 100 + i );
			prefix( n );
			calls( x, threw );
			break;
		}
		default: {
			g_what = "transform_if";
			Out o;
			threw = TRY( auto r = daw::algorithm::transform_if( v.b( ), v.s( ), OutIt{ &o }, [&]( E const &e ) { return p( e ); }, []( E const &e ) { return E( 100 + note( 100 + e.val( ) ) ); } );
			             result( r.pos == o.got.size( ) ); );
			Ints seen;
			for( int i : x ) {
				seen.push_back( i );
				if( p[i] ) {
					seen.push_back( 100 + i );
					want.push_back( 200 + i );
				}
			}
			calls( seen, threw );
			wrote( o, want, threw );
			a.same( );
		}
		}
		a.guards( );
	}
	// ---- only one of the things that are done can throw, the rest is declared not to
	void one_throws( ) {
		sim::Disarmed d;
		Arr a( ints( ) );
		Ints const &x = a.x;
		size_t const n = x.size( );
		E *const b = a.r.b, *const e = a.r.e;
		E const *const cb = b, *const ce = e;
		Pred p = pred( );
		Out o;
		Ints want;
		bool threw;
		switch( sim::choose( 7 ) ) {
		case 0: {
			g_what = "remove_if with a predicate that does not throw";
			for( int i : x )
				if( not p[i] )
					want.push_back( i );
			size_t got = 0;
			threw = TRY( got = size_t( daw::algorithm::remove_if( b, e, [&]( E const &v ) noexcept { return p[v.val( )]; } ) - b ); );
			if( not threw ) {
				Ints y = a.now( );
				result( got == want.size( ) );
				y.resize( got );
				compare( "wrong-output", y, want, false );
			}
			a.guards( );
			return;
		}
		case 1: {
			g_what = "transform with an operation that gives a reference";
			int to[16], r = 0;
			threw = TRY( auto l = daw::algorithm::transform( cb, ce, to, [&]( E const &v ) -> int & {
				             r = 100 + note( v.val( ) );
				             return r;
			             } );
			             result( l == to + n ); );
			for( int i : x )
				want.push_back( 100 + i );
			compare( "wrong-output", Ints( to, to + ( threw ? g_log->size( ) : n ) ), want, threw );
			break;
		}
		case 2: {
			g_what = "set_intersection with a comparison that does not throw";
			Ints sx = x, y = ints( );
			std::sort( sx.begin( ), sx.end( ) );
			std::sort( y.begin( ), y.end( ) );
			Arr c( sx ), f( y );
			std::set_intersection( sx.begin( ), sx.end( ), y.begin( ), y.end( ), std::back_inserter( want ) );
			auto cmp = []( E const &l, E const &r ) noexcept { return l.val( ) < r.val( ); };
			threw = TRY( auto r = daw::algorithm::set_intersection( (E const *)c.r.b, (E const *)c.r.e, (E const *)f.r.b, (E const *)f.r.e, OutIt{ &o }, cmp ); result( r.pos == want.size( ) ); );
			wrote( o, want, threw );
			break;
		}
		case 3: {
			g_what = "map_reduce with functions that do not throw";
			E other( 3 );
			int s = 1;
			for( int i : x )
				s = ( s + i ) & 1 ? 3 : 1;
			E const one( 1 ), three( 3 );
			TRY( auto r = daw::algorithm::map_reduce(
			       cb, ce, cb, E( one ), [&]( E const &l, int r ) noexcept -> E const & { return ( l.val( ) + r ) & 1 ? three : one; }, []( E const &l, E const & ) noexcept { return l.val( ); } );
			     result( r.val( ) == s ); );
			break;
		}
		case 4: {
			g_what = "reduce with a function that does not throw";
			E const one( 1 ), three( 3 );
			int s = 1;
			for( int i : x )
				s = ( s + i ) & 1 ? 3 : 1;
			auto f = [&]( E const &l, E const &r ) noexcept -> E const & { return ( l.val( ) + r.val( ) ) & 1 ? three : one; };
			if( sim::choose( 2 ) )
				TRY( auto r = daw::algorithm::reduce( cb, ce, E( one ), f ); result( r.val( ) == s ); );
			else {
				g_what = "accumulate with a function that does not throw";
				TRY( auto r = daw::algorithm::accumulate( cb, ce, E( one ), f ); result( r.val( ) == s ); );
			}
			break;
		}
		case 5: {
			g_what = "transform_it with steps that throw";
			threw = TRY( auto r = daw::algorithm::transform_it( cb, ce, OutIt{ &o }, []( E const &v, OutIt w ) { *w = v; ++w; return w; } ); result( r.pos == n ); );
			wrote( o, x, threw );
			break;
		}
		default: {
			g_what = "copy to an output that throws";
			std::vector<E> to( n );
			std::vector<E> const &c = to;
			threw = TRY( auto r = daw::algorithm::copy( cb, ce, to.data( ) ); result( r == to.data( ) + n ); );
			size_t k = 0;
			while( k < n and c[k].val( ) == x[k] )
				++k;
			SIM_CHECK( threw or k == n, "wrong-output", "copy left element %zu", k );
			for( ; k < n; ++k )
				SIM_CHECK( c[k].val( ) == 0, "wrong-output", "copy wrote %d to element %zu", c[k].val( ), k );
		}
		}
		a.same( );
	}
	// ---- values, containers ----------------------------------------------------------
	struct TLess {
		bool operator( )( int l, int r ) const { return l < r; }
	};
	void values( ) {
		sim::Disarmed d;
		int const i = (int)sim::choose( 4 ), j = (int)sim::choose( 4 ), k = (int)sim::choose( 4 ), l = (int)sim::choose( 4 );
		E a( i ), b( j ), c( k ), e( l );
		switch( sim::choose( 9 ) ) {
		case 7: {
			g_what = "tuple_functor";
			bool threw = TRY( daw::algorithm::tuple_functor<4>::run( (size_t)l, std::tie( a, b, c, e ), []( E const &t ) { note( t.val( ) ); } ); );
			calls( { l == 0 ? i : l == 1 ? j : l == 2 ? k : l }, threw );
			break;
		}
		case 0: g_what = "min_item"; TRY( result( daw::algorithm::min_item( a, b, c ).val( ) == std::min( { i, j, k } ) ); ); break;
		case 1: g_what = "max_item"; TRY( result( daw::algorithm::max_item( a, b, c, e ).val( ) == std::max( { i, j, k, l } ) ); ); break;
		case 2: g_what = "minmax_item"; TRY( auto r = daw::algorithm::minmax_item( a, b ); result( r.first.val( ) == std::min( i, j ) and r.second.val( ) == std::max( i, j ) ); ); break;
		case 3: g_what = "clamp"; TRY( E &r = daw::algorithm::clamp( a, b ); result( r.val( ) == std::min( i, j ) and &r == ( i > j ? &b : &a ) ); ); break;
		case 4:
			g_what = "are_equal";
			TRY( result( daw::algorithm::are_equal( a ) ); result( daw::algorithm::are_equal( a, b ) == ( i == j ) ); result( daw::algorithm::are_equal( a, b, c ) == ( i == j and j == k ) );
			     result( daw::algorithm::are_equal( a, b, c, e ) == ( i == j and j == k and k == l ) ); );
			break;
		case 5: {
			g_what = "in_range";
			std::string const lo( size_t( 20 ), char( 'a' + std::min( i, j ) ) ), hi( size_t( 20 ), char( 'a' + std::max( i, j ) ) ), x( size_t( 20 ), char( 'a' + k ) );
			if( lo < hi ) {
				bool refused = false, threw = false;
				try {
					threw = TRY( (void)daw::algorithm::in_range( std::string( hi ), std::string( lo ) ); );
				} catch( std::out_of_range const & ) { refused = true; }
				result( refused or threw, "answer to bounds that are the wrong way around" );
			}
			TRY( auto f = daw::algorithm::in_range( std::string( lo ), std::string( hi ) ); result( f( x ) == ( lo <= x and x <= hi ) ); );
			break;
		}
		case 6: {
			g_what = "comparison with a value";
			TRY( result( daw::algorithm::equal_to( a )( b ) == ( j == i ) ); result( daw::algorithm::less_than( a )( b ) == ( j < i ) ); result( daw::algorithm::greater_than( a )( b ) == ( j > i ) );
			     result( daw::algorithm::less_than_or_equal_to( a )( b ) == ( j <= i ) ); result( daw::algorithm::greater_than_or_equal_to( a )( b ) == ( j >= i ) ); );
			break;
		}
		default: {
			g_what = "satisfies_one of a value";
			Pred p{ sim::choose( 16 ) }, q{ sim::choose( 16 ) };
			if( sim::choose( 2 ) )
				TRY( result( daw::algorithm::satisfies_one( a, p, q ) == ( p[i] or q[i] ) ); );
			else
				TRY( result( daw::algorithm::satisfies_all( a, p, q ) == ( p[i] and q[i] ) ); );
		}
		}
		result( a.val( ) == i and b.val( ) == j and c.val( ) == k and e.val( ) == l, "change to its arguments" );
	}
	void stepping( ) {
		sim::Disarmed d;
		Ints x = ints( 7 );
		std::list<int> l( x.begin( ), x.end( ) );
		ptrdiff_t const n = (ptrdiff_t)x.size( );
		ptrdiff_t const from = (ptrdiff_t)sim::choose( (uint32_t)n + 1 ), to = (ptrdiff_t)sim::choose( (uint32_t)n + 1 );
		auto li = std::next( l.begin( ), from );
		auto lt = std::next( l.begin( ), to );
		auto vi = x.begin( ) + from, vt = x.begin( ) + to;
		switch( sim::choose( 6 ) ) {
		case 0: {
			g_what = "advance";
			auto i = li;
			daw::advance( i, to - from );
			auto j = vi;
			daw::advance( j, to - from );
			result( i == lt and j == vt );
			break;
		}
		case 1: g_what = "next"; result( daw::next( li, to - from ) == lt and daw::next( vi, to - from ) == vt ); break;
		case 2: g_what = "prev"; result( daw::prev( li, from - to ) == lt and daw::prev( vi, from - to ) == vt ); break;
		case 3: g_what = "distance"; result( daw::distance( vi, vt ) == to - from and ( to < from or daw::distance( li, lt ) == to - from ) ); break;
		case 4: {
			g_what = "safe_advance";
			bool const far = sim::chance( 1, 8 ), back = sim::chance( 1, 2 );
			ptrdiff_t const by = not far ? (ptrdiff_t)sim::choose( 20 ) - 10 : back ? PTRDIFF_MIN : PTRDIFF_MAX;
			ptrdiff_t const want = far ? ( back ? 0 : n ) : std::clamp<ptrdiff_t>( from + by, 0, n );
			auto i = li;
			daw::safe_advance( l, i, by );
			auto j = vi;
			daw::safe_advance( x, j, by );
			result( i == std::next( l.begin( ), want ) and j == x.begin( ) + want );
			break;
		}
		default: {
			g_what = "begin_at, safe_next and safe_prev";
			// now and then as far as there is
			size_t const by = sim::chance( 1, 8 ) ? SIZE_MAX >> sim::choose( 3 ) : sim::choose( 10 );
			auto const up = by > (size_t)( n - from ) ? n : from + (ptrdiff_t)by;
			auto const down = by > (size_t)from ? 0 : from - (ptrdiff_t)by;
			result( daw::begin_at( l, by ) == std::next( l.begin( ), (ptrdiff_t)std::min<size_t>( (size_t)n, by ) ) and daw::begin_at( x, by ) == x.begin( ) + (ptrdiff_t)std::min<size_t>( (size_t)n, by ) );
			result( daw::safe_next( li, l.end( ), by ) == std::next( l.begin( ), up ) and daw::safe_next( vi, x.end( ), by ) == x.begin( ) + up );
			result( daw::safe_prev( li, l.begin( ), by ) == std::next( l.begin( ), down ) and daw::safe_prev( vi, x.begin( ), by ) == x.begin( ) + down );
		}
		}
	}
	void containers( ) {
		sim::Disarmed d;
		Ints const x = ints( );
		size_t const n = x.size( );
		std::vector<E> c;
		for( int i : x )
			c.emplace_back( i );
		std::vector<E> const &cc = c;
		auto now = [&] {
			Ints y;
			for( auto &e : c )
				y.push_back( e.val( ) );
			return y;
		};
		Pred p = pred( );
		Out o;
		Ints want = x, seen = x;
		bool threw = false, changed = false;
		auto fn = []( E const &e ) { return E( 100 + note( e.val( ) ) ); };
		switch( sim::choose( 20 ) ) {
		case 0:
		case 1: {
			bool const st = sim::choose( 2 ), gt = sim::choose( 2 );
			g_what = st ? "stable_sort of a container" : "sort of a container";
			auto more = []( E const &l, E const &r ) { note( 0 ); return l.val( ) > r.val( ); };
			threw = TRY( if( st ) { if( gt ) daw::container::stable_sort( c, more ); else daw::container::stable_sort( c ); } else { if( gt ) daw::container::sort( c, more ); else daw::container::sort( c ); } );
			std::sort( want.begin( ), want.end( ) );
			if( gt )
				std::reverse( want.begin( ), want.end( ) );
			changed = true;
			if( not threw )
				compare( "wrong-output", now( ), want, false );
			break;
		}
		case 2: {
			g_what = "find in a container";
			E const e( (int)sim::choose( 8 ) );
			auto const at = std::find( x.begin( ), x.end( ), e.val( ) ) - x.begin( );
			TRY( result( daw::container::find( c, e ) - c.begin( ) == at ); result( daw::container::find( cc, e ) - cc.begin( ) == at ); );
			break;
		}
		case 3:
			g_what = "find_if in a container";
			threw = TRY( result( size_t( daw::container::find_if( c, p ) - c.begin( ) ) == first( x, p ) ); );
			calls( upto( x, first( x, p ) ), threw );
			break;
		case 4:
		case 5: {
			bool const iff = sim::choose( 2 );
			g_what = iff ? "erase_remove_if" : "erase_remove";
			E const e( (int)sim::choose( 8 ) );
			int const t = e.val( );
			changed = true;
			want.clear( );
			for( int i : x )
				if( not( iff ? p[i] : i == t ) )
					want.push_back( i );
			threw = TRY( if( iff ) daw::container::erase_remove_if( c, p ); else daw::container::erase_remove( c, e ); );
			if( not threw )
				compare( "wrong-output", now( ), want, false );
			break;
		}
		case 6: {
			bool const st = sim::choose( 2 );
			g_what = st ? "stable_partition of a container" : "partition of a container";
			changed = true;
			std::stable_partition( want.begin( ), want.end( ), [&]( int i ) { return p[i]; } );
			size_t const k = (size_t)std::count_if( x.begin( ), x.end( ), [&]( int i ) { return p[i]; } );
			threw = TRY( auto r = st ? daw::container::stable_partition( c, p ) : daw::container::partition( c, p ); result( size_t( r - c.begin( ) ) == k ); );
			if( not threw ) {
				Ints y = now( );
				if( not st ) {
					std::sort( y.begin( ), y.begin( ) + (ptrdiff_t)k );
					std::sort( y.begin( ) + (ptrdiff_t)k, y.end( ) );
					std::sort( want.begin( ), want.begin( ) + (ptrdiff_t)k );
					std::sort( want.begin( ) + (ptrdiff_t)k, want.end( ) );
				}
				compare( "wrong-output", y, want, false );
			}
			break;
		}
		case 7: {
			g_what = "accumulate of a container";
			int s = 2;
			for( int i : x )
				s = s * 3 + i;
			E const init( 2 );
			if( sim::choose( 2 ) )
				TRY( auto r = daw::container::accumulate( cc, E( init ) ); result( r.val( ) == s ); );
			else {
				threw = TRY( auto r = daw::container::accumulate( cc, E( init ), []( E const &l, E const &r ) { note( r.val( ) ); return l + r; } ); result( r.val( ) == s ); );
				calls( x, threw );
			}
			break;
		}
		case 8:
			g_what = "transform of a container";
			changed = true;
			threw = TRY( auto r = daw::container::transform( c, fn ); result( size_t( r - c.begin( ) ) == n ); );
			calls( x, threw );
			want.clear( );
			for( int i : x )
				want.push_back( 100 + i );
			if( not threw )
				compare( "wrong-output", now( ), want, false );
			break;
		case 9:
		case 10: {
			g_what = "transform of a container to an output";
			OutIt out{ &o };
			threw = sim::choose( 2 ) ? TRY( auto r = daw::container::transform( cc, out, fn ); result( r.pos == n ); ) : TRY( auto r = daw::container::transform( cc, OutIt{ &o }, fn ); result( r.pos == n ); );
			calls( x, threw );
			want.clear( );
			for( int i : x )
				want.push_back( 100 + i );
			wrote( o, want, threw );
			break;
		}
		case 11: {
			g_what = "max_element of a container";
			auto const at = std::max_element( x.begin( ), x.end( ) ) - x.begin( );
			auto const low = std::min_element( x.begin( ), x.end( ) ) - x.begin( );
			auto more = []( E const &l, E const &r ) { note( 0 ); return l.val( ) > r.val( ); };
			switch( sim::choose( 4 ) ) {
			case 0: TRY( result( daw::container::max_element( c ) - c.cbegin( ) == at ); ); break;
			case 1: TRY( result( daw::container::max_element( cc ) - cc.begin( ) == at ); ); break;
			case 2: TRY( result( daw::container::max_element( c, more ) - c.begin( ) == low ); ); break;
			default: TRY( result( daw::container::max_element( cc, more ) - cc.begin( ) == low ); );
			}
			break;
		}
		case 12: {
			g_what = "contains of a container";
			int const t = (int)sim::choose( 8 );
			E const e( t );
			if( sim::choose( 2 ) ) {
				threw = TRY( result( daw::container::contains( cc, p ) == ( first( x, p ) < n ) ); );
				calls( upto( x, first( x, p ) ), threw );
			} else {
				TRY( result( daw::container::contains( cc, e ) == ( std::find( x.begin( ), x.end( ), t ) != x.end( ) ) ); );
			}
			break;
		}
		case 13: {
			size_t const m = sim::choose( 12 );
			if( sim::choose( 2 ) ) {
				g_what = "copy of a container";
				threw = TRY( daw::container::copy( cc, OutIt{ &o } ); );
			} else {
				g_what = "copy_n of a container";
				threw = TRY( daw::container::copy_n( cc, m, OutIt{ &o } ); );
				want.resize( std::min( n, m ) );
			}
			wrote( o, want, threw );
			break;
		}
		case 14:
			g_what = "copy_if of a container";
			want.clear( );
			for( int i : x )
				if( p[i] )
					want.push_back( i );
			threw = TRY( auto r = daw::container::copy_if( cc, OutIt{ &o }, p ); result( r.pos == want.size( ) ); );
			calls( x, threw );
			wrote( o, want, threw );
			break;
		case 15: {
			g_what = "for_each_with_pos";
			size_t b = 0, e = n;
			auto f = []( E const &v, size_t i ) { note( v.val( ) * 20 + (int)i ); };
			if( sim::choose( 2 ) ) {
				b = sim::choose( (uint32_t)n + 1 );
				e = b + sim::choose( (uint32_t)( n - b ) + 1 );
				threw = TRY( daw::container::for_each_with_pos( c, b, e, f ); );
			} else {
				threw = TRY( daw::container::for_each_with_pos( c, f ); );
			}
			want.clear( );
			for( size_t i = b; i < e; ++i )
				want.push_back( x[i] * 20 + (int)i );
			calls( want, threw );
			break;
		}
		case 16: {
			g_what = "for_each_subset";
			size_t const b = sim::choose( (uint32_t)n + 1 ), e = b + sim::choose( (uint32_t)( n - b ) + 1 );
			threw = TRY( daw::container::for_each_subset( c, b, e, []( std::vector<E> &v, size_t i ) { note( v[i].val( ) * 20 + (int)i ); } ); );
			want.clear( );
			for( size_t i = b; i < e; ++i )
				want.push_back( x[i] * 20 + (int)i );
			calls( want, threw );
			break;
		}
		case 17: {
			g_what = "append";
			std::vector<E> to;
			to.emplace_back( 70 );
			threw = TRY( daw::container::append( cc, to ); );
			if( not threw ) {
				Ints y;
				for( auto &e : to )
					y.push_back( e.val( ) );
				want.insert( want.begin( ), 70 );
				compare( "wrong-output", y, want, false );
			}
			break;
		}
		case 18: {
			g_what = "split";
			int const s = (int)sim::choose( 8 );
			E const e( s );
			TRY( auto r = daw::algorithm::split( c.begin( ), c.end( ), e ); sim::Disarmed d2; Ints part; size_t k = 0;
			     for( size_t i = 0; i <= n; ++i ) {
				     if( i < n and x[i] != s ) {
					     part.push_back( x[i] );
					     continue;
				     }
				     SIM_CHECK( k < r.size( ), "wrong-result", "split gave %zu parts, part %zu is missing", r.size( ), k );
				     Ints y;
				     for( auto &v : r[k] )
					     y.push_back( v.val( ) );
				     compare( "wrong-result", y, part, false );
				     part.clear( );
				     ++k;
			     } result( r.size( ) == k, "number of parts" ); );
			break;
		}
		default: {
			g_what = "partition_range";
			size_t const parts = 1 + sim::choose( 6 );
			size_t const least = sim::choose( 2 );
			TRY( auto r = least ? daw::algorithm::partition_range<3>( c.begin( ), c.end( ), parts ) : daw::algorithm::partition_range( c.begin( ), c.end( ), parts ); sim::Disarmed d2;
			     result( r.size( ) == parts, "number of parts" ); auto it = c.begin( );
			     for( auto &v : r ) {
				     result( v.begin( ) == it, "beginning of a part" );
				     it = v.end( );
			     } result( it == c.end( ), "end of the last part" ); );
		}
		}
		if( not changed ) {
			Ints const y = now( );
			SIM_CHECK( y == x, "changed-input", "%s changed a container it only reads", g_what );
		}
	}
	// ---- associative containers
	void maps( ) {
		sim::Disarmed d;
		Ints const x = ints( );
		switch( sim::choose( 4 ) ) {
		case 0: {
			g_what = "try_get";
			std::map<int, E> m;
			for( int i : x )
				m.try_emplace( i, i + 10 );
			int const t = (int)sim::choose( 8 );
			bool const has = std::find( x.begin( ), x.end( ), t ) != x.end( );
			TRY( auto r = daw::try_get( m, t ); result( r.has_value( ) == has ); if( r ) result( r->first == t and r->second.val( ) == t + 10 ); );
			auto const &cm = m;
			TRY( auto r = daw::try_get( cm, t ); result( r.has_value( ) == has ); if( r ) result( r->first == t and r->second.val( ) == t + 10 ); );
			break;
		}
		default: {
			std::multiset<int> from( x.begin( ), x.end( ) ), to, wf, wt;
			Ints const y = ints( 3 );
			to.insert( y.begin( ), y.end( ) );
			wt = to;
			int const t = (int)sim::choose( 8 );
			Pred p = pred( );
			switch( sim::choose( 3 ) ) {
			case 0:
				g_what = "extract_to";
				TRY( daw::algorithm::extract_to( from, to, t ); );
				for( int i : x )
					( i == t ? wt : wf ).insert( i );
				break;
			case 1:
				g_what = "extract_all";
				TRY( daw::algorithm::extract_all( from, to ); );
				wt.insert( x.begin( ), x.end( ) );
				break;
			default: {
				g_what = "extract_matching";
				int64_t const allocs = sim::live_allocs( );
				bool threw = TRY( daw::algorithm::extract_matching( from, to, [&]( int i ) { return p[note( i )]; } ); );
				result( sim::live_allocs( ) == allocs, "number of nodes" );
				if( threw ) {
					result( from.size( ) + to.size( ) == x.size( ) + y.size( ), "number of elements" );
					return;
				}
				for( int i : x )
					( p[i] ? wt : wf ).insert( i );
			}
			}
			result( from == wf and to == wt, "contents" );
		}
		}
	}
	template<typename I>
	void one_pass( ) {
		switch( sim::choose( 3 ) ) {
		case 0: return searching<I>( );
		case 1: return writing<I>( );
		default: return folding<I>( );
		}
	}
}
SIM_SCENARIO( stream, 4 ) {
	trk::standard_faults( );
	World w;
	one_pass<In>( );
	w.end( );
}
SIM_SCENARIO( forward, 4 ) {
	trk::standard_faults( );
	World w;
	switch( sim::choose( 6 ) ) {
	case 5: one_throws( ); break;
	case 0: one_pass<CFwd>( ); break;
	case 1: one_pass<E const *>( ); break;
	case 2: ordered<CFwd>( ); break;
	case 3: ordered<E const *>( ); break;
	default: sim::choose( 2 ) ? changing<Fwd>( ) : changing<E *>( );
	}
	w.end( );
}
SIM_SCENARIO( containers, 3 ) {
	trk::standard_faults( );
	World w;
	switch( sim::choose( 6 ) ) {
	case 0: values( ); break;
	case 1: stepping( ); break;
	case 2: maps( ); break;
	default: containers( );
	}
	w.end( );
}
