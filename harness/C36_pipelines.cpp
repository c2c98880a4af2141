// runtime: conc
// C36: a pipeline gives what its stages, done one after the other, give.
#include "tracked.h"
#include "walk.h"

#include <algorithm>
#include <array>
#include <forward_list>
#include <list>
#include <memory>
#include <numeric>
#include <optional>
#include <set>
#include <string>
#include <tuple>
#include <variant>
#include <vector>

#include <daw/daw_pipelines.h>

#include <daw/pipelines/cache_last_view.h>
#include <daw/pipelines/elements.h>

namespace sim {
	HarnessInfo const harness = {
	  "C36",
	  "A seeded run builds a random chain of one to four pipeline stages over a sequence of up to 10 numbers whose iterators may throw, ends it in a random terminal and compares the outcome with the same stages done eagerly; or walks a random-access view back and forth; or runs fixed, statically composed pipelines over throwing elements. Iterators, callbacks, projections and comparisons throw and allocations fail; after a failure the same pipeline is run again without. A run is non-trivial if a fault fired.",
	  "pipelines/*.h (all but print.h)",
	  "operator new, element, iterator, callback and random engine types",
	  1500000, 60000000, true };
}
namespace {
	namespace dp = daw::pipelines;
	using V = std::vector<int>;
	enum { S_STEP = 40, S_DEREF, S_FN };

	uint64_t calls; // of callbacks that returned

	// ---- a random-access iterator over ints that may throw -------------------
	template<bool Throws>
	struct It {
		using value_type = int;
		using reference = int const &;
		using pointer = int const *;
		using difference_type = std::ptrdiff_t;
		using iterator_category = std::random_access_iterator_tag;
		int const *p = nullptr;
		static void step( ) {
			if constexpr( Throws )
				sim::throw_point( S_STEP );
		}
		int const &operator*( ) const {
			if constexpr( Throws )
				sim::throw_point( S_DEREF );
			return *p;
		}
		int const *operator->( ) const { return &**this; }
		int const &operator[]( difference_type n ) const { return *( *this + n ); }
		It &operator++( ) {
			step( );
			++p;
			return *this;
		}
		It operator++( int ) {
			It r = *this;
			++*this;
			return r;
		}
		It &operator--( ) {
			step( );
			--p;
			return *this;
		}
		It operator--( int ) {
			It r = *this;
			--*this;
			return r;
		}
		It &operator+=( difference_type n ) {
			step( );
			p += n;
			return *this;
		}
		It &operator-=( difference_type n ) {
			step( );
			p -= n;
			return *this;
		}
		friend It operator+( It i, difference_type n ) { return i += n; }
		friend It operator+( difference_type n, It i ) { return i += n; }
		friend It operator-( It i, difference_type n ) { return i -= n; }
		friend difference_type operator-( It const &a, It const &b ) { return a.p - b.p; }
		friend bool operator==( It const &a, It const &b ) { return a.p == b.p; }
		friend auto operator<=>( It const &a, It const &b ) { return a.p <=> b.p; }
	};
	// a range of exactly n ints (a step too far is reported)
	template<bool Throws>
	struct Src {
		using value_type = int;
		std::shared_ptr<int[]> d;
		size_t n = 0;
		Src( ) = default;
		explicit Src( V const &v )
		  : d( new int[v.size( )] )
		  , n( v.size( ) ) {
			std::copy( v.begin( ), v.end( ), d.get( ) );
		}
		It<Throws> begin( ) const { return { d.get( ) }; }
		It<Throws> end( ) const { return { d.get( ) + n }; }
	};

	// ---- type-erased forward range of int ------------------------------------
	struct Node {
		virtual ~Node( ) = default;
		virtual Node *clone( ) const = 0;
		virtual void inc( ) = 0;
		virtual int get( ) = 0;
		virtual bool ne( Node const & ) const = 0;
	};
	struct AnyIt {
		using value_type = int;
		using reference = int;
		using pointer = void;
		using difference_type = std::ptrdiff_t;
		using iterator_category = std::forward_iterator_tag;
		Node *n = nullptr;
		AnyIt( ) = default;
		explicit AnyIt( Node *n_ )
		  : n( n_ ) {}
		AnyIt( AnyIt const &o ) {
			sim::Disarmed d;
			n = o.n ? o.n->clone( ) : nullptr;
		}
		AnyIt &operator=( AnyIt const &o ) {
			if( this != &o ) {
				sim::Disarmed d;
				Node *c = o.n ? o.n->clone( ) : nullptr;
				delete n;
				n = c;
			}
			return *this;
		}
		~AnyIt( ) { delete n; }
		int operator*( ) const { return n->get( ); }
		AnyIt &operator++( ) {
			n->inc( );
			return *this;
		}
		AnyIt operator++( int ) {
			AnyIt r = *this;
			n->inc( );
			return r;
		}
		friend bool operator!=( AnyIt const &a, AnyIt const &b ) {
			if( a.n == nullptr or b.n == nullptr )
				return a.n != b.n;
			return a.n->ne( *b.n );
		}
		friend bool operator==( AnyIt const &a, AnyIt const &b ) { return not( a != b ); }
	};
	template<typename I, typename S>
	struct NodeOf final : Node {
		std::optional<I> i;
		std::optional<S> s;
		explicit NodeOf( I const &x )
		  : i( x ) {}
		struct Last {};
		NodeOf( Last, S const &x )
		  : s( x ) {}
		NodeOf( NodeOf const & ) = default;
		Node *clone( ) const override { return new NodeOf( *this ); }
		void inc( ) override {
			SIM_CHECK( i.has_value( ), "past-the-end", "a stage stepped the end of the range before it" );
			++*i;
		}
		int get( ) override {
			SIM_CHECK( i.has_value( ), "past-the-end", "a stage looked at the end of the range before it" );
			return **i;
		}
		bool ne( Node const &o_ ) const override {
			auto const &o = static_cast<NodeOf const &>( o_ );
			if( i and o.i )
				return *i != *o.i;
			if( i and o.s )
				return *i != *o.s;
			if( s and o.i )
				return *o.i != *s;
			return false;
		}
	};
	template<typename I>
	struct NodeOf<I, I> final : Node {
		I i;
		explicit NodeOf( I const &x )
		  : i( x ) {}
		NodeOf( NodeOf const & ) = default;
		Node *clone( ) const override { return new NodeOf( *this ); }
		void inc( ) override { ++i; }
		int get( ) override { return *i; }
		bool ne( Node const &o ) const override { return i != static_cast<NodeOf const &>( o ).i; }
	};
	struct HolderBase {
		virtual ~HolderBase( ) = default;
		virtual AnyIt begin( ) = 0;
		virtual AnyIt end( ) = 0;
	};
	struct AnyR {
		using value_type = int;
		std::shared_ptr<HolderBase> h;
		AnyIt begin( ) const { return h ? h->begin( ) : AnyIt( ); }
		AnyIt end( ) const { return h ? h->end( ) : AnyIt( ); }
	};
	template<typename View>
	AnyIt first_of( View &v ) {
		using I = std::remove_cvref_t<decltype( std::begin( v ) )>;
		using S = std::remove_cvref_t<decltype( std::end( v ) )>;
		sim::Disarmed d;
		return AnyIt( new NodeOf<I, S>( std::begin( v ) ) );
	}
	template<typename View>
	AnyIt last_of( View &v ) {
		using I = std::remove_cvref_t<decltype( std::begin( v ) )>;
		using S = std::remove_cvref_t<decltype( std::end( v ) )>;
		sim::Disarmed d;
		if constexpr( std::is_same_v<I, S> )
			return AnyIt( new NodeOf<I, S>( std::end( v ) ) );
		else
			return AnyIt( new NodeOf<I, S>( typename NodeOf<I, S>::Last{ }, std::end( v ) ) );
	}
	// Owns the ranges a stage was given and the view it made of them.
	template<typename Src0, typename Src1, typename F>
	struct Holder final : HolderBase {
		Src0 a;
		Src1 b;
		using View = std::invoke_result_t<F &, Src0 &, Src1 &>;
		View view;
		Holder( Src0 const &x, Src1 const &y, F &f )
		  : a( x )
		  , b( y )
		  , view( f( a, b ) ) {}
		AnyIt begin( ) override { return first_of( view ); }
		AnyIt end( ) override { return last_of( view ); }
	};
	template<typename Src0, typename Src1, typename F>
	AnyR hold( Src0 const &x, Src1 const &y, F f ) {
		return AnyR{ std::shared_ptr<HolderBase>( new Holder<Src0, Src1, F>( x, y, f ) ) };
	}
	struct None {};
	// apply a stage to a range kept as an lvalue, or handed over as an rvalue
	template<typename MakeStage>
	AnyR stage( AnyR const &r, bool lvalue, MakeStage mk ) {
		if( lvalue )
			return hold( r, None{ }, [mk]( AnyR &a, None & ) { return mk( )( a ); } );
		return hold( r, None{ }, [mk]( AnyR &a, None & ) { return mk( )( AnyR( a ) ); } );
	}
	template<typename View>
	struct Whole {
		View v;
	};

	// ---- callbacks -----------------------------------------------------------
	struct Fn {
		int k = 1, m = 0;
		int operator( )( int x ) const {
			sim::throw_point( S_FN );
			++calls;
			return x * k + m;
		}
	};
	struct Pred {
		int k = 2, m = 0;
		bool operator( )( int x ) const {
			sim::throw_point( S_FN );
			++calls;
			return ( ( x % k ) + k ) % k == m;
		}
		bool model( int x ) const { return ( ( x % k ) + k ) % k == m; }
	};
	struct Below {
		int k = 0;
		bool operator( )( int x ) const {
			sim::throw_point( S_FN );
			++calls;
			return x < k;
		}
		bool model( int x ) const { return x < k; }
	};
	struct Add {
		int operator( )( int a, int b ) const {
			sim::throw_point( S_FN );
			return a * 3 + b;
		}
		static int model( int a, int b ) { return a * 3 + b; }
	};
	struct Add3 {
		int operator( )( int a, int b, int c ) const {
			sim::throw_point( S_FN );
			return a * 9 + b * 3 + c;
		}
	};
	struct AddN {
		int operator( )( size_t n, int b ) const {
			sim::throw_point( S_FN );
			return (int)n * 100 + b;
		}
	};
	struct SumOf {
		template<typename R>
		int operator( )( R const &r ) const {
			int s = 1;
			for( auto i = r.begin( ); i != r.end( ); ++i )
				s = s * 7 + *i;
			return s;
		}
	};
	int sum_of( int const *b, int const *e ) {
		int s = 1;
		for( ; b != e; ++b )
			s = s * 7 + *b;
		return s;
	}
	struct Less {
		bool down = false;
		bool operator( )( int a, int b ) const {
			sim::throw_point( S_FN );
			return down ? b < a : a < b;
		}
	};
	struct Neg {
		int operator( )( int a ) const {
			sim::throw_point( S_FN );
			return -a;
		}
	};
	struct Eq {
		bool operator( )( int a, int b ) const {
			sim::throw_point( S_FN );
			return a == b;
		}
	};
	// a random engine the simulator decides
	struct Engine {
		using result_type = uint32_t;
		uint64_t s = 1;
		static constexpr result_type min( ) { return 0; }
		static constexpr result_type max( ) { return 0xffffffffu; }
		result_type operator( )( ) {
			s = s * 6364136223846793005ull + 1442695040888963407ull;
			return (result_type)( s >> 32 );
		}
	};
	struct ModDist {
		using result_type = size_t;
		size_t lo = 0, hi = 0;
		ModDist( size_t a, size_t b )
		  : lo( a )
		  , hi( b ) {}
		template<typename E>
		size_t operator( )( E &e ) const {
			return lo + e( ) % ( hi - lo + 1 );
		}
	};

	V numbers( size_t most = 10 ) {
		V v( sim::choose( (uint32_t)most + 1 ) );
		for( int &x : v )
			x = (int)sim::choose( 9 ) - 3;
		return v;
	}
	bool same( V const &a, V const &b ) { return a == b; }
	struct Show {
		char t[96];
		Show( V const &v ) {
			size_t n = 0;
			t[0] = 0;
			for( int x : v )
				if( n < sizeof t - 14 )
					n += snprintf( t + n, sizeof t - n, "%s%d", n ? " " : "", x );
		}
	};

	// ---- one random stage ----------------------------------------------------
	struct Chain {
		AnyR r;   // the pipeline so far
		V m;      // what it stands for
		bool pure = true; // its elements may be looked at again
		char const *who = "";
		std::vector<AnyR> keep;
	};
	AnyR source( V const &v ) {
		switch( sim::choose( 3 ) ) {
		case 0: return hold( Src<true>( v ), None{ }, []( Src<true> &a, None & ) { return dp::range_t{ a }; } );
		case 1: return hold( std::list<int>( v.begin( ), v.end( ) ), None{ }, []( std::list<int> &a, None & ) { return dp::range_t{ a }; } );
		default: return hold( std::forward_list<int>( v.begin( ), v.end( ) ), None{ }, []( std::forward_list<int> &a, None & ) { return dp::range_t{ a.begin( ), a.end( ) }; } );
		}
	}
	// Choices are made disarmed and once; `make` may be run again after a failure.
	struct Step {
		char const *who;
		std::function<AnyR( AnyR const & )> make;
		std::function<V( V const & )> model;
	};
	// now and then as many as there can be, which stands for "all"
	size_t huge( size_t n ) { return sim::chance( 1, 12 ) ? SIZE_MAX >> sim::choose( 3 ) : n; }
	Step random_step( ) {
		bool const lv = sim::chance( 1, 2 );
		size_t const n = sim::choose( 12 );
		int const k = 1 + (int)sim::choose( 3 ), m = (int)sim::choose( 3 );
		size_t const many = huge( n ), width = huge( (size_t)k );
		V const other = numbers( );
		switch( sim::choose( 27 ) ) {
		case 0:
			return { "Map", [=]( AnyR const &r ) { return stage( r, lv, [=] { return dp::Map( Fn{ k, m } ); } ); },
			         [=]( V v ) {
				         for( int &x : v )
					         x = x * k + m;
				         return v;
			         } };
		case 1:
			return { "Map with a projection", [=]( AnyR const &r ) { return stage( r, lv, [=] { return dp::Map( Fn{ k, m }, Neg{ } ); } ); },
			         [=]( V v ) {
				         for( int &x : v )
					         x = -x * k + m;
				         return v;
			         } };
		case 2: {
			Pred const p{ 1 + k, m % ( 1 + k ) };
			return { "Filter", [=]( AnyR const &r ) { return stage( r, lv, [=] { return dp::Filter( p ); } ); },
			         [=]( V v ) {
				         std::erase_if( v, [=]( int x ) { return not p.model( x ); } );
				         return v;
			         } };
		}
		case 3:
			return { "Take", [=]( AnyR const &r ) { return stage( r, lv, [=] { return dp::Take( many ); } ); },
			         [=]( V v ) {
				         v.resize( std::min( many, v.size( ) ) );
				         return v;
			         } };
		case 4:
			return { "Skip", [=]( AnyR const &r ) { return stage( r, lv, [=] { return dp::Skip( many ); } ); },
			         [=]( V v ) {
				         v.erase( v.begin( ), v.begin( ) + (ptrdiff_t)std::min( many, v.size( ) ) );
				         return v;
			         } };
		case 5:
		case 6: {
			bool const until = sim::chance( 1, 2 );
			Pred const p{ 1 + k, m % ( 1 + k ) };
			return { until ? "DropUntil" : "DropWhile", [=]( AnyR const &r ) { return until ? stage( r, lv, [=] { return dp::DropUntil( p ); } ) : stage( r, lv, [=] { return dp::DropWhile( p ); } ); },
			         [=]( V v ) {
				         auto i = std::find_if( v.begin( ), v.end( ), [=]( int x ) { return p.model( x ) == until; } );
				         v.erase( v.begin( ), i );
				         return v;
			         } };
		}
		case 7:
		case 8: {
			bool const until = sim::chance( 1, 2 );
			Pred const p{ 1 + k, m % ( 1 + k ) };
			return { until ? "TakeUntil" : "TakeWhile", [=]( AnyR const &r ) { return until ? stage( r, lv, [=] { return dp::TakeUntil( p ); } ) : stage( r, lv, [=] { return dp::TakeWhile( p ); } ); },
			         [=]( V v ) {
				         auto i = std::find_if( v.begin( ), v.end( ), [=]( int x ) { return p.model( x ) == until; } );
				         v.erase( i, v.end( ) );
				         return v;
			         } };
		}
		case 9:
			return { "Every", [=]( AnyR const &r ) { return stage( r, lv, [=] { return dp::Every( (size_t)k ); } ); },
			         [=]( V const &v ) {
				         V o;
				         for( size_t i = 0; i < v.size( ); i += (size_t)k )
					         o.push_back( v[i] );
				         return o;
			         } };
		case 10:
		case 11:
			return { "Unique", [=]( AnyR const &r ) { return stage( r, lv, [=] { return dp::Unique; } ); },
			         [=]( V v ) {
				         v.erase( std::unique( v.begin( ), v.end( ) ), v.end( ) );
				         return v;
			         } };
		case 12: {
			int const hi = m + (int)sim::choose( 4 );
			return { "Clamp", [=]( AnyR const &r ) { return stage( r, lv, [=] { return dp::Clamp( m, hi ); } ); },
			         [=]( V v ) {
				         for( int &x : v )
					         x = std::clamp( x, m, hi );
				         return v;
			         } };
		}
		case 13:
			return { "Chunk", [=]( AnyR const &r ) {
				        AnyR s = r;
				        return hold( s, None{ }, [=]( AnyR &a, None & ) { return dp::Map( SumOf{ } )( dp::Chunk( width )( AnyR( a ) ) ); } );
			        },
			         [=]( V const &v ) {
				         V o;
				         for( size_t i = 0; i < v.size( ); i += std::min( width, v.size( ) ) )
					         o.push_back( sum_of( &v[i], &v[i] + std::min( v.size( ) - i, width ) ) );
				         return o;
			         } };
		case 14:
			return { "Slide", [=]( AnyR const &r ) { return hold( r, None{ }, [=]( AnyR &a, None & ) { return dp::Map( SumOf{ } )( dp::Slide( width )( AnyR( a ) ) ); } ); },
			         [=]( V const &v ) {
				         V o;
				         for( size_t i = 0; i < v.size( ) and width <= v.size( ) - i; ++i )
					         o.push_back( sum_of( &v[i], &v[i] + width ) );
				         return o;
			         } };
		case 15: {
			bool const sl = sim::chance( 1, 2 );
			return { sl ? "Slide and Flatten" : "Chunk and Flatten", [=]( AnyR const &r ) {
				        if( sl )
					        return hold( r, None{ }, [=]( AnyR &a, None & ) { return dp::Flatten( dp::Slide( (size_t)k )( AnyR( a ) ) ); } );
				        return hold( r, None{ }, [=]( AnyR &a, None & ) { return dp::Flatten( dp::Chunk( (size_t)k )( AnyR( a ) ) ); } );
			        },
			         [=]( V const &v ) {
				         if( not sl )
					         return v;
				         V o;
				         for( size_t i = 0; i + (size_t)k <= v.size( ); ++i )
					         o.insert( o.end( ), v.begin( ) + (ptrdiff_t)i, v.begin( ) + (ptrdiff_t)i + k );
				         return o;
			         } };
		}
		case 16: {
			int const how = (int)sim::choose( 3 );
			return { "Enumerate", [=]( AnyR const &r ) {
				        switch( how ) {
				        case 0: return hold( r, None{ }, [=]( AnyR &a, None & ) { return dp::MapApply( AddN{ } )( dp::Enumerate( a ) ); } );
				        case 1: return hold( r, None{ }, [=]( AnyR &a, None & ) { return dp::MapApply( AddN{ } )( dp::EnumerateWith<int>( a ) ); } );
				        default: return hold( r, None{ }, [=]( AnyR &a, None & ) { return dp::MapApply( AddN{ } )( dp::EnumerateFrom<int>( k )( a ) ); } );
				        }
			        },
			         [=]( V v ) {
				         int i = how == 2 ? k : 0;
				         for( int &x : v )
					         x = i++ * 100 + x;
				         return v;
			         } };
		}
		case 17:
		case 18: {
			AnyR const o = source( other );
			return { "Zip", [=]( AnyR const &r ) { return hold( r, o, [=]( AnyR &a, AnyR &b ) { return dp::MapApply( Add{ } )( dp::Zip( a, b ) ); } ); },
			         [=]( V v ) {
				         v.resize( std::min( v.size( ), other.size( ) ) );
				         for( size_t i = 0; i < v.size( ); ++i )
					         v[i] = Add::model( v[i], other[i] );
				         return v;
			         } };
		}
		case 19: {
			AnyR const o = source( other );
			return { "ZipMore", [=]( AnyR const &r ) { return hold( r, o, [=]( AnyR &a, AnyR &b ) { return dp::MapApply( Add{ } )( dp::ZipMore( b )( a ) ); } ); },
			         [=]( V v ) {
				         v.resize( std::min( v.size( ), other.size( ) ) );
				         for( size_t i = 0; i < v.size( ); ++i )
					         v[i] = Add::model( other[i], v[i] );
				         return v;
			         } };
		}
		case 20: {
			AnyR const o = source( other );
			return { "ZipMore onto Zip", [=]( AnyR const &r ) { return hold( r, o, [=]( AnyR &a, AnyR &b ) { return dp::MapApply( Add3{ } )( dp::ZipMore( b )( dp::Zip( a, a ) ) ); } ); },
			         [=]( V v ) {
				         v.resize( std::min( v.size( ), other.size( ) ) );
				         for( size_t i = 0; i < v.size( ); ++i )
					         v[i] = other[i] * 9 + v[i] * 4;
				         return v;
			         } };
		}
		case 21: {
			AnyR const o = source( other );
			bool const tup = sim::chance( 1, 2 );
			return { tup ? "Concat of a tuple" : "Concat", [=]( AnyR const &r ) {
				        if( tup )
					        return hold( r, o, [=]( AnyR &a, AnyR &b ) { return dp::Concat( std::tuple<AnyR, AnyR, AnyR>{ a, b, a } ); } );
				        return hold( r, o, [=]( AnyR &a, AnyR &b ) { return dp::Concat( dp::Zip( a, b, a ) ); } );
			        },
			         [=]( V const &v ) {
				         V r = v;
				         r.insert( r.end( ), other.begin( ), other.end( ) );
				         r.insert( r.end( ), v.begin( ), v.end( ) );
				         return r;
			         } };
		}
		case 22: {
			AnyR const o = source( other );
			bool const second = sim::chance( 1, 2 );
			return { "Element", [=]( AnyR const &r ) {
				        if( second )
					        return hold( r, o, [=]( AnyR &a, AnyR &b ) { return dp::Element<1>( dp::Zip( a, b ) ); } );
				        return hold( r, o, [=]( AnyR &a, AnyR &b ) { return dp::Element<0>( dp::Zip( a, b ) ); } );
			        },
			         [=]( V v ) {
				         size_t const z = std::min( v.size( ), other.size( ) );
				         if( second )
					         v = other;
				         v.resize( z );
				         return v;
			         } };
		}
		case 23: {
			AnyR const o = source( other );
			bool const sw = sim::chance( 1, 2 );
			return { sw ? "Swizzle" : "Elements", [=]( AnyR const &r ) {
				        if( sw )
					        return hold( r, o, [=]( AnyR &a, AnyR &b ) { return dp::MapApply( Add3{ } )( dp::Swizzle<1, 0, 1>( dp::Zip( a, b ) ) ); } );
				        return hold( r, o, [=]( AnyR &a, AnyR &b ) { return dp::MapApply( Add3{ } )( dp::Elements<1, 0, 1>( dp::Zip( a, b ) ) ); } );
			        },
			         [=]( V v ) {
				         v.resize( std::min( v.size( ), other.size( ) ) );
				         for( size_t i = 0; i < v.size( ); ++i )
					         v[i] = other[i] * 10 + v[i] * 3;
				         return v;
			         } };
		}
		case 24: {
			Pred const p{ 1 + k, m % ( 1 + k ) };
			int const how = (int)sim::choose( 2 );
			return { how ? "Split at a value" : "Split where", [=]( AnyR const &r ) {
				        // a last piece that is empty is left out of the comparison
				        if( how )
					        return hold( r, None{ }, [=]( AnyR &a, None & ) { return dp::Map( SumOf{ } )( dp::Split( int( m ) )( AnyR( a ) ) ); } );
				        return hold( r, None{ }, [=]( AnyR &a, None & ) { return dp::Map( SumOf{ } )( dp::Split( Pred( p ) )( AnyR( a ) ) ); } );
			        },
			         [=]( V const &v ) {
				         V o;
				         size_t b = 0;
				         for( size_t i = 0; i < v.size( ); ++i )
					         if( how ? v[i] == m : p.model( v[i] ) ) {
						         o.push_back( sum_of( v.data( ) + b, v.data( ) + i ) );
						         b = i + 1;
					         }
				         if( b < v.size( ) )
					         o.push_back( sum_of( v.data( ) + b, v.data( ) + v.size( ) ) );
				         return o;
			         } };
		}
		case 25:
			return { "CacheLast", [=]( AnyR const &r ) { return stage( r, lv, [=] { return dp::CacheLast; } ); },
			         [=]( V const &v ) { return v; } };
		default: {
			uint64_t const seed = sim::choose( 1u << 20 );
			return { "Sample", [=]( AnyR const &r ) { return stage( r, lv, [=] { return dp::Sample<ModDist>( (size_t)k, (size_t)k + 2, Engine{ seed } ); } ); },
			         [=]( V const &v ) {
				         V o;
				         Engine e{ seed };
				         ModDist d( 1, (size_t)k + 2 );
				         for( int x : v )
					         if( d( e ) <= (size_t)k )
						         o.push_back( x );
				         return o;
			         } };
		}
		}
	}

	template<typename R>
	V drain( R &&r, size_t most = 4000 ) {
		V o;
		{
			sim::Disarmed d;
			o.reserve( 64 );
		}
		auto i = std::begin( r );
		auto const e = std::end( r );
		for( ; i != e; ++i ) {
			int const x = *i;
			sim::Disarmed d;
			SIM_CHECK( o.size( ) < most, "never-ends", "a pipeline gave %zu elements and went on", o.size( ) );
			o.push_back( x );
		}
		return o;
	}
	// run f, which may fail; then run it without failures and compare
	template<typename F>
	void judge( char const *who, V const &want, F f ) {
		V got;
		int const before = (int)trk::live( );
		bool const threw = trk::faulted( [&] {
			V g = f( );
			sim::Disarmed d;
			got = g;
		} );
		if( not threw )
			SIM_CHECK( got == want, "wrong-result", "%s: gave [%s] instead of [%s]", who, Show( got ).t, Show( want ).t );
		SIM_CHECK( (int)trk::live( ) == before, "leaked-element", "%s: %d elements left behind", who, (int)trk::live( ) - before );
		if( threw ) {
			got = f( );
			SIM_CHECK( got == want, "wrong-result", "%s: after a failure gave [%s] instead of [%s]", who, Show( got ).t, Show( want ).t );
		}
	}

	// ---- a random terminal ---------------------------------------------------
	void terminal( char const *who, std::function<AnyR( )> make, V const &m ) {
		int const k = 1 + (int)sim::choose( 3 ), c = (int)sim::choose( 9 ) - 3;
		Pred const p{ 1 + k, (int)sim::choose( (uint32_t)k + 1 ) };
		bool const down = sim::chance( 1, 2 );
		int const lo = m.empty( ) ? 0 : *std::min_element( m.begin( ), m.end( ) );
		int const hi = m.empty( ) ? 0 : *std::max_element( m.begin( ), m.end( ) );
		auto const first_max = [&]( bool dn ) { return (int)( std::max_element( m.begin( ), m.end( ), [=]( int a, int b ) { return dn ? b < a : a < b; } ) - m.begin( ) ); };
		(void)lo;
		(void)hi;
		(void)first_max;
		switch( sim::choose( 20 ) ) {
		case 0:
		case 1:
		case 2: judge( who, m, [&] { return drain( make( ) ); } ); break;
		case 3: { // a copy of the iterator goes on from where it was taken
			size_t const at = m.empty( ) ? 0 : sim::choose( (uint32_t)m.size( ) );
			judge( who, V( m.begin( ) + (ptrdiff_t)at, m.end( ) ), [&] {
				AnyR r = make( );
				auto i = r.begin( );
				auto const e = r.end( );
				for( size_t j = 0; j < at and i != e; ++j )
					++i;
				auto o = i;
				size_t n = 0;
				for( ; i != e; ++i ) {
					(void)*i;
					SIM_CHECK( ++n < 4000, "never-ends", "%s: goes on", who );
				}
				V out;
				for( ; o != e; ++o ) {
					int const x = *o;
					sim::Disarmed d;
					out.push_back( x );
				}
				return out;
			} );
			break;
		}
		case 4:
			judge( who, m, [&] {
				AnyR r = make( );
				auto v = dp::pipeline( r, dp::To<std::vector> );
				return V( v.begin( ), v.end( ) );
			} );
			break;
		case 5: {
			std::set<int> s( m.begin( ), m.end( ) );
			judge( who, V( s.begin( ), s.end( ) ), [&] {
				AnyR r = make( );
				auto v = dp::To<std::set<int>>( )( r );
				return V( v.begin( ), v.end( ) );
			} );
			break;
		}
		case 6: {
			V want = m;
			bool const dflt = sim::chance( 1, 2 );
			want.resize( 5, dflt ? 0 : -9 );
			judge( who, want, [&] {
				AnyR r = make( );
				auto a = dflt ? dp::To<std::array<int, 5>>( )( r ) : dp::To<std::array<int, 5>, -9>( )( r );
				return V( a.begin( ), a.end( ) );
			} );
			break;
		}
		case 7: judge( who, V{ (int)m.size( ) }, [&] { return V{ (int)dp::Count( make( ) ) }; } ); break;
		case 8: {
			bool const as_number = sim::chance( 1, 3 );
			int const k = (int)sim::choose( 3 );
			judge( who, V{ (int)std::count_if( m.begin( ), m.end( ), [=]( int x ) { return p.model( x ); } ) }, [&] { 
				if( as_number )
					return V{ (int)dp::CountIf( [=]( int x ) { return p( x ) ? 1 + k : 0; } )( make( ) ) };
				return V{ (int)dp::CountIf( p )( make( ) ) };
			} );
			break;
		}
		case 9: judge( who, V{ std::accumulate( m.begin( ), m.end( ), 0 ) }, [&] { return V{ dp::Sum( make( ) ) }; } ); break;
		case 10: // the first greatest
			judge( who, m.empty( ) ? V{ } : V{ hi, (int)( m.size( ) - (size_t)( std::max_element( m.begin( ), m.end( ) ) - m.begin( ) ) ) }, [&] {
				AnyR r = make( );
				auto i = dp::Max( r );
				return i != r.end( ) ? V{ *i, (int)std::distance( i, r.end( ) ) } : V{ };
			} );
			break;
		case 11:
			judge( who, m.empty( ) ? V{ } : V{ down ? hi : lo }, [&] {
				AnyR r = make( );
				auto i = dp::Min( Less{ down }, std::identity{ } )( r );
				return i != r.end( ) ? V{ *i } : V{ };
			} );
			break;
		case 12:
			judge( who, m.empty( ) ? V{ } : V{ lo, hi }, [&] {
				AnyR r = make( );
				auto [a, b] = dp::MinMax( r );
				return a != r.end( ) ? V{ *a, *b } : V{ };
			} );
			break;
		case 13: {
			int const how = (int)sim::choose( 5 );
			bool const in = std::any_of( m.begin( ), m.end( ), [=]( int x ) { return how < 2 ? x == c : how == 2 ? -x == c : how == 3 ? x < c : -x < c; } );
			judge( who, V{ in }, [&] {
				AnyR r = make( );
				switch( how ) {
				case 0: return V{ dp::Contains( c )( r ) };
				case 1: return V{ dp::Contains( c, Eq{ } )( r ) };
				case 2: return V{ dp::Contains( c, Eq{ }, Neg{ } )( r ) };
				case 3: return V{ dp::Contains( c, Less{ } )( r ) }; // the element is on the left
				default: return V{ dp::Contains( c, Less{ }, Neg{ } )( r ) };
				}
			} );
			break;
		}
		case 14: {
			bool const pr = sim::chance( 1, 2 );
			auto const at = std::find( m.begin( ), m.end( ), pr ? -c : c );
			judge( who, V( at, m.end( ) ), [&] {
				AnyR r = make( );
				auto i = pr ? dp::Find( c, Neg{ } )( r ) : dp::Find( r, c );
				return drain( dp::range_t{ i, r.end( ) } );
			} );
			break;
		}
		case 15: {
			auto const at = std::find_if( m.begin( ), m.end( ), [=]( int x ) { return p.model( x ); } );
			judge( who, V( at, m.end( ) ), [&] {
				AnyR r = make( );
				auto i = dp::FindIf( p )( r );
				return drain( dp::range_t{ i, r.end( ) } );
			} );
			break;
		}
		case 16: {
			bool const less = sim::chance( 1, 2 );
			auto const at = std::adjacent_find( m.begin( ), m.end( ), [=]( int a, int b ) { return less ? a < b : a == b; } );
			judge( who, V( at, m.end( ) ), [&] {
				AnyR r = make( );
				auto i = less ? dp::FindIf<2>( Less{ } )( r ) : dp::FindIf<2>( Eq{ } )( r );
				return drain( dp::range_t{ i, r.end( ) } );
			} );
			break;
		}
		case 17: {
			size_t at = 0;
			while( at + 3 <= m.size( ) and m[at] * 9 + m[at + 1] * 3 + m[at + 2] == 0 )
				++at;
			if( at + 3 > m.size( ) )
				at = m.size( );
			judge( who, V( m.begin( ) + (ptrdiff_t)at, m.end( ) ), [&] {
				AnyR r = make( );
				auto i = dp::FindIf<3>( r, Add3{ } );
				return drain( dp::range_t{ i, r.end( ) } );
			} );
			break;
		}
		case 18:
			judge( who, m.empty( ) ? V{ } : V{ m[0] }, [&] {
				AnyR r = make( );
				auto o = down ? dp::First( )( r ) : dp::FirstRef( )( r );
				return o ? V{ *o } : V{ };
			} );
			break;
		default:
			judge( who, m, [&] {
				V seen;
				AnyR r = make( );
				AnyR back = dp::ForEach( [&]( int x ) {
					sim::throw_point( S_FN );
					sim::Disarmed d;
					SIM_CHECK( seen.size( ) < 4000, "never-ends", "%s: goes on", who );
					seen.push_back( x );
				} )( r );
				return seen;
			} );
		}
	}
}

// a random chain of stages, ended in a random terminal
SIM_SCENARIO( chain, 6 ) {
	trk::World w;
	trk::standard_faults( );
	sim::set_step_limit( 4000000 );
	{
		V m = numbers( 8 );
		AnyR const src = source( m );
		std::vector<Step> steps;
		char who[160];
		size_t wn = 0;
		unsigned weight = 1;
		for( size_t i = 0, n = 1 + sim::choose( 4 ); i < n and m.size( ) < 18; ++i ) {
			Step st = random_step( );
			// how many iterators of the range before it an iterator of it keeps
			bool const wide = strstr( st.who, "Concat" ) != nullptr;
			weight *= wide ? 6 : strstr( st.who, "Zip" ) or strstr( st.who, "Flatten" ) or strstr( st.who, "Chunk" ) or strstr( st.who, "Slide" ) or strstr( st.who, "Split" ) ? 3 : 1;
			if( weight > 30 )
				break;
			steps.push_back( st );
			m = steps.back( ).model( m );
			if( wn < sizeof who - 24 )
				wn += (size_t)snprintf( who + wn, sizeof who - wn, "%s%s", wn ? ", " : "", steps.back( ).who );
		}
		sim::log( "%s", who );
		terminal( who, [&] {
			AnyR r = src;
			for( auto &s : steps )
				r = s.make( r );
			return r;
		}, m );
	}
	w.end( );
}

// random-access views walked back and forth
SIM_SCENARIO( places, 3 ) {
	trk::World w;
	trk::standard_faults( );
	{
		V v( sim::choose( 12 ) );
		for( size_t i = 0; i < v.size( ); ++i )
			v[i] = 100 + (int)i;
		Src<true> const a( v ), b( v );
		using B = It<true>;
		int const *d = a.d.get( );
		int const *d2 = b.d.get( );
		ptrdiff_t const N = (ptrdiff_t)v.size( );
		auto const inside = [N]( ptrdiff_t p ) { return p >= 0 and p < N; };
		auto const val = []( ptrdiff_t p ) { return 100 + (int)p; };
		bool const through_const = sim::chance( 1, 2 );
		auto const star = [&]( auto &i ) -> int { return through_const ? (int)*std::as_const( i ) : (int)*i; };
		auto const zsum = [&]( auto &i ) -> int {
			if( through_const ) {
				auto const t = *std::as_const( i );
				return std::get<0>( t ) * 3 + std::get<1>( t );
			}
			auto const t = *i;
			return std::get<0>( t ) * 3 + std::get<1>( t );
		};
		auto const zval = [&]( ptrdiff_t p ) { return val( p ) * 4; };
		// a step that fails half way leaves the two apart, so these do not fail
		using Q = It<false>;
		using Z = dp::zip_iterator<Q, Q>;
		auto const zat = [&]( ptrdiff_t p ) { return Z( Q{ d + p }, Q{ d2 + p } ); };
		switch( sim::choose( 11 ) ) {
		case 0: {
			using I = dp::map_iterator<B, Fn>;
			walk<BACK | RANDOM | DIFF | ORDER | INDEX | POSTBACK, I>( "map_iterator", 0, N, [&]( ptrdiff_t p ) { return I( B{ d + p }, Fn{ 2, 1 } ); }, [&]( ptrdiff_t p ) { return val( p ) * 2 + 1; }, inside, star );
			break;
		}
		case 1: {
			using I = dp::map_iterator<B, Fn, Neg>;
			walk<BACK | RANDOM | DIFF | ORDER | INDEX | POSTBACK, I>( "map_iterator", 0, N, [&]( ptrdiff_t p ) { return I( B{ d + p }, Fn{ 2, 1 }, Neg{ } ); }, [&]( ptrdiff_t p ) { return val( p ) * -2 + 1; }, inside, star );
			break;
		}
		case 2: walk<BACK | RANDOM | DIFF | ORDER | POSTBACK, Z>( "zip_iterator", 0, N, zat, zval, inside, zsum ); break;
		case 3: {
			using I = dp::pimpl::element_iterator<Z, 1>;
			walk<BACK | RANDOM | DIFF | INDEX | POSTBACK, I>( "element_iterator", 0, N, [&]( ptrdiff_t p ) { return I( zat( p ) ); }, val, inside, star );
			break;
		}
		case 4: {
			using I = dp::pimpl::elements_iterator<Z, 1, 0>;
			walk<BACK | RANDOM | DIFF | POSTBACK, I>( "elements_iterator", 0, N, [&]( ptrdiff_t p ) { return I( zat( p ) ); }, zval, inside, zsum );
			break;
		}
		case 5: {
			using I = dp::sized_iterator<B>;
			walk<BACK | RANDOM | DIFF | ORDER | INDEX | POSTBACK, I>( "sized_iterator", 0, N, [&]( ptrdiff_t p ) { return I( B{ d + p }, (size_t)( N - p ) ); }, val, inside, star );
			break;
		}
		case 6: {
			using I = dp::iota_iterator<int>;
			walk<BACK | RANDOM | DIFF | ORDER | INDEX | POSTBACK, I>( "iota_iterator", -5, N, [&]( ptrdiff_t p ) { return I( (int)p ); }, []( ptrdiff_t p ) { return (int)p; }, []( ptrdiff_t ) { return true; }, star );
			break;
		}
		case 7: {
			using M = dp::map_iterator<B, Fn>;
			using I = dp::cache_last_iterator<M>;
			walk<BACK | POSTBACK, I>( "cache_last_iterator", 0, N, [&]( ptrdiff_t p ) { return I( M( B{ d + p }, Fn{ 2, 1 } ) ); }, [&]( ptrdiff_t p ) { return val( p ) * 2 + 1; }, inside, star );
			break;
		}
		case 8: { // the element at a distance, through const and not
			if( N == 0 )
				break;
			ptrdiff_t const p = (ptrdiff_t)sim::choose( (uint32_t)N ), q = (ptrdiff_t)sim::choose( (uint32_t)N );
			Z z = zat( p );
			dp::pimpl::elements_iterator<Z, 1, 0> e( zat( 0 ) );
			trk::faulted( [&] {
				auto const t = through_const ? std::as_const( z )[q - p] : z[q - p];
				SIM_CHECK( t.first == val( q ) and t.second == val( q ), "wrong-element", "zip_iterator: element [%td] is another", q - p );
				auto const u = through_const ? std::as_const( e )[(size_t)q] : e[(size_t)q];
				SIM_CHECK( std::get<0>( u ) == val( q ) and std::get<1>( u ) == val( q ), "wrong-element", "elements_iterator: element [%td] is another", q );
			} );
			break;
		}
		case 9: { // ranges of different lengths
			ptrdiff_t const s = (ptrdiff_t)sim::choose( (uint32_t)N + 1 );
			bool const first_shorter = sim::chance( 1, 2 );
			dp::range_t<B> const whole{ B{ d }, B{ d + N } }, part{ B{ d2 }, B{ d2 + s } };
			auto const z = first_shorter ? dp::Zip( part, whole ) : dp::Zip( whole, part );
			trk::faulted( [&] { SIM_CHECK( std::distance( z.begin( ), z.end( ) ) == s and std::distance( z.end( ), z.begin( ) ) == -s, "wrong-position", "zip of %td and %td elements is %td long", N, s, (ptrdiff_t)std::distance( z.begin( ), z.end( ) ) ); } );
			break;
		}
		default: { // a range as its own iterator
			dp::range_t<B> r{ a };
			ptrdiff_t pos = 0;
			for( int k = 0, n = (int)sim::choose( 12 ); k < n; ++k ) {
				bool const post = sim::chance( 1, 2 );
				if( sim::chance( 2, 3 ) ? pos < N : pos == 0 and pos < N ) {
					if( not trk::faulted( [&] {
						    if( post ) {
							    auto const o = r++;
							    SIM_CHECK( o.begin( ).p == d + pos, "wrong-position", "range_t: postfix ++ returned another place" );
						    } else
							    ++r;
					    } ) )
						++pos;
				} else if( pos > 0 ) {
					if( not trk::faulted( [&] {
						    if( post ) {
							    auto const o = r--;
							    SIM_CHECK( o.begin( ).p == d + pos, "wrong-position", "range_t: postfix -- returned another place" );
						    } else
							    --r;
					    } ) )
						--pos;
				}
				SIM_CHECK( r.begin( ).p == d + pos and r.cbegin( ).p == d + pos and r.end( ).p == d + N and r.cend( ).p == d + N, "wrong-position", "range_t: is not at place %td", pos );
				trk::faulted( [&] {
					SIM_CHECK( r.size( ) == (size_t)( N - pos ), "wrong-position", "range_t: size %zu of %td", r.size( ), N - pos );
					if( pos < N ) {
						ptrdiff_t const q = (ptrdiff_t)sim::choose( (uint32_t)( N - pos ) );
						SIM_CHECK( *r == val( pos ) and r[q] == val( pos + q ) and std::as_const( r )[q] == val( pos + q ) and *std::as_const( r ) == val( pos ), "wrong-element", "range_t: another element" );
					}
				} );
				dp::range_t<B> const all{ a };
				SIM_CHECK( r - all == pos and all - r == -pos, "wrong-position", "range_t: %td apart instead of %td", (ptrdiff_t)( r - all ), pos );
				SIM_CHECK( ( r == all ) == ( pos == 0 ) and ( r != all ) == ( pos != 0 ), "wrong-answer", "range_t: compares the wrong way" );
			}
		}
		}
	}
	w.end( );
}

namespace {
	using E = trk::Copy;
	struct EVal {
		int operator( )( E const &e ) const {
			sim::throw_point( S_FN );
			++calls;
			return e.val( );
		}
	};
	struct EPred {
		Pred p;
		bool operator( )( E const &e ) const { return p( e.val( ) ); }
	};
	template<typename R>
	V values( R const &r ) {
		V o;
		sim::Disarmed d;
		for( auto const &e : r )
			o.push_back( e.val( ) );
		return o;
	}
	std::vector<E> elements( V const &m ) {
		std::vector<E> v;
		v.reserve( m.size( ) + 1 );
		for( int x : m )
			v.emplace_back( x );
		return v;
	}
	V const &unchanged( V const &m, std::vector<E> const &v ) {
		SIM_CHECK( values( v ) == m, "source-changed", "a pipeline changed the range it read from" );
		return m;
	}
	uint64_t plain_calls;
	int twice( int x ) { return x * 2; }
	int count_of( std::vector<int> const &v ) { return (int)v.size( ); }
	struct Gen {
		int n = 0;
		int operator( )( ) {
			sim::throw_point( S_FN );
			return n++;
		}
	};
	// read once: all copies move together
	struct Once {
		using value_type = int;
		using reference = int;
		using pointer = void;
		using difference_type = std::ptrdiff_t;
		using iterator_category = std::input_iterator_tag;
		V const *v = nullptr;
		size_t *at = nullptr; // null: the end
		int operator*( ) const {
			sim::throw_point( S_DEREF );
			SIM_CHECK( at and *at < v->size( ), "past-the-end", "a stage looked at the end of the range before it" );
			return ( *v )[*at];
		}
		Once &operator++( ) {
			sim::throw_point( S_STEP );
			SIM_CHECK( at and *at < v->size( ), "past-the-end", "a stage stepped the end of the range before it" );
			++*at;
			return *this;
		}
		Once operator++( int ) {
			Once r = *this;
			++*this;
			return r;
		}
		bool done( ) const { return not at or *at == v->size( ); }
		friend bool operator==( Once const &a, Once const &b ) { return a.done( ) == b.done( ); }
	};
	struct OnceR {
		Once b;
		Once begin( ) const { return b; }
		Once end( ) const { return {}; }
	};
}

// fixed pipelines, composed by the compiler
SIM_SCENARIO( fixed, 4 ) {
	trk::World w;
	trk::standard_faults( );
	sim::set_step_limit( 1000000 );
	{
		V const m = numbers( ), m2 = numbers( );
		int const k = 1 + (int)sim::choose( 3 ), n = (int)sim::choose( 12 ), c = (int)sim::choose( 9 ) - 3;
		Pred const p{ 1 + k, (int)sim::choose( (uint32_t)k + 1 ) };
		bool const alt = sim::chance( 1, 2 );
		V kept = m;
		std::erase_if( kept, [=]( int x ) { return not p.model( x ); } );
		V sorted = m;
		std::sort( sorted.begin( ), sorted.end( ) );
		V taken( m.begin( ), m.begin( ) + std::min<ptrdiff_t>( n, (ptrdiff_t)m.size( ) ) );
		switch( sim::choose( 33 ) ) {
		case 0: {
			auto v = elements( m );
			judge( "Filter, Map, To", kept, [&] { return dp::pipeline( v, dp::Filter( EPred{ p } ), dp::Map( EVal{ } ), dp::To<std::vector> ); } );
			unchanged( m, v );
			break;
		}
		case 1: {
			auto v = elements( m );
			sorted.erase( std::unique( sorted.begin( ), sorted.end( ) ), sorted.end( ) );
			// not To<std::vector>: libstdc++ loses an element when a step throws
			judge( "Copy, Sort, Unique", sorted, [&] {
				V o;
				for( E const &e : dp::pipeline( v, dp::Copy, dp::Sort, dp::Unique ) )
					o.push_back( e.val( ) );
				return o;
			} );
			unchanged( m, v );
			break;
		}
		case 2: {
			auto v = elements( m );
			std::reverse( taken.begin( ), taken.end( ) );
			judge( "Take, Reverse, To", taken, [&] { return values( dp::pipeline( v, dp::Take( (size_t)n ), dp::Reverse, dp::To<std::list> ) ); } );
			unchanged( m, v );
			break;
		}
		case 3: {
			auto v = elements( m );
			judge( "Skip, First", (size_t)n < m.size( ) ? V{ m[(size_t)n] } : V{ }, [&] {
				if( alt ) {
					auto o = dp::pipeline( v, dp::Skip( (size_t)n ), dp::FirstRef );
					SIM_CHECK( not o or &o->get( ) == &v[(size_t)n], "wrong-element", "FirstRef refers to another element" );
					return o ? V{ o->get( ).val( ) } : V{ };
				}
				auto o = dp::pipeline( v, dp::Skip( (size_t)n ), dp::First );
				return o ? V{ o->val( ) } : V{ };
			} );
			unchanged( m, v );
			break;
		}
		case 4:
		case 5: {
			std::vector<std::vector<int>> vv;
			V want;
			for( size_t i = 0, z = sim::choose( 5 ); i < z; ++i ) {
				vv.push_back( numbers( 3 ) );
				want.insert( want.end( ), vv.back( ).begin( ), vv.back( ).end( ) );
			}
			if( alt )
				judge( "Flatten", want, [&] {
					V o;
					for( int &x : dp::pipeline( vv, dp::Flatten ) )
						o.push_back( x );
					return o;
				} );
			else {
				std::list<std::list<int>> ll;
				for( auto &x : vv )
					ll.emplace_back( x.begin( ), x.end( ) );
				judge( "Flatten of lists", want, [&] { return drain( dp::pipeline( ll, dp::Flatten ) ); } );
			}
			break;
		}
		case 6:
		case 7: { // a delimiter of several elements
			static constexpr std::array<int, 2> delim{ 1, 2 };
			V in, want;
			size_t const pieces = 1 + sim::choose( 3 );
			for( size_t i = 0; i < pieces; ++i ) {
				V piece( sim::choose( 3 ) + ( i + 1 == pieces ) );
				for( int &x : piece )
					x = (int)sim::choose( 2 ) + ( sim::chance( 1, 4 ) ? 3 : 0 );
				if( i )
					in.insert( in.end( ), { 1, 2 } );
				in.insert( in.end( ), piece.begin( ), piece.end( ) );
			}
			size_t b = 0;
			for( ;; ) {
				auto e = std::search( in.begin( ) + (ptrdiff_t)b, in.end( ), delim.begin( ), delim.end( ) );
				if( e == in.end( ) and b == in.size( ) )
					break;
				want.push_back( sum_of( in.data( ) + b, in.data( ) + ( e - in.begin( ) ) ) );
				if( e == in.end( ) )
					break;
				b = (size_t)( e - in.begin( ) ) + 2;
			}
			if( alt )
				judge( "Split at a range", want, [&] { return drain( dp::pipeline( in, dp::Split( delim ), dp::Map( SumOf{ } ) ) ); } );
			else
				judge( "Split at a range, Count", V{ (int)want.size( ) }, [&] { return V{ (int)dp::pipeline( in, dp::Split( delim ), dp::Count ) }; } );
			break;
		}
		case 8: {
			V want = m;
			want.insert( want.end( ), m2.begin( ), m2.end( ) );
			V a = m;
			std::list<int> b( m2.begin( ), m2.end( ) );
			if( alt )
				judge( "Concat of a zip", want, [&] { return drain( dp::Concat( dp::Zip( a, b ) ) ); } );
			else
				judge( "Concat of a tuple", want, [&] {
					auto tp = std::tuple<V &, std::list<int> &>( a, b );
					return drain( dp::Concat( tp ) );
				} );
			break;
		}
		case 9: {
			V a = m, b = m2;
			size_t const z = std::min( a.size( ), b.size( ) );
			V want( a.begin( ), a.begin( ) + (ptrdiff_t)z );
			for( size_t i = 0; i < z; ++i )
				want[i] = b[i] * 3 + a[i];
			judge( "ZipMore", want, [&] {
				auto r = dp::pipeline( a, dp::ZipMore( b ), dp::MapApply( Add{ } ) );
				return drain( r );
			} );
			break;
		}
		case 10: { // kept and used twice
			V want = kept;
			for( int &x : want )
				x = x * k + 1;
			V want2 = m2;
			std::erase_if( want2, [=]( int x ) { return not p.model( x ); } );
			for( int &x : want2 )
				x = x * k + 1;
			auto const line = dp::pipeline( dp::Filter( p ), dp::Map( Fn{ k, 1 } ), dp::To<std::vector> );
			judge( "a stored pipeline", want, [&] { return line( m ); } );
			judge( "a stored pipeline used again", want2, [&] { return line( std::list<int>( m2.begin( ), m2.end( ) ) ); } );
			break;
		}
		case 11:
		case 12: { // each value is worked out once
			uint64_t const before = calls;
			V got;
			V want = m;
			for( int &x : want )
				x = x * k + 1;
			std::erase_if( want, []( int x ) { return x % 2 == 0; } );
			bool const threw = trk::faulted( [&] {
				V g = drain( dp::pipeline( m, dp::Map( Fn{ k, 1 } ), dp::CacheLast, dp::Filter( []( int x ) { return x % 2 != 0; } ) ) );
				sim::Disarmed d;
				got = g;
			} );
			if( not threw ) {
				SIM_CHECK( got == want, "wrong-result", "Map, CacheLast, Filter: gave [%s] instead of [%s]", Show( got ).t, Show( want ).t );
				SIM_CHECK( calls - before == m.size( ), "called-again", "Map, CacheLast, Filter: the function was called %zu times for %zu elements", (size_t)( calls - before ), m.size( ) );
			}
			break;
		}
		case 30: { // one remembered value is compared with the next
			V want = m;
			for( int &x : want )
				x = x / 3 * k + 1;
			want.erase( std::unique( want.begin( ), want.end( ) ), want.end( ) );
			auto const third = []( int x ) { return x / 3; };
			judge( "Map, CacheLast, Unique", want, [&] { return drain( dp::pipeline( m, dp::Map( third ), dp::Map( Fn{ k, 1 } ), dp::CacheLast, dp::Unique ) ); } );
			break;
		}
		case 31: { // numbers of very different size
			static constexpr double sizes[] = { 1.0, -1.0, 1e30, -1e30, 3.0, 1e-3 };
			std::vector<double> d;
			for( size_t i = 0, z = sim::choose( 6 ); i < z; ++i )
				d.push_back( sizes[sim::choose( 6 )] );
			// the correction is kept exactly: at most two sizes overlap
			double sum = 0, c = 0;
			for( double x : d ) {
				double const t = sum + x;
				c += std::abs( sum ) >= std::abs( x ) ? ( sum - t ) + x : ( x - t ) + sum;
				sum = t;
			}
			trk::faulted( [&] {
				double const got = dp::pipeline( d, dp::SumKahanBabushkaNeumaier );
				SIM_CHECK( got == sum + c, "wrong-result", "SumKahanBabushkaNeumaier of %zu numbers is %g, not %g", d.size( ), got, sum + c );
			} );
			break;
		}
		case 32: { // counting from a place
			V want = m;
			for( size_t i = 0; i < want.size( ); ++i )
				want[i] += ( (int)i + n ) * 100;
			std::list<int> const l( m.begin( ), m.end( ) );
			judge( "EnumerateApplyFrom, MapApply", want, [&] {
				if( alt )
					return drain( dp::pipeline( m, dp::EnumerateApplyFrom( (size_t)n ), dp::MapApply( AddN{ } ) ) );
				return drain( dp::pipeline( l, dp::EnumerateApplyFrom( (size_t)n ), dp::MapApply( AddN{ } ) ) );
			} );
			break;
		}
		case 13: {
			uint64_t const before = calls;
			V want = kept;
			bool const threw = trk::faulted( [&] {
				V g = drain( dp::pipeline( m, dp::Filter( p ) ) );
				SIM_CHECK( g == want, "wrong-result", "Filter: gave [%s] instead of [%s]", Show( g ).t, Show( want ).t );
			} );
			if( not threw )
				SIM_CHECK( calls - before == m.size( ), "called-again", "Filter: the predicate was called %zu times for %zu elements", (size_t)( calls - before ), m.size( ) );
			break;
		}
		case 14: {
			V want = m;
			for( size_t i = 0; i < want.size( ); ++i )
				want[i] += (int)i * 100;
			if( alt )
				judge( "Enumerate, To", want, [&] {
					auto v = dp::pipeline( m, dp::Enumerate, dp::To<std::vector> );
					V o;
					for( auto const &[i, x] : v )
						o.push_back( (int)i * 100 + x );
					return o;
				} );
			else
				judge( "EnumerateApply, MapApply", want, [&] { return drain( dp::pipeline( m, dp::EnumerateApply, dp::MapApply( AddN{ } ) ) ); } );
			break;
		}
		case 15: {
			V want( (size_t)n );
			std::iota( want.begin( ), want.end( ), 0 );
			judge( "generate_n", want, [&] { return drain( dp::generate_n( (size_t)n, Gen{ } ) ); } );
			break;
		}
		case 16: {
			std::vector<double> v;
			double want = 0;
			for( int x : m ) {
				if( x > 3 ) {
					v.push_back( 1e100 );
					v.push_back( 1 );
					v.push_back( -1e100 );
					want += 1;
				}
				v.push_back( x );
				want += x;
			}
			auto const neg = []( double x ) {
				sim::throw_point( S_FN );
				return -x;
			};
			for( int pass = 0; pass < 2; ++pass ) {
				double got = 0;
				auto const f = [&] { got = alt ? -dp::SumKahanBabushkaNeumaier( neg )( v ) : dp::pipeline( v, dp::SumKahanBabushkaNeumaier ); };
				if( pass ? ( f( ), true ) : not trk::faulted( f ) )
					SIM_CHECK( got == want, "wrong-result", "the sum is %g instead of %g", got, want );
			}
			break;
		}
		case 17: {
			size_t at = 0;
			auto const f = [&] {
				at = 0;
				OnceR r{ Once{ &m, &at } };
				return alt ? drain( dp::Take( (size_t)n )( r ) ) : drain( dp::Skip( (size_t)n )( r ) );
			};
			judge( alt ? "Take from what is read once" : "Skip in what is read once", alt ? taken : V( m.begin( ) + (ptrdiff_t)taken.size( ), m.end( ) ), f );
			break;
		}
		case 18:
		case 19: {
			auto v = elements( m );
			V seen;
			size_t const how = sim::choose( 3 );
			auto const note = [&]( E &e ) {
				sim::throw_point( S_FN );
				sim::Disarmed d;
				seen.push_back( e.val( ) );
			};
			bool const threw = trk::faulted( [&] {
				switch( how ) {
				case 0: {
					auto back = dp::pipeline( v, dp::ForEach( note ) );
					SIM_CHECK( values( back ) == m, "wrong-result", "ForEach passes on another range" );
					break;
				}
				case 1: {
					auto back = dp::pipeline( v, dp::ForEachIndexed( note ) );
					SIM_CHECK( values( back ) == m, "wrong-result", "ForEachIndexed passes on another range" );
					break;
				}
				default: {
					auto const both = [&]( E &e, int const & ) { note( e ); };
					(void)dp::ForEachApply( both )( dp::Zip( v, m ) );
				}
				}
			} );
			if( not threw )
				SIM_CHECK( seen == m, "wrong-result", "for each saw [%s] of [%s]", Show( seen ).t, Show( m ).t );
			SIM_CHECK( seen.size( ) <= m.size( ) and std::equal( seen.begin( ), seen.end( ), m.begin( ) ), "wrong-result", "for each saw [%s] of [%s]", Show( seen ).t, Show( m ).t );
			unchanged( m, v );
			break;
		}
		case 20: {
			auto const in12 = []( int x ) { return x == 1 or x == 2; };
			V want = m;
			std::erase_if( want, [&]( int x ) { return alt == in12( x ); } );
			if( alt )
				judge( "Filter with Not", want, [&] { return drain( dp::pipeline( m, dp::Filter( dp::Not( dp::IsOneOf<1, 2> ) ) ) ); } );
			else
				judge( "Filter with IsOneOf", want, [&] { return drain( dp::pipeline( m, dp::Filter( dp::IsOneOf<1, 2> ) ) ); } );
			break;
		}
		case 21:
			judge( "To of one value", V{ c }, [&] {
				int x = c;
				if( alt )
					return dp::To<std::vector>( )( x );
				auto l = dp::To<std::list<int>>( )( x );
				return V( l.begin( ), l.end( ) );
			} );
			judge( "stages given one value", V{ c * 3 + 1, std::clamp( c, 0, 2 ), -c * 3 + 1 }, [&] { return V{ dp::Map( Fn{ 3, 1 } )( c ), dp::Clamp( 0, 2 )( c ), dp::Map( Fn{ 3, 1 }, Neg{ } )( c ) }; } );
			break;
		case 22: {
			auto v = elements( m );
			if( m.empty( ) )
				break;
			auto const mx = std::max_element( m.begin( ), m.end( ) ) - m.begin( );
			auto const mn = std::min_element( m.begin( ), m.end( ) ) - m.begin( );
			auto const mm = std::minmax_element( m.begin( ), m.end( ) );
			judge( "Max, Min and MinMax", V{ (int)mx, (int)mn, (int)( mm.first - m.begin( ) ), (int)( mm.second - m.begin( ) ) }, [&] {
				auto a = dp::pipeline( v, dp::Max );
				auto b = dp::pipeline( v, dp::Min );
				auto [x, y] = dp::pipeline( v, dp::MinMax );
				return V{ (int)( a - v.begin( ) ), (int)( b - v.begin( ) ), (int)( x - v.begin( ) ), (int)( y - v.begin( ) ) };
			} );
			auto const down = []( int a, int b ) { return b < a; };
			judge( "Max, Min and MinMax of a projection", V{ (int)( std::max_element( m.begin( ), m.end( ), down ) - m.begin( ) ), (int)( std::min_element( m.begin( ), m.end( ), down ) - m.begin( ) ) }, [&] {
				auto const neg = []( E const &e ) { return -e.val( ); };
				auto a = dp::Max( Less{ }, neg )( v );
				auto b = alt ? dp::Min( Less{ }, neg )( v ) : std::get<0>( dp::MinMax( Less{ }, neg )( v ) );
				return V{ (int)( a - v.begin( ) ), (int)( b - v.begin( ) ) };
			} );
			unchanged( m, v );
			break;
		}
		case 23: {
			V want = sorted;
			std::reverse( want.begin( ), want.end( ) );
			judge( "Copy, Sort downwards", want, [&] {
				V v = dp::pipeline( m, dp::Copy );
				return V( dp::Sort( Less{ true } )( v ) );
			} );
			break;
		}
		case 24: { // plain functions as stages
			V want = m;
			for( int &x : want )
				x *= 2;
			judge( "Map with a function", want, [&] { return dp::pipeline( m, dp::Map( twice ), dp::To<std::vector> ); } );
			judge( "a function as a stage", V{ (int)m.size( ) * 2 }, [&] { return V{ dp::pipeline( m, count_of, dp::Map( twice ) ) }; } );
			break;
		}
		case 25: {
			size_t const z = std::min( m.size( ), m2.size( ) );
			V want( m.begin( ), m.begin( ) + (ptrdiff_t)z );
			for( size_t i = 0; i < z; ++i )
				want[i] = m[i] * 3 + m2[i];
			auto const line = dp::pipeline( dp::Zip, dp::MapApply( Add{ } ), dp::To<std::vector> );
			judge( "a stored pipeline of two ranges", want, [&] { return line( m, m2 ); } );
			break;
		}
		case 26: {
			V want;
			for( size_t i = 0; i < m.size( ); i += (size_t)k )
				want.push_back( (int)std::min( (size_t)k, m.size( ) - i ) );
			auto v = elements( m );
			judge( "Chunk", want, [&] {
				V o;
				size_t at = 0;
				for( auto ch : dp::pipeline( v, dp::Chunk( (size_t)k ) ) ) {
					int z = 0;
					for( auto const &e : ch ) {
						SIM_CHECK( &e == &v[at++], "wrong-element", "a chunk shows another element" );
						++z;
					}
					o.push_back( z );
				}
				return o;
			} );
			V sizes( m.size( ) >= (size_t)k ? m.size( ) - (size_t)k + 1 : 0, k );
			judge( "Slide", sizes, [&] {
				V o;
				size_t at = 0;
				for( auto ch : dp::pipeline( v, dp::Slide( (size_t)k ) ) ) {
					size_t z = 0;
					for( auto const &e : ch ) {
						SIM_CHECK( &e == &v[at + z], "wrong-element", "a window shows another element" );
						++z;
					}
					o.push_back( (int)z );
					++at;
				}
				return o;
			} );
			break;
		}
		case 27: {
			V a = m;
			judge( "Swizzle of single values", m, [&] {
				V o;
				for( auto const &[x, y] : dp::Swizzle<0, 0>( a ) ) {
					SIM_CHECK( &x == &y, "wrong-element", "Swizzle names two elements" );
					o.push_back( x );
				}
				return o;
			} );
			break;
		}
		case 28: {
			V want = m;
			want.resize( 4 );
			for( size_t i = m.size( ); i < 4; ++i )
				want[i] = 77;
			auto const f = [&] {
				auto a = dp::pipeline( m, dp::To<std::array<int, 4>, [] { return 77; }> );
				return V( a.begin( ), a.end( ) );
			};
			judge( "To an array with a default", want, f );
			break;
		}
		default: { // writing through a pipeline
			V a = m;
			V want = m;
			for( int &x : want )
				if( p.model( x ) )
					x = 50;
			bool const threw = trk::faulted( [&] {
				for( int &x : dp::pipeline( a, dp::Filter( p ) ) )
					x = 50;
			} );
			if( not threw )
				SIM_CHECK( a == want, "wrong-result", "writing through Filter: [%s] instead of [%s]", Show( a ).t, Show( want ).t );
		}
		}
	}
	w.end( );
}
