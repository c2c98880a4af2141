// runtime: conc
// C21: value_ptr and poly_value own one object each and copy it deeply.
#include "tracked.h"

#include <daw/daw_attributes.h>
#include <daw/daw_move.h>
#include <daw/daw_poly_value.h>
#include <daw/daw_value_ptr.h>
#include <memory>
#include <optional>
#include <string>
#include <vector>

namespace sim {
	HarnessInfo const harness = {
	  "C21",
	  "A seeded run applies random operations (making, copying, moving, assigning values and pointers, aliased forms, swapping, releasing, resetting, comparing, converting from a derived class) to several value pointers of one of nine element types, or to several polymorphic values holding one of four classes, with failing allocation and throwing constructors, copies, moves, assignments and comparisons at any point, and compares what they hold with a model. A run is non-trivial if a fault fired.",
	  "daw_value_ptr.h, daw_poly_value.h",
	  "operator new, element operations",
	  400000, 12000000, true };
}
namespace {
	using Fixed = trk::Elem<trk::DEFAULT>; // neither copy nor move
	int value( int x ) { return x; }
	int value( std::string const &x ) { return (int)x.size( ); }
	template<unsigned F>
	int value( trk::Elem<F> const &x ) { return x.val( ); }
	template<typename T>
	T fresh( int v ) {
		if constexpr( std::is_same_v<T, std::string> )
			return std::string( (size_t)v, 'x' );
		else
			return T( v );
	}
	template<typename T>
	void change( T &x, int v ) {
		if constexpr( std::is_same_v<T, std::string> )
			x.assign( (size_t)v, 'x' );
		else if constexpr( std::is_same_v<T, int> )
			x = v;
		else
			x.set( v );
	}
	template<typename P>
	P make( int v ) {
		using T = typename P::value_type;
		if constexpr( std::is_same_v<T, std::string> )
			return P( (size_t)v, 'x' );
		else
			return P( v );
	}
	using Opt = std::optional<int>;
	template<typename T>
	void same( daw::value_ptr<T> &p, Opt const &m, char const *after ) {
		auto const &c = p;
		SIM_CHECK( static_cast<bool>( p ) == m.has_value( ) and static_cast<bool>( c ) == m.has_value( ), "wrong-state", "after %s a value pointer %s", after, m ? "is empty" : "is not empty" );
		SIM_CHECK( ( p.get( ) != nullptr ) == m.has_value( ) and c.get( ) == p.get( ), "wrong-state", "after %s get disagrees", after );
		if( m ) {
			SIM_CHECK( &*p == p.get( ) and &*c == p.get( ) and p.operator->( ) == p.get( ) and c.operator->( ) == p.get( ), "wrong-address", "after %s the ways to reach the value disagree", after );
			SIM_CHECK( value( *c ) == *m, "wrong-value", "after %s a value pointer holds %d instead of %d", after, value( *c ), *m );
		}
	}
	template<typename T>
	void history( ) {
		using P = daw::value_ptr<T>;
		constexpr bool elem = not std::is_same_v<T, int> and not std::is_same_v<T, std::string>;
		constexpr bool copyable = std::is_copy_constructible_v<T>;
		constexpr bool movable = std::is_move_constructible_v<T>;
		static_assert( std::is_same_v<decltype( std::declval<P const &>( ).get( ) ), T const *> );
		static_assert( std::is_nothrow_move_constructible_v<P> );
		trk::World w;
		int64_t const base = sim::live_allocs( );
		trk::standard_faults( );
		{
			P p[3] = { P( std::nullopt ), P( std::nullopt ), P( std::nullopt ) };
			Opt m[3];
			for( int step = 0, n = 2 + (int)sim::choose( 12 ); step < n; ++step ) {
				int const i = (int)sim::choose( 3 ), j = (int)sim::choose( 3 );
				int const v = 1 + (int)sim::choose( 40 );
				char const *name = "?";
				Opt next = m[i]; // if it succeeds
				bool failed = false;
				switch( sim::choose( 14 ) ) {
				case 0:
					name = "making";
					failed = trk::faulted( [&] {
						P t = make<P>( v );
						p[i] = std::move( t );
					} );
					next = v;
					break;
				case 1:
					name = "making with emplace";
					if constexpr( elem ) {
						failed = trk::faulted( [&] { p[i] = P::template emplace<T>( v ); } );
						next = v;
					}
					break;
				case 2:
					name = "default construction";
					if constexpr( std::is_default_constructible_v<T> ) {
						failed = trk::faulted( [&] { p[i] = P( ); } );
						next = 0;
					}
					break;
				case 3: {
					name = "copy construction";
					if constexpr( copyable ) {
						T const *const from = p[j].get( );
						failed = trk::faulted( [&] {
							P t( std::as_const( p[j] ) );
							SIM_CHECK( not from or t.get( ) != from, "shared-value", "a copy shares the object of the original" );
							p[i] = std::move( t );
						} );
						next = m[j];
					}
					break;
				}
				case 4:
					name = "copy assignment";
					if constexpr( copyable ) {
						failed = trk::faulted( [&] { p[i] = std::as_const( p[j] ); } );
						next = m[j];
						if( not failed and i != j )
							SIM_CHECK( not p[i] or p[i].get( ) != p[j].get( ), "shared-value", "a copy shares the object of the original" );
					}
					break;
				case 5: {
					name = "move assignment";
					T const *const from = p[j].get( );
					auto const before = trk::S->copies + trk::S->moves;
					failed = trk::faulted( [&] { p[i] = std::move( p[j] ); } );
					SIM_CHECK( not failed, "move-failed", "a move assignment failed" );
					SIM_CHECK( p[i].get( ) == from and before == trk::S->copies + trk::S->moves, "object-moved", "moving a value pointer moved the object" );
					next = m[j];
					if( i != j )
						m[j].reset( );
					break;
				}
				case 6: {
					name = "move construction";
					T const *const from = p[i].get( );
					failed = trk::faulted( [&] {
						P t( std::move( p[i] ) );
						SIM_CHECK( not p[i], "wrong-state", "a value pointer that was moved from is not empty" );
						SIM_CHECK( t.get( ) == from, "object-moved", "moving a value pointer moved the object" );
						p[j] = std::move( t );
					} );
					SIM_CHECK( not failed, "move-failed", "a move construction failed" );
					m[j] = m[i];
					if( i != j )
						m[i].reset( );
					next = m[i];
					break;
				}
				case 7:
					name = "assigning a value";
					if constexpr( copyable ) {
						if( m[j] and sim::choose( 3 ) ) { // possibly its own
							failed = trk::faulted( [&] { p[i] = std::as_const( *p[j] ); } );
							next = m[j];
						} else {
							failed = trk::faulted( [&] {
								T const t = fresh<T>( v );
								p[i] = t;
							} );
							next = v;
						}
					}
					break;
				case 8:
					name = "assigning a temporary value";
					if constexpr( movable ) {
						failed = trk::faulted( [&] { p[i] = fresh<T>( v ); } );
						next = v;
					}
					break;
				case 9:
					name = "reset";
					p[i].reset( );
					next.reset( );
					break;
				case 10: {
					name = "release";
					T *const was = p[i].get( );
					std::unique_ptr<T> r( p[i].release( ) );
					SIM_CHECK( r.get( ) == was, "wrong-release", "release gave another pointer" );
					SIM_CHECK( not p[i], "wrong-state", "a released value pointer is not empty" );
					if( r )
						SIM_CHECK( value( *r ) == *m[i], "wrong-value", "the released object is damaged" );
					next.reset( );
					break;
				}
				case 11: {
					name = "swap";
					T const *const a = p[i].get( ), *const b = p[j].get( );
					switch( sim::choose( 3 ) ) {
					case 0: p[i].swap( p[j] ); break;
					case 1: swap( p[i], p[j] ); break;
					default: {
						using std::swap;
						swap( p[i], p[j] );
					}
					}
					SIM_CHECK( p[i].get( ) == b and p[j].get( ) == a, "object-moved", "swapping value pointers did not exchange the objects" );
					std::swap( m[i], m[j] );
					next = m[i];
					break;
				}
				case 12: {
					name = "comparison";
					int c = 9;
					bool ops[6] = { };
					bool const fault = trk::faulted( [&] {
						auto const &a = p[i];
						auto const &b = p[j];
						c = a.compare( b );
						ops[0] = a == b;
						ops[1] = a != b;
						ops[2] = a < b;
						ops[3] = a <= b;
						ops[4] = a > b;
						ops[5] = a >= b;
					} );
					if( not fault ) {
						Opt const a = m[i], b = m[j];
						SIM_CHECK( ( c < 0 ) == ( a < b ) and ( c > 0 ) == ( a > b ) and ops[0] == ( a == b ) and ops[1] == ( a != b ) and ops[2] == ( a < b ) and ops[3] == ( a <= b ) and ops[4] == ( a > b ) and ops[5] == ( a >= b ), "wrong-order", "comparing %d with %d is wrong: %d %d%d%d%d%d%d", a.value_or( -1 ), b.value_or( -1 ), c, ops[0], ops[1], ops[2], ops[3], ops[4], ops[5] );
					} else
						failed = true;
					if constexpr( std::is_same_v<T, int> )
						if( m[i] )
							SIM_CHECK( std::hash<P>{ }( p[i] ) == std::hash<int>{ }( *m[i] ), "wrong-hash", "the hash is not that of the value" );
					break;
				}
				default:
					name = "changing the value";
					if( m[i] ) {
						switch( sim::choose( 4 ) ) {
						case 0: change( *p[i], v ); break;
						case 1: change( *p[i].get( ), v ); break;
						case 2: change( *p[i].operator->( ), v ); break;
						default: change( static_cast<T &>( p[i] ), v );
						}
						next = v;
					}
				}
				if( failed )
					sim::probe( "failed-operation" );
				else
					m[i] = next;
				for( int k = 0; k < 3; ++k )
					same( p[k], m[k], failed ? "a failed operation" : name );
				if constexpr( elem )
					SIM_CHECK( trk::live( ) == m[0].has_value( ) + m[1].has_value( ) + m[2].has_value( ), "leaked-element", "after %s%s there are %d objects", failed ? "failed " : "", name, trk::live( ) );
				sim::state( ( m[0] ? 1u : 0u ) + ( m[1] ? 2u : 0u ) + ( m[2] ? 4u : 0u ) + ( failed ? 8u : 0u ) );
			}
			sim::log( "%d %d %d", m[0].value_or( 0 ), m[1].value_or( 0 ), m[2].value_or( 0 ) );
		}
		w.end( "object" );
		SIM_CHECK( sim::live_allocs( ) == base, "leaked-memory", "%ld allocations are left", (long)( sim::live_allocs( ) - base ) );
	}

	// polymorphic classes
	using Part = trk::Elem<trk::COPY | trk::MOVE | trk::DEFAULT>;
	struct Root {
		Part part;
		Root( )
		  : part( 0 ) {}
		explicit Root( int v )
		  : part( v ) {}
		Root( Root const & ) = default;
		Root( Root && ) = default;
		Root &operator=( Root const & ) = default;
		Root &operator=( Root && ) = default;
		virtual ~Root( ) = default;
		virtual int kind( ) const { return 0; }
		virtual int number( ) const { return part.val( ); }
		virtual void change( int v ) { part.set( v ); }
		virtual int operator( )( int x ) const { return x + number( ); }
	};
	struct Other {
		long pad[3] = { 1, 2, 3 };
		virtual ~Other( ) = default;
		virtual long sum( ) const { return pad[0] + pad[1] + pad[2]; }
	};
	struct Mid : Other, Root { // Root is not at the start
		std::string text;
		Mid( )
		  : Mid( 0 ) {}
		explicit Mid( int v )
		  : Root( v )
		  , text( (size_t)v + 20, 'm' ) {}
		int kind( ) const override { return 1; }
		int number( ) const override {
			SIM_CHECK( (int)text.size( ) == part.val( ) + 20 and sum( ) == 6, "damaged-object", "the parts of an object disagree" );
			return part.val( );
		}
		void change( int v ) override {
			text.assign( (size_t)v + 20, 'm' );
			part.set( v );
		}
	};
	struct Leaf : Mid {
		Part more;
		Leaf( )
		  : Leaf( 0 ) {}
		explicit Leaf( int v )
		  : Mid( v )
		  , more( v + 1 ) {}
		int kind( ) const override { return 2; }
		int number( ) const override {
			SIM_CHECK( more.val( ) == part.val( ) + 1, "damaged-object", "the parts of an object disagree" );
			return Mid::number( );
		}
		void change( int v ) override {
			Mid::change( v );
			more.set( v + 1 );
		}
	};
	struct CopyLeaf final : Root { // cannot be moved
		Part more;
		CopyLeaf( int v, std::string const &s, std::unique_ptr<int> q )
		  : Root( v )
		  , more( (int)s.size( ) + *q ) {}
		CopyLeaf( CopyLeaf const & ) = default;
		CopyLeaf &operator=( CopyLeaf const & ) = delete;
		int kind( ) const override { return 3; }
		int number( ) const override {
			SIM_CHECK( more.val( ) == 5, "damaged-object", "the parts of an object disagree" );
			return part.val( );
		}
	};
	struct PM {
		bool gone = false; // moved from: only good for being replaced or destroyed
		int kind = 0, v = 0;
	};
	template<typename Base>
	void same( daw::poly_value<Base> &p, PM const &m, char const *after ) {
		if( m.gone )
			return;
		auto const &c = p;
		Base &l = p;
		Base const &cl = c;
		SIM_CHECK( p.get( ) == c.get( ) and &*p == p.get( ) and &*c == p.get( ) and p.operator->( ) == p.get( ) and c.operator->( ) == p.get( ) and &l == p.get( ) and &cl == p.get( ), "wrong-address", "after %s the ways to reach the value disagree", after );
		SIM_CHECK( c->kind( ) == m.kind, "wrong-class", "after %s a polymorphic value holds class %d instead of %d", after, c->kind( ), m.kind );
		SIM_CHECK( c->number( ) == m.v, "wrong-value", "after %s a polymorphic value holds %d instead of %d", after, c->number( ), m.v );
	}
	void poly( ) {
		using P = daw::poly_value<Root>;
		using Q = daw::poly_value<Mid>;
		trk::World w;
		int64_t const base = sim::live_allocs( );
		trk::standard_faults( );
		{
			auto const start = [] {
				sim::Disarmed d;
				return P( );
			};
			P p[3] = { start( ), start( ), start( ) };
			PM m[3];
			Q q[2] = { Q( ), Q( daw::construct_emplace<Leaf>, 3 ) };
			PM qm[2] = { { false, 1, 0 }, { false, 2, 3 } };
			for( int step = 0, n = 2 + (int)sim::choose( 12 ); step < n; ++step ) {
				int const i = (int)sim::choose( 3 ), j = (int)sim::choose( 3 );
				int const qi = (int)sim::choose( 2 ), qj = (int)sim::choose( 2 );
				int const v = 1 + (int)sim::choose( 40 );
				char const *name = "?";
				bool failed = false;
				PM next = m[i], qnext = qm[qi];
				switch( sim::choose( 14 ) ) {
				case 0: { // in place
					name = "construction in place";
					int const k = (int)sim::choose( 4 );
					failed = trk::faulted( [&] {
						switch( k ) {
						case 0: p[i] = P( daw::construct_emplace<Root>, v ); break;
						case 1: p[i] = P( daw::construct_emplace<Mid>, v ); break;
						case 2: p[i] = P( daw::construct_emplace<Leaf>, v ); break;
						default: p[i] = P( daw::construct_emplace<CopyLeaf>, v, std::string( "abc" ), std::make_unique<int>( 2 ) );
						}
					} );
					next = { false, k, v };
					break;
				}
				case 1: { // from a value
					name = "construction from a value";
					int const k = (int)sim::choose( 3 );
					bool const mv = sim::choose( 2 );
					auto const go = [&]( auto &&x ) {
						if( mv )
							p[i] = P( std::move( x ) );
						else
							p[i] = P( x );
						if( not mv )
							SIM_CHECK( x.number( ) == v, "changed-argument", "the value given was changed" );
					};
					failed = trk::faulted( [&] {
						switch( k ) {
						case 0: go( Root( v ) ); break;
						case 1: go( Mid( v ) ); break;
						default: go( Leaf( v ) );
						}
					} );
					next = { false, k, v };
					break;
				}
				case 2:
					name = "assigning a value";
					failed = trk::faulted( [&] { p[i] = Leaf( v ); } );
					next = { false, 2, v };
					break;
				case 3:
					name = "copy construction";
					if( m[j].gone )
						continue;
					failed = trk::faulted( [&] {
						P t( std::as_const( p[j] ) );
						SIM_CHECK( t.get( ) != p[j].get( ), "shared-value", "a copy shares the object of the original" );
						{
							sim::Disarmed d;
							t->number( );
						}
						p[i] = std::move( t );
					} );
					next = m[j];
					break;
				case 4:
					name = "copy assignment";
					if( m[j].gone )
						continue;
					failed = trk::faulted( [&] { p[i] = std::as_const( p[j] ); } );
					next = m[j];
					if( i != j )
						SIM_CHECK( m[i].gone or p[i].get( ) != p[j].get( ), "shared-value", "a copy shares the object of the original" );
					break;
				case 5:
					name = "move assignment";
					if( m[j].gone )
						continue;
					failed = trk::faulted( [&] { p[i] = std::move( p[j] ); } );
					next = m[j];
					if( i != j ) // a move that fails may have moved some parts
						m[j].gone = true;
					break;
				case 6:
					name = "move construction";
					if( m[j].gone )
						continue;
					{
						failed = trk::faulted( [&] {
							P t( std::move( p[j] ) );
							p[i] = std::move( t );
						} );
						next = m[j];
						m[j].gone = true;
					}
					break;
				case 7:
				case 8: { // from a value of a derived class
					name = "conversion from a value of a derived class";
					if( qm[qj].gone )
						continue;
					bool const mv = sim::choose( 2 );
					failed = trk::faulted( [&] {
						P t = [&] {
							if( mv )
								return P( std::move( q[qj] ) );
							return P( std::as_const( q[qj] ) );
						}( );
						p[i] = std::move( t );
					} );
					next = qm[qj];
					if( mv )
						qm[qj].gone = true;
					qnext = qm[qi];
					break;
				}
				case 9:
					name = "assigning to a value of a derived class";
					if( sim::choose( 2 ) ) {
						failed = trk::faulted( [&] { q[qi] = Q( daw::construct_emplace<Leaf>, v ); } );
						qnext = { false, 2, v };
					} else if( sim::choose( 2 ) ) {
						failed = trk::faulted( [&] { q[qi] = Mid( v ); } );
						qnext = { false, 1, v };
					} else if( not qm[qj].gone ) {
						failed = trk::faulted( [&] { q[qi] = std::as_const( q[qj] ); } );
						qnext = qm[qj];
					}
					break;
				case 10:
					name = "default construction";
					failed = trk::faulted( [&] { p[i] = P( ); } );
					next = { false, 0, 0 };
					break;
				case 11: {
					name = "taking the base out";
					if( m[i].gone )
						continue;
					bool const c = sim::choose( 2 );
					int got = -1;
					bool const fault = trk::faulted( [&] {
						if( c ) {
							Root const &&r = std::move( std::as_const( p[i] ) );
							sim::Disarmed d;
							got = r.part.val( );
						} else {
							m[i].gone = true;
							Root r( static_cast<Root &&>( std::move( p[i] ) ) );
							sim::Disarmed d;
							got = r.part.val( );
						}
					} );
					if( not fault ) {
						SIM_CHECK( got == m[i].v, "wrong-value", "the base taken out is %d instead of %d", got, m[i].v );
						if( not c )
							next.gone = true;
					}
					break;
				}
				default:
					name = "changing the value";
					if( m[i].gone or m[i].kind == 3 )
						continue;
					switch( sim::choose( 4 ) ) {
					case 0: p[i]->change( v ); break;
					case 1: ( *p[i] ).change( v ); break;
					case 2: p[i].get( )->change( v ); break;
					default: static_cast<Root &>( p[i] ).change( v );
					}
					next.v = v;
				}
				if( failed )
					sim::probe( "failed-operation" );
				else {
					m[i] = next;
					qm[qi] = qnext;
				}
				for( int k = 0; k < 3; ++k )
					same( p[k], m[k], failed ? "a failed operation" : name );
				for( int k = 0; k < 2; ++k )
					same( q[k], qm[k], failed ? "a failed operation" : name );
				sim::state( (uint64_t)( m[0].kind + 4 * m[0].gone ) * 64 + (uint64_t)( m[1].kind + 4 * m[1].gone ) * 8 + (uint64_t)( m[2].kind + 4 * m[2].gone ) + ( failed ? 512 : 0 ) );
			}
			sim::log( "%d%d%d", m[0].v, m[1].v, m[2].v );
		}
		w.end( "object" );
		SIM_CHECK( sim::live_allocs( ) == base, "leaked-memory", "%ld allocations are left", (long)( sim::live_allocs( ) - base ) );
	}
	// a value pointer to a base that owns an object of a derived class
	void derived( ) {
		using P = daw::value_ptr<Root>;
		trk::World w;
		int64_t const base = sim::live_allocs( );
		trk::standard_faults( );
		{
			P p[2] = { P( std::nullopt ), P( std::nullopt ) };
			int kind[2] = { -1, -1 }, num[2] = { };
			for( int step = 0, n = 2 + (int)sim::choose( 6 ); step < n; ++step ) {
				int const i = (int)sim::choose( 2 ), v = 1 + (int)sim::choose( 30 ), k = (int)sim::choose( 3 );
				switch( sim::choose( 4 ) ) {
				case 0:
				case 1:
					if( not trk::faulted( [&] {
						    p[i] = k == 0 ? P::emplace<Root>( v ) : k == 1 ? P::emplace<Mid>( v ) : P::emplace<Leaf>( v );
					    } ) ) {
						kind[i] = k;
						num[i] = v;
					}
					break;
				case 2:
					p[i] = std::move( p[1 - i] );
					kind[i] = kind[1 - i];
					num[i] = num[1 - i];
					kind[1 - i] = -1;
					break;
				default:
					p[0].swap( p[1] );
					std::swap( kind[0], kind[1] );
					std::swap( num[0], num[1] );
				}
				for( int x = 0; x < 2; ++x ) {
					SIM_CHECK( static_cast<bool>( p[x] ) == ( kind[x] >= 0 ), "wrong-state", "a value pointer to a derived class is wrongly empty or not" );
					if( kind[x] >= 0 )
						SIM_CHECK( p[x]->kind( ) == kind[x] and p[x]->number( ) == num[x] and p[x]( 5 ) == num[x] + 5, "wrong-value", "a value pointer holds another object" );
				}
			}
		}
		w.end( "object" );
		SIM_CHECK( sim::live_allocs( ) == base, "leaked-memory", "%ld allocations are left", (long)( sim::live_allocs( ) - base ) );
	}
}
SIM_SCENARIO( value_pointer, 4 ) {
	switch( sim::choose( 9 ) ) {
	case 0: history<trk::Copy>( ); break;
	case 1: history<trk::NxMove>( ); break;
	case 2: history<trk::MoveOnly>( ); break;
	case 3: history<trk::MoveOnlyThrow>( ); break;
	case 4: history<trk::CopyOnly>( ); break;
	case 5: history<trk::Safe>( ); break;
	case 6: history<Fixed>( ); break;
	case 7: history<std::string>( ); break;
	default: history<int>( );
	}
}
SIM_SCENARIO( polymorphic, 3 ) { poly( ); }
SIM_SCENARIO( derived_class, 1 ) { derived( ); }

namespace {
	// built from what it is given: a copy of what was kept, the rest by move
	struct Built {
		trk::Passed a, b;
		Built( trk::Passed x, trk::Passed const &y )
		  : a( std::move( x ) )
		  , b( y ) {}
		void is( char const *who, int v ) const {
			SIM_CHECK( a.v == v and b.v == v + 1 and a.copies == 0 and b.copies == 1, "copied-argument", "%s: got %d and %d, copied %d and %d times", who, a.v, b.v, a.copies, b.copies );
		}
	};
	struct Parts {
		trk::Passed a, b;
		void is( char const *who, int v ) const {
			SIM_CHECK( a.v == v and b.v == v + 1 and a.copies == 0 and b.copies == 1, "copied-argument", "%s: got %d and %d, copied %d and %d times", who, a.v, b.v, a.copies, b.copies );
		}
	};
}
SIM_SCENARIO( arguments, 1 ) {
	int const v = (int)sim::choose( 100 );
	trk::Passed const kept( v + 1 );
	daw::value_ptr<Built>( trk::Passed( v ), kept )->is( "value_ptr", v );
	struct Adds {
		int operator( )( trk::Passed a, trk::Passed const &b ) const {
			SIM_CHECK( a.copies == 0 and b.copies == 0, "copied-argument", "calling through a value_ptr copied %d and %d times", a.copies, b.copies );
			return a.v + b.v;
		}
	};
	daw::value_ptr<Adds> f;
	int const sum = f( trk::Passed( v ), kept );
	SIM_CHECK( sum == 2 * v + 1, "copied-argument", "calling through a value_ptr gave %d", sum );
}
