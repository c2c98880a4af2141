// Tracked element type: every construction, destruction, copy, move and use is
// checked against a per-run registry, and any of them may be made to throw.
#pragma once
#include "sim.h"

#include <cassert>
#include <compare>
#include <cstring>
#include <functional>
#include <utility>

namespace trk {
	enum Flag : unsigned {
		COPY = 1,        // copyable
		MOVE = 2,        // has its own move operations
		NX_MOVE = 4,     // the moves are noexcept (and never throw)
		DEFAULT = 8,     // default constructible
		NX_COPY = 16,    // copies never throw
	};
	enum Site { S_DEFAULT = 1, S_VALUE, S_COPY, S_MOVE, S_CASSIGN, S_MASSIGN, S_COMPARE, S_HASH, S_CALL };

	struct Slot {
		void const *p;
		int v;
		bool live;
	};
	constexpr unsigned NSLOT = 4096;
	struct State {
		Slot s[NSLOT];
		unsigned used;
		int live;
		uint64_t created, copies, moves;
	};
	inline State *S = nullptr;

	inline Slot *find( void const *p, bool make ) {
		uint64_t h = ( (uintptr_t)p * 0x9e3779b97f4a7c15ull ) >> 40;
		for( ;; ++h ) {
			Slot &s = S->s[h % NSLOT];
			if( s.p == p )
				return &s;
			if( not s.p ) {
				if( not make )
					return nullptr;
				if( ++S->used > NSLOT - 64 )
					sim::fail( "sim-limit", "element registry full" );
				s.p = p;
				return &s;
			}
		}
	}
	// Create at the top of a scenario; end() after everything is destroyed.
	struct World {
		World( ) {
			sim::Quiet q;
			static State st;
			memset( (void *)&st, 0, sizeof st );
			S = &st;
		}
		~World( ) { S = nullptr; }
		void end( char const *what = "element" ) {
			sim::Quiet q;
			if( S->live != 0 )
				sim::fail( "leaked-element", "%d %s(s) were never destroyed", S->live, what );
		}
		World( World const & ) = delete;
	};
	inline int live( ) { return S->live; }
	inline void born( void const *p, int v ) {
		sim::Quiet q;
		Slot *s = find( p, true );
		if( s->live )
			sim::fail( "overwritten-element", "an element was constructed on top of a live one (value %d)", s->v );
		s->live = true;
		s->v = v;
		++S->live;
		++S->created;
	}
	inline void dead( void const *p ) {
		sim::Quiet q;
		Slot *s = find( p, false );
		if( not s or not s->live )
			sim::fail( "double-destroy", "an element was destroyed that is not alive" );
		s->live = false;
		--S->live;
	}
	inline void alive( void const *p, char const *what ) {
		sim::Quiet q;
		Slot *s = find( p, false );
		if( not s or not s->live )
			sim::fail( "dead-element", "%s of an element that is not alive", what );
	}
	inline void copied( ) {
		sim::Quiet q;
		++S->copies;
	}
	inline void moved( ) {
		sim::Quiet q;
		++S->moves;
	}
	constexpr int MOVED = -777;

	template<unsigned F>
	struct Elem {
		int v;
		void check( char const *what ) const {
			int x = v; // instrumented read: a freed block is reported here
			alive( this, what );
			(void)x;
		}
		void set( int x ) {
			v = x;
			sim::Quiet q;
			if( Slot *s = find( this, false ) )
				s->v = x;
		}
		Elem( )
		  requires( ( F & DEFAULT ) != 0 )
		{
			sim::throw_point( S_DEFAULT );
			v = 0;
			born( this, 0 );
		}
		Elem( int x ) {
			sim::throw_point( S_VALUE );
			v = x;
			born( this, x );
		}
		Elem( Elem const &o )
		  requires( ( F & COPY ) != 0 )
		{
			o.check( "copy" );
			if constexpr( not( F & NX_COPY ) )
				sim::throw_point( S_COPY );
			v = o.v;
			born( this, v );
			copied( );
		}
		Elem( Elem &&o ) noexcept( ( F & NX_MOVE ) != 0 )
		  requires( ( F & MOVE ) != 0 )
		{
			o.check( "move" );
			if constexpr( not( F & NX_MOVE ) )
				sim::throw_point( S_MOVE );
			v = o.v;
			born( this, v );
			o.set( MOVED );
			moved( );
		}
		Elem &operator=( Elem const &o )
		  requires( ( F & COPY ) != 0 )
		{
			o.check( "copy" );
			check( "assignment" );
			if constexpr( not( F & NX_COPY ) )
				sim::throw_point( S_CASSIGN );
			set( o.v );
			return *this;
		}
		Elem &operator=( Elem &&o ) noexcept( ( F & NX_MOVE ) != 0 )
		  requires( ( F & MOVE ) != 0 )
		{
			o.check( "move" );
			check( "assignment" );
			if constexpr( not( F & NX_MOVE ) )
				sim::throw_point( S_MASSIGN );
			if( this != &o ) {
				set( o.v );
				o.set( MOVED );
			}
			return *this;
		}
		~Elem( ) {
			v = -99;
			dead( this );
		}
		int val( ) const {
			check( "read" );
			return v;
		}
		friend bool operator==( Elem const &a, Elem const &b ) {
			a.check( "comparison" );
			b.check( "comparison" );
			sim::throw_point( S_COMPARE );
			return a.v == b.v;
		}
		friend auto operator<=>( Elem const &a, Elem const &b ) {
			a.check( "comparison" );
			b.check( "comparison" );
			sim::throw_point( S_COMPARE );
			return a.v <=> b.v;
		}
	};
	using Copy = Elem<COPY | MOVE | DEFAULT>;                 // everything may throw
	using NxMove = Elem<COPY | MOVE | NX_MOVE | DEFAULT>;     // noexcept move, throwing copy
	using MoveOnly = Elem<MOVE | NX_MOVE>;
	using MoveOnlyThrow = Elem<MOVE>;
	using CopyOnly = Elem<COPY | DEFAULT>;                    // no move operations
	using Safe = Elem<COPY | MOVE | NX_MOVE | DEFAULT | NX_COPY>; // only construction from a value may throw

	// nothing it does can throw
	struct Calm {
		int v;
		Calm( int x = 0 ) noexcept
		  : v( x ) { born( this, x ); }
		Calm( Calm const &o ) noexcept
		  : v( o.val( ) ) { born( this, v ); }
		Calm &operator=( Calm const &o ) noexcept {
			alive( this, "assignment" );
			v = o.val( );
			return *this;
		}
		~Calm( ) {
			v = -99;
			dead( this );
		}
		int val( ) const noexcept {
			int x = v;
			alive( this, "read" );
			return x;
		}
		friend bool operator==( Calm const &a, Calm const &b ) noexcept { return a.val( ) == b.val( ); }
		friend auto operator<=>( Calm const &a, Calm const &b ) noexcept { return a.val( ) <=> b.val( ); }
	};

	// run f with faults armed; returns true if it threw an injected fault
	template<typename F>
	bool faulted( F &&f ) {
		try {
			sim::Armed a;
			f( );
			return false;
		} catch( sim::Injected const & ) {
			return true;
		} catch( std::bad_alloc const & ) {
			return true;
		}
	}
	inline void standard_faults( ) {
		sim::swarm( sim::D_ALLOC, { 0, 0, 4000, 16000 } );
		sim::swarm( sim::D_THROW, { 0, 0, 2500, 10000 } );
	}
	// an argument that knows how often it was copied on its way
	struct Passed {
		int v = 0, copies = 0;
		Passed( ) = default;
		explicit Passed( int x )
		  : v( x ) {}
		Passed( Passed const &o )
		  : v( o.v )
		  , copies( o.copies + 1 ) {}
		Passed( Passed &&o ) noexcept
		  : v( std::exchange( o.v, -1 ) )
		  , copies( o.copies ) {}
		Passed &operator=( Passed const &o ) {
			v = o.v;
			copies = o.copies + 1;
			return *this;
		}
		Passed &operator=( Passed &&o ) noexcept {
			v = std::exchange( o.v, -1 );
			copies = o.copies;
			return *this;
		}
	};
} // namespace trk
