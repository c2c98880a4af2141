// shared by the two translation units of C19
#pragma once
#include "tracked.h"

#include <daw/daw_contract.h>

struct Even {
	template<typename T>
	bool operator( )( T const &v ) const {
		sim::op_point( );
		sim::throw_point( 11 );
		return (int)v % 2 == 0;
	}
};
struct Small {
	template<typename T>
	bool operator( )( T const &v ) const {
		sim::op_point( );
		return (int)v < 100;
	}
};
struct Positive {
	template<typename T>
	bool operator( )( T const &v ) const {
		return (int)v >= 0;
	}
};
struct Handler {
	int id;
	int kind; // 0: throws, 1: returns, 2: hands over to the default handler, then throws
	mutable int calls = 0;
	mutable int caller = -1;
	void operator( )( ) const;
};
struct Violated {
	int id;
};
// makes a contract value and reads it back unless it should not exist
template<typename C>
int make_from( int v, bool ok ) {
	C c( v );
	return ok ? *c : -12345;
}
using C1 = daw::contract<int, Even>;
using C2 = daw::contract<int, Even, Small>;
using C3 = daw::contract<int, Positive, Even, Small>;
void other_set( Handler const &h );
void other_set( void ( *f )( ) );
int other_make( int form, int v, bool ok );
