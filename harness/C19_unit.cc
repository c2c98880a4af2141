#include "C19_shared.h"
void other_set( Handler const &h ) { daw::contract_failure_handler = h; }
void other_set( void ( *f )( ) ) { daw::contract_failure_handler = f; }
int other_make( int form, int v, bool ok ) {
	switch( form ) {
	case 0: return make_from<C1>( v, ok );
	case 1: return make_from<C2>( v, ok );
	default: return make_from<C3>( v, ok );
	}
}
