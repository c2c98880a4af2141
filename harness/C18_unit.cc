// a second translation unit of the same program
#include "sim.h"
#include <array>
#include <daw/daw_random.h>
short other_unit_draw( short lo, short hi ) { return daw::randint<short>( lo, hi ); }
signed char other_unit_draw( signed char lo, signed char hi ) { return daw::randint<signed char>( lo, hi ); }
void other_unit_fill( long long *f, long long *l, long long lo, long long hi ) { daw::random_fill( f, l, lo, hi ); }
void other_unit_reseed( unsigned v ) { daw::reseed( v ); }
