// runtime: conc
// unit: C18_unit.cc
// C18: random helpers: own generator per thread, bounds, reproducible from the seed.
#include "sim.h"

#include <array>
#include <daw/daw_random.h>
#include <forward_list>
#include <list>
#include <stdexcept>
#include <string>
#include <vector>

namespace sim {
	HarnessInfo const harness = {
	  "C18",
	  "A seeded run lets one to three threads seed, draw, shuffle and fill through the shared helpers and through generator objects; each thread's results are compared with those of a thread that does the same alone, requests with bounds the wrong way round are put in between, and the entropy source or an allocation may fail. A run is non-trivial if a fault fired or two threads were interleaved.",
	  "daw_random.h, std::mt19937_64, the standard distributions",
	  "thread scheduler, thread local storage, entropy source, operator new",
	  300000, 9000000, true };
}
short other_unit_draw( short, short );
signed char other_unit_draw( signed char, signed char );
void other_unit_fill( long long *, long long *, long long, long long );
void other_unit_reseed( unsigned );
namespace {
	// ---- entropy: what a thread gets depends on which thread it is and how often it asked
	int slot_of[8];
	uint32_t asked[8];
	uint64_t salt;
	uint64_t entropy_failed;
}
void std::random_device::_M_init( std::string const & ) {
	if( sim::deviate( sim::D_IO, 2 ) ) {
		sim::Quiet q;
		++entropy_failed;
		throw std::runtime_error( "random_device could not be opened" );
	}
}
void std::random_device::_M_fini( ) {}
std::random_device::result_type std::random_device::_M_getval( ) {
	if( sim::deviate( sim::D_IO, 2 ) ) {
		sim::Quiet q;
		++entropy_failed;
		throw std::runtime_error( "random_device could not be read" );
	}
	int const s = slot_of[sim::self( )];
	uint64_t x = salt + (uint64_t)s * 0x9e3779b97f4a7c15ull + ( (uint64_t)asked[s]++ << 20 );
	x ^= x >> 29;
	x *= 0xbf58476d1ce4e5b9ull;
	x ^= x >> 32;
	return (result_type)x;
}
namespace {
	void entropy_reset( ) {
		for( auto &a : asked )
			a = 0;
	}
	struct Digest {
		uint64_t h = 1469598103934665603ull;
		void add( uint64_t v ) { h = ( h ^ v ) * 1099511628211ull + ( h >> 31 ); }
	};
	template<typename T>
	T bound( unsigned k, uint64_t v ) {
		switch( k ) {
		case 0: return std::numeric_limits<T>::min( );
		case 1: return std::numeric_limits<T>::max( );
		case 2: return T{ };
		default: return (T)v;
		}
	}
	struct Op {
		unsigned kind, type, ka, kb;
		uint64_t va, vb;
		unsigned n;
	};
	Op make_op( bool draw_only ) {
		Op o;
		o.kind = sim::choose( draw_only ? 7 : 9 );
		o.type = sim::choose( 5 );
		o.ka = sim::choose( 6 );
		o.kb = sim::choose( 6 );
		o.va = sim::choose64( );
		o.vb = sim::choose( 3 ) ? o.va + sim::choose( 4 ) : sim::choose64( );
		o.n = sim::choose( 4 ) ? sim::choose( 9 ) : sim::choose( 700 );
		return o;
	}
	template<typename T>
	void draw( Op const &o, bool alone, Digest &d ) {
		T const a = bound<T>( o.ka, o.va ), b = bound<T>( o.kb, o.vb );
		T const lo = std::min( a, b ), hi = std::max( a, b );
		switch( o.kind ) {
		case 0: // one number
		case 1: // some numbers
			for( unsigned k = 0, n = o.kind ? o.n : 1; k < n; ++k ) {
				T const r = daw::randint<T>( lo, hi );
				SIM_CHECK( lo <= r and r <= hi, "out-of-range", "a number outside the bounds asked for was drawn" );
				d.add( (uint64_t)r );
			}
			break;
		case 2: // the bounds the wrong way round: refused, nothing drawn
			if( alone or lo == hi )
				break;
			{
				bool threw = false;
				std::array<T, 3> keep = { lo, hi, lo };
				try {
					sim::Armed arm;
					if( o.n % 2 )
						daw::random_fill( keep.begin( ), keep.end( ), hi, lo );
					else
						d.add( (uint64_t)daw::randint<T>( hi, lo ) );
				} catch( std::exception const & ) { threw = true; }
				SIM_CHECK( threw, "missing-exception", "bounds the wrong way round were accepted" );
				SIM_CHECK( keep[0] == lo and keep[1] == hi and keep[2] == lo, "wrong-value", "a refused fill changed the range" );
			}
			break;
		case 3: { // fill a stretch of a list
			std::list<T> l( o.n % 40 + 2, T( 1 ) );
			l.front( ) = l.back( ) = T( 42 );
			daw::random_fill( std::next( l.begin( ) ), std::prev( l.end( ) ), lo, hi );
			SIM_CHECK( l.front( ) == T( 42 ) and l.back( ) == T( 42 ) and l.size( ) == o.n % 40 + 2, "wrong-value", "a fill wrote outside the range it was given" );
			size_t at = 0;
			for( T v : l ) {
				if( at != 0 and at + 1 != l.size( ) )
					SIM_CHECK( lo <= v and v <= hi, "out-of-range", "a fill wrote a number outside the bounds asked for" );
				++at;
				d.add( (uint64_t)v );
			}
			break;
		}
		case 4: { // new data
			unsigned const n = o.n;
			auto check = [&]( auto const &v ) {
				SIM_CHECK( v.size( ) == n, "wrong-size", "%zu numbers were made instead of %u", v.size( ), n );
				for( auto x : v ) {
					SIM_CHECK( lo <= x and x <= hi, "out-of-range", "a number outside the bounds asked for was made" );
					d.add( (uint64_t)x );
				}
			};
			if( o.va & 1 )
				check( daw::make_random_data<T>( n, lo, hi ) );
			else
				check( daw::make_random_data<T, std::list<T>>( n, lo, hi ) );
			break;
		}
		default: { // shuffle
			std::vector<unsigned> v( o.n % 60 );
			for( unsigned k = 0; k < v.size( ); ++k )
				v[k] = k;
			daw::shuffle( v.begin( ), v.end( ) );
			std::vector<bool> seen( v.size( ) );
			for( unsigned x : v ) {
				SIM_CHECK( x < v.size( ) and not seen[x], "not-a-permutation", "a shuffle lost or duplicated an element" );
				seen[x] = true;
				d.add( x );
			}
		}
		}
	}
	void run_op( Op const &o, bool alone, Digest &d ) {
		switch( o.kind ) {
		case 6: { // drawn by another part of the program
			short const a = other_unit_draw( (short)-300, (short)( o.n * 9 ) );
			signed char const b = other_unit_draw( (signed char)-128, (signed char)( o.n % 100 ) );
			SIM_CHECK( -300 <= a and a <= (short)( o.n * 9 ) and b <= (signed char)( o.n % 100 ), "out-of-range", "a number outside the bounds asked for was drawn" );
			long long x[3] = { };
			other_unit_fill( x, x + 2, -5, 5 );
			SIM_CHECK( x[0] >= -5 and x[0] <= 5 and x[1] >= -5 and x[1] <= 5 and x[2] == 0, "out-of-range", "a fill wrote a number outside the bounds asked for" );
			d.add( (uint64_t)a );
			d.add( (uint64_t)b );
			d.add( (uint64_t)( x[0] * 16 + x[1] ) );
			break;
		}
		case 7:
			if( o.ka % 3 == 2 )
				other_unit_reseed( (unsigned)o.va );
			else if( o.ka % 3 )
				daw::reseed( (std::default_random_engine::result_type)o.va );
			else
				daw::reseed( );
			break;
		case 8: { // generators of one's own have nothing to do with the shared ones
			using R8 = daw::RandomInteger<uint8_t>;
			using R64 = daw::RandomInteger<int64_t, std::mt19937_64>;
			R8 a( (uint8_t)o.va );
			R64 b( (int64_t)o.va );
			daw::RandomFloat<double> c( (unsigned)o.vb );
			for( unsigned k = 0; k < 3; ++k ) {
				d.add( a( ) );
				d.add( (uint64_t)b( ) );
				d.add( (uint64_t)( c( ) * 1e9 ) );
			}
			break;
		}
		default:
			switch( o.type ) {
			case 0: draw<int>( o, alone, d ); break;
			case 1: draw<int64_t>( o, alone, d ); break;
			case 2: draw<uint64_t>( o, alone, d ); break;
			case 3: draw<int16_t>( o, alone, d ); break;
			default: draw<unsigned>( o, alone, d );
			}
		}
	}
}
// each thread sees what it would see alone
SIM_SCENARIO( threads, 4 ) {
	int const nt = 2 + (int)sim::choose( 2 );
	std::vector<Op> ops[3];
	std::vector<uint64_t> alone[3], together[3];
	salt = sim::choose64( );
	for( int t = 0; t < nt; ++t ) {
		for( int k = 0, n = 1 + (int)sim::choose( 6 ); k < n; ++k )
			ops[t].push_back( make_op( false ) );
		together[t].reserve( 8 );
		alone[t].reserve( 8 );
	}
	auto work = [&]( int t, bool is_alone, std::vector<uint64_t> &out ) {
		slot_of[sim::self( )] = t;
		for( auto const &o : ops[t] ) {
			Digest d;
			run_op( o, is_alone, d );
			out.push_back( d.h );
			sim::op_point( );
		}
	};
	entropy_reset( );
	for( int t = 0; t < nt; ++t )
		sim::join( sim::spawn( [&, t] { work( t, true, alone[t] ); } ) );
	entropy_reset( );
	for( int t = 0; t < nt; ++t )
		sim::spawn( [&, t] { work( t, false, together[t] ); } );
	sim::join_all( );
	for( int t = 0; t < nt; ++t )
		for( size_t k = 0; k < ops[t].size( ); ++k )
			SIM_CHECK( alone[t][k] == together[t][k], "not-its-own", "step %zu (kind %u) of thread %d gave other results than when the thread runs alone", k, ops[t][k].kind, t );
	sim::log( "threads=%d h=%lx", nt, (unsigned long)together[0].back( ) );
	sim::state( (uint64_t)nt * 100 + ops[0].size( ) );
}
// seeding again repeats; the entropy source may fail
SIM_SCENARIO( reseeded, 3 ) {
	sim::swarm( sim::D_IO, { 0, 16000, 40000 } );
	sim::swarm( sim::D_ALLOC, { 0, 8000 } );
	salt = sim::choose64( );
	entropy_failed = 0;
	slot_of[0] = 0;
	entropy_reset( );
	// the first use needs entropy: it fails cleanly and can be tried again
	for( int tries = 0;; ++tries ) {
		uint64_t const before = entropy_failed;
		try {
			sim::Armed a;
			int const r = daw::randint( -5, 5 );
			SIM_CHECK( -5 <= r and r <= 5, "out-of-range", "a number outside the bounds asked for was drawn" );
			SIM_CHECK( before == entropy_failed, "hidden-failure", "a number was drawn although there was no entropy" );
			break;
		} catch( std::runtime_error const & ) {
			SIM_CHECK( before != entropy_failed, "wrong-exception", "an exception came from nowhere" );
			sim::probe( "no-entropy" );
		}
		if( tries == 20 )
			break;
	}
	sim::set_rate( sim::D_IO, 0 );
	std::vector<Op> ops;
	for( int k = 0, n = 1 + (int)sim::choose( 6 ); k < n; ++k )
		ops.push_back( make_op( true ) );
	auto const seed = (std::default_random_engine::result_type)sim::choose64( );
	bool const dflt = sim::chance( 1, 4 );
	Digest first;
	for( int pass = 0, n = 2 + (int)sim::choose( 2 ); pass < n; ++pass ) {
		if( dflt )
			daw::reseed( );
		else
			daw::reseed( seed );
		Digest d;
		for( auto const &o : ops ) {
			if( pass and o.kind == 4 and sim::chance( 1, 2 ) ) {
				// a request that fails for lack of memory
				try {
					sim::Armed a;
					auto v = daw::make_random_data<int>( o.n, 0, 9 );
					SIM_CHECK( v.size( ) == o.n, "wrong-size", "%zu numbers were made instead of %u", v.size( ), o.n );
					// it drew numbers: start over
					pass = n;
					break;
				} catch( std::bad_alloc const & ) {
					sim::probe( "no-memory" );
				}
			}
			run_op( o, false, d );
		}
		if( pass == 0 )
			first = d;
		else if( pass < n )
			SIM_CHECK( first.h == d.h, "not-repeatable", "the same seed gave other numbers the second time" );
		// in between, another seed
		daw::reseed( seed + 1 );
		(void)daw::randint( 0, 100 );
	}
	sim::log( "h=%lx", (unsigned long)first.h );
}
// generator objects
namespace {
	template<typename T, typename E, typename Gen>
	void object( ) {
		uint64_t const s = sim::choose64( );
		Gen a( (T)s ), b( (T)s );
		Digest da, db, dc;
		unsigned const n1 = sim::choose( 5 ), n2 = 1 + sim::choose( 5 );
		auto one = [&]( Gen &g, unsigned k, Digest &d, bool wrong ) {
			T const x = bound<T>( k % 5, s * ( k + 1 ) ), y = bound<T>( ( k + 2 ) % 5, s + k );
			T const lo = std::min( x, y ), hi = std::max( x, y );
			if( wrong and lo != hi ) {
				bool threw = false;
				try {
					d.add( (uint64_t)g( lo, hi ) );
				} catch( std::exception const & ) { threw = true; }
				SIM_CHECK( threw, "missing-exception", "bounds the wrong way round were accepted" );
			}
			if( lo == hi )
				return;
			T const r = g( hi, lo );
			SIM_CHECK( lo <= r and r <= hi, "out-of-range", "a number outside the bounds asked for was drawn" );
			d.add( (uint64_t)r );
		};
		for( unsigned k = 0; k < n1; ++k ) {
			one( a, k, da, false );
			one( b, k, db, true );
		}
		Gen c( a ); // a copy goes on like the original
		dc = da;
		for( unsigned k = n1; k < n1 + n2; ++k ) {
			one( a, k, da, true );
			one( b, k, db, false );
		}
		for( unsigned k = n1; k < n1 + n2; ++k )
			one( c, k, dc, false );
		SIM_CHECK( da.h == db.h, "not-repeatable", "two generators with one seed differ" );
		SIM_CHECK( da.h == dc.h, "not-repeatable", "a copied generator does not go on like the original" );
		sim::log( "%lx", (unsigned long)da.h );
	}
	template<typename F>
	void real( ) {
		uint64_t const s = sim::choose64( );
		daw::RandomFloat<F> a( (unsigned)s ), b( (unsigned)s );
		for( unsigned k = 0; k < 6; ++k ) {
			F lo = (F)sim::range( -1000, 1000 ) / 8, hi = (F)sim::range( -1000, 1000 ) / 8;
			if( lo > hi )
				std::swap( lo, hi );
			if( lo == hi )
				hi += 1;
			bool threw = false;
			try {
				(void)a( lo, hi );
			} catch( std::exception const & ) { threw = true; }
			SIM_CHECK( threw, "missing-exception", "bounds the wrong way round were accepted" );
			F const x = a( hi, lo ), y = b( hi, lo );
			SIM_CHECK( lo <= x and x <= hi, "out-of-range", "a number outside the bounds asked for was drawn" );
			SIM_CHECK( x == y, "not-repeatable", "two generators with one seed differ" );
			F const z = a( ), w = b( );
			SIM_CHECK( z >= 0 and z <= 1 and z == w, "out-of-range", "a number outside [0,1] was drawn" );
		}
		if( sim::chance( 1, 16 ) ) { // every tenth of the interval comes up
			bool const unit = sim::choose( 2 );
			unsigned seen = 0;
			for( int k = 0; k < 400; ++k ) {
				int const t = unit ? (int)( a( ) * 10 ) : (int)( ( a( 7, -3 ) + 3 ) );
				seen |= 1u << t;
			}
			SIM_CHECK( ( seen & 1023 ) == 1023, "no-variety", "400 numbers leave a tenth of the interval out (%x)", seen );
		}
	}
}
SIM_SCENARIO( objects, 2 ) {
	slot_of[0] = 1;
	salt = sim::choose64( );
	entropy_reset( );
	switch( sim::choose( 8 ) ) {
	case 0: object<int, std::default_random_engine, daw::RandomInteger<int>>( ); break;
	case 1: object<int64_t, std::mt19937_64, daw::RandomInteger<int64_t, std::mt19937_64>>( ); break;
	case 2: object<uint16_t, std::mt19937, daw::RandomInteger<uint16_t, std::mt19937>>( ); break;
	case 3: object<uint64_t, std::ranlux24, daw::RandomInteger<uint64_t, std::ranlux24>>( ); break;
	case 4: real<double>( ); break;
	case 5: real<float>( ); break;
	case 6: {
		uint64_t const s = sim::choose64( );
		daw::static_random a( s ), b( s );
		for( int k = 0; k < 4; ++k )
			SIM_CHECK( a( ) == b( ), "not-repeatable", "two generators with one seed differ" );
		daw::static_random c( a );
		for( int k = 0; k < 4; ++k )
			SIM_CHECK( a( ) == c( ), "not-repeatable", "a copied generator does not go on like the original" );
		uint64_t seen[16];
		int fresh = 0, other = 0;
		daw::static_random d( s + 1 + sim::choose( 1000 ) );
		for( int k = 0; k < 16; ++k ) {
			seen[k] = a( );
			bool again = false;
			for( int j = 0; j < k; ++j )
				again |= seen[j] == seen[k];
			fresh += not again;
			other += d( ) != seen[k];
		}
		// a chance repetition among 64 bit numbers does not happen
		SIM_CHECK( fresh >= 15, "no-variety", "16 numbers from one generator are only %d different ones", fresh );
		SIM_CHECK( other >= 15, "no-variety", "generators with different seeds give the same numbers" );
		break;
	}
	default: { // unseeded: from the entropy source, which may fail
		sim::swarm( sim::D_IO, { 0, 20000 } );
		entropy_failed = 0;
		for( int k = 0; k < 6; ++k ) {
			uint64_t const before = entropy_failed;
			try {
				sim::Armed arm;
				if( k & 1 ) {
					daw::RandomInteger<int> r;
					(void)r( );
				} else {
					daw::RandomFloat<double> r;
					(void)r( );
				}
				SIM_CHECK( before == entropy_failed, "hidden-failure", "a generator was made although there was no entropy" );
			} catch( std::runtime_error const & ) {
				SIM_CHECK( before != entropy_failed, "wrong-exception", "an exception came from nowhere" );
				sim::probe( "no-entropy" );
			}
		}
	}
	}
}
// every value between the bounds, and every order, can come up
SIM_SCENARIO( reach, 1 ) {
	daw::reseed( (std::default_random_engine::result_type)sim::choose64( ) );
	if( sim::choose( 2 ) ) {
		int const lo = (int)sim::range( -3, 3 ), hi = lo + (int)sim::choose( 4 );
		unsigned seen = 0;
		for( int k = 0; k < 200; ++k )
			seen |= 1u << ( daw::randint( lo, hi ) - lo );
		SIM_CHECK( seen == ( 2u << ( hi - lo ) ) - 1, "never-drawn", "a number within the bounds never comes up" );
	} else {
		unsigned const n = 1 + sim::choose( 4 );
		static unsigned const fact[] = { 1, 1, 2, 6, 24 };
		std::vector<unsigned> orders;
		for( int k = 0; k < 1200; ++k ) {
			unsigned v[4] = { 0, 1, 2, 3 };
			daw::shuffle( v, v + n );
			unsigned code = 0;
			for( unsigned i = 0; i < n; ++i )
				code = code * 4 + v[i];
			bool found = false;
			for( unsigned c : orders )
				found |= c == code;
			if( not found )
				orders.push_back( code );
		}
		SIM_CHECK( orders.size( ) == fact[n], "never-drawn", "shuffling %u elements only gives %zu orders", n, orders.size( ) );
	}
}
