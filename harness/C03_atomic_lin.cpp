// runtime: conc
// C03: the library's atomic is linearizable for every operation it offers.
#include "sim.h"

#include <daw/daw_cx_atomic.h>

#include <cstring>
#include <type_traits>

namespace sim {
	HarnessInfo const harness = {
	  "C03",
	  "A seeded run lets 2-4 threads apply 1-4 random operations each (all load, store, exchange, compare-exchange, fetch and operator forms, sequentially consistent) to 1-2 shared atomics; the invoke/return history and the final value are checked against a sequential register model.",
	  "daw_cx_atomic.h (all operations), std::atomic_ref headers",
	  "thread scheduler, atomic memory model with stale reads, spurious failure of weak compare-exchange, thread stalls",
	  2500000, 75000000, true };
}

namespace {
	enum Op {
		LOAD, CONV, STORE, ASSIGN, EXCHANGE, CASW, CASS, CASW2, CASS2, COPY, COPYASSIGN, MOVE, MOVEASSIGN, // all types
		FADD, FSUB, ADDEQ, SUBEQ, // not bool
		PREINC, POSTINC, PREDEC, POSTDEC, FAND, FOR, FXOR, ANDEQ, OREQ, XOREQ, // integers
		NOPS
	};
	char const *const opn[] = { "load", "convert", "store", "assign", "exchange", "cas_weak", "cas_strong", "cas_weak2", "cas_strong2", "copy", "copy_assign",
	                            "move", "move_assign", "fetch_add", "fetch_sub", "+=", "-=", "++x", "x++", "--x", "x--", "fetch_and", "fetch_or", "fetch_xor", "&=",
	                            "|=", "^=" };

	template<typename T>
	uint64_t enc( T v ) {
		uint64_t r = 0;
		memcpy( &r, &v, sizeof v );
		return r;
	}
	template<typename T>
	T dec( uint64_t v ) {
		T r;
		memcpy( &r, &v, sizeof r );
		return r;
	}
	template<typename T>
	T add( T a, T b ) {
		if constexpr( std::is_integral_v<T> and not std::is_same_v<T, bool> )
			return (T)( (std::make_unsigned_t<T>)a + (std::make_unsigned_t<T>)b );
		else
			return (T)( a + b );
	}
	template<typename T>
	T sub( T a, T b ) {
		if constexpr( std::is_integral_v<T> and not std::is_same_v<T, bool> )
			return (T)( (std::make_unsigned_t<T>)a - (std::make_unsigned_t<T>)b );
		else
			return (T)( a - b );
	}

	// code = op | object << 8
	template<typename T>
	bool step( uint64_t *st, int, sim::HOp const &o ) {
		uint64_t &s = st[o.code >> 8];
		int op = o.code & 0xff;
		T cur = dec<T>( s ), a = dec<T>( o.a ), b = dec<T>( o.b );
		auto ret = [&]( T v ) { return enc( v ) == o.r; };
		auto rmw = [&]( T nv, bool returns_new ) {
			bool ok = ret( returns_new ? nv : cur );
			s = enc( nv );
			return ok;
		};
		switch( op ) {
		case LOAD:
		case CONV:
		case COPY:
		case MOVE: return ret( cur );
		case STORE:
		case ASSIGN:
		case COPYASSIGN:
		case MOVEASSIGN: s = o.a; return true;
		case EXCHANGE: return rmw( a, false );
		case CASW:
		case CASW2:
		case CASS:
		case CASS2:
			if( o.r ) { // succeeded: expected must match, expected is left as it was
				if( not( cur == a ) or o.r2 != o.a )
					return false;
				s = enc( b );
				return true;
			}
			if( cur == a and ( op == CASS or op == CASS2 ) )
				return false; // strong may not fail spuriously
			return o.r2 == enc( cur );
		default: break;
		}
		if constexpr( not std::is_same_v<T, bool> ) {
			switch( op ) {
			case FADD: return rmw( add( cur, a ), false );
			case FSUB: return rmw( sub( cur, a ), false );
			case ADDEQ: return rmw( add( cur, a ), true );
			case SUBEQ: return rmw( sub( cur, a ), true );
			default: break;
			}
			if constexpr( std::is_integral_v<T> ) {
				switch( op ) {
				case PREINC: return rmw( add( cur, T( 1 ) ), true );
				case POSTINC: return rmw( add( cur, T( 1 ) ), false );
				case PREDEC: return rmw( sub( cur, T( 1 ) ), true );
				case POSTDEC: return rmw( sub( cur, T( 1 ) ), false );
				case FAND: return rmw( (T)( cur & a ), false );
				case FOR: return rmw( (T)( cur | a ), false );
				case FXOR: return rmw( (T)( cur ^ a ), false );
				case ANDEQ: return rmw( (T)( cur & a ), true );
				case OREQ: return rmw( (T)( cur | a ), true );
				case XOREQ: return rmw( (T)( cur ^ a ), true );
				default: break;
				}
			}
		}
		return false;
	}

	struct Hist {
		sim::HOp ops[20];
		int n = 0;
	};

	template<typename T>
	constexpr int nops( ) {
		if constexpr( std::is_same_v<T, bool> )
			return FADD;
		else if constexpr( std::is_floating_point_v<T> )
			return PREINC;
		else
			return NOPS;
	}
	template<typename T>
	T value( ) {
		if constexpr( std::is_same_v<T, bool> )
			return sim::choose( 2 ) != 0;
		else if constexpr( std::is_floating_point_v<T> )
			return (T)sim::choose( 6 );
		else if constexpr( std::is_unsigned_v<T> )
			return sim::choose( 4 ) == 3 ? (T)( (T)0 - (T)sim::choose( 3 ) ) : (T)sim::choose( 8 );
		else
			return (T)( (int)sim::choose( 12 ) - 3 );
	}

	template<typename T>
	void one_op( daw::atomic<T> *objs, int nobj, Hist &h, int op, int oi, T a, T b ) {
		daw::atomic<T> &x = objs[oi];
		(void)nobj;
		int slot;
		{
			sim::Quiet q;
			slot = h.n++;
			h.ops[slot] = sim::HOp{ sim::self( ), sim::seq( ), ~0ull, op | ( oi << 8 ), enc( a ), enc( b ), 0, 0 };
		}
		uint64_t r = 0, r2 = 0;
		using mo = std::memory_order;
		switch( op ) {
		case LOAD: r = enc( x.load( ) ); break;
		case CONV: r = enc( (T)x ); break;
		case STORE: x.store( a ); break;
		case ASSIGN: x = a; break;
		case EXCHANGE: r = enc( x.exchange( a ) ); break;
		case CASW: {
			T e = a;
			r = x.compare_exchange_weak( e, b );
			r2 = enc( e );
			break;
		}
		case CASS: {
			T e = a;
			r = x.compare_exchange_strong( e, b );
			r2 = enc( e );
			break;
		}
		case CASW2: {
			T e = a;
			r = x.compare_exchange_weak( e, b, mo::seq_cst, mo::seq_cst );
			r2 = enc( e );
			break;
		}
		case CASS2: {
			T e = a;
			r = x.compare_exchange_strong( e, b, mo::seq_cst, mo::seq_cst );
			r2 = enc( e );
			break;
		}
		case COPY: {
			daw::atomic<T> y( static_cast<daw::atomic<T> const &>( x ) );
			r = enc( y.load( ) );
			break;
		}
		case MOVE: {
			daw::atomic<T> y( static_cast<daw::atomic<T> &&>( x ) );
			r = enc( y.load( ) );
			break;
		}
		case COPYASSIGN: {
			daw::atomic<T> const y( a );
			x = y;
			break;
		}
		case MOVEASSIGN: {
			daw::atomic<T> y( a );
			x = static_cast<daw::atomic<T> &&>( y );
			break;
		}
		default:
			if constexpr( not std::is_same_v<T, bool> ) {
				switch( op ) {
				case FADD: r = enc<T>( x.fetch_add( a ) ); break;
				case FSUB: r = enc<T>( x.fetch_sub( a ) ); break;
				case ADDEQ: r = enc<T>( x += a ); break;
				case SUBEQ: r = enc<T>( x -= a ); break;
				default:
					if constexpr( std::is_integral_v<T> ) {
						switch( op ) {
						case PREINC: r = enc<T>( ++x ); break;
						case POSTINC: r = enc<T>( x++ ); break;
						case PREDEC: r = enc<T>( --x ); break;
						case POSTDEC: r = enc<T>( x-- ); break;
						case FAND: r = enc<T>( x.fetch_and( a ) ); break;
						case FOR: r = enc<T>( x.fetch_or( a ) ); break;
						case FXOR: r = enc<T>( x.fetch_xor( a ) ); break;
						case ANDEQ: r = enc<T>( x &= a ); break;
						case OREQ: r = enc<T>( x |= a ); break;
						case XOREQ: r = enc<T>( x ^= a ); break;
						}
					}
				}
			}
		}
		sim::Quiet q;
		auto &o = h.ops[slot];
		o.r = r;
		o.r2 = r2;
		o.ret = sim::seq( );
		sim::log( "t%d #%llu..#%llu obj%d.%s(%llx,%llx) -> %llx %llx", sim::self( ), (unsigned long long)o.inv, (unsigned long long)o.ret, oi, opn[op],
		          (unsigned long long)o.a, (unsigned long long)o.b, (unsigned long long)r, (unsigned long long)r2 );
		sim::probe( opn[op] );
	}

	template<typename T>
	void history( ) {
		int const nobj = 1 + ( sim::choose( 3 ) == 2 );
		int const nt = 2 + (int)sim::choose( 3 );
		daw::atomic<T> objs[2];
		uint64_t init[2];
		for( int i = 0; i < 2; ++i ) {
			T v = value<T>( );
			objs[i].store( v );
			init[i] = enc( v );
		}
		Hist h;
		sim::swarm( sim::D_CASFAIL, { 0, 8000, 30000 } );
		sim::swarm( sim::D_STALL, { 0, 0, 3000 } );
		sim::set_rate( sim::D_STALE, 30000 );
		// swarm: a subset of the operations per run
		bool const few = sim::choose( 2 );
		int sel[4];
		for( auto &s : sel )
			s = (int)sim::choose( nops<T>( ) );
		for( int t = 0; t < nt; ++t ) {
			struct Plan {
				int op, oi;
				T a, b;
			} plan[4];
			int k = 1 + (int)sim::choose( 4 );
			for( int i = 0; i < k; ++i ) {
				plan[i].op = few ? sel[sim::choose( 4 )] : (int)sim::choose( nops<T>( ) );
				plan[i].oi = (int)sim::choose( (unsigned)nobj );
				plan[i].a = value<T>( );
				plan[i].b = value<T>( );
			}
			struct C {
				Plan p[4];
			} c;
			for( int i = 0; i < k; ++i )
				c.p[i] = plan[i];
			sim::spawn( [&, c, k] {
				for( int i = 0; i < k; ++i )
					one_op<T>( objs, nobj, h, c.p[i].op, c.p[i].oi, c.p[i].a, c.p[i].b );
			} );
		}
		sim::join_all( );
		uint64_t fin[2] = { enc( objs[0].load( ) ), enc( objs[1].load( ) ) };
		sim::Quiet q;
		sim::log( "init %llx %llx final %llx %llx", (unsigned long long)init[0], (unsigned long long)init[1], (unsigned long long)fin[0],
		          (unsigned long long)fin[1] );
		std::vector<sim::HOp> ops( h.ops, h.ops + h.n );
		SIM_CHECK( sim::linearizable( ops, init, 2, step<T>, fin ), "not-linearizable", "no sequential order of the %d operations explains the results", h.n );
	}
} // namespace

SIM_SCENARIO( int32, 4 ) { history<int>( ); }
SIM_SCENARIO( uint8, 2 ) { history<unsigned char>( ); }
SIM_SCENARIO( int16, 1 ) { history<short>( ); }
SIM_SCENARIO( uint32, 1 ) { history<unsigned>( ); }
SIM_SCENARIO( int64, 2 ) { history<long long>( ); }
SIM_SCENARIO( uint64, 1 ) { history<unsigned long>( ); }
SIM_SCENARIO( boolean, 2 ) { history<bool>( ); }
SIM_SCENARIO( real64, 2 ) { history<double>( ); }
SIM_SCENARIO( real32, 1 ) { history<float>( ); }
