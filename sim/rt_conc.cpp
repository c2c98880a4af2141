// Concurrent runtime: the harness (and with it the header only code under
// test) is compiled with -fsanitize=thread, but linked against this file
// instead of the ThreadSanitizer runtime.  Every atomic operation is a
// scheduling point decided by the simulator; atomics follow a store-history
// memory model (loads may return stale but permitted values); plain accesses
// are checked for happens-before races and for use of freed memory; clocks,
// sleeping, yielding, futexes and operator new are simulated.
#include "sim.h"

#include <cerrno>
#include <climits>
#include <cstdio>
#include <dlfcn.h>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <link.h>
#include <linux/futex.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <unistd.h>

#define NOTSAN __attribute__( ( disable_sanitizer_instrumentation ) )

extern "C" void sim_ctx_switch( void **save, void *load );
asm( R"(
.text
.globl sim_ctx_switch
.type sim_ctx_switch,@function
sim_ctx_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  retq
.size sim_ctx_switch,.-sim_ctx_switch
)" );

extern "C" char __data_start, _end;

namespace __cxxabiv1 {
	struct __cxa_eh_globals;
	extern "C" __cxa_eh_globals *__cxa_get_globals( ) noexcept;
} // namespace __cxxabiv1

namespace sim {
	namespace {
		constexpr int NT = 8;
		struct VC {
			uint32_t c[NT];
			void clear( ) { memset( c, 0, sizeof c ); }
			void join( VC const &o ) {
				for( int i = 0; i < NT; ++i )
					if( o.c[i] > c[i] )
						c[i] = o.c[i];
			}
		};

		// ------------------------------------------------------------- raw syscalls
		long raw6( long n, long a, long b, long c, long d, long e, long f ) {
			long r;
			register long r10 asm( "r10" ) = d;
			register long r8 asm( "r8" ) = e;
			register long r9 asm( "r9" ) = f;
			asm volatile( "syscall" : "=a"( r ) : "a"( n ), "D"( a ), "S"( b ), "d"( c ), "r"( r10 ), "r"( r8 ), "r"( r9 ) : "rcx", "r11", "memory" );
			return r;
		}

		// ------------------------------------------------------------- threads
		enum TS { T_FREE, T_RUN, T_FUTEX, T_SLEEP, T_JOIN, T_GUARD, T_DONE };
		struct Thread {
			TS st;
			void *sp;
			char *stack;
			void ( *fn )( void * );
			void *arg;
			VC clk, acqPending, relFence;
			int64_t wake_at; // for sleep or timed futex
			bool timed;
			bool woken;      // futex wait ended by wake
			void const *faddr;
			int jtid;
			uint32_t prio;
			uint32_t stale_left;
			uint64_t eh[2];
			VC final_clk;
		};
		constexpr size_t STACK = 512 * 1024;
		Thread th[NT];
		int nth, cur;
		void *sched_sp;
		char *stacks = nullptr;
		uint64_t steps, switches, step_limit, gseq;
		int64_t now, rt_off, ns_step, run_start;
		bool in_rt;
		int quiet;

		// thread local storage of the program: each simulated thread has a copy
		// which is moved into place while it runs
		char *tls = nullptr;
		char const *tls_image;
		size_t tls_size, tls_image_size;
		char *tls_copy = nullptr;
		struct AtExit {
			void ( *fn )( void * );
			void *obj;
		} at_exit[NT][32];
		int nat_exit[NT];
		int find_tls( dl_phdr_info *i, size_t, void * ) {
			for( int k = 0; k < i->dlpi_phnum; ++k )
				if( i->dlpi_phdr[k].p_type == PT_TLS ) {
					tls = (char *)i->dlpi_tls_data;
					tls_image = (char const *)( i->dlpi_addr + i->dlpi_phdr[k].p_vaddr );
					tls_image_size = i->dlpi_phdr[k].p_filesz;
					tls_size = i->dlpi_phdr[k].p_memsz;
				}
			return 1; // the first object is the program
		}
		void fresh_tls( char *p ) {
			memcpy( p, tls_image, tls_image_size );
			memset( p + tls_image_size, 0, tls_size - tls_image_size );
		}

		// strategy
		enum { ST_RANDOM, ST_PCT, ST_RR, ST_OPS };
		int strat;
		uint32_t sw_p; // /65536
		uint64_t pct_points[8];
		int npct;
		bool plain_points;

		[[noreturn]] void die( char const *cls, char const *fmt, ... ) __attribute__( ( format( printf, 2, 3 ) ) );
		void die( char const *cls, char const *fmt, ... ) {
			char b[900];
			va_list ap;
			va_start( ap, fmt );
			vsnprintf( b, sizeof b, fmt, ap );
			va_end( ap );
			rt::raise_violation( cls, b );
		}

		// ------------------------------------------------------------- arena
		constexpr uintptr_t ARENA = 0x100000000000ull;
		constexpr size_t ARENA_SZ = 64u << 20;
		constexpr uintptr_t AEND = ARENA + ARENA_SZ;
		uint8_t *shadow = nullptr; // per 8 byte granule: 0 unallocated/redzone, 1..8 bytes valid, 0xfd freed
		uintptr_t arena_top;
		int64_t live_n, live_b;
		struct AHdr {
			uint64_t size;
			uint64_t magic; // kind in low bits
		};
		constexpr uint64_t MAGIC = 0x5a5aa5a5deadbe00ull;

		// ------------------------------------------------------------- race shadow
		struct Rec {
			uint32_t clk;
			uint8_t tid, mask, kind; // kind bit0: write, bit1: atomic
			uint8_t pad;
		};
		struct Cell {
			uintptr_t key;
			uint32_t gen;
			uint32_t n;
			Rec r[14];
		};
		constexpr size_t NCELL = 1u << 16;
		Cell *cells = nullptr;
		uint32_t gen = 0;
		size_t ncells_used;
		Cell *cell_for( uintptr_t g ) {
			size_t h = ( g * 0x9e3779b97f4a7c15ull ) >> 48;
			for( ;; ) {
				Cell &c = cells[h & ( NCELL - 1 )];
				if( c.gen != gen ) {
					if( ++ncells_used > NCELL - 1024 )
						die( "sim-limit", "race shadow exhausted" );
					c.gen = gen;
					c.key = g;
					c.n = 0;
					return &c;
				}
				if( c.key == g )
					return &c;
				++h;
			}
		}
		char const *kname( unsigned k ) {
			static char const *n[] = { "read", "write", "atomic load", "atomic store" };
			return n[k & 3];
		}
		void race_access( uintptr_t g, uint8_t mask, uint8_t kind, void *pc ) {
			Cell *c = cell_for( g );
			Thread &t = th[cur];
			uint32_t myclk = t.clk.c[cur];
			unsigned out = 0;
			for( unsigned i = 0; i < c->n; ++i ) {
				Rec &r = c->r[i];
				bool hb = r.tid == cur or r.clk <= t.clk.c[r.tid];
				if( ( r.mask & mask ) and not hb ) {
					bool conflict = ( ( r.kind | kind ) & 1 ) and not( ( r.kind & kind ) & 2 );
					if( conflict )
						die( "data-race", "data race: %s by thread %d is not ordered after %s by thread %d (pc %p)", kname( kind ), cur, kname( r.kind ), (int)r.tid, pc );
				}
				// drop superseded records
				if( r.tid == cur and r.kind == kind and ( r.mask & ~mask ) == 0 )
					continue;
				if( kind == 1 and hb and ( r.mask & ~mask ) == 0 )
					continue;
				c->r[out++] = r;
			}
			c->n = out;
			if( c->n == 14 ) {
				memmove( c->r, c->r + 1, 13 * sizeof( Rec ) );
				c->n = 13;
			}
			c->r[c->n++] = Rec{ myclk, (uint8_t)cur, mask, kind, 0 };
		}
		// memory handed out anew by the process heap: earlier accesses were to something else
		void forget( uintptr_t a, size_t n ) {
			if( nth == 1 or not n )
				return;
			for( uintptr_t g = a >> 3; g <= ( a + n - 1 ) >> 3; ++g )
				for( size_t h = ( g * 0x9e3779b97f4a7c15ull ) >> 48;; ++h ) {
					Cell &c = cells[h & ( NCELL - 1 )];
					if( c.gen != gen )
						break;
					if( c.key == g ) {
						c.n = 0;
						break;
					}
				}
		}
		// undo log for static storage: every run starts from the same globals
		struct Undo {
			uintptr_t a;
			uint64_t v;
		};
		Undo *undo = nullptr;
		size_t nundo;
		constexpr size_t MAXUNDO = 1u << 16;
		void save_global( uintptr_t a, size_t n ) {
			for( uintptr_t g = a >> 3; g <= ( a + n - 1 ) >> 3; ++g ) {
				if( nundo >= MAXUNDO )
					die( "sim-limit", "undo log exhausted" );
				undo[nundo++] = Undo{ g << 3, *(uint64_t *)( g << 3 ) };
			}
		}
		void check_live( uintptr_t a, size_t n, bool write, void *pc ) {
			uintptr_t g0 = a >> 3, g1 = ( a + n - 1 ) >> 3;
			for( uintptr_t g = g0; g <= g1; ++g ) {
				uint8_t s = shadow[g - ( ARENA >> 3 )];
				uintptr_t hi = ( g << 3 ) + s;
				if( s == 0xfd )
					die( "use-after-free", "%s of %zu bytes at a freed heap block by thread %d (pc %p)", write ? "write" : "read", n, cur, pc );
				uintptr_t need = std::min<uintptr_t>( a + n, ( g << 3 ) + 8 );
				if( s > 8 or need > hi )
					die( "heap-overflow", "%s of %zu bytes outside any live heap block by thread %d (pc %p)", write ? "write" : "read", n, cur, pc );
			}
		}
		void access( uintptr_t a, size_t n, uint8_t kind, void *pc ) {
			if( a >= ARENA and a < AEND )
				check_live( a, n, kind & 1, pc );
			else if( ( kind & 1 ) and a >= (uintptr_t)&__data_start and a < (uintptr_t)&_end )
				save_global( a, n );
			if( a - (uintptr_t)tls < tls_size )
				return; // its own copy
			if( nth == 1 )
				return; // everything before the first spawn is ordered before every thread
			while( n ) {
				uintptr_t g = a >> 3;
				unsigned off = a & 7;
				unsigned k = (unsigned)std::min<size_t>( n, 8 - off );
				race_access( g, (uint8_t)( ( ( 1u << k ) - 1 ) << off ), kind, pc );
				a += k;
				n -= k;
			}
		}

		// ------------------------------------------------------------- atomics
		struct Store {
			uint64_t val;
			uint64_t mo;
			VC rel;
			uint32_t clk;
			uint8_t tid;
			bool sc;
		};
		constexpr unsigned HIST = 6;
		struct Loc {
			uintptr_t key;
			uint32_t gen;
			uint8_t size;
			uint32_t n;
			uint64_t mo, lastsc;
			uint64_t seen[NT];
			Store h[HIST];
		};
		constexpr size_t NLOC = 1u << 12;
		Loc *locs = nullptr;
		size_t nlocs_used;
		VC sc_fence;
		Loc *loc_for( uintptr_t a, bool create ) {
			size_t h = ( a * 0x9e3779b97f4a7c15ull ) >> 52;
			for( ;; ) {
				Loc &l = locs[h & ( NLOC - 1 )];
				if( l.gen != gen ) {
					if( not create )
						return nullptr;
					if( ++nlocs_used > NLOC - 64 )
						die( "sim-limit", "atomic table exhausted" );
					l.gen = gen;
					l.key = a;
					l.n = 0;
					l.mo = 0;
					l.lastsc = 0;
					memset( l.seen, 0, sizeof l.seen );
					return &l;
				}
				if( l.key == a )
					return &l;
				++h;
			}
		}
		bool is_acq( int mo ) { return mo == __ATOMIC_ACQUIRE or mo == __ATOMIC_CONSUME or mo == __ATOMIC_ACQ_REL or mo == __ATOMIC_SEQ_CST; }
		bool is_rel( int mo ) { return mo == __ATOMIC_RELEASE or mo == __ATOMIC_ACQ_REL or mo == __ATOMIC_SEQ_CST; }

		void sync_loc( Loc *l, uintptr_t a, uint8_t size, uint64_t curval ) {
			// (re)base the history on memory if a plain write changed the location
			if( l->n and ( l->size != size or l->h[l->n - 1].val != curval ) )
				l->n = 0;
			if( l->n == 0 ) {
				l->size = size;
				Store s{ };
				s.val = curval;
				s.mo = ++l->mo;
				s.tid = 0xff;
				l->h[l->n++] = s;
				l->lastsc = 0;
			}
		}
		void push_store( Loc *l, Store const &s ) {
			if( l->n == HIST ) {
				memmove( l->h, l->h + 1, ( HIST - 1 ) * sizeof( Store ) );
				l->n = HIST - 1;
			}
			l->h[l->n++] = s;
		}

		// ------------------------------------------------------------- scheduler
		void switch_to( int t ) {
			// called on a fiber; picks the fiber t directly
			int from = cur;
			if( t == from )
				return;
			++switches;
			auto *g = reinterpret_cast<uint64_t *>( __cxxabiv1::__cxa_get_globals( ) );
			th[from].eh[0] = g[0];
			th[from].eh[1] = g[1];
			g[0] = th[t].eh[0];
			g[1] = th[t].eh[1];
			if( tls_size ) {
				memcpy( tls_copy + (size_t)from * tls_size, tls, tls_size );
				memcpy( tls, tls_copy + (size_t)t * tls_size, tls_size );
			}
			cur = t;
			mix( ( (uint64_t)t << 8 ) | 0x77 );
			bool q = in_rt;
			sim_ctx_switch( &th[from].sp, th[t].sp );
			in_rt = q;
		}
		int runnable( int *out ) {
			int n = 0;
			for( int k = 1; k <= nth; ++k ) {
				int t = ( cur + k ) % nth;
				if( th[t].st == T_RUN )
					out[n++] = t;
			}
			return n; // cyclic order after cur, cur last
		}
		void wake_timed( ) {
			for( int t = 0; t < nth; ++t )
				if( ( th[t].st == T_SLEEP or ( th[t].st == T_FUTEX and th[t].timed ) ) and th[t].wake_at <= now ) {
					th[t].st = T_RUN;
				}
		}
		// choose the next thread. must_leave: current thread cannot continue
		void reschedule( bool must_leave, bool yielding ) {
			int r[NT];
			int n;
			for( ;; ) {
				wake_timed( );
				n = runnable( r );
				if( n )
					break;
				int64_t best = INT64_MAX;
				for( int t = 0; t < nth; ++t )
					if( th[t].st == T_SLEEP or ( th[t].st == T_FUTEX and th[t].timed ) )
						best = std::min( best, th[t].wake_at );
				if( best == INT64_MAX ) {
					char b[300];
					int k = snprintf( b, sizeof b, "no thread can ever run again:" );
					for( int t = 0; t < nth; ++t )
						if( th[t].st != T_DONE )
							k += snprintf( b + k, sizeof b - k, " thread %d blocked in %s;", t,
							               th[t].st == T_FUTEX ? "an atomic wait" : th[t].st == T_JOIN ? "join" : "static initialisation" );
					die( "deadlock", "%s", b );
				}
				if( best > now )
					now = best;
			}
			bool can_stay = th[cur].st == T_RUN;
			int dflt = ( can_stay and not yielding ) ? cur : r[0];
			uint32_t v;
			int target = dflt;
			if( rt::dev_lookup( D_SCHED, v ) ) {
				if( v ) {
					int t = (int)v - 1;
					if( t < nth and th[t].st == T_RUN )
						target = t;
				}
			} else if( n > 1 or ( n == 1 and r[0] != dflt ) ) {
				switch( strat ) {
				case ST_PCT: {
					for( int i = 0; i < npct; ++i )
						if( pct_points[i] == steps )
							th[cur].prio = (uint32_t)( npct - i );
					if( yielding )
						th[cur].prio = 0; // lowest
					int b = r[0];
					for( int i = 1; i < n; ++i )
						if( th[r[i]].prio > th[b].prio )
							b = r[i];
					if( yielding and b == cur and n > 1 )
						b = r[0];
					target = b;
					break;
				}
				case ST_RR: break;
				default: {
					uint64_t x = rt::rng_next( );
					if( must_leave or yielding or ( x & 0xffff ) < sw_p )
						target = r[( x >> 20 ) % n];
				}
				}
			}
			if( target != dflt )
				rt::dev_record( D_SCHED, (uint32_t)target + 1 );
			if( target != cur )
				switch_to( target );
		}
		void tick( ) {
			++steps;
			now += ns_step;
			if( steps > step_limit )
				die( "step-limit", "run did not finish within %llu scheduling points", (unsigned long long)step_limit );
		}
		void yield_point( ) {
			tick( );
			static constexpr int64_t stall[] = { 0, 500, 5000, 50000, 1000000, 20000000, 300000000, 3000000000ll };
			if( uint32_t s = deviate( D_STALL, 8 ) ) {
				th[cur].st = T_SLEEP;
				th[cur].wake_at = now + stall[s];
				reschedule( true, false );
				return;
			}
			if( uint32_t s = deviate( D_CLOCK, 9 ) ) {
				static constexpr int64_t j[] = { 0, 1000000, -1000000, 1000000000ll, -1000000000ll, 50000000, -50000000, 3600000000000ll, -3600000000000ll };
				rt_off += j[s];
			}
			if( nth > 1 )
				reschedule( false, false );
		}

		template<typename T>
		struct Bits;
		uint64_t load_mem( uintptr_t a, unsigned size ) {
			switch( size ) {
			case 1: return *(uint8_t *)a;
			case 2: return *(uint16_t *)a;
			case 4: return *(uint32_t *)a;
			default: return *(uint64_t *)a;
			}
		}
		void store_mem( uintptr_t a, unsigned size, uint64_t v ) {
			switch( size ) {
			case 1: *(uint8_t *)a = (uint8_t)v; break;
			case 2: *(uint16_t *)a = (uint16_t)v; break;
			case 4: *(uint32_t *)a = (uint32_t)v; break;
			default: *(uint64_t *)a = v; break;
			}
		}
		struct RtGuard {
			bool s;
			RtGuard( )
			  : s( in_rt ) {
				in_rt = true;
			}
			~RtGuard( ) { in_rt = s; }
		};
		inline bool off( ) { return not rt::active or in_rt or quiet; }

		void after_op( ) { th[cur].clk.c[cur]++; }

		uint64_t a_load( uintptr_t a, unsigned size, int mo, void *pc ) {
			if( off( ) )
				return load_mem( a, size );
			RtGuard g;
			yield_point( );
			access( a, size, 2, pc );
			Thread &t = th[cur];
			Loc *l = loc_for( a, true );
			sync_loc( l, a, (uint8_t)size, load_mem( a, size ) );
			uint64_t minmo = l->seen[cur];
			if( mo == __ATOMIC_SEQ_CST )
				minmo = std::max( minmo, l->lastsc );
			unsigned first = 0;
			for( unsigned i = 0; i < l->n; ++i ) {
				Store &s = l->h[i];
				bool hb = s.tid == 0xff or s.tid == cur or s.clk <= t.clk.c[s.tid];
				if( hb or s.mo <= minmo )
					first = i;
			}
			unsigned pick = l->n - 1;
			if( first < pick and t.stale_left ) {
				uint32_t k = deviate( D_STALE, pick - first + 1 );
				if( k ) {
					pick -= k;
					t.stale_left--;
				}
			}
			Store &s = l->h[pick];
			l->seen[cur] = std::max( l->seen[cur], s.mo );
			if( mo == __ATOMIC_SEQ_CST )
				l->lastsc = std::max( l->lastsc, s.mo );
			if( is_acq( mo ) )
				t.clk.join( s.rel );
			else
				t.acqPending.join( s.rel );
			after_op( );
			mix( s.val );
			return s.val;
		}
		void a_store( uintptr_t a, unsigned size, uint64_t v, int mo, void *pc ) {
			if( off( ) ) {
				store_mem( a, size, v );
				return;
			}
			RtGuard g;
			yield_point( );
			access( a, size, 3, pc );
			Thread &t = th[cur];
			Loc *l = loc_for( a, true );
			sync_loc( l, a, (uint8_t)size, load_mem( a, size ) );
			Store s{ };
			s.val = v;
			s.mo = ++l->mo;
			s.tid = (uint8_t)cur;
			s.clk = t.clk.c[cur];
			s.sc = mo == __ATOMIC_SEQ_CST;
			s.rel = is_rel( mo ) ? t.clk : t.relFence;
			push_store( l, s );
			l->seen[cur] = s.mo;
			if( s.sc )
				l->lastsc = s.mo;
			store_mem( a, size, v );
			after_op( );
		}
		template<typename Op>
		uint64_t a_rmw( uintptr_t a, unsigned size, int mo, int fmo, void *pc, Op op, bool *applied ) {
			if( off( ) ) {
				uint64_t o = load_mem( a, size ), nv;
				bool ok = op( o, nv );
				if( ok )
					store_mem( a, size, nv );
				if( applied )
					*applied = ok;
				return o;
			}
			RtGuard g;
			yield_point( );
			Thread &t = th[cur];
			uint64_t o = load_mem( a, size ), nv = 0;
			bool ok = op( o, nv );
			access( a, size, ok ? 3 : 2, pc );
			Loc *l = loc_for( a, true );
			sync_loc( l, a, (uint8_t)size, o );
			Store prev = l->h[l->n - 1];
			int omo = ok ? mo : fmo;
			if( is_acq( omo ) )
				t.clk.join( prev.rel );
			else
				t.acqPending.join( prev.rel );
			l->seen[cur] = std::max( l->seen[cur], prev.mo );
			if( omo == __ATOMIC_SEQ_CST )
				l->lastsc = std::max( l->lastsc, prev.mo );
			if( ok ) {
				Store s{ };
				s.val = size == 8 ? nv : nv & ( ( 1ull << ( size * 8 ) ) - 1 );
				s.mo = ++l->mo;
				s.tid = (uint8_t)cur;
				s.clk = t.clk.c[cur];
				s.sc = mo == __ATOMIC_SEQ_CST;
				s.rel = is_rel( mo ) ? t.clk : t.relFence;
				s.rel.join( prev.rel ); // release sequence
				push_store( l, s );
				l->seen[cur] = s.mo;
				if( s.sc )
					l->lastsc = s.mo;
				store_mem( a, size, s.val );
			}
			if( applied )
				*applied = ok;
			after_op( );
			mix( o );
			return o;
		}
		void plain( uintptr_t a, size_t n, bool write, void *pc ) {
			if( off( ) or n == 0 )
				return;
			RtGuard g;
			access( a, n, write ? 1 : 0, pc );
			if( plain_points )
				yield_point( );
		}
		void fence( int mo ) {
			if( off( ) )
				return;
			RtGuard g;
			yield_point( );
			Thread &t = th[cur];
			if( is_acq( mo ) )
				t.clk.join( t.acqPending );
			if( mo == __ATOMIC_SEQ_CST ) {
				t.clk.join( sc_fence );
				sc_fence.join( t.clk );
			}
			if( is_rel( mo ) )
				t.relFence = t.clk;
			after_op( );
		}

		// ------------------------------------------------------------- allocation
		void *arena_alloc( size_t n, size_t align, unsigned kind ) {
			if( align < 16 )
				align = 16;
			uintptr_t p = arena_top + 32 + sizeof( AHdr );
			p = ( p + align - 1 ) & ~( align - 1 );
			uintptr_t e = ( p + n + 7 ) & ~(uintptr_t)7;
			if( n > ( 16u << 20 ) or e + 64 > AEND )
				return nullptr;
			arena_top = e + 32;
			AHdr *h = (AHdr *)( p - sizeof( AHdr ) );
			h->size = n;
			h->magic = MAGIC | kind;
			memset( (void *)p, 0xbe, n );
			size_t g = ( p - ARENA ) >> 3;
			for( size_t i = 0; i < n / 8; ++i )
				shadow[g + i] = 8;
			if( n & 7 )
				shadow[g + n / 8] = (uint8_t)( n & 7 );
			++live_n;
			live_b += (int64_t)n;
			return (void *)p;
		}
		void arena_free( void *vp, unsigned kind, size_t sz, bool sized, void *pc ) {
			uintptr_t p = (uintptr_t)vp;
			AHdr *h = (AHdr *)( p - sizeof( AHdr ) );
			if( ( p & 15 ) or p < ARENA + 48 or ( h->magic & ~0xffull ) != MAGIC )
				die( "bad-free", "deallocation of a pointer that was never allocated (thread %d, pc %p)", cur, pc );
			size_t g = ( p - ARENA ) >> 3;
			if( ( h->magic & 0x80 ) )
				die( "double-free", "heap block freed twice (thread %d, pc %p)", cur, pc );
			if( ( h->magic & 0x7f ) != kind )
				die( "mismatched-free", "heap block allocated as %s freed as %s", ( h->magic & 1 ) ? "array" : "object", kind & 1 ? "array" : "object" );
			if( sized and sz != h->size )
				die( "sized-free-mismatch", "heap block of %llu bytes freed as %zu bytes", (unsigned long long)h->size, sz );
			size_t n = h->size;
			// freeing conflicts with any unordered access
			if( not off( ) and n ) {
				RtGuard q;
				access( p, n, 1, pc );
			}
			h->magic |= 0x80;
			memset( vp, 0xde, n );
			for( size_t i = 0; i < ( n + 7 ) / 8; ++i )
				shadow[g + i] = 0xfd;
			--live_n;
			live_b -= (int64_t)n;
		}
		void fiber_main( ) {
			in_rt = false;
			Thread &t = th[cur];
			try {
				t.fn( t.arg );
				while( nat_exit[cur] ) { // thread local objects, last made first
					AtExit const x = at_exit[cur][--nat_exit[cur]];
					x.fn( x.obj );
				}
			} catch( Injected const &i ) {
				die( "escaped-exception", "injected exception from site %d escaped thread %d", i.site, cur );
			} catch( std::exception const &e ) {
				die( "escaped-exception", "exception escaped thread %d: %s", cur, e.what( ) );
			} catch( ... ) { die( "escaped-exception", "unknown exception escaped thread %d", cur ); }
			in_rt = true;
			t.st = T_DONE;
			t.final_clk = t.clk;
			for( int k = 0; k < nth; ++k )
				if( th[k].st == T_JOIN and th[k].jtid == cur )
					th[k].st = T_RUN;
			if( cur == 0 ) {
				void *dummy;
				sim_ctx_switch( &dummy, sched_sp );
			}
			reschedule( true, false );
			abort( );
		}
		void setup_thread( int i, void ( *fn )( void * ), void *arg ) {
			Thread &t = th[i];
			memset( &t, 0, sizeof t );
			t.stack = stacks + (size_t)i * ( STACK + 65536 ) + 65536;
			t.fn = fn;
			t.arg = arg;
			t.st = T_RUN;
			t.stale_left = 12;
			nat_exit[i] = 0;
			if( tls_size )
				fresh_tls( i == 0 ? tls : tls_copy + (size_t)i * tls_size );
			t.prio = 100 + (uint32_t)( rt::cfg_next( ) & 0xffff );
			uintptr_t *s = (uintptr_t *)( t.stack + STACK );
			*--s = 0;
			*--s = (uintptr_t)fiber_main;
			for( int k = 0; k < 6; ++k )
				*--s = 0;
			t.sp = s;
		}
		void ( *run_fn )( );
		void main_entry( void * ) { run_fn( ); }
	} // namespace

	namespace rt {
		bool active = false;
		void begin_run( ) {
			if( not cells ) {
				cells = (Cell *)mmap( nullptr, NCELL * sizeof( Cell ), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0 );
				locs = (Loc *)mmap( nullptr, NLOC * sizeof( Loc ), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0 );
				shadow = (uint8_t *)mmap( nullptr, ARENA_SZ / 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0 );
				void *p = mmap( (void *)ARENA, ARENA_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0 );
				if( p != (void *)ARENA ) {
					perror( "sim arena" );
					_exit( 91 );
				}
				size_t ssz = NT * ( STACK + 65536 );
				stacks = (char *)mmap( (void *)0x110000000000ull, ssz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0 );
				if( stacks != (char *)0x110000000000ull ) {
					perror( "sim stacks" );
					_exit( 91 );
				}
				for( int i = 0; i < NT; ++i )
					mprotect( stacks + (size_t)i * ( STACK + 65536 ), 65536, PROT_NONE );
				undo = (Undo *)mmap( nullptr, MAXUNDO * sizeof( Undo ), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0 );
				arena_top = ARENA + 64;
				dl_iterate_phdr( find_tls, nullptr );
				if( tls_size )
					tls_copy = (char *)mmap( nullptr, NT * tls_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0 );
			}
			memset( shadow, 0, ( arena_top - ARENA ) / 8 + 64 );
			arena_top = ARENA + 64;
			live_n = live_b = 0;
			nundo = 0;
			++gen;
			ncells_used = nlocs_used = 0;
			sc_fence.clear( );
			steps = switches = gseq = 0;
			step_limit = 200000;
			now = 1000000000ll;
			rt_off = 1700000000ll * 1000000000ll;
			run_start = now;
			ns_step = 20;
			in_rt = false;
			quiet = 0;
			uint64_t c = rt::cfg_next( );
			switch( c % 8 ) {
			case 0: strat = ST_RANDOM; sw_p = 32768; break;
			case 1: strat = ST_RANDOM; sw_p = 16384; break;
			case 2: strat = ST_RANDOM; sw_p = 6000; break;
			case 3: strat = ST_RANDOM; sw_p = 1500; break;
			case 4:
			case 5:
			case 6: strat = ST_PCT; break;
			default: strat = ST_RANDOM; sw_p = 60000; break;
			}
			npct = 1 + (int)( ( c >> 8 ) % 4 );
			uint64_t horizon = 20 + ( c >> 16 ) % 400;
			for( int i = 0; i < npct; ++i )
				pct_points[i] = 1 + rt::cfg_next( ) % horizon;
			static constexpr uint32_t sp[] = { 0, 0, 3000, 16000, 40000 };
			set_rate( D_STALE, sp[( c >> 32 ) % 5] );
			plain_points = ( ( c >> 40 ) % 8 ) == 0;
			if( rt::replaying( ) )
				plain_points = false;
			// recorded as a workload choice so that replay knows it
			plain_points = choose( 8 ) == 7;
		}
		void execute( void ( *fn )( ) ) {
			run_fn = fn;
			nth = 1;
			cur = 0;
			setup_thread( 0, main_entry, nullptr );
			th[0].clk.c[0] = 1;
			active = true;
			auto *g = reinterpret_cast<uint64_t *>( __cxxabiv1::__cxa_get_globals( ) );
			uint64_t s0 = g[0], s1 = g[1];
			g[0] = g[1] = 0;
			sim_ctx_switch( &sched_sp, th[0].sp );
			g[0] = s0;
			g[1] = s1;
			active = false;
			in_rt = false;
			for( int i = 1; i < nth; ++i )
				if( th[i].st != T_DONE ) {
					// the scenario returned without joining
					raise_violation( "harness", "scenario ended with live threads" );
				}
		}
		void end_run( ) {
			while( nundo ) {
				--nundo;
				*(uint64_t *)undo[nundo].a = undo[nundo].v;
			}
			if( live_n != 0 ) {
				char b[200];
				snprintf( b, sizeof b, "%lld heap blocks (%lld bytes) were never freed", (long long)live_n, (long long)live_b );
				raise_violation( "leak", b );
			}
		}
		void stats( uint64_t &s, uint64_t &sw, int64_t &ns ) {
			s = steps;
			sw = switches;
			ns = now - run_start;
		}
	} // namespace rt

	int64_t live_allocs( ) { return live_n; }
	int64_t live_bytes( ) { return live_b; }
	Quiet::Quiet( ) { ++quiet; }
	Quiet::~Quiet( ) { --quiet; }
	int64_t now_ns( ) { return now; }
	void advance_ns( int64_t ns ) { now += ns; }
	int64_t realtime_offset( ) { return rt_off; }
	int self( ) { return cur; }
	uint64_t seq( ) { return ++gseq; }
	void set_ns_per_step( int64_t ns ) { ns_step = ns; }
	void set_step_limit( uint64_t n ) { step_limit = n; }
	bool blocked( int tid ) { return th[tid].st == T_FUTEX; }

	int spawn_impl( void ( *fn )( void * ), void *arg ) {
		RtGuard g;
		if( nth >= NT )
			die( "harness", "too many threads" );
		int i = nth;
		setup_thread( i, fn, arg );
		th[i].clk = th[cur].clk;
		th[i].clk.c[i] = 1;
		th[cur].clk.c[cur]++;
		++nth;
		return i;
	}
	void join( int t ) {
		RtGuard g;
		yield_point( );
		if( th[t].st != T_DONE ) {
			th[cur].st = T_JOIN;
			th[cur].jtid = t;
			reschedule( true, false );
		}
		th[cur].clk.join( th[t].final_clk );
		after_op( );
	}
	void join_all( ) {
		for( int i = 1; i < nth; ++i )
			if( i != cur )
				join( i );
	}
	void op_point( ) {
		if( off( ) )
			return;
		RtGuard g;
		yield_point( );
	}
	void sleep_ns( int64_t ns ) {
		RtGuard g;
		tick( );
		th[cur].st = T_SLEEP;
		th[cur].wake_at = now + ns;
		reschedule( true, false );
	}
} // namespace sim

using namespace sim;

extern "C" bool sim_cas_spurious( ) {
	if( off( ) )
		return false;
	RtGuard g;
	return deviate( D_CASFAIL, 2 ) != 0;
}

// ---------------------------------------------------------------------------
// instrumentation entry points
// ---------------------------------------------------------------------------
#define PC __builtin_return_address( 0 )
extern "C" {
void __tsan_init( ) {}
void __tsan_func_entry( void * ) {}
void __tsan_func_exit( ) {}
void __tsan_ignore_thread_begin( ) {}
void __tsan_ignore_thread_end( ) {}
#define RW( N )                                                                                     \
	void __tsan_read##N( void *a ) { plain( (uintptr_t)a, N, false, PC ); }                            \
	void __tsan_write##N( void *a ) { plain( (uintptr_t)a, N, true, PC ); }                            \
	void __tsan_unaligned_read##N( void *a ) { plain( (uintptr_t)a, N, false, PC ); }                  \
	void __tsan_unaligned_write##N( void *a ) { plain( (uintptr_t)a, N, true, PC ); }                  \
	void __tsan_read##N##_pc( void *a, void *pc ) { plain( (uintptr_t)a, N, false, pc ); }             \
	void __tsan_write##N##_pc( void *a, void *pc ) { plain( (uintptr_t)a, N, true, pc ); }             \
	void __tsan_volatile_read##N( void *a ) { plain( (uintptr_t)a, N, false, PC ); }                   \
	void __tsan_volatile_write##N( void *a ) { plain( (uintptr_t)a, N, true, PC ); }                   \
	void __tsan_read_write##N( void *a ) {                                                             \
		plain( (uintptr_t)a, N, false, PC );                                                             \
		plain( (uintptr_t)a, N, true, PC );                                                              \
	}                                                                                                  \
	void __tsan_unaligned_read_write##N( void *a ) {                                                   \
		plain( (uintptr_t)a, N, false, PC );                                                             \
		plain( (uintptr_t)a, N, true, PC );                                                              \
	}
RW( 1 ) RW( 2 ) RW( 4 ) RW( 8 ) RW( 16 )
void __tsan_read_range( void *a, size_t n ) { plain( (uintptr_t)a, n, false, PC ); }
void __tsan_write_range( void *a, size_t n ) { plain( (uintptr_t)a, n, true, PC ); }
void __tsan_vptr_update( void **a, void *v ) {
	// not a conflicting write if nothing changes; a scheduling point either way,
	// as what a fresh object's memory holds is an accident
	plain( (uintptr_t)a, 8, *a != v, PC );
}
void __tsan_vptr_read( void **a ) { plain( (uintptr_t)a, 8, false, PC ); }
void *__tsan_memcpy( void *d, void const *s, size_t n ) {
	plain( (uintptr_t)s, n, false, PC );
	plain( (uintptr_t)d, n, true, PC );
	return memcpy( d, s, n );
}
void *__tsan_memmove( void *d, void const *s, size_t n ) {
	plain( (uintptr_t)s, n, false, PC );
	plain( (uintptr_t)d, n, true, PC );
	return memmove( d, s, n );
}
void *__tsan_memset( void *d, int c, size_t n ) {
	plain( (uintptr_t)d, n, true, PC );
	return memset( d, c, n );
}
#define ATOM( BITS, T, N )                                                                                        \
	T __tsan_atomic##BITS##_load( T const volatile *a, int mo ) { return (T)a_load( (uintptr_t)a, N, mo, PC ); }     \
	void __tsan_atomic##BITS##_store( T volatile *a, T v, int mo ) { a_store( (uintptr_t)a, N, (uint64_t)v, mo, PC ); } \
	T __tsan_atomic##BITS##_exchange( T volatile *a, T v, int mo ) {                                                  \
		return (T)a_rmw( (uintptr_t)a, N, mo, mo, PC, [&]( uint64_t, uint64_t &n ) { n = v; return true; }, nullptr );  \
	}                                                                                                                 \
	T __tsan_atomic##BITS##_fetch_add( T volatile *a, T v, int mo ) {                                                 \
		return (T)a_rmw( (uintptr_t)a, N, mo, mo, PC, [&]( uint64_t o, uint64_t &n ) { n = (T)( (T)o + v ); return true; }, nullptr ); \
	}                                                                                                                 \
	T __tsan_atomic##BITS##_fetch_sub( T volatile *a, T v, int mo ) {                                                 \
		return (T)a_rmw( (uintptr_t)a, N, mo, mo, PC, [&]( uint64_t o, uint64_t &n ) { n = (T)( (T)o - v ); return true; }, nullptr ); \
	}                                                                                                                 \
	T __tsan_atomic##BITS##_fetch_and( T volatile *a, T v, int mo ) {                                                 \
		return (T)a_rmw( (uintptr_t)a, N, mo, mo, PC, [&]( uint64_t o, uint64_t &n ) { n = (T)( (T)o & v ); return true; }, nullptr ); \
	}                                                                                                                 \
	T __tsan_atomic##BITS##_fetch_or( T volatile *a, T v, int mo ) {                                                  \
		return (T)a_rmw( (uintptr_t)a, N, mo, mo, PC, [&]( uint64_t o, uint64_t &n ) { n = (T)( (T)o | v ); return true; }, nullptr ); \
	}                                                                                                                 \
	T __tsan_atomic##BITS##_fetch_xor( T volatile *a, T v, int mo ) {                                                 \
		return (T)a_rmw( (uintptr_t)a, N, mo, mo, PC, [&]( uint64_t o, uint64_t &n ) { n = (T)( (T)o ^ v ); return true; }, nullptr ); \
	}                                                                                                                 \
	T __tsan_atomic##BITS##_fetch_nand( T volatile *a, T v, int mo ) {                                                \
		return (T)a_rmw( (uintptr_t)a, N, mo, mo, PC, [&]( uint64_t o, uint64_t &n ) { n = (T)~( (T)o & v ); return true; }, nullptr ); \
	}                                                                                                                 \
	T __tsan_atomic##BITS##_compare_exchange_val( T volatile *a, T c, T v, int mo, int fmo ) {                        \
		return (T)a_rmw( (uintptr_t)a, N, mo, fmo, PC, [&]( uint64_t o, uint64_t &n ) { n = v; return (T)o == c; }, nullptr ); \
	}                                                                                                                 \
	int __tsan_atomic##BITS##_compare_exchange_strong( T volatile *a, T *c, T v, int mo, int fmo ) {                  \
		T o = __tsan_atomic##BITS##_compare_exchange_val( a, *c, v, mo, fmo );                                          \
		bool ok = o == *c;                                                                                              \
		*c = o;                                                                                                         \
		return ok;                                                                                                      \
	}                                                                                                                 \
	int __tsan_atomic##BITS##_compare_exchange_weak( T volatile *a, T *c, T v, int mo, int fmo ) {                    \
		return __tsan_atomic##BITS##_compare_exchange_strong( a, c, v, mo, fmo );                                       \
	}
ATOM( 8, uint8_t, 1 ) ATOM( 16, uint16_t, 2 ) ATOM( 32, uint32_t, 4 ) ATOM( 64, uint64_t, 8 )
void __tsan_atomic_thread_fence( int mo ) { fence( mo ); }
void __tsan_atomic_signal_fence( int ) {}

// ---------------------------------------------------------------------------
// static initialisation guards
// ---------------------------------------------------------------------------
int __cxa_guard_acquire( uint64_t *gp ) {
	uint8_t *b = (uint8_t *)gp;
	if( off( ) ) {
		if( b[0] )
			return 0;
		b[1] = 1;
		return 1;
	}
	for( ;; ) {
		if( a_load( (uintptr_t)gp, 1, __ATOMIC_ACQUIRE, PC ) )
			return 0;
		if( b[1] == 0 ) {
			save_global( (uintptr_t)gp, 8 );
			b[1] = 1;
			return 1;
		}
		RtGuard g;
		tick( );
		reschedule( false, true );
	}
}
void __cxa_guard_release( uint64_t *gp ) {
	uint8_t *b = (uint8_t *)gp;
	b[1] = 0;
	a_store( (uintptr_t)gp, 1, 1, __ATOMIC_RELEASE, PC );
}
void __cxa_guard_abort( uint64_t *gp ) { ( (uint8_t *)gp )[1] = 0; }

// ---------------------------------------------------------------------------
// time, yielding, futex
// ---------------------------------------------------------------------------
int clock_gettime( clockid_t id, struct timespec *ts ) noexcept {
	if( not rt::active )
		return (int)raw6( SYS_clock_gettime, id, (long)ts, 0, 0, 0, 0 );
	if( not off( ) ) {
		RtGuard g;
		now += 25;
		yield_point( );
	}
	int64_t v = now;
	if( id == CLOCK_REALTIME or id == CLOCK_REALTIME_COARSE )
		v += rt_off;
	ts->tv_sec = v / 1000000000;
	ts->tv_nsec = v % 1000000000;
	return 0;
}
int gettimeofday( struct timeval *__restrict tv, void *__restrict ) noexcept {
	struct timespec ts;
	clock_gettime( CLOCK_REALTIME, &ts );
	tv->tv_sec = ts.tv_sec;
	tv->tv_usec = ts.tv_nsec / 1000;
	return 0;
}
time_t time( time_t *t ) noexcept {
	struct timespec ts;
	clock_gettime( CLOCK_REALTIME, &ts );
	if( t )
		*t = ts.tv_sec;
	return ts.tv_sec;
}
static int sim_sleep( int64_t ns, struct timespec *rem ) {
	RtGuard g;
	tick( );
	if( ns < 0 )
		return EINVAL;
	static constexpr int64_t over[] = { 0, 1000, 60000, 1000000, 9000000, 100000000 };
	uint32_t o = deviate( D_OVERSLEEP, 6 );
	int64_t slack = over[o];
	if( uint32_t e = deviate( D_SPUR, 4 ) ) {
		// interrupted by a signal part of the way through
		int64_t part = ns * e / 5;
		th[cur].st = T_SLEEP;
		th[cur].wake_at = now + part;
		int64_t end = now + ns;
		reschedule( true, false );
		if( rem and now < end ) {
			rem->tv_sec = ( end - now ) / 1000000000;
			rem->tv_nsec = ( end - now ) % 1000000000;
			return EINTR;
		}
		if( now < end )
			return EINTR;
		return 0;
	}
	th[cur].st = T_SLEEP;
	th[cur].wake_at = now + ns + slack;
	reschedule( true, false );
	return 0;
}
int nanosleep( struct timespec const *req, struct timespec *rem ) {
	if( not rt::active )
		return (int)raw6( SYS_nanosleep, (long)req, (long)rem, 0, 0, 0, 0 );
	if( req->tv_nsec < 0 or req->tv_nsec > 999999999 or req->tv_sec < 0 ) {
		errno = EINVAL;
		return -1;
	}
	int64_t ns = req->tv_sec > 9000000000ll ? INT64_MAX / 4 : req->tv_sec * 1000000000ll + req->tv_nsec;
	int e = sim_sleep( ns, rem );
	if( e ) {
		errno = e;
		return -1;
	}
	return 0;
}
int clock_nanosleep( clockid_t id, int flags, struct timespec const *req, struct timespec *rem ) {
	if( not rt::active )
		return (int)-raw6( SYS_clock_nanosleep, id, flags, (long)req, (long)rem, 0, 0 );
	int64_t ns = req->tv_sec * 1000000000ll + req->tv_nsec;
	if( flags & TIMER_ABSTIME )
		ns -= now + ( id == CLOCK_REALTIME ? rt_off : 0 );
	if( ns < 0 )
		ns = 0;
	return sim_sleep( ns, rem );
}
int usleep( useconds_t us ) {
	struct timespec ts { us / 1000000, (long)( us % 1000000 ) * 1000 };
	return nanosleep( &ts, nullptr );
}
int sched_yield( ) noexcept {
	if( off( ) )
		return 0;
	RtGuard g;
	tick( );
	now += 200;
	if( nth > 1 )
		reschedule( false, true );
	return 0;
}
long syscall( long n, ... ) noexcept {
	va_list ap;
	va_start( ap, n );
	long a[6];
	for( auto &x : a )
		x = va_arg( ap, long );
	va_end( ap );
	if( rt::active and n == SYS_futex ) {
		int *addr = (int *)a[0];
		int op = (int)a[1] & FUTEX_CMD_MASK;
		RtGuard g;
		if( op == FUTEX_WAIT or op == FUTEX_WAIT_BITSET ) {
			yield_point( );
			if( (uintptr_t)addr >= ARENA and (uintptr_t)addr < AEND )
				check_live( (uintptr_t)addr, 4, false, PC );
			if( *addr != (int)a[2] ) {
				errno = EAGAIN;
				return -1;
			}
			if( uint32_t e = deviate( D_SPUR, 3 ) ) {
				reschedule( false, true );
				if( e == 1 )
					return 0;
				errno = EINTR;
				return -1;
			}
			Thread &t = th[cur];
			t.faddr = addr;
			t.woken = false;
			t.timed = false;
			if( a[3] ) {
				auto *ts = (struct timespec const *)a[3];
				int64_t ns = ts->tv_sec * 1000000000ll + ts->tv_nsec;
				if( op == FUTEX_WAIT_BITSET )
					t.wake_at = ( a[1] & FUTEX_CLOCK_REALTIME ) ? ns - rt_off : ns;
				else
					t.wake_at = now + ns;
				t.timed = true;
			}
			t.st = T_FUTEX;
			mix( 0xf00d );
			reschedule( true, false );
			if( not th[cur].woken ) {
				errno = ETIMEDOUT;
				return -1;
			}
			return 0;
		}
		if( op == FUTEX_WAKE or op == FUTEX_WAKE_BITSET ) {
			yield_point( );
			int k = 0;
			for( int i = 1; i <= nth and k < (int)a[2]; ++i ) {
				int t = ( cur + i ) % nth;
				if( th[t].st == T_FUTEX and th[t].faddr == addr ) {
					th[t].st = T_RUN;
					th[t].woken = true;
					++k;
				}
			}
			return k;
		}
		errno = ENOSYS;
		return -1;
	}
	long r = raw6( n, a[0], a[1], a[2], a[3], a[4], a[5] );
	if( r < 0 and r > -4096 ) {
		errno = (int)-r;
		return -1;
	}
	return r;
}
static void *( *real_alloc_exc )( size_t ) = nullptr;
int __cxa_thread_atexit( void ( *fn )( void * ), void *obj, void * ) noexcept {
	if( rt::active ) {
		if( nat_exit[cur] == 32 )
			die( "sim-limit", "too many thread local objects" );
		at_exit[cur][nat_exit[cur]++] = AtExit{ fn, obj };
	}
	return 0; // outside runs there is one thread, which never ends
}
void *__cxa_allocate_exception( size_t n ) noexcept {
	if( not real_alloc_exc )
		real_alloc_exc = (void *( * )( size_t ))dlsym( RTLD_NEXT, "__cxa_allocate_exception" );
	void *p = real_alloc_exc( n );
	if( rt::active )
		forget( (uintptr_t)p, n );
	return p;
}
void __assert_fail( char const *expr, char const *file, unsigned line, char const *fn ) noexcept {
	if( rt::active ) {
		char b[600];
		snprintf( b, sizeof b, "%s:%u: assertion `%s' failed", file, line, expr );
		rt::raise_violation( "assertion", b );
	}
	fprintf( stderr, "%s:%u: %s: assertion `%s' failed\n", file, line, fn, expr );
	abort( );
}
} // extern "C"

// ---------------------------------------------------------------------------
// operator new / delete
// ---------------------------------------------------------------------------
static void *do_new( size_t n, size_t align, unsigned kind, bool nothrow ) {
	if( not rt::active or quiet or in_rt ) {
		void *p = align > 16 ? aligned_alloc( align, ( n + align - 1 ) / align * align ) : malloc( n ? n : 1 );
		if( not p )
			abort( );
		if( rt::active )
			forget( (uintptr_t)p, n );
		return p;
	}
	bool failit;
	{
		RtGuard g;
		failit = deviate( D_ALLOC, 2 ) != 0;
	}
	void *p = failit ? nullptr : arena_alloc( n, align, kind );
	if( not p ) {
		if( nothrow )
			return nullptr;
		throw std::bad_alloc( );
	}
	return p;
}
static void do_delete( void *p, unsigned kind, size_t sz, bool sized, void *pc ) {
	if( not p )
		return;
	uintptr_t a = (uintptr_t)p;
	if( a >= ARENA and a < AEND ) {
		arena_free( p, kind, sz, sized, pc );
		return;
	}
	if( rt::active and not quiet and not in_rt and a >= 0x110000000000ull and a < 0x120000000000ull )
		die( "bad-free", "deallocation of a stack address" );
	free( p );
}
void *operator new( size_t n ) { return do_new( n, 16, 0, false ); }
void *operator new[]( size_t n ) { return do_new( n, 16, 1, false ); }
void *operator new( size_t n, std::nothrow_t const & ) noexcept { return do_new( n, 16, 0, true ); }
void *operator new[]( size_t n, std::nothrow_t const & ) noexcept { return do_new( n, 16, 1, true ); }
void *operator new( size_t n, std::align_val_t a ) { return do_new( n, (size_t)a, 2, false ); }
void *operator new[]( size_t n, std::align_val_t a ) { return do_new( n, (size_t)a, 3, false ); }
void *operator new( size_t n, std::align_val_t a, std::nothrow_t const & ) noexcept { return do_new( n, (size_t)a, 2, true ); }
void *operator new[]( size_t n, std::align_val_t a, std::nothrow_t const & ) noexcept { return do_new( n, (size_t)a, 3, true ); }
void operator delete( void *p ) noexcept { do_delete( p, 0, 0, false, PC ); }
void operator delete[]( void *p ) noexcept { do_delete( p, 1, 0, false, PC ); }
void operator delete( void *p, size_t n ) noexcept { do_delete( p, 0, n, true, PC ); }
void operator delete[]( void *p, size_t ) noexcept { do_delete( p, 1, 0, false, PC ); }
void operator delete( void *p, std::align_val_t ) noexcept { do_delete( p, 2, 0, false, PC ); }
void operator delete[]( void *p, std::align_val_t ) noexcept { do_delete( p, 3, 0, false, PC ); }
void operator delete( void *p, size_t n, std::align_val_t ) noexcept { do_delete( p, 2, n, true, PC ); }
void operator delete[]( void *p, size_t, std::align_val_t ) noexcept { do_delete( p, 3, 0, false, PC ); }
void operator delete( void *p, std::nothrow_t const & ) noexcept { do_delete( p, 0, 0, false, PC ); }
void operator delete[]( void *p, std::nothrow_t const & ) noexcept { do_delete( p, 1, 0, false, PC ); }
