// Deterministic simulation core: decisions, driver, minimiser, evidence.
#include "sim.h"

#include <algorithm>
#include <cerrno>
#include <cinttypes>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <cxxabi.h>
#include <fcntl.h>
#include <map>
#include <set>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>

namespace sim {
	static int g_armed[8] = { };
	int armed_level( ) { return g_armed[self( )]; }
	void armed_set( int v ) { g_armed[self( )] = v; }

	static char const *const dev_names[D_COUNT] = {
	  "sched",       "stale_read",  "weak_cas_spurious_failure", "spurious_wakeup", "thread_stall",  "oversleep",
	  "clock_jump",  "alloc_failure", "callback_throw",          "io_fault",        "file_size_race", "entropy" };
	char const *dev_name( unsigned d ) { return dev_names[d]; }

	// ---------------------------------------------------------------- shared area
	static constexpr unsigned MAXW = 1u << 16, MAXS = 1u << 16, LOGCAP = 1u << 17, MAXPROBE = 256, MAXSCN = 64;
	struct SRec {
		uint16_t kind;
		uint16_t val;
		uint32_t idx;
	};
	struct ProbeRec {
		char name[48];
		uint64_t n;
	};
	struct Shm {
		volatile int running; // 1 while a run is in progress
		volatile int violated;
		uint64_t run_index;
		int scenario;
		char cls[64];
		char msg[1024];
		uint64_t hash;
		uint32_t nW, nS;
		uint32_t W[MAXW];
		SRec S[MAXS];
		uint32_t logn;
		char logbuf[LOGCAP];
		// accumulated
		uint64_t runs, nontrivial, steps, switches;
		int64_t sim_ns;
		uint64_t fired[D_COUNT], opportunities[D_COUNT];
		uint64_t runs_with[D_COUNT];
		uint64_t scn_runs[MAXSCN];
		ProbeRec probes[MAXPROBE];
		uint64_t nhash, nstate;
		// followed by hash array, state array
	};
	static Shm *shm = nullptr;
	static uint64_t *hash_arr = nullptr; // pairs (hash | nontrivial)
	static uint64_t hash_cap = 0;
	static uint64_t *state_arr = nullptr;
	static uint64_t state_cap = 0;

	// ---------------------------------------------------------------- per run state
	static uint64_t rw[2], rd[2], rc[2]; // workload, deviation, config rngs
	static uint64_t splitmix( uint64_t &x ) {
		uint64_t z = ( x += 0x9e3779b97f4a7c15ull );
		z = ( z ^ ( z >> 30 ) ) * 0xbf58476d1ce4e5b9ull;
		z = ( z ^ ( z >> 27 ) ) * 0x94d049bb133111ebull;
		return z ^ ( z >> 31 );
	}
	static inline uint64_t rotl( uint64_t x, int k ) { return ( x << k ) | ( x >> ( 64 - k ) ); }
	static uint64_t rnext( uint64_t *s ) {
		uint64_t s0 = s[0], s1 = s[1], r = s0 + s1;
		s1 ^= s0;
		s[0] = rotl( s0, 24 ) ^ s1 ^ ( s1 << 16 );
		s[1] = rotl( s1, 37 );
		return r;
	}
	static void rseed( uint64_t *s, uint64_t v ) {
		s[0] = splitmix( v );
		s[1] = splitmix( v );
	}
	static bool g_replay = false;
	static std::vector<uint32_t> rep_W;
	static std::vector<SRec> rep_S[D_COUNT];
	static size_t rep_pos[D_COUNT];
	static uint32_t dcount[D_COUNT], dfired[D_COUNT], dcap[D_COUNT], drate[D_COUNT];
	static uint64_t nfired = 0;
	static uint64_t run_hash = 0;
	static bool in_run = false;

	static std::vector<Scenario> &scenarios( ) {
		static std::vector<Scenario> v;
		return v;
	}
	void add_scenario( Scenario s ) { scenarios( ).push_back( s ); }

	void mix( uint64_t v ) {
		run_hash ^= v + 0x9e3779b97f4a7c15ull + ( run_hash << 6 ) + ( run_hash >> 2 );
		run_hash *= 0xff51afd7ed558ccdull;
		run_hash ^= run_hash >> 32;
	}

	uint32_t choose( uint32_t n ) {
		if( n < 2 )
			return 0;
		uint32_t v;
		if( g_replay ) {
			v = shm->nW < rep_W.size( ) ? rep_W[shm->nW] : 0;
			if( v >= n )
				v %= n;
		} else {
			v = (uint32_t)( rnext( rw ) % n );
		}
		if( shm->nW >= MAXW )
			return 0;
		shm->W[shm->nW++] = v;
		mix( v );
		return v;
	}
	uint64_t choose64( ) {
		// biased towards interesting values
		uint64_t k = choose( 6 );
		switch( k ) {
		case 0: return choose( 8 );
		case 1: return ~(uint64_t)choose( 8 );
		case 2: return ( 1ull << choose( 64 ) ) + choose( 3 ) - 1;
		default: return ( (uint64_t)choose( 0x7fffffff ) << 33 ) ^ ( (uint64_t)choose( 0x7fffffff ) << 10 ) ^ choose( 1024 );
		}
	}
	void set_rate( Dev k, uint32_t p ) { drate[k] = p; }
	uint32_t get_rate( Dev k ) { return drate[k]; }
	void cap( Dev k, uint32_t c ) { dcap[k] = c; }
	void swarm( Dev k, std::initializer_list<uint32_t> rates ) {
		drate[k] = *( rates.begin( ) + rt::cfg_next( ) % rates.size( ) );
	}
	namespace rt {
		uint64_t rng_next( ) { return rnext( rd ); }
		uint64_t cfg_next( ) { return g_replay ? 0 : rnext( rc ); }
		bool replaying( ) { return g_replay; }
		bool dev_lookup( Dev kind, uint32_t &value ) {
			uint32_t idx = dcount[kind]++;
			shm->opportunities[kind]++;
			value = 0;
			if( not g_replay )
				return false;
			auto &v = rep_S[kind];
			size_t &p = rep_pos[kind];
			while( p < v.size( ) and v[p].idx < idx )
				++p;
			if( p < v.size( ) and v[p].idx == idx )
				value = v[p].val;
			return true;
		}
		uint32_t dev_record( Dev kind, uint32_t value ) {
			if( value == 0 )
				return 0;
			if( shm->nS >= MAXS )
				return 0;
			shm->S[shm->nS++] = SRec{ (uint16_t)kind, (uint16_t)value, dcount[kind] - 1 };
			mix( ( (uint64_t)kind << 48 ) ^ ( (uint64_t)value << 32 ) ^ ( dcount[kind] - 1 ) );
			dfired[kind]++;
			shm->fired[kind]++;
			if( kind != D_SCHED and kind != D_STALE and kind != D_RAND )
				++nfired;
			return value;
		}
		void count_fault( Dev kind ) {
			dfired[kind]++;
			shm->fired[kind]++;
		}
	} // namespace rt

	uint32_t deviate( Dev kind, uint32_t n ) {
		if( n < 2 or not in_run )
			return 0;
		if( ( kind == D_ALLOC or kind == D_THROW or kind == D_IO or kind == D_RACEFS ) and not g_armed[self( )] )
			return 0;
		uint32_t v;
		if( rt::dev_lookup( kind, v ) ) {
			if( v >= n )
				v = 1 + ( v - 1 ) % ( n - 1 );
		} else {
			if( drate[kind] == 0 or dfired[kind] >= dcap[kind] )
				return 0;
			uint64_t r = rnext( rd );
			if( ( r & 0xffff ) < drate[kind] )
				v = 1 + (uint32_t)( ( r >> 20 ) % ( n - 1 ) );
		}
		return rt::dev_record( kind, v );
	}
	uint64_t injected_count( ) { return nfired; }

	void throw_point( int site ) {
		if( deviate( D_THROW, 2 ) )
			throw Injected{ site };
	}

	void log( char const *fmt, ... ) {
		char b[512];
		va_list ap;
		va_start( ap, fmt );
		int n = vsnprintf( b, sizeof b, fmt, ap );
		va_end( ap );
		if( n < 0 )
			return;
		if( n >= (int)sizeof b )
			n = sizeof b - 1;
		uint64_t h = 1469598103934665603ull;
		for( int i = 0; i < n; ++i )
			h = ( h ^ (unsigned char)b[i] ) * 1099511628211ull;
		mix( h );
		if( shm->logn + n + 2 < LOGCAP ) {
			memcpy( shm->logbuf + shm->logn, b, n );
			shm->logn += n;
			shm->logbuf[shm->logn++] = '\n';
		}
	}
	void state( uint64_t h ) {
		if( shm->nstate < state_cap )
			state_arr[shm->nstate++] = h;
	}
	void probe( char const *name ) {
		for( unsigned i = 0; i < MAXPROBE; ++i ) {
			ProbeRec &p = shm->probes[i];
			if( p.name[0] == 0 ) {
				strncpy( p.name, name, sizeof p.name - 1 );
				p.n = 1;
				return;
			}
			if( strncmp( p.name, name, sizeof p.name - 1 ) == 0 ) {
				++p.n;
				return;
			}
		}
	}

	namespace rt {
		void raise_violation( char const *cls, char const *msg ) {
			rt::active = false;
			if( not in_run ) {
				fprintf( stderr, "sim: violation outside a run: %s %s\n", cls, msg );
				_exit( 90 );
			}
			strncpy( shm->cls, cls, sizeof shm->cls - 1 );
			strncpy( shm->msg, msg, sizeof shm->msg - 1 );
			mix( 0xdead );
			shm->hash = run_hash;
			shm->violated = 1;
			_exit( 77 );
		}
	} // namespace rt
	void fail( char const *cls, char const *fmt, ... ) {
		char b[1000];
		va_list ap;
		va_start( ap, fmt );
		vsnprintf( b, sizeof b, fmt, ap );
		va_end( ap );
		rt::raise_violation( cls, b );
	}

	static void on_terminate( ) {
		char b[300] = "std::terminate called";
		if( in_run ) {
			if( auto p = std::current_exception( ) ) {
				std::type_info *t = abi::__cxa_current_exception_type( );
				snprintf( b, sizeof b, "std::terminate called with active exception of type %s", t ? t->name( ) : "?" );
			}
		}
		rt::raise_violation( "terminate", b );
	}

	// ---------------------------------------------------------------- one run
	static uint64_t g_base_seed = 0;
	static void reset_run( ) {
		shm->nW = shm->nS = 0;
		shm->logn = 0;
		shm->violated = 0;
		shm->cls[0] = 0;
		shm->msg[0] = 0;
		run_hash = 0x1234567;
		nfired = 0;
		for( auto &a : g_armed )
			a = 0;
		for( unsigned i = 0; i < D_COUNT; ++i ) {
			dcount[i] = dfired[i] = 0;
			dcap[i] = 0xffffffffu;
			drate[i] = 0;
			rep_pos[i] = 0;
		}
	}
	static int pick_scenario( uint64_t run_index ) {
		// interleave scenarios by weight, deterministic in the index
		auto &sc = scenarios( );
		int tot = 0;
		for( auto &s : sc )
			tot += s.weight;
		uint64_t x = g_base_seed ^ ( run_index * 0x9e3779b97f4a7c15ull );
		int r = (int)( splitmix( x ) % (uint64_t)tot );
		for( size_t i = 0; i < sc.size( ); ++i ) {
			r -= sc[i].weight;
			if( r < 0 )
				return (int)i;
		}
		return 0;
	}
	static void run_body( int scn ) {
		in_run = true;
		shm->running = 1;
		struct itimerval tv { };
		tv.it_value.tv_sec = 20;
		setitimer( ITIMER_PROF, &tv, nullptr );
		rt::begin_run( );
		rt::execute( scenarios( )[scn].fn );
		rt::end_run( );
		in_run = false;
		uint64_t st = 0, sw = 0;
		int64_t ns = 0;
		rt::stats( st, sw, ns );
		mix( st );
		mix( sw );
		mix( (uint64_t)ns );
		shm->hash = run_hash;
		shm->runs++;
		shm->steps += st;
		shm->switches += sw;
		shm->sim_ns += ns;
		shm->scn_runs[scn]++;
		bool nt = nfired > 0 or sw > 1;
		for( unsigned i = 0; i < D_COUNT; ++i )
			if( dfired[i] )
				shm->runs_with[i]++;
		if( nt )
			shm->nontrivial++;
		if( shm->nhash < hash_cap )
			hash_arr[shm->nhash++] = ( run_hash & ~1ull ) | ( nt ? 1u : 0u );
		shm->running = 0;
	}
	static void seeded_run( uint64_t run_index, int scn ) {
		g_replay = false;
		shm->run_index = run_index;
		shm->scenario = scn;
		uint64_t s = g_base_seed * 0x2545f4914f6cdd1dull + run_index * 0x9e3779b97f4a7c15ull + (uint64_t)scn * 0x632be59bd9b4e019ull;
		rseed( rw, splitmix( s ) );
		rseed( rd, splitmix( s ) );
		rseed( rc, splitmix( s ) );
		reset_run( );
		run_body( scn );
	}
	struct Trace {
		int scn;
		std::vector<uint32_t> W;
		std::vector<SRec> S;
	};
	static void replay_run( Trace const &t ) {
		g_replay = true;
		shm->scenario = t.scn;
		rep_W = t.W;
		for( auto &v : rep_S )
			v.clear( );
		for( auto &s : t.S )
			rep_S[s.kind].push_back( s );
		for( auto &v : rep_S )
			std::sort( v.begin( ), v.end( ), []( SRec a, SRec b ) { return a.idx < b.idx; } );
		reset_run( );
		run_body( t.scn );
	}

	// ---------------------------------------------------------------- process plumbing
	struct Area {
		Shm *s;
		uint64_t *hashes, *states;
		uint64_t hcap, scap;
	};
	static Area make_area( uint64_t hcap, uint64_t scap ) {
		size_t sz = sizeof( Shm ) + ( hcap + scap ) * 8 + 4096;
		void *p = mmap( nullptr, sz, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0 );
		if( p == MAP_FAILED ) {
			perror( "mmap" );
			exit( 2 );
		}
		Area a;
		a.s = (Shm *)p;
		a.hashes = (uint64_t *)( (char *)p + ( ( sizeof( Shm ) + 63 ) & ~(size_t)63 ) );
		a.states = a.hashes + hcap;
		a.hcap = hcap;
		a.scap = scap;
		return a;
	}
	static void use_area( Area const &a ) {
		shm = a.s;
		hash_arr = a.hashes;
		hash_cap = a.hcap;
		state_arr = a.states;
		state_cap = a.scap;
	}
	static void child_setup( ) {
		struct rlimit rl { 0, 0 };
		setrlimit( RLIMIT_CORE, &rl );
		std::set_terminate( on_terminate );
	}
	// Result of a child's run, normalised
	struct Outcome {
		bool violated = false;
		bool error = false;
		std::string cls, msg;
		uint64_t hash = 0;
		Trace t;
		std::string logtext;
	};
	static void classify_exit( Area const &a, int status, Outcome &o ) {
		Shm *s = a.s;
		o.hash = s->hash;
		o.t.scn = s->scenario;
		o.t.W.assign( s->W, s->W + s->nW );
		o.t.S.assign( s->S, s->S + s->nS );
		o.logtext.assign( s->logbuf, s->logbuf + s->logn );
		if( s->violated ) {
			o.violated = true;
			o.cls = s->cls;
			o.msg = s->msg;
			return;
		}
		if( WIFEXITED( status ) and WEXITSTATUS( status ) == 0 )
			return;
		if( WIFSIGNALED( status ) ) {
			int sig = WTERMSIG( status );
			if( sig == SIGKILL or sig == SIGTERM or sig == SIGINT ) {
				o.error = true;
				return;
			}
			o.violated = true;
			if( sig == SIGPROF ) {
				o.cls = "hang";
				o.msg = "no progress within the cpu time budget of one run";
			} else {
				char b[64];
				snprintf( b, sizeof b, "crash-signal-%d", sig );
				o.cls = b;
				o.msg = std::string( "the code under test crashed: " ) + strsignal( sig );
			}
			o.hash = 0; // a crash has no final hash
			return;
		}
		if( WIFEXITED( status ) ) {
			o.violated = s->running != 0;
			o.error = not o.violated;
			char b[64];
			snprintf( b, sizeof b, "exit-%d", WEXITSTATUS( status ) );
			o.cls = b;
			o.msg = "the process under test exited in the middle of a run";
		}
	}
	template<typename F>
	static Outcome in_child( F f ) {
		static Area a = make_area( 16, 4096 );
		a.s->running = 0;
		a.s->violated = 0;
		a.s->nhash = 0;
		a.s->nstate = 0;
		a.s->nW = a.s->nS = a.s->logn = 0;
		fflush( stdout );
		fflush( stderr );
		pid_t p = fork( );
		if( p == 0 ) {
			child_setup( );
			use_area( a );
			f( );
			_exit( 0 );
		}
		int st = 0;
		while( waitpid( p, &st, 0 ) < 0 and errno == EINTR ) {
		}
		Outcome o;
		classify_exit( a, st, o );
		return o;
	}
	static double wall( ) {
		struct timespec ts;
		syscall( SYS_clock_gettime, CLOCK_MONOTONIC, &ts );
		return ts.tv_sec + ts.tv_nsec * 1e-9;
	}

	// ---------------------------------------------------------------- minimiser
	static Outcome minimise( Outcome best, double budget, unsigned max_tries, unsigned &tries ) {
		double t0 = wall( );
		std::string cls = best.cls;
		auto left = [&] { return tries < max_tries and wall( ) - t0 < budget; };
		auto attempt = [&]( Trace const &t ) {
			++tries;
			Outcome o = in_child( [&] { replay_run( t ); } );
			if( o.violated and o.cls == cls ) {
				// accept only if not larger
				if( o.t.W.size( ) + o.t.S.size( ) <= best.t.W.size( ) + best.t.S.size( ) ) {
					best = o;
					return true;
				}
			}
			return false;
		};
		bool progress = true;
		while( progress and left( ) ) {
			progress = false;
			// drop deviations
			for( size_t chunk = std::max<size_t>( 1, best.t.S.size( ) / 2 ); chunk >= 1 and left( ); chunk /= 2 ) {
				for( size_t i = 0; i < best.t.S.size( ) and left( ); ) {
					Trace t = best.t;
					t.S.erase( t.S.begin( ) + i, t.S.begin( ) + std::min( i + chunk, t.S.size( ) ) );
					size_t before = best.t.S.size( );
					if( attempt( t ) and best.t.S.size( ) < before )
						progress = true;
					else
						i += chunk;
				}
				if( chunk == 1 )
					break;
			}
			// drop workload chunks
			for( size_t chunk : { (size_t)32, (size_t)16, (size_t)8, (size_t)5, (size_t)4, (size_t)3, (size_t)2, (size_t)1 } ) {
				for( size_t i = 0; i < best.t.W.size( ) and left( ); ) {
					if( i + chunk > best.t.W.size( ) )
						break;
					Trace t = best.t;
					t.W.erase( t.W.begin( ) + i, t.W.begin( ) + i + chunk );
					size_t before = best.t.W.size( );
					if( attempt( t ) and best.t.W.size( ) < before )
						progress = true;
					else
						i += chunk;
				}
			}
			// lower workload values
			for( size_t i = 0; i < best.t.W.size( ) and left( ); ++i ) {
				uint32_t v = best.t.W[i];
				if( v == 0 )
					continue;
				for( uint32_t nv : { 0u, v / 2, v - 1 } ) {
					if( nv >= v or i >= best.t.W.size( ) or not left( ) )
						continue;
					Trace t = best.t;
					t.W[i] = nv;
					size_t before = best.t.W.size( ) + best.t.S.size( );
					if( attempt( t ) ) {
						if( best.t.W.size( ) + best.t.S.size( ) < before )
							progress = true;
						break;
					}
				}
			}
			// lower deviation values
			for( size_t i = 0; i < best.t.S.size( ) and left( ); ++i ) {
				if( best.t.S[i].val > 1 and best.t.S[i].kind != D_SCHED ) {
					Trace t = best.t;
					t.S[i].val = 1;
					attempt( t );
				}
			}
		}
		return best;
	}

	static void write_replay( std::string const &path, Outcome const &o, uint64_t vseed, uint64_t run_index ) {
		FILE *f = fopen( path.c_str( ), "w" );
		if( not f ) {
			perror( path.c_str( ) );
			exit( 2 );
		}
		fprintf( f, "sim-replay 1\nproperty %s\nscenario %s\nverif_seed %" PRIu64 "\nrun_index %" PRIu64 "\nclass %s\n",
		         harness.property, scenarios( )[o.t.scn].name, vseed, run_index, o.cls.c_str( ) );
		std::string m = o.msg;
		for( auto &c : m )
			if( c == '\n' )
				c = ' ';
		fprintf( f, "message %s\nhash %016" PRIx64 "\nW %zu", m.c_str( ), o.hash, o.t.W.size( ) );
		for( auto v : o.t.W )
			fprintf( f, " %u", v );
		fprintf( f, "\nS %zu", o.t.S.size( ) );
		for( auto &s : o.t.S )
			fprintf( f, " %s:%u:%u", dev_name( s.kind ), s.idx, s.val );
		fprintf( f, "\nlog\n%s", o.logtext.c_str( ) );
		fclose( f );
	}
	static bool read_replay( char const *path, Trace &t, std::string &cls, uint64_t &hash ) {
		FILE *f = fopen( path, "r" );
		if( not f )
			return false;
		char *line = nullptr;
		size_t cap = 0;
		t.scn = -1;
		while( getline( &line, &cap, f ) > 0 ) {
			std::string l( line );
			while( not l.empty( ) and ( l.back( ) == '\n' or l.back( ) == '\r' ) )
				l.pop_back( );
			if( l.rfind( "scenario ", 0 ) == 0 ) {
				for( size_t i = 0; i < scenarios( ).size( ); ++i )
					if( l.substr( 9 ) == scenarios( )[i].name )
						t.scn = (int)i;
			} else if( l.rfind( "class ", 0 ) == 0 ) {
				cls = l.substr( 6 );
			} else if( l.rfind( "hash ", 0 ) == 0 ) {
				hash = strtoull( l.c_str( ) + 5, nullptr, 16 );
			} else if( l.rfind( "W ", 0 ) == 0 ) {
				char *p = (char *)l.c_str( ) + 2;
				size_t n = strtoul( p, &p, 10 );
				for( size_t i = 0; i < n; ++i )
					t.W.push_back( (uint32_t)strtoul( p, &p, 10 ) );
			} else if( l.rfind( "S ", 0 ) == 0 ) {
				char *p = (char *)l.c_str( ) + 2;
				size_t n = strtoul( p, &p, 10 );
				for( size_t i = 0; i < n; ++i ) {
					while( *p == ' ' )
						++p;
					char *c = strchr( p, ':' );
					if( not c )
						break;
					std::string k( p, c );
					SRec s{ };
					for( unsigned d = 0; d < D_COUNT; ++d )
						if( k == dev_names[d] )
							s.kind = (uint16_t)d;
					p = c + 1;
					s.idx = (uint32_t)strtoul( p, &p, 10 );
					++p;
					s.val = (uint16_t)strtoul( p, &p, 10 );
					t.S.push_back( s );
				}
			} else if( l == "log" ) {
				break;
			}
		}
		free( line );
		fclose( f );
		return t.scn >= 0;
	}

	static std::string jesc( std::string const &s ) {
		std::string o;
		for( unsigned char c : s ) {
			if( c == '"' or c == '\\' ) {
				o += '\\';
				o += (char)c;
			} else if( c == '\n' )
				o += "\\n";
			else if( c < 32 or c > 126 ) {
				char b[8];
				snprintf( b, sizeof b, "\\u%04x", c );
				o += b;
			} else
				o += (char)c;
		}
		return o;
	}

	// ---------------------------------------------------------------- driver
	struct Opts {
		std::string tier = "quick", evidence, replays = ".", known, mode;
		uint64_t seed = 1, runs = 0;
		unsigned workers = 8;
		double wallcap = 0;
		std::string file;
		bool only_probe = false;
		std::string only_scn;
	};
	struct Cand {
		uint64_t run_index;
		int scn;
		std::string cls, msg;
	};

	static int do_replay( Opts const &o ) {
		Trace t;
		std::string cls;
		uint64_t h = 0;
		if( not read_replay( o.file.c_str( ), t, cls, h ) ) {
			fprintf( stderr, "cannot read replay file %s (or its scenario is unknown)\n", o.file.c_str( ) );
			return 2;
		}
		Outcome r = in_child( [&] { replay_run( t ); } );
		printf( "%s", r.logtext.c_str( ) );
		if( r.error ) {
			fprintf( stderr, "replay: error\n" );
			return 2;
		}
		if( r.violated ) {
			printf( "replay: class=%s hash=%016" PRIx64 "%s\n%s\n", r.cls.c_str( ), r.hash,
			        r.hash == h ? " (identical execution)" : " (execution differs from the recorded one)", r.msg.c_str( ) );
			printf( "VIOLATION property=%s replay=%s\n", harness.property, o.file.c_str( ) );
			return 1;
		}
		printf( "replay: no violation\n" );
		return 0;
	}

	static int do_check( Opts const &o ) {
		double t0 = wall( );
		bool thorough = o.tier == "thorough";
		uint64_t runs = o.runs ? o.runs : ( thorough ? harness.thorough_runs : harness.quick_runs );
		unsigned nw = o.workers;
		double wallcap = o.wallcap > 0 ? o.wallcap : ( thorough ? 780 : 150 );
		std::set<std::string> known;
		std::map<std::string, std::string> known_text;
		if( FILE *f = o.known.empty( ) ? nullptr : fopen( o.known.c_str( ), "r" ) ) {
			char *line = nullptr;
			size_t cap = 0;
			while( getline( &line, &cap, f ) > 0 ) {
				char prop[64], scn[128];
				int n = 0;
				if( sscanf( line, "finding: property=%63s scenario=%127s %n", prop, scn, &n ) >= 2 and
				    std::string( prop ) == harness.property ) {
					known.insert( scn );
					std::string tx = line + n;
					while( not tx.empty( ) and tx.back( ) == '\n' )
						tx.pop_back( );
					known_text[scn] = tx;
				}
			}
			free( line );
			fclose( f );
		}
		std::vector<Area> areas;
		for( unsigned i = 0; i < nw; ++i )
			areas.push_back( make_area( runs / nw + 64, 1 << 18 ) );

		std::vector<std::string> known_lines;
		std::vector<Cand> cands;
		// --- probes: scenarios of weight 0, each on its own
		auto &sc = scenarios( );
		unsigned nprobe = 0, nprobe_fail = 0;
		for( size_t i = 0; i < sc.size( ); ++i ) {
			if( sc[i].weight != 0 )
				continue;
			for( uint64_t k = 0; k < 4; ++k ) {
				++nprobe;
				Outcome r = in_child( [&] { seeded_run( k, (int)i ); } );
				if( r.violated ) {
					++nprobe_fail;
					if( known.count( sc[i].name ) ) {
						known_lines.push_back( std::string( "KNOWN-FINDING: property=" ) + harness.property + " scenario=" + sc[i].name + " " + known_text[sc[i].name] + " [" +
						                       r.cls + ": " + r.msg + "]" );
					} else {
						cands.push_back( Cand{ k, (int)i, r.cls, r.msg } );
					}
					break;
				}
			}
		}
		bool stop = false;
		unsigned unconfirmed = 0;
		bool reported = false;
		Outcome rep;
		uint64_t rep_index = 0;
		unsigned tries = 0;
		std::string replay_path;
		auto confirm = [&]( Cand const &c ) {
			Outcome a = in_child( [&] { seeded_run( c.run_index, c.scn ); } );
			Outcome b = in_child( [&] { seeded_run( c.run_index, c.scn ); } );
			if( not a.violated or not b.violated or a.cls != b.cls or a.hash != b.hash )
				return false;
			a = minimise( a, thorough ? 60 : 25, 2500, tries );
			char b2[256];
			snprintf( b2, sizeof b2, "%s/%s-%s-s%" PRIu64 "-r%" PRIu64 ".replay", o.replays.c_str( ), harness.property, sc[c.scn].name,
			          o.seed, c.run_index );
			write_replay( b2, a, o.seed, c.run_index );
			// fresh process replay
			fflush( stdout );
			pid_t p = fork( );
			if( p == 0 ) {
				int dn = open( "/dev/null", O_WRONLY );
				dup2( dn, 1 );
				dup2( dn, 2 );
				execl( "/proc/self/exe", "sim", "replay", b2, (char *)nullptr );
				_exit( 99 );
			}
			int st = 0;
			waitpid( p, &st, 0 );
			if( not WIFEXITED( st ) or WEXITSTATUS( st ) != 1 )
				return false;
			rep = a;
			rep_index = c.run_index;
			replay_path = b2;
			return true;
		};
		for( auto &c : cands ) {
			if( confirm( c ) ) {
				reported = true;
				stop = true;
				break;
			}
			++unconfirmed;
		}
		// --- main exploration
		struct W {
			pid_t pid = 0;
			uint64_t next = 0;
			bool done = false;
		};
		std::vector<W> ws( nw );
		bool any_weight = false;
		for( auto &s : sc )
			any_weight = any_weight or s.weight > 0;
		if( not any_weight )
			stop = true;
		for( unsigned i = 0; i < nw; ++i )
			ws[i].next = i;
		double deadline = t0 + wallcap;
		auto launch = [&]( unsigned i ) {
			fflush( stdout );
			fflush( stderr );
			pid_t p = fork( );
			if( p == 0 ) {
				child_setup( );
				use_area( areas[i] );
				for( uint64_t k = ws[i].next; k < runs; k += nw ) {
					if( ( k / nw ) % 16 == 0 and wall( ) > deadline )
						break;
					seeded_run( k, pick_scenario( k ) );
				}
				_exit( 0 );
			}
			ws[i].pid = p;
		};
		if( not stop ) {
			for( unsigned i = 0; i < nw; ++i )
				launch( i );
			unsigned active = nw;
			while( active ) {
				int st = 0;
				pid_t p = waitpid( -1, &st, 0 );
				if( p < 0 ) {
					if( errno == EINTR )
						continue;
					break;
				}
				for( unsigned i = 0; i < nw; ++i ) {
					if( ws[i].pid != p )
						continue;
					ws[i].pid = 0;
					--active;
					if( stop )
						break;
					Outcome r;
					classify_exit( areas[i], st, r );
					if( r.violated and not stop ) {
						Cand c{ areas[i].s->run_index, areas[i].s->scenario, r.cls, r.msg };
						if( confirm( c ) ) {
							reported = true;
							stop = true;
							for( auto &w : ws )
								if( w.pid )
									kill( w.pid, SIGKILL );
						} else {
							++unconfirmed;
							fprintf( stderr, "sim: unconfirmed violation in run %" PRIu64 " scenario %s: %s %s\n", c.run_index, sc[c.scn].name,
							         c.cls.c_str( ), c.msg.c_str( ) );
							ws[i].next = c.run_index + nw;
							if( unconfirmed < 200 ) {
								launch( i );
								++active;
							}
						}
					} else if( r.error ) {
						fprintf( stderr, "sim: worker %u died (status %x)\n", i, st );
						return 3;
					}
				}
			}
		}
		// --- aggregate
		uint64_t tot = 0, nontriv = 0, steps = 0, switches = 0, fired[D_COUNT]{ }, opp[D_COUNT]{ }, rwith[D_COUNT]{ }, scnr[MAXSCN]{ };
		int64_t ns = 0;
		std::map<std::string, uint64_t> probes;
		std::unordered_set<uint64_t> dh, dnt, ds;
		for( auto &a : areas ) {
			Shm *s = a.s;
			tot += s->runs;
			nontriv += s->nontrivial;
			steps += s->steps;
			switches += s->switches;
			ns += s->sim_ns;
			for( unsigned d = 0; d < D_COUNT; ++d ) {
				fired[d] += s->fired[d];
				opp[d] += s->opportunities[d];
				rwith[d] += s->runs_with[d];
			}
			for( unsigned k = 0; k < MAXSCN; ++k )
				scnr[k] += s->scn_runs[k];
			for( auto &p : s->probes )
				if( p.name[0] )
					probes[p.name] += p.n;
			for( uint64_t k = 0; k < s->nhash; ++k ) {
				dh.insert( a.hashes[k] >> 1 );
				if( a.hashes[k] & 1 )
					dnt.insert( a.hashes[k] >> 1 );
			}
			for( uint64_t k = 0; k < s->nstate; ++k )
				ds.insert( a.states[k] );
		}
		// --- determinism self check: rerun a sample in fresh processes
		unsigned det_n = 0, det_bad = 0;
		std::vector<std::string> samples;
		if( not reported and tot > 0 ) {
			unsigned want = thorough ? 400 : 48;
			for( unsigned k = 0; k < want; ++k ) {
				unsigned w = k % nw;
				uint64_t cnt = areas[w].s->nhash;
				if( unconfirmed or cnt == 0 )
					break; // index mapping only valid when workers ran straight through
				uint64_t j = ( (uint64_t)k * 2654435761u ) % cnt;
				uint64_t idx = w + j * nw;
				Outcome r = in_child( [&] { seeded_run( idx, pick_scenario( idx ) ); } );
				++det_n;
				if( r.violated or ( r.hash >> 1 ) != ( areas[w].hashes[j] >> 1 ) ) {
					++det_bad;
					fprintf( stderr, "sim: run %" PRIu64 " (%s) is not reproducible: %016" PRIx64 " vs %016" PRIx64 " %s\n", idx,
					         sc[pick_scenario( idx )].name, r.hash, areas[w].hashes[j], r.cls.c_str( ) );
				}
				if( samples.size( ) < 4 and not r.logtext.empty( ) ) {
					std::string s = "run " + std::to_string( idx ) + " scenario " + sc[r.t.scn].name + " deviations";
					unsigned c = 0;
					for( auto &d : r.t.S ) {
						if( ++c > 12 ) {
							s += " ...";
							break;
						}
						s += std::string( " " ) + dev_name( d.kind ) + ":" + std::to_string( d.idx ) + ":" + std::to_string( d.val );
					}
					s += " log: " + r.logtext.substr( 0, 900 );
					samples.push_back( s );
				}
			}
		}
		if( samples.empty( ) and reported )
			samples.push_back( rep.logtext.substr( 0, 1200 ) );
		if( samples.empty( ) )
			samples.push_back( "no sample" );
		double el = wall( ) - t0;
		for( auto &l : known_lines )
			printf( "%s\n", l.c_str( ) );
		if( not o.evidence.empty( ) ) {
			FILE *f = fopen( o.evidence.c_str( ), "w" );
			if( not f ) {
				perror( o.evidence.c_str( ) );
				return 2;
			}
			fprintf( f, "{\n \"property\": \"%s\",\n \"tier\": \"%s\",\n \"seed\": %" PRIu64 ",\n \"level\": \"exploration\",\n \"coverage\": {\n", harness.property,
			         thorough ? "thorough" : "quick", o.seed );
			fprintf( f, "  \"evaluations\": %" PRIu64 ",\n  \"distinct_nontrivial\": %zu,\n", tot, dnt.size( ) );
			fprintf( f, "  \"rule\": \"%s\",\n", jesc( std::string( harness.rule ) + " A run is non-trivial if at least one fault was injected or two threads were interleaved; two runs are the same if the hash over all their decisions, logged events and results is." ).c_str( ) );
			fprintf( f, "  \"distinct_executions\": %zu,\n  \"distinct_abstract_states\": %zu,\n", dh.size( ), ds.size( ) );
			fprintf( f, "  \"runs_per_hour\": %.0f,\n  \"seeds_per_hour\": %.0f,\n", tot / el * 3600, tot / el * 3600 );
			fprintf( f, "  \"scheduling_points\": %" PRIu64 ",\n  \"context_switches\": %" PRIu64 ",\n  \"simulated_time_s\": %.6f,\n", steps, switches, ns * 1e-9 );
			fprintf( f, "  \"faults_injected\": {" );
			bool first = true;
			for( unsigned d = 0; d < D_COUNT; ++d )
				if( opp[d] ) {
					fprintf( f, "%s\n   \"%s\": {\"fired\": %" PRIu64 ", \"opportunities\": %" PRIu64 ", \"runs\": %" PRIu64 "}", first ? "" : ",", dev_name( d ), fired[d],
					         opp[d], rwith[d] );
					first = false;
				}
			fprintf( f, "\n  },\n  \"scenarios\": {" );
			first = true;
			for( size_t k = 0; k < sc.size( ); ++k )
				if( sc[k].weight ) {
					fprintf( f, "%s\n   \"%s\": %" PRIu64, first ? "" : ",", sc[k].name, scnr[k] );
					first = false;
				}
			fprintf( f, "\n  },\n  \"probes_hit\": {" );
			first = true;
			for( auto &p : probes ) {
				fprintf( f, "%s\n   \"%s\": %" PRIu64, first ? "" : ",", jesc( p.first ).c_str( ), p.second );
				first = false;
			}
			fprintf( f, "\n  },\n  \"known_defect_probes_run\": %u,\n  \"known_findings_seen\": %zu,\n", nprobe, known_lines.size( ) );
			fprintf( f, "  \"determinism_recheck\": {\"runs\": %u, \"mismatches\": %u},\n", det_n, det_bad );
			fprintf( f, "  \"minimiser_tries\": %u,\n", tries );
			fprintf( f, "  \"real_components\": \"%s\",\n  \"simulated_components\": \"%s\",\n", jesc( harness.real ).c_str( ), jesc( harness.stubbed ).c_str( ) );
			fprintf( f, "  \"samples\": [" );
			for( size_t k = 0; k < samples.size( ); ++k )
				fprintf( f, "%s\n   \"%s\"", k ? "," : "", jesc( samples[k] ).c_str( ) );
			fprintf( f, "\n  ]\n },\n \"assumptions\": [\"harness code, simulator and compiler instrumentation are trusted\", \"sampling, not exhaustive: a quiet batch is evidence, not proof\"],\n" );
			fprintf( f, " \"wall_s\": %.3f,\n \"violations\": %d\n}\n", el, reported ? 1 : 0 );
			fclose( f );
		}
		printf( "%s: %" PRIu64 " runs, %zu distinct non-trivial, %.1f s simulated, %.1f s wall", harness.property, tot, dnt.size( ), ns * 1e-9, el );
		for( unsigned d = 0; d < D_COUNT; ++d )
			if( fired[d] )
				printf( ", %s=%" PRIu64, dev_name( d ), fired[d] );
		printf( "\n" );
		if( reported ) {
			printf( "class=%s scenario=%s run=%" PRIu64 " workload=%zu deviations=%zu (minimised in %u tries)\n%s\n", rep.cls.c_str( ), sc[rep.t.scn].name, rep_index,
			        rep.t.W.size( ), rep.t.S.size( ), tries, rep.msg.c_str( ) );
			printf( "VIOLATION property=%s replay=%s\n", harness.property, replay_path.c_str( ) );
			return 1;
		}
		if( unconfirmed or det_bad ) {
			fprintf( stderr, "sim: %u unconfirmed violations, %u irreproducible runs\n", unconfirmed, det_bad );
			return 3;
		}
		return 0;
	}

	// prints a hash over all run hashes; used to prove determinism
	static int do_hash( Opts const &o ) {
		unsigned nw = o.workers;
		std::vector<Area> areas;
		std::vector<pid_t> pids;
		for( unsigned i = 0; i < nw; ++i )
			areas.push_back( make_area( o.runs / nw + 64, 16 ) );
		for( unsigned i = 0; i < nw; ++i ) {
			pid_t p = fork( );
			if( p == 0 ) {
				child_setup( );
				use_area( areas[i] );
				for( uint64_t k = i; k < o.runs; k += nw )
					seeded_run( k, pick_scenario( k ) );
				_exit( 0 );
			}
			pids.push_back( p );
		}
		for( auto p : pids ) {
			int st;
			waitpid( p, &st, 0 );
			if( not WIFEXITED( st ) or WEXITSTATUS( st ) )
				fprintf( stderr, "worker status %x\n", st );
		}
		for( uint64_t k = 0; k < o.runs; ++k )
			if( k / nw < areas[k % nw].s->nhash )
				printf( "%" PRIu64 " %016" PRIx64 "\n", k, areas[k % nw].hashes[k / nw] );
		return 0;
	}
	static int do_one( Opts const &o ) {
		int scn = pick_scenario( o.runs );
		for( size_t i = 0; i < scenarios( ).size( ); ++i )
			if( o.only_scn == scenarios( )[i].name )
				scn = (int)i;
		Outcome r = in_child( [&] { seeded_run( o.runs, scn ); } );
		printf( "scenario %s\n%s", scenarios( )[scn].name, r.logtext.c_str( ) );
		printf( "W %zu S %zu hash %016" PRIx64 " %s %s\n", r.t.W.size( ), r.t.S.size( ), r.hash, r.cls.c_str( ), r.msg.c_str( ) );
		return r.violated;
	}

	// ---------------------------------------------------------------- linearizability
	bool linearizable( std::vector<HOp> const &ops, uint64_t const *init, int nstate, StepFn step, uint64_t const *final_state ) {
		size_t n = ops.size( );
		if( n > 60 )
			return true;
		struct Key {
			uint64_t mask;
			std::vector<uint64_t> st;
			bool operator==( Key const &o ) const { return mask == o.mask and st == o.st; }
		};
		struct KH {
			size_t operator( )( Key const &k ) const {
				uint64_t h = k.mask * 0x9e3779b97f4a7c15ull;
				for( auto v : k.st )
					h = ( h ^ v ) * 0xff51afd7ed558ccdull + ( h >> 29 );
				return h;
			}
		};
		std::unordered_set<Key, KH> seen;
		uint64_t full = n == 64 ? ~0ull : ( 1ull << n ) - 1;
		std::vector<Key> stack;
		stack.push_back( Key{ 0, std::vector<uint64_t>( init, init + nstate ) } );
		seen.insert( stack.back( ) );
		while( not stack.empty( ) ) {
			Key k = stack.back( );
			stack.pop_back( );
			if( k.mask == full ) {
				if( not final_state or std::equal( k.st.begin( ), k.st.end( ), final_state ) )
					return true;
				continue;
			}
			uint64_t minret = ~0ull;
			for( size_t i = 0; i < n; ++i )
				if( not( k.mask >> i & 1 ) )
					minret = std::min( minret, ops[i].ret );
			for( size_t i = 0; i < n; ++i ) {
				if( k.mask >> i & 1 or ops[i].inv > minret )
					continue;
				Key nk{ k.mask | ( 1ull << i ), k.st };
				if( step( nk.st.data( ), nstate, ops[i] ) and seen.insert( nk ).second )
					stack.push_back( nk );
			}
		}
		return false;
	}
} // namespace sim

int main( int argc, char **argv ) {
	using namespace sim;
	Opts o;
	if( argc < 2 ) {
		fprintf( stderr, "usage: check|replay|hash|one ...\n" );
		return 2;
	}
	o.mode = argv[1];
	for( int i = 2; i < argc; ++i ) {
		std::string a = argv[i];
		auto val = [&]( ) -> char const * { return i + 1 < argc ? argv[++i] : ""; };
		if( a == "--tier" )
			o.tier = val( );
		else if( a == "--seed" )
			o.seed = strtoull( val( ), nullptr, 10 );
		else if( a == "--runs" )
			o.runs = strtoull( val( ), nullptr, 10 );
		else if( a == "--workers" )
			o.workers = (unsigned)atoi( val( ) );
		else if( a == "--wall" )
			o.wallcap = atof( val( ) );
		else if( a == "--evidence" )
			o.evidence = val( );
		else if( a == "--replays" )
			o.replays = val( );
		else if( a == "--known" )
			o.known = val( );
		else if( a == "--scenario" )
			o.only_scn = val( );
		else
			o.file = a;
	}
	if( o.workers < 1 )
		o.workers = 1;
	g_base_seed = o.seed * 0x100000001b3ull + 0xcbf29ce484222325ull;
	for( char const *p = harness.property; *p; ++p )
		g_base_seed = ( g_base_seed ^ (unsigned char)*p ) * 0x100000001b3ull;
	if( o.mode == "check" )
		return do_check( o );
	if( o.mode == "replay" )
		return do_replay( o );
	if( o.mode == "hash" )
		return do_hash( o );
	if( o.mode == "one" )
		return do_one( o );
	return 2;
}
