// runtime: conc
// C24: graphs keep both ends of every edge in step, and walks visit what they should.
#include "tracked.h"

#include <memory>
#include <daw/daw_graph.h>
#include <daw/daw_graph_algorithm.h>
#include <algorithm>

namespace sim {
	HarnessInfo const harness = {
	  "C24",
	  "A seeded run adds and removes nodes of four value types and directed and undirected edges, self edges and cycles included, copies and moves graphs, and searches, visits and walks them (topological, breadth first, depth first, sorted or not, as ranges, spanning trees), with failing allocation and throwing copies, moves, comparisons and visitors at any point, and compares graph and walks with a model. A run is non-trivial if a fault fired.",
	  "daw_graph.h, daw_graph_algorithm.h",
	  "operator new, element operations, visitors, comparisons",
	  600000, 12000000, true };
}
namespace {
	constexpr int MAXN = 24;
	int val( int v ) { return v; }
	template<typename T>
	int val( T const &t ) { return t.val( ); }
	struct Model {
		struct Node {
			daw::node_id_t id;
			int v;
			bool live;
			uint32_t out;
		} n[MAXN];
		int count = 0;
		uint32_t live( ) const {
			uint32_t r = 0;
			for( int i = 0; i < count; ++i )
				r |= n[i].live ? 1u << i : 0;
			return r;
		}
		uint32_t in( int i ) const {
			uint32_t r = 0;
			for( int j = 0; j < count; ++j )
				if( n[j].live and n[j].out >> i & 1 )
					r |= 1u << j;
			return r;
		}
		int slot( daw::node_id_t id ) const {
			for( int i = 0; i < count; ++i )
				if( n[i].id == id )
					return i;
			return -1;
		}
		int pick( ) const { // a live node, or -1
			int l[MAXN], k = 0;
			for( int i = 0; i < count; ++i )
				if( n[i].live )
					l[k++] = i;
			return k ? l[sim::choose( (uint32_t)k )] : -1;
		}
		uint32_t reach( uint32_t from ) const {
			for( ;; ) {
				uint32_t r = from;
				for( int i = 0; i < count; ++i )
					if( from >> i & 1 )
						r |= n[i].out;
				if( r == from )
					return r;
				from = r;
			}
		}
	};
	template<typename Edges>
	uint32_t bits( Edges const &e, Model const &m, char const *after ) {
		uint32_t r = 0;
		for( auto id : e ) {
			int const s = m.slot( id );
			SIM_CHECK( s >= 0 and m.n[s].live, "dangling-edge", "after %s an edge leads to a node that is not there", after );
			r |= 1u << s;
		}
		SIM_CHECK( (size_t)__builtin_popcount( r ) == e.size( ), "wrong-edges", "after %s a node has an edge twice", after );
		return r;
	}
	template<typename T>
	void same( daw::graph_t<T> &g, Model const &m, char const *after ) {
		sim::Disarmed d;
		auto const &c = g;
		uint32_t const live = m.live( );
		SIM_CHECK( g.size( ) == (size_t)__builtin_popcount( live ) and g.empty( ) == ( live == 0 ), "wrong-size", "after %s the graph has %zu nodes instead of %d", after, g.size( ), __builtin_popcount( live ) );
		for( int i = 0; i < m.count; ++i ) {
			auto const &n = m.n[i];
			SIM_CHECK( c.has_node( n.id ) == n.live, "wrong-nodes", "after %s node %d is %s", after, i, n.live ? "missing" : "still there" );
			if( not n.live )
				continue;
			auto h = g.get_node( n.id );
			auto const ch = c.get_node( n.id );
			daw::const_graph_node_t<T> const hh = h;
			SIM_CHECK( h.id( ) == n.id and ch.id( ) == n.id and hh == ch and h and not ch.empty( ) and ch.graph( ) == &g, "wrong-handle", "after %s a handle is for another node", after );
			SIM_CHECK( val( h.value( ) ) == n.v and val( ch.value( ) ) == n.v and val( c.get_raw_node( n.id ).value( ) ) == n.v, "wrong-value", "after %s node %d holds %d instead of %d", after, i, val( ch.value( ) ), n.v );
			auto const &hc = h;
			SIM_CHECK( not( h != ch ) and not( ch != h ) and h == h and not( h < h ) and not h.empty( ) and ch and h.graph( ) == &g and val( hc.value( ) ) == n.v and &hc.incoming_edges( ) == &h.incoming_edges( ) and &hc.outgoing_edges( ) == &h.outgoing_edges( ), "wrong-handle", "after %s a handle differs from itself", after );
			for( int j = 0; j < i; ++j )
				if( m.n[j].live ) {
					auto o = g.get_node( m.n[j].id );
					auto const co = c.get_node( m.n[j].id );
					SIM_CHECK( h != o and not( h == o ) and ch != co and not( ch == co ) and h != co and ( h < o ) != ( o < h ) and ( ch < co ) == ( h < o ), "wrong-handle", "after %s the handles of two nodes compare equal", after );
				}
			{
				daw::graph_t<T> other;
				daw::graph_node_t<T> const h2( &other, n.id ), h0;
				daw::const_graph_node_t<T> const ch2( &other, n.id ), ch0;
				SIM_CHECK( h != h2 and not( h == h2 ) and ch != ch2 and not( ch == ch2 ) and h0.empty( ) and ch0.empty( ) and not h0 and not ch0, "wrong-handle", "after %s handles of two graphs compare equal", after );
			}
			uint32_t const out = bits( ch.outgoing_edges( ), m, after ), in = bits( ch.incoming_edges( ), m, after );
			SIM_CHECK( out == n.out, "wrong-edges", "after %s node %d has the outgoing edges %x instead of %x", after, i, out, n.out );
			SIM_CHECK( in == m.in( i ), "wrong-edges", "after %s node %d has the incoming edges %x instead of %x", after, i, in, m.in( i ) );
			SIM_CHECK( &h.outgoing_edges( ) == &ch.outgoing_edges( ) and &h.incoming_edges( ) == &ch.incoming_edges( ), "wrong-handle", "after %s two handles differ", after );
		}
	}
	uint32_t set_of( std::vector<daw::node_id_t> const &ids, Model const &m, char const *what ) {
		uint32_t r = 0;
		for( auto id : ids ) {
			int const s = m.slot( id );
			SIM_CHECK( s >= 0 and m.n[s].live and not( r >> s & 1 ), "wrong-result", "%s gave a node twice, or one that is not there", what );
			r |= 1u << s;
		}
		return r;
	}
	// What a walk visited, in order
	struct Trail {
		int s[512];
		int n = 0;
		bool over = false;
		void add( Model const &m, daw::node_id_t id, int v ) {
			int const k = m.slot( id );
			SIM_CHECK( k >= 0 and m.n[k].live, "wrong-walk", "a walk visited a node that is not there" );
			SIM_CHECK( m.n[k].v == v, "wrong-value", "a walk found %d in a node that holds %d", v, m.n[k].v );
			if( n < 512 )
				s[n++] = k;
			else
				over = true;
		}
		void first_only( ) {
			uint32_t seen = 0;
			int k = 0;
			for( int i = 0; i < n; ++i )
				if( not( seen >> s[i] & 1 ) ) {
					seen |= 1u << s[i];
					s[k++] = s[i];
				}
			n = k;
		}
	};
	void check_topological( Trail const &t, Model const &m, bool sorted, bool up, bool complete ) {
		uint32_t done = 0;
		for( int i = 0; i < t.n; ++i ) {
			int const x = t.s[i];
			SIM_CHECK( not( done >> x & 1 ), "wrong-walk", "a topological walk visited node %d twice", x );
			SIM_CHECK( ( m.in( x ) & ~done ) == 0, "wrong-walk", "a topological walk visited node %d before one that leads to it", x );
			if( sorted )
				for( int y = 0; y < m.count; ++y )
					if( m.n[y].live and not( done >> y & 1 ) and ( m.in( y ) & ~done ) == 0 )
						SIM_CHECK( up ? m.n[y].v <= m.n[x].v : m.n[y].v >= m.n[x].v, "wrong-order", "a sorted topological walk chose %d when %d was ready", m.n[x].v, m.n[y].v );
			done |= 1u << x;
		}
		if( complete )
			for( int y = 0; y < m.count; ++y )
				SIM_CHECK( not m.n[y].live or done >> y & 1 or ( m.in( y ) & ~done ) != 0, "wrong-walk", "a topological walk never visited node %d, which was ready", y );
	}
	void check_bfs( Trail t, Model const &m, int start, int sorted, bool complete ) {
		t.first_only( );
		uint32_t seen = 0, want = m.reach( 1u << start );
		int dist[MAXN];
		for( int &x : dist )
			x = -1;
		// reference distances
		dist[start] = 0;
		for( int d = 0; d < MAXN; ++d )
			for( int i = 0; i < m.count; ++i )
				if( dist[i] == d )
					for( int j = 0; j < m.count; ++j )
						if( m.n[i].out >> j & 1 and dist[j] < 0 )
							dist[j] = d + 1;
		SIM_CHECK( t.n == 0 or t.s[0] == start, "wrong-walk", "a breadth first walk began elsewhere" );
		int last = 0;
		for( int i = 0; i < t.n; ++i ) {
			SIM_CHECK( want >> t.s[i] & 1, "wrong-walk", "a breadth first walk visited node %d, which cannot be reached", t.s[i] );
			SIM_CHECK( dist[t.s[i]] >= last, "wrong-order", "a breadth first walk visited a nearer node (%d steps) after a farther one (%d)", dist[t.s[i]], last );
			last = dist[t.s[i]];
			seen |= 1u << t.s[i];
		}
		if( complete )
			SIM_CHECK( seen == want, "wrong-walk", "a breadth first walk visited %x of %x", seen, want );
		if( sorted ) { // children in order of their values; equal values leave freedom
			bool distinct = true;
			for( int i = 0; i < m.count; ++i )
				for( int j = 0; j < i; ++j )
					if( m.n[i].live and m.n[j].live and m.n[i].v == m.n[j].v )
						distinct = false;
			if( not distinct )
				return;
			int q[MAXN], qn = 0;
			uint32_t in = 1u << start;
			q[qn++] = start;
			for( int i = 0; i < qn; ++i ) {
				int k[MAXN], kn = 0;
				for( int j = 0; j < m.count; ++j )
					if( m.n[q[i]].out >> j & 1 and not( in >> j & 1 ) ) {
						in |= 1u << j;
						k[kn++] = j;
					}
				std::sort( k, k + kn, [&]( int a, int b ) { return sorted > 0 ? m.n[a].v < m.n[b].v : m.n[a].v > m.n[b].v; } );
				for( int j = 0; j < kn; ++j )
					q[qn++] = k[j];
			}
			for( int i = 0; i < t.n; ++i )
				SIM_CHECK( t.s[i] == q[i], "wrong-order", "a sorted breadth first walk came to node %d instead of %d", t.s[i], q[i] );
		}
	}
	void check_dfs( Trail t, Model const &m, int start, int sorted, bool complete ) {
		t.first_only( );
		uint32_t seen = 0, want = m.reach( 1u << start );
		int path[MAXN], pn = 0;
		for( int i = 0; i < t.n; ++i ) {
			int const x = t.s[i];
			if( i == 0 ) {
				SIM_CHECK( x == start, "wrong-walk", "a depth first walk began elsewhere" );
			} else {
				// backtrack to the last node with somewhere left to go
				while( pn and ( m.n[path[pn - 1]].out & ~seen ) == 0 )
					--pn;
				SIM_CHECK( pn and m.n[path[pn - 1]].out >> x & 1, "wrong-order", "a depth first walk jumped to node %d", x );
				if( sorted )
					for( int y = 0; y < m.count; ++y )
						if( m.n[path[pn - 1]].out >> y & 1 and not( seen >> y & 1 ) )
							SIM_CHECK( sorted > 0 ? m.n[x].v <= m.n[y].v : m.n[x].v >= m.n[y].v, "wrong-order", "a sorted depth first walk went to %d before %d", m.n[x].v, m.n[y].v );
			}
			seen |= 1u << x;
			path[pn++] = x;
		}
		SIM_CHECK( ( seen & ~want ) == 0 and ( not complete or seen == want ), "wrong-walk", "a depth first walk visited %x of %x", seen, want );
	}
	template<typename T>
	struct Less {
		bool up;
		template<typename L, typename R>
		bool operator( )( L const &l, R const &r ) const {
			sim::throw_point( trk::S_COMPARE );
			if constexpr( requires { l.value( ); } )
				return up ? val( l.value( ) ) < val( r.value( ) ) : val( r.value( ) ) < val( l.value( ) );
			else
				return up ? val( l ) < val( r ) : val( r ) < val( l );
		}
	};
	// The iterators of a range, moved about in every way, stay in step with a plain index
	template<typename R>
	void wander( R const &rng ) {
		daw::node_id_t ids[MAXN]{ };
		int n = 0;
		for( auto it = rng.begin( ); it != rng.end( ) and n < MAXN; ++it )
			ids[n++] = it->id( );
		auto it = rng.begin( );
		int at = 0;
		for( int steps = (int)sim::choose( 10 ); steps > 0; --steps ) {
			int const to = (int)sim::choose( (uint32_t)n + 1 );
			switch( sim::choose( 8 ) ) {
			case 0:
				it += to - at;
				at = to;
				break;
			case 1:
				it -= at - to;
				at = to;
				break;
			case 2:
				it = it + ( to - at );
				at = to;
				break;
			case 3:
				it = it - ( at - to );
				at = to;
				break;
			case 4:
				if( at < n ) {
					auto const old = it++;
					SIM_CHECK( ( *old ).id( ) == ids[at] and old < it, "wrong-iterator", "a step forward did not give the place it left" );
					++at;
				}
				break;
			case 5:
				if( at > 0 ) {
					auto const old = it--;
					SIM_CHECK( old > it and not( old == it ) and ( at == n or old->id( ) == ids[at] ), "wrong-iterator", "a step back did not give the place it left" );
					--at;
				}
				break;
			case 6:
				if( at > 0 ) {
					auto &same = --it;
					--at;
					SIM_CHECK( &same == &it, "wrong-iterator", "a step back gave another iterator" );
				}
				break;
			default: {
				auto const o = rng.begin( ) + to;
				SIM_CHECK( ( it == o ) == ( at == to ) and ( it != o ) == ( at != to ) and ( it < o ) == ( at < to ) and ( it <= o ) == ( at <= to ) and ( it > o ) == ( at > to ) and ( it >= o ) == ( at >= to ), "wrong-iterator", "the iterators at %d and %d compare wrongly", at, to );
				if constexpr( requires { o.size( ); } )
					SIM_CHECK( o.size( ) == (size_t)( n - to ) and o.empty( ) == ( to == n ), "wrong-iterator", "the iterator at %d of %d has %zu to go", to, n, o.size( ) );
			}
			}
			SIM_CHECK( ( it == rng.end( ) ) == ( at == n ), "wrong-iterator", "the iterator at %d of %d is%s the end", at, n, it == rng.end( ) ? "" : " not" );
			if( at < n ) {
				auto const &c = it;
				SIM_CHECK( ( *it ).id( ) == ids[at] and it->id( ) == ids[at] and ( *c ).id( ) == ids[at] and c->id( ) == ids[at], "wrong-iterator", "the iterator at %d of %d leads to another node", at, n );
			}
		}
	}
	template<typename G, typename T>
	void walk( G &g, Model const &m ) {
		Trail t;
		auto const visit = [&]( auto const &node ) {
			sim::throw_point( trk::S_CALL );
			sim::Disarmed d;
			t.add( m, node.id( ), val( node.value( ) ) );
		};
		int const sorted = (int)sim::choose( 3 ) - 1; // -1 down, 0 not, 1 up
		Less<T> const less{ sorted >= 0 };
		switch( sim::choose( 6 ) ) {
		case 0: { // topological
			bool const failed = trk::faulted( [&] {
				if( sorted )
					daw::topological_sorted_walk( g, visit, less );
				else
					daw::topological_sorted_walk( g, visit );
			} );
			check_topological( t, m, sorted, sorted > 0, not failed );
			break;
		}
		case 1: { // reverse topological
			bool const failed = trk::faulted( [&] {
				if( sorted )
					daw::reverse_topological_sorted_walk( g, visit, less );
				else
					daw::reverse_topological_sorted_walk( g, visit );
			} );
			if( failed )
				return;
			std::reverse( t.s, t.s + t.n );
			check_topological( t, m, sorted, sorted > 0, true );
			break;
		}
		case 2: { // ranges
			unsigned const form = sim::choose( 4 );
			auto const go = [&]( auto const &rng ) {
				sim::Disarmed d;
				auto first = rng.begin( );
				auto const last = rng.end( );
				auto rfirst = rng.rbegin( );
				auto const rlast = rng.rend( );
				if( form % 2 )
					for( ; first != last; ++first )
						t.add( m, ( *first ).id( ), val( ( *first ).value( ) ) );
				else
					for( ; rfirst != rlast; ++rfirst )
						t.add( m, ( *rfirst ).id( ), val( ( *rfirst ).value( ) ) );
				wander( rng );
				SIM_CHECK( rng.size( ) == (size_t)t.n and rng.empty( ) == ( t.n == 0 ), "wrong-size", "a range of %d nodes says it has %zu", t.n, rng.size( ) );
			};
			bool const failed = trk::faulted( [&] {
				if( form < 2 ) {
					if( sorted )
						go( daw::make_topological_sorted_range( g, less ) );
					else
						go( daw::make_topological_sorted_range( g ) );
				} else if( sorted )
					go( daw::make_reverse_topological_sorted_range( g, less ) );
				else
					go( daw::make_reverse_topological_sorted_range( g ) );
			} );
			if( failed )
				return;
			if( form == 0 or form == 3 )
				std::reverse( t.s, t.s + t.n );
			check_topological( t, m, sorted, sorted > 0, true );
			break;
		}
		case 3: {
			int const start = m.pick( );
			if( start < 0 )
				return;
			bool const failed = trk::faulted( [&] {
				if( sorted )
					daw::bfs_walk( g, m.n[start].id, visit, less );
				else
					daw::bfs_walk( g, m.n[start].id, visit );
			} );
			if( not t.over )
				check_bfs( t, m, start, sorted, not failed );
			break;
		}
		case 4: {
			int const start = m.pick( );
			if( start < 0 )
				return;
			bool const failed = trk::faulted( [&] {
				if( sorted )
					daw::dfs_walk( g, m.n[start].id, visit, less );
				else
					daw::dfs_walk( g, m.n[start].id, visit );
			} );
			if( not t.over )
				check_dfs( t, m, start, sorted, not failed );
			break;
		}
		default: { // visits
			int const lim = (int)sim::choose( 8 );
			bool const all = sim::choose( 2 );
			bool const failed = trk::faulted( [&] {
				if( all )
					g.visit( visit );
				else
					g.visit(
					  [&]( auto const &n ) {
						  sim::throw_point( trk::S_CALL );
						  return val( n.value( ) ) < lim;
					  },
					  visit );
			} );
			uint32_t seen = 0, want = 0;
			for( int i = 0; i < t.n; ++i ) {
				SIM_CHECK( not( seen >> t.s[i] & 1 ), "wrong-walk", "a node was visited twice" );
				seen |= 1u << t.s[i];
			}
			for( int i = 0; i < m.count; ++i )
				if( m.n[i].live and ( all or m.n[i].v < lim ) )
					want |= 1u << i;
			SIM_CHECK( ( seen & ~want ) == 0 and ( failed or seen == want ), "wrong-walk", "%x was visited of %x", seen, want );
		}
		}
		if( t.over )
			sim::probe( "long-walk" );
	}
	template<typename T>
	void search( daw::graph_t<T> const &g, Model const &m ) {
		int const v = (int)sim::choose( 8 );
		uint32_t want = 0;
		std::vector<daw::node_id_t> found;
		bool failed = false;
		char const *what = "?";
		unsigned const form = sim::choose( 4 );
		for( int i = 0; i < m.count; ++i )
			if( m.n[i].live and ( form == 0 ? m.n[i].v == v : form == 1 ? m.n[i].v < v : form == 2 ? m.in( i ) == 0 : m.n[i].out == 0 ) )
				want |= 1u << i;
		switch( form ) {
		case 0: {
			what = "finding a value";
			sim::Disarmed d;
			T const key( v );
			failed = trk::faulted( [&] {
				found = g.find_by_value( key, []( T const &a, T const &b ) {
					sim::throw_point( trk::S_COMPARE );
					return val( a ) == val( b );
				} );
			} );
			break;
		}
		case 1:
			what = "finding";
			failed = trk::faulted( [&] {
				found = g.find( [&]( auto const &n ) {
					sim::throw_point( trk::S_CALL );
					return val( n.value( ) ) < v;
				} );
			} );
			break;
		case 2:
			what = "finding the roots";
			failed = trk::faulted( [&] { found = g.find_roots( ); } );
			break;
		default:
			what = "finding the leaves";
			failed = trk::faulted( [&] { found = g.find_leaves( ); } );
		}
		if( not failed ) {
			uint32_t const got = set_of( found, m, what );
			SIM_CHECK( got == want, "wrong-result", "%s gave %x instead of %x", what, got, want );
		}
	}
	template<typename T>
	void spanning( daw::graph_t<T> &g, Model &m ) {
		uint32_t roots = 0;
		for( int i = 0; i < m.count; ++i )
			if( m.n[i].live and m.in( i ) == 0 )
				roots |= 1u << i;
		uint32_t const reach = roots ? m.reach( roots ) : 0;
		bool const failed = trk::faulted( [&] { daw::mst( g ); } );
		// take the edges over, checking that they are some of those there were
		Model old = m;
		sim::Disarmed d;
		for( int i = 0; i < m.count; ++i )
			if( m.n[i].live ) {
				uint32_t const out = bits( g.get_node( m.n[i].id ).outgoing_edges( ), m, "a spanning tree" );
				SIM_CHECK( ( out & ~m.n[i].out ) == 0, "wrong-edges", "making a spanning tree added an edge" );
				if( not( reach >> i & 1 ) )
					SIM_CHECK( out == m.n[i].out, "wrong-edges", "making a spanning tree changed nodes no root leads to" );
				m.n[i].out = out;
			}
		SIM_CHECK( ( roots ? m.reach( roots ) : 0 ) == reach, "wrong-tree", "making a spanning tree cut nodes off" );
		if( not failed and __builtin_popcount( roots ) == 1 )
			for( int i = 0; i < m.count; ++i )
				if( reach >> i & 1 and not( roots >> i & 1 ) )
					SIM_CHECK( __builtin_popcount( m.in( i ) & reach ) == 1, "wrong-tree", "a node of a spanning tree is reached %d ways", __builtin_popcount( m.in( i ) & reach ) );
	}
	template<typename T>
	void history( ) {
		trk::World w;
		int64_t const base = sim::live_allocs( );
		trk::standard_faults( );
		{
			using G = daw::graph_t<T>;
			G g;
			Model m;
			bool const acyclic = sim::choose( 2 ); // edges from older to newer nodes only
			int const values = sim::choose( 3 ) ? 8 : 1000;
			bool const dense = sim::choose( 2 );
			for( int step = 0, n = 4 + (int)sim::choose( 28 ); step < n; ++step ) {
				char const *name = "?";
				int const a = m.pick( ), b = m.pick( );
				int from = a, to = b;
				if( acyclic and from > to )
					std::swap( from, to );
				switch( sim::choose( 16 ) ) {
				case 0:
				case 1:
				case 2:
				case 3: {
					name = "adding a node";
					if( m.count == MAXN or g.size( ) >= 8 )
						continue;
					int const v = (int)sim::choose( (uint32_t)values );
					daw::node_id_t id;
					bool const failed = trk::faulted( [&] {
						if( v % 2 )
							id = g.add_node( v );
						else
							id = g.add_node( T( v ) );
					} );
					if( failed )
						break;
					SIM_CHECK( id and m.slot( id ) < 0, "wrong-id", "a new node got the id of an old one" );
					m.n[m.count++] = { id, v, true, 0 };
					break;
				}
				case 4:
				case 5:
				case 6:
				case 7:
					name = "adding an edge";
					for( int k = 0; k < ( dense ? 4 : 1 ); ++k ) {
						from = m.pick( );
						to = m.pick( );
						if( acyclic and from > to )
							std::swap( from, to );
						if( from < 0 or ( acyclic and from == to ) )
							break;
						if( not trk::faulted( [&] { g.add_directed_edge( m.n[from].id, m.n[to].id ); } ) )
							m.n[from].out |= 1u << to;
					}
					break;
				case 8:
					name = "adding an undirected edge";
					if( a < 0 or acyclic )
						continue;
					if( not trk::faulted( [&] { g.add_undirected_edge( m.n[a].id, m.n[b].id ); } ) ) {
						m.n[a].out |= 1u << b;
						m.n[b].out |= 1u << a;
					}
					break;
				case 9:
					name = "removing a node";
					if( a < 0 )
						continue;
					if( not trk::faulted( [&] { g.remove_node( m.n[a].id ); } ) ) {
						m.n[a].live = false;
						m.n[a].out = 0;
						for( int i = 0; i < m.count; ++i )
							m.n[i].out &= ~( 1u << a );
					}
					break;
				case 10:
					if( a < 0 )
						continue;
					if( sim::choose( 2 ) ) {
						name = "removing an edge";
						if( not trk::faulted( [&] { g.remove_directed_edge( m.n[from].id, m.n[to].id ); } ) )
							m.n[from].out &= ~( 1u << to );
					} else {
						name = "removing the edges between two nodes";
						if( not trk::faulted( [&] { g.remove_edges( m.n[a].id, m.n[b].id ); } ) ) {
							m.n[a].out &= ~( 1u << b );
							m.n[b].out &= ~( 1u << a );
						}
					}
					break;
				case 11:
					name = "searching";
					search( g, m );
					break;
				case 12:
				case 13:
					name = "walking";
					for( int k = 0; k < 2; ++k )
						if( sim::choose( 2 ) )
							walk<G, T>( g, m );
						else
							walk<G const, T>( g, m );
					break;
				case 14:
					name = "making a spanning tree";
					if( sim::choose( 3 ) )
						continue;
					spanning( g, m );
					break;
				default: {
					name = "copying or moving";
					if constexpr( std::is_copy_constructible_v<T> ) {
						if( sim::choose( 2 ) ) {
							trk::faulted( [&] {
								G h( std::as_const( g ) );
								same( h, m, "copying" );
								if( a >= 0 ) { // a copy is independent
									sim::Disarmed d;
									h.remove_node( m.n[a].id );
									same( g, m, "changing a copy" );
								}
							} );
							break;
						}
					}
					G h( std::move( g ) );
					g = std::move( h );
				}
				}
				same( g, m, name );
				sim::state( (uint64_t)g.size( ) * 64 + (uint64_t)__builtin_popcount( a >= 0 ? m.n[a].out : 0 ) );
			}
			sim::log( "%d nodes", m.count );
		}
		w.end( "value" );
		SIM_CHECK( sim::live_allocs( ) == base, "leaked-memory", "%ld allocations are left", (long)( sim::live_allocs( ) - base ) );
	}
}
SIM_SCENARIO( graphs, 1 ) {
	switch( sim::choose( 4 ) ) {
	case 0: return history<int>( );
	case 1: return history<trk::Copy>( );
	case 2: return history<trk::CopyOnly>( );
	default: return history<trk::MoveOnlyThrow>( );
	}
}
