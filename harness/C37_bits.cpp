// runtime: conc
// C37: bit queues and bit streams hand out the bits they were given, in order.
#include "tracked.h"

#include <cstdint>
#include <daw/daw_bit_queues.h>
#include <daw/daw_bit_stream.h>
#include <iterator>
#include <vector>

namespace sim {
	HarnessInfo const harness = {
	  "C37",
	  "A seeded run pushes and pops random numbers of bits at both ends of bit and nibble queues of every width, over full and over empty ones too, or reads a bit stream of 8, 16, 32 or 64 bit items in random portions from an iterator whose reads and steps may throw and which may end at any point, and compares every value, size and failure with the plain list of bits. A run is non-trivial if a fault fired or a request was refused.",
	  "daw_bit_queues.h, daw_bit_stream.h, daw_bit.h",
	  "the input iterator",
	  2000000, 60000000, true };
}
namespace {
	enum { S_ITER = 20 };
	using Bits = std::vector<uint8_t>;
	constexpr size_t none = ~size_t( 0 );

	uint64_t number( Bits const &b, size_t from, size_t n ) {
		uint64_t r = 0;
		for( size_t i = 0; i < n; ++i )
			r = ( r << 1 ) | b[from + i];
		return r;
	}
	void append( Bits &b, uint64_t v, size_t n ) {
		sim::Quiet q;
		for( size_t i = n; i-- > 0; )
			b.push_back( ( v >> i ) & 1U );
	}
	uint64_t random_bits( ) {
		switch( sim::choose( 4 ) ) {
		case 0: return ~uint64_t( 0 );
		case 1: return uint64_t( sim::choose( 256 ) ) * 0x0101010101010101ull;
		default: return sim::choose64( );
		}
	}
	// a number of bits, the edges more often than the rest
	size_t portion( size_t most ) {
		switch( sim::choose( 4 ) ) {
		case 0: return most;
		case 1: return most >= 8 ? 8 * ( 1 + sim::choose( most / 8 ) ) : most;
		default: return 1 + sim::choose( most );
		}
	}
	template<typename F>
	bool refused( F &&f ) {
		try {
			f( );
		} catch( ... ) {
			sim::probe( "refused" );
			return true;
		}
		return false;
	}

	// ---- queues
	template<typename Q>
	void holds( Q const &q, Bits const &m, size_t unit, size_t cap, char const *after ) {
		SIM_CHECK( q.size( ) == m.size( ) / unit, "wrong-size", "after %s the queue says it holds %zu instead of %zu", after, (size_t)q.size( ), m.size( ) / unit );
		SIM_CHECK( q.empty( ) == ( m.size( ) / unit == 0 ), "wrong-size", "after %s empty( ) is wrong at %zu bits", after, m.size( ) );
		SIM_CHECK( q.full( ) == ( m.size( ) / unit == cap ), "wrong-size", "after %s full( ) is wrong at %zu bits of %zu", after, m.size( ), cap * unit );
		uint64_t const want = number( m, 0, m.size( ) );
		SIM_CHECK( (uint64_t)q.value( ) == want, "wrong-bits", "after %s the queue holds %llx instead of %llx in %zu bits", after, (unsigned long long)q.value( ), (unsigned long long)want, m.size( ) );
	}
	template<typename Queue, typename Value>
	void bit_queue( ) {
		constexpr size_t cap = sizeof( Queue ) * 8, vb = sizeof( Value ) * 8;
		using Q = daw::basic_bit_queue<Queue, Value, daw::bit_queue_source_little_endian>;
		Bits m;
		uint64_t const init = random_bits( );
		bool const filled = sim::chance( 1, 4 );
		if( filled )
			append( m, init, cap );
		Q q = filled ? Q( static_cast<Queue>( init ) ) : Q( );
		SIM_CHECK( Q::capacity( ) == cap, "wrong-size", "the capacity is %zu instead of %zu", (size_t)Q::capacity( ), cap );
		holds( q, m, 1, cap, "construction" );
		for( int ops = 2 + sim::choose( 12 ); ops > 0; --ops ) {
			char const *what = "";
			size_t n = portion( vb < cap ? vb : cap );
			switch( sim::choose( 8 ) ) {
			case 0:
			case 1:
			case 2: {
				what = "push_back";
				auto const v = static_cast<Value>( random_bits( ) );
				bool const all = sim::chance( 1, 4 );
				if( all )
					n = vb;
				if( refused( [&] { all ? q.push_back( v ) : q.push_back( v, n ); } ) ) {
					SIM_CHECK( cap - m.size( ) < n, "refused", "push_back of %zu bits was refused with %zu of %zu bits used", n, m.size( ), cap );
				} else {
					SIM_CHECK( cap - m.size( ) >= n, "overfull", "push_back of %zu bits was accepted with %zu of %zu bits used", n, m.size( ), cap );
					append( m, v, n );
				}
				break;
			}
			case 3:
			case 4:
			case 5:
			case 6: {
				bool const front = sim::chance( 1, 2 );
				what = front ? "pop_front" : "pop_back";
				if( sim::chance( 1, 8 ) )
					n = 0;
				SIM_CHECK( q.can_pop( n ) == ( m.size( ) >= n ), "wrong-size", "can_pop( %zu ) is wrong with %zu bits", n, m.size( ) );
				uint64_t got = 0;
				if( refused( [&] { got = front ? q.pop_front( n ) : q.pop_back( n ); } ) ) {
					SIM_CHECK( m.size( ) < n, "refused", "%s of %zu bits was refused with %zu bits there", what, n, m.size( ) );
				} else {
					SIM_CHECK( m.size( ) >= n, "underflow", "%s gave %zu bits with %zu bits there", what, n, m.size( ) );
					// pushed at the low end: the front is where the newest bits are
					size_t const at = front ? m.size( ) - n : 0;
					uint64_t const want = number( m, at, n );
					SIM_CHECK( got == want, "wrong-bits", "%s of %zu of %zu bits gave %llx instead of %llx", what, n, m.size( ), (unsigned long long)got, (unsigned long long)want );
					sim::Quiet quiet;
					m.erase( m.begin( ) + (long)at, m.begin( ) + (long)( at + n ) );
				}
				break;
			}
			default:
				if( m.size( ) <= vb and sim::chance( 1, 2 ) ) {
					what = "pop_all";
					uint64_t const got = q.pop_all( ), want = number( m, 0, m.size( ) );
					SIM_CHECK( got == want, "wrong-bits", "pop_all of %zu bits gave %llx instead of %llx", m.size( ), (unsigned long long)got, (unsigned long long)want );
				} else {
					what = "clear";
					q.clear( );
				}
				m.clear( );
			}
			sim::log( "%s %zu -> %zu", what, n, m.size( ) );
			sim::state( m.size( ) * 256 + n );
			holds( q, m, 1, cap, what );
		}
	}
	template<typename Queue, typename Value>
	void nibble_queue( ) {
		constexpr size_t cap = sizeof( Queue ) * 2, vn = sizeof( Value ) * 2;
		using Q = daw::basic_nibble_queue<Queue, Value>;
		Bits m;
		uint64_t const init = random_bits( );
		bool const filled = sim::chance( 1, 4 );
		if( filled )
			append( m, init, cap * 4 );
		Q q = filled ? Q( static_cast<Queue>( init ) ) : Q( );
		SIM_CHECK( q.capacity( ) == cap, "wrong-size", "the capacity is %zu instead of %zu nibbles", (size_t)q.capacity( ), cap );
		holds( q, m, 4, cap, "construction" );
		for( int ops = 2 + sim::choose( 12 ); ops > 0; --ops ) {
			char const *what = "";
			size_t n = 1 + sim::choose( vn < cap ? vn : cap );
			switch( sim::choose( 7 ) ) {
			case 0:
			case 1:
			case 2: {
				what = "push_back";
				auto const v = static_cast<Value>( random_bits( ) );
				bool const one = sim::chance( 1, 3 );
				if( one )
					n = 1;
				if( refused( [&] { one ? q.push_back( v ) : q.push_back( v, n ); } ) ) {
					SIM_CHECK( cap - m.size( ) / 4 < n, "refused", "push_back of %zu nibbles was refused with %zu of %zu used", n, m.size( ) / 4, cap );
				} else {
					SIM_CHECK( cap - m.size( ) / 4 >= n, "overfull", "push_back of %zu nibbles was accepted with %zu of %zu used", n, m.size( ) / 4, cap );
					append( m, v, n * 4 );
				}
				break;
			}
			case 3:
			case 4:
			case 5: {
				what = "pop_front";
				bool const all = vn <= cap and sim::chance( 1, 3 );
				if( all )
					n = vn;
				SIM_CHECK( ( all ? q.can_pop( ) : q.can_pop( n ) ) == ( m.size( ) / 4 >= n ), "wrong-size", "can_pop( %zu ) is wrong with %zu nibbles", n, m.size( ) / 4 );
				uint64_t got = 0;
				if( refused( [&] { got = all ? q.pop_front( ) : q.pop_front( n ); } ) ) {
					SIM_CHECK( m.size( ) / 4 < n, "refused", "pop_front of %zu nibbles was refused with %zu there", n, m.size( ) / 4 );
				} else {
					SIM_CHECK( m.size( ) / 4 >= n, "underflow", "pop_front gave %zu nibbles with %zu there", n, m.size( ) / 4 );
					uint64_t const want = number( m, m.size( ) - n * 4, n * 4 );
					SIM_CHECK( got == want, "wrong-bits", "pop_front of %zu of %zu nibbles gave %llx instead of %llx", n, m.size( ) / 4, (unsigned long long)got, (unsigned long long)want );
					sim::Quiet quiet;
					m.resize( m.size( ) - n * 4 );
				}
				break;
			}
			default:
				if( m.size( ) <= vn * 4 and sim::chance( 1, 2 ) ) {
					what = "pop_all";
					uint64_t const got = q.pop_all( ), want = number( m, 0, m.size( ) );
					SIM_CHECK( got == want, "wrong-bits", "pop_all of %zu nibbles gave %llx instead of %llx", m.size( ) / 4, (unsigned long long)got, (unsigned long long)want );
				} else {
					what = "clear";
					q.clear( );
				}
				m.clear( );
			}
			sim::log( "%s %zu -> %zu", what, n, m.size( ) / 4 );
			sim::state( 1U << 20U | ( m.size( ) * 256 + n ) );
			holds( q, m, 4, cap, what );
		}
	}

	// ---- streams
	template<typename T>
	struct Source {
		std::vector<T> v;
		Bits bits;
		size_t at = 0; // items taken
	};
	struct End {
		void const *src;
		size_t n;
	};
	template<typename T>
	struct It { // single pass: reads only the item it is at
		using value_type = T;
		using reference = T const &;
		using pointer = T const *;
		using difference_type = ptrdiff_t;
		using iterator_category = std::input_iterator_tag;
		Source<T> *s;
		size_t i;
		void ok( char const *what ) const {
			SIM_CHECK( i < s->v.size( ), "out-of-range", "the stream %ss past the last of %zu items", what, s->v.size( ) );
			SIM_CHECK( i == s->at, "second-pass", "the stream %ss item %zu after going on to %zu", what, i, s->at );
		}
		reference operator*( ) const {
			ok( "read" );
			sim::throw_point( S_ITER );
			return s->v[i];
		}
		It &operator++( ) {
			ok( "step" );
			sim::throw_point( S_ITER );
			++i;
			++s->at;
			return *this;
		}
		It operator++( int ) {
			It r = *this;
			++*this;
			return r;
		}
		friend bool operator==( It const &a, It const &b ) { return a.i == b.i; }
		friend bool operator!=( It const &a, It const &b ) { return a.i != b.i; }
		friend bool operator==( It const &a, End const &e ) { return a.i == e.n; }
		friend bool operator!=( It const &a, End const &e ) { return a.i != e.n; }
	};
	template<typename T>
	Source<T> source( size_t least = 0 ) {
		Source<T> s;
		sim::Quiet q;
		size_t const n = least + sim::choose( 8 );
		for( size_t i = 0; i < n; ++i ) {
			s.v.push_back( static_cast<T>( random_bits( ) ) );
			append( s.bits, s.v.back( ), sizeof( T ) * 8 );
		}
		return s;
	}
	// what `f` gave: threw a fault, was refused, or a value
	struct Got {
		bool fault = false, past_end = false, other = false;
		uint64_t v = 0;
		bool value( ) const { return not( fault or past_end or other ); }
	};
	template<typename F>
	Got attempt( F &&f ) {
		Got g;
		try {
			sim::Armed a;
			g.v = f( );
		} catch( sim::Injected const & ) {
			g.fault = true;
		} catch( std::bad_alloc const & ) {
			g.fault = true; // making the exception
		} catch( std::out_of_range const & ) {
			g.past_end = true;
			sim::probe( "refused" );
		} catch( ... ) {
			g.other = true;
			sim::probe( "refused" );
		}
		return g;
	}
	template<typename T>
	size_t &first_unread( Source<T> &s ) { return s.at; }

	template<typename T, typename BS>
	void check_valid( BS &bs, Source<T> &s ) {
		bool const want = s.at < s.v.size( );
		SIM_CHECK( bs.valid( ) == want and static_cast<bool>( bs ) == want, "wrong-validity", "the stream says it is %s with %zu of %zu items read", want ? "at its end" : "not at its end", s.at, s.v.size( ) );
	}
	// One request is one portion: nothing is lost when it fails, and it can be made again.
	template<typename T, bool Sentinel>
	void stream( ) {
		constexpr size_t tb = sizeof( T ) * 8;
		auto s = source<T>( );
		auto first = It<T>{ &s, 0 };
		auto last = [&] {
			if constexpr( Sentinel )
				return End{ &s, s.v.size( ) };
			else
				return It<T>{ &s, s.v.size( ) };
		}( );
		trk::standard_faults( );
		auto bs = daw::make_bit_stream<daw::bit_queue_source_little_endian>( first, last );
		size_t pos = 0;
		check_valid( bs, s );
		for( int ops = 3 + sim::choose( 14 ); ops > 0; --ops ) {
			size_t const n = sim::chance( 1, 3 ) ? 1 + sim::choose( tb < 9 ? tb : 9 ) : portion( tb );
			switch( sim::choose( 12 ) ) {
			case 0: {
				auto const g = attempt( [&] { return bs.pop_bits( sim::chance( 1, 2 ) ? 0 : tb + 1 + sim::choose( 8 ) ); } );
				SIM_CHECK( not g.value( ), "accepted", "a portion of no bits or of more than fit was handed out" );
				break;
			}
			case 1: {
				size_t const left = ( tb - pos % tb ) % tb;
				bs.clear_left_overs( );
				pos += left;
				break;
			}
			default: {
				size_t const read_before = s.at;
				auto const g = attempt( [&] { return (uint64_t)( n == tb and sim::chance( 1, 2 ) ? bs.pop_bits( ) : bs.pop_bits( n ) ); } );
				bool const there = pos + n <= s.bits.size( );
				SIM_CHECK( not g.other, "refused", "pop_bits( %zu ) at bit %zu of %zu failed with the wrong exception", n, pos, s.bits.size( ) );
				if( g.fault ) {
					sim::probe( "fault" );
					SIM_CHECK( s.at == read_before, "skipped", "an item was passed over by a request that failed" );
				} else if( g.past_end ) {
					SIM_CHECK( not there, "refused", "pop_bits( %zu ) at bit %zu of %zu says it is past the last item", n, pos, s.bits.size( ) );
				} else {
					SIM_CHECK( there, "past-the-end", "pop_bits( %zu ) at bit %zu gave bits past the last of %zu", n, pos, s.bits.size( ) );
					uint64_t const want = number( s.bits, pos, n );
					SIM_CHECK( g.v == want, "wrong-bits", "pop_bits( %zu ) at bit %zu gave %llx instead of %llx", n, pos, (unsigned long long)g.v, (unsigned long long)want );
					pos += n;
				}
				sim::log( "pop_bits %zu -> %zu of %zu%s", n, pos, s.bits.size( ), g.value( ) ? "" : " failed" );
			}
			}
			SIM_CHECK( s.at == ( pos + tb - 1 ) / tb, "read-ahead", "%zu items were read for %zu bits of %zu each", s.at, pos, tb );
			check_valid( bs, s );
			sim::state( 2U << 20U | ( pos % tb ) * 256 + n );
		}
	}
	// The helpers, each a series of portions
	template<typename T, typename V, typename BS>
	uint64_t pop_as( BS &bs, size_t n, bool all ) {
		return all ? daw::pop_value<V>( bs ) : daw::pop_value<V>( bs, n );
	}
	template<typename T>
	void helpers( ) {
		constexpr size_t tb = sizeof( T ) * 8;
		auto s = source<T>( 1 );
		trk::standard_faults( );
		auto bs = daw::make_bit_stream<daw::bit_queue_source_little_endian>( It<T>{ &s, 0 }, It<T>{ &s, s.v.size( ) } );
		size_t pos = 0;
		for( int ops = 1 + sim::choose( 6 ); ops > 0; --ops ) {
			char const *what = "";
			size_t n = 0;
			Got g;
			bool gives = false;
			uint64_t want = 0;
			size_t end = none; // where the stream is to be afterwards; none: it does not have what was asked for
			switch( sim::choose( 7 ) ) {
			case 0: {
				what = "pop_value";
				gives = true;
				unsigned const w = sim::choose( 4 );
				size_t const vb = 8U << w;
				bool const all = sim::chance( 1, 3 );
				n = all ? vb : portion( vb );
				g = attempt( [&]( ) -> uint64_t {
					switch( w ) {
					case 0: return pop_as<T, uint8_t>( bs, n, all );
					case 1: return pop_as<T, uint16_t>( bs, n, all );
					case 2: return pop_as<T, uint32_t>( bs, n, all );
					default: return pop_as<T, uint64_t>( bs, n, all );
					}
				} );
				if( pos + n <= s.bits.size( ) ) {
					end = pos + n;
					want = number( s.bits, pos, n );
				}
				break;
			}
			case 1:
				what = "pop_value of too many bits";
				n = 17 + sim::choose( 16 );
				g = attempt( [&] { return (uint64_t)daw::pop_value<uint16_t>( bs, n ); } );
				SIM_CHECK( not g.value( ), "accepted", "pop_value of %zu bits in 16 was accepted", n );
				if( not g.fault )
					continue;
				break;
			case 2:
				what = "skip_bits";
				n = sim::choose( 3 * tb );
				g = attempt( [&] { return daw::skip_bits( bs, n ), 0; } );
				if( pos + n <= s.bits.size( ) )
					end = pos + n;
				break;
			case 3:
				what = "skip_bytes";
				n = 8 * sim::choose( 2 * sizeof( T ) + 1 );
				g = attempt( [&] { return daw::skip_bytes( bs, n / 8 ), 0; } );
				if( pos + n <= s.bits.size( ) )
					end = pos + n;
				break;
			case 4: // a portion as above, so that the others begin inside an item
				what = "pop_bits";
				gives = true;
				n = portion( tb );
				g = attempt( [&] { return (uint64_t)bs.pop_bits( n ); } );
				if( pos + n <= s.bits.size( ) ) {
					end = pos + n;
					want = number( s.bits, pos, n );
				}
				break;
			default: {
				// whole items from where the stream is until one is the value
				bool const counted = sim::chance( 1, 2 );
				size_t const items = counted and sizeof( T ) < 8 ? 1 + sim::choose( (uint32_t)( 8 / sizeof( T ) < 3 ? 8 / sizeof( T ) : 3 ) ) : 1;
				what = counted ? "skip_until with a bit count" : "skip_until";
				n = items * tb;
				if( pos + n > s.bits.size( ) )
					continue;
				size_t const steps = ( s.bits.size( ) - pos ) / n;
				uint64_t const v = sim::chance( 1, 5 ) ? static_cast<T>( random_bits( ) ) : number( s.bits, pos + n * sim::choose( (uint32_t)steps ), n );
				for( size_t p = pos; p + n <= s.bits.size( ); p += n )
					if( number( s.bits, p, n ) == v ) {
						end = p + n;
						break;
					}
				g = attempt( [&] {
					if( counted )
						daw::skip_until( bs, v, n );
					else if( sim::chance( 1, 2 ) )
						daw::skip_until( bs, static_cast<T>( v ) );
					else
						daw::skip_until( bs, v );
					return 0;
				} );
				// the bits left over are less than an item: no value is in them
				break;
			}
			}
			sim::log( "%s %zu at %zu -> %s", what, n, pos, g.value( ) ? "done" : g.fault ? "fault" : "refused" );
			sim::state( 3U << 20U | ( pos % tb ) * 256 + n );
			if( g.fault ) {
				sim::probe( "fault" );
				return; // how far a series went is not promised
			}
			if( end == none ) {
				SIM_CHECK( not g.value( ), "accepted", "%s of %zu bits at bit %zu of %zu was accepted", what, n, pos, s.bits.size( ) );
				return;
			}
			SIM_CHECK( g.value( ), "refused", "%s of %zu bits at bit %zu of %zu was refused", what, n, pos, s.bits.size( ) );
			if( gives )
				SIM_CHECK( g.v == want, "wrong-bits", "%s of %zu bits at bit %zu gave %llx instead of %llx", what, n, pos, (unsigned long long)g.v, (unsigned long long)want );
			pos = end;
			SIM_CHECK( s.at == ( pos + tb - 1 ) / tb, "wrong-place", "after %s of %zu bits %zu items were read for %zu bits", what, n, s.at, pos );
		}
		// where the stream is, by what comes next
		if( pos < s.bits.size( ) ) {
			size_t const n = tb - pos % tb;
			sim::Disarmed d;
			uint64_t const got = bs.pop_bits( n ), want = number( s.bits, pos, n );
			SIM_CHECK( got == want, "wrong-place", "the next %zu bits at bit %zu are %llx instead of %llx", n, pos, (unsigned long long)got, (unsigned long long)want );
		}
	}
} // namespace

SIM_SCENARIO( queue, 4 ) {
	switch( sim::choose( 10 ) ) {
	case 0: return bit_queue<uint8_t, uint8_t>( );
	case 1: return bit_queue<uint16_t, uint8_t>( );
	case 2: return bit_queue<uint16_t, uint16_t>( );
	case 3: return bit_queue<uint32_t, uint8_t>( );
	case 4: return bit_queue<uint32_t, uint16_t>( );
	case 5: return bit_queue<uint32_t, uint32_t>( );
	case 6: return bit_queue<uint64_t, uint8_t>( );
	case 7: return bit_queue<uint64_t, uint16_t>( );
	case 8: return bit_queue<uint64_t, uint32_t>( );
	default: return bit_queue<uint64_t, uint64_t>( );
	}
}
SIM_SCENARIO( nibbles, 2 ) {
	switch( sim::choose( 6 ) ) {
	case 0: return nibble_queue<uint8_t, uint8_t>( );
	case 1: return nibble_queue<uint16_t, uint8_t>( );
	case 2: return nibble_queue<uint32_t, uint8_t>( );
	case 3: return nibble_queue<uint32_t, uint32_t>( );
	case 4: return nibble_queue<uint64_t, uint16_t>( );
	default: return nibble_queue<uint64_t, uint64_t>( );
	}
}
SIM_SCENARIO( stream, 4 ) {
	switch( sim::choose( 6 ) ) {
	case 0: return stream<uint8_t, false>( );
	case 1: return stream<uint8_t, true>( );
	case 2: return stream<uint16_t, false>( );
	case 3: return stream<uint32_t, true>( );
	case 4: return stream<uint32_t, false>( );
	default: return stream<uint64_t, false>( );
	}
}
SIM_SCENARIO( series, 4 ) {
	switch( sim::choose( 4 ) ) {
	case 0: return helpers<uint8_t>( );
	case 1: return helpers<uint16_t>( );
	case 2: return helpers<uint32_t>( );
	default: return helpers<uint64_t>( );
	}
}
