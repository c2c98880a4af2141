// Text placed against inaccessible pages: one step outside it, in either
// direction it was placed against, is a crash the simulator reports.
#pragma once
#include "sim.h"

#include <cstring>
#include <string>
#include <sys/mman.h>

namespace grd {
	constexpr size_t PAGE = 4096;
	template<int Id>
	inline char *region( ) {
		alignas( PAGE ) static char r[3 * PAGE];
		static bool const ready = mprotect( r, PAGE, PROT_NONE ) == 0 and mprotect( r + 2 * PAGE, PAGE, PROT_NONE ) == 0;
		if( not ready )
			sim::fail( "sim-limit", "cannot protect pages" );
		return r + PAGE;
	}
	// A placed text.  [lo, hi) is readable; text is [lo, lo + n); if zt, lo[n] is the terminator.
	template<typename CharT>
	struct Text {
		CharT *lo;
		CharT *hi;
		size_t n;
		bool zt;
	};
	template<typename CharT>
	inline CharT letter( bool zero_ok ) {
		uint32_t const r = sim::choose( 40 );
		if( r < 24 )
			return (CharT)"abcd  \n"[r % 7];
		if( r < 37 )
			return (CharT)"ab"[r % 2];
		if( r == 37 )
			return zero_ok ? CharT{ } : (CharT)'a';
		if( r == 38 )
			return (CharT)0xE9;
		return (CharT) ~CharT{ 0 } == (CharT)'a' ? (CharT)'b' : (CharT)0xFFFFFFFEu;
	}
	// Places a random text of at most `most` characters into page Id
	template<int Id, typename CharT>
	Text<CharT> place( size_t most, bool zero_ok ) {
		char *const page = region<Id>( );
		size_t const n = sim::choose( (uint32_t)most + 1 );
		bool const zt = sim::choose( 2 ) == 1;
		bool const at_start = sim::choose( 3 ) == 2;
		memset( page, 'z', PAGE );
		Text<CharT> t;
		t.n = n;
		t.zt = zt;
		if( at_start ) {
			t.lo = (CharT *)page;
			t.hi = t.lo + n + 1;
			t.lo[n] = zt ? CharT{ } : (CharT)'a';
		} else {
			t.hi = (CharT *)( page + PAGE );
			t.lo = t.hi - n - ( zt ? 1 : 0 );
			if( zt )
				t.lo[n] = CharT{ };
		}
		for( size_t i = 0; i < n; ++i )
			t.lo[i] = letter<CharT>( zero_ok );
		return t;
	}
} // namespace grd
