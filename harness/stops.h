// Runs code that is expected to end in std::terminate, and comes back.
#pragma once
#include "tracked.h"
#include <csetjmp>
#include <exception>
namespace {
	std::jmp_buf g_back;
	bool g_expect;
	void on_terminate( ) {
		if( g_expect ) {
			g_expect = false;
			std::longjmp( g_back, 1 );
		}
		abort( );
	}
	template<typename F>
	bool stops( F &&f ) {
		auto *const prev = std::set_terminate( on_terminate );
		bool volatile stopped = false;
		if( setjmp( g_back ) == 0 ) {
			g_expect = true;
			f( );
			g_expect = false;
		} else {
			stopped = true;
		}
		std::set_terminate( prev );
		return stopped;
	}
}
