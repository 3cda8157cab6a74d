// The zlib the code under test calls: counted, with made-up failures, and a stand-in for blocks too long to compress for real.
#pragma once
#include <zlib.h>
#include <dlfcn.h>
#include "sim.h"

namespace zseam
{
	inline int g_open;               // streams initialised and not ended
	inline unsigned g_init_fault;    // per 1000: initialisation runs out of memory
	inline unsigned g_faults;
	inline int (*g_deflate)(z_streamp, int); // instead of the library's
	inline int (*g_inflate)(z_streamp, int);
	template <class F> F real(const char* name) { return (F)dlsym(RTLD_NEXT, name); }
	struct scope { // everything is ended when it is over
		scope() { g_open = 0; g_init_fault = 0; g_faults = 0; g_deflate = nullptr; g_inflate = nullptr; }
		~scope() { g_init_fault = 0; g_deflate = nullptr; g_inflate = nullptr; }
	};
	inline void check() { SIM_CHECK(!g_open, "leak", "%d compression streams are never ended", g_open); }
	inline bool refuse()
	{
		if (!g_init_fault || !sim::inject("zlib_out_of_memory", g_init_fault, 1000)) return false;
		++g_faults;
		return true;
	}
}
extern "C" {
int deflateInit_(z_streamp z, int level, const char* v, int n) { static auto f = zseam::real<int(*)(z_streamp, int, const char*, int)>("deflateInit_"); if (zseam::refuse()) return Z_MEM_ERROR; int r = f(z, level, v, n); if (r == Z_OK) ++zseam::g_open; return r; }
int inflateInit_(z_streamp z, const char* v, int n) { static auto f = zseam::real<int(*)(z_streamp, const char*, int)>("inflateInit_"); if (zseam::refuse()) return Z_MEM_ERROR; int r = f(z, v, n); if (r == Z_OK) ++zseam::g_open; return r; }
int deflateEnd(z_streamp z) { static auto f = zseam::real<int(*)(z_streamp)>("deflateEnd"); int r = f(z); if (r == Z_OK || r == Z_DATA_ERROR) --zseam::g_open; return r; }
int inflateEnd(z_streamp z) { static auto f = zseam::real<int(*)(z_streamp)>("inflateEnd"); int r = f(z); if (r == Z_OK) --zseam::g_open; return r; }
int deflate(z_streamp z, int flush) { static auto f = zseam::real<int(*)(z_streamp, int)>("deflate"); return zseam::g_deflate ? zseam::g_deflate(z, flush) : f(z, flush); }
int inflate(z_streamp z, int flush) { static auto f = zseam::real<int(*)(z_streamp, int)>("inflate"); return zseam::g_inflate ? zseam::g_inflate(z, flush) : f(z, flush); }
}
