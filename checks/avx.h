// on a processor with AVX the SSE2 code is never chosen: the wrapper lets a case hide AVX (link with --wrap=vl_cpu_has_avx)
#pragma once
#include "vt.h"
#include "vl_all.h"
extern "C" vl_bool __real_vl_cpu_has_avx(void);
static vl_bool g_useAvx = 1;
extern "C" vl_bool __wrap_vl_cpu_has_avx(void) { return g_useAvx && __real_vl_cpu_has_avx(); }
static bool simd_mode(vt::Ctx &c) { int m = (int)c.pick({0, 1, 2}); g_useAvx = m == 1; vl_set_simd_enabled(m > 0); return m > 0; }
