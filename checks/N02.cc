// N02: scalar helpers of mathop.h against libm / exact integer references.
#include "vt.h"
#include "vl_all.h"
typedef long double ld;
static double gen_real(vt::Ctx &c, double big) {
  switch (c.i(0, 6)) {
    case 0: return (double)c.i(-1000, 1000);
    case 1: return c.i(-1000, 1000) + 0.5;
    case 2: { double v = c.i(-100000, 100000) / 2.0; return std::nextafter(v, c.b() ? 1e300 : -1e300); }
    case 3: return c.real(-10, 10);
    case 4: return (c.b() ? -1 : 1) * std::exp(c.real(-40, std::log(big)));
    case 5: return c.b() ? 0.0 : -0.0;
    default: return std::nextafter((float)c.i(-5000, 5000) / 2.0f, c.b() ? 1e30f : -1e30f);
  }
}
VT_CHECK(rounding, 300000, 6000000, "argument is not an integer") {
  double x = gen_real(c, 1e15); float f = (float)x;
  c.note("x=%.17g", x); if (x != std::floor(x)) c.nontrivial();
  VT_ASSERT(c, vl_floor_d(x) == (long)std::floor(x), "floor_d(%.17g)=%ld", x, vl_floor_d(x));
  VT_ASSERT(c, vl_ceil_d(x) == (long)std::ceil(x), "ceil_d(%.17g)=%ld", x, vl_ceil_d(x));
  VT_ASSERT(c, vl_floor_f(f) == (long)std::floor((double)f), "floor_f(%.9g)=%ld", f, vl_floor_f(f));
  VT_ASSERT(c, vl_ceil_f(f) == (long)std::ceil((double)f), "ceil_f(%.9g)=%ld", f, vl_ceil_f(f));
  // round to nearest; a tie goes away from zero
  long rd = (long)(x < 0 ? -floorl(-(ld)x + 0.5L) : floorl((ld)x + 0.5L)), rf = (long)(f < 0 ? -floorl(-(ld)f + 0.5L) : floorl((ld)f + 0.5L));
  VT_ASSERT(c, vl_round_d(x) == rd, "round_d(%.17g)=%ld", x, vl_round_d(x));
  VT_ASSERT(c, vl_round_f(f) == rf, "round_f(%.9g)=%ld", f, vl_round_f(f));
  VT_ASSERT(c, vl_abs_d(x) == (x < 0 ? -x : x) && vl_abs_f(f) == (f < 0 ? -f : f) && !std::signbit(vl_abs_d(x)), "abs(%.17g)", x);
  VT_ASSERT(c, !vl_is_nan_d(x) && !vl_is_inf_d(x) && !vl_is_nan_f(f) && !vl_is_inf_f(f), "nan/inf classification of %.17g", x);
  if (x > 0) {
    ld e = log2l((ld)x); VT_ASSERT(c, fabsl(vl_log2_d(x) - e) <= 4e-16L * fabsl(e) + 1e-300L, "log2_d(%.17g)=%.17g", x, vl_log2_d(x));
    e = sqrtl((ld)x); VT_ASSERT(c, fabsl(vl_sqrt_d(x) - e) <= 3e-16L * e, "sqrt_d(%.17g)", x);
    if (f > 0) { e = log2l((ld)f); VT_ASSERT(c, fabsl(vl_log2_f(f) - e) <= 2e-7L * fabsl(e) + 1e-30L, "log2_f(%.9g)=%.9g", f, vl_log2_f(f));
      e = sqrtl((ld)f); VT_ASSERT(c, fabsl(vl_sqrt_f(f) - e) <= 1.3e-7L * e, "sqrt_f(%.9g)", f); }
  }
}
VT_CHECK(special_values, 200, 1000, "always") {
  c.nontrivial(); int k = c.i(0, 5); double inf = INFINITY, nan = NAN;
  double v[] = {inf, -inf, nan, -nan, (double)VL_INFINITY_D, (double)VL_NAN_D}; float vf[] = {(float)inf, (float)-inf, (float)nan, (float)-nan, VL_INFINITY_F, VL_NAN_F};
  bool isnan_ = k == 2 || k == 3 || k == 5;
  VT_ASSERT(c, !!vl_is_nan_d(v[k]) == isnan_ && !!vl_is_nan_f(vf[k]) == isnan_ && !!vl_is_inf_d(v[k]) == !isnan_ && !!vl_is_inf_f(vf[k]) == !isnan_, "classification of special value %d", k);
  VT_ASSERT(c, VL_INFINITY_D > 1e308 && VL_INFINITY_F > 3e38f && VL_NAN_D != VL_NAN_D && VL_NAN_F != VL_NAN_F, "constants");
}
VT_CHECK(angle_reduction, 200000, 4000000, "argument outside [0, 2pi)") {
  const ld P = 6.283185307179586476925286766559L;
  double x; switch (c.i(0, 4)) { case 0: x = c.real(-30, 30); break; case 1: x = c.real(-20000, 20000); break; case 2: x = (double)(c.i(-300, 300) * P); break;
    case 3: x = std::nextafter((double)(c.i(-300, 300) * P), c.b() ? 1e9 : -1e9); break; default: x = (c.b() ? -1 : 1) * std::exp(c.real(-60, 0)); }
  c.note("x=%.17g", x); if (x < 0 || x >= 6.28) c.nontrivial();
  double r = vl_mod_2pi_d(x); float f = (float)x, rf = vl_mod_2pi_f(f);
  VT_ASSERT(c, r >= 0 && r <= 2 * VL_PI, "mod_2pi_d(%.17g)=%.17g", x, r);
  VT_ASSERT(c, rf >= 0 && rf <= (float)(2 * VL_PI), "mod_2pi_f(%.9g)=%.9g", f, rf);
  ld d = ((ld)x - r) / P; ld n = roundl(d); VT_ASSERT(c, fabsl((ld)x - r - n * P) <= 1e-15L * (fabsl(n) + 2) * std::max(8.0L, fabsl((ld)x)), "mod_2pi_d(%.17g)=%.17g is off by %.3Lg", x, r, (ld)x - r - n * P);
  d = ((ld)f - rf) / P; n = roundl(d); VT_ASSERT(c, fabsl((ld)f - rf - n * P) <= 5e-7L * (fabsl(n) + 2) * std::max(8.0L, fabsl((ld)f)), "mod_2pi_f(%.9g)=%.9g is off by %.3Lg", f, rf, (ld)f - rf - n * P);
}
template <class T, class F> static void isqrt(vt::Ctx &c, F fn, const char *nm) {
  int bits = sizeof(T) * 8; T x;
  switch (c.i(0, 4)) {
    case 0: { T r = (T)c.draw(1ULL << (bits / 2)); unsigned __int128 q = (unsigned __int128)r * r; q += c.i(0, 2); q -= 1; x = (T)q; break; }
    case 1: { T r = (T)((1ULL << (bits / 2)) - 1 - c.i(0, 40)); x = (T)((unsigned __int128)r * r - c.i(0, 1)); break; }
    case 2: x = (T)(~(T)0 - (T)c.i(0, 100)); break;
    case 3: x = (T)c.i(0, 200); break;
    default: x = (T)(c.draw(0) >> c.i(0, bits - 1)); 
  }
  c.note("%s(%llu)", nm, (unsigned long long)x); if (x > 1) c.nontrivial(); c.label("%s", nm);
  T y = fn(x); unsigned __int128 yy = (unsigned __int128)y * y, y1 = ((unsigned __int128)y + 1) * ((unsigned __int128)y + 1);
  VT_ASSERT(c, yy <= x && y1 > x, "%s(%llu)=%llu", nm, (unsigned long long)x, (unsigned long long)y);
}
VT_CHECK(integer_sqrt, 400000, 10000000, "argument > 1") {
  switch (c.i(0, 3)) {
    case 0: isqrt<vl_uint8>(c, [](vl_uint8 x) { return vl_fast_sqrt_ui8(x); }, "ui8"); break;
    case 1: isqrt<vl_uint16>(c, [](vl_uint16 x) { return vl_fast_sqrt_ui16(x); }, "ui16"); break;
    case 2: isqrt<vl_uint32>(c, [](vl_uint32 x) { return vl_fast_sqrt_ui32(x); }, "ui32"); break;
    default: isqrt<vl_uint64>(c, [](vl_uint64 x) { return vl_fast_sqrt_ui64(x); }, "ui64");
  }
}
VT_CHECK(fast_sqrt, 300000, 8000000, "always") {
  double x = c.chance(1, 4) ? c.real(0, 4) : std::exp(c.real(-60, 60)); float f = (float)x; c.note("x=%.17g", x); c.nontrivial();
  if (f > 1e-30f) {
    ld r = 1 / sqrtl(f); VT_ASSERT(c, fabsl(vl_fast_resqrt_f(f) - r) <= 1e-5L * r, "fast_resqrt_f(%.9g)=%.9g, exact %.9Lg", f, vl_fast_resqrt_f(f), r);
    r = sqrtl(f); ld tol = f < 1.1e-8 ? 1.1e-4L : 1e-5L * r;
    VT_ASSERT(c, fabsl(vl_fast_sqrt_f(f) - r) <= tol, "fast_sqrt_f(%.9g)=%.9g", f, vl_fast_sqrt_f(f));
    VT_ASSERT(c, fabsl(vl_fast_sqrt_d(f) - r) <= tol, "fast_sqrt_d(%.9g)=%.9g", f, vl_fast_sqrt_d(f));
  }
  ld r = 1 / sqrtl(x); VT_ASSERT(c, fabsl(vl_fast_resqrt_d(x) - r) <= 1e-5L * r, "fast_resqrt_d(%.17g)=%.17g, exact %.17Lg", x, vl_fast_resqrt_d(x), r);
  VT_ASSERT(c, vl_fast_sqrt_f(0) == 0 && vl_fast_sqrt_d(0) == 0, "fast_sqrt(0)");
}
VT_CHECK(fast_atan2, 300000, 8000000, "always") {
  double a, s; a = c.chance(1, 4) ? c.i(-16, 16) * (VL_PI / 8) + c.pick({0.0, 1e-9, -1e-9, 1e-4}) : c.real(-3.2, 3.2); s = std::exp(c.real(-3, 20));
  double x = s * std::cos(a), y = s * std::sin(a); if (c.chance(1, 8)) { if (c.b()) x = 0; else y = 0; } if (c.chance(1, 10)) { x = (double)c.i(-9, 9); y = (double)c.i(-9, 9); }
  if (x == 0 && y == 0) c.discard(); c.nontrivial();
  c.note("atan2(%.17g, %.17g)", y, x);
  auto diff = [](ld p, ld q) { ld d = fabsl(p - q); return std::min(d, fabsl(6.283185307179586476925L - d)); };
  float xf = (float)x, yf = (float)y; if (fabs(xf) + fabs(yf) < 1e-2) c.discard();
  double g = vl_fast_atan2_d(y, x); float gf = vl_fast_atan2_f(yf, xf);
  VT_ASSERT(c, diff(g, atan2l(y, x)) <= 0.00615L, "fast_atan2_d(%.17g,%.17g)=%.9g exact %.9Lg", y, x, g, atan2l(y, x));
  VT_ASSERT(c, diff(gf, atan2l(yf, xf)) <= 0.00615L, "fast_atan2_f(%.9g,%.9g)=%.9g exact %.9Lg", yf, xf, gf, atan2l(yf, xf));
  VT_ASSERT(c, fabs(g) <= VL_PI + 0.0063 && fabs(gf) <= VL_PI + 0.0063, "range");
}
int main(int a, char **b) { return vt::vt_main(a, b); }
