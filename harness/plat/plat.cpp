// the rounding control of one platform, selected by the repository's own header
// (every header stands on its own, so the extension can come first)
#ifdef PLAT_FAST
#include <boost/numeric/interval/ext/x86_fast_rounding_control.hpp>
#endif
#include <boost/numeric/interval/hw_rounding.hpp>
namespace il = boost::numeric::interval_lib;
#define RC(P, C) \
extern "C" void P##_downward() { C::downward(); } extern "C" void P##_upward() { C::upward(); } \
extern "C" void P##_to_nearest() { C::to_nearest(); } extern "C" void P##_toward_zero() { C::toward_zero(); } \
extern "C" void P##_saverestore() { C::rounding_mode m; C::get_rounding_mode(m); C::set_rounding_mode(m); }
RC(f, il::rounding_control<float>) RC(d, il::rounding_control<double>) RC(l, il::rounding_control<long double>)
extern "C" void f_object() { il::rounded_math<float> r; }
extern "C" void d_object() { il::rounded_math<double> r; }
extern "C" void l_object() { il::rounded_math<long double> r; }
#define FORCE(P, C, T) extern "C" T P##_force(T x) { return C::force_rounding(x); }
FORCE(f, il::rounding_control<float>, float) FORCE(d, il::rounding_control<double>, double) FORCE(l, il::rounding_control<long double>, long double)
#ifndef PLAT_BCC
#define INT(P, C, T) extern "C" T P##_int(T x) { return C::to_int(x); }
INT(f, il::rounding_control<float>, float) INT(d, il::rounding_control<double>, double) INT(l, il::rounding_control<long double>, long double)
#endif
#ifdef PLAT_FAST
RC(xf, il::x86_fast_rounding_control<float>) RC(xd, il::x86_fast_rounding_control<double>) RC(xl, il::x86_fast_rounding_control<long double>)
FORCE(xf, il::x86_fast_rounding_control<float>, float) FORCE(xd, il::x86_fast_rounding_control<double>, double) FORCE(xl, il::x86_fast_rounding_control<long double>, long double)
INT(xf, il::x86_fast_rounding_control<float>, float) INT(xd, il::x86_fast_rounding_control<double>, double) INT(xl, il::x86_fast_rounding_control<long double>, long double)
#endif
#ifdef PLAT_KEEP
// Microsoft: the control word is translated on the way in and on the way out; every listed word K is
// read from the stub and must be written back
template<unsigned K> struct keep {
  static void go() { kread = K; typedef il::rounding_control<double> C; C::rounding_mode m; C::get_rounding_mode(m); C::set_rounding_mode(m); }
  static void obj() { kread = K; il::rounded_math<double> r; } };
#define KEEP(K) extern "C" void keep_##K() { keep<K>::go(); } extern "C" void keepobj_##K() { keep<K>::obj(); }
#include "keep.inc"
#endif
#ifdef PLAT_INT
// two roundings to an integer of the same number, in opposite directions
#define INTS(P, T) extern "C" T P##_ints(T x, T *y) { typedef il::rounding_control<T> C; \
  C::downward(); *y = C::to_int(x); C::upward(); return C::to_int(x); }
INTS(f, float) INTS(d, double) INTS(l, long double)
#endif
