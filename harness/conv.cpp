// construction and assignment from other arithmetic types
#include "common.hpp"
#ifdef CFG_OPQ
template<class S> struct Other { typedef bn::interval<S, il::policies<ORnd<S>, OChk2<S> > > type; };
#else
template<class S> struct Other { typedef bn::interval<S, il::policies<il::rounded_math<S>, il::checking_base<S> > > type; };
#endif
template<class S> inline typename Other<S>::type mko(bool e, S const& l, S const& u)
{ typedef typename Other<S>::type J; if (e) return J::empty(); return J(l, u, true); }
#define CONV(N, S) \
H conv_##N##_s(S xs, T* r) { I z(xs); put(r, z); } \
H conv_##N##_ss(S xs, S ys, T* r) { I z(xs, ys); put(r, z); } \
H conv_##N##_a(X1, S ys, T* r) { MKX x = ys; put(r, x); }
#define CONVI(N, S) \
H conv_##N##_i(bool ye, S yl, S yu, T* r) { I z(mko<S>(ye, yl, yu)); put(r, z); } \
H conv_##N##_ai(X1, bool ye, S yl, S yu, T* r) { MKX x = mko<S>(ye, yl, yu); put(r, x); }
CONV(i32, int) CONV(u32, unsigned) CONV(i64, long) CONV(u64, unsigned long)
CONV(f32, float) CONV(f64, double) CONV(f80, long double)
CONVI(f32, float) CONVI(f64, double) CONVI(f80, long double)
#ifdef CFG_OPQ
CONVI(i32, int) CONVI(i64, long)
#endif
#define MIX(N, S1, S2) H conv2_##N(S1 xs, S2 ys, T* r) { I z(xs, ys); put(r, z); }
MIX(i32_f64, int, double) MIX(f32_f64, float, double) MIX(f64_i32, double, int) MIX(f80_f64, long double, double) MIX(i32_f80, int, long double)
