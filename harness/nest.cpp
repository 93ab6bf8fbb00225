// operations on the unprotected interval type inside a live rounding object, next to the protected ones
#include "common.hpp"
using namespace boost::numeric;
typedef il::unprotect<I>::type U;
typedef I::traits_type::rounding Rnd;
// n_: protected operation, then twice the unprotected one (the second result is reported), then the protected one inside
// the live object; u_: the unprotected one alone
#define FAM(NAME, PARS, MK, DECL, USE, NRES, ...) \
template<class J> inline void f_##NAME DECL { __VA_ARGS__ } \
H n_##NAME PARS { MK f_##NAME<I> USE(x, y, r); { Rnd rnd; COPY##NRES f_##NAME<U> USE(a, b, q); f_##NAME<U> USE(a, b, q); f_##NAME<I> USE(x, y, p); } } \
H u_##NAME PARS { MK { Rnd rnd; COPY##NRES f_##NAME<U> USE(a, b, r); } }
#define COPYXY U a(x), b; b = y;
#define COPYX U a(x);
#define COPYY U b(y);
#define DXY (J const& x, J const& y, T* r)
#define UXY(x, y, r) (x, y, r)
#define DX (J const& x, T* r)
#define UX(x, y, r) (x, r)
#define DXS (J const& x, T const& s, T* r)
#define UXS(x, y, r) (x, ys, r)
#define DSY (J const& y, T const& s, T* r)
#define USY(x, y, r) (y, xs, r)
#define NXY(NAME, EXPR) FAM(NAME, (X1, Y1, T* r, T* q, T* p), MKX MKY, DXY, UXY, XY, put(r, EXPR);)
#define NX(NAME, EXPR) FAM(NAME, (X1, T* r, T* q, T* p), MKX, DX, UX, X, put(r, EXPR);)
#define NX1(NAME, EXPR) FAM(NAME, (X1, T* r, T* q, T* p), MKX, DX, UX, X, r[0] = EXPR;)
#define NXS(NAME, EXPR) FAM(NAME, (X1, T ys, T* r, T* q, T* p), MKX, DXS, UXS, X, put(r, EXPR);)
#define NSY(NAME, EXPR) FAM(NAME, (T xs, Y1, T* r, T* q, T* p), MKY, DSY, USY, Y, put(r, EXPR);)
#ifndef NESTT
NXY(add_ii, x + y) NXY(sub_ii, x - y) NXY(mul_ii, x * y) NXY(div_ii, x / y)
NXS(add_is, x + s) NXS(sub_is, x - s) NXS(mul_is, x * s) NXS(div_is, x / s)
NSY(add_si, s + y) NSY(sub_si, s - y) NSY(mul_si, s * y) NSY(div_si, s / y)
#define NC(NAME, OP) FAM(NAME##_cii, (X1, Y1, T* r, T* q, T* p), MKX MKY, DXY, UXY, XY, J z(x); z OP y; put(r, z);) \
  FAM(NAME##_cis, (X1, T ys, T* r, T* q, T* p), MKX, DXS, UXS, X, J z(x); z OP s; put(r, z);)
NC(add, +=) NC(sub, -=) NC(mul, *=) NC(div, /=)
NX(inv_i, il::multiplicative_inverse(x))
FAM(part1_ii, (X1, Y1, T* r, T* q, T* p), MKX MKY, DXY, UXY, XY, bool t; put(r, il::division_part1(x, y, t));)
FAM(part2_ii, (X1, Y1, T* r, T* q, T* p), MKX MKY, DXY, UXY, XY, put(r, il::division_part2(x, y));)
NX(square_i, square(x)) NX(sqrt_i, sqrt(x)) NX(neg_i, -x) NX(abs_i, abs(x)) NX1(norm_i, norm(x))
NX(powm3_i, pow(x, -3)) NX(pow0_i, pow(x, 0)) NX(pow2_i, pow(x, 2)) NX(pow5_i, pow(x, 5))
NXY(fmod_ii, fmod(x, y)) NXS(fmod_is, fmod(x, s))
NXY(hull_ii, hull(x, y)) NXY(intersect_ii, intersect(x, y)) NXY(max_ii, max(x, y))
NX1(width_i, width(x)) NX1(median_i, median(x)) NXS(widen_is, widen(x, s))
FAM(bisect_i, (X1, T* r, T* q, T* p), MKX, DX, UX, X, std::pair<J, J> z = bisect(x); put(r, z.first); put(r + 2, z.second);)
// doc/rounding.htm: a computation written with the unprotected type
NXY(chain, (x + y) * x - y)
#else
NX(exp_i, exp(x)) NX(log_i, log(x)) NX(sinh_i, sinh(x)) NX(cosh_i, cosh(x)) NX(tanh_i, tanh(x)) NX(asinh_i, asinh(x))
NX(acosh_i, acosh(x)) NX(atanh_i, atanh(x)) NX(asin_i, asin(x)) NX(acos_i, acos(x)) NX(atan_i, atan(x))
NX(sin_i, sin(x)) NX(cos_i, cos(x)) NX(tan_i, tan(x))
#endif
#ifndef NESTT
// construction and assignment from other types
#ifdef CFG_OPQ
template<class S> struct Other { typedef bn::interval<S, il::policies<ORnd<S>, OChk2<S> > > type; };
#else
template<class S> struct Other { typedef bn::interval<S, il::policies<il::rounded_math<S>, il::checking_base<S> > > type; };
#endif
template<class S> inline typename Other<S>::type mko(bool e, S const& l, S const& u)
{ typedef typename Other<S>::type J; if (e) return J::empty(); return J(l, u, true); }
#define FAMC(NAME, PARS, MK, DECL, A, ...) \
template<class J> inline void f_##NAME DECL { __VA_ARGS__ } \
H n_##NAME PARS { MK f_##NAME A(I, r); { Rnd rnd; f_##NAME A(U, q); f_##NAME A(U, q); f_##NAME A(I, p); } } \
H u_##NAME PARS { MK { Rnd rnd; f_##NAME A(U, r); } }
#define A1(J, r) <J>(xs, r)
#define A2(J, r) <J>(xs, ys, r)
#define A3(J, r) <J>(z, r)
#define NCV(N, S) \
FAMC(conv_##N##_s, (S xs, T* r, T* q, T* p), , (S const& s, T* r), A1, J v(s); put(r, v); J w; w = s; put(r + 2, w);) \
FAMC(conv_##N##_ss, (S xs, S ys, T* r, T* q, T* p), , (S const& s, S const& t, T* r), A2, J v(s, t); put(r, v);)
#define NCI(N, S) \
FAMC(conv_##N##_i, (bool xe, S xl, S xu, T* r, T* q, T* p), Other<S>::type z(mko<S>(xe, xl, xu));, (typename Other<S>::type const& s, T* r), A3, J v(s); put(r, v); J w; w = s; put(r + 2, w);)
NCV(i32, int) NCV(i64, long) NCV(f32, float) NCV(f80, long double) NCI(f32, float) NCI(f80, long double)
#endif
