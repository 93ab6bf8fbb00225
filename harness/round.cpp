// the rounding policy classes, member by member.  CLS: the class under analysis
#include "common.hpp"
#include <new>
typedef CLS R;
typedef R::unprotected_rounding UR;
#define F extern "C"
#define B2(n) F T p_##n(R* r, T x, T y) { return r->n(x, y); } F T u_##n(UR* r, T x, T y) { return r->n(x, y); } \
              F T l_##n(T x, T y) { R r; return r.n(x, y); }
#define B1(n) F T p_##n(R* r, T x) { return r->n(x); } F T u_##n(UR* r, T x) { return r->n(x); } F T l_##n(T x) { R r; return r.n(x); }
#define DU2(n) B2(n##_down) B2(n##_up)
#define DU1(n) B1(n##_down) B1(n##_up)
DU2(add) DU2(sub) DU2(mul) DU2(div) DU1(sqrt) DU1(int) B2(median)
#define CV(n, U) F T p_convd_##n(R* r, U x) { return r->conv_down(x); } F T p_convu_##n(R* r, U x) { return r->conv_up(x); } \
                 F T u_convd_##n(UR* r, U x) { return r->conv_down(x); } F T u_convu_##n(UR* r, U x) { return r->conv_up(x); }
CV(i32, int) CV(u32, unsigned) CV(i64, long) CV(u64, unsigned long) CV(f32, float) CV(f64, double) CV(f80, long double)
F void life(R* q, T* o) { R r; o[0] = 0; }
F void ctor(R* p) { new (p) R; }
F void idle(UR* p) { new (p) UR; p->~UR(); }
#ifdef TRANSC
DU1(exp) DU1(log) DU1(sin) DU1(cos) DU1(tan) DU1(asin) DU1(acos) DU1(atan) DU1(sinh) DU1(cosh) DU1(tanh) DU1(asinh) DU1(acosh) DU1(atanh)
#endif
