// rounding objects inside rounding objects (doc/rounding.htm, "Protection control").  CLS: the class under analysis
#include "common.hpp"
typedef CLS R;
typedef R::unprotected_rounding UR;
typedef UR::unprotected_rounding UUR;
#define F extern "C"
// a_ a protected object inside a protected one; b_ an unprotected one inside a protected one; c_ one more level;
// d_ e_ the outer object again after the inner one has worked (in the other direction) and ended; f_ the inner one after the outer one worked
#define NEST(P, A, n, o) \
F T a_##n P { R r1; { R r2; return r2.n A; } } \
F T b_##n P { R r1; { UR r2; return r2.n A; } } \
F T c_##n P { R r1; UR r2; { UUR r3; return r3.n A; } } \
F T d_##n P { R r1; { R r2; r2.o A; r2.n A; } return r1.n A; } \
F T e_##n P { R r1; { UR r2; r2.o A; } return r1.n A; } \
F T f_##n P { R r1; r1.o A; { R r2; T v = r2.n A; return v; } } \
F T g_##n P { T v; { R r1; r1.o A; } { R r2; r2.o A; UR r3; v = r3.n A; } return v; }
#define DU2(n) NEST((T x, T y), (x, y), n##_down, n##_up) NEST((T x, T y), (x, y), n##_up, n##_down)
#define DU1(n) NEST((T x), (x), n##_down, n##_up) NEST((T x), (x), n##_up, n##_down)
DU2(add) DU2(sub) DU2(mul) DU2(div) DU1(sqrt) DU1(int)
NEST((T x, T y), (x, y), median, add_down)
#ifdef TRANSC
DU1(exp) DU1(log) DU1(sin) DU1(cos) DU1(tan) DU1(asin) DU1(acos) DU1(atan) DU1(sinh) DU1(cosh) DU1(tanh) DU1(asinh) DU1(acosh) DU1(atanh)
#endif
