#include "common.hpp"
using namespace boost::numeric;
// ---- binary operators: interval o interval, scalar o interval, interval o scalar, compound, arith3
#define BIN(NAME, OP) \
H NAME##_ii(X1, Y1, T* r) { MKX MKY put(r, x OP y); } \
H NAME##_si(T xs, Y1, T* r) { MKY put(r, xs OP y); } \
H NAME##_is(X1, T ys, T* r) { MKX put(r, x OP ys); } \
H NAME##_cii(X1, Y1, T* r) { MKX MKY x OP##= y; put(r, x); } \
H NAME##_cis(X1, T ys, T* r) { MKX x OP##= ys; put(r, x); } \
H NAME##_xx(X1, T* r) { MKX put(r, x OP x); } \
H NAME##_cxx(X1, T* r) { MKX x OP##= x; put(r, x); } \
H NAME##_cxl(X1, T* r) { MKX x OP##= x.lower(); put(r, x); } \
H NAME##_cxu(X1, T* r) { MKX x OP##= x.upper(); put(r, x); }
BIN(add, +) BIN(sub, -) BIN(mul, *) BIN(div, /)
#define ONE1(NAME, EXPR) H NAME(X1, T* r) { MKX put(r, EXPR); }
ONE1(neg_i, -x) ONE1(pos_i, +x)
H add_ss(T xs, T ys, T* r) { put(r, il::add<I>(xs, ys)); }
H sub_ss(T xs, T ys, T* r) { put(r, il::sub<I>(xs, ys)); }
H mul_ss(T xs, T ys, T* r) { put(r, il::mul<I>(xs, ys)); }
H div_ss(T xs, T ys, T* r) { put(r, il::div<I>(xs, ys)); }
#ifndef NO_INTEGER
#define BINI(NAME, OP) \
H NAME##_ni(int xn, Y1, T* r) { MKY put(r, xn OP y); } \
H NAME##_in(X1, int yn, T* r) { MKX put(r, x OP yn); }
BINI(add, +) BINI(sub, -) BINI(mul, *) BINI(div, /)
#endif
ONE1(inv_i, il::multiplicative_inverse(x))
H part1_ii(X1, Y1, T* r, bool* b) { MKX MKY put(r, il::division_part1(x, y, *b)); }
H part2_ii(X1, Y1, T* r) { MKX MKY put(r, il::division_part2(x, y)); }
H parts_ii(X1, Y1, T* r, T* q, bool* b) { MKX MKY put(r, il::division_part1(x, y, *b)); put(q, il::division_part2(x, y, *b)); }
// ---- arith2
ONE1(square_i, square(x)) ONE1(sqrt_i, sqrt(x))
H pow_in(X1, int n, T* r) { MKX put(r, pow(x, n)); }
H fmod_ii(X1, Y1, T* r) { MKX MKY put(r, fmod(x, y)); }
H fmod_is(X1, T ys, T* r) { MKX put(r, fmod(x, ys)); }
H fmod_si(T xs, Y1, T* r) { MKY put(r, fmod(xs, y)); }
#ifndef NO_ROOT
H root_in(X1, int n, T* r) { MKX put(r, nth_root(x, n)); }
#endif
