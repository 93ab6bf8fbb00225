// scalar and compound forms, exceptions
#include "common.hpp"
using namespace boost::numeric;
#define BIN(NAME, OP) \
H NAME##_cin(X1, int n, T* r) { MKX x OP##= n; put(r, x); } \
H NAME##_in(X1, int n, T* r) { MKX put(r, x OP n); } \
H NAME##_ret(X1, Y1, T* r) { MKX MKY I& q = x OP##= y; put(r, q); r[2] = &q == &x ? 1 : 0; } \
H NAME##_rets(X1, T ys, T* r) { MKX I& q = x OP##= ys; put(r, q); r[2] = &q == &x ? 1 : 0; } \
H NAME##_tii(X1, Y1, T* r, bool* b) { MKX MKY *b = false; try { x OP##= y; } catch (...) { *b = true; } put(r, x); } \
H NAME##_tis(X1, T ys, T* r, bool* b) { MKX *b = false; try { x OP##= ys; } catch (...) { *b = true; } put(r, x); } \
H NAME##_tin(X1, int n, T* r, bool* b) { MKX *b = false; try { x OP##= n; } catch (...) { *b = true; } put(r, x); } \
H NAME##_txx(X1, T* r, bool* b) { MKX *b = false; try { x OP##= x; } catch (...) { *b = true; } put(r, x); } \
H NAME##_txl(X1, T* r, bool* b) { MKX *b = false; try { x OP##= x.lower(); } catch (...) { *b = true; } put(r, x); } \
H NAME##_txu(X1, T* r, bool* b) { MKX *b = false; try { x OP##= x.upper(); } catch (...) { *b = true; } put(r, x); }
BIN(add, +) BIN(sub, -) BIN(mul, *) BIN(div, /)
H eq_tii(X1, Y1, T* r, bool* b) { MKX MKY *b = false; try { x = y; } catch (...) { *b = true; } put(r, x); }
H eq_tim(X1, Y1, T* r, bool* b) { MKX I2 y(mk<I2>(ye, yl, yu)); *b = false; try { x = y; } catch (...) { *b = true; } put(r, x); }
H eq_tis(X1, T ys, T* r, bool* b) { MKX *b = false; try { x = ys; } catch (...) { *b = true; } put(r, x); }
H eq_tin(X1, int n, T* r, bool* b) { MKX *b = false; try { x = n; } catch (...) { *b = true; } put(r, x); }
H as_tss(X1, T ys, T zs, T* r, bool* b) { MKX *b = false; try { x.assign(ys, zs); } catch (...) { *b = true; } put(r, x); }
