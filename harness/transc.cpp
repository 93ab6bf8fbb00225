#include "common.hpp"
using namespace boost::numeric;
#define F1(N) H t_##N(X1, T* r) { MKX put(r, N(x)); }
F1(exp) F1(log) F1(sinh) F1(cosh) F1(tanh) F1(asinh) F1(acosh) F1(atanh) F1(asin) F1(acos) F1(atan)
F1(sin) F1(cos) F1(tan)
