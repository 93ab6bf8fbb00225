// width, median, widen, bisect
#include "common.hpp"
using namespace boost::numeric;
H width_i(X1, T* r) { MKX r[0] = width(x); }
H median_i(X1, T* r) { MKX r[0] = median(x); }
H widen_is(X1, T ys, T* r) { MKX put(r, widen(x, ys)); }
H bisect_i(X1, T* r) { MKX std::pair<I, I> p = bisect(x); put(r, p.first); put(r + 2, p.second); }
