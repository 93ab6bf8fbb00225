// comparisons, set predicates, set operations
#include "common.hpp"
#include <boost/numeric/interval/compare.hpp>
#include <boost/numeric/interval/compare/tribool.hpp>
using namespace boost::numeric;
#undef H
#define H extern "C"
inline int val(bool b) { return b; }
inline int val(boost::logic::tribool b)
{ return b.value == boost::logic::tribool::true_value ? 1 : b.value == boost::logic::tribool::false_value ? 0 : 3; }
#define REL(NS, USING, NAME, OP) \
H int NS##_##NAME##_ii(X1, Y1) { USING MKX MKY return val(x OP y); } \
H int NS##_##NAME##_im(X1, Y1) { USING MKX I2 y(mk<I2>(ye, yl, yu)); return val(x OP y); } \
H int NS##_##NAME##_is(X1, T ys) { USING MKX return val(x OP ys); }
#define RELS(NS, USING) REL(NS, USING, lt, <) REL(NS, USING, le, <=) REL(NS, USING, gt, >) \
  REL(NS, USING, ge, >=) REL(NS, USING, eq, ==) REL(NS, USING, ne, !=)
RELS(def, )
RELS(cer, using namespace il::compare::certain;)
RELS(pos, using namespace il::compare::possible;)
RELS(lex, using namespace il::compare::lexicographic;)
RELS(set, using namespace il::compare::set;)
RELS(tri, using namespace il::compare::tribool;)
#define EXP(NAME) \
H int exp_##NAME##_ii(X1, Y1) { MKX MKY return il::NAME(x, y); } \
H int exp_##NAME##_im(X1, Y1) { MKX I2 y(mk<I2>(ye, yl, yu)); return il::NAME(x, y); } \
H int exp_##NAME##_is(X1, T ys) { MKX return il::NAME(x, ys); } \
H int exp_##NAME##_si(T xs, Y1) { MKY return il::NAME(xs, y); }
EXP(cerlt) EXP(cerle) EXP(cergt) EXP(cerge) EXP(cereq) EXP(cerne)
EXP(poslt) EXP(posle) EXP(posgt) EXP(posge) EXP(poseq) EXP(posne)
// predicates
H int in_si(T xs, Y1) { MKY return in(xs, y); }
H int zeroin_i(X1) { MKX return zero_in(x); }
H int inzero_i(X1) { MKX return in_zero(x); }
H int singleton_i(X1) { MKX return singleton(x); }
H int empty_i(X1) { MKX return empty(x); }
#define PRED(NAME) \
H int NAME##_ii(X1, Y1) { MKX MKY return NAME(x, y); } \
H int NAME##_im(X1, Y1) { MKX I2 y(mk<I2>(ye, yl, yu)); return NAME(x, y); }
PRED(subset) PRED(proper_subset) PRED(overlap) PRED(equal)
// set operations, images
#define V extern "C" void
V intersect_ii(X1, Y1, T* r) { MKX MKY put(r, intersect(x, y)); }
#define BIN(NAME, FN) \
V NAME##_ii(X1, Y1, T* r) { MKX MKY put(r, FN(x, y)); } \
V NAME##_is(X1, T ys, T* r) { MKX put(r, FN(x, ys)); } \
V NAME##_si(T xs, Y1, T* r) { MKY put(r, FN(xs, y)); }
BIN(hull, hull) BIN(min, (min)) BIN(max, (max))
V hull_ss(T xs, T ys, T* r) { put(r, I::hull(xs, ys)); }
V hull_fss(T xs, T ys, T* r) { put(r, hull(xs, ys)); }
V abs_i(X1, T* r) { MKX put(r, abs(x)); }
V norm_i(X1, T* r) { MKX *r = norm(x); }
V intersect_xx(X1, T* r) { MKX put(r, intersect(x, x)); }
V min_xx(X1, T* r) { MKX put(r, (min)(x, x)); }
// construction, assignment, access
V ctor_def(T* r) { I x; put(r, x); }
V ctor_s(T xs, T* r) { I x(xs); put(r, x); }
V ctor_ss(T xs, T ys, T* r) { I x(xs, ys); put(r, x); }
V ctor_copy(X1, T* r) { MKX I z(x); put(r, z); }
V ctor_mix(X1, T* r) { MKX I2 z(x); put(r, z); }
V set_s(X1, T ys, T* r) { MKX x = ys; put(r, x); }
V set_i(X1, Y1, T* r) { MKX MKY x = y; put(r, x); }
V set_m(X1, Y1, T* r) { MKX I2 y(mk<I2>(ye, yl, yu)); x = y; put(r, x); }
V assign_ss(X1, T ys, T zs, T* r) { MKX x.assign(ys, zs); put(r, x); }
V set_self(X1, T* r) { MKX x = *&x; put(r, x); }
V assign_lu(X1, T* r) { MKX x.assign(x.lower(), x.upper()); put(r, x); }
V assign_ul(X1, T* r) { MKX x.assign(x.upper(), x.lower()); put(r, x); }
V assign_ll(X1, T* r) { MKX x.assign(x.lower(), x.lower()); put(r, x); }
V assign_uu(X1, T* r) { MKX x.assign(x.upper(), x.upper()); put(r, x); }
V assign_sl(X1, T ys, T* r) { MKX x.assign(ys, x.lower()); put(r, x); }
V assign_us(X1, T ys, T* r) { MKX x.assign(x.upper(), ys); put(r, x); }
V set_l(X1, T* r) { MKX x = x.lower(); put(r, x); }
V set_u(X1, T* r) { MKX x = x.upper(); put(r, x); }
V empty_(T* r) { put(r, I::empty()); }
V whole_(T* r) { put(r, I::whole()); }
V access_i(X1, T* r) { MKX r[0] = lower(x); r[1] = upper(x); r[2] = checked_lower(x); r[3] = checked_upper(x); }
