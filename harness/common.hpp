// Analysis harness, never executed: every function below is a client of the public
// interface of Boost.Interval; sa/ interprets its LLVM IR abstractly.
#ifndef VERIF_COMMON_HPP
#define VERIF_COMMON_HPP
#include <boost/numeric/interval.hpp>
#include <boost/numeric/interval/ext/integer.hpp>

#ifndef NUM
# define NUM double
#endif
typedef NUM T;
namespace bn = boost::numeric;
namespace il = boost::numeric::interval_lib;

// ---- opaque policies: declared, never defined.  Their documented contract is the
//      transfer function used by the analyser.
template<class T> struct ORndU {
  typedef ORndU<T> unprotected_rounding;
  template<class U> T conv_down(U const&);
  template<class U> T conv_up(U const&);
#define OP2(n) T n##_down(T const&, T const&); T n##_up(T const&, T const&);
#define OP1(n) T n##_down(T const&); T n##_up(T const&);
#define ALLOPS OP2(add) OP2(sub) OP2(mul) OP2(div) OP1(sqrt) OP1(int) \
  OP1(exp) OP1(log) OP1(sin) OP1(cos) OP1(tan) OP1(asin) OP1(acos) OP1(atan) \
  OP1(sinh) OP1(cosh) OP1(tanh) OP1(asinh) OP1(acosh) OP1(atanh) T median(T const&, T const&);
  ALLOPS
};
template<class T> struct ORnd {
  typedef ORndU<T> unprotected_rounding;
  ORnd(); ~ORnd();
  template<class U> T conv_down(U const&);
  template<class U> T conv_up(U const&);
  ALLOPS
};
template<class T> struct OChk {
  static T pos_inf(); static T neg_inf(); static T nan();
  static bool is_nan(T const&);
  static T empty_lower(); static T empty_upper();
  static bool is_empty(T const&, T const&);
};
template<class T> struct OChk2 {   // a second, distinct opaque checking policy
  static T pos_inf(); static T neg_inf(); static T nan();
  static bool is_nan(T const&);
  static T empty_lower(); static T empty_upper();
  static bool is_empty(T const&, T const&);
};
typedef bn::interval<T, il::policies<ORnd<T>, OChk<T> > > IOpq;
typedef bn::interval<T, il::policies<ORnd<T>, OChk2<T> > > IOpq2;
typedef bn::interval<T, il::policies<il::rounded_math<T>, OChk<T> > > IRm;
typedef bn::interval<T> IDef;

#if defined(CFG_OPQ)
typedef IOpq I;
typedef IOpq2 I2;
#elif defined(CFG_STD)
typedef bn::interval<T, il::policies<il::save_state<il::rounded_transc_std<T, il::rounded_arith_std<T> > >, il::checking_base<T> > > I;
typedef bn::interval<T, il::policies<il::save_state<il::rounded_transc_std<T, il::rounded_arith_std<T> > >, il::checking_no_nan<T> > > I2;
#elif defined(CFG_TRANSC)
typedef bn::interval<T, il::policies<il::save_state<il::rounded_transc_opp<T> >, il::checking_base<T> > > I;
typedef I I2;
#elif defined(CFG_STRICT)
typedef bn::interval<T, il::policies<il::save_state<il::rounded_transc_opp<T> >, il::checking_strict<T> > > I;
typedef I I2;
#elif defined(CFG_RAW)      // default policies
typedef IDef I;
typedef IDef I2;
#else                       // default rounding, default kind of checking (empty intervals allowed)
typedef bn::interval<T, il::policies<il::rounded_math<T>, il::checking_base<T> > > I;
typedef bn::interval<T, il::policies<il::rounded_math<T>, il::checking_no_nan<T> > > I2;
#endif
template<class J> inline J mk(bool e, T const& l, T const& u) { if (e) return J::empty(); return J(l, u); }
template<class J> inline void put(T* r, J const& z) { r[0] = z.lower(); r[1] = z.upper(); }
#define X1 bool xe, T xl, T xu
#define Y1 bool ye, T yl, T yu
#define MKX I x(mk<I>(xe, xl, xu));
#define MKY I y(mk<I>(ye, yl, yu));
#define MKX2 I2 x(mk<I2>(xe, xl, xu));
#define MKY2 I2 y(mk<I2>(ye, yl, yu));
#define H extern "C" void
#endif
