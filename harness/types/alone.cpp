// One documented header at a time, next to the class itself and the user's own policies: everything the documentation
// attributes to the header must be usable.
#include <boost/numeric/interval/interval.hpp>
#if WITNESS == 1
#include <boost/numeric/interval/utility.hpp>
#elif WITNESS == 2
#include <boost/numeric/interval/arith.hpp>
#elif WITNESS == 3
#include <boost/numeric/interval/arith2.hpp>
#elif WITNESS == 4
#include <boost/numeric/interval/arith3.hpp>
#elif WITNESS == 5
#include <boost/numeric/interval/transc.hpp>
#elif WITNESS == 6
#include <boost/numeric/interval/compare/certain.hpp>
#elif WITNESS == 7
#include <boost/numeric/interval/compare/possible.hpp>
#elif WITNESS == 8
#include <boost/numeric/interval/compare/lexicographic.hpp>
#elif WITNESS == 9
#include <boost/numeric/interval/compare/set.hpp>
#elif WITNESS == 10
#include <boost/numeric/interval/compare/tribool.hpp>
#elif WITNESS == 11
#include <boost/numeric/interval/compare/explicit.hpp>
#elif WITNESS == 12
#include <boost/numeric/interval/constants.hpp>
#elif WITNESS == 13
#include <boost/numeric/interval/limits.hpp>
#elif WITNESS == 14
#include <boost/numeric/interval/io.hpp>
#elif WITNESS == 15
#include <boost/numeric/interval/ext/integer.hpp>
#elif WITNESS == 16
#include <boost/numeric/interval/policies.hpp>
#elif WITNESS == 17
#include <boost/numeric/interval/checking.hpp>
#elif WITNESS == 18
#include <boost/numeric/interval/rounding.hpp>
#elif WITNESS == 19
#include <boost/numeric/interval/rounded_arith.hpp>
#elif WITNESS == 20
#include <boost/numeric/interval/rounded_transc.hpp>
#elif WITNESS == 21
#include <boost/numeric/interval/hw_rounding.hpp>
#elif WITNESS == 22
#include <boost/numeric/interval/compare.hpp>
#endif
typedef double T;
#define RD1(f) T f##_down(const T&); T f##_up(const T&);
#define RD2(f) T f##_down(const T&, const T&); T f##_up(const T&, const T&);
struct Rounding {
  RD2(add) RD2(sub) RD2(mul) RD2(div) RD1(sqrt) RD1(exp) RD1(log) RD1(sin) RD1(cos) RD1(tan) RD1(asin) RD1(acos) RD1(atan)
  RD1(sinh) RD1(cosh) RD1(tanh) RD1(asinh) RD1(acosh) RD1(atanh) RD1(int)
  T median(const T&, const T&); T conv_down(int); T conv_up(int); T conv_down(const T&); T conv_up(const T&);
  typedef Rounding unprotected_rounding;
};
struct Checking {
  static T pos_inf(); static T neg_inf(); static T nan(); static bool is_nan(const T&);
  static T empty_lower(); static T empty_upper(); static bool is_empty(const T&, const T&);
};
struct Policies { typedef Rounding rounding; typedef Checking checking; };
struct Policies2 { typedef Rounding rounding; typedef Checking checking; };
typedef boost::numeric::interval<T, Policies> I;
typedef boost::numeric::interval<T, Policies2> J;
using namespace boost::numeric;
#define REL6(a, b) (void)(a < b); (void)(a <= b); (void)(a > b); (void)(a >= b); (void)(a == b); (void)(a != b);
// numbers come second: that is the operand order the comparison namespaces document
#define RELS REL6(x, y) REL6(x, v) REL6(x, m)
#define ARITH(op) (void)(x op y); (void)(x op v); (void)(v op y);
void use(I x, I y, J m, T v, int n) {
  (void)x; (void)y; (void)m; (void)v; (void)n;
  using namespace boost::numeric::interval_lib;
#if WITNESS == 1
  (void)lower(x); (void)upper(x); (void)checked_lower(x); (void)checked_upper(x); (void)median(x); (void)width(x); (void)widen(x, v);
  (void)in(v, x); (void)zero_in(x); (void)in_zero(x); (void)empty(x); (void)subset(x, m); (void)proper_subset(x, m); (void)overlap(x, m);
  (void)singleton(x); (void)equal(x, m); (void)intersect(x, y); (void)hull(x, y); (void)hull(x, v); (void)hull(v, x); (void)I::hull(v, v); (void)bisect(x);
  (void)norm(x); (void)abs(x); (void)max(x, y); (void)max(x, v); (void)max(v, x); (void)min(x, y); (void)min(x, v); (void)min(v, x);
#elif WITNESS == 2
  ARITH(+) ARITH(-) ARITH(*) ARITH(/) (void)-x; (void)+x; x += y; x -= y; x *= y; x /= y; x += v; x -= v; x *= v; x /= v;
#elif WITNESS == 3
  bool b; (void)fmod(x, y); (void)fmod(x, v); (void)fmod(v, x); (void)division_part1(x, y, b); (void)division_part2(x, y, b); (void)multiplicative_inverse(x);
  (void)pow(x, n); (void)sqrt(x); (void)square(x); (void)nth_root(x, n);
#elif WITNESS == 4
  (void)add<I>(v, v); (void)sub<I>(v, v); (void)mul<I>(v, v); (void)div<I>(v, v);
#elif WITNESS == 5
  (void)exp(x); (void)log(x); (void)sin(x); (void)cos(x); (void)tan(x); (void)asin(x); (void)acos(x); (void)atan(x);
  (void)sinh(x); (void)cosh(x); (void)tanh(x); (void)asinh(x); (void)acosh(x); (void)atanh(x);
#elif WITNESS == 6
  using namespace compare::certain; RELS
#elif WITNESS == 7
  using namespace compare::possible; RELS
#elif WITNESS == 8
  using namespace compare::lexicographic; RELS
#elif WITNESS == 9
  using namespace compare::set; RELS
#elif WITNESS == 10
  using namespace compare::tribool; RELS
#elif WITNESS == 11
#define SIX(p) E(p##lt) E(p##le) E(p##gt) E(p##ge) E(p##eq) E(p##ne)
#define E(f) (void)f(x, m); (void)f(x, v); (void)f(v, x);
  SIX(cer) SIX(pos)
#elif WITNESS == 12
  (void)pi<I>(); (void)pi_half<I>(); (void)pi_twice<I>();
#elif WITNESS == 13
  typedef std::numeric_limits<I> L; (void)(L::min)(); (void)(L::max)(); (void)L::epsilon(); (void)L::infinity(); (void)L::quiet_NaN(); (void)L::signaling_NaN(); (void)L::denorm_min(); (void)L::is_iec559;
#elif WITNESS == 14
  extern std::ostream& o; o << x; extern std::istream& s; (void)s;
#elif WITNESS == 15
  (void)(x + n); (void)(n + x); (void)(x - n); (void)(n - x); (void)(x * n); (void)(n * x); (void)(x / n); (void)(n / x); x += n; x -= n; x *= n; x /= n;
#elif WITNESS == 16
  change_rounding<I, Rounding>::type a(x); change_checking<I, Checking>::type b(x); unprotect<I>::type c(x); (void)a; (void)b; (void)c;
  typedef policies<Rounding, Checking>::rounding q; q r; (void)r;
#elif WITNESS == 17
#define CHK(C) (void)C::pos_inf(); (void)C::neg_inf(); (void)C::nan(); (void)C::is_nan(v); (void)C::empty_lower(); (void)C::empty_upper(); (void)C::is_empty(v, v);
  typedef checking_base<T> A; CHK(A) typedef checking_no_nan<T> B; CHK(B) typedef checking_no_empty<T> C; CHK(C) typedef checking_catch_nan<T> D; CHK(D) typedef checking_strict<T> E; CHK(E)
#elif WITNESS == 18
  struct R : rounding_control<T> { void init() { } }; save_state<R> a; save_state_nothing<R> b; (void)a; (void)b; save_state<R>::unprotected_rounding c; (void)c;
#elif WITNESS == 19
#define ARI(C) { C r; r.init(); (void)r.add_down(v, v); (void)r.add_up(v, v); (void)r.sub_down(v, v); (void)r.sub_up(v, v); (void)r.mul_down(v, v); (void)r.mul_up(v, v); (void)r.div_down(v, v); \
  (void)r.div_up(v, v); (void)r.sqrt_down(v); (void)r.sqrt_up(v); (void)r.int_down(v); (void)r.int_up(v); (void)r.median(v, v); (void)r.conv_down(n); (void)r.conv_up(n); }
  ARI(rounded_arith_exact<T>) ARI(rounded_arith_std<T>) ARI(rounded_arith_opp<T>)
#elif WITNESS == 20
  struct Y : rounding_control<T> { void init() { } };
#define TRA(C) { C r; (void)r.exp_down(v); (void)r.exp_up(v); (void)r.log_down(v); (void)r.sin_up(v); (void)r.cos_down(v); (void)r.tan_up(v); (void)r.asin_down(v); (void)r.acos_up(v); (void)r.atan_down(v); \
  (void)r.sinh_up(v); (void)r.cosh_down(v); (void)r.tanh_up(v); (void)r.asinh_down(v); (void)r.acosh_up(v); (void)r.atanh_down(v); }
  struct Z : Y { }; typedef rounded_transc_exact<T, Z> A; typedef rounded_transc_std<T, Z> B; typedef rounded_transc_opp<T, Z> C; TRA(A) TRA(B) TRA(C)
#elif WITNESS == 21
#define HW(t) { rounded_math<t> r; (void)r.add_down(t(1), t(2)); (void)r.add_up(t(1), t(2)); (void)r.sqrt_down(t(2)); (void)r.int_up(t(2)); (void)r.median(t(1), t(2)); (void)r.conv_up(1); }
  HW(float) HW(double) typedef long double L; HW(L)
#elif WITNESS == 22
  (void)cerlt(x, y); (void)posne(x, v); { using namespace compare::certain; RELS } { using namespace compare::set; RELS } { using namespace compare::lexicographic; RELS } { using namespace compare::possible; RELS }
#endif
}
