#define BOOST_NUMERIC_INTERVAL_TEST_ARCHE
#include <boost/config.hpp>
#include "arche.hpp"
#include <boost/numeric/interval.hpp>
#include <boost/numeric/interval/io.hpp>
#include <boost/numeric/interval/compare/tribool.hpp>
#include <boost/numeric/interval/ext/integer.hpp>
#include <boost/numeric/interval/limits.hpp>
namespace bn = boost::numeric;
namespace il = boost::numeric::interval_lib;
typedef bn::interval<Num, il::policies<Rnd, Chk> > I;
typedef bn::interval<Num, il::policies<Rnd2, Chk2> > J;
template<class T> void use(const T&);

// every operation that needs no more than the ordering of the bounds and the four operations
template<class I> void basic(const I& x, const I& y, const typename I::base_type& t, const typename I::base_type& u, int n)
{
  typedef typename I::base_type T;
  I a, b(x), c(t), d(t, u); a = x; a = t; a.assign(t, u);
  use(x.lower()); use(x.upper());
  use(I::empty()); use(I::whole()); use(I::hull(t, u));
  a += x; a += t; a -= x; a -= t; a *= x; a *= t; a /= x; a /= t;
  use(+x); use(-x); use(x + y); use(x + t); use(t + x); use(x - y); use(x - t); use(t - x);
  use(x * y); use(x * t); use(t * x); use(x / y); use(x / t); use(t / x);
  use(x < y); use(x <= y); use(x > y); use(x >= y); use(x == y); use(x != y);
  use(x < t); use(x <= t); use(x > t); use(x >= t); use(x == t); use(x != t);
  use(lower(x)); use(upper(x)); use(checked_lower(x)); use(checked_upper(x)); use(width(x)); use(median(x)); use(widen(x, t)); use(norm(x));
  use(empty(x)); use(singleton(x)); use(zero_in(x)); use(in_zero(x)); use(bn::in(t, x)); use(equal(x, y)); use(subset(x, y)); use(proper_subset(x, y)); use(overlap(x, y));
  use(intersect(x, y)); use(hull(x, y)); use(hull(x, t)); use(hull(t, x)); use(bisect(x).first);
  use(abs(x)); use((bn::max)(x, y)); use((bn::max)(x, t)); use((bn::max)(t, x)); use((bn::min)(x, y)); use((bn::min)(x, t)); use((bn::min)(t, x));
  use(square(x)); use(pow(x, n)); use(nth_root(x, n)); 
  bool r; use(il::division_part1(x, y, r)); use(il::division_part2(x, y, r)); use(il::division_part2(x, y)); use(il::multiplicative_inverse(x));
  use(il::add<I>(t, u)); use(il::sub<I>(t, u)); use(il::mul<I>(t, u)); use(il::div<I>(t, u));
  use(il::pi<I>()); use(il::pi_half<I>()); use(il::pi_twice<I>());
  use(x + n); use(n + x); use(x - n); use(n - x); use(x * n); use(n * x); use(x / n); use(n / x);
  use(il::user::is_zero(t)); use(il::user::is_neg(t)); use(il::user::is_pos(t));
}
template<class I> void reals(const I& x, const I& y, const typename I::base_type& t)
{
  use(sqrt(x)); use(fmod(x, y)); use(fmod(x, t)); use(fmod(t, x));
}
template<class I> void transc(const I& x)
{
  use(exp(x)); use(log(x)); use(sin(x)); use(cos(x)); use(tan(x)); use(asin(x)); use(acos(x)); use(atan(x));
  use(sinh(x)); use(cosh(x)); use(tanh(x)); use(asinh(x)); use(acosh(x)); use(atanh(x));
}
template<class I, class J> void relations(const I& x, const J& y)
{
  { using namespace il::compare::certain; use(x < y); use(x <= y); use(x > y); use(x >= y); use(x == y); use(x != y); }
  { using namespace il::compare::possible; use(x < y); use(x <= y); use(x > y); use(x >= y); use(x == y); use(x != y); }
  { using namespace il::compare::lexicographic; use(x < y); use(x <= y); use(x > y); use(x >= y); use(x == y); use(x != y); }
  { using namespace il::compare::set; use(x < y); use(x <= y); use(x > y); use(x >= y); use(x == y); use(x != y); }
  { using namespace il::compare::tribool; use(x < y); use(x <= y); use(x > y); use(x >= y); use(x == y); use(x != y); }
}
template<class I, class J> void explicits(const I& x, const J& y)
{
  use(il::cerlt(x, y)); use(il::cerle(x, y)); use(il::cergt(x, y)); use(il::cerge(x, y)); use(il::cereq(x, y)); use(il::cerne(x, y));
  use(il::poslt(x, y)); use(il::posle(x, y)); use(il::posgt(x, y)); use(il::posge(x, y)); use(il::poseq(x, y)); use(il::posne(x, y));
}
template<class I> void compares(const I& x, const I& y, const typename I::base_type& t)
{
  relations(x, y); relations(x, t); explicits(x, y); explicits(x, t); explicits(t, x);
}
template<class I, class J> void mixed(const I& x, const J& y)
{
  I a(y); a = y;
  use(x < y); use(x <= y); use(x > y); use(x >= y); use(x == y); use(x != y);
  use(equal(x, y)); use(subset(x, y)); use(proper_subset(x, y)); use(overlap(x, y));
  relations(x, y); explicits(x, y);
}
template<class R> void rounding(const typename R::base& t) { use(t); }
// state-saving, unprotected and exact policies over a user-defined rounding control
template<class R, class T> void arithmetic(const T& t)
{
  R r; r.init();
  use(r.add_down(t, t)); use(r.add_up(t, t)); use(r.sub_down(t, t)); use(r.sub_up(t, t)); use(r.mul_down(t, t)); use(r.mul_up(t, t));
  use(r.div_down(t, t)); use(r.div_up(t, t)); use(r.median(t, t)); use(r.template conv_down<T>(t)); use(r.template conv_up<T>(t)); use(r.conv_down(0)); use(r.conv_up(0));
}
template<class R, class T> void toint(const T& t) { R r; use(r.int_down(t)); use(r.int_up(t)); }
template<class R, class T> void root(const T& t) { R r; use(r.sqrt_down(t)); use(r.sqrt_up(t)); }
template<class R, class T> void elementary(const T& t)
{
  R r;
#define E(f) use(r.f##_down(t)); use(r.f##_up(t));
  E(exp) E(log) E(sin) E(cos) E(tan) E(asin) E(acos) E(atan) E(sinh) E(cosh) E(tanh) E(asinh) E(acosh) E(atanh)
#undef E
}
template<class R> void saves() { { il::save_state<R> s; typename il::save_state<R>::unprotected_rounding u; use(sizeof(u)); }
                                 { il::save_state_nothing<R> s; typename il::save_state_nothing<R>::unprotected_rounding u; use(sizeof(u)); } }
template<class R, class T> void protects(const bn::interval<T, il::policies<il::save_state<R>, il::checking_base<T> > >& x) { use(x); }

#if WITNESS == 1
// user policies with the documented members only, base type without arithmetic operators
void w(const I& x, const I& y, const Num& t, const Num& u, int n) { basic(x, y, t, u, n); }
#elif WITNESS == 2
void w(const I& x, const I& y, const Num& t) { reals(x, y, t); transc(x); }
#elif WITNESS == 3
void w(const I& x, const I& y, const Num& t) { compares(x, y, t); }
#elif WITNESS == 4
void w(const I& x, const J& y) { mixed(x, y); mixed(y, x); }
#elif WITNESS == 5
// derived interval types
typedef il::unprotect<I>::type U; typedef il::change_rounding<I, Rnd2>::type R2; typedef il::change_checking<I, Chk2>::type C2;
void w(const U& x, const U& y, const Num& t, const R2& r, const C2& c, int n) { basic(x, y, t, t, n); reals(x, y, t); transc(x); compares(x, y, t); mixed(x, r); mixed(r, c); basic(r, r, t, t, n); basic(c, c, t, t, n); }
#elif WITNESS == 6
// the exact arithmetic with no state to save: arithmetic operators, a user checking policy
typedef bn::interval<Ari, il::policies<il::save_state_nothing<il::rounded_arith_exact<Ari> >, ChkA> > A;
void w(const A& x, const A& y, const Ari& t, const Ari& u, int n) { basic(x, y, t, u, n); compares(x, y, t); use(A(1, 2)); use(A(0)); A a; a = 1; }
#elif WITNESS == 7
// the default policies: numeric_limits with the four documented members
typedef bn::interval<Lim> L; typedef bn::interval<Lim, il::policies<il::rounded_math<Lim>, il::checking_base<Lim> > > M;
void w(const L& x, const L& y, const M& z, const Lim& t, const Lim& u, int n) { basic(x, y, t, u, n); compares(x, y, t); basic(z, z, t, u, n); compares(z, z, t); mixed(x, z); mixed(z, x); use(bn::hull(t, u)); }
#elif WITNESS == 8
// the default policies for a type with the mathematical functions
typedef bn::interval<Fun> F; typedef bn::interval<Fun, il::policies<il::save_state_nothing<il::rounded_transc_exact<Fun> >, il::checking_base<Fun> > > G;
void w(const F& x, const G& z, const Fun& t) { reals(x, x, t); reals(z, z, t); transc(z); }
#elif WITNESS == 9
// the predefined layers over a rounding control with the documented members
#define LAYER(T, S) \
  arithmetic<il::rounded_arith_##S<T, Ctl<T> > >(t); saves<il::rounded_arith_##S<T, Ctl<T> > >();
void w(const Ari& t) { LAYER(Ari, exact) LAYER(Ari, std) LAYER(Ari, opp) toint<il::rounded_arith_std<Ari, Ctl<Ari> > >(t); toint<il::rounded_arith_opp<Ari, Ctl<Ari> > >(t); }
#elif WITNESS == 10
#define ARITH(S) il::rounded_arith_##S<Fun, Ctl<Fun> >
#define FUNCS(S) { root<ARITH(S)>(t); toint<ARITH(S)>(t); elementary<il::rounded_transc_##S<Fun, ARITH(S) > >(t); \
  saves<il::rounded_transc_##S<Fun, ARITH(S) > >(); }
void w(const Fun& t) { FUNCS(exact) FUNCS(std) FUNCS(opp) }
#elif WITNESS == 11
// checking policies need the numeric limits and comparisons only; user-supplied exceptions and base checks
struct E0 { Num operator()(); }; struct E1 { void operator()(); };
template<class C, class T> void chk(const T& t) { use(C::pos_inf()); use(C::neg_inf()); use(C::nan()); use(C::is_nan(t)); use(C::empty_lower()); use(C::empty_upper()); use(C::is_empty(t, t)); }
struct LE { Lim operator()(); }; struct LX { void operator()(); };
void w(const Lim& t, const Num& u)
{
  chk<il::checking_base<Lim> >(t); chk<il::checking_no_empty<Lim> >(t); chk<il::checking_no_nan<Lim> >(t); chk<il::checking_catch_nan<Lim> >(t); chk<il::checking_strict<Lim> >(t);
  chk<il::checking_no_empty<Lim, il::checking_base<Lim>, LX> >(t); chk<il::checking_catch_nan<Lim, il::checking_no_empty<Lim>, LX> >(t);
  chk<il::checking_no_nan<Num, Chk> >(u); chk<il::checking_no_empty<Num, Chk, E1> >(u); chk<il::checking_catch_nan<Num, Chk, E1> >(u);
  chk<il::checking_catch_nan<Num, il::checking_no_empty<Num, Chk, E1>, E1> >(u);
}
#elif WITNESS == 12
// conversions go through the rounding policy alone
struct ChkS : Chk { using Chk::is_nan; static bool is_nan(const Src&); };
typedef bn::interval<Num, il::policies<Rnd, ChkS> > S;
struct SrcRnd; struct SrcChk { static bool is_empty(const Src&, const Src&); static bool is_nan(const Src&); };
typedef bn::interval<Src, il::policies<SrcRnd, SrcChk> > Q;
void w(const Src& s, const Q& q, S& x) { S a(s); x = s; S b(q); x = q; use(S(1)); x = 1; use(S(1, 2)); }
#endif
