// The documented interface, instantiated for the built-in base types; every expression must have the documented type.
#include <boost/numeric/interval.hpp>
#if WITNESS == 4
#include <boost/numeric/interval/ext/integer.hpp>
#include <boost/numeric/interval/io.hpp>
#endif
#if WITNESS == 5
#include <boost/numeric/interval/limits.hpp>
#endif
#if WITNESS == 2
#include <boost/numeric/interval/compare/tribool.hpp>
#endif
#include <type_traits>
#include <utility>
#include <stdexcept>
#include <iosfwd>
#include <string>
namespace bn = boost::numeric;
namespace il = boost::numeric::interval_lib;
// the value type of an expression, and the expression itself instantiated
template<class A, class B> void same(const B&) { static_assert(std::is_same<typename std::decay<A>::type, typename std::decay<B>::type>::value, "result type"); }
#define TY(T, ...) (::same<T>(__VA_ARGS__))
#define REF(T, ...) static_assert(std::is_same<decltype(__VA_ARGS__), T>::value, "result type"); (void)(__VA_ARGS__)
template<class A, class B> void eqt() { static_assert(std::is_same<A, B>::value, "type"); }
// validity of an expression in two types
template<class...> struct vd { typedef void type; };
#define DETECT(N, ...)                                                                              \
template<class A, class B, class = void> struct N : std::false_type { };                            \
template<class A, class B> struct N<A, B, typename vd<decltype(__VA_ARGS__)>::type> : std::true_type { }
#define LA std::declval<A&>()
#define CA std::declval<const A&>()
#define CB std::declval<const B&>()
#define OFN(N, F) namespace adl { template<class A, class B> auto N(const A& a, const B& b) -> decltype(F(a, b)); } DETECT(can_##N, adl::N(CA, CB))
DETECT(can_plus, CA + CB); DETECT(can_minus, CA - CB); DETECT(can_times, CA * CB); DETECT(can_over, CA / CB);
DETECT(can_lt, CA < CB); DETECT(can_le, CA <= CB); DETECT(can_gt, CA > CB); DETECT(can_ge, CA >= CB); DETECT(can_eq, CA == CB); DETECT(can_ne, CA != CB);
DETECT(can_setlow, LA.lower() = CB); DETECT(can_setup, LA.upper() = CB); DETECT(can_setlow2, lower(LA) = CB); DETECT(can_setup2, upper(LA) = CB);
DETECT(can_low, LA.low = CB); DETECT(can_up, LA.up = CB);
DETECT(can_cassign, CA = CB); DETECT(can_cadd, CA += CB); DETECT(can_csub, CA -= CB); DETECT(can_cmul, CA *= CB); DETECT(can_cdiv, CA /= CB); DETECT(can_casgn, CA.assign(CB, CB));
DETECT(can_fmod, fmod(CA, CB)); DETECT(can_hull, hull(CA, CB)); DETECT(can_meet, intersect(CA, CB)); DETECT(can_max, bn::max(CA, CB)); DETECT(can_min, bn::min(CA, CB));
DETECT(can_div1, il::division_part1(CA, CB, std::declval<bool&>())); DETECT(can_div2, il::division_part2(CA, CB, true));
DETECT(can_mod, CA % CB); DETECT(can_ostream, std::declval<std::ostream&>() << CA); DETECT(can_call, CA());
DETECT(can_widen, widen(CA, CB)); DETECT(can_in, bn::in(CB, CA));
DETECT(can_subset, subset(CA, CB)); DETECT(can_overlap, overlap(CA, CB)); DETECT(can_equal, equal(CA, CB)); DETECT(can_psubset, proper_subset(CA, CB));
DETECT(can_cer, il::cerlt(CA, CB)); DETECT(can_pos, il::poslt(CA, CB));
#define NO(N, A, B) static_assert(!N<A, B>::value, #N " must be rejected")
#define YES(N, A, B) static_assert(N<A, B>::value, #N " must be accepted")

template<class I> void members(const I& x, const I& y, const typename I::base_type& t, const typename I::base_type& u)
{
  typedef typename I::base_type T; typedef typename I::traits_type P;
  typedef typename P::rounding R; typedef typename P::checking C;
  eqt<I, bn::interval<T, P> >(); eqt<I, bn::interval<T, il::policies<R, C> > >();
  I a, b(x), c(t), d(t, u), e = x, f = t; static_assert(std::is_convertible<T, I>::value && std::is_convertible<int, I>::value && std::is_convertible<float, I>::value, "implicit");
  REF(I&, a = x); REF(I&, a = t); a.assign(t, u); static_assert(std::is_same<decltype(a.assign(t, u)), void>::value, "assign");
  REF(I&, a += x); REF(I&, a += t); REF(I&, a -= x); REF(I&, a -= t); REF(I&, a *= x); REF(I&, a *= t); REF(I&, a /= x); REF(I&, a /= t);
  REF(const T&, x.lower()); REF(const T&, x.upper());
  TY(I, I::empty()); TY(I, I::whole()); TY(I, I::hull(t, u));
  TY(bool, x < y); TY(bool, x <= y); TY(bool, x > y); TY(bool, x >= y); TY(bool, x == y); TY(bool, x != y);
  TY(bool, x < t); TY(bool, x <= t); TY(bool, x > t); TY(bool, x >= t); TY(bool, x == t); TY(bool, x != t);
  TY(I, I(1)); TY(I, I(1.0f)); TY(I, I(1.0)); TY(I, I(1.0L)); TY(I, I(1u)); TY(I, I(1L)); TY(I, I((short)1)); TY(I, I('a'));
  TY(I, I(1, 2)); TY(I, I(1.0f, 2.0)); TY(I, I(1.0L, 2)); TY(I, I(t, 2)); TY(I, I(0, t));
  REF(I&, a = 1); REF(I&, a = 1.0f); REF(I&, a = 1.0); REF(I&, a = 1.0L); REF(I&, a = 1u);
  R rnd; typename R::unprotected_rounding inner; (void)inner; TY(T, rnd.add_down(t, u));
  (void)b; (void)c; (void)d; (void)e; (void)f;
  static_assert(std::is_copy_constructible<I>::value && std::is_default_constructible<I>::value && std::is_copy_assignable<I>::value && std::is_destructible<I>::value, "regular");
  // misuse that the interface excludes
  NO(can_setlow, I, T); NO(can_setup, I, T); NO(can_setlow2, I, T); NO(can_setup2, I, T); NO(can_low, I, T); NO(can_up, I, T);
  NO(can_cassign, I, T); NO(can_cassign, I, I); NO(can_cadd, I, T); NO(can_csub, I, T); NO(can_cmul, I, T); NO(can_cdiv, I, T); NO(can_cadd, I, I); NO(can_csub, I, I); NO(can_cmul, I, I); NO(can_cdiv, I, I); NO(can_casgn, I, T);
  static_assert(!std::is_convertible<I, T>::value && !std::is_convertible<I, bool>::value && !std::is_constructible<bool, I>::value && !std::is_constructible<T, I>::value
    && !std::is_convertible<I, int>::value && !std::is_constructible<int, I>::value && !std::is_convertible<I, float>::value, "an interval is no number");
  NO(can_mod, I, I); NO(can_mod, I, T); NO(can_call, I, I);
  static_assert(!std::is_base_of<I, I&>::value, "");
}
template<class I> void functions(const I& x, const I& y, const typename I::base_type& t, const typename I::base_type& u, int n)
{
  typedef typename I::base_type T;
  TY(I, +x); TY(I, -x); TY(I, x + y); TY(I, x + t); TY(I, t + x); TY(I, x - y); TY(I, x - t); TY(I, t - x);
  TY(I, x * y); TY(I, x * t); TY(I, t * x); TY(I, x / y); TY(I, x / t); TY(I, t / x);
  TY(T, lower(x)); TY(T, upper(x)); TY(T, checked_lower(x)); TY(T, checked_upper(x)); TY(T, width(x)); TY(T, median(x)); TY(I, widen(x, t)); TY(T, norm(x));
  TY(bool, empty(x)); TY(bool, singleton(x)); TY(bool, zero_in(x)); TY(bool, in_zero(x)); TY(bool, bn::in(t, x)); TY(bool, equal(x, y)); TY(bool, subset(x, y)); TY(bool, proper_subset(x, y)); TY(bool, overlap(x, y));
  TY(I, intersect(x, y)); TY(I, hull(x, y)); TY(I, hull(x, t)); TY(I, hull(t, x)); TY(bn::interval<T>, bn::hull(t, u)); 
  typedef std::pair<I, I> II; TY(II, bisect(x));
  TY(I, abs(x)); TY(I, bn::max(x, y)); TY(I, bn::max(x, t)); TY(I, bn::max(t, x)); TY(I, bn::min(x, y)); TY(I, bn::min(x, t)); TY(I, bn::min(t, x));
  TY(I, square(x)); TY(I, pow(x, n)); TY(I, nth_root(x, n)); TY(I, sqrt(x)); TY(I, fmod(x, y)); TY(I, fmod(x, t)); TY(I, fmod(t, x));
  bool r = false; TY(I, il::division_part1(x, y, r)); TY(I, il::division_part2(x, y, r)); TY(I, il::division_part2(x, y)); TY(I, il::multiplicative_inverse(x));
  TY(I, il::add<I>(t, u)); TY(I, il::sub<I>(t, u)); TY(I, il::mul<I>(t, u)); TY(I, il::div<I>(t, u));
  TY(I, il::pi<I>()); TY(I, il::pi_half<I>()); TY(I, il::pi_twice<I>());
  TY(bool, il::user::is_zero(t)); TY(bool, il::user::is_neg(t)); TY(bool, il::user::is_pos(t));
  TY(I, bn::abs(x)); TY(I, bn::square(x)); TY(I, bn::pow(x, n)); TY(I, bn::sqrt(x)); TY(I, bn::fmod(x, y)); TY(I, bn::nth_root(x, n)); TY(T, bn::lower(x)); TY(T, bn::upper(x));
}
template<class I> void transc(const I& x)
{
#define F(f) TY(I, f(x)); TY(I, bn::f(x));
  F(exp) F(log) F(sin) F(cos) F(tan) F(asin) F(acos) F(atan) F(sinh) F(cosh) F(tanh) F(asinh) F(acosh) F(atanh)
#undef F
}
template<class R, class X, class Y> void relations(const X& x, const Y& y)
{
#define SIX(R) TY(R, x < y); TY(R, x <= y); TY(R, x > y); TY(R, x >= y); TY(R, x == y); TY(R, x != y);
  { using namespace il::compare::certain; SIX(bool) }
  { using namespace il::compare::possible; SIX(bool) }
  { using namespace il::compare::lexicographic; SIX(bool) }
  { using namespace il::compare::set; SIX(bool) }
#if WITNESS == 2
  { using namespace il::compare::tribool; SIX(boost::logic::tribool) }
#endif
}
template<class X, class Y> void explicits(const X& x, const Y& y)
{
#define X6(p) TY(bool, il::p##lt(x, y)); TY(bool, il::p##le(x, y)); TY(bool, il::p##gt(x, y)); TY(bool, il::p##ge(x, y)); TY(bool, il::p##eq(x, y)); TY(bool, il::p##ne(x, y));
  X6(cer) X6(pos)
}
template<class I> void compares(const I& x, const I& y, const typename I::base_type& t)
{ relations<bool>(x, y); relations<bool>(x, t); explicits(x, y); explicits(x, t); explicits(t, x); }
// two policies over one base type
template<class I, class J> void mixed(const I& x, const J& y)
{
  I a(y), b = y; REF(I&, a = y); REF(I&, a += I(y)); (void)b;
  static_assert(std::is_convertible<J, I>::value, "policies convert");
  TY(bool, x < y); TY(bool, x <= y); TY(bool, x > y); TY(bool, x >= y); TY(bool, x == y); TY(bool, x != y);
  TY(bool, equal(x, y)); TY(bool, subset(x, y)); TY(bool, proper_subset(x, y)); TY(bool, overlap(x, y));
  relations<bool>(x, y); explicits(x, y);
  // the result would have to pick one of the policies
  NO(can_plus, I, J); NO(can_minus, I, J); NO(can_times, I, J); NO(can_over, I, J); NO(can_fmod, I, J);
  NO(can_hull, I, J); NO(can_meet, I, J); NO(can_max, I, J); NO(can_min, I, J); NO(can_div1, I, J); NO(can_div2, I, J);
  YES(can_plus, I, I); YES(can_minus, I, I); YES(can_times, I, I); YES(can_over, I, I); YES(can_fmod, I, I);
  YES(can_hull, I, I); YES(can_meet, I, I); YES(can_max, I, I); YES(can_min, I, I); YES(can_div1, I, I); YES(can_div2, I, I);
}
// two base types
template<class I, class J> void based(const I&, const J& y)
{
  I a(y), b = y; REF(I&, a = y); (void)b; I c(y.lower()), d(y.lower(), y.upper()); (void)c; (void)d; REF(I&, a = y.upper());
  typedef typename J::base_type U;
  NO(can_plus, I, J); NO(can_minus, I, J); NO(can_times, I, J); NO(can_over, I, J); NO(can_fmod, I, J); NO(can_plus, I, U); NO(can_plus, U, I); NO(can_minus, I, U); NO(can_times, I, U); NO(can_over, U, I);
  NO(can_hull, I, J); NO(can_meet, I, J); NO(can_max, I, J); NO(can_min, I, J); NO(can_div1, I, J); NO(can_div2, I, J); NO(can_hull, I, U); NO(can_max, I, U);
  NO(can_lt, I, J); NO(can_le, I, J); NO(can_gt, I, J); NO(can_ge, I, J); NO(can_eq, I, J); NO(can_ne, I, J);
  NO(can_subset, I, J); NO(can_psubset, I, J); NO(can_overlap, I, J); NO(can_equal, I, J); NO(can_cer, I, J); NO(can_pos, I, J); NO(can_widen, I, U); NO(can_in, I, U);
  YES(can_subset, I, I); YES(can_psubset, I, I); YES(can_overlap, I, I); YES(can_equal, I, I); YES(can_cer, I, I); YES(can_pos, I, I);
}
#define SS(A) il::save_state<A >
#define NS(A) il::save_state_nothing<A >
#define IV(T, R, C) bn::interval<T, il::policies<R, il::C<T> > >
#define CATCH(T) il::checking_catch_nan<T, il::checking_no_empty<T> >
template<class T> struct Types {
  typedef bn::interval<T> D;                                                           // default
  typedef IV(T, il::rounded_math<T>, checking_base) B;
  typedef IV(T, SS(il::rounded_transc_std<T>), checking_base) S;
  typedef IV(T, SS(il::rounded_transc_opp<T>), checking_strict) O;
  typedef IV(T, NS(il::rounded_transc_exact<T>), checking_no_nan) E;
  typedef bn::interval<T, il::policies<SS(il::rounded_transc_opp<T>), CATCH(T) > > C;
  typedef bn::interval<T, il::policies<SS(il::rounded_arith_std<T>), il::checking_catch_nan<T> > > A;
  typedef bn::interval<T, il::policies<NS(il::rounded_arith_exact<T>), il::checking_no_empty<T, il::checking_base<T>, il::exception_create_empty> > > X;
  typedef typename il::unprotect<D>::type UD; typedef typename il::unprotect<S>::type US; typedef typename il::unprotect<E>::type UE;
};
#define ALL(T, M) M(Types<T>::D) M(Types<T>::B) M(Types<T>::S) M(Types<T>::O) M(Types<T>::E) M(Types<T>::C) M(Types<T>::A) M(Types<T>::X) M(Types<T>::UD) M(Types<T>::US) M(Types<T>::UE)
#define TRANSC(T, M) M(Types<T>::S) M(Types<T>::O) M(Types<T>::E) M(Types<T>::C) M(Types<T>::US) M(Types<T>::UE)
#define EACH(G, M) G(float, M) G(double, M) G(long double, M)
template<class X> X mk();
#define INST(...) namespace { void inst() { __VA_ARGS__ } } void (*use_inst)() = inst;
#define INST2(...) namespace { void inst2() { __VA_ARGS__ } } void (*use_inst2)() = inst2;
#if WITNESS == 1
#define M1(I) members<I >(mk<I >(), mk<I >(), mk<I::base_type>(), mk<I::base_type>()); functions<I >(mk<I >(), mk<I >(), mk<I::base_type>(), mk<I::base_type>(), 2);
INST(EACH(ALL, M1))
#define M2(I) transc<I >(mk<I >());
INST2(EACH(TRANSC, M2))
#elif WITNESS == 2 || WITNESS == 6
#define M1(I) compares<I >(mk<I >(), mk<I >(), mk<I::base_type>());
INST(EACH(ALL, M1))
#elif WITNESS == 3
#define MM(I, J) mixed<I, J >(mk<I >(), mk<J >()); mixed<J, I >(mk<J >(), mk<I >());
#define M1(T) MM(Types<T>::D, Types<T>::B) MM(Types<T>::D, Types<T>::S) MM(Types<T>::S, Types<T>::C) MM(Types<T>::O, Types<T>::E) MM(Types<T>::A, Types<T>::X) MM(Types<T>::D, Types<T>::UD) MM(Types<T>::S, Types<T>::US)
INST(M1(float) M1(double) M1(long double))
#define BB(I, J) based<I, J >(mk<I >(), mk<J >()); based<J, I >(mk<J >(), mk<I >());
#define M2(T1, T2) BB(Types<T1>::D, Types<T2>::D) BB(Types<T1>::B, Types<T2>::B) BB(Types<T1>::S, Types<T2>::E) BB(Types<T1>::A, Types<T2>::X) BB(Types<T1>::D, Types<T2>::UD)
INST2(M2(float, double) M2(double, long double) M2(float, long double))
// integers and streams need their own headers
typedef Types<double>::D D; typedef Types<float>::D F;
#define NOI(I) NO(can_plus, I, int); NO(can_plus, int, I); NO(can_minus, I, int); NO(can_minus, int, I); NO(can_times, I, int); NO(can_times, int, I); NO(can_over, I, int); NO(can_over, int, I); NO(can_ostream, I, I);
void noint() { NOI(D) NOI(F) NOI(Types<long double>::D) YES(can_plus, D, double); YES(can_plus, double, D); YES(can_over, double, D); }
#elif WITNESS == 4
template<class I> void ints(const I& x, int n, std::ostream& o, std::wostream& w)
{
  TY(I, x + n); TY(I, n + x); TY(I, x - n); TY(I, n - x); TY(I, x * n); TY(I, n * x); TY(I, x / n); TY(I, n / x); TY(I, 1 / (2 * x + 1) - 3);
  REF(std::ostream&, o << x); REF(std::wostream&, w << x.lower()); REF(std::ostream&, o << x << x << "" << x.lower());
}
#define M1(I) ints<I >(mk<I >(), 2, mk<std::ostream&>(), mk<std::wostream&>());
INST(EACH(ALL, M1))
#elif WITNESS == 5
template<class I, class = void> struct has_round_error : std::false_type { };
template<class I> struct has_round_error<I, typename vd<decltype(std::numeric_limits<I>::round_error())>::type> : std::true_type { };
template<class I> void limits()
{
  typedef std::numeric_limits<I> L; typedef typename I::base_type T; typedef std::numeric_limits<T> B;
  static_assert(L::is_specialized, "is_specialized");
  static_assert(L::digits == B::digits && L::digits10 == B::digits10 && L::radix == B::radix && L::is_signed == B::is_signed && L::is_integer == B::is_integer && L::is_exact == B::is_exact, "as the base type");
  static_assert(L::min_exponent == B::min_exponent && L::max_exponent == B::max_exponent && L::min_exponent10 == B::min_exponent10 && L::max_exponent10 == B::max_exponent10, "as the base type");
  static_assert(L::has_infinity == B::has_infinity && L::has_quiet_NaN == B::has_quiet_NaN && L::has_signaling_NaN == B::has_signaling_NaN && L::has_denorm == B::has_denorm && L::is_bounded == B::is_bounded, "as the base type");
  static_assert(!L::is_iec559 && L::round_style == std::round_indeterminate, "an interval is no IEC 559 number");
  TY(I, (L::min)()); TY(I, (L::max)()); TY(I, L::epsilon()); TY(I, L::infinity()); TY(I, L::quiet_NaN()); TY(I, L::signaling_NaN()); TY(I, L::denorm_min());
  static_assert(!has_round_error<I>::value, "round_error is not available");
  static_assert(has_round_error<T>::value, "twin");
}
#define M1(I) limits<I >();
INST(EACH(ALL, M1))
#elif WITNESS == 7
// policy manipulation and the documented class hierarchy
template<class T> void policy()
{
  typedef bn::interval<T> D; typedef typename D::traits_type P; typedef typename P::rounding R; typedef typename P::checking C;
  eqt<typename D::base_type, T>(); eqt<P, typename il::default_policies<T>::type>(); eqt<R, il::rounded_math<T> >(); eqt<C, il::checking_strict<T> >();
  eqt<P, il::policies<il::rounded_math<T>, il::checking_strict<T> > >();
  eqt<typename il::policies<int, char>::rounding, int>(); eqt<typename il::policies<int, char>::checking, char>();
  typedef il::save_state_nothing<il::rounded_arith_exact<T> > X; typedef il::checking_base<T> K;
  eqt<typename il::change_rounding<D, X>::type, bn::interval<T, il::policies<X, C> > >();
  eqt<typename il::change_checking<D, K>::type, bn::interval<T, il::policies<R, K> > >();
  eqt<typename il::change_checking<typename il::change_rounding<D, X>::type, K>::type, bn::interval<T, il::policies<X, K> > >();
  eqt<typename il::unprotect<D>::type, bn::interval<T, il::policies<typename R::unprotected_rounding, C> > >();
  eqt<typename X::unprotected_rounding, X>();
  static_assert(std::is_base_of<il::rounding_control<T>, R>::value && std::is_base_of<il::rounded_arith_opp<T>, R>::value && std::is_base_of<il::save_state<il::rounded_arith_opp<T> >, R>::value, "rounded_math");
  static_assert(std::is_base_of<il::rounded_arith_opp<T>, typename R::unprotected_rounding>::value, "unprotected keeps the arithmetic");
  static_assert(std::is_base_of<il::rounded_arith_std<T>, il::rounded_transc_std<T> >::value && std::is_base_of<il::rounded_arith_opp<T>, il::rounded_transc_opp<T> >::value && std::is_base_of<il::rounded_arith_exact<T>, il::rounded_transc_exact<T> >::value, "default layers");
  static_assert(std::is_base_of<il::rounding_control<T>, il::rounded_arith_std<T> >::value && std::is_base_of<il::rounding_control<T>, il::rounded_arith_exact<T> >::value, "default layers");
  static_assert(std::is_base_of<K, il::checking_no_empty<T> >::value && std::is_base_of<K, il::checking_no_nan<T> >::value && std::is_base_of<K, il::checking_catch_nan<T> >::value && std::is_base_of<il::checking_no_empty<T>, C>::value, "checking defaults");
  typedef typename R::unprotected_rounding U; typedef typename U::unprotected_rounding UU; (void)sizeof(UU);
}
template void policy<float>(); template void policy<double>(); template void policy<long double>();
static_assert(std::is_base_of<std::runtime_error, il::comparison_error>::value, "comparison_error");
struct my { }; static_assert(std::is_base_of<il::rounded_arith_exact<my>, il::rounded_math<my> >::value && std::is_base_of<il::save_state_nothing<il::rounded_arith_exact<my> >, il::rounded_math<my> >::value, "default rounding of other types");
void excs() { il::exception_create_empty a; il::exception_invalid_number b; static_assert(std::is_same<decltype(b()), void>::value, ""); if (sizeof(a) == 0) { a(); b(); } }
#elif WITNESS == 8
// other numeric base types: integers without infinities, with the default policies
template void members<bn::interval<int> >(const bn::interval<int>&, const bn::interval<int>&, const int&, const int&);
template void compares<bn::interval<int> >(const bn::interval<int>&, const bn::interval<int>&, const int&);
void w(const bn::interval<int>& x) { TY(bn::interval<int>, x + x); TY(bn::interval<int>, x + 1); TY(bn::interval<int>, 1 - x); TY(bn::interval<int>, x * x); TY(bn::interval<int>, abs(x)); TY(bn::interval<int>, square(x)); TY(bn::interval<int>, pow(x, 2)); TY(bool, subset(x, x)); TY(int, width(x)); TY(int, norm(x)); TY(int, median(x)); }
#elif WITNESS == 99
template<class T> void dummy(const T& t) { il::rounded_transc_dummy<T, il::rounded_arith_exact<T> > r; TY(T, r.cos_down(t)); TY(T, r.exp_up(t)); }
template void dummy<double>(const double&);
#elif WITNESS == 98
#include <istream>
template<class T> void extract(std::istream& s, boost::numeric::interval<T>& x) { s >> x; }
template void extract<double>(std::istream&, boost::numeric::interval<double>&);
#endif
