"""Internal names changed, standard algorithms, guard objects, goto, local tables, other spellings."""
A = "arith.hpp"; D = "detail/division.hpp"; A2 = "arith2.hpp"; U = "utility.hpp"; I = "interval.hpp"; T = "transc.hpp"
EDITS = []
def e(f, old, new, n=1): EDITS.append((f, old, new, n))

e(A, """  typename Policies::rounding rnd;
  return interval<T,Policies>(rnd.add_down(x.lower(), y.lower()),
                              rnd.add_up  (x.upper(), y.upper()), true);
""", """  typename Policies::rounding rnd;
  interval<T,Policies> res(x.lower(), x.upper(), true);
  res.set(rnd.add_down(res.lower(), y.lower()), rnd.add_up(res.upper(), y.upper()));
  return res;
""")
e(A, """  typename Policies::rounding rnd;
  return interval<T,Policies>(rnd.sub_down(x, y.upper()),
                              rnd.sub_up  (x, y.lower()), true);
""", """  // x - y == -(y - x)
  return -(y - x);
""")
e(A, """template<class T, class Policies> inline
interval<T, Policies> operator*(const interval<T, Policies>& x,
                                const interval<T, Policies>& y)
{
""", """namespace interval_lib {
namespace detail {

// neither operand contains zero in its interior; both non-negative after reflection
template<class I, class R> inline
I mul_reflected(const I& x, const I& y, R& rnd)
{
  return I(rnd.mul_down(x.lower(), y.lower()), rnd.mul_up(x.upper(), y.upper()), true);
}

template<class I> inline
I reflect(const I& x, bool b)
{
  if (!b) return x;
  return I(-x.upper(), -x.lower(), true);
}

} // namespace detail
} // namespace interval_lib

template<class T, class Policies> inline
interval<T, Policies> operator*(const interval<T, Policies>& x,
                                const interval<T, Policies>& y)
{
""")
e(A, "@@re:  if \\(interval_lib::user::is_neg\\(xl\\)\\)\\n    if \\(interval_lib::user::is_pos\\(xu\\)\\)\\n.*?else +// Z \\* \\?\\n      return I\\(static_cast<T>\\(0\\), static_cast<T>\\(0\\), true\\);\\n",
"""  static const int contains_both = 3;
  const bool xn = interval_lib::user::is_neg(xl), xp = interval_lib::user::is_pos(xu);
  const bool yn = interval_lib::user::is_neg(yl), yp = interval_lib::user::is_pos(yu);
  if (!(xn | xp) || !(yn | yp))
    goto zero;
  if ((xn | (xp << 1)) == contains_both) {
    if (yn && yp)
      return I(min BOOST_PREVENT_MACRO_SUBSTITUTION(rnd.mul_down(xl, yu), rnd.mul_down(xu, yl)),
               max BOOST_PREVENT_MACRO_SUBSTITUTION(rnd.mul_up  (xl, yl), rnd.mul_up  (xu, yu)), true);
    const I r = interval_lib::detail::reflect(x, yn);
    const T m = yn ? static_cast<T>(-yl) : yu;
    return I(rnd.mul_down(r.lower(), m), rnd.mul_up(r.upper(), m), true);
  }
  if (yn && yp)
    return y * x;
  {
    const I p = interval_lib::detail::mul_reflected(interval_lib::detail::reflect(x, xn), interval_lib::detail::reflect(y, yn), rnd);
    if (xn == yn) return p;
    // the bounds of the reflected product are rounded outwards as well
    return I(-p.upper(), -p.lower(), true);
  }
zero:
  return I(static_cast<T>(0), static_cast<T>(0), true);
""")
for f in (A, A2, D):
    e(f, "@@re:\\bdiv_non_zero\\b", "quotient_regular", 0)
    e(f, "@@re:\\bdiv_positive\\b", "quotient_by_positive", 0)
    e(f, "@@re:\\bdiv_negative\\b", "quotient_by_negative", 0)
for f in (A, D):
    e(f, "@@re:\\bdiv_zero\\b", "quotient_whole", 0)
e(A2, "@@re:\\bpow_dn\\b", "power_toward_zero", 0)
e(A2, "@@re:\\bpow_up\\b", "power_away", 0)
e(A2, "@@re:\\broot_aux\\b", "newton_root", 0)
e(A2, "@@re:\\broot_aux_dn\\b", "nth_root_lower", 0)
e(A2, "@@re:\\broot_aux_up\\b", "nth_root_upper", 0)
e(I, "@@re:\\binterval_holder\\b", "iv_ref", 0)
e(I, "@@re:\\bnumber_holder\\b", "num_ref", 0)
for f in (I, A):
    e(f, "@@re:\\bup\\b", "m_upper", 0)
    e(f, "@@re:\\blow\\b", "m_lower", 0)
e("rounding.hpp", "@@re:\\bsave_state_unprotected\\b", "no_state", 0)
# arith2
e(A2, """  while (pwr > 0) {
    x = rnd.mul_down(x, x);
    if (pwr & 1) y = rnd.mul_down(x, y);
    pwr >>= 1;
  }
""", """  for (; pwr > 0; pwr >>= 1) {
    x = rnd.mul_down(x, x);
    y = (pwr & 1) ? rnd.mul_down(x, y) : y;
  }
""")
e(A2, """  while (pwr > 0) {
    x = rnd.mul_up(x, x);
    if (pwr & 1) y = rnd.mul_up(x, y);
    pwr >>= 1;
  }
""", """  do {
    if (pwr == 0) break;
    x = rnd.mul_up(x, x);
    if ((pwr & 1) == 1) y = rnd.mul_up(x, y);
    pwr >>= 1;
  } while (true);
""")
e(A2, """  for(;;) {
    T y0 = median(y);
    I yy = intersect(y, y0 - (pow(I(y0, y0, true), k) - x) / (tk * pow(y, k - 1)));
    if (equal(y, yy)) return y;
    y = yy;
  }
""", """  I slope(y), residual(y), mid(y);
  while (true) {
    const T y0 = median(y);
    mid = I(y0, y0, true);
    residual = pow(mid, k);
    residual -= x;
    slope = pow(y, k - 1);
    slope = tk * slope;
    const I step = residual / slope;
    const I cand = mid - step;
    const I next = intersect(cand, y);
    if (!equal(next, y)) { y = next; continue; }
    break;
  }
  return y;
""")
e(A2, """  typename Policies::rounding rnd;
  (void)&rnd; // it only protects the computations on R
  typedef typename interval_lib::unprotect<I>::type R;
  if (!interval_lib::user::is_pos(x.upper())) {
""", """  typename Policies::rounding rnd;
  (void)&rnd; // it only protects the computations on R
  typedef typename interval_lib::unprotect<I>::type R;
  const bool odd = k % 2 != 0;
  if (interval_lib::user::is_pos(x.lower())) { // [1,2]
    const T hi = interval_lib::detail::nth_root_upper<R>(x.upper(), k);
    const T lo = interval_lib::detail::nth_root_lower<R>(x.lower(), k);
    return I(lo, hi, true);
  }
  if (interval_lib::user::is_neg(x.upper())) {
    if (!odd) return I::empty();
    const I pos = nth_root(I(-x.upper(), -x.lower(), true), k);
    return -pos;
  }
  if (!interval_lib::user::is_pos(x.upper())) {
""")
# utility
e(U, """  if (empty(x)) return empty(y);
  return !empty(y) && x.lower() == y.lower() && x.upper() == y.upper();
""", """  return subset(x, y) && subset(y, x);
""")
e(U, """  const T& l = max BOOST_PREVENT_MACRO_SUBSTITUTION(x.lower(), y.lower());
  const T& u = min BOOST_PREVENT_MACRO_SUBSTITUTION(x.upper(), y.upper());
  if (l <= u) return interval<T, Policies>(l, u, true);
  else        return interval<T, Policies>::empty();
""", """  if (!overlap(x, y))
    return interval<T, Policies>::empty();
  T l = x.lower(), u = x.upper();
  if (l < y.lower()) l = y.lower();
  if (u > y.upper()) u = y.upper();
  return interval<T, Policies>(l, u, true);
""")
e(U, """  bool bad_x = interval_lib::detail::test_input<T, Policies>(x);
  bool bad_y = interval_lib::detail::test_input(y);
  if (bad_x)
    if (bad_y) return interval<T, Policies>::empty();
    else       return y;
  else
    if (bad_y) return interval<T, Policies>(x, x, true);
  return interval<T, Policies>(min BOOST_PREVENT_MACRO_SUBSTITUTION(x, y.lower()),
                               max BOOST_PREVENT_MACRO_SUBSTITUTION(x, y.upper()), true);
""", """  return hull(y, x);
""")
e(U, """  if (!interval_lib::user::is_neg(x.lower())) return x;
  if (!interval_lib::user::is_pos(x.upper())) return I(-x.upper(), -x.lower(), true);
""", """  if (!interval_lib::user::is_pos(x.upper())) return I(-x.upper(), -x.lower(), true);
  if (!interval_lib::user::is_neg(x.lower())) return I(x.lower(), x.upper(), true);
""")
e(U, """  BOOST_USING_STD_MAX();
  return I(max BOOST_PREVENT_MACRO_SUBSTITUTION(x.lower(), y), max BOOST_PREVENT_MACRO_SUBSTITUTION(x.upper(), y), true);
""", """  return y <= x.lower() ? x : y >= x.upper() ? I(y, y, true) : I(y, x.upper(), true);
""")
e(U, """  BOOST_USING_STD_MIN();
  return I(min BOOST_PREVENT_MACRO_SUBSTITUTION(x.lower(), y.lower()), min BOOST_PREVENT_MACRO_SUBSTITUTION(x.upper(), y.upper()), true);
""", """  const I m = max BOOST_PREVENT_MACRO_SUBSTITUTION (I(-x.upper(), -x.lower(), true), I(-y.upper(), -y.lower(), true));
  return I(-m.upper(), -m.lower(), true);
""")
e(U, """  if (empty(x)) {
    typedef typename Policies::checking checking;
    return checking::nan();
  }
  return x.lower();
""", """  typedef typename Policies::checking checking;
  return empty(x) ? checking::nan() : x.lower();
""")
e(U, """ return !empty(x) && x.lower() == x.upper();
""", """  if (empty(x)) return false;
  return x.lower() >= x.upper();
""")
# interval
e(I, """  bool bad_x = checking::is_nan(x);
  bool bad_y = checking::is_nan(y);
  if (bad_x)
    if (bad_y) return interval::empty();
    else       return interval(y, y, true);
  else
    if (bad_y) return interval(x, x, true);
  if (x <= y) return interval(x, y, true);
  else        return interval(y, x, true);
""", """  const bool bad[2] = { checking::is_nan(x), checking::is_nan(y) };
  if (bad[0] & bad[1]) return interval::empty();
  interval r(bad[0] ? y : x, bad[0] ? y : x, true);
  if (!bad[0] && !bad[1]) {
    if (y < x) r.m_lower = y;
    else       r.m_upper = y;
  }
  return r;
""")
e(I, """  typedef typename Policies1::checking checking1;
  if (checking1::is_empty(r.lower(), r.upper())) set_empty();
  else {
    rounding rnd;
    m_lower = rnd.conv_down(r.lower());
    m_upper  = rnd.conv_up  (r.upper());
  }
  return *this;
""", """  interval const t(r);
  return *this = t;
""")
# transc
e(T, """  T l = (x.lower() <= static_cast<T>(-1))
             ? -interval_lib::constants::pi_half_upper<T>()
             : rnd.asin_down(x.lower());
  T u = (x.upper() >= static_cast<T>(1) )
             ?  interval_lib::constants::pi_half_upper<T>()
             : rnd.asin_up  (x.upper());
  return I(l, u, true);
""", """  const T b[2] = { x.lower(), x.upper() };
  T r[2];
  for (int i = 0; i < 2; ++i) {
    if (b[i] <= static_cast<T>(-1) && i == 0)
      r[i] = -interval_lib::constants::pi_half_upper<T>();
    else if (b[i] >= static_cast<T>(1) && i == 1)
      r[i] = interval_lib::constants::pi_half_upper<T>();
    else
      r[i] = i ? rnd.asin_up(b[i]) : rnd.asin_down(b[i]);
  }
  return I(r[0], r[1], true);
""")
e(T, """  const R pi2 = interval_lib::pi_twice<R>();
  R tmp = fmod((const R&)x, pi2);
  if (width(tmp) >= pi2.lower())
    return I(static_cast<T>(-1), static_cast<T>(1), true); // we are covering a full period
""", """  const R pi2 = interval_lib::pi_twice<R>();
  const I all(static_cast<T>(-1), static_cast<T>(1), true);
  const R xr(x.lower(), x.upper(), true);
  R tmp = fmod(xr, pi2);
  if (width(tmp) >= pi2.lower())
    return all; // we are covering a full period
""")
e(T, """  return I(rnd.exp_down(x.lower()), rnd.exp_up(x.upper()), true);
""", """  T u = x.upper();
  u = rnd.exp_up(u);
  T l = x.lower();
  l = rnd.exp_down(l);
  return I(l, u, true);
""")
e(T, """  if (interval_lib::detail::test_input(x)
     || x.upper() < static_cast<T>(-1) || x.lower() > static_cast<T>(1))
    return I::empty();
  typename Policies::rounding rnd;
  T l = (x.upper() >= static_cast<T>(1) )
""", """  if (interval_lib::detail::test_input(x) || !overlap(x, I(static_cast<T>(-1), static_cast<T>(1), true)))
    return I::empty();
  typename Policies::rounding rnd;
  T l = (x.upper() >= static_cast<T>(1) )
""")
# rounding
e("rounded_arith.hpp", """template<class T, class Rounding>
struct rounded_arith_opp: Rounding {
  void init() { this->upward(); }
# define BOOST_DN(EXPR) \\
    this->downward(); \\
    T r = this->force_rounding(EXPR); \\
    this->upward(); \\
    return r
# define BOOST_NR(EXPR) \\
    this->to_nearest(); \\
    T r = this->force_rounding(EXPR); \\
    this->upward(); \\
    return r
""", """template<class T, class Rounding>
struct rounded_arith_opp: Rounding {
  void init() { this->upward(); }
  struct back_up {
    Rounding& r;
    explicit back_up(Rounding& r_): r(r_) {}
    ~back_up() { r.upward(); }
  };
# define BOOST_DN(EXPR) \\
    back_up guard_(*this); \\
    this->downward(); \\
    return this->force_rounding(EXPR)
# define BOOST_NR(EXPR) \\
    back_up guard_(*this); \\
    this->to_nearest(); \\
    return this->force_rounding(EXPR)
""")
e("rounded_transc.hpp", """    T f##_down(const T& x) \\
    { BOOST_NUMERIC_INTERVAL_using_math(f); \\
      this->downward(); return this->force_rounding(f(x)); } \\
    T f##_up  (const T& x) \\
    { BOOST_NUMERIC_INTERVAL_using_math(f); \\
      this->upward(); return this->force_rounding(f(x)); }
""", """    T f##_value(const T& x) \\
    { BOOST_NUMERIC_INTERVAL_using_math(f); return this->force_rounding(f(x)); } \\
    T f##_down(const T& x) { this->downward(); return f##_value(x); } \\
    T f##_up  (const T& x) { this->upward();   return f##_value(x); }
""")
e("checking.hpp", """  static T pos_inf()
  {
    assert(std::numeric_limits<T>::has_infinity);
    return std::numeric_limits<T>::infinity();
  }
  static T neg_inf()
  {
    assert(std::numeric_limits<T>::has_infinity);
    return -std::numeric_limits<T>::infinity();
  }
""", """  typedef std::numeric_limits<T> limits;
  static T pos_inf()
  {
    assert(limits::has_infinity);
    T const v = limits::infinity();
    return v;
  }
  static T neg_inf()
  {
    T const v = pos_inf();
    return -v;
  }
""")
e("checking.hpp", """    if (Checking::is_nan(x)) Exception()();
    return false;
""", """    if (!Checking::is_nan(x)) return false;
    Exception()();
    return false;
""")
e("detail/c99sub_rounding_control.hpp", """  static void downward()    { set_rounding_mode(FE_DOWNWARD);   }
  static void upward()      { set_rounding_mode(FE_UPWARD);     }
  static void to_nearest()  { set_rounding_mode(FE_TONEAREST);  }
""", """  enum { mode_down = FE_DOWNWARD, mode_up = FE_UPWARD, mode_near = FE_TONEAREST };
  static void downward()    { set_rounding_mode(mode_down); }
  static void upward()      { set_rounding_mode(mode_up);   }
  static void to_nearest()  { set_rounding_mode(mode_near); }
""")
e("detail/x86gcc_rounding_control.hpp", """  static void set_rounding_mode(const rounding_mode& mode)
  { __asm__ __volatile__ ("fldcw %0" : : "m"(mode)); }
""", """  static void set_rounding_mode(const rounding_mode& mode)
  { unsigned short cw = mode; __asm__ volatile ("fldcw %0" : : "m"(cw)); }
""")
e("detail/ppc_rounding_control.hpp", """  static void set_rounding_mode(const rounding_mode mode)
  { __asm__ __volatile__ ("mtfsf 255,%0" : : "f"(mode)); }
""", """  static void set_rounding_mode(const rounding_mode& mode)
  { double const m = mode; __asm__ __volatile__ ("mtfsf 255,%0" : : "f"(m)); }
""")
e("compare/tribool.hpp", """template<class T, class Policies1, class Policies2> inline
logic::tribool operator<(const interval<T, Policies1>& x, const interval<T, Policies2>& y)
{
  if (detail::test_input(x, y)) throw comparison_error();
  if (x.upper() < y.lower()) return true;
  if (x.lower() >= y.upper()) return false;
  return logic::indeterminate;
}
""", """template<class T> inline
logic::tribool decide(bool yes, bool no, const T*)
{
  if (yes) return logic::tribool(true);
  return no ? logic::tribool(false) : logic::tribool(logic::indeterminate);
}

template<class T, class Policies1, class Policies2> inline
logic::tribool operator<(const interval<T, Policies1>& x, const interval<T, Policies2>& y)
{
  if (detail::test_input(x, y)) throw comparison_error();
  return decide(x.upper() < y.lower(), x.lower() >= y.upper(), &x.lower());
}
""")
e("compare/lexicographic.hpp", """  return xl < yl || (xl == yl && x.upper() <= y.upper());
""", """  (void)xl; (void)yl;
  return !(y < x);
""")
e("compare/certain.hpp", """  if (detail::test_input(x, y)) throw comparison_error();
  return x.lower() > y.upper();
""", """  return y < x;
""")
e("compare/explicit.hpp", "@@re:bool cergt\\(const interval<T, Policies1>& x, const interval<T, Policies2>& y\\)\\n\\{\\n  return x.lower\\(\\) > y.upper\\(\\);", """bool cergt(const interval<T, Policies1>& x, const interval<T, Policies2>& y)
{
  return cerlt(y, x);""")
e("constants.hpp", """static const float pi_f_l = 13176794.0f/(1<<22);
""", """static const float pi_f_l = static_cast<float>(13176794) / static_cast<float>(4194304);
""")
e("constants.hpp", """template<> inline float pi_twice_lower<float>() { return pi_f_l * 2; }
""", """template<> inline float pi_twice_lower<float>() { float const p = pi_f_l; return p + p; }
""")
e("limits.hpp", """  static I infinity () BOOST_NOEXCEPT_OR_NOTHROW { return I::whole(); }
""", """  static I infinity () BOOST_NOEXCEPT_OR_NOTHROW { I const w = I::whole(); return w; }
""")
e("io.hpp", """  if (empty(value))
    return stream << "[]";
  else
    return stream << '[' << lower(value) << ',' << upper(value) << ']';
""", """  if (!empty(value)) {
    stream << '[' << lower(value);
    stream << ',';
    return stream << upper(value) << ']';
  }
  return stream << "[]";
""")
