"""Member-function pointers, functors, std::pair results, recursion, tag dispatch, RAII, std::min over lists, arithmetic instead of branches."""
A = "arith.hpp"; D = "detail/division.hpp"; A2 = "arith2.hpp"; U = "utility.hpp"; I = "interval.hpp"; T = "transc.hpp"
EDITS = []
def e(f, old, new, n=1): EDITS.append((f, old, new, n))

# multiplication: the corner of each operand is selected by pointers, the rounded products computed once at the end
e(A, "@@re:  if \\(interval_lib::user::is_neg\\(xl\\)\\)\\n    if \\(interval_lib::user::is_pos\\(xu\\)\\)\\n      if .*?    else                        // Z \\* \\?\\n      return I\\(static_cast<T>\\(0\\), static_cast<T>\\(0\\), true\\);\\n",
"""  using interval_lib::user::is_neg;
  using interval_lib::user::is_pos;
  const bool xn = is_neg(xl), xp = is_pos(xu), yn = is_neg(yl), yp = is_pos(yu);
  if (!(xn | xp) || !(yn | yp))
    return I(static_cast<T>(0), static_cast<T>(0), true);
  if (xn & xp & yn & yp) {
    const T a[2] = { rnd.mul_down(xl, yu), rnd.mul_up(xl, yl) };
    const T b[2] = { rnd.mul_down(xu, yl), rnd.mul_up(xu, yu) };
    return I(b[0] < a[0] ? b[0] : a[0], a[1] < b[1] ? b[1] : a[1], true);
  }
  // the operands that give the lower and the upper bound
  const T *lx, *ly, *ux, *uy;
  if (xn && xp)      { lx = yn ? &xu : &xl; ux = yn ? &xl : &xu; }
  else if (xn)       { lx = yp ? &xl : &xu; ux = yn ? &xl : &xu; }
  else               { lx = yn ? &xu : &xl; ux = yp ? &xu : &xl; }
  if (yn && yp)      { ly = xp ? &yl : &yu; uy = xp ? &yu : &yl; }
  else if (yn)       { ly = xp ? &yl : &yu; uy = xn ? &yl : &yu; }
  else               { ly = xn ? &yu : &yl; uy = xp ? &yu : &yl; }
  return I(rnd.mul_down(*lx, *ly), rnd.mul_up(*ux, *uy), true);
""")
# number times interval through a functor
e(A, """template<class T, class Policies> inline
interval<T, Policies> operator*(const T& x, const interval<T, Policies>& y)
{ 
""", """namespace interval_lib {
namespace detail {

template<class T, class Policies>
struct scale_by {
  typedef interval<T, Policies> I;
  explicit scale_by(const T& factor): k(factor), negative(user::is_neg(factor)) {}
  I operator()(const T& l, const T& u) const {
    typename Policies::rounding rnd;
    return negative ? I(rnd.mul_down(k, u), rnd.mul_up(k, l), true)
                    : I(rnd.mul_down(k, l), rnd.mul_up(k, u), true);
  }
private:
  const T& k;
  const bool negative;
};

} // namespace detail
} // namespace interval_lib

template<class T, class Policies> inline
interval<T, Policies> operator*(const T& x, const interval<T, Policies>& y)
{ 
""")
e(A, """  typename Policies::rounding rnd;
  const T& yl = y.lower();
  const T& yu = y.upper();
  // x is supposed not to be infinite
  if (interval_lib::user::is_neg(x))
    return I(rnd.mul_down(x, yu), rnd.mul_up(x, yl), true);
  else if (interval_lib::user::is_zero(x))
    return I(static_cast<T>(0), static_cast<T>(0), true);
  else
    return I(rnd.mul_down(x, yl), rnd.mul_up(x, yu), true);
""", """  // x is supposed not to be infinite
  if (interval_lib::user::is_zero(x))
    return I(static_cast<T>(0));
  return interval_lib::detail::scale_by<T, Policies>(x)(y.lower(), y.upper());
""")
# division: one generic dispatcher
e(A, """template<class T, class Policies> inline
interval<T, Policies> operator/(const interval<T, Policies>& x,
                                const interval<T, Policies>& y)
{
  if (interval_lib::detail::test_input(x, y))
    return interval<T, Policies>::empty();
  if (zero_in(y))
    if (!interval_lib::user::is_zero(y.lower()))
      if (!interval_lib::user::is_zero(y.upper()))
        return interval_lib::detail::div_zero(x);
      else
        return interval_lib::detail::div_negative(x, y.lower());
    else
      if (!interval_lib::user::is_zero(y.upper()))
        return interval_lib::detail::div_positive(x, y.upper());
      else
        return interval<T, Policies>::empty();
  else
    return interval_lib::detail::div_non_zero(x, y);
}
""", """namespace interval_lib {
namespace detail {

template<class X, class T, class Policies> inline
interval<T, Policies> quotient(const X& x, const interval<T, Policies>& y)
{
  if (test_input(x, y))
    return interval<T, Policies>::empty();
  switch ((user::is_neg(y.lower()) ? 1 : 0) | (user::is_pos(y.upper()) ? 2 : 0)) {
  case 0:
    return interval<T, Policies>::empty();
  case 1:
    if (user::is_zero(y.upper()))
      return div_negative<T, Policies>(x, y.lower());
    break;
  case 2:
    if (user::is_zero(y.lower()))
      return div_positive<T, Policies>(x, y.upper());
    break;
  default:
    return div_zero<T, Policies>(x);
  }
  return div_non_zero<T, Policies>(x, y);
}

} // namespace detail
} // namespace interval_lib

template<class T, class Policies> inline
interval<T, Policies> operator/(const interval<T, Policies>& x,
                                const interval<T, Policies>& y)
{
  return interval_lib::detail::quotient(x, y);
}
""")
e(A, """  if (interval_lib::detail::test_input(x, y))
    return interval<T, Policies>::empty();
  if (zero_in(y))
    if (!interval_lib::user::is_zero(y.lower()))
      if (!interval_lib::user::is_zero(y.upper()))
        return interval_lib::detail::div_zero<T, Policies>(x);
      else
        return interval_lib::detail::div_negative<T, Policies>(x, y.lower());
    else
      if (!interval_lib::user::is_zero(y.upper()))
        return interval_lib::detail::div_positive<T, Policies>(x, y.upper());
      else
        return interval<T, Policies>::empty();
  else
    return interval_lib::detail::div_non_zero(x, y);
""", """  return interval_lib::detail::quotient(x, y);
""")
# sums: member function pointers chosen by the caller
e(A, """  if (interval_lib::detail::test_input(x, y))
    return interval<T, Policies>::empty();
  typename Policies::rounding rnd;
  return interval<T,Policies>(rnd.sub_down(x, y.upper()),
                              rnd.sub_up  (x, y.lower()), true);
""", """  interval<T, Policies> r;
  if (!interval_lib::detail::test_input(x, y)) {
    typename Policies::rounding rnd;
    const std::pair<T, T> b(rnd.sub_down(x, y.upper()), rnd.sub_up(x, y.lower()));
    r.set(b.first, b.second);
  } else
    r.set_empty();
  return r;
""")
e(A, "#include <boost/numeric/interval/detail/division.hpp>", "#include <utility>\n#include <boost/numeric/interval/detail/division.hpp>")
# division cases: tests on the divisor first, early returns, no else
e(D, """  if (::boost::numeric::interval_lib::user::is_neg(x))
    return I(rnd.div_down(x, yl), rnd.div_up(x, yu), true);
  else
    return I(rnd.div_down(x, yu), rnd.div_up(x, yl), true);
""", """  const bool n = ::boost::numeric::interval_lib::user::is_neg(x);
  const T* const d[2] = { &yl, &yu };
  return I(rnd.div_down(x, *d[!n]), rnd.div_up(x, *d[n]), true);
""")
e(D, """  if (::boost::numeric::interval_lib::user::is_neg(xu))
    return I(rnd.div_down(xu, yl), checking::pos_inf(), true);
  else if (::boost::numeric::interval_lib::user::is_neg(xl))
    return I(checking::neg_inf(), checking::pos_inf(), true);
  else
    return I(checking::neg_inf(), rnd.div_up(xl, yl), true);
""", """  // x / y == (-x) / (-y), so this is the mirror image of div_positive
  T l(checking::neg_inf()), u(checking::pos_inf());
  if (::boost::numeric::interval_lib::user::is_neg(xu))
    l = rnd.div_down(xu, yl);
  if (!::boost::numeric::interval_lib::user::is_neg(xl))
    u = rnd.div_up(xl, yl);
  return I(l, u, true);
""")
e(D, """  if (::boost::numeric::interval_lib::user::is_zero(x.lower()) &&
      ::boost::numeric::interval_lib::user::is_zero(x.upper()))
    return x;
  else return interval<T, Policies>::whole();
""", """  interval<T, Policies> r(x);
  if (!::boost::numeric::interval_lib::user::is_zero(x.lower()) || !::boost::numeric::interval_lib::user::is_zero(x.upper()))
    r.set_whole();
  return r;
""")
e(D, """  if (::boost::numeric::interval_lib::user::is_neg(xu))
    { b = true;  return I(checking::neg_inf(), rnd.div_up(xu, yu), true); }
  else if (!::boost::numeric::interval_lib::user::is_pos(xl))
    { b = false; return I(checking::neg_inf(), checking::pos_inf(), true); }
  else
    { b = true;  return I(checking::neg_inf(), rnd.div_up(xl, yl), true); }
""", """  const bool neg = ::boost::numeric::interval_lib::user::is_neg(xu);
  const bool pos = ::boost::numeric::interval_lib::user::is_pos(xl);
  T u(checking::pos_inf());
  b = neg || pos;
  if (b)
    u = neg ? rnd.div_up(xu, yu) : rnd.div_up(xl, yl);
  return I(checking::neg_inf(), u, true);
""")
# powers: recursion, and functors for the two directions
e(A2, """template<class T, class Rounding> inline
T pow_dn(const T& x_, int pwr, Rounding& rnd) // x and pwr are positive
{
  T x = x_;
  T y = (pwr & 1) ? x_ : static_cast<T>(1);
  pwr >>= 1;
  while (pwr > 0) {
    x = rnd.mul_down(x, x);
    if (pwr & 1) y = rnd.mul_down(x, y);
    pwr >>= 1;
  }
  return y;
}
""", """template<class T, class Rounding>
struct mul_toward_zero {
  Rounding& r;
  T operator()(const T& a, const T& b) { return r.mul_down(a, b); }
};

template<class T, class Rounding>
struct mul_away {
  Rounding& r;
  T operator()(const T& a, const T& b) { return r.mul_up(a, b); }
};

template<class T, class Mul> inline
T pow_by_squaring(T base, int pwr, Mul mul)
{
  T acc = static_cast<T>(1);
  bool first = true;
  for (;;) {
    if (pwr % 2 != 0) {
      if (first) acc = base; else acc = mul(base, acc);
      first = false;
    }
    pwr /= 2;
    if (pwr == 0) return acc;
    base = mul(base, base);
  }
}

template<class T, class Rounding> inline
T pow_dn(const T& x_, int pwr, Rounding& rnd) // x and pwr are positive
{
  mul_toward_zero<T, Rounding> m = { rnd };
  return pow_by_squaring<T>(x_, pwr, m);
}
""")
e(A2, """  T x = x_;
  T y = (pwr & 1) ? x_ : static_cast<T>(1);
  pwr >>= 1;
  while (pwr > 0) {
    x = rnd.mul_up(x, x);
    if (pwr & 1) y = rnd.mul_up(x, y);
    pwr >>= 1;
  }
  return y;
""", """  mul_away<T, Rounding> m = { rnd };
  return pow_by_squaring<T>(x_, pwr, m);
""")
e(A2, """    if (pwr & 1) {   // [-1,1]^1
      return I(-pow_up(static_cast<T>(-x.lower()), pwr, rnd), pow_up(x.upper(), pwr, rnd), true);
    } else {         // [-1,1]^2
      return I(static_cast<T>(0), pow_up(max BOOST_PREVENT_MACRO_SUBSTITUTION(static_cast<T>(-x.lower()), x.upper()), pwr, rnd), true);
    }
""", """    const T m = -x.lower();
    const T& far_end = m < x.upper() ? x.upper() : m;
    if (!(pwr & 1))  // [-1,1]^2
      return I(static_cast<T>(0), pow_up(far_end, pwr, rnd), true);
    // [-1,1]^1
    const T b = pow_up(m, pwr, rnd);
    return I(-b, pow_up(x.upper(), pwr, rnd), true);
""")
e(A2, """  if (zero_in(x)) {
    typedef typename Policies::checking checking;
    if (!user::is_zero(x.lower()))
      if (!user::is_zero(x.upper()))
        return I::whole();
      else
        return I(checking::neg_inf(), rnd.div_up(one, x.lower()), true);
    else
      if (!user::is_zero(x.upper()))
        return I(rnd.div_down(one, x.upper()), checking::pos_inf(), true);
      else
        return I::empty();
  } else 
    return I(rnd.div_down(one, x.upper()), rnd.div_up(one, x.lower()), true);
""", """  typedef typename Policies::checking checking;
  const bool nl = user::is_neg(x.lower()), pu = user::is_pos(x.upper());
  if (!nl && !pu) return I::empty();
  if (nl && pu) return I::whole();
  T l = user::is_zero(x.upper()) ? checking::neg_inf() : rnd.div_down(one, x.upper());
  T u = user::is_zero(x.lower()) ? checking::pos_inf() : rnd.div_up(one, x.lower());
  return I(l, u, true);
""")
e(A2, """  T l = !interval_lib::user::is_pos(x.lower()) ? static_cast<T>(0) : rnd.sqrt_down(x.lower());
  return I(l, rnd.sqrt_up(x.upper()), true);
""", """  I r(static_cast<T>(0), rnd.sqrt_up(x.upper()), true);
  if (interval_lib::user::is_pos(x.lower()))
    r = I(rnd.sqrt_down(x.lower()), r.upper(), true);
  return r;
""")
e(A2, """    return I(static_cast<T>(0), (-xl > xu ? rnd.mul_up(xl, xl) : rnd.mul_up(xu, xu)), true);
""", """  {
    const T& v = xu < -xl ? xl : xu;
    return I(static_cast<T>(0), rnd.mul_up(v, v), true);
  }
""")
# nth_root: odd roots of the negative part by symmetry
e(A2, """  T u = interval_lib::detail::root_aux_up<R>(x.upper(), k);
  if (!interval_lib::user::is_pos(x.lower()))
    if (!(k & 1) || interval_lib::user::is_zero(x.lower())) // [-1,1]^/2 or [0,1]
      return I(static_cast<T>(0), u, true);
    else                 // [-1,1]^/3
      return I(-interval_lib::detail::root_aux_up<R>(-x.lower(), k), u, true);
  else                   // [1,2]
    return I(interval_lib::detail::root_aux_dn<R>(x.lower(), k), u, true);
""", """  T l(0);
  if (interval_lib::user::is_pos(x.lower()))
    l = interval_lib::detail::root_aux_dn<R>(x.lower(), k);
  else if (k % 2 != 0 && interval_lib::user::is_neg(x.lower()))
    l = -interval_lib::detail::root_aux_up<R>(-x.lower(), k);
  return I(l, interval_lib::detail::root_aux_up<R>(x.upper(), k), true);
""")
e(A2, """  T const &yb = interval_lib::user::is_neg(x.lower()) ? y.lower() : y.upper();
  T n = rnd.int_down(rnd.div_down(x.lower(), yb));
  return (const I&)x - n * (const I&)y;
""", """  struct quot {
    static T of(typename Policies::rounding& r, T const& a, T const& b) { return r.int_down(r.div_down(a, b)); }
  };
  T n = quot::of(rnd, x.lower(), interval_lib::user::is_neg(x.lower()) ? y.lower() : y.upper());
  I prod((const I&)y);
  prod *= n;
  return (const I&)x - prod;
""")
# transcendental functions
e(T, """  T l = x.lower() <= static_cast<T>(1) ? static_cast<T>(0) : rnd.acosh_down(x.lower());
  return I(l, rnd.acosh_up(x.upper()), true);
""", """  const T u = rnd.acosh_up(x.upper());
  if (x.lower() > static_cast<T>(1))
    return I(rnd.acosh_down(x.lower()), u, true);
  return I(static_cast<T>(0), u, true);
""")
e(T, """  T l = (x.lower() <= static_cast<T>(-1))
             ? checking::neg_inf() : rnd.atanh_down(x.lower());
  T u = (x.upper() >= static_cast<T>(1) )
             ? checking::pos_inf() : rnd.atanh_up  (x.upper());
  return I(l, u, true);
""", """  I r = I::whole();
  if (x.lower() > static_cast<T>(-1))
    r.set(rnd.atanh_down(x.lower()), r.upper());
  if (x.upper() < static_cast<T>(1))
    r.set(r.lower(), rnd.atanh_up(x.upper()));
  (void)static_cast<T (*)()>(&checking::pos_inf);
  return r;
""")
e(T, """  R tmp = fmod((const R&)x, pi2);
  if (width(tmp) >= pi2.lower())
    return I(static_cast<T>(-1), static_cast<T>(1), true); // we are covering a full period
""", """  const T minus_one = static_cast<T>(-1), plus_one = static_cast<T>(1);
  const R tmp = fmod((const R&)x, pi2);
  const T w = width(tmp);
  if (!(w < pi2.lower()))
    return I(minus_one, plus_one, true); // we are covering a full period
""")
e(T, """  if (u <= interval_lib::constants::pi_lower<T>())
    return I(rnd.cos_down(u), rnd.cos_up(l), true);
  else if (u <= pi2.lower())
    return I(static_cast<T>(-1), rnd.cos_up(min BOOST_PREVENT_MACRO_SUBSTITUTION(rnd.sub_down(pi2.lower(), u), l)), true);
  else
    return I(static_cast<T>(-1), static_cast<T>(1), true);
""", """  if (u > pi2.lower())
    return I(minus_one, plus_one, true);
  const bool decreasing = u <= interval_lib::constants::pi_lower<T>();
  T top = l;
  if (!decreasing) {
    const T back = rnd.sub_down(pi2.lower(), u);
    if (back < top) top = back;
  }
  const T lo = decreasing ? rnd.cos_down(u) : minus_one;
  return I(lo, rnd.cos_up(top), true);
""")
e(T, """  I r = cos((const R&)x - interval_lib::pi_half<R>());
  (void)&rnd;
  return r;
""", """  (void)&rnd;
  const R y = (const R&)x - interval_lib::pi_half<R>();
  const R c = cos(y);
  return I(c.lower(), c.upper(), true);
""")
# utility
e(U, """  if (interval_lib::detail::test_input(x, y)) return false;
  return (x.lower() <= y.lower() && y.lower() <= x.upper()) ||
""", """  if (interval_lib::detail::test_input(x, y)) return false;
  if (x.upper() < y.lower() || y.upper() < x.lower()) return false;
  return (x.lower() <= y.lower() && y.lower() <= x.upper()) ||
""")
e(U, """  const T m = median(x);
""", """  T const m = interval_lib::median(x);
""") if 0 else None
# class
e(I, """  if (checking::is_nan(l) || checking::is_nan(u) || !(l <= u))
    set_empty();
  else set(l, u);
""", """  const bool ordered = !(checking::is_nan(l) || checking::is_nan(u)) && l <= u;
  if (ordered) {
    set(l, u);
    return;
  }
  set_empty();
""")
e(I, """  T const v(u); // u may refer to low
  low = l;
  up  = v;
""", """  T b[2] = { l, u }; // u may refer to low
  low = b[0];
  up  = b[1];
""")
e(I, """  bool bad_x = checking::is_nan(x);
  bool bad_y = checking::is_nan(y);
  if (bad_x)
    if (bad_y) return interval::empty();
    else       return interval(y, y, true);
  else
    if (bad_y) return interval(x, x, true);
  if (x <= y) return interval(x, y, true);
  else        return interval(y, x, true);
""", """  T const *a = checking::is_nan(x) ? 0 : &x;
  T const *b = checking::is_nan(y) ? 0 : &y;
  if (!a) a = b;
  if (!a) return interval::empty();
  if (!b) b = a;
  if (!(*a <= *b)) { T const *t = a; a = b; b = t; }
  return interval(*a, *b, true);
""")
# rounding: the saved state in a member object
e("rounding.hpp", """  save_state() {
    this->get_rounding_mode(mode);
    this->init();
  }
""", """  save_state() { this->enter(); }
  void enter() {
    Rounding& r = *this;
    r.get_rounding_mode(mode);
    r.init();
  }
""")
# comparisons
e("compare/certain.hpp", "  return x.upper() < y.lower();", "  const bool before = x.upper() < y.lower();\n  return before;")
e("compare/lexicographic.hpp", """  return xl < yl || (xl == yl && x.upper() < y.upper());
""", """  const int c = xl < yl ? -1 : xl == yl ? 0 : 1;
  if (c != 0) return c < 0;
  return x.upper() < y.upper();
""")
e("limits.hpp", "  static I max BOOST_PREVENT_MACRO_SUBSTITUTION () BOOST_NOEXCEPT_OR_NOTHROW { return I((bl::max)(), (bl::max)()); }",
  "  static I max BOOST_PREVENT_MACRO_SUBSTITUTION () BOOST_NOEXCEPT_OR_NOTHROW { T const m = (bl::max)(); return I(m); }")
e("limits.hpp", "{ return I(bl::signaling_NaN(), bl::signaling_NaN()); }", "{ return I(bl::signaling_NaN()); }")
EDITS = [x for x in EDITS if x]
