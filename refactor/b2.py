"""Tables, pointers, lambdas, recursion, swaps, enums, helper structs, flags."""
A = "arith.hpp"; D = "detail/division.hpp"; A2 = "arith2.hpp"; U = "utility.hpp"; I = "interval.hpp"; T = "transc.hpp"
EDITS = []
def e(f, old, new, n=1): EDITS.append((f, old, new, n))

# ---- arith.hpp
e(A, """  if (interval_lib::detail::test_input(x))
    return interval<T, Policies>::empty();
  return interval<T, Policies>(-x.upper(), -x.lower(), true);
""", """  typedef interval<T, Policies> I;
  return interval_lib::detail::test_input(x) ? I::empty() : I(-x.upper(), -x.lower(), true);
""")
e(A, """template<class T, class Policies> inline
interval<T, Policies> operator*(const interval<T, Policies>& x,
                                const interval<T, Policies>& y)
{
""", """namespace interval_lib {
namespace detail {

enum sign_class { sc_zero, sc_neg, sc_pos, sc_mixed };

template<class T> inline
sign_class classify(const T& l, const T& u)
{
  if (user::is_neg(l))
    return user::is_pos(u) ? sc_mixed : sc_neg;
  return user::is_pos(u) ? sc_pos : sc_zero;
}

} // namespace detail
} // namespace interval_lib

template<class T, class Policies> inline
interval<T, Policies> operator*(const interval<T, Policies>& x,
                                const interval<T, Policies>& y)
{
""")
e(A, "@@re:  if \\(interval_lib::user::is_neg\\(xl\\)\\)\\n    if \\(interval_lib::user::is_pos\\(xu\\)\\)\\n.*?else +// Z \\* \\?\\n      return I\\(static_cast<T>\\(0\\), static_cast<T>\\(0\\), true\\);\\n",
"""  using namespace interval_lib::detail;
  const sign_class cx = classify(xl, xu), cy = classify(yl, yu);
  if (cx == sc_zero || cy == sc_zero)
    return I(static_cast<T>(0), static_cast<T>(0), true);
  if (cx == sc_mixed && cy == sc_mixed) {
    T cand[4] = { rnd.mul_down(xl, yu), rnd.mul_down(xu, yl), rnd.mul_up(xl, yl), rnd.mul_up(xu, yu) };
    return I(min BOOST_PREVENT_MACRO_SUBSTITUTION(cand[0], cand[1]), max BOOST_PREVENT_MACRO_SUBSTITUTION(cand[2], cand[3]), true);
  }
  // factors of the lower and of the upper bound
  struct { const T *a, *b; } f[2];
  f[0].a = cy == sc_neg ? &xu : &xl;
  f[0].b = cx == sc_neg ? &yu : &yl;
  f[1].a = cy == sc_neg ? &xl : &xu;
  f[1].b = cx == sc_neg ? &yl : &yu;
  if (cx == sc_mixed) { f[0].b = f[1].b = cy == sc_neg ? &yl : &yu; }
  if (cy == sc_mixed) { f[0].a = f[1].a = cx == sc_neg ? &xl : &xu; }
  return I(rnd.mul_down(*f[0].a, *f[0].b), rnd.mul_up(*f[1].a, *f[1].b), true);
""")
e(A, """  const T& yl = y.lower();
  const T& yu = y.upper();
  // x is supposed not to be infinite
  if (interval_lib::user::is_neg(x))
    return I(rnd.mul_down(x, yu), rnd.mul_up(x, yl), true);
  else if (interval_lib::user::is_zero(x))
    return I(static_cast<T>(0), static_cast<T>(0), true);
  else
    return I(rnd.mul_down(x, yl), rnd.mul_up(x, yu), true);
""", """  if (interval_lib::user::is_zero(x))
    return I(static_cast<T>(0), static_cast<T>(0), true);
  T a = y.lower();
  T b = y.upper();
  if (interval_lib::user::is_neg(x)) {
    using std::swap;
    swap(a, b);
  }
  // x is supposed not to be infinite
  return I(rnd.mul_down(x, a), rnd.mul_up(x, b), true);
""")
e(A, """  if (zero_in(y))
    if (!interval_lib::user::is_zero(y.lower()))
      if (!interval_lib::user::is_zero(y.upper()))
        return interval_lib::detail::div_zero<T, Policies>(x);
      else
        return interval_lib::detail::div_negative<T, Policies>(x, y.lower());
    else
      if (!interval_lib::user::is_zero(y.upper()))
        return interval_lib::detail::div_positive<T, Policies>(x, y.upper());
      else
        return interval<T, Policies>::empty();
  else
    return interval_lib::detail::div_non_zero(x, y);
""", """  const int kind = !zero_in(y) ? 4 : 2 * !interval_lib::user::is_zero(y.lower()) + !interval_lib::user::is_zero(y.upper());
  switch (kind) {
  case 0:
    return interval<T, Policies>::empty();
  case 1:
    return interval_lib::detail::div_positive<T, Policies>(x, y.upper());
  case 2:
    return interval_lib::detail::div_negative<T, Policies>(x, y.lower());
  case 3:
    return interval_lib::detail::div_zero<T, Policies>(x);
  default:
    return interval_lib::detail::div_non_zero(x, y);
  }
""")
e(A, """  if (interval_lib::user::is_neg(y))
    return interval<T, Policies>(rnd.div_down(xu, y), rnd.div_up(xl, y), true);
  else
    return interval<T, Policies>(rnd.div_down(xl, y), rnd.div_up(xu, y), true);
""", """  const T* b[2] = { &xl, &xu };
  const int k = interval_lib::user::is_neg(y);
  return interval<T, Policies>(rnd.div_down(*b[k], y), rnd.div_up(*b[1 - k], y), true);
""")
# ---- division.hpp
e(D, """  if (::boost::numeric::interval_lib::user::is_neg(xu))
    if (::boost::numeric::interval_lib::user::is_neg(yu))
      return I(rnd.div_down(xu, yl), rnd.div_up(xl, yu), true);
    else
      return I(rnd.div_down(xl, yl), rnd.div_up(xu, yu), true);
  else if (::boost::numeric::interval_lib::user::is_neg(xl))
    if (::boost::numeric::interval_lib::user::is_neg(yu))
      return I(rnd.div_down(xu, yu), rnd.div_up(xl, yu), true);
    else
      return I(rnd.div_down(xl, yl), rnd.div_up(xu, yl), true);
  else
    if (::boost::numeric::interval_lib::user::is_neg(yu))
      return I(rnd.div_down(xu, yu), rnd.div_up(xl, yl), true);
    else
      return I(rnd.div_down(xl, yu), rnd.div_up(xu, yl), true);
""", """  using ::boost::numeric::interval_lib::user::is_neg;
  if (is_neg(yu)) // x / y == -x / -y
    return div_non_zero(I(-xu, -xl, true), I(-yu, -yl, true));
  T l = is_neg(xl) ? rnd.div_down(xl, yl) : rnd.div_down(xl, yu);
  T u = is_neg(xu) ? rnd.div_up(xu, yu) : rnd.div_up(xu, yl);
  return I(l, u, true);
""")
e(D, """  typename Policies::rounding rnd;
  typedef interval<T, Policies> I;
  const T& yl = y.lower();
  const T& yu = y.upper();
  if (::boost::numeric::interval_lib::user::is_neg(x))
    return I(rnd.div_down(x, yl), rnd.div_up(x, yu), true);
  else
    return I(rnd.div_down(x, yu), rnd.div_up(x, yl), true);
""", """  return div_non_zero(interval<T, Policies>(x, x, true), y);
""")
e(D, """  if (::boost::numeric::interval_lib::user::is_neg(xu))
    return I(rnd.div_down(xu, yl), checking::pos_inf(), true);
  else if (::boost::numeric::interval_lib::user::is_neg(xl))
    return I(checking::neg_inf(), checking::pos_inf(), true);
  else
    return I(checking::neg_inf(), rnd.div_up(xl, yl), true);
""", """  T b[2] = { checking::neg_inf(), checking::pos_inf() };
  const bool neg = ::boost::numeric::interval_lib::user::is_neg(xu);
  if (neg || !::boost::numeric::interval_lib::user::is_neg(xl))
    b[neg ? 0 : 1] = neg ? rnd.div_down(xu, yl) : rnd.div_up(xl, yl);
  return I(b[0], b[1], true);
""")
e(D, """  typedef typename Policies::checking checking;
  if (::boost::numeric::interval_lib::user::is_neg(x))
    return I(rnd.div_down(x, yl), checking::pos_inf(), true);
  else
    return I(checking::neg_inf(), rnd.div_up(x, yl), true);
""", """  I r = I::whole();
  if (::boost::numeric::interval_lib::user::is_neg(x))
    r.set(rnd.div_down(x, yl), r.upper());
  else
    r.set(r.lower(), rnd.div_up(x, yl));
  return r;
""")
e(D, """  if (::boost::numeric::interval_lib::user::is_neg(x.upper()))
    return I(rnd.div_down(x.upper(), y.lower()), checking::pos_inf(), true);
  else
    return I(rnd.div_down(x.lower(), y.upper()), checking::pos_inf(), true);
""", """  const bool neg = ::boost::numeric::interval_lib::user::is_neg(x.upper());
  const T num = neg ? x.upper() : x.lower();
  const T den = neg ? y.lower() : y.upper();
  return I(rnd.div_down(num, den), checking::pos_inf(), true);
""")
e(A, """#include <boost/numeric/interval/detail/division.hpp>
""", """#include <utility>
#include <boost/numeric/interval/detail/division.hpp>
""")
# ---- arith2.hpp
e(A2, """  T n = rnd.int_down(rnd.div_down(x.lower(), y));
  return (const I&)x - n * I(y);
""", """  const T q = rnd.div_down(x.lower(), y);
  const T n = rnd.int_down(q);
  const I iy(y, y, true);
  return (const I&)x - iy * n;
""")
e(A2, """  b = false;
  if (detail::test_input(x, y))
    return I::empty();
  if (zero_in(y))
    if (!user::is_zero(y.lower()))
      if (!user::is_zero(y.upper()))
        return detail::div_zero_part1(x, y, b);
      else
        return detail::div_negative(x, y.lower());
    else
      if (!user::is_zero(y.upper()))
        return detail::div_positive(x, y.upper());
      else
        return I::empty();
  else
    return detail::div_non_zero(x, y);
""", """  if (!detail::test_input(x, y) && user::is_neg(y.lower()) && user::is_pos(y.upper()))
    return detail::div_zero_part1(x, y, b);
  b = false;
  return x / y;
""")
e(A2, """  T x = x_;
  T y = (pwr & 1) ? x_ : static_cast<T>(1);
  pwr >>= 1;
  while (pwr > 0) {
    x = rnd.mul_down(x, x);
    if (pwr & 1) y = rnd.mul_down(x, y);
    pwr >>= 1;
  }
  return y;
""", """  if (pwr == 1) return x_;
  const T h = pow_dn(x_, pwr / 2, rnd);
  const T s = rnd.mul_down(h, h);
  return (pwr & 1) ? rnd.mul_down(s, x_) : s;
""")
e(A2, """  T x = x_;
  T y = (pwr & 1) ? x_ : static_cast<T>(1);
  pwr >>= 1;
  while (pwr > 0) {
    x = rnd.mul_up(x, x);
    if (pwr & 1) y = rnd.mul_up(x, y);
    pwr >>= 1;
  }
  return y;
""", """  T result = static_cast<T>(1);
  T base = x_;
  for (unsigned n = static_cast<unsigned>(pwr);;) {
    if (n & 1u) result = rnd.mul_up(result, base);
    n >>= 1;
    if (n == 0u) break;
    base = rnd.mul_up(base, base);
  }
  return result;
""")
e(A2, """  } else if (interval_lib::user::is_neg(x.lower())) { // [-1,1]
    if (pwr & 1) {   // [-1,1]^1
      return I(-pow_up(static_cast<T>(-x.lower()), pwr, rnd), pow_up(x.upper(), pwr, rnd), true);
    } else {         // [-1,1]^2
      return I(static_cast<T>(0), pow_up(max BOOST_PREVENT_MACRO_SUBSTITUTION(static_cast<T>(-x.lower()), x.upper()), pwr, rnd), true);
    }
  } else {""", """  } else if (interval_lib::user::is_neg(x.lower())) { // [-1,1]
    const T a = -x.lower();
    const T& b = x.upper();
    const bool odd = pwr % 2 != 0;
    T l = static_cast<T>(0), u = static_cast<T>(0);
    if (odd) {
      l = -pow_up(a, pwr, rnd);
      u = pow_up(b, pwr, rnd);
    } else
      u = pow_up(a > b ? a : b, pwr, rnd);
    return I(l, u, true);
  } else {""")
e(A2, """  if (interval_lib::user::is_neg(xu))
    return I(rnd.mul_down(xu, xu), rnd.mul_up(xl, xl), true);
  else if (interval_lib::user::is_pos(x.lower()))
    return I(rnd.mul_down(xl, xl), rnd.mul_up(xu, xu), true);
  else
    return I(static_cast<T>(0), (-xl > xu ? rnd.mul_up(xl, xl) : rnd.mul_up(xu, xu)), true);
""", """  const T nl = -xl;
  const T& far = nl > xu ? nl : xu;
  T l = static_cast<T>(0);
  if (interval_lib::user::is_neg(xu)) l = rnd.mul_down(xu, xu);
  if (interval_lib::user::is_pos(xl)) l = rnd.mul_down(xl, xl);
  return I(l, rnd.mul_up(far, far), true);
""")
e(A2, """  for(;;) {
    T y0 = median(y);
    I yy = intersect(y, y0 - (pow(I(y0, y0, true), k) - x) / (tk * pow(y, k - 1)));
    if (equal(y, yy)) return y;
    y = yy;
  }
""", """  I yy;
  T y0;
  bool stable = false;
  while (!stable) {
    y0 = median(y);
    yy = y0 - (pow(I(y0, y0, true), k) - x) / (tk * pow(y, k - 1));
    yy = intersect(y, yy);
    stable = equal(y, yy);
    if (!stable) y = yy;
  }
  return y;
""")
e(A2, """  if (x > one) return root_aux<I>(x, k).upper();
  if (x == one) return one;
  return rnd.div_up(one, root_aux<I>(rnd.div_down(one, x), k).lower());
""", """  const bool small = x < one;
  if (!small && !(x > one)) return one;
  const T arg = small ? rnd.div_down(one, x) : x;
  const I r = root_aux<I>(arg, k);
  return small ? rnd.div_up(one, r.lower()) : r.upper();
""")
# ---- utility.hpp
e(U, """  if (interval_lib::detail::test_input(x)) return static_cast<T>(0);
  typename Policies::rounding rnd;
  return rnd.sub_up(x.upper(), x.lower());
""", """  T w = static_cast<T>(0);
  if (!interval_lib::detail::test_input(x)) {
    typename Policies::rounding rnd;
    w = rnd.sub_up(x.upper(), x.lower());
  }
  return w;
""")
e(U, """  if (interval_lib::detail::test_input(x, y)) return false;
  return y.lower() <= x && x <= y.upper();
""", """  const bool bad = interval_lib::detail::test_input(x, y);
  return bad ? false : (y.lower() <= x) & (x <= y.upper());
""")
e(U, """  if (empty(x)) return true;
  return !empty(y) && y.lower() <= x.lower() && x.upper() <= y.upper();
""", """  if (!empty(x)) {
    if (empty(y)) return false;
    if (x.lower() < y.lower() || x.upper() > y.upper()) return false;
  }
  return true;
""")
e(U, """  if (interval_lib::detail::test_input(x, y)) return false;
  return (x.lower() <= y.lower() && y.lower() <= x.upper()) ||
         (y.lower() <= x.lower() && x.lower() <= y.upper());
""", """  if (interval_lib::detail::test_input(x, y)) return false;
  const T& l = x.lower() < y.lower() ? y.lower() : x.lower();
  const T& u = x.upper() < y.upper() ? x.upper() : y.upper();
  return l <= u;
""")
e(U, """  const T& l = max BOOST_PREVENT_MACRO_SUBSTITUTION(x.lower(), y.lower());
  const T& u = min BOOST_PREVENT_MACRO_SUBSTITUTION(x.upper(), y.upper());
  if (l <= u) return interval<T, Policies>(l, u, true);
  else        return interval<T, Policies>::empty();
""", """  interval<T, Policies> r(x);
  if (y.lower() > x.lower()) r.set(y.lower(), r.upper());
  if (y.upper() < x.upper()) r.set(r.lower(), y.upper());
  if (!(r.lower() <= r.upper())) r.set_empty();
  return r;
""")
e(U, """  bool bad_x = interval_lib::detail::test_input(x);
  bool bad_y = interval_lib::detail::test_input<T, Policies>(y);
  if (bad_y)
    if (bad_x) return interval<T, Policies>::empty();
    else       return x;
  else
    if (bad_x) return interval<T, Policies>(y, y, true);
  return interval<T, Policies>(min BOOST_PREVENT_MACRO_SUBSTITUTION(x.lower(), y),
                               max BOOST_PREVENT_MACRO_SUBSTITUTION(x.upper(), y), true);
""", """  bool bad_x = interval_lib::detail::test_input(x);
  bool bad_y = interval_lib::detail::test_input<T, Policies>(y);
  switch ((bad_x ? 1 : 0) | (bad_y ? 2 : 0)) {
  case 3: return interval<T, Policies>::empty();
  case 2: return x;
  case 1: return interval<T, Policies>(y, y, true);
  }
  return interval<T, Policies>(y < x.lower() ? y : x.lower(), y < x.upper() ? x.upper() : y, true);
""")
e(U, """  return interval<T>::hull(x, y);
""", """  typedef interval<T> I;
  const I r = I::hull(x, y);
  return r;
""")
e(U, """  if (interval_lib::detail::test_input(x))
    return std::pair<I,I>(I::empty(), I::empty());
  const T m = median(x);
  return std::pair<I,I>(I(x.lower(), m, true), I(m, x.upper(), true));
""", """  std::pair<I,I> r(x, x);
  if (interval_lib::detail::test_input(x)) {
    r.first = r.second = I::empty();
  } else {
    const T m = median(x);
    r.first.set(x.lower(), m);
    r.second.set(m, x.upper());
  }
  return r;
""")
e(U, """  if (interval_lib::detail::test_input(x, y))
    return I::empty();
  BOOST_USING_STD_MIN();
  return I(min BOOST_PREVENT_MACRO_SUBSTITUTION(x.lower(), y), min BOOST_PREVENT_MACRO_SUBSTITUTION(x.upper(), y), true);
""", """  if (interval_lib::detail::test_input(x, y))
    return I::empty();
  const I iy(y, y, true);
  BOOST_USING_STD_MIN();
  return I(min BOOST_PREVENT_MACRO_SUBSTITUTION(x.lower(), iy.lower()), min BOOST_PREVENT_MACRO_SUBSTITUTION(x.upper(), iy.upper()), true);
""")
# ---- interval.hpp
e(I, """interval<T, Policies>::interval(T const &l, T const &u): low(l), up(u)
{
  if (checking::is_nan(l) || checking::is_nan(u) || !(l <= u))
    set_empty();
}
""", """interval<T, Policies>::interval(T const &l, T const &u): low(l), up(u)
{
  bool bad = checking::is_nan(l);
  if (!bad) bad = checking::is_nan(u);
  if (!bad) bad = !(l <= u);
  if (bad) set_empty();
}
""")
e(I, """  if (checking::is_nan(l) || checking::is_nan(u) || !(l <= u)) set_empty();
  else {
    rounding rnd;
    low = rnd.conv_down(l);
    up  = rnd.conv_up  (u);
  }
""", """  if (checking::is_nan(l) || checking::is_nan(u) || !(l <= u)) {
    set_empty();
    return;
  }
  rounding rnd;
  T const lo(rnd.conv_down(l)), hi(rnd.conv_up(u));
  set(lo, hi);
""")
e(I, """  T const v(u); // u may refer to low
  low = l;
  up  = v;
""", """  interval const r(l, u, true); // u may refer to low
  *this = r;
""")
e(I, """  low = checking::empty_lower();
  up  = checking::empty_upper();
""", """  *this = empty();
""")
e(I, """  return interval<T, Policies>(checking::neg_inf(), checking::pos_inf(), true);
""", """  interval<T, Policies> r;
  r.set_whole();
  return r;
""")
e(I, """  if (!checking::is_empty(low, up)) {
    if (low > r.up) return true;
    else if (up <= r.low) return false;
  }
  throw interval_lib::comparison_error();
""", """  do {
    if (checking::is_empty(low, up)) break;
    if (r.up < low) return true;
    if (r.low >= up) return false;
  } while (false);
  throw interval_lib::comparison_error();
""")
e(I, """bool interval<T, Policies>::operator!= (const interval_holder& r) const
{
  if (!checking::is_empty(low, up)) {
    if (up < r.low || low > r.up) return true;
    else if (up == r.low && low == r.up) return false;
  }
  throw interval_lib::comparison_error();
}
""", """bool interval<T, Policies>::operator!= (const interval_holder& r) const
{
  return !(*this == r);
}
""")
# ---- transc.hpp
e(T, """  if (interval_lib::detail::test_input(x) ||
      !interval_lib::user::is_pos(x.upper()))
    return I::empty();
  typename Policies::rounding rnd;
  typedef typename Policies::checking checking;
  T l = !interval_lib::user::is_pos(x.lower())
             ? checking::neg_inf() : rnd.log_down(x.lower());
  return I(l, rnd.log_up(x.upper()), true);
""", """  if (interval_lib::detail::test_input(x))
    return I::empty();
  if (x.upper() <= static_cast<T>(0))
    return I::empty();
  typename Policies::rounding rnd;
  I r = I::whole();
  const T u = rnd.log_up(x.upper());
  r.set(x.lower() > static_cast<T>(0) ? rnd.log_down(x.lower()) : r.lower(), u);
  return r;
""")
e(T, """  if (tmp.lower() >= interval_lib::constants::pi_upper<T>())
    return -cos(tmp - interval_lib::pi<R>());
""", """  if (tmp.lower() >= interval_lib::constants::pi_upper<T>()) {
    const R c = cos(tmp - interval_lib::pi<R>());
    return interval<T, Policies>(-c.upper(), -c.lower(), true);
  }
""")
e(T, """  T l = (x.upper() >= static_cast<T>(1) )
          ? static_cast<T>(0)
          : rnd.acos_down(x.upper());
  T u = (x.lower() <= static_cast<T>(-1))
          ? interval_lib::constants::pi_upper<T>()
          : rnd.acos_up  (x.lower());
  return I(l, u, true);
""", """  const T one = static_cast<T>(1), mone = -one;
  T u;
  if (x.lower() > mone) u = rnd.acos_up(x.lower());
  else                  u = interval_lib::constants::pi_upper<T>();
  T l;
  if (x.upper() < one) l = rnd.acos_down(x.upper());
  else                 l = static_cast<T>(0);
  return I(l, u, true);
""")
e(T, """  T l = (x.lower() <= static_cast<T>(-1))
             ? checking::neg_inf() : rnd.atanh_down(x.lower());
  T u = (x.upper() >= static_cast<T>(1) )
             ? checking::pos_inf() : rnd.atanh_up  (x.upper());
  return I(l, u, true);
""", """  const bool cut_l = x.lower() <= static_cast<T>(-1), cut_u = x.upper() >= static_cast<T>(1);
  if (cut_l && cut_u) return I::whole();
  if (cut_l) return I(checking::neg_inf(), rnd.atanh_up(x.upper()), true);
  if (cut_u) return I(rnd.atanh_down(x.lower()), checking::pos_inf(), true);
  return I(rnd.atanh_down(x.lower()), rnd.atanh_up(x.upper()), true);
""")
e(T, """  if (interval_lib::user::is_neg(x.upper()))
    return I(rnd.cosh_down(x.upper()), rnd.cosh_up(x.lower()), true);
  else if (!interval_lib::user::is_neg(x.lower()))
    return I(rnd.cosh_down(x.lower()), rnd.cosh_up(x.upper()), true);
  else
    return I(static_cast<T>(1), rnd.cosh_up(-x.lower() > x.upper() ? x.lower() : x.upper()), true);
""", """  const I a = abs(x);
  const T l = interval_lib::user::is_zero(a.lower()) && interval_lib::user::is_neg(x.lower()) && interval_lib::user::is_pos(x.upper())
    ? static_cast<T>(1) : rnd.cosh_down(a.lower());
  return I(l, rnd.cosh_up(a.upper()), true);
""")
e(T, """#include <boost/numeric/interval/arith2.hpp>
""", """#include <boost/numeric/interval/arith2.hpp>
#include <boost/numeric/interval/utility.hpp>
""")
# ---- rounding
e("rounded_arith.hpp", """# define BOOST_DN(EXPR) this->downward();   return this->force_rounding(EXPR)
# define BOOST_NR(EXPR) this->to_nearest(); return this->force_rounding(EXPR)
# define BOOST_UP(EXPR) this->upward();     return this->force_rounding(EXPR)
""", """# define BOOST_DN(EXPR) Rounding::downward();   T const res_ = Rounding::force_rounding(EXPR); return res_
# define BOOST_NR(EXPR) Rounding::to_nearest(); T const res_ = Rounding::force_rounding(EXPR); return res_
# define BOOST_UP(EXPR) Rounding::upward();     T const res_ = Rounding::force_rounding(EXPR); return res_
""")
e("rounded_arith.hpp", """  T median  (const T& x, const T& y) { BOOST_NR((x + y) / 2); }
""", """  T median  (const T& x, const T& y)
  {
    this->to_nearest();
    const T s = this->force_rounding(x + y);
    const T h = this->force_rounding(s / static_cast<T>(2));
    this->upward();
    return h;
  }
""")
e("rounded_transc.hpp", """    T f##_down(const T& x) \\
    { BOOST_NUMERIC_INTERVAL_using_math(f); \\
      return -this->force_rounding(f(-x)); } \\
""", """    T f##_down(const T& x) \\
    { T const n = -x; T const r = f##_up(n); return -r; } \\
""")
e("rounding.hpp", """struct save_state: Rounding
{
  typename Rounding::rounding_mode mode;
  save_state() {
    this->get_rounding_mode(mode);
    this->init();
  }
  ~save_state() { this->set_rounding_mode(mode); }
""", """struct save_state: Rounding
{
  typedef typename Rounding::rounding_mode mode_type;
  mode_type mode;
  mode_type current() { mode_type m; this->get_rounding_mode(m); return m; }
  save_state(): mode(current()) { this->init(); }
  ~save_state() { this->set_rounding_mode(mode_type(mode)); }
""")
e("checking.hpp", """  static T empty_lower()
  {
    return (std::numeric_limits<T>::has_quiet_NaN ?
            std::numeric_limits<T>::quiet_NaN() : static_cast<T>(1));
  }
""", """  static T empty_lower()
  {
    if (std::numeric_limits<T>::has_quiet_NaN)
      return std::numeric_limits<T>::quiet_NaN();
    else
      return static_cast<T>(1);
  }
""")
e("checking.hpp", """struct checking_strict:
  checking_no_nan<T, checking_no_empty<T> >
{};
""", """struct checking_strict:
  checking_no_nan<T, checking_no_empty<T, checking_base<T>, exception_create_empty> >
{
};
""")
e("detail/c99sub_rounding_control.hpp", """  static void set_rounding_mode(rounding_mode mode)  { fesetround(mode); }
  static void get_rounding_mode(rounding_mode &mode) { mode = fegetround(); }
""", """  static void set_rounding_mode(rounding_mode mode)  { int const rc = fesetround(mode); (void)rc; }
  static void get_rounding_mode(rounding_mode &mode) { rounding_mode const m = fegetround(); mode = m; }
""")
e("detail/c99sub_rounding_control.hpp", """  static long double to_int(const long double& r) { return rintl(r); }
""", """  static long double to_int(const long double& r) { long double v = rintl(r); return v; }
""")
e("detail/c99_rounding_control.hpp", """  static double force_rounding(double const &r)
  { volatile double r_ = r; return r_; }
""", """  static double force_rounding(double const &r)
  { double volatile stored = r; double const loaded = stored; return loaded; }
""")
e("detail/test_input.hpp", """bool is_neg (T const &v) { return v <  static_cast<T>(0); }
""", """bool is_neg (T const &v) { T const zero = static_cast<T>(0); return v < zero; }
""")
e("detail/test_input.hpp", """  return checking::is_nan(x) || checking::is_empty(y.lower(), y.upper());
""", """  if (checking::is_nan(x)) return true;
  T const &l = y.lower();
  T const &u = y.upper();
  return checking::is_empty(l, u);
""")
# compare
e("compare/certain.hpp", """  if (detail::test_input(x, y)) throw comparison_error();
  return x.upper() < y.lower() || x.lower() > y.upper();
""", """  if (!detail::test_input(x, y)) {
    if (x.upper() < y.lower()) return true;
    return y.upper() < x.lower();
  }
  throw comparison_error();
""")
e("compare/possible.hpp", "@@re:  if \\(detail::test_input\\(x, y\\)\\) throw comparison_error\\(\\);\\n  return x.lower\\(\\) < y.upper\\(\\);", """  if (detail::test_input(x, y)) throw comparison_error();
  return !(x.lower() >= y.upper());""")
e("compare/tribool.hpp", """  if (x.upper() < y.lower() || x.lower() > y.upper()) return true;
  if (x.upper() == y.lower() && x.lower() == y.upper()) return false;
  return logic::indeterminate;
""", """  return !(x == y);
""")
e("compare/set.hpp", """  return subset(y, x);
""", """  return y <= x;
""")
e("io.hpp", """    return stream << '[' << lower(value) << ',' << upper(value) << ']';
""", """  {
    T const &l = value.lower(), &u = value.upper();
    stream << '[' << l;
    return stream << ',' << u << ']';
  }
""")
e("constants.hpp", """template<> inline double pi_half_upper<double>() { return pi_d_u / 2; }
""", """template<> inline double pi_half_upper<double>() { return pi_upper<double>() * 0.5; }
""")
e("limits.hpp", """  static I epsilon() BOOST_NOEXCEPT_OR_NOTHROW { return I(bl::epsilon(), bl::epsilon()); }
""", """  static I epsilon() BOOST_NOEXCEPT_OR_NOTHROW { return I(bl::epsilon()); }
""")
e("ext/integer.hpp", """  return static_cast<T>(x) / y;
""", """  T const v(static_cast<T>(x));
  return v / y;
""")
