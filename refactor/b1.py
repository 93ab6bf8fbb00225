"""Helpers extracted, locals introduced, statements reordered, loops rewritten."""
import re
A = "arith.hpp"; D = "detail/division.hpp"; A2 = "arith2.hpp"; U = "utility.hpp"; I = "interval.hpp"; T = "transc.hpp"
EDITS = []
def e(f, old, new, n=1): EDITS.append((f, old, new, n))

# ---- arith.hpp
e(A, """    typename Policies::rounding rnd;
    set(rnd.add_down(low, r.low), rnd.add_up(up, r.up));
""", """    typename Policies::rounding rnd;
    T const u = rnd.add_up(up, r.up);
    T const l = rnd.add_down(low, r.low);
    set(l, u);
""")
e(A, """    set(rnd.sub_down(low, r), rnd.sub_up(up, r));
""", """    T const u(rnd.sub_up(up, r)), l(rnd.sub_down(low, r));
    low = l; up = u;
""")
e(A, """  return *this = r * *this;
""", """  interval<T, Policies> const p(r * *this);
  set(p.low, p.up);
  return *this;
""")
e(A, """  typename Policies::rounding rnd;
  return interval<T,Policies>(rnd.add_down(x.lower(), y.lower()),
                              rnd.add_up  (x.upper(), y.upper()), true);
""", """  interval<T, Policies> r(x);
  r += y;
  return r;
""")
e(A, """  typename Policies::rounding rnd;
  return interval<T,Policies>(rnd.sub_down(x.lower(), y.upper()),
                              rnd.sub_up  (x.upper(), y.lower()), true);
""", """  interval<T, Policies> r(x);
  return r -= y;
""")
e(A, """  typename Policies::rounding rnd;
  return interval<T,Policies>(rnd.sub_down(x, y.upper()),
                              rnd.sub_up  (x, y.lower()), true);
""", """  typename Policies::rounding rnd;
  const T& yl = y.lower();
  const T& yu = y.upper();
  T u = rnd.sub_up(x, yl);
  T l = rnd.sub_down(x, yu);
  return interval<T,Policies>(l, u, true);
""")
s = """  if (interval_lib::user::is_neg(xl))
    if (interval_lib::user::is_pos(xu))
      if (interval_lib::user::is_neg(yl))
        if (interval_lib::user::is_pos(yu)) // M * M
"""
e(A, "@@re:  if \\(interval_lib::user::is_neg\\(xl\\)\\)\\n    if \\(interval_lib::user::is_pos\\(xu\\)\\)\\n.*?else +// Z \\* \\?\\n      return I\\(static_cast<T>\\(0\\), static_cast<T>\\(0\\), true\\);\\n",
"""  const int sx = (interval_lib::user::is_neg(xl) ? 1 : 0) + (interval_lib::user::is_pos(xu) ? 2 : 0);
  const int sy = (interval_lib::user::is_neg(yl) ? 1 : 0) + (interval_lib::user::is_pos(yu) ? 2 : 0);
  if (sx == 0 || sy == 0)
    return I(static_cast<T>(0), static_cast<T>(0), true);
  switch (sx * 4 + sy) {
  case 5: return I(rnd.mul_down(xu, yu), rnd.mul_up(xl, yl), true);
  case 6: return I(rnd.mul_down(xl, yu), rnd.mul_up(xu, yl), true);
  case 7: return I(rnd.mul_down(xl, yu), rnd.mul_up(xl, yl), true);
  case 9: return I(rnd.mul_down(xu, yl), rnd.mul_up(xl, yu), true);
  case 10: return I(rnd.mul_down(xl, yl), rnd.mul_up(xu, yu), true);
  case 11: return I(rnd.mul_down(xu, yl), rnd.mul_up(xu, yu), true);
  case 13: return I(rnd.mul_down(xu, yl), rnd.mul_up(xl, yl), true);
  case 14: return I(rnd.mul_down(xl, yu), rnd.mul_up(xu, yu), true);
  default: {
    T const d1 = rnd.mul_down(xl, yu), d2 = rnd.mul_down(xu, yl);
    T const u1 = rnd.mul_up(xl, yl), u2 = rnd.mul_up(xu, yu);
    return I(d2 < d1 ? d2 : d1, u1 < u2 ? u2 : u1, true);
  }
  }
""")
e(A, """  if (interval_lib::user::is_neg(x))
    return I(rnd.mul_down(x, yu), rnd.mul_up(x, yl), true);
  else if (interval_lib::user::is_zero(x))
    return I(static_cast<T>(0), static_cast<T>(0), true);
  else
    return I(rnd.mul_down(x, yl), rnd.mul_up(x, yu), true);
""", """  if (interval_lib::user::is_zero(x))
    return I(static_cast<T>(0), static_cast<T>(0), true);
  const bool neg = x < static_cast<T>(0);
  T l = rnd.mul_down(x, neg ? yu : yl);
  T u = rnd.mul_up(x, neg ? yl : yu);
  return I(l, u, true);
""")
e(A, """  if (zero_in(y))
    if (!interval_lib::user::is_zero(y.lower()))
      if (!interval_lib::user::is_zero(y.upper()))
        return interval_lib::detail::div_zero(x);
      else
        return interval_lib::detail::div_negative(x, y.lower());
    else
      if (!interval_lib::user::is_zero(y.upper()))
        return interval_lib::detail::div_positive(x, y.upper());
      else
        return interval<T, Policies>::empty();
  else
    return interval_lib::detail::div_non_zero(x, y);
""", """  if (!zero_in(y))
    return interval_lib::detail::div_non_zero(x, y);
  const bool zl = interval_lib::user::is_zero(y.lower());
  const bool zu = interval_lib::user::is_zero(y.upper());
  if (zl && zu)
    return interval<T, Policies>::empty();
  if (zl)
    return interval_lib::detail::div_positive(x, y.upper());
  if (zu)
    return interval_lib::detail::div_negative(x, y.lower());
  return interval_lib::detail::div_zero(x);
""")
e(A, """  if (interval_lib::user::is_neg(y))
    return interval<T, Policies>(rnd.div_down(xu, y), rnd.div_up(xl, y), true);
  else
    return interval<T, Policies>(rnd.div_down(xl, y), rnd.div_up(xu, y), true);
""", """  const bool neg = interval_lib::user::is_neg(y);
  const T& a = neg ? xu : xl;
  const T& b = neg ? xl : xu;
  T l = rnd.div_down(a, y);
  T u = rnd.div_up(b, y);
  return interval<T, Policies>(l, u, true);
""")
# ---- division.hpp
e(D, """  if (::boost::numeric::interval_lib::user::is_neg(xu))
    if (::boost::numeric::interval_lib::user::is_neg(yu))
      return I(rnd.div_down(xu, yl), rnd.div_up(xl, yu), true);
    else
      return I(rnd.div_down(xl, yl), rnd.div_up(xu, yu), true);
  else if (::boost::numeric::interval_lib::user::is_neg(xl))
    if (::boost::numeric::interval_lib::user::is_neg(yu))
      return I(rnd.div_down(xu, yu), rnd.div_up(xl, yu), true);
    else
      return I(rnd.div_down(xl, yl), rnd.div_up(xu, yl), true);
  else
    if (::boost::numeric::interval_lib::user::is_neg(yu))
      return I(rnd.div_down(xu, yu), rnd.div_up(xl, yl), true);
    else
      return I(rnd.div_down(xl, yu), rnd.div_up(xu, yl), true);
""", """  const bool yneg = ::boost::numeric::interval_lib::user::is_neg(yu);
  const bool xuneg = ::boost::numeric::interval_lib::user::is_neg(xu);
  const bool xlneg = ::boost::numeric::interval_lib::user::is_neg(xl);
  const T* nl = yneg ? &xu : &xl;
  const T* nu = yneg ? &xl : &xu;
  const T* dl = yneg ? (xuneg ? &yl : &yu) : (xlneg ? &yl : &yu);
  const T* du = yneg ? (xlneg ? &yu : &yl) : (xuneg ? &yu : &yl);
  return I(rnd.div_down(*nl, *dl), rnd.div_up(*nu, *du), true);
""")
e(D, """  if (::boost::numeric::interval_lib::user::is_zero(x.lower()) &&
      ::boost::numeric::interval_lib::user::is_zero(x.upper()))
    return x;
  else return interval<T, Policies>::whole();
""", """  if (!::boost::numeric::interval_lib::user::is_zero(x.lower()) ||
      !::boost::numeric::interval_lib::user::is_zero(x.upper()))
    return interval<T, Policies>::whole();
  return x;
""")
e(D, """  if (::boost::numeric::interval_lib::user::is_neg(xu))
    return I(checking::neg_inf(), rnd.div_up(xu, yu), true);
  else if (::boost::numeric::interval_lib::user::is_neg(xl))
    return I(checking::neg_inf(), checking::pos_inf(), true);
  else
    return I(rnd.div_down(xl, yu), checking::pos_inf(), true);
""", """  T l = checking::neg_inf();
  T u = checking::pos_inf();
  if (::boost::numeric::interval_lib::user::is_neg(xu))
    u = rnd.div_up(xu, yu);
  else if (!::boost::numeric::interval_lib::user::is_neg(xl))
    l = rnd.div_down(xl, yu);
  return I(l, u, true);
""")
e(D, """  if (::boost::numeric::interval_lib::user::is_neg(xu))
    { b = true;  return I(checking::neg_inf(), rnd.div_up(xu, yu), true); }
  else if (!::boost::numeric::interval_lib::user::is_pos(xl))
    { b = false; return I(checking::neg_inf(), checking::pos_inf(), true); }
  else
    { b = true;  return I(checking::neg_inf(), rnd.div_up(xl, yl), true); }
""", """  b = ::boost::numeric::interval_lib::user::is_neg(xu) || ::boost::numeric::interval_lib::user::is_pos(xl);
  if (!b)
    return I(checking::neg_inf(), checking::pos_inf(), true);
  T u = ::boost::numeric::interval_lib::user::is_neg(xu) ? rnd.div_up(xu, yu) : rnd.div_up(xl, yl);
  return I(checking::neg_inf(), u, true);
""")
# ---- arith2.hpp
e(A2, """  T const &yb = interval_lib::user::is_neg(x.lower()) ? y.lower() : y.upper();
  T n = rnd.int_down(rnd.div_down(x.lower(), yb));
  return (const I&)x - n * (const I&)y;
""", """  T q;
  if (interval_lib::user::is_neg(x.lower()))
    q = rnd.div_down(x.lower(), y.lower());
  else
    q = rnd.div_down(x.lower(), y.upper());
  const T n = rnd.int_down(q);
  I p = n * (const I&)y;
  I r = (const I&)x - p;
  return r;
""")
e(A2, """  if (!b) return interval<T, Policies>::empty();
  return detail::div_zero_part2(x, y);
""", """  return b ? detail::div_zero_part2(x, y) : interval<T, Policies>::empty();
""")
e(A2, """  if (zero_in(x)) {
    typedef typename Policies::checking checking;
    if (!user::is_zero(x.lower()))
      if (!user::is_zero(x.upper()))
        return I::whole();
      else
        return I(checking::neg_inf(), rnd.div_up(one, x.lower()), true);
    else
      if (!user::is_zero(x.upper()))
        return I(rnd.div_down(one, x.upper()), checking::pos_inf(), true);
      else
        return I::empty();
  } else 
    return I(rnd.div_down(one, x.upper()), rnd.div_up(one, x.lower()), true);
""", """  typedef typename Policies::checking checking;
  const bool zl = user::is_zero(x.lower()), zu = user::is_zero(x.upper());
  if (zl && zu)
    return I::empty();
  if (!zl && !zu && zero_in(x))
    return I::whole();
  T l = zu ? checking::neg_inf() : rnd.div_down(one, x.upper());
  T u = zl ? checking::pos_inf() : rnd.div_up(one, x.lower());
  return I(l, u, true);
""")
e(A2, """  T x = x_;
  T y = (pwr & 1) ? x_ : static_cast<T>(1);
  pwr >>= 1;
  while (pwr > 0) {
    x = rnd.mul_down(x, x);
    if (pwr & 1) y = rnd.mul_down(x, y);
    pwr >>= 1;
  }
  return y;
""", """  T x = x_;
  T y = static_cast<T>(1);
  if (pwr % 2 != 0) y = x;
  for (int k = pwr / 2; k != 0; k /= 2) {
    x = rnd.mul_down(x, x);
    if (k % 2 != 0) y = rnd.mul_down(x, y);
  }
  return y;
""")
e(A2, """  T x = x_;
  T y = (pwr & 1) ? x_ : static_cast<T>(1);
  pwr >>= 1;
  while (pwr > 0) {
    x = rnd.mul_up(x, x);
    if (pwr & 1) y = rnd.mul_up(x, y);
    pwr >>= 1;
  }
  return y;
""", """  T x = x_;
  T y = (pwr & 1) ? x_ : static_cast<T>(1);
  while ((pwr >>= 1) > 0) {
    x = rnd.mul_up(x, x);
    if (!(pwr & 1)) continue;
    y = rnd.mul_up(x, y);
  }
  return y;
""")
e(A2, """  if (pwr == 0)
    return I(static_cast<T>(1));
  else if (pwr < 0)
    return interval_lib::multiplicative_inverse(pow(x, -pwr));
""", """  if (pwr < 0)
    return interval_lib::multiplicative_inverse(pow(x, -pwr));
  if (pwr == 0)
    return I(static_cast<T>(1));
""")
e(A2, """    T yl = pow_dn(static_cast<T>(-x.upper()), pwr, rnd);
    T yu = pow_up(static_cast<T>(-x.lower()), pwr, rnd);
    if (pwr & 1)     // [-2,-1]^1
      return I(-yu, -yl, true);
    else             // [-2,-1]^2
      return I(yl, yu, true);
""", """    const T nl = -x.upper(), nu = -x.lower();
    I r(pow_dn(nl, pwr, rnd), pow_up(nu, pwr, rnd), true);
    return (pwr & 1) ? -r : r;
""")
e(A2, """  T l = !interval_lib::user::is_pos(x.lower()) ? static_cast<T>(0) : rnd.sqrt_down(x.lower());
  return I(l, rnd.sqrt_up(x.upper()), true);
""", """  T u = rnd.sqrt_up(x.upper());
  T l = static_cast<T>(0);
  if (interval_lib::user::is_pos(x.lower()))
    l = rnd.sqrt_down(x.lower());
  return I(l, u, true);
""")
e(A2, """  if (interval_lib::user::is_neg(xu))
    return I(rnd.mul_down(xu, xu), rnd.mul_up(xl, xl), true);
  else if (interval_lib::user::is_pos(x.lower()))
    return I(rnd.mul_down(xl, xl), rnd.mul_up(xu, xu), true);
  else
    return I(static_cast<T>(0), (-xl > xu ? rnd.mul_up(xl, xl) : rnd.mul_up(xu, xu)), true);
""", """  const I a = abs(x);
  T lo = a.lower();
  T l = interval_lib::user::is_zero(lo) ? static_cast<T>(0) : rnd.mul_down(lo, lo);
  (void)xl; (void)xu;
  return I(l, rnd.mul_up(a.upper(), a.upper()), true);
""")
e(A2, """#include <boost/numeric/interval/policies.hpp>
""", """#include <boost/numeric/interval/policies.hpp>
#include <boost/numeric/interval/utility.hpp>
""")
e(A2, """  for(;;) {
    T y0 = median(y);
    I yy = intersect(y, y0 - (pow(I(y0, y0, true), k) - x) / (tk * pow(y, k - 1)));
    if (equal(y, yy)) return y;
    y = yy;
  }
""", """  I prev(y);
  do {
    prev = y;
    const T m = median(prev);
    const I num = pow(I(m, m, true), k) - x;
    const I den = tk * pow(prev, k - 1);
    const I newton = m - num / den;
    y = intersect(prev, newton);
  } while (!equal(prev, y));
  return prev;
""")
e(A2, """  if (x > one) return root_aux<I>(x, k).lower();
  if (x == one) return one;
  return rnd.div_down(one, root_aux<I>(rnd.div_up(one, x), k).upper());
""", """  if (x < one) {
    const T inv = rnd.div_up(one, x);
    const I r = root_aux<I>(inv, k);
    return rnd.div_down(one, r.upper());
  } else if (x > one) {
    const I r = root_aux<I>(x, k);
    return r.lower();
  }
  return one;
""")
e(A2, """      return I(-interval_lib::detail::root_aux_up<R>(-x.lower(), k),
               -interval_lib::detail::root_aux_dn<R>(-x.upper(), k), true);
""", """      T hi = interval_lib::detail::root_aux_dn<R>(-x.upper(), k);
      T lo = interval_lib::detail::root_aux_up<R>(-x.lower(), k);
      return I(-lo, -hi, true);
""")
# ---- utility.hpp
e(U, """  typename Policies::rounding rnd;
  return interval<T, Policies>(rnd.sub_down(x.lower(), v),
                               rnd.add_up  (x.upper(), v), true);
""", """  typename Policies::rounding rnd;
  T u = rnd.add_up(x.upper(), v);
  T l = rnd.sub_down(x.lower(), v);
  return interval<T, Policies>(l, u, true);
""")
e(U, """  if (interval_lib::detail::test_input(x)) return false;
  return (!interval_lib::user::is_pos(x.lower())) &&
         (!interval_lib::user::is_neg(x.upper()));
""", """  return !(interval_lib::detail::test_input(x) ||
           interval_lib::user::is_pos(x.lower()) ||
           interval_lib::user::is_neg(x.upper()));
""")
e(U, """  if (interval_lib::detail::test_input(x, y)) return false;
  return y.lower() <= x && x <= y.upper();
""", """  if (interval_lib::detail::test_input(x, y)) return false;
  if (x < y.lower()) return false;
  if (x > y.upper()) return false;
  return true;
""")
e(U, """  if (empty(x)) return true;
  return !empty(y) && y.lower() <= x.lower() && x.upper() <= y.upper();
""", """  return empty(x) || (!empty(y) && x.lower() >= y.lower() && y.upper() >= x.upper());
""")
e(U, """  if (empty(y)) return false;
  if (empty(x)) return true;
  return y.lower() <= x.lower() && x.upper() <= y.upper() &&
         (y.lower() != x.lower() || x.upper() != y.upper());
""", """  return subset(x, y) && !equal(x, y);
""")
e(U, """  if (interval_lib::detail::test_input(x, y)) return false;
  return (x.lower() <= y.lower() && y.lower() <= x.upper()) ||
         (y.lower() <= x.lower() && x.lower() <= y.upper());
""", """  if (interval_lib::detail::test_input(x, y)) return false;
  return x.lower() <= y.upper() && y.lower() <= x.upper();
""")
e(U, """  if (empty(x)) return empty(y);
  return !empty(y) && x.lower() == y.lower() && x.upper() == y.upper();
""", """  const bool ex = empty(x), ey = empty(y);
  if (ex || ey) return ex == ey;
  if (x.lower() == y.lower()) return x.upper() == y.upper();
  return false;
""")
e(U, """  if (l <= u) return interval<T, Policies>(l, u, true);
  else        return interval<T, Policies>::empty();
""", """  if (u < l) return interval<T, Policies>::empty();
  return interval<T, Policies>(l, u, true);
""")
e(U, """  if (bad_x)
    if (bad_y) return interval<T, Policies>::empty();
    else       return y;
  else
    if (bad_y) return x;
""", """  if (bad_x && bad_y) return interval<T, Policies>::empty();
  if (bad_x) return y;
  if (bad_y) return x;
""")
e(U, """  const T m = median(x);
  return std::pair<I,I>(I(x.lower(), m, true), I(m, x.upper(), true));
""", """  const T m(median(x));
  const I left(x.lower(), m, true);
  const I right(m, x.upper(), true);
  return std::make_pair(left, right);
""")
e(U, """  BOOST_USING_STD_MAX();
  return max BOOST_PREVENT_MACRO_SUBSTITUTION(static_cast<T>(-x.lower()), x.upper());
""", """  const T m = -x.lower();
  return x.upper() > m ? x.upper() : m;
""")
e(U, """  if (!interval_lib::user::is_neg(x.lower())) return x;
  if (!interval_lib::user::is_pos(x.upper())) return I(-x.upper(), -x.lower(), true);
  BOOST_USING_STD_MAX();
  return I(static_cast<T>(0), max BOOST_PREVENT_MACRO_SUBSTITUTION(static_cast<T>(-x.lower()), x.upper()), true);
""", """  if (interval_lib::user::is_neg(x.lower()) && interval_lib::user::is_pos(x.upper()))
    return I(static_cast<T>(0), norm(x), true);
  return interval_lib::user::is_neg(x.lower()) ? I(-x.upper(), -x.lower(), true) : x;
""")
e(U, """  return I(max BOOST_PREVENT_MACRO_SUBSTITUTION(x, y.lower()), max BOOST_PREVENT_MACRO_SUBSTITUTION(x, y.upper()), true);
""", """  const T& l = x < y.lower() ? y.lower() : x;
  const T& u = x < y.upper() ? y.upper() : x;
  return I(l, u, true);
""")
# ---- interval.hpp
e(I, """interval<T, Policies>::interval(T const &l, T const &u): low(l), up(u)
{
  if (checking::is_nan(l) || checking::is_nan(u) || !(l <= u))
    set_empty();
}
""", """interval<T, Policies>::interval(T const &l, T const &u)
{
  assign(l, u);
}
""")
e(I, """interval<T, Policies>::interval(T1 const &v)
{
  if (checking::is_nan(v)) set_empty();
  else {
    rounding rnd;
    low = rnd.conv_down(v);
    up  = rnd.conv_up  (v);
  }
}
""", """interval<T, Policies>::interval(T1 const &v)
{
  *this = v;
}
""")
e(I, """  if (checking::is_nan(v)) set_empty();
  else low = up = v;
  return *this;
""", """  if (checking::is_nan(v)) { set_empty(); return *this; }
  up = v;
  low = v;
  return *this;
""")
e(I, """  bool bad_x = checking::is_nan(x);
  bool bad_y = checking::is_nan(y);
  if (bad_x)
    if (bad_y) return interval::empty();
    else       return interval(y, y, true);
  else
    if (bad_y) return interval(x, x, true);
  if (x <= y) return interval(x, y, true);
  else        return interval(y, x, true);
""", """  bool bad_x = checking::is_nan(x);
  bool bad_y = checking::is_nan(y);
  if (bad_x && bad_y) return interval::empty();
  const T& a = bad_x ? y : x;
  const T& b = bad_y ? x : y;
  return b < a ? interval(b, a, true) : interval(a, b, true);
""")
e(I, """  if (!checking::is_empty(low, up)) {
    if (up < r.low) return true;
    else if (low >= r.up) return false;
  }
  throw interval_lib::comparison_error();
""", """  if (checking::is_empty(low, up)) throw interval_lib::comparison_error();
  const bool yes = up < r.low;
  const bool no = r.up <= low;
  if (yes || no) return yes;
  throw interval_lib::comparison_error();
""")
e(I, """    if (up == r.val && low == r.val) return true;
    else if (up < r.val || low > r.val) return false;
  }
  throw interval_lib::comparison_error();
""", """    if (up < r.val || low > r.val) return false;
    if (low == up) return true;
  }
  throw interval_lib::comparison_error();
""")
# ---- transc.hpp
e(T, """  T l = !interval_lib::user::is_pos(x.lower())
             ? checking::neg_inf() : rnd.log_down(x.lower());
  return I(l, rnd.log_up(x.upper()), true);
""", """  T u = rnd.log_up(x.upper());
  if (interval_lib::user::is_pos(x.lower()))
    return I(rnd.log_down(x.lower()), u, true);
  return I(checking::neg_inf(), u, true);
""")
e(T, """  if (u <= interval_lib::constants::pi_lower<T>())
    return I(rnd.cos_down(u), rnd.cos_up(l), true);
  else if (u <= pi2.lower())
    return I(static_cast<T>(-1), rnd.cos_up(min BOOST_PREVENT_MACRO_SUBSTITUTION(rnd.sub_down(pi2.lower(), u), l)), true);
  else
    return I(static_cast<T>(-1), static_cast<T>(1), true);
""", """  if (u > pi2.lower())
    return I(static_cast<T>(-1), static_cast<T>(1), true);
  if (u <= interval_lib::constants::pi_lower<T>()) {
    T hi = rnd.cos_up(l);
    T lo = rnd.cos_down(u);
    return I(lo, hi, true);
  }
  const T d = rnd.sub_down(pi2.lower(), u);
  const T m = min BOOST_PREVENT_MACRO_SUBSTITUTION(d, l);
  return I(static_cast<T>(-1), rnd.cos_up(m), true);
""")
e(T, """  I r = cos((const R&)x - interval_lib::pi_half<R>());
  (void)&rnd;
  return r;
""", """  const R shift = interval_lib::pi_half<R>();
  R t((const R&)x);
  t -= shift;
  R c = cos(t);
  (void)&rnd;
  return I(c.lower(), c.upper(), true);
""")
e(T, """  if (tmp.lower() >= pi_half_d)
    tmp -= pi;
  if (tmp.lower() <= -pi_half_d || tmp.upper() >= pi_half_d)
    return I::whole();
  return I(rnd.tan_down(tmp.lower()), rnd.tan_up(tmp.upper()), true);
""", """  if (tmp.lower() >= pi_half_d)
    tmp = tmp - pi;
  if (tmp.lower() > -pi_half_d && tmp.upper() < pi_half_d) {
    T l = rnd.tan_down(tmp.lower());
    return I(l, rnd.tan_up(tmp.upper()), true);
  }
  return I::whole();
""")
e(T, """  T l = (x.lower() <= static_cast<T>(-1))
             ? -interval_lib::constants::pi_half_upper<T>()
             : rnd.asin_down(x.lower());
  T u = (x.upper() >= static_cast<T>(1) )
             ?  interval_lib::constants::pi_half_upper<T>()
             : rnd.asin_up  (x.upper());
  return I(l, u, true);
""", """  const T hp = interval_lib::constants::pi_half_upper<T>();
  T l = -hp, u = hp;
  if (x.lower() > static_cast<T>(-1)) l = rnd.asin_down(x.lower());
  if (x.upper() < static_cast<T>(1)) u = rnd.asin_up(x.upper());
  return I(l, u, true);
""")
e(T, """  if (interval_lib::user::is_neg(x.upper()))
    return I(rnd.cosh_down(x.upper()), rnd.cosh_up(x.lower()), true);
  else if (!interval_lib::user::is_neg(x.lower()))
    return I(rnd.cosh_down(x.lower()), rnd.cosh_up(x.upper()), true);
  else
    return I(static_cast<T>(1), rnd.cosh_up(-x.lower() > x.upper() ? x.lower() : x.upper()), true);
""", """  const T& xl = x.lower();
  const T& xu = x.upper();
  if (!interval_lib::user::is_neg(xl))
    return I(rnd.cosh_down(xl), rnd.cosh_up(xu), true);
  if (interval_lib::user::is_neg(xu))
    return I(rnd.cosh_down(xu), rnd.cosh_up(xl), true);
  T far = xu;
  if (-xl > xu) far = xl;
  return I(static_cast<T>(1), rnd.cosh_up(far), true);
""")
e(T, """  T l = x.lower() <= static_cast<T>(1) ? static_cast<T>(0) : rnd.acosh_down(x.lower());
  return I(l, rnd.acosh_up(x.upper()), true);
""", """  T l = static_cast<T>(0);
  if (x.lower() > static_cast<T>(1))
    l = rnd.acosh_down(x.lower());
  T u = rnd.acosh_up(x.upper());
  return I(l, u, true);
""")
# ---- rounding / checking / hw
e("rounded_arith.hpp", """  T add_down (const T& x, const T& y) { return x + y; }
  T add_up   (const T& x, const T& y) { return x + y; }
""", """  T add_up   (const T& x, const T& y) { return x + y; }
  T add_down (const T& x, const T& y) { return this->add_up(x, y); }
""")
e("rounded_arith.hpp", """  T add_down(const T& x, const T& y) { BOOST_UP_NEG((-x) - y); }
  T sub_down(const T& x, const T& y) { BOOST_UP_NEG(y - x); }
  T mul_down(const T& x, const T& y) { BOOST_UP_NEG(x * (-y)); }
  T div_down(const T& x, const T& y) { BOOST_UP_NEG(x / (-y)); }
""", """  T add_down(const T& x, const T& y) { const T nx = -x; const T s = this->force_rounding(nx - y); return -s; }
  T sub_down(const T& x, const T& y) { return -sub_up(y, x); }
  T mul_down(const T& x, const T& y) { T nx = -x; return -this->force_rounding(nx * y); }
  T div_down(const T& x, const T& y) { T nx = -x; return -this->force_rounding(nx / y); }
""")
e("rounded_arith.hpp", """  T int_down(const T& x) { this->downward(); return this->to_int(x); }
""", """  T int_down(const T& x) { this->downward(); T r = this->to_int(x); return r; }
""")
e("rounding.hpp", """    this->get_rounding_mode(mode);
    this->init();
""", """    Rounding::get_rounding_mode(mode);
    Rounding::init();
""")
e("checking.hpp", """    return std::numeric_limits<T>::has_quiet_NaN && (x != x);
""", """    if (!std::numeric_limits<T>::has_quiet_NaN) return false;
    return !(x == x);
""")
e("checking.hpp", """    if (Checking::is_nan(x)) Exception()();
    return false;
""", """    const bool bad = Checking::is_nan(x);
    if (bad) {
      Exception ex;
      ex();
    }
    return false;
""")
e("checking.hpp", """    return !(l <= u); // safety for partial orders
""", """    if (l <= u) return false;
    return true;
""")
e("detail/c99sub_rounding_control.hpp", """  static void downward()    { set_rounding_mode(FE_DOWNWARD);   }
  static void upward()      { set_rounding_mode(FE_UPWARD);     }
""", """  static void upward()      { rounding_mode const m = FE_UPWARD; fesetround(m); }
  static void downward()    { fesetround(FE_DOWNWARD); }
""")
e("detail/test_input.hpp", """  typedef typename Policies1::checking checking1;
  typedef typename Policies2::checking checking2;
  return checking1::is_empty(x.lower(), x.upper()) ||
         checking2::is_empty(y.lower(), y.upper());
""", """  if (test_input(x)) return true;
  return test_input(y);
""")
# compare
e("compare/certain.hpp", """  if (detail::test_input(x, y)) throw comparison_error();
  return x.upper() == y.lower() && x.lower() == y.upper();
""", """  if (detail::test_input(x, y)) throw comparison_error();
  const T& v = x.lower();
  return v == x.upper() && v == y.lower() && v == y.upper();
""")
e("compare/tribool.hpp", """  if (x.upper() < y.lower()) return true;
  if (x.lower() >= y.upper()) return false;
  return logic::indeterminate;
""", """  logic::tribool r(logic::indeterminate);
  if (x.upper() < y.lower()) r = true;
  else if (x.lower() >= y.upper()) r = false;
  return r;
""")
e("compare/lexicographic.hpp", """  return xl < yl || (xl == yl && x.upper() < y.upper());
""", """  if (xl < yl) return true;
  if (yl < xl) return false;
  return x.upper() < y.upper();
""")
e("compare/set.hpp", """  return !equal(y, x);
""", """  return !(x == y);
""")
e("compare/explicit.hpp", "@@re:bool cerlt\\(const interval<T, Policies1>& x, const interval<T, Policies2>& y\\)\\n\\{\\n  return x.upper\\(\\) < y.lower\\(\\);", """bool cerlt(const interval<T, Policies1>& x, const interval<T, Policies2>& y)
{
  return y.lower() > x.upper();""")
e("io.hpp", """  if (empty(value))
    return stream << "[]";
  else
    return stream << '[' << lower(value) << ',' << upper(value) << ']';
""", """  if (empty(value)) {
    stream << "[]";
    return stream;
  }
  stream << '[';
  stream << lower(value) << ',';
  stream << upper(value);
  stream << ']';
  return stream;
""")
e("constants.hpp", """static const double pi_d_l = (3373259426.0 + 273688.0 / (1<<21)) / (1<<30);
static const double pi_d_u = (3373259426.0 + 273689.0 / (1<<21)) / (1<<30);
""", """static const double pi_d_base = 3373259426.0;
static const double pi_d_l = (pi_d_base + 273688.0 / 2097152.0) / 1073741824.0;
static const double pi_d_u = (pi_d_base + 273689.0 / 2097152.0) / 1073741824.0;
""")
e("constants.hpp", """  return I(constants::pi_half_lower<T>(),
           constants::pi_half_upper<T>(), true);
""", """  const T l = constants::pi_half_lower<T>();
  const T u = constants::pi_half_upper<T>();
  return I(l, u, true);
""")
e("ext/integer.hpp", """  return x + static_cast<T>(y);
""", """  const T v = static_cast<T>(y);
  return x + v;
""")
