"""Operations expressed through one another: subtraction through addition, members through free functions, relations through their mirror image or negation, set operations through other set operations."""
A = "arith.hpp"; D = "detail/division.hpp"; A2 = "arith2.hpp"; U = "utility.hpp"; I = "interval.hpp"; T = "transc.hpp"; TI = "detail/test_input.hpp"
EDITS = []
def e(f, old, new, n=1): EDITS.append((f, old, new, n))

# --- arith.hpp
e(A, """  return interval<T, Policies>(-x.upper(), -x.lower(), true);
""", """  interval<T, Policies> r(x);
  r.set(-x.upper(), -x.lower());
  return r;
""")
e(A, """  typename Policies::rounding rnd;
  return interval<T,Policies>(rnd.sub_down(x.lower(), y.upper()),
                              rnd.sub_up  (x.upper(), y.lower()), true);
""", """  interval<T, Policies> r(x);
  r -= y;
  return r;
""")
e(A, """  typename Policies::rounding rnd;
  return interval<T,Policies>(rnd.sub_down(x.lower(), y),
                              rnd.sub_up  (x.upper(), y), true);
""", """  interval<T, Policies> r(x);
  return r -= y;
""")
e(A, """{ return y + x; }
""", """{
  interval<T, Policies> sum = y + x;
  return sum;
}
""")
e(A, """    typename Policies::rounding rnd;
    set(rnd.add_down(low, r.low), rnd.add_up(up, r.up));
""", """    interval const sum = *this + r;
    low = sum.low;
    up = sum.up;
""")
e(A, """  return *this = *this * r;
""", """  interval product = *this * r;
  set(product.low, product.up);
  return *this;
""")
e(A, """  return *this = r * *this;
""", """  interval const& self = *this;
  return operator=(self * r);
""")
e(A, """  if (interval_lib::user::is_neg(y))
    return interval<T, Policies>(rnd.div_down(xu, y), rnd.div_up(xl, y), true);
  else
    return interval<T, Policies>(rnd.div_down(xl, y), rnd.div_up(xu, y), true);
""", """  const bool mirrored = interval_lib::user::is_neg(y);
  const T& numerator_of_lower = mirrored ? xu : xl;
  const T& numerator_of_upper = mirrored ? xl : xu;
  return interval<T, Policies>(rnd.div_down(numerator_of_lower, y), rnd.div_up(numerator_of_upper, y), true);
""")
# the sign classes of the divisor as an enumeration
e(A, """  if (zero_in(y))
    if (!interval_lib::user::is_zero(y.lower()))
      if (!interval_lib::user::is_zero(y.upper()))
        return interval_lib::detail::div_zero(x);
      else
        return interval_lib::detail::div_negative(x, y.lower());
    else
      if (!interval_lib::user::is_zero(y.upper()))
        return interval_lib::detail::div_positive(x, y.upper());
      else
        return interval<T, Policies>::empty();
  else
    return interval_lib::detail::div_non_zero(x, y);
""", """  switch (interval_lib::detail::divisor_sign(y)) {
  case interval_lib::detail::divisor_null:     return interval<T, Policies>::empty();
  case interval_lib::detail::divisor_negative: return interval_lib::detail::div_negative(x, y.lower());
  case interval_lib::detail::divisor_positive: return interval_lib::detail::div_positive(x, y.upper());
  case interval_lib::detail::divisor_mixed:    return interval_lib::detail::div_zero(x);
  default:                                     return interval_lib::detail::div_non_zero(x, y);
  }
""")
e(D, """template<class T, class Policies> inline
interval<T, Policies> div_non_zero(const interval<T, Policies>& x,
""", """enum divisor_class { divisor_null, divisor_negative, divisor_positive, divisor_mixed, divisor_without_zero };

// y is not empty
template<class T, class Policies> inline
divisor_class divisor_sign(const interval<T, Policies>& y)
{
  if (user::is_pos(y.lower()) || user::is_neg(y.upper())) return divisor_without_zero;
  const int below = user::is_zero(y.lower()) ? 0 : 1;
  const int above = user::is_zero(y.upper()) ? 0 : 2;
  return static_cast<divisor_class>(below | above);
}

template<class T, class Policies> inline
interval<T, Policies> div_non_zero(const interval<T, Policies>& x,
""")
# a divisor [yl, 0] is the mirror image of [0, -yl]
e(D, """  typename Policies::rounding rnd;
  typedef interval<T, Policies> I;
  const T& xl = x.lower();
  const T& xu = x.upper();
  typedef typename Policies::checking checking;
  if (::boost::numeric::interval_lib::user::is_neg(xu))
    return I(rnd.div_down(xu, yl), checking::pos_inf(), true);
  else if (::boost::numeric::interval_lib::user::is_neg(xl))
    return I(checking::neg_inf(), checking::pos_inf(), true);
  else
    return I(checking::neg_inf(), rnd.div_up(xl, yl), true);
""", """  return div_positive(interval<T, Policies>(-x.upper(), -x.lower(), true), static_cast<T>(-yl));
""")
e(D, """    { b = true;  return I(checking::neg_inf(), rnd.div_up(xu, yu), true); }
  else if (!::boost::numeric::interval_lib::user::is_pos(xl))
    { b = false; return I(checking::neg_inf(), checking::pos_inf(), true); }
  else
    { b = true;  return I(checking::neg_inf(), rnd.div_up(xl, yl), true); }
""", """    b = true;
  else
    b = ::boost::numeric::interval_lib::user::is_pos(xl);
  if (!b)
    return I(checking::neg_inf(), checking::pos_inf(), true);
  const bool below = ::boost::numeric::interval_lib::user::is_neg(xu);
  return I(checking::neg_inf(), below ? rnd.div_up(xu, yu) : rnd.div_up(xl, yl), true);
""")
e(D, """  if (::boost::numeric::interval_lib::user::is_neg(x.upper()))
    return I(rnd.div_down(x.upper(), y.lower()), checking::pos_inf(), true);
  else
    return I(rnd.div_down(x.lower(), y.upper()), checking::pos_inf(), true);
""", """  const bool below = ::boost::numeric::interval_lib::user::is_neg(x.upper());
  const T& num = below ? x.upper() : x.lower();
  const T& den = below ? y.lower() : y.upper();
  return I(rnd.div_down(num, den), checking::pos_inf(), true);
""")
# --- interval.hpp
e(I, """  if (checking::is_nan(v)) set_empty();
  else {
    rounding rnd;
    low = rnd.conv_down(v);
    up  = rnd.conv_up  (v);
  }
}
""", """  *this = v;
}
""")
e(I, """interval<T, Policies>::interval(T const &l, T const &u): low(l), up(u)
{
  if (checking::is_nan(l) || checking::is_nan(u) || !(l <= u))
    set_empty();
}
""", """interval<T, Policies>::interval(T const &l, T const &u)
{
  assign(l, u);
}
""")
e(I, """  if (checking::is_nan(l) || checking::is_nan(u) || !(l <= u))
    set_empty();
  else set(l, u);
""", """  const bool ordered = !checking::is_nan(l) && !checking::is_nan(u) && l <= u;
  if (ordered) set(l, u);
  else         set_empty();
""")
e(I, """  T const v(u); // u may refer to low
  low = l;
  up  = v;
""", """  const T bounds[2] = { l, u }; // either may refer to a member
  low = bounds[0];
  up  = bounds[1];
""")
e(I, """  low = checking::neg_inf();
  up  = checking::pos_inf();
""", """  *this = interval::whole();
""")
e(I, """  low = checking::empty_lower();
  up  = checking::empty_upper();
""", """  operator=(interval::empty());
""")
e(I, """  typedef typename Policies::checking checking;
  typedef typename Policies::rounding rounding;

  T low;
""", """  typedef typename Policies::checking checking;
  typedef typename Policies::rounding rounding;

  // the value of a relation: true, false or undecided
  static bool decide(bool holds, bool fails)
  {
    if (holds != fails) return holds;
    throw interval_lib::comparison_error();
  }
  void need_value() const
  {
    if (checking::is_empty(low, up))
      throw interval_lib::comparison_error();
  }

  T low;
""")
for h, lo, hi in (("interval", "r.low", "r.up"), ("number", "r.val", "r.val")):
    for op, t, f in (("<", f"up < {lo}", f"low >= {hi}"), (">", f"low > {hi}", f"up <= {lo}"), ("<=", f"up <= {lo}", f"low > {hi}"), (">=", f"low >= {hi}", f"up < {lo}"),
                     ("==", f"up == {lo} && low == {hi}", f"up < {lo} || low > {hi}"), ("!=", f"up < {lo} || low > {hi}", f"up == {lo} && low == {hi}")):
        import re
        pat = r"@@re:(bool interval<T, Policies>::operator%s ?\(const %s_holder& r\) const\n\{\n).*?\n\}\n" % (re.escape(op), h)
        new = "bool interval<T, Policies>::operator%s (const %s_holder& r) const\n{\n  need_value();\n  return decide(%s, %s);\n}\n" % (op, h, t, f)
        e(I, pat, new)
# --- utility.hpp
e(U, """  return (!interval_lib::user::is_pos(x.lower())) &&
         (!interval_lib::user::is_neg(x.upper()));
""", """  const T zero = static_cast<T>(0);
  return in(zero, x);
""")
e(U, """template<class T, class Policies> inline
bool zero_in(const interval<T, Policies>& x)
""", """template<class T, class Policies>
bool in(const T& x, const interval<T, Policies>& y);

template<class T, class Policies> inline
bool zero_in(const interval<T, Policies>& x)
""")
e(U, """  if (empty(y)) return false;
  if (empty(x)) return true;
  return y.lower() <= x.lower() && x.upper() <= y.upper() &&
         (y.lower() != x.lower() || x.upper() != y.upper());
""", """  return subset(x, y) && !subset(y, x);
""")
e(U, """  return (x.lower() <= y.lower() && y.lower() <= x.upper()) ||
         (y.lower() <= x.lower() && x.lower() <= y.upper());
""", """  const bool before = x.upper() < y.lower();
  const bool after  = y.upper() < x.lower();
  return !(before || after);
""")
e(U, """  if (empty(x)) return empty(y);
  return !empty(y) && x.lower() == y.lower() && x.upper() == y.upper();
""", """  return subset(x, y) && subset(y, x);
""")
e(U, """  const T& l = max BOOST_PREVENT_MACRO_SUBSTITUTION(x.lower(), y.lower());
  const T& u = min BOOST_PREVENT_MACRO_SUBSTITUTION(x.upper(), y.upper());
  if (l <= u) return interval<T, Policies>(l, u, true);
  else        return interval<T, Policies>::empty();
""", """  if (!overlap(x, y))
    return interval<T, Policies>::empty();
  return interval<T, Policies>(max BOOST_PREVENT_MACRO_SUBSTITUTION(x.lower(), y.lower()),
                               min BOOST_PREVENT_MACRO_SUBSTITUTION(x.upper(), y.upper()), true);
""")
e(U, """  if (!interval_lib::user::is_neg(x.lower())) return x;
  if (!interval_lib::user::is_pos(x.upper())) return I(-x.upper(), -x.lower(), true);
  BOOST_USING_STD_MAX();
  return I(static_cast<T>(0), max BOOST_PREVENT_MACRO_SUBSTITUTION(static_cast<T>(-x.lower()), x.upper()), true);
""", """  if (interval_lib::user::is_neg(x.lower()) && interval_lib::user::is_pos(x.upper()))
    return I(static_cast<T>(0), norm(x), true);
  return interval_lib::user::is_neg(x.lower()) ? I(-x.upper(), -x.lower(), true) : x;
""")
e(U, """template<class T, class Policies> inline
interval<T, Policies> max BOOST_PREVENT_MACRO_SUBSTITUTION (const T& x, const interval<T, Policies>& y)
{
  typedef interval<T, Policies> I;
  if (interval_lib::detail::test_input(x, y))
    return I::empty();
  BOOST_USING_STD_MAX();
  return I(max BOOST_PREVENT_MACRO_SUBSTITUTION(x, y.lower()), max BOOST_PREVENT_MACRO_SUBSTITUTION(x, y.upper()), true);
}
""", """template<class T, class Policies> inline
interval<T, Policies> max BOOST_PREVENT_MACRO_SUBSTITUTION (const T& x, const interval<T, Policies>& y)
{
  typedef interval<T, Policies> I;
  if (interval_lib::detail::test_input(x, y))
    return I::empty();
  if (x <= y.lower()) return y;
  const T point(x);
  return I(point, point < y.upper() ? y.upper() : point, true);
}
""")
e(U, """  const T m = median(x);
  return std::pair<I,I>(I(x.lower(), m, true), I(m, x.upper(), true));
""", """  std::pair<I,I> halves(x, x);
  const T m = median(x);
  halves.first.set(x.lower(), m);
  halves.second.set(m, x.upper());
  return halves;
""")
# --- arith2.hpp
e(A2, """  typename Policies::rounding rnd;
  typedef typename interval_lib::unprotect<interval<T, Policies> >::type I;
  T n = rnd.int_down(rnd.div_down(x.lower(), y));
  return (const I&)x - n * I(y);
""", """  typename Policies::rounding rnd;
  typedef typename interval_lib::unprotect<interval<T, Policies> >::type I;
  I r(x);
  I p(y);
  p *= rnd.int_down(rnd.div_down(r.lower(), y));
  r -= p;
  return r;
""")
e(A2, """  if (zero_in(y))
    if (!user::is_zero(y.lower()))
      if (!user::is_zero(y.upper()))
        return detail::div_zero_part1(x, y, b);
      else
        return detail::div_negative(x, y.lower());
    else
      if (!user::is_zero(y.upper()))
        return detail::div_positive(x, y.upper());
      else
        return I::empty();
  else
    return detail::div_non_zero(x, y);
""", """  if (user::is_neg(y.lower()) && user::is_pos(y.upper()))
    return detail::div_zero_part1(x, y, b);
  return x / y;
""")
e(A2, """    if (!user::is_zero(x.lower()))
      if (!user::is_zero(x.upper()))
        return I::whole();
      else
        return I(checking::neg_inf(), rnd.div_up(one, x.lower()), true);
    else
      if (!user::is_zero(x.upper()))
        return I(rnd.div_down(one, x.upper()), checking::pos_inf(), true);
      else
        return I::empty();
""", """    const bool lz = user::is_zero(x.lower()), uz = user::is_zero(x.upper());
    if (lz && uz) return I::empty();
    T l = uz || !lz ? checking::neg_inf() : rnd.div_down(one, x.upper());
    T u = lz || !uz ? checking::pos_inf() : rnd.div_up(one, x.lower());
    return I(l, u, true);
""")
e(A2, """  if (interval_lib::user::is_neg(x.upper())) {        // [-2,-1]
    T yl = pow_dn(static_cast<T>(-x.upper()), pwr, rnd);
    T yu = pow_up(static_cast<T>(-x.lower()), pwr, rnd);
    if (pwr & 1)     // [-2,-1]^1
      return I(-yu, -yl, true);
    else             // [-2,-1]^2
      return I(yl, yu, true);
  } else if (interval_lib::user::is_neg(x.lower())) { // [-1,1]
    if (pwr & 1) {   // [-1,1]^1
      return I(-pow_up(static_cast<T>(-x.lower()), pwr, rnd), pow_up(x.upper(), pwr, rnd), true);
    } else {         // [-1,1]^2
      return I(static_cast<T>(0), pow_up(max BOOST_PREVENT_MACRO_SUBSTITUTION(static_cast<T>(-x.lower()), x.upper()), pwr, rnd), true);
    }
  } else {                                // [1,2]
    return I(pow_dn(x.lower(), pwr, rnd), pow_up(x.upper(), pwr, rnd), true);
  }
""", """  if (pwr % 2 == 0) { // the power of the absolute value
    const bool m = interval_lib::user::is_neg(x.lower()) && !interval_lib::user::is_neg(x.upper());
    const I a = abs(x);
    return I(m ? static_cast<T>(0) : pow_dn(a.lower(), pwr, rnd), pow_up(a.upper(), pwr, rnd), true);
  }
  // odd powers are monotone
  T yl = interval_lib::user::is_neg(x.lower()) ? static_cast<T>(-pow_up(static_cast<T>(-x.lower()), pwr, rnd)) : pow_dn(x.lower(), pwr, rnd);
  T yu = interval_lib::user::is_neg(x.upper()) ? static_cast<T>(-pow_dn(static_cast<T>(-x.upper()), pwr, rnd)) : pow_up(x.upper(), pwr, rnd);
  return I(yl, yu, true);
""")
e(A2, """  if (interval_lib::user::is_neg(xu))
    return I(rnd.mul_down(xu, xu), rnd.mul_up(xl, xl), true);
  else if (interval_lib::user::is_pos(x.lower()))
    return I(rnd.mul_down(xl, xl), rnd.mul_up(xu, xu), true);
  else
    return I(static_cast<T>(0), (-xl > xu ? rnd.mul_up(xl, xl) : rnd.mul_up(xu, xu)), true);
""", """  const bool left = -xl > xu; // the bound of larger magnitude
  const T& far_ = left ? xl : xu;
  const T& near_ = left ? xu : xl;
  T l(0);
  if (interval_lib::user::is_neg(xu) || interval_lib::user::is_pos(xl)) l = rnd.mul_down(near_, near_);
  return I(l, rnd.mul_up(far_, far_), true);
""")
e(A2, "@@re:  if \\(!interval_lib::user::is_pos\\(x.upper\\(\\)\\)\\) \\{\\n    if \\(interval_lib::user::is_zero.*?return I\\(interval_lib::detail::root_aux_dn<R>\\(x.lower\\(\\), k\\), u, true\\);\\n",
"""  const T zero(0);
  const bool odd = (k & 1) != 0;
  T bounds[2] = { x.lower(), x.upper() };
  if (!odd) {
    if (interval_lib::user::is_neg(bounds[1])) return I::empty();
    if (interval_lib::user::is_neg(bounds[0])) bounds[0] = zero;
  }
  T l = interval_lib::user::is_pos(bounds[0]) ? interval_lib::detail::root_aux_dn<R>(bounds[0], k)
      : interval_lib::user::is_neg(bounds[0]) ? static_cast<T>(-interval_lib::detail::root_aux_up<R>(-bounds[0], k)) : zero;
  T u = interval_lib::user::is_pos(bounds[1]) ? interval_lib::detail::root_aux_up<R>(bounds[1], k)
      : interval_lib::user::is_neg(bounds[1]) ? static_cast<T>(-interval_lib::detail::root_aux_dn<R>(-bounds[1], k)) : zero;
  return I(l, u, true);
""")
# --- transc.hpp
e(T, """  if (tmp.lower() >= interval_lib::constants::pi_upper<T>())
    return -cos(tmp - interval_lib::pi<R>());
""", """  const bool second_half = tmp.lower() >= interval_lib::constants::pi_upper<T>(); // not for a NaN
  if (second_half) {
    R shifted(tmp);
    shifted -= interval_lib::pi<R>();
    const R c = cos(shifted);
    return I(-c.upper(), -c.lower(), true);
  }
""")
e(T, """  const T pi_half_d = interval_lib::constants::pi_half_lower<T>();
  if (tmp.lower() >= pi_half_d)
    tmp -= pi;
  if (tmp.lower() <= -pi_half_d || tmp.upper() >= pi_half_d)
    return I::whole();
  return I(rnd.tan_down(tmp.lower()), rnd.tan_up(tmp.upper()), true);
""", """  const T limit = interval_lib::constants::pi_half_lower<T>();
  const R branch = tmp.lower() < limit ? tmp : tmp - pi;
  const bool continuous = -limit < branch.lower() && branch.upper() < limit;
  return continuous ? I(rnd.tan_down(branch.lower()), rnd.tan_up(branch.upper()), true) : I::whole();
""")
e(T, """  if (interval_lib::user::is_neg(x.upper()))
    return I(rnd.cosh_down(x.upper()), rnd.cosh_up(x.lower()), true);
  else if (!interval_lib::user::is_neg(x.lower()))
    return I(rnd.cosh_down(x.lower()), rnd.cosh_up(x.upper()), true);
  else
    return I(static_cast<T>(1), rnd.cosh_up(-x.lower() > x.upper() ? x.lower() : x.upper()), true);
""", """  const bool left = -x.lower() > x.upper();
  const T& far_ = left ? x.lower() : x.upper();
  if (interval_lib::user::is_neg(x.lower()) && !interval_lib::user::is_neg(x.upper()))
    return I(static_cast<T>(1), rnd.cosh_up(far_), true);
  const T& near_ = left ? x.upper() : x.lower();
  return I(rnd.cosh_down(near_), rnd.cosh_up(far_), true);
""")
# --- detail/test_input.hpp: two-argument forms through one-argument forms
e(TI, """  typedef typename Policies1::checking checking1;
  typedef typename Policies2::checking checking2;
  return checking1::is_empty(x.lower(), x.upper()) ||
         checking2::is_empty(y.lower(), y.upper());
""", """  if (detail::test_input(x)) return true;
  return detail::test_input(y);
""")
# --- compare
for ns in ("certain", "possible"):
    f = f"compare/{ns}.hpp"
    for op, mir in ((">", "<"), (">=", "<=")):
        pat = r"@@re:bool operator%s\(const interval<T, Policies1>& x, const interval<T, Policies2>& y\)\n\{\n.*?\n\}\n" % re.escape(op)
        e(f, pat, "bool operator%s(const interval<T, Policies1>& x, const interval<T, Policies2>& y)\n{\n  return compare::%s::operator%s(y, x);\n}\n" % (op, ns, mir))
e("compare/tribool.hpp", r"@@re:logic::tribool operator>\(const interval<T, Policies1>& x, const interval<T, Policies2>& y\)\n\{\n.*?\n\}\n",
  "logic::tribool operator>(const interval<T, Policies1>& x, const interval<T, Policies2>& y)\n{\n  return compare::tribool::operator<(y, x);\n}\n")
e("compare/tribool.hpp", r"@@re:logic::tribool operator>=\(const interval<T, Policies1>& x, const interval<T, Policies2>& y\)\n\{\n.*?\n\}\n",
  "logic::tribool operator>=(const interval<T, Policies1>& x, const interval<T, Policies2>& y)\n{\n  return !compare::tribool::operator<(x, y);\n}\n")
e("compare/tribool.hpp", r"@@re:logic::tribool operator!=\(const interval<T, Policies1>& x, const interval<T, Policies2>& y\)\n\{\n.*?\n\}\n",
  "logic::tribool operator!=(const interval<T, Policies1>& x, const interval<T, Policies2>& y)\n{\n  const logic::tribool same = compare::tribool::operator==(x, y);\n  if (logic::indeterminate(same)) return same;\n  return logic::tribool(!same);\n}\n")
# --- arith3.hpp
e("arith3.hpp", """  typename Policies::rounding rnd;
  return I(rnd.sub_down(x, y), rnd.sub_up(x, y), true);
""", """  I r(x, x, true);
  typename Policies::rounding rnd;
  r.set(rnd.sub_down(r.lower(), y), rnd.sub_up(r.upper(), y));
  return r;
""")
