"""Iterations and reductions in other shapes: do-while, iteration steps in helpers, half-angle folding without recursion, powers by division."""
A = "arith.hpp"; D = "detail/division.hpp"; A2 = "arith2.hpp"; U = "utility.hpp"; I = "interval.hpp"; T = "transc.hpp"
EDITS = []
def e(f, old, new, n=1): EDITS.append((f, old, new, n))

# --- pow: division instead of shifts, a helper for one step, the last square left out
e(A2, """  T x = x_;
  T y = (pwr & 1) ? x_ : static_cast<T>(1);
  pwr >>= 1;
  while (pwr > 0) {
    x = rnd.mul_down(x, x);
    if (pwr & 1) y = rnd.mul_down(x, y);
    pwr >>= 1;
  }
  return y;
""", """  T x = x_;
  T y = (pwr % 2 != 0) ? x_ : static_cast<T>(1);
  for (pwr /= 2; pwr != 0; pwr /= 2) {
    x = rnd.mul_down(x, x);
    if (pwr % 2 != 0)
      y = rnd.mul_down(x, y);
  }
  return y;
""")
e(A2, """  T x = x_;
  T y = (pwr & 1) ? x_ : static_cast<T>(1);
  pwr >>= 1;
  while (pwr > 0) {
    x = rnd.mul_up(x, x);
    if (pwr & 1) y = rnd.mul_up(x, y);
    pwr >>= 1;
  }
  return y;
""", """  T x = x_;
  T y = static_cast<T>(1);
  if (pwr & 1) y = x_;
  unsigned bits = static_cast<unsigned>(pwr) >> 1;
  if (!bits) return y;
  do {
    x = rnd.mul_up(x, x);
    if (bits & 1u) y = rnd.mul_up(x, y);
  } while (bits >>= 1);
  return y;
""")
# --- nth_root: one step of the iteration in a helper, the loop a do-while
e(A2, """template< class I > inline
I root_aux(typename I::base_type const &x, int k) // x and k are bigger than one
{
""", """template< class I > inline
I root_step(I const &y, typename I::base_type const &x, typename I::base_type const &tk, int k)
{
  typedef typename I::base_type T;
  T y0 = median(y);
  I slope = tk * pow(y, k - 1);
  I value = pow(I(y0, y0, true), k) - x;
  return intersect(y, y0 - value / slope);
}

template< class I > inline
I root_aux(typename I::base_type const &x, int k) // x and k are bigger than one
{
""")
e(A2, """  for(;;) {
    T y0 = median(y);
    I yy = intersect(y, y0 - (pow(I(y0, y0, true), k) - x) / (tk * pow(y, k - 1)));
    if (equal(y, yy)) return y;
    y = yy;
  }
""", """  I last(y);
  do {
    last = y;
    y = root_step(last, x, tk, k);
  } while (!equal(last, y));
  return y;
""")
e(A2, """  T one(1);
  if (x > one) return root_aux<I>(x, k).upper();
  if (x == one) return one;
  return rnd.div_up(one, root_aux<I>(rnd.div_down(one, x), k).lower());
""", """  const T one(1);
  if (!(x < one))
    return x == one ? one : root_aux<I>(x, k).upper();
  const T inv = rnd.div_down(one, x);
  const I r = root_aux<I>(inv, k);
  return rnd.div_up(one, r.lower());
""")
e(A2, """  T l = !interval_lib::user::is_pos(x.lower()) ? static_cast<T>(0) : rnd.sqrt_down(x.lower());
  return I(l, rnd.sqrt_up(x.upper()), true);
""", """  T u = rnd.sqrt_up(x.upper());
  T l(0);
  if (interval_lib::user::is_pos(x.lower()))
    l = rnd.sqrt_down(x.lower());
  return I(l, u, true);
""")
# --- cos: the reflection folded in, without recursion
e(T, """  if (tmp.lower() >= interval_lib::constants::pi_upper<T>())
    return -cos(tmp - interval_lib::pi<R>());
  T l = tmp.lower();
  T u = tmp.upper();

  BOOST_USING_STD_MIN();
  // separate into monotone subintervals
  if (u <= interval_lib::constants::pi_lower<T>())
    return I(rnd.cos_down(u), rnd.cos_up(l), true);
  else if (u <= pi2.lower())
    return I(static_cast<T>(-1), rnd.cos_up(min BOOST_PREVENT_MACRO_SUBSTITUTION(rnd.sub_down(pi2.lower(), u), l)), true);
  else
    return I(static_cast<T>(-1), static_cast<T>(1), true);
""", """  const bool mirrored = tmp.lower() >= interval_lib::constants::pi_upper<T>();
  if (mirrored) {
    R shifted = tmp - interval_lib::pi<R>();
    tmp = fmod(shifted, pi2);
  }
  const T l = tmp.lower();
  const T u = tmp.upper();
  T rl = static_cast<T>(-1), ru = static_cast<T>(1);

  BOOST_USING_STD_MIN();
  // separate into monotone subintervals
  if (u <= interval_lib::constants::pi_lower<T>()) {
    rl = rnd.cos_down(u);
    ru = rnd.cos_up(l);
  } else if (u <= pi2.lower())
    ru = rnd.cos_up(min BOOST_PREVENT_MACRO_SUBSTITUTION(rnd.sub_down(pi2.lower(), u), l));
  if (mirrored)
    return I(-ru, -rl, true);
  return I(rl, ru, true);
""")
e(T, """  if (tmp.lower() >= pi_half_d)
    tmp -= pi;
  if (tmp.lower() <= -pi_half_d || tmp.upper() >= pi_half_d)
    return I::whole();
  return I(rnd.tan_down(tmp.lower()), rnd.tan_up(tmp.upper()), true);
""", """  const R reduced = tmp.lower() < pi_half_d ? tmp : tmp - pi;
  const bool continuous = -pi_half_d < reduced.lower() && reduced.upper() < pi_half_d;
  return continuous ? I(rnd.tan_down(reduced.lower()), rnd.tan_up(reduced.upper()), true) : I::whole();
""")
