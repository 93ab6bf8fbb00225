"""Operators through each other, delegating constructors, lambdas in macros, platform headers, conditional operators, std algorithms."""
A = "arith.hpp"; D = "detail/division.hpp"; A2 = "arith2.hpp"; U = "utility.hpp"; I = "interval.hpp"; T = "transc.hpp"
EDITS = []
def e(f, old, new, n=1): EDITS.append((f, old, new, n))

# compound through binary, binary through compound
e(A, """  if (interval_lib::detail::test_input(*this, r))
    set_empty();
  else {
    typename Policies::rounding rnd;
    set(rnd.add_down(low, r.low), rnd.add_up(up, r.up));
  }
  return *this;
""", """  const interval sum = *this + r;
  return *this = sum;
""")
e(A, """  if (interval_lib::detail::test_input(*this, r))
    set_empty();
  else {
    typename Policies::rounding rnd;
    set(rnd.sub_down(low, r.up), rnd.sub_up(up, r.low));
  }
  return *this;
""", """  *this = *this - r;
  return *this;
""")
e(A, """  if (interval_lib::detail::test_input(x, y))
    return interval<T, Policies>::empty();
  typename Policies::rounding rnd;
  return interval<T,Policies>(rnd.add_down(x.lower(), y.lower()),
                              rnd.add_up  (x.upper(), y.upper()), true);
""", """  typedef interval<T, Policies> I;
  const bool bad = interval_lib::detail::test_input(x, y);
  if (!bad) {
    typename Policies::rounding rnd;
    const T l(rnd.add_down(x.lower(), y.lower()));
    const T u(rnd.add_up(x.upper(), y.upper()));
    return I(l, u, true);
  }
  return I::empty();
""")
e(A, """template<class T, class Policies> inline
interval<T, Policies> operator-(const T& x, const interval<T, Policies>& y)
""", """namespace interval_lib {
namespace detail {

enum position { below_zero, around_zero, above_zero, only_zero };

template<class T> inline
position where(const T& l, const T& u)
{
  if (user::is_neg(l)) return user::is_pos(u) ? around_zero : below_zero;
  return user::is_pos(u) ? above_zero : only_zero;
}

} // namespace detail
} // namespace interval_lib

template<class T, class Policies> inline
interval<T, Policies> operator-(const T& x, const interval<T, Policies>& y)
""")
e(A, "@@re:  if \\(interval_lib::user::is_neg\\(xl\\)\\)\\n    if \\(interval_lib::user::is_pos\\(xu\\)\\)\\n.*?else +// Z \\* \\?\\n      return I\\(static_cast<T>\\(0\\), static_cast<T>\\(0\\), true\\);\\n", """  using namespace interval_lib::detail;
  const position px = where(xl, xu), py = where(yl, yu);
  if (px == only_zero || py == only_zero)
    return I(static_cast<T>(0), static_cast<T>(0), true);
  if (px == around_zero && py == around_zero) {
    const T lo[2] = { rnd.mul_down(xl, yu), rnd.mul_down(xu, yl) };
    const T hi[2] = { rnd.mul_up(xl, yl), rnd.mul_up(xu, yu) };
    return I(*std::min_element(lo, lo + 2), *std::max_element(hi, hi + 2), true);
  }
  // the corners are selected through pointers
  const T *a, *b, *c, *d;
  if (px == above_zero) {
    a = (py == above_zero) ? &xl : &xu;
    c = (py == below_zero) ? &xl : &xu;
    b = &yl; d = &yu;
  } else if (px == below_zero) {
    a = (py == below_zero) ? &xu : &xl;
    c = (py == above_zero) ? &xu : &xl;
    b = &yu; d = &yl;
  } else if (py == above_zero) {
    a = &xl; b = &yu; c = &xu; d = &yu;
  } else {
    a = &xu; b = &yl; c = &xl; d = &yl;
  }
  return I(rnd.mul_down(*a, *b), rnd.mul_up(*c, *d), true);
""")
e(A, """  if (interval_lib::user::is_neg(x))
    return I(rnd.mul_down(x, yu), rnd.mul_up(x, yl), true);
  else if (interval_lib::user::is_zero(x))
    return I(static_cast<T>(0), static_cast<T>(0), true);
  else
    return I(rnd.mul_down(x, yl), rnd.mul_up(x, yu), true);
""", """  T l(static_cast<T>(0)), u(l);
  if (!interval_lib::user::is_zero(x)) {
    const bool neg = interval_lib::user::is_neg(x);
    const T& dn = neg ? yu : yl;
    const T& up = neg ? yl : yu;
    u = rnd.mul_up(x, up);
    l = rnd.mul_down(x, dn);
  }
  return I(l, u, true);
""")
e(A, """  if (interval_lib::detail::test_input(x, y) || interval_lib::user::is_zero(y))
    return interval<T, Policies>::empty();
""", """  if (interval_lib::detail::test_input(x, y)) return interval<T, Policies>::empty();
  if (interval_lib::user::is_zero(y)) return interval<T, Policies>::empty();
""")
# division
e(D, """  if (::boost::numeric::interval_lib::user::is_neg(xu))
    if (::boost::numeric::interval_lib::user::is_neg(yu))
      return I(rnd.div_down(xu, yl), rnd.div_up(xl, yu), true);
    else
      return I(rnd.div_down(xl, yl), rnd.div_up(xu, yu), true);
  else if (::boost::numeric::interval_lib::user::is_neg(xl))
    if (::boost::numeric::interval_lib::user::is_neg(yu))
      return I(rnd.div_down(xu, yu), rnd.div_up(xl, yu), true);
    else
      return I(rnd.div_down(xl, yl), rnd.div_up(xu, yl), true);
  else
    if (::boost::numeric::interval_lib::user::is_neg(yu))
      return I(rnd.div_down(xu, yu), rnd.div_up(xl, yl), true);
    else
      return I(rnd.div_down(xl, yu), rnd.div_up(xu, yl), true);
""", """  using ::boost::numeric::interval_lib::user::is_neg;
  const bool neg = is_neg(yu);
  const T* num[2] = { neg ? &xu : &xl, neg ? &xl : &xu };
  const T* den[2];
  if (is_neg(xu)) {        // all negative
    den[0] = &yl;
    den[1] = &yu;
  } else if (is_neg(xl)) { // contains zero
    den[0] = den[1] = neg ? &yu : &yl;
  } else {                 // non-negative
    den[0] = &yu;
    den[1] = &yl;
  }
  return I(rnd.div_down(*num[0], *den[0]), rnd.div_up(*num[1], *den[1]), true);
""")
e(D, """  if (::boost::numeric::interval_lib::user::is_zero(x))
    return I(static_cast<T>(0), static_cast<T>(0), true);
  typename Policies::rounding rnd;
  typedef typename Policies::checking checking;
  if (::boost::numeric::interval_lib::user::is_neg(x))
    return I(checking::neg_inf(), rnd.div_up(x, yu), true);
  else
    return I(rnd.div_down(x, yu), checking::pos_inf(), true);
""", """  typedef typename Policies::checking checking;
  if (::boost::numeric::interval_lib::user::is_pos(x)) {
    typename Policies::rounding rnd;
    return I(rnd.div_down(x, yu), checking::pos_inf(), true);
  }
  if (::boost::numeric::interval_lib::user::is_neg(x)) {
    typename Policies::rounding rnd;
    return I(checking::neg_inf(), rnd.div_up(x, yu), true);
  }
  return I(static_cast<T>(0), static_cast<T>(0), true);
""")
# arith2
e(A2, """  T const &yb = interval_lib::user::is_neg(x.lower()) ? y.lower() : y.upper();
  T n = rnd.int_down(rnd.div_down(x.lower(), yb));
  return (const I&)x - n * (const I&)y;
""", """  const bool backward = interval_lib::user::is_neg(x.lower());
  const T q = backward ? rnd.div_down(x.lower(), y.lower()) : rnd.div_down(x.lower(), y.upper());
  const I m((const I&)y * rnd.int_down(q));
  I r((const I&)x);
  r -= m;
  return r;
""")
e(A2, """  T x = x_;
  T y = (pwr & 1) ? x_ : static_cast<T>(1);
  pwr >>= 1;
  while (pwr > 0) {
    x = rnd.mul_down(x, x);
    if (pwr & 1) y = rnd.mul_down(x, y);
    pwr >>= 1;
  }
  return y;
""", """  T y = static_cast<T>(1);
  if (pwr % 2 == 1) y = x_;
  T x(x_);
  for (unsigned rest = static_cast<unsigned>(pwr) / 2u; rest != 0u; rest /= 2u) {
    x = rnd.mul_down(x, x);
    if (rest % 2u) y = rnd.mul_down(x, y);
  }
  return y;
""")
e(A2, """    T yl = pow_dn(static_cast<T>(-x.upper()), pwr, rnd);
    T yu = pow_up(static_cast<T>(-x.lower()), pwr, rnd);
    if (pwr & 1)     // [-2,-1]^1
      return I(-yu, -yl, true);
    else             // [-2,-1]^2
      return I(yl, yu, true);
""", """    const I m(-x.upper(), -x.lower(), true);
    const I p(pow_dn(m.lower(), pwr, rnd), pow_up(m.upper(), pwr, rnd), true);
    if (pwr % 2 == 0) return p;
    return I(-p.upper(), -p.lower(), true);
""")
e(A2, """    return I(rnd.mul_down(xu, xu), rnd.mul_up(xl, xl), true);
  else if (interval_lib::user::is_pos(x.lower()))
    return I(rnd.mul_down(xl, xl), rnd.mul_up(xu, xu), true);
  else
    return I(static_cast<T>(0), (-xl > xu ? rnd.mul_up(xl, xl) : rnd.mul_up(xu, xu)), true);
""", """    return I(rnd.mul_down(xu, xu), rnd.mul_up(xl, xl), true);
  if (interval_lib::user::is_pos(xl))
    return I(rnd.mul_down(xl, xl), rnd.mul_up(xu, xu), true);
  const T big = -xl > xu ? static_cast<T>(-xl) : xu;
  return I(static_cast<T>(0), rnd.mul_up(big, big), true);
""")
e(A2, """  for(;;) {
    T y0 = median(y);
    I yy = intersect(y, y0 - (pow(I(y0, y0, true), k) - x) / (tk * pow(y, k - 1)));
    if (equal(y, yy)) return y;
    y = yy;
  }
""", """  bool stable = false;
  while (!stable) {
    const T mid = median(y);
    const I num = pow(I(mid, mid, true), k) - x;
    const I den = pow(y, k - 1) * tk;
    const I image = mid - num / den;
    const I smaller = intersect(y, image);
    stable = equal(y, smaller);
    if (!stable) y = smaller;
  }
  return y;
""")
e(A2, """  T one(1);
  if (x > one) return root_aux<I>(x, k).lower();
  if (x == one) return one;
  return rnd.div_down(one, root_aux<I>(rnd.div_up(one, x), k).upper());
""", """  const T one(1);
  T r(one);
  if (x > one) {
    const I y = root_aux<I>(x, k);
    r = y.lower();
  } else if (x < one) {
    const T inverse = rnd.div_up(one, x);
    const T root = root_aux<I>(inverse, k).upper();
    r = rnd.div_down(one, root);
  }
  return r;
""")
# utility
e(U, """  if (interval_lib::detail::test_input(x)) {
    typedef typename Policies::checking checking;
    return checking::nan();
  }
  typename Policies::rounding rnd;
  return rnd.median(x.lower(), x.upper());
""", """  if (!empty(x)) {
    typename Policies::rounding rnd;
    return rnd.median(lower(x), upper(x));
  }
  return Policies::checking::nan();
""")
e(U, """  return I(max BOOST_PREVENT_MACRO_SUBSTITUTION(x.lower(), y.lower()), max BOOST_PREVENT_MACRO_SUBSTITUTION(x.upper(), y.upper()), true);
""", """  const T& l = x.lower() < y.lower() ? y.lower() : x.lower();
  const T& u = y.upper() > x.upper() ? y.upper() : x.upper();
  return I(l, u, true);
""")
e(U, """  if (interval_lib::detail::test_input(x)) return static_cast<T>(0);
  typename Policies::rounding rnd;
  return rnd.sub_up(x.upper(), x.lower());
""", """  if (!interval_lib::detail::test_input(x)) {
    typename Policies::rounding rnd;
    const T w = rnd.sub_up(x.upper(), x.lower());
    return w;
  }
  return T(0);
""")
e(U, """  return (x.lower() <= y.lower() && y.lower() <= x.upper()) ||
         (y.lower() <= x.lower() && x.lower() <= y.upper());
""", """  return x.lower() <= y.upper() && y.lower() <= x.upper();
""")
# interval
e(I, """interval<T, Policies>::interval(interval<T, Policies> const &r): low(r.lower()), up(r.upper())
{}
""", """interval<T, Policies>::interval(interval<T, Policies> const &r): interval(r.low, r.up, true)
{}
""")
e(I, """  if (checking::is_nan(v)) set_empty();
  else low = up = v;
  return *this;
""", """  if (checking::is_nan(v)) {
    set_empty();
    return *this;
  }
  T const w(v);
  up = w;
  low = w;
  return *this;
""")
e(I, """  low = r.lower();
  up  = r.upper();
  return *this;
""", """  if (this != &r) {
    low = r.low;
    up  = r.up;
  }
  return *this;
""")
e(I, """    if (up <= r.low) return true;
    else if (low > r.up) return false;
""", """    if (low > r.up) return false;
    if (r.low >= up) return true;
""")
# elementary functions
e(T, """  if (width(tmp) >= pi2.lower())
    return I(static_cast<T>(-1), static_cast<T>(1), true); // we are covering a full period
""", """  const I full(static_cast<T>(-1), static_cast<T>(1), true);
  if (!(width(tmp) < pi2.lower()))
    return full; // we are covering a full period
""")
e(T, """  T u = (x.upper() >= static_cast<T>(1) )
             ?  interval_lib::constants::pi_half_upper<T>()
             : rnd.asin_up  (x.upper());
  return I(l, u, true);
""", """  const T one = static_cast<T>(1);
  if (x.upper() < one)
    return I(l, rnd.asin_up(x.upper()), true);
  return I(l, interval_lib::constants::pi_half_upper<T>(), true);
""")
e(T, """  if (tmp.lower() >= pi_half_d)
    tmp -= pi;
  if (tmp.lower() <= -pi_half_d || tmp.upper() >= pi_half_d)
    return I::whole();
  return I(rnd.tan_down(tmp.lower()), rnd.tan_up(tmp.upper()), true);
""", """  const R z = tmp.lower() >= pi_half_d ? tmp - pi : tmp;
  const bool pole = z.upper() >= pi_half_d || -z.lower() >= pi_half_d;
  return pole ? I::whole() : I(rnd.tan_down(z.lower()), rnd.tan_up(z.upper()), true);
""")
# rounding
e("rounded_arith.hpp", """# define BOOST_DN(EXPR) \\
    this->downward(); \\
    T r = this->force_rounding(EXPR); \\
    this->upward(); \\
    return r
""", """# define BOOST_DN(EXPR) \\
    this->downward(); \\
    struct restore { rounded_arith_opp& o; ~restore() { o.upward(); } } back = { *this }; \\
    return this->force_rounding(EXPR)
""")
e("rounded_arith.hpp", """  T mul_down(const T& x, const T& y) { BOOST_UP_NEG(x * (-y)); }
""", """  T mul_down (const T& x, const T& y) { T const ny = -y; T const p = this->force_rounding(x * ny); return -p; }
""")
e("rounded_transc.hpp", """    T f##_down(const T& x) \\
    { BOOST_NUMERIC_INTERVAL_using_math(f); \\
      this->downward(); return this->force_rounding(f(x)); } \\
""", """    T f##_down(const T& x) \\
    { BOOST_NUMERIC_INTERVAL_using_math(f); \\
      auto eval = [&]() { return f(x); }; \\
      this->downward(); return this->force_rounding(eval()); } \\
""")
e("rounding.hpp", """  save_state() {
    this->get_rounding_mode(mode);
    this->init();
  }
""", """  save_state(): mode(current(*this)) { this->init(); }
  static typename Rounding::rounding_mode current(Rounding& r)
  {
    typename Rounding::rounding_mode m;
    r.get_rounding_mode(m);
    return m;
  }
""")
e("rounding.hpp", """  typename Rounding::rounding_mode mode;
""", """  typename Rounding::rounding_mode const mode;
""")
# platforms
e("detail/x86_rounding_control.hpp", """static const fpu_rounding_modes rnd_mode = { 0x137f, 0x177f, 0x1b7f, 0x1f7f };
""", """enum fpu_control { fpu_masked = 0x007f, fpu_extended = 0x0300, fpu_affine = 0x1000, fpu_rc_shift = 10 };
static const fpu_rounding_modes rnd_mode = {
  fpu_affine | fpu_extended | fpu_masked,
  fpu_affine | fpu_extended | fpu_masked | (1 << fpu_rc_shift),
  fpu_affine | fpu_extended | fpu_masked | (2 << fpu_rc_shift),
  fpu_affine | fpu_extended | fpu_masked | (3 << fpu_rc_shift) };
""")
e("detail/x86gcc_rounding_control.hpp", """    T r_;
    __asm__ __volatile__ ("frndint" : "=&t"(r_) : "0"(r));
    return r_;
""", """    __asm__ __volatile__ ("frndint" : "+t"(r));
    return r;
""")
e("detail/sparc_rounding_control.hpp", """  static void downward()    { set_rounding_mode(0xc0000000); }
  static void upward()      { set_rounding_mode(0x80000000); }
  static void to_nearest()  { set_rounding_mode(0x00000000); }
  static void toward_zero() { set_rounding_mode(0x40000000); }
""", """  enum direction { nearest_ = 0u, zero_ = 1u, up_ = 2u, down_ = 3u };
  static void select(direction d) { set_rounding_mode(static_cast<rounding_mode>(d) << 30); }
  static void downward()    { select(down_); }
  static void upward()      { select(up_); }
  static void to_nearest()  { select(nearest_); }
  static void toward_zero() { select(zero_); }
""")
e("detail/ppc_rounding_control.hpp", """    float tmp;
    __asm__ __volatile__ ("frsp %0, %1" : "=f" (tmp) : "f" (r));
    return tmp;
""", """    float result;
    __asm__ __volatile__ ("frsp %0, %1" : "=f" (result) : "f" (r));
    return result;
""")
e("detail/alpha_rounding_control.hpp", """    static void set_rounding_mode(const rounding_mode mode)
""", """    static void set_rounding_mode(rounding_mode mode)
""")
# comparisons
e("compare/possible.hpp", "  return x.lower() != y || x.upper() != y;", "  return !(x.lower() == y && y == x.upper());")
e("compare/certain.hpp", """  return x.upper() < y.lower() || x.lower() > y.upper();
""", """  const bool before = x.upper() < y.lower();
  const bool after  = y.upper() < x.lower();
  return before != after;
""")
e("compare/set.hpp", """  return proper_subset(x, y);
""", """  return subset(x, y) && !equal(x, y);
""")
e("io.hpp", """    return stream << '[' << lower(value) << ',' << upper(value) << ']';
""", """  {
    stream << '[';
    stream << lower(value);
    stream << ',';
    stream << upper(value);
    return stream << ']';
  }
""")
