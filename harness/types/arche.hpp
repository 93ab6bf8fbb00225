// Minimal archetypes of the documented requirements on base types and policies.
// Nothing that the documentation does not ask for is available.
#ifndef ARCHE_HPP
#define ARCHE_HPP
struct no { };
template<class A, class B> struct same_ { };
template<class A> struct same_<A, A> { typedef int type; };

// ordering, unary minus, conversion from int (from int only); nothing else
#define BASE_COMMON(N)                                                                             \
  N(); N(const N&); N& operator=(const N&); ~N();                                                  \
  template<class U> N(U, typename same_<U, int>::type = 0);                                        \
  friend bool operator<(const N&, const N&); friend bool operator<=(const N&, const N&);           \
  friend bool operator>(const N&, const N&); friend bool operator>=(const N&, const N&);           \
  friend bool operator==(const N&, const N&); friend bool operator!=(const N&, const N&);          \
  friend N operator-(const N&);

struct Num { BASE_COMMON(Num) };                       // used with user policies
struct Ari { BASE_COMMON(Ari)                          // used with the predefined arithmetic policies
  friend Ari operator+(const Ari&, const Ari&); friend Ari operator-(const Ari&, const Ari&);
  friend Ari operator*(const Ari&, const Ari&); friend Ari operator/(const Ari&, const Ari&);
};
struct Lim { BASE_COMMON(Lim)                          // used with the default policies
  friend Lim operator+(const Lim&, const Lim&); friend Lim operator-(const Lim&, const Lim&);
  friend Lim operator*(const Lim&, const Lim&); friend Lim operator/(const Lim&, const Lim&);
};
struct Fun { BASE_COMMON(Fun)                          // and with the mathematical functions they ask for
  friend Fun operator+(const Fun&, const Fun&); friend Fun operator-(const Fun&, const Fun&);
  friend Fun operator*(const Fun&, const Fun&); friend Fun operator/(const Fun&, const Fun&);
};
struct Src { Src(const Src&); private: Src(); };       // a type that only a rounding policy can convert

namespace std {
  template<class T> class numeric_limits;
  template<> class numeric_limits<Num> { };            // user policies need no numeric limits
  template<> class numeric_limits<Ari> { };
#define LIMITS(T) template<> class numeric_limits<T> { public:                                     \
    static const bool has_infinity = true; static const bool has_quiet_NaN = true;                 \
    static T infinity(); static T quiet_NaN(); };
  LIMITS(Lim) LIMITS(Fun)
  Fun sqrt(const Fun&); Fun floor(const Fun&); Fun ceil(const Fun&);
  Fun exp(const Fun&); Fun log(const Fun&); Fun sin(const Fun&); Fun cos(const Fun&); Fun tan(const Fun&);
  Fun asin(const Fun&); Fun acos(const Fun&); Fun atan(const Fun&); Fun sinh(const Fun&); Fun cosh(const Fun&); Fun tanh(const Fun&);
}
// the inverse hyperbolic functions are looked up in the global namespace with glibc (found by ADL here)
Fun asinh(const Fun&); Fun acosh(const Fun&); Fun atanh(const Fun&);

// the documented members of a rounding policy, not copyable, no other member
#define RD1(T, f) T f##_down(const T&); T f##_up(const T&);
#define RD2(T, f) T f##_down(const T&, const T&); T f##_up(const T&, const T&);
#define ROUNDING(N, T, UNPROT)                                                                     \
struct N {                                                                                         \
  N(); ~N();                                                                                       \
  RD2(T, add) RD2(T, sub) RD2(T, mul) RD2(T, div)                                                  \
  RD1(T, sqrt) RD1(T, exp) RD1(T, log) RD1(T, cos) RD1(T, tan) RD1(T, asin) RD1(T, acos) RD1(T, atan)   \
  RD1(T, sinh) RD1(T, cosh) RD1(T, tanh) RD1(T, asinh) RD1(T, acosh) RD1(T, atanh) SINE(T)         \
  T median(const T&, const T&); RD1(T, int)                                                        \
  T conv_down(const Src&); T conv_up(const Src&); T conv_down(int); T conv_up(int); CONVSELF(T)    \
  UNPROT                                                                                           \
private: N(const N&); N& operator=(const N&);                              \
};
#define SINE(T)
#define CONVSELF(T)
ROUNDING(RndU, Num, typedef RndU unprotected_rounding;)
ROUNDING(Rnd, Num, typedef RndU unprotected_rounding;)
ROUNDING(Rnd2, Num, typedef Rnd2 unprotected_rounding;)

// the documented members of a checking policy (never an object)
#define CHECKING(N, T)                                                                             \
struct N {                                                                                         \
  static T pos_inf(); static T neg_inf(); static T nan(); static bool is_nan(const T&);            \
  static T empty_lower(); static T empty_upper(); static bool is_empty(const T&, const T&);        \
  EXTRA_NAN                                                                                        \
private: N(); N(const N&); ~N();                                                                   \
};
#define EXTRA_NAN
CHECKING(Chk, Num)
CHECKING(Chk2, Num)
CHECKING(ChkA, Ari)

// a rounding control with the documented members only
template<class T> struct Ctl {
  struct rounding_mode { };
  void set_rounding_mode(const rounding_mode&); void get_rounding_mode(rounding_mode&);
  void downward(); void upward(); void to_nearest();
  T to_int(const T&); T force_rounding(const T&);
};
#endif
