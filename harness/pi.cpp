// the enclosures of pi, pi/2 and 2 pi, as constants and as intervals
#include <boost/numeric/interval.hpp>
namespace bn = boost::numeric;
namespace il = bn::interval_lib;
#define CONST(N, T) \
extern "C" T N##_pi_l() { return il::constants::pi_lower<T>(); } extern "C" T N##_pi_u() { return il::constants::pi_upper<T>(); } \
extern "C" T N##_half_l() { return il::constants::pi_half_lower<T>(); } extern "C" T N##_half_u() { return il::constants::pi_half_upper<T>(); } \
extern "C" T N##_twice_l() { return il::constants::pi_twice_lower<T>(); } extern "C" T N##_twice_u() { return il::constants::pi_twice_upper<T>(); }
CONST(f, float) CONST(d, double) CONST(l, long double) CONST(i, int) CONST(s, short) CONST(u, unsigned) CONST(ll, long long)
#define INTV(N, T, P) typedef bn::interval<T, P > I##N; \
extern "C" void N##_ipi(T *a, T *b) { I##N x = il::pi<I##N>(); *a = x.lower(); *b = x.upper(); } \
extern "C" void N##_ihalf(T *a, T *b) { I##N x = il::pi_half<I##N>(); *a = x.lower(); *b = x.upper(); } \
extern "C" void N##_itwice(T *a, T *b) { I##N x = il::pi_twice<I##N>(); *a = x.lower(); *b = x.upper(); }
#define EACH(N, T) INTV(N##_def, T, il::default_policies<T>::type) \
  typedef il::policies<il::rounded_math<T>, il::checking_base<T> > N##pb; INTV(N##_base, T, N##pb) \
  typedef il::policies<il::rounded_math<T>, il::checking_no_nan<T> > N##pn; INTV(N##_nonan, T, N##pn)
EACH(f, float) EACH(d, double) EACH(l, long double) EACH(i, int)
// a base type that is neither built in nor specialised
struct My { long v; My(int a): v(a) {} My(): v(0) {} };
extern "C" long m_pi_l() { return il::constants::pi_lower<My>().v; } extern "C" long m_pi_u() { return il::constants::pi_upper<My>().v; }
extern "C" long m_half_l() { return il::constants::pi_half_lower<My>().v; } extern "C" long m_half_u() { return il::constants::pi_half_upper<My>().v; }
extern "C" long m_twice_l() { return il::constants::pi_twice_lower<My>().v; } extern "C" long m_twice_u() { return il::constants::pi_twice_upper<My>().v; }
