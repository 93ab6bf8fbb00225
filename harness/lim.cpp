// std::numeric_limits of intervals
#include "common.hpp"
#include <boost/numeric/interval/limits.hpp>
typedef std::numeric_limits<I> LI;
H lim_min(T* r) { I z((LI::min)()); put(r, z); }
H lim_max(T* r) { I z((LI::max)()); put(r, z); }
H lim_lowest(T* r) { I z((LI::lowest)()); put(r, z); }
H lim_epsilon(T* r) { I z(LI::epsilon()); put(r, z); }
H lim_denorm(T* r) { I z(LI::denorm_min()); put(r, z); }
H lim_infinity(T* r) { I z(LI::infinity()); put(r, z); }
H lim_qnan(T* r) { I z(LI::quiet_NaN()); put(r, z); }
H lim_snan(T* r) { I z(LI::signaling_NaN()); put(r, z); }
#define C(n) extern "C" int limc_##n() { return (int)LI::n; }
C(is_specialized) C(is_signed) C(is_integer) C(is_exact) C(radix) C(digits) C(digits10) C(max_digits10)
C(min_exponent) C(min_exponent10) C(max_exponent) C(max_exponent10)
C(has_infinity) C(has_quiet_NaN) C(has_signaling_NaN) C(has_denorm) C(is_bounded) C(is_modulo) C(is_iec559) C(round_style)
