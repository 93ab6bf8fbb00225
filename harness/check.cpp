// the checking policies, member by member
#include "common.hpp"
#define F extern "C"
struct OExc { void operator()(); };      // opaque reaction
template<class U> struct V { U v; };
#define CHK(P, U, ...) typedef __VA_ARGS__ P##_t; \
F U P##_pos_inf() { return P##_t::pos_inf(); } F U P##_neg_inf() { return P##_t::neg_inf(); } F U P##_nan() { return P##_t::nan(); } \
F int P##_is_nan(U x) { return P##_t::is_nan(x); } F U P##_empty_lower() { return P##_t::empty_lower(); } \
F U P##_empty_upper() { return P##_t::empty_upper(); } F int P##_is_empty(U l, U u) { return P##_t::is_empty(l, u); } \
F int P##_pair() { return P##_t::is_empty(P##_t::empty_lower(), P##_t::empty_upper()); }
CHK(base, T, il::checking_base<T>)
CHK(noempty, T, il::checking_no_empty<T>)
CHK(nonan, T, il::checking_no_nan<T>)
CHK(catchnan, T, il::checking_catch_nan<T>)
CHK(strict, T, il::checking_strict<T>)
CHK(catchstrict, T, il::checking_catch_nan<T, il::checking_no_empty<T> >)
CHK(noempty_o, T, il::checking_no_empty<T, OChk<T>, OExc>)
CHK(nonan_o, T, il::checking_no_nan<T, OChk<T> >)
CHK(catchnan_o, T, il::checking_catch_nan<T, OChk<T>, OExc>)
CHK(base_i, int, il::checking_base<int>)
CHK(noempty_i, int, il::checking_no_empty<int>)
CHK(nonan_i, int, il::checking_no_nan<int>)
CHK(catchnan_i, int, il::checking_catch_nan<int>)
CHK(strict_i, int, il::checking_strict<int>)
typedef il::checking_base<T> rd;
F int defpol(T l, T u) { return bn::interval<T>::traits_type::checking::is_empty(l, u); }
