// stream output
#include "common.hpp"
#include <boost/numeric/interval/io.hpp>
H out_c(std::ostream* s, X1, std::ostream** r) { MKX *r = &(*s << x); }
H out_w(std::wostream* s, X1, std::wostream** r) { MKX *r = &(*s << x); }
typedef bn::interval<int, il::policies<il::rounded_math<int>, il::checking_no_nan<int, il::checking_base<int> > > > II;
H out_i(std::ostream* s, int xl, int xu, std::ostream** r) { II x(xl, xu); *r = &(*s << x); }
