#ifndef STUB_CMATH
#define STUB_CMATH
extern "C" { double sqrt(double); double floor(double); double ceil(double); }
namespace std { using ::sqrt; using ::floor; using ::ceil; }
#endif
