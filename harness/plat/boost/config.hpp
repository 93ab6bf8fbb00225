// stub: only what the rounding headers need
#ifndef STUB_BOOST_CONFIG
#define STUB_BOOST_CONFIG
namespace boost { typedef long long long_long_type; typedef unsigned long long ulong_long_type; }
#endif
