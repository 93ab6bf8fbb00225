// stub: the names stand for the directions
#ifndef STUB_FENV
#define STUB_FENV
#define FE_TONEAREST  9001
#define FE_DOWNWARD   9002
#define FE_UPWARD     9003
#define FE_TOWARDZERO 9004
extern "C" int fesetround(int);
extern "C" int fegetround(void);
#endif
