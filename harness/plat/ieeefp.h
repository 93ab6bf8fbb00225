// stub: Solaris
#ifndef STUB_IEEEFP
#define STUB_IEEEFP
typedef enum fp_rnd { FP_RN = 0, FP_RZ = 1, FP_RP = 2, FP_RM = 3 } fp_rnd;
extern "C" fp_rnd fpsetround(fp_rnd);
extern "C" fp_rnd fpgetround(void);
#endif
