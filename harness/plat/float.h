// stub: the control word interfaces of Microsoft, Borland and DEC compilers
#ifndef STUB_FLOAT
#define STUB_FLOAT
#if defined(PLAT_MSVC) || defined(PLAT_BCC)
extern "C" void sink(unsigned value, unsigned mask);
static unsigned kread;
inline unsigned _control87(unsigned value, unsigned mask)
{ if (mask) { sink(value, mask); kread = (kread & ~mask) | (value & mask); } return kread; }
#endif
#if defined(PLAT_MSVC)
#define _MCW_EM        0x0008001f
#define _EM_INEXACT    0x00000001
#define _EM_UNDERFLOW  0x00000002
#define _EM_OVERFLOW   0x00000004
#define _EM_ZERODIVIDE 0x00000008
#define _EM_INVALID    0x00000010
#define _EM_DENORMAL   0x00080000
#define _MCW_RC  0x00000300
#define _RC_NEAR 0x00000000
#define _RC_DOWN 0x00000100
#define _RC_UP   0x00000200
#define _RC_CHOP 0x00000300
#define _MCW_PC  0x00030000
#define _PC_64   0x00000000
#define _PC_53   0x00010000
#define _PC_24   0x00020000
#define _MCW_IC     0x00040000
#define _IC_AFFINE  0x00040000
#define _IC_PROJECTIVE 0x00000000
#elif defined(PLAT_BCC)
#define _RTLENTRY
#define MCW_RC 0x0c00
#define RC_NEAR 0x0000
#define RC_DOWN 0x0400
#define RC_UP   0x0800
#define RC_CHOP 0x0c00
#define MCW_EM 0x003f
#define MCW_PC 0x0300
extern "C" void __emit__(int);
#elif defined(__alpha__)
#define FP_RND_RZ 0
#define FP_RND_RN 1
#define FP_RND_RP 2
#define FP_RND_RM 3
extern "C" unsigned read_rnd(void);
extern "C" unsigned write_rnd(unsigned);
#endif
#endif
