#include <fenv.h>
