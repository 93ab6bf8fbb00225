#include <cmath>
