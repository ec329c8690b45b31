#include "mini/xt.h"
