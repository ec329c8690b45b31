#include "mini/ao.h"
