#include "mini/casa.h"
