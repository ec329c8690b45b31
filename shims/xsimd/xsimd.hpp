#include "../mini/xs.h"
