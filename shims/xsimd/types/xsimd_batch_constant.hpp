#include "../../mini/xs.h"
