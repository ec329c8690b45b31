#include "../../mini/h5.h"
