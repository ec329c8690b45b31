#include "mini/everybeam.h"
