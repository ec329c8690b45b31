#include "mini/casa_arrays.h"
#include "mini/casa_util.h"
#include "mini/casa_measures.h"
#include "mini/casa_tables.h"
