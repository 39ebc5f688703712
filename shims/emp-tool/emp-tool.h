#include "emp-ot/emp-ot.h"
