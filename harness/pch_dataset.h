#include "pch_variable.h"
#include "scipp/dataset/dataset.h"
