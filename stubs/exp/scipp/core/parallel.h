#pragma once
#include "scipp/core/parallel-tbb.h"
