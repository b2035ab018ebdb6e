#pragma once
#include "scipp/variable/variable.h"
