#include "units.hpp"
