#pragma once
#define SCIPP_VARIABLE_EXPORT
#define SCIPP_VARIABLE_NO_EXPORT
#define SCIPP_VARIABLE_DEPRECATED
