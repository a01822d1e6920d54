/* Configuration header used by the verification harnesses in place of the one
 * CMake generates from src/LvArrayConfig.hpp.in.  Options are chosen per build
 * on the command line (-DLVARRAY_BOUNDS_CHECK, ...). */
#pragma once
#define LVARRAY_VERSION_MAJOR 0
#define LVARRAY_VERSION_MINOR 2
#define LVARRAY_VERSION_PATCHLEVEL 2
