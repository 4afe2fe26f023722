// The overriders for one class, in a library. -DLIB_CLASS=B
#include "vptr.hpp"
static optional_overriders<LIB_CLASS> g_overriders;
