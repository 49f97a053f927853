#undef EMV_DEBUG_ENABLED
#define VARIANT 3
#define EMV_DEBUG_SOURCE EMV_DEBUG_SOURCE_APP
#define EMV_DEBUG_ENABLED
#include "shim_debug.inc"
