#undef EMV_DEBUG_ENABLED
#define VARIANT 4
#define EMV_DEBUG_SOURCE EMV_DEBUG_SOURCE_APP
#include "shim_debug.inc"
