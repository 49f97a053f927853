#undef EMV_DEBUG_ENABLED
#define VARIANT 0
#define EMV_DEBUG_SOURCE EMV_DEBUG_SOURCE_TTL
#define EMV_DEBUG_ENABLED
#include "shim_debug.inc"
