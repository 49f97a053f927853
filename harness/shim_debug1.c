#undef EMV_DEBUG_ENABLED
#define VARIANT 1
#define EMV_DEBUG_SOURCE EMV_DEBUG_SOURCE_TAL
#define EMV_DEBUG_ENABLED
#include "shim_debug.inc"
