#undef EMV_DEBUG_ENABLED
#define VARIANT 8
#define EMV_DEBUG_SOURCE EMV_DEBUG_SOURCE_TAL
#define EMV_DEBUG_ENABLED
#define EMV_DEBUG_TRACE_DISABLED
#include "shim_debug.inc"
