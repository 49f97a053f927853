#undef EMV_DEBUG_ENABLED
#define VARIANT 7
#define EMV_DEBUG_SOURCE EMV_DEBUG_SOURCE_TTL
#define EMV_DEBUG_ENABLED
#define EMV_DEBUG_TPDU_DISABLED
#include "shim_debug.inc"
