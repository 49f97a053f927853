#undef EMV_DEBUG_ENABLED
#define VARIANT 2
#define EMV_DEBUG_SOURCE EMV_DEBUG_SOURCE_EMV
#define EMV_DEBUG_ENABLED
#include "shim_debug.inc"
