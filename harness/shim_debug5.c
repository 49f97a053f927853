#undef EMV_DEBUG_ENABLED
#define VARIANT 5
#define EMV_DEBUG_SOURCE EMV_DEBUG_SOURCE_EMV
#define EMV_DEBUG_ENABLED
#define EMV_DEBUG_CARD_DISABLED
#include "shim_debug.inc"
