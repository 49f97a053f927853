#undef EMV_DEBUG_ENABLED
#define EMV_DEBUG_ENABLED
#include "emv_debug.h"
static void (*cb)(unsigned, int, int, int, const char*, const void*, size_t);
static void on(unsigned int t, enum emv_debug_source_t s, enum emv_debug_level_t l, enum emv_debug_type_t y, const char* x, const void* b, size_t n) { cb(t, s, l, y, x, b, n); }
unsigned shim_debug_setup(void (*f)(unsigned, int, int, int, const char*, const void*, size_t)) { cb = f; return emv_debug_init(EMV_DEBUG_SOURCE_ALL, EMV_DEBUG_ALL, on); }
