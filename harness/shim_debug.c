#undef EMV_DEBUG_ENABLED
#define EMV_DEBUG_ENABLED
#include "emv_debug.h"
const int dbg_src[4] = {EMV_DEBUG_SOURCE_TTL, EMV_DEBUG_SOURCE_TAL, EMV_DEBUG_SOURCE_EMV, EMV_DEBUG_SOURCE_APP};
const int dbg_level[6] = {EMV_DEBUG_NONE, EMV_DEBUG_ERROR, EMV_DEBUG_INFO, EMV_DEBUG_CARD, EMV_DEBUG_TRACE, EMV_DEBUG_ALL};
const int dbg_type[8] = {EMV_DEBUG_TYPE_MSG, EMV_DEBUG_TYPE_DATA, EMV_DEBUG_TYPE_TLV, EMV_DEBUG_TYPE_ATR, EMV_DEBUG_TYPE_CAPDU, EMV_DEBUG_TYPE_RAPDU, EMV_DEBUG_TYPE_CTPDU, EMV_DEBUG_TYPE_RTPDU};
const int dbg_none = EMV_DEBUG_SOURCE_NONE, dbg_all = EMV_DEBUG_SOURCE_ALL;
void dbg_event(int which, unsigned ts, int src, int level, int type, const char* s, const void* buf, size_t n);
static void cb0(unsigned int t, enum emv_debug_source_t s, enum emv_debug_level_t l, enum emv_debug_type_t y, const char* x, const void* b, size_t n) { dbg_event(0, t, s, l, y, x, b, n); }
static void cb1(unsigned int t, enum emv_debug_source_t s, enum emv_debug_level_t l, enum emv_debug_type_t y, const char* x, const void* b, size_t n) { dbg_event(1, t, s, l, y, x, b, n); }
int dbg_set(unsigned mask, int level, int which) { return emv_debug_init(mask, level, which < 0 ? NULL : which ? cb1 : cb0); }
void dbg_emit(int src, int level, int type, const char* s, int n, const void* buf, size_t len) { emv_debug_internal(src, level, type, "%s|%d", buf, len, s, n); }
