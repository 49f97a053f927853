#include "print_helpers.h"
const int shim_src[4] = {EMV_DEBUG_SOURCE_TTL, EMV_DEBUG_SOURCE_TAL, EMV_DEBUG_SOURCE_EMV, EMV_DEBUG_SOURCE_APP};
const int shim_level[4] = {EMV_DEBUG_ERROR, EMV_DEBUG_INFO, EMV_DEBUG_CARD, EMV_DEBUG_TRACE};
const int shim_type[6] = {EMV_DEBUG_TYPE_MSG, EMV_DEBUG_TYPE_DATA, EMV_DEBUG_TYPE_TLV, EMV_DEBUG_TYPE_CAPDU, EMV_DEBUG_TYPE_RAPDU, EMV_DEBUG_TYPE_ATR};
void shim_print_debug(int verbose, unsigned ts, int src, int level, int type, const char* s, const void* b, size_t n)
{
	(verbose ? print_emv_debug_verbose : print_emv_debug)(ts, src, level, type, s, b, n);
}
