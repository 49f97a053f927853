/* every debug macro under one compile time configuration; VARIANT names it */
#include "emv_debug.h"
#include <string.h>
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
void CAT(shim_debug_emit_, VARIANT)(int macro, int form, const char* s, int n, const void* buf, size_t len)
{
	switch (macro) {
		case 0: if (form == 0) emv_debug_error("plain 100%%"); else if (form == 1) emv_debug_error("%s|%d", s, n); else emv_debug_error("%02X:%s:%zu", n & 0xFF, s, len); break;
		case 1: if (form == 0) emv_debug_info("plain 100%%"); else if (form == 1) emv_debug_info("%s|%d", s, n); else emv_debug_info("%02X:%s:%zu", n & 0xFF, s, len); break;
		case 2: if (form == 0) emv_debug_info_data("plain 100%%", buf, len); else if (form == 1) emv_debug_info_data("%s|%d", buf, len, s, n); else emv_debug_info_data("%02X:%s:%zu", buf, len, n & 0xFF, s, len); break;
		case 3: if (form == 0) emv_debug_info_tlv("plain 100%%", buf, len); else if (form == 1) emv_debug_info_tlv("%s|%d", buf, len, s, n); else emv_debug_info_tlv("%02X:%s:%zu", buf, len, n & 0xFF, s, len); break;
		case 4: { struct { unsigned char b[40]; } info; memset(&info, n, sizeof info); emv_debug_atr_info(&info); break; }
		case 5: if (form == 0) emv_debug_apdu("plain 100%%"); else if (form == 1) emv_debug_apdu("%s|%d", s, n); else emv_debug_apdu("%02X:%s:%zu", n & 0xFF, s, len); break;
		case 6: emv_debug_capdu(buf, len); break;
		case 7: emv_debug_rapdu(buf, len); break;
		case 8: emv_debug_ctpdu(buf, len); break;
		case 9: emv_debug_rtpdu(buf, len); break;
		case 10: if (form == 0) emv_debug_trace_msg("plain 100%%"); else if (form == 1) emv_debug_trace_msg("%s|%d", s, n); else emv_debug_trace_msg("%02X:%s:%zu", n & 0xFF, s, len); break;
		case 11: if (form == 0) emv_debug_trace_data("plain 100%%", buf, len); else if (form == 1) emv_debug_trace_data("%s|%d", buf, len, s, n); else emv_debug_trace_data("%02X:%s:%zu", buf, len, n & 0xFF, s, len); break;
	}
}
