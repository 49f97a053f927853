// iso7816_apdu.h uses void pointer arithmetic, which C++ does not accept
#include "iso7816_apdu.h"
int shim_apdu_case(const void* p, size_t n) { return iso7816_apdu_case(p, n); }
int shim_sw_success(uint8_t a, uint8_t b) { return iso7816_sw1sw2_is_success(a, b); }
int shim_sw_normal(uint8_t a, uint8_t b) { return iso7816_sw1sw2_is_normal(a, b); }
int shim_sw_warning(uint8_t a, uint8_t b) { return iso7816_sw1sw2_is_warning(a, b); }
int shim_sw_error(uint8_t a, uint8_t b) { return iso7816_sw1sw2_is_error(a, b); }
enum { C1 = ISO7816_APDU_CASE_1, C2S = ISO7816_APDU_CASE_2S, C2E = ISO7816_APDU_CASE_2E, C3S = ISO7816_APDU_CASE_3S, C3E = ISO7816_APDU_CASE_3E, C4S = ISO7816_APDU_CASE_4S, C4E = ISO7816_APDU_CASE_4E };
const int shim_cases[7] = {C1, C2S, C2E, C3S, C3E, C4S, C4E};
