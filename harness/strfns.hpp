// Uniform view of every "bytes to text" function of the library.
#ifndef STRFNS_HPP
#define STRFNS_HPP
#include "vh.hpp"
#include "emv_strings.h"
#include "iso7816_strings.h"
#include "iso7816.h"
#include "iso7816_compact_tlv.h"
struct StrFn {
	const char* name;
	int (*fn)(const uint8_t* b, size_t n, char* s, size_t l);  // 0: text produced
	int lo, hi;          // lengths the field is defined for
	bool list;           // newline terminated lines
	bool trunc;          // short buffer shortens the text (otherwise: error)
};
static inline int ret_of(const char* p, const char* s) { return p ? (p == s ? 0 : 99) : 1; }
#define ONE(f) [](const uint8_t* b, size_t n, char* s, size_t l) -> int { if (n != 1 || !b) return -77; return f(b[0], s, l); }
#define MANY(f) [](const uint8_t* b, size_t n, char* s, size_t l) -> int { return f(b, n, s, l); }
static const StrFn STRFNS[] = {
	{"format-a", MANY(emv_format_a_get_string), 1, 40, false, false},
	{"format-an", MANY(emv_format_an_get_string), 1, 40, false, false},
	{"format-ans-space", MANY(emv_format_ans_only_space_get_string), 1, 40, false, false},
	{"format-ans-ccs", MANY(emv_format_ans_ccs_get_string), 1, 40, false, false},
	{"format-cn", MANY(emv_format_cn_get_string), 1, 20, false, false},
	{"format-n", MANY(emv_format_n_get_string), 1, 12, false, false},
	{"amount", MANY(emv_amount_get_string), 1, 4, false, false},
	{"date", MANY(emv_date_get_string), 3, 3, false, false},
	{"time", MANY(emv_time_get_string), 3, 3, false, false},
	{"txn-type", ONE(emv_transaction_type_get_string), 1, 1, false, true},
	{"mcc", MANY(emv_mcc_get_string), 2, 2, false, true},
	{"term-type", ONE(emv_term_type_get_string_list), 1, 1, true, true},
	{"term-caps", MANY(emv_term_caps_get_string_list), 3, 3, true, true},
	{"pos-entry-mode", ONE(emv_pos_entry_mode_get_string), 1, 1, false, true},
	{"addl-term-caps", MANY(emv_addl_term_caps_get_string_list), 5, 5, true, true},
	{"aid", MANY(emv_aid_get_string), 5, 16, false, true},
	{"asrpd", MANY(emv_asrpd_get_string_list), 3, 60, true, true},
	{"aip", MANY(emv_aip_get_string_list), 2, 2, true, true},
	{"afl", MANY(emv_afl_get_string_list), 4, 252, true, true},
	{"auc", MANY(emv_app_usage_control_get_string_list), 2, 2, true, true},
	{"track2", MANY(emv_track2_equivalent_data_get_string), 1, 19, false, false},
	{"app-ref-currency", MANY(emv_app_reference_currency_get_string_list), 2, 8, true, true},
	{"language-pref", MANY(emv_language_preference_get_string_list), 2, 8, true, true},
	{"account-type", ONE(emv_account_type_get_string), 1, 1, false, true},
	{"cvm-list", MANY(emv_cvm_list_get_string_list), 10, 252, true, true},
	{"cvm-results", MANY(emv_cvm_results_get_string_list), 3, 3, true, true},
	{"tvr", MANY(emv_tvr_get_string_list), 5, 5, true, true},
	{"tsi", MANY(emv_tsi_get_string_list), 2, 2, true, true},
	{"cid", ONE(emv_cid_get_string_list), 1, 1, true, true},
	{"iad", MANY(emv_iad_get_string_list), 1, 32, true, true},
	{"trmd", MANY(emv_terminal_risk_management_data_get_string_list), 8, 8, true, true},
	{"ttq", MANY(emv_ttq_get_string_list), 4, 4, true, true},
	{"ctq", MANY(emv_ctq_get_string_list), 2, 2, true, true},
	{"amex-cl-caps", ONE(emv_amex_cl_reader_caps_get_string), 1, 1, false, true},
	{"mc-tpd", MANY(emv_mastercard_third_party_data_get_string_list), 5, 32, true, true},
	{"visa-ffi", MANY(emv_visa_form_factor_indicator_get_string_list), 4, 4, true, true},
	{"amex-enh-caps", MANY(emv_amex_enh_cl_reader_caps_get_string_list), 4, 4, true, true},
	{"arc", MANY(emv_auth_response_code_get_string), 2, 2, false, true},
	{"issuer-auth-data", MANY(emv_issuer_auth_data_get_string_list), 8, 16, true, true},
	{"emv-capdu", MANY(emv_capdu_get_string), 4, 262, false, true},
	{"iso-capdu", [](const uint8_t* b, size_t n, char* s, size_t l) -> int { return ret_of(iso7816_capdu_get_string(b, n, s, l), s); }, 4, 262, false, true},
	{"sw1sw2", [](const uint8_t* b, size_t n, char* s, size_t l) -> int { if (n != 2 || !b) return -77; return ret_of(iso7816_sw1sw2_get_string(b[0], b[1], s, l), s); }, 2, 2, false, true},
	{"card-service", [](const uint8_t* b, size_t n, char* s, size_t l) -> int { if (n != 1 || !b) return -77; return iso7816_card_service_data_get_string_list(b[0], s, l); }, 1, 1, true, true},
	{"card-caps", MANY(iso7816_card_capabilities_get_string_list), 1, 3, true, true},
};
static inline const StrFn* strfn(const char* name) { for (auto& f : STRFNS) if (!strcmp(f.name, name)) return &f; abort(); }
#endif
