// C06-C12: the EMV kernel, see kernel.hpp
#include "kernel.hpp"
std::vector<Suite> vh_suites()
{
	return {{"cand-random", 0, 4, s_cand}, {"cand-prio", 8192, 0, s_prio}, {"cand-long", 9, 0, s_long}, {"cand-supported", 0, 2, s_supported}, {"cand-tal", 0, 2, s_cand_tal},
		{"sel-random", 0, 6, s_sel}, {"sel-long", 6, 0, s_sel_long}, {"sel-list", 0, 3, s_sel_list}, {"init-random", 0, 5, s_init}, {"init-tal", 0, 2, s_init_tal},
		{"read-random", 0, 5, s_read}, {"read-tal", 0, 2, s_read_tal}, {"read-mand", 2048, 0, s_read_mand}, {"read-afl", 256 * 14 * 14, 0, s_read_afl},
		{"hostile-random", 0, 3, s_hostile}, {"hostile-model", 0, 2, s_hostile_model}, {"hostile-short", 0, 1, s_hostile_short}, {"hostile-args", 1, 0, s_args},
		{"oom-steps", 0, 0.3, s_oom}, {"oom-tlv", 0, 0.7, s_oom_tlv}, {"hist-random", 0, 2, s_hist}, {"hist-fresh", 0, 1, s_hist_fresh}};
}
std::vector<std::string> vh_required()
{
	std::string p = vh_prefix();
	if (p == "cand") return {"build:ok", "build:card-error", "build:card-blocked", "build:not-accepted", "via-pse", "via-aid-list", "pse:0", "pse:1", "pse:2", "pse:3", "pse:5", "pse:6", "pse:-3", "pse:-4", "aids:0", "aids:-3", "aids:-4", "several-candidates", "with-priority", "needs-confirmation", "named", "priority-orders", "long-directory", "many-candidates", "supported", "not-supported", "many-supported"};
	if (p == "sel") return {"select:ok", "select:try-again", "select:not-accepted", "select:card-error", "select:card-blocked", "select:invalid-parameter", "select-first", "select-last", "select-middle", "select-beyond-255", "list-compared", "list-sort", "list-pop", "list-remove-only", "list-remove-first", "list-remove-last", "list-remove-middle"};
	if (p == "init") return {"initiate:ok", "initiate:card-error", "initiate:gpo-not-accepted", "initiate:invalid-parameter", "with-pdol", "pdol-failed", "without-pdol", "aid-16-bytes", "aid-5-bytes", "gpo-ok", "gpo-failed"};
	if (p == "read") return {"read:ok", "read:card-error", "oda-impossible", "oda-possible", "oda-reported", "read-ok", "read-failed", "last-record-255", "many-fields", "missing-beside-long", "afl-entry:ok", "afl-entry:card-error"};
	if (p == "hostile") return {"build:ok", "build:card-error", "select:ok", "select:try-again", "initiate:ok", "initiate:card-error", "read:ok", "read:card-error", "usable-afterwards", "endless-card", "hostile-exchanges"};
	if (p == "oom") return {"oom-build", "oom-select", "oom-initiate", "oom-read", "alloc-failed", "oom-parse", "oom-push", "oom-app"};
	return {"complete-transactions", "build:ok", "select:ok", "initiate:ok", "read:ok", "initiate:invalid-parameter", "transactions-compared"};
}
const char* vh_rule() { return "generated terminal configurations and card models (PSE/AID layouts, FCIs, GPO answers, AFLs, records; conforming or with 1+ defects; T=0 and APDU links) executed by the kernel and by an independent reference terminal, every command, result, list and field compared; hostile suites replace the card by arbitrary replies; oom suites fail every allocation in turn; non-trivial = distinct outcome/state signature"; }
