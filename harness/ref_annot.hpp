// Expected annotation of a TLV (tag name, description, format, value text),
// from data/tags.tsv and the value models of the other headers.
#ifndef REF_ANNOT_HPP
#define REF_ANNOT_HPP
#include "ref_iso7816.hpp"
#include "emv_strings.h"
struct RefTag { unsigned tag; int format; std::string kind, name, desc; };
struct RefInfo { const RefTag* t; bool ok; std::string text; bool text_if_error; };  // text_if_error: text of a failed decoding is not defined
static inline const std::vector<RefTag>& ref_tags()
{
	static std::vector<RefTag> v; if (!v.empty()) return v;
	FILE* f = fopen((std::string(vh_datadir()) + "/tags.tsv").c_str(), "r"); if (!f) abort(); char b[4096];
	static const std::map<std::string, int> F = {{"A", EMV_FORMAT_A}, {"AN", EMV_FORMAT_AN}, {"ANS", EMV_FORMAT_ANS}, {"B", EMV_FORMAT_B}, {"CN", EMV_FORMAT_CN}, {"N", EMV_FORMAT_N}, {"VAR", EMV_FORMAT_VAR}, {"DOL", EMV_FORMAT_DOL}, {"TAG_LIST", EMV_FORMAT_TAG_LIST}};
	while (fgets(b, sizeof b, f)) {
		std::string l = b; if (l.back() == '\n') l.pop_back(); auto c = RefSpec::split(l, '\t'); if (c.size() != 5) abort();
		std::string d; for (size_t i = 0; i < c[4].size(); ++i) if (c[4][i] == '\\' && c[4][i + 1] == 'n') { d += '\n'; ++i; } else d += c[4][i];
		v.push_back({(unsigned)strtoul(c[0].c_str(), 0, 16), F.at(c[1]), c[2], c[3], d});
	}
	fclose(f); return v;
}
static inline const RefTag* ref_tag(unsigned tag, int nth = 0) { for (auto& t : ref_tags()) if (t.tag == tag && !nth--) return &t; return NULL; }
static inline RefText ref_digits_n(const Bytes& b) { if (b.empty()) return {false, ""}; std::string d; for (uint8_t c : b) for (unsigned x : {c >> 4, c & 15}) { if (x > 9) return {false, ""}; d += '0' + x; } size_t z = d.find_first_not_of('0'); return {!b.empty(), z == std::string::npos ? "0" : d.substr(z)}; }
static inline RefText ref_digits_cn(const Bytes& b) { std::string d; for (uint8_t c : b) for (unsigned x : {c >> 4, c & 15}) { if (x == 15) return {!b.empty(), d}; if (x > 9) return {false, ""}; d += '0' + x; } return {!b.empty(), d}; }
static inline RefText ref_chars(const Bytes& b, bool (*ok)(uint8_t)) { for (auto c : b) if (!ok(c)) return {false, ""}; return {!b.empty(), std::string(b.begin(), b.end())}; }
static inline RefText ref_value(const std::string& kind, const Bytes& b)
{
	const RefData& D = refdata(); size_t c = kind.find(':'); std::string k = kind.substr(0, c); size_t max = c == std::string::npos ? 0 : strtoul(kind.c_str() + c + 1, 0, 10); unsigned v;
	if (k == "-") return {true, ""};
	if (c != std::string::npos && max && b.size() > (k == "n" || k == "cn" ? (max + 1) / 2 : max)) return {false, ""};
	if (k == "n") return ref_digits_n(b); if (k == "cn") return ref_digits_cn(b);
	if (k == "a") return ref_chars(b, [](uint8_t x) { return is_alnum(x) && x > '9'; }); if (k == "an") return ref_chars(b, is_alnum);
	if (k == "label") return ref_chars(b, [](uint8_t x) { return is_alnum(x) || x == ' '; }); if (k == "ans") return ref_chars(b, [](uint8_t x) { return x >= 0x20 && x <= 0x7E; });
	if (k == "raw") return {true, std::string((const char*)b.data(), strnlen((const char*)b.data(), b.size()))};
	if (k == "amount") { if (b.empty() || b.size() > 4) return {false, ""}; uint64_t w = 0; for (auto x : b) w = w << 8 | x; return {true, std::to_string(w)}; }
	if (k == "date" || k == "time") { RefText d = {b.size() == 3 && bcd(b.data(), 3, v), ""}; if (d.ok) { std::string h = vh_hex(b); d.text = k == "time" ? h.substr(0, 2) + ":" + h.substr(2, 2) + ":" + h.substr(4) : "20" + h.substr(0, 2) + "-" + h.substr(2, 2) + "-" + h.substr(4); } return d; }
	if (k == "country" || k == "currency" || k == "mcc") { bool ok = b.size() == 2 && bcd(b.data(), 2, v); return {ok, !ok ? "" : k == "mcc" ? D.get(D.mcc, v) : D.get(k == "country" ? D.countryn : D.curn, v)}; }
	if (k == "alpha2" || k == "alpha3") { size_t n = k == "alpha2" ? 2 : 3; std::string s((const char*)b.data(), strnlen((const char*)b.data(), b.size())), t; if (b.size() == n) t = D.get(n == 2 ? D.country2 : D.country3, s); if (!t.empty()) return {true, t}; return b.size() > n ? RefText{false, ""} : ref_value("a:" + std::to_string(n), b); }
	if (k == "arc") { if (b.size() != 2 || !is_alnum(b[0]) || !is_alnum(b[1])) return {false, ""}; std::string s(b.begin(), b.end()), d = D.get(D.arc, s); return {true, s + (d.empty() ? "" : " - " + d)}; }
	if (k == "aid") { const AidRow* m = b.size() >= 5 && b.size() <= 16 ? ref_aid(b) : NULL; return {m != NULL, m ? m->text : ""}; }
	if (k == "dfname") { std::string s(b.begin(), b.end()); if (s == "1PAY.SYS.DDF01" || s == "2PAY.SYS.DDF01") return {true, s}; return ref_value("aid", b); }
	if (k == "capdu") { auto e = ref_any_capdu(b); return {!b.empty() && e.first == 0, e.second}; }
	if (k == "track2") return ref_track2(b); if (k == "afl") return ref_afl_text(b); if (k == "cvm-list") return ref_cvm_list(b); if (k == "iad") return ref_iad_text(b); if (k == "issuer-auth-data") return ref_issuer_auth(b); if (k == "asrpd") return ref_asrpd(b);
	if (k == "language-pref" || k == "app-ref-currency") return ref_pairs(b, k == "language-pref");
	if (k == "third-party") return ref_tpd(b);
	return ref_spec_text(k, b);
}
static inline bool ref_byte_kind(const std::string& k) { return k == "txn-type" || k == "account-type" || k == "cid" || k == "term-type" || k == "pos-entry-mode"; }
// value == NULL: only the length is known (data object list entry)
static inline RefInfo ref_info(unsigned tag, size_t len, const uint8_t* value)
{
	Bytes b; if (value) b.assign(value, value + len); const RefTag* t = ref_tag(tag);
	if (!t || (tag == 0x9F66 && len != 4) || (tag == 0x9F6D && len != 1)) return {NULL, false, "", false};
	std::string k = t->kind;
	if (tag == 0x9F6E) {
		if (len >= 5 && len <= 32) k = "third-party";
		else if (len == 4 && value && b[0] >> 5 == 1 && !b[2] && !b[3]) { t = ref_tag(tag, 1); k = "visa-ffi"; }
		else if (len == 4 && value && (b[0] & 0x3B) == 0x18 && (b[1] & 0x8F) == 0x80 && !(b[2] & 0x3F) && !(b[3] & 0x18) && (b[3] & 7)) { t = ref_tag(tag, 2); k = "amex-enh-caps"; }
		else return {NULL, false, "", false};
	}
	if (!value) return {t, true, "", true};
	if (ref_byte_kind(k)) { if (b.empty()) return {t, true, "", false}; b.resize(1); }
	RefText x = ref_value(k, b); bool simple = k.find(':') != std::string::npos || k == "alpha2" || k == "alpha3";
	return {t, x.ok, x.text, !simple};
}
#endif
