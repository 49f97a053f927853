// Independent expectation of every "bytes to text" decoder (see strfns.hpp for
// the library's side). Tables come from data/strings.spec, data/*.tsv, the
// installed ISO code files and ref_aid.hpp.
#ifndef REF_STRINGS_HPP
#define REF_STRINGS_HPP
#include "refspec.hpp"
#include "refdata.hpp"
#include "ref_aid.hpp"
struct RefText { bool ok; std::string text; };
static inline std::string join(const std::vector<std::string>& v) { std::string s; for (auto& l : v) s += l + "\n"; return s; }
static inline bool bcd(const uint8_t* b, size_t n, unsigned& v) { v = 0; for (size_t i = 0; i < n; ++i) { if ((b[i] >> 4) > 9 || (b[i] & 15) > 9) return false; v = v * 100 + (b[i] >> 4) * 10 + (b[i] & 15); } return true; }
static inline bool is_alnum(uint8_t c) { return (c >= '0' && c <= '9') || (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z'); }

static inline RefText ref_cvm_list(const Bytes& b)
{
	if (b.size() < 10 || b.size() % 2 || b.size() > 252) return {false, ""};
	auto u = [&](size_t o) { return std::to_string((uint32_t)b[o] << 24 | b[o + 1] << 16 | b[o + 2] << 8 | b[o + 3]); };
	std::vector<std::string> L;
	for (size_t o = 8; o < b.size(); o += 2) {
		uint8_t x[3] = {b[o], b[o + 1], 0}; auto v = refspec().eval("cvm-results", x); if (v.size() != 3) abort();
		std::string p = b[o] == 0x3F ? "Invalid CV Rule" : v[0].substr(strlen("CVM Performed: ")), c = v[1].substr(strlen("CVM Condition: "));
		for (int k = 0; k < 2; ++k) { const char* n = k ? "Y value" : "X value"; size_t q = c.find(n); if (q != std::string::npos) c = c.substr(0, q) + u(k ? 4 : 0) + c.substr(q + 1); }
		L.push_back(c + "; " + p + "; " + (b[o] & 0x40 ? "Apply succeeding CV Rule if this CVM is unsuccessful" : "Fail cardholder verification if this CVM is unsuccessful"));
	}
	return {true, join(L)};
}
static inline RefText ref_afl_text(const Bytes& b)
{
	if (b.empty() || b.size() % 4 || b.size() > 252) return {false, ""};
	std::vector<std::string> L;
	for (size_t o = 0; o < b.size(); o += 4) {
		unsigned s = b[o] >> 3, f = b[o + 1], l = b[o + 2], c = b[o + 3];
		if ((b[o] & 7) || s < 1 || s > 30 || f < 1 || l < f || c > l - f + 1) return {false, ""};
		std::string t = vh_fmt("SFI %u, record %u", s, f); if (l != f) t += vh_fmt(" to %u", l);
		if (c) t += vh_fmt(", %u record%s used for offline data authentication", c, c > 1 ? "s" : "");
		L.push_back(t);
	}
	return {true, join(L)};
}
static inline RefText ref_iad_text(const Bytes& b)
{
	if (b.empty() || b.size() > 32) return {false, ""};
	const char* n;
	switch (ref_iad(b)) {
		case EMV_IAD_FORMAT_CCD: n = "iad-ccd"; break;
		case EMV_IAD_FORMAT_MCHIP4: n = "iad-mchip4"; break;
		case EMV_IAD_FORMAT_MCHIP_ADVANCE: n = "iad-mchipadv"; break;
		case EMV_IAD_FORMAT_VSDC_0: case EMV_IAD_FORMAT_VSDC_1: case EMV_IAD_FORMAT_VSDC_3: n = "iad-vsdc013"; break;
		case EMV_IAD_FORMAT_VSDC_2: case EMV_IAD_FORMAT_VSDC_4: n = "iad-vsdc24"; break;
		case EMV_IAD_FORMAT_UNKNOWN: return {true, "Unknown IAD format\n"};
		default: return {false, ""};
	}
	return {true, join(refspec().eval(n, b.data()))};
}
static inline RefText ref_issuer_auth(const Bytes& b)
{
	if (b.size() < 8 || b.size() > 32) return {false, ""};
	auto hx = [&](size_t o, size_t n) { return vh_hex(b.data() + o, n); }; const std::string A = "Authorisation Response Cryptogram (ARPC): ";
	bool an = b.size() == 10 && is_alnum(b[8]) && is_alnum(b[9]); std::string code = an ? std::string(b.begin() + 8, b.end()) : "";
	if (an) return {true, A + hx(0, 8) + "\nAuthorisation Response Code: " + code + "\n"};
	if (b.size() == 10 && !(b[8] & 0xF0)) return {true, A + hx(0, 8) + "\nM/Chip ARPC Response Code: " + hx(8, 2) + "\n"};
	if ((b[4] & 0x70) || b[6]) return {true, ""};
	std::string t = A + hx(0, 4) + "\n" + join(refspec().eval("csu", b.data() + 4));
	if (b.size() > 8 && (b[4] & 0x80)) t += vh_fmt("Proprietary Authentication Data: %zu bytes\n", b.size() - 8);
	return {true, t};
}
static inline RefText ref_asrpd(const Bytes& b)
{
	if (b.size() < 3) return {false, ""};
	std::vector<std::string> L;
	for (size_t o = 0; o < b.size();) {
		if (b.size() - o < 3 || b.size() - o - 3 < b[o + 2]) return {false, ""};
		unsigned id = b[o] << 8 | b[o + 1];
		L.push_back(id == 1 ? "European Cards Stakeholders Group" : id == 3 ? "Technical Cooperation ep2 Association" : "Unknown ASRPD identifier");
		o += 3 + b[o + 2];
	}
	return {true, join(L)};
}
static inline RefText ref_tpd(const Bytes& b)
{
	const RefText bad = {false, ""}; const RefData& D = refdata();
	if (b.size() < 5 || b.size() > 32) return bad;
	std::vector<std::string> L; unsigned v; std::string c = bcd(b.data(), 2, v) ? D.get(D.countryn, v) : "";
	L.push_back("Country: " + (c.empty() ? "Unknown" : c));
	unsigned id = b[2] << 8 | b[3]; bool ext = id == 3 || id == 0x8003;
	L.push_back(std::string("Unique Identifier: ") + (id == 0 ? "Proprietary Data not used" : ext ? "Mastercard Product Extension" : "Unknown"));
	size_t o = 4;
	if (!(b[2] & 0x80)) {
		if (b.size() < 7) return bad;
		std::string d((const char*)b.data() + 4, strnlen((const char*)b.data() + 4, 2)), n = D.get(D.mcdev, d);
		L.push_back("Device Type: " + d + (n.empty() ? "" : " - " + n)); o = 6;
	}
	size_t rem = b.size() - o; const uint8_t* p = b.data() + o;
	if (id == 0 && (p[0] || rem != 1)) return bad;
	if (!ext) { if (!p[0]) L.push_back("Proprietary Data: Not used"); return {true, join(L)}; }
	if (rem < 2) return bad;
	unsigned prod = p[0] << 8 | p[1];
	if (prod == 1) {
		if (rem != 8) return bad;
		L.push_back("Product Identifier: Fleet Card");
		if (p[2]) L.push_back(std::string("Product Restriction Code: ") + (p[2] == 2 ? "Good for fuel only" : p[2] == 1 ? "Good for fuel and other products" : "RFU"));
		static const char* const T[] = {"Odometer", "Driver Number", "Vehicle Number", "ID Number"};
		for (int k = 0; k < 4; ++k) if (p[3] & (8 >> k)) L.push_back(std::string("Product Type Code: Prompt for ") + T[k]);
		if (p[3] & 0xF0) L.push_back("Product Type Code: RFU");
		if (p[4]) L.push_back(std::string("Card Type: ") + (p[4] == 0x80 ? "Driver card" : p[4] == 0x40 ? "Vehicle card" : "RFU"));
	} else if (prod == 2) {
		if (rem != 5) return bad;
		L.push_back("Product Identifier: Transit");
		if (p[2] & 0x80) L.push_back("Transit: Deferred Authorization Not Supported");
		if (p[2] & 0x7F) L.push_back("Transit: RFU");
		static const char* const C[] = {"RFU", "01 - Senior Citizen, potentially eligible for senior citizen discounts", "02 - Student, potentially eligible for student-based discounts", "03 - Active military and veterans, potentially eligible for service member discounts", "04 - Low Income household, potentially eligible for means-based discounts", "05 - Disability, eligible for paratransit and other disability discounts", "06 - Minor Child, potentially enables free travel for under 16 and young kids", "07 - Transit Staff, potentially enables free travel for transit staff", "08 - City/Government/Preferred Employees, potentially enables discounted travel for federal and preferred employees"};
		L.push_back(std::string("Concession Code: ") + C[p[3] <= 8 ? p[3] : 0]);
	} else L.push_back("Product Identifier: Unknown");
	return {true, join(L)};
}
static inline RefText ref_pairs(const Bytes& b, bool lang)
{
	if (b.empty() || b.size() % 2) return {false, ""};
	const RefData& D = refdata(); std::vector<std::string> L;
	for (size_t i = 0; i < b.size(); i += 2) {
		std::string n; unsigned v;
		if (lang) { std::string k; for (int j = 0; j < 2; ++j) k += (char)(b[i + j] >= 'A' && b[i + j] <= 'Z' ? b[i + j] + 32 : b[i + j]); if (b[i] && b[i + 1]) n = D.get(D.lang2, k); }
		else { if (!bcd(b.data() + i, 2, v)) return {false, ""}; n = D.get(D.curn, v); }
		L.push_back(n.empty() ? "Unknown" : n);
	}
	return {true, join(L)};
}
static inline RefText ref_track2(const Bytes& b)
{
	std::string t; for (size_t i = 0; i < b.size() * 2; ++i) { unsigned d = i % 2 ? b[i / 2] & 15 : b[i / 2] >> 4; if (d == 15) break; t += (char)('0' + d); }
	return {!b.empty(), t};
}
static inline RefText ref_emv_capdu(const Bytes& b)  // proprietary class only
{
	switch (b[1]) {
		case 0x1E: return {true, "APPLICATION BLOCK"}; case 0x18: return {true, "APPLICATION UNBLOCK"}; case 0x16: return {true, "CARD BLOCK"}; case 0xAE: return {true, "GENERATE AC"};
		case 0xCA: return {true, "GET DATA field " + vh_hex(b.data() + 2, 2)}; case 0xA8: return {true, "GET PROCESSING OPTIONS"}; case 0x24: return {true, "PIN CHANGE/UNBLOCK"};
	}
	return {false, ""};
}
// Fields decided by the table alone
static inline bool spec_field(const std::string& n) { return refspec().f.count(n) && n.compare(0, 4, "iad-") && n != "csu"; }
static inline RefText ref_spec_text(const std::string& n, const Bytes& b)
{
	const bool one_line = n == "pos-entry-mode" || n == "account-type" || n == "txn-type" || n == "amex-cl-caps";
	if (n == "card-caps" && !b.empty() && b.size() < 3) return {true, join(refspec().eval(n, b.data(), b.size()))};
	if (b.size() != refspec().len(n)) return {false, ""};
	if (n == "term-type" && !b[0]) return {false, ""};
	if (n == "card-caps" && (b[2] & 0x18) == 0x18) return {false, ""};
	auto v = refspec().eval(n, b.data());
	if (one_line) { if (v.size() > 1) abort(); return v.empty() ? RefText{false, ""} : RefText{true, v[0]}; }
	return {true, join(v)};
}
#endif
