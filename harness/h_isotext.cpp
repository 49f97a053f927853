// C20: texts of ISO 7816 commands, status words, ATR bytes, historical bytes.
#include "ref_iso7816.hpp"
#include "strfns.hpp"
#include "iso7816_compact_tlv.h"
extern "C" int shim_apdu_case(const void* p, size_t n);
extern "C" const int shim_cases[7];

typedef std::function<const char*(char*, size_t)> TextOf;
// the text in a large buffer is the expected one; in a small one it is terminated and its beginning
static void text(Rng& r, const char* rule, const std::string& what, bool some, const std::string& want, const TextOf& f)
{
	static const size_t L = 2000; static thread_local char* big = (char*)malloc(L); memset(big, 0x7E, L);
	const char* g = f(big, L); vh_obs(std::string("check:") + rule);
	if ((g != NULL) != some) vh_fail(rule, "%s: %s, expected %s '%s'", what.c_str(), g ? big : "no text", some ? "text" : "no text", want.c_str());
	if (!some) { vh_obs(std::string("none:") + rule); return; }
	if (g != big || strnlen(big, L) == L || want != big) vh_fail(rule, "%s: '%.300s', expected '%s'", what.c_str(), g == big ? big : g, want.c_str());
	VH_DEFINED(big, want.size() + 1, "text");
	vh_obs(std::string("text:") + rule); vh_distinct(vh_hash(want));
	for (int k = 0; k < 2; ++k) {
		size_t m = r.chance(40) ? want.size() + r.below(3) : r.range(1, want.size() + 1); if (!m) continue;
		Exact s(m, 0x7E); g = f((char*)s.p, m); size_t n = strnlen((char*)s.p, m);
		if (g) VH_CHECK(n < m && want.compare(0, n, (char*)s.p) == 0 && (m <= want.size() || n == want.size()), "small-buffer", "%s in %zu bytes: '%.*s' instead of (the beginning of) '%s'", what.c_str(), m, (int)n, (char*)s.p, want.c_str());
	}
}
static void capdu(Rng& r, const Bytes& b)
{
	Exact in(b); std::string h = vh_hex(b).substr(0, 120); vh_note("%s", h.c_str()); RefText w = ref_iso_capdu(b);
	text(r, "iso-capdu", h, w.ok, w.text, [&](char* s, size_t l) { return iso7816_capdu_get_string(in.p, in.n, s, l); });
	char t[1200]; t[0] = 0x7E; int g = emv_capdu_get_string(in.p, in.n, t, sizeof t); auto e = ref_any_capdu(b);
	VH_CHECK((g == 0) == (e.first == 0) && (g < 0) == (e.first < 0) && (g || e.second == t), "any-capdu", "%s: result %d '%s', expected %d '%s'", h.c_str(), g, t, e.first, e.second.c_str());
	if (b.size() >= 4) { static const int C[] = {1, 2, 20, 3, 30, 4, 40}; int cs = ref_case(b), want = -1; for (int i = 0; i < 7; ++i) if (C[i] == cs) want = shim_cases[i]; int k = shim_apdu_case(in.p, in.n); VH_CHECK(want < 0 ? k < 0 : k == want, "case", "%s: case %d, expected %d", h.c_str(), k, want); vh_obs(vh_fmt("case-%d", cs)); }
}
// every class and instruction, in all cases
static void s_ins(Rng& r, uint64_t idx)
{
	for (int ins = 0; ins < 256; ++ins) {
		uint8_t p1 = r.b8(), p2 = r.b8(); size_t n = r.range(1, 10); Bytes d = r.bytes(n); Bytes b = {(uint8_t)idx, (uint8_t)ins, p1, p2};
		switch (r.below(8)) {
			case 0: break; case 1: b.push_back(r.u8()); break; case 2: case 3: b.push_back(n); b.insert(b.end(), d.begin(), d.end()); break; case 4: case 5: b.push_back(n); b.insert(b.end(), d.begin(), d.end()); b.push_back(r.u8()); break;
			case 6: b.insert(b.end(), {0, r.u8(), r.u8()}); break; case 7: b.insert(b.end(), {0, 0, (uint8_t)n}); b.insert(b.end(), d.begin(), d.end()); if (r.chance(50)) b.insert(b.end(), {r.u8(), r.u8()}); break;
		}
		capdu(r, b);
	}
}
// every parameter byte of the three detailed commands
static void s_params(Rng& r, uint64_t p1)
{
	for (int p2 = 0; p2 < 256; ++p2) {
		uint8_t cla = r.below(4) ? 0 : r.below(128), a = p1, b = p2, x = r.u8(), y = r.b8(), le = r.u8();
		Bytes sel[] = {{cla, 0xA4, a, b, le}, {cla, 0xA4, a, b, 2, 0x3F, 0x00, le}, {cla, 0xA4, a, b, 5, '1', 'P', 'A', 'Y', '.', le}, {cla, 0xA4, a, b, 3, 0xA0, x, y, le}, {cla, 0xA4, a, b, 2, 0x3F, y, le}, {cla, 0xA4, a, b, 2, 0x3F, 0x00}, {cla, 0xA4, a, b, 3, 0x3F, 0x00, y, le}, {cla, 0xA4, a, b, 4, 0x3F, 0x00, x, y, le}, {cla, 0xA4, a, b, 1, 0x3F, le}, {cla, 0xA4, a, b}};
		for (auto& c : sel) capdu(r, c);
		Bytes rd[] = {{cla, 0xB2, a, b, le}, {cla, 0xB2, a, b, 0, x, y}, {cla, 0xB3, a, b, 2, x, y, le}, {cla, 0xB3, a, b, 0, 0, 2, x, y, 0, 0}, {cla, 0xB3, a, b, le}, {cla, 0xB2, a, b, 2, x, y, le}, {cla, 0xB2, a, b, 2, x, y}, {cla, 0xB2, a, b}};
		for (auto& c : rd) capdu(r, c);
		Bytes pd[] = {{cla, 0xDA, a, b, 2, x, y}, {cla, 0xDB, a, b, 2, x, y}, {cla, 0xDA, a, b, 0, 0, 2, x, y}, {cla, 0xDB, a, b, 0, 0, 2, x, y}, {cla, 0xDA, a, b, 2, x, y, le}, {cla, 0xDB, a, b, le}};
		for (auto& c : pd) capdu(r, c);
	}
}
static void s_capdu(Rng& r, uint64_t)
{
	static const uint8_t I[] = {0xA4, 0xA4, 0xB2, 0xB3, 0xDA, 0xDB}; Bytes b = {(uint8_t)(r.chance(85) ? 0 : r.u8()), r.chance(90) ? r.pick(I) : r.u8(), r.b8(), r.b8()};
	size_t n = r.chance(20) ? r.range(240, 255) : r.range(1, 20); Bytes d = r.bytes(n); if (r.chance(60)) for (auto& c : d) c = r.range(0x20, 0x7E); if (r.chance(20)) d[r.below(n)] = r.pick({0x1F, 0x20, 0x7E, 0x7F, 0x80, 0, 0x25});
	b.push_back(n); b.insert(b.end(), d.begin(), d.end()); if (r.chance(70)) b.push_back(r.u8()); if (r.chance(10)) b.resize(r.below(b.size() + 1)); if (r.chance(5)) b.push_back(r.u8()); if (r.chance(5)) { b.resize(7 + 300); b[4] = 0; b[5] = 1; b[6] = 44; if (r.chance(50)) b.resize(7 + 302); }
	capdu(r, b);
}
static void s_sw(Rng& r, uint64_t sw1)
{
	for (int sw2 = 0; sw2 < 256; ++sw2) text(r, "status-word", vh_fmt("%02X%02X", (int)sw1, sw2), true, ref_sw(sw1, sw2), [&](char* s, size_t l) { return iso7816_sw1sw2_get_string(sw1, sw2, s, l); });
}
static std::string lines(const std::string& name, const Bytes& b, int& g)
{
	static thread_local char out[4000]; memset(out, 0x7E, sizeof out); Exact in(b); g = strfn(name.c_str())->fn(in.p, in.n, out, sizeof out); return g ? "" : std::string(out, strnlen(out, sizeof out));
}
static void s_bytes(Rng& r, uint64_t v)
{
	std::string l = iso7816_lcs_get_string(v); VH_CHECK(l == ref_lcs(v), "life-cycle", "%02X: '%s', expected '%s'", (int)v, l.c_str(), ref_lcs(v).c_str());
	static const char* const CT[16] = {0, "Country code", "Issuer identification number", "Card service data", "Initial access data", "Card issuer data", "Pre-issuing data", "Card capabilities", "Status indicator", 0, 0, 0, 0, 0, 0, "Application identifier (AID)"};
	std::string c = iso7816_compact_tlv_tag_get_string(v), w = v < 16 && CT[v] ? CT[v] : "Unknown"; VH_CHECK(c == w, "compact-tag", "%02X: '%s', expected '%s'", (int)v, c.c_str(), w.c_str());
	int g; Bytes b = {(uint8_t)v}; std::string t = lines("card-service", b, g); RefText e = ref_spec_text("card-service", b); VH_CHECK(g == 0 && t == e.text, "card-service", "%02X: %d '%s', expected '%s'", (int)v, g, t.c_str(), e.text.c_str());
	for (int u = 0; u < 256; ++u) {
		Bytes q[] = {{(uint8_t)u}, {(uint8_t)v, (uint8_t)u}, {(uint8_t)v, r.b8(), (uint8_t)u}, {r.b8(), (uint8_t)v, (uint8_t)u}};
		for (auto& x : q) { RefText m = ref_spec_text("card-caps", x); t = lines("card-caps", x, g); VH_CHECK((g == 0) == m.ok && t == m.text, "card-capabilities", "%s: %d '%s', expected %s '%s'", vh_hex(x).c_str(), g, t.c_str(), m.ok ? "success" : "an error", m.text.c_str()); vh_obs(m.ok ? "caps-text" : "caps-error"); }
	}
	Bytes a = {0x3B, 0x01, (uint8_t)v}; if (v == 0) a = {0x3B, 0x04, 0, 1, 2, 3}; struct iso7816_atr_info_t i; VH_CHECK(iso7816_atr_parse(a.data(), a.size(), &i) == 0, "T1", "ATR with T1=%02X refused", (int)v);
	const char* k = iso7816_atr_T1_get_string(&i), *z = v == 0 ? "COMPACT-TLV followed by mandatory status indicator" : v == 0x10 ? "DIR data reference" : v == 0x80 ? "COMPACT-TLV including optional status indicator" : v > 0x80 && v < 0x90 ? "RFU" : "Proprietary";
	VH_CHECK(k && !strcmp(k, z), "T1", "T1=%02X: '%s', expected '%s'", (int)v, k ? k : "none", z); Bytes e0 = {0x3B, 0}; VH_CHECK(iso7816_atr_parse(e0.data(), 2, &i) == 0 && !iso7816_atr_T1_get_string(&i), "T1", "text for absent T1");
}
static void atr(Rng& r, const Bytes& a)
{
	RefAtr m = ref_atr(a); struct iso7816_atr_info_t i; memset(&i, 0xC3, sizeof i); vh_note("%s", vh_hex(a).c_str());
	if (iso7816_atr_parse(a.data(), a.size(), &i) || !m.ok || m.amb) { vh_obs("atr-not-described"); return; }
	std::string h = vh_hex(a), s; const char* ts = iso7816_atr_TS_get_string(&i); VH_CHECK(ts && !strcmp(ts, a[0] == 0x3B ? "Direct convention" : "Inverse convention"), "TS", "%s: '%s'", h.c_str(), ts);
	text(r, "T0", h, true, ref_Y(m, 1) + vh_fmt("; K=%u", m.K), [&](char* o, size_t l) { return iso7816_atr_T0_get_string(&i, o, l); });
	for (int q = 0; q <= 5; ++q) for (char c = 'A'; c <= 'D'; ++c) {
		bool un = false, has = q >= 1 && q <= 4 && ref_atr_text(a, m, c, q, s, un); if (un) continue; char rule[8] = {'T', c, (char)('0' + q), 0};
		text(r, rule, h, has, s, [&](char* o, size_t l) { return c == 'A' ? iso7816_atr_TAi_get_string(&i, q, o, l) : c == 'B' ? iso7816_atr_TBi_get_string(&i, q, o, l) : c == 'C' ? iso7816_atr_TCi_get_string(&i, q, o, l) : iso7816_atr_TDi_get_string(&i, q, o, l); });
		if (has && q >= 3 && s != "Unimplemented") vh_obs("specific-interface-byte");
	}
	vh_obs("atr-described");
}
static void s_atr(Rng& r, uint64_t) { atr(r, gen_atr(r).make()); }
static void s_atr_byte(Rng& r, uint64_t n)
{
	unsigned which = n / 256, v = n % 256; AtrGen g; g.T[1] = 1; g.T[2] = 1; g.TB[3] = 0x45; g.hist = gen_hist(r);
	switch (which) {
		case 0: g.TA[1] = v; break; case 1: g.TB[1] = v; break; case 2: g.TC[1] = v; break; case 3: g.TA[2] = v; break; case 4: g.TB[1] = 0x25; g.TB[2] = v; break; case 5: g.T[1] = 0; g.T[2] = g.TB[3] = -1; g.TC[2] = v; if (r.chance(50)) g.TA[1] = 0x95; break;
		case 6: g.TA[3] = v; break; case 7: g.TB[3] = v; g.TA[1] = r.pick({0x11, 0x95, 0xD8}); break; case 8: g.TC[3] = v; break; case 9: g.T[1] = 0; g.T[2] = 15; g.TA[3] = v; g.TB[3] = -1; break; case 10: g.T[1] = 0; g.T[2] = 15; g.TB[3] = v; break;
		case 11: g.T[3] = v & 1 ? 15 : 0; g.TA[4] = 1 + (v >> 2) % 7; g.TB[4] = v; break; case 12: g.T[3] = 15; g.T[4] = v & 1; g.TA[3] = 0x20; g.TC[3] = v & 1; g.TC[4] = v; break;
	}
	atr(r, g.make());
}
std::vector<Suite> vh_suites() { return {{"ins", 256, 0, s_ins}, {"params", 256, 0, s_params}, {"status-words", 256, 0, s_sw}, {"bytes", 256, 0, s_bytes}, {"atr-bytes", 13 * 256, 0, s_atr_byte}, {"capdu", 0, 1, s_capdu}, {"atr", 0, 1, s_atr}}; }
std::vector<std::string> vh_required()
{
	std::vector<std::string> v = {"text:iso-capdu", "none:iso-capdu", "text:status-word", "caps-text", "caps-error", "atr-described", "specific-interface-byte", "case-0", "case-1", "case-2", "case-20", "case-3", "case-30", "case-4", "case-40", "text:T0"};
	for (auto c : {"A", "B", "C", "D"}) for (auto n : {"1", "2", "3", "4"}) v.push_back(std::string("text:T") + c + n);
	return v;
}
const char* vh_rule() { return "texts of C-APDUs (every class and instruction; every P1/P2 of SELECT, READ RECORD and PUT DATA in every case; generated data), all 65536 status words, every life cycle, card service, capability, compact tag and T1 byte, and all interface bytes of generated ATRs, each compared with independent tables in a large buffer and as a prefix in smaller exact-size buffers; a case is non-trivial when a text was required"; }
