// C13: ATR parsing against an independent model, EMV acceptance, COMPACT-TLV.
#include "vh.hpp"
#include "ref_ber.hpp"
#include "ref_atr.hpp"
#include "iso7816.h"
#include "iso7816_compact_tlv.h"
#include "emv.h"

static void check(const Bytes& a)
{
	RefAtr m = ref_atr(a); struct iso7816_atr_info_t i; memset(&i, 0xC3, sizeof i); Exact e(a);
	vh_note("%s", vh_hex(a).c_str());
	int g = iso7816_atr_parse(e.p, e.n, &i);
	VH_CHECK(m.amb || (m.surplus && m.ok) || (g == 0) == m.ok, "accept", "ATR %s: parse=%d, expected %s (%d)", vh_hex(a).c_str(), g, m.ok ? "success" : "rejection", m.any_err);
	VH_CHECK(g >= 0, "result-range", "ATR %s: parse=%d", vh_hex(a).c_str(), g);
	if (!m.ok && !m.amb) { vh_obs("rejected"); vh_obs(vh_fmt("reject-cause-%d", m.any_err)); }
	if (g == 0 && m.ok) {
		vh_obs("accepted"); if (m.TCK >= 0) vh_obs("with-TCK"); if (m.si >= 0) vh_obs("with-status-indicator"); if (m.TD[3] >= 0) vh_obs("with-TD3"); if (m.TD[4] >= 0) vh_obs("with-TD4"); if (m.proto) vh_obs("T=1");
		std::string h = vh_hex(a); const char* hx = h.c_str();
		VH_CHECK(i.atr_len == a.size() && !memcmp(i.atr, a.data(), a.size()) && i.TS == a[0] && i.T0 == a[1] && i.K_count == m.K, "bytes", "%s: ATR copy/TS/T0/K", hx);
		const int* mm[4] = {m.TA, m.TB, m.TC, m.TD}; const uint8_t* const* cc[4] = {i.TA, i.TB, i.TC, i.TD};
		for (int k = 0; k < 4; ++k) for (int q = 1; q <= 4; ++q) VH_CHECK(mm[k][q] < 0 ? cc[k][q] == NULL : cc[k][q] == i.atr + mm[k][q], "interface-bytes", "%s: T%c%d", hx, 'A' + k, q);
		VH_CHECK(i.global.Di == m.Di && i.global.Fi == m.Fi && i.global.fmax == (float)m.fmax, "TA1", "%s: Di=%u Fi=%u fmax=%f", hx, i.global.Di, i.global.Fi, i.global.fmax);
		VH_CHECK(i.global.Vpp_connected == m.vpp && (!m.vpp || (i.global.Vpp == m.Vpp && i.global.Vpp_course == m.Vppc && i.global.Ipp == m.Ipp)), "TB1", "%s: Vpp %d %u %u %u", hx, i.global.Vpp_connected, i.global.Vpp, i.global.Vpp_course, i.global.Ipp);
		VH_CHECK(i.global.N == m.N && i.global.GT == m.GT && i.protocol_T1.CGT == m.CGT, "TC1", "%s: N=%u GT=%u CGT=%u expected %u %u %u", hx, i.global.N, i.global.GT, i.protocol_T1.CGT, m.N, m.GT, m.CGT);
		VH_CHECK(i.global.protocol == m.proto, "TD1", "%s: protocol %u", hx, i.global.protocol);
		VH_CHECK(i.global.specific_mode == m.spec && (!m.spec || (i.global.specific_mode_protocol == m.spec_proto && i.global.etu_is_implicit == m.implicit_ && i.global.specific_mode_may_change == m.mut)), "TA2", "%s: specific mode", hx);
		VH_CHECK(i.protocol_T0.WI == m.WI && i.protocol_T0.WT == m.WT, "TC2", "%s: WI=%u WT=%u expected %u %u", hx, i.protocol_T0.WI, i.protocol_T0.WT, m.WI, m.WT);
		if (!m.amb_T15 && !m.amb) VH_CHECK(i.global.card_classes == m.classes && (unsigned)i.global.clock_stop == m.clock && (unsigned)i.global.spu == m.spu, "T15", "%s: classes %u clock %d spu %d expected %u %u %u", hx, i.global.card_classes, i.global.clock_stop, i.global.spu, m.classes, m.clock, m.spu);
		if (!m.amb_T1 && !m.amb) VH_CHECK(i.protocol_T1.IFSI == m.IFSI && i.protocol_T1.CWI == m.CWI && i.protocol_T1.BWI == m.BWI && i.protocol_T1.CWT == m.CWT && i.protocol_T1.BWT == m.BWT && (unsigned)i.protocol_T1.error_detection_code == m.edc, "T1-parameters", "%s: IFSI=%u CWI=%u BWI=%u CWT=%u BWT=%u EDC=%d, expected %u %u %u %lu %lu %u", hx, i.protocol_T1.IFSI, i.protocol_T1.CWI, i.protocol_T1.BWI, i.protocol_T1.CWT, i.protocol_T1.BWT, i.protocol_T1.error_detection_code, m.IFSI, m.CWI, m.BWI, m.CWT, m.BWT, m.edc);
		if (m.K) VH_CHECK(i.T1 == m.T1 && i.historical_bytes == i.atr + m.hist && i.historical_bytes_len == m.hist_len, "historical", "%s: T1=%02X len %zu, expected %02X %zu", hx, i.T1, i.historical_bytes_len, m.T1, m.hist_len);
		else VH_CHECK(!i.historical_bytes && !i.historical_bytes_len, "historical", "%s: historical bytes without K", hx);
		if (!m.si_any) {
			VH_CHECK(m.si < 0 ? !i.status_indicator_bytes : i.status_indicator_bytes == i.atr + m.si && i.status_indicator_bytes_len == m.si_len, "status", "%s: status indicator bytes", hx);
			uint8_t w[3] = {0, 0, 0}; const uint8_t* s = m.si < 0 ? NULL : a.data() + m.si;
			if (s && m.si_len == 1) w[0] = s[0]; if (s && m.si_len == 2) { w[1] = s[0]; w[2] = s[1]; } if (s && m.si_len == 3) { w[0] = s[0]; w[1] = s[1]; w[2] = s[2]; }
			VH_CHECK(i.status_indicator.LCS == w[0] && i.status_indicator.SW1 == w[1] && i.status_indicator.SW2 == w[2], "status", "%s: LCS %02X SW %02X%02X", hx, i.status_indicator.LCS, i.status_indicator.SW1, i.status_indicator.SW2);
		}
		if (m.TCK >= 0) VH_CHECK(i.TCK == m.TCK, "TCK", "%s: TCK %02X", hx, i.TCK);
		VH_DEFINED(&i.global, sizeof i.global, "global"); VH_DEFINED(&i.status_indicator, sizeof i.status_indicator, "si");
		vh_distinct(vh_hash(a)); vh_sample(h);
	}
	int x = emv_atr_parse(e.p, e.n);
	if (a.empty()) { VH_CHECK(x == EMV_ERROR_INVALID_PARAMETER, "emv-result", "empty ATR: %d", x); return; }
	VH_CHECK(x == 0 || x == EMV_OUTCOME_CARD_ERROR, "emv-result", "%s: emv_atr_parse=%d", vh_hex(a).c_str(), x);
	if (!m.amb && !(m.surplus && m.ok)) {
		bool w = m.ok && ref_emv_atr(a, m);
		VH_CHECK((x == 0) == w, "emv-accept", "%s: emv_atr_parse=%d, expected %s", vh_hex(a).c_str(), x, w ? "acceptance" : "rejection");
		vh_obs(w ? "emv-accepted" : m.ok ? "emv-rejected-by-emv-rule" : "emv-rejected-malformed");
		if (w && m.proto) vh_obs("emv-accepted-T1");
	}
}
static void s_random(Rng& r, uint64_t)
{
	AtrGen g = gen_atr(r); Bytes a = g.make();
	unsigned k = r.below(12);
	if (k == 0) mutate(r, a); if (k == 1 && !a.empty()) a.resize(r.below(a.size())); if (k == 2) a.push_back(r.u8()); if (k == 3) a[r.below(a.size())] ^= 1u << r.below(8);
	if (k == 4) a = r.bytes(r.below(40)); if (k == 5) { a[r.below(a.size())] = r.b8(); uint8_t x = 0; for (size_t i = 1; i + 1 < a.size(); ++i) x ^= a[i]; if (r.chance(70)) a.back() = x; }
	check(a);
}
// every combination of presence bits over four levels; protocols, values, historical bytes random; plus all truncations
static void s_mask(Rng& r, uint64_t n)
{
	AtrGen g; g.hist = gen_hist(r); int lv = 0;
	for (int i = 1; i <= 4; ++i) {
		unsigned y = n >> (4 * (i - 1)) & 15; int T = i > 1 ? g.T[i - 1] : 0; lv = i;
		if (y & 1) g.TA[i] = i == 1 ? 0x13 : i == 2 ? 0x80 | T : T == 15 ? 3 : 0x20 + r.below(0xD0);
		if (y & 2) g.TB[i] = i == 1 ? 0x25 : i == 2 ? 60 : T == 15 ? r.u8() : r.below(5) << 4 | r.below(6);
		if (y & 4) g.TC[i] = i == 1 ? (r.chance(50) ? 0 : 255) : i == 2 ? 10 : 0;
		if (y & 8) g.T[i] = i == 1 ? r.below(2) : r.pick({0, 1, 15}); else break;
	}
	(void)lv; Bytes a = g.make(); check(a);
	if (a.size() <= 33) { Bytes b = a; b.resize(r.below(a.size())); check(b); }
}
static void s_byte(Rng& r, uint64_t n)
{
	// each interface byte, each value
	unsigned which = n / 256, v = n % 256; AtrGen g; g.T[1] = 1; g.T[2] = 1; g.TB[3] = 0x45; g.hist = gen_hist(r);
	switch (which) {
		case 0: g.TA[1] = v; g.T[1] = g.T[2] = g.TB[3] = -1; break; case 1: g.TB[1] = v; break; case 2: g.TC[1] = v; break; case 3: g.TA[2] = v; break; case 4: g.TB[1] = 0x25; g.TB[2] = v; break;
		case 5: g.T[1] = 0; g.T[2] = g.TB[3] = -1; g.TC[2] = v; break; case 6: g.TA[3] = v; break; case 7: g.TB[3] = v; break; case 8: g.TC[3] = v; break;
		case 9: g.T[1] = 0; g.T[2] = 15; g.TA[3] = v; g.TB[3] = -1; break; case 10: g.T[1] = 0; g.T[2] = 15; g.TB[3] = v; break; case 11: g.TA[1] = v; g.TA[2] = 0x81; break;
		case 12: g.T[1] = v & 15; g.T[2] = v >> 4; break; case 13: g.TS = v; break; case 14: g.TA[1] = v; g.T[1] = g.T[2] = 1; g.TB[3] = 0x90 | r.below(16); break;
		case 15: g.hist = Bytes{(uint8_t)v, 1, 2, 3, 4}; break; case 16: g.tckx = v; break; case 17: g.T[1] = 0; g.T[2] = g.TB[3] = -1; g.TA[1] = 0x11; g.TA[2] = v; break;
		case 18: g.T[1] = 0; g.T[2] = 15; g.TA[3] = 1; g.TB[3] = -1; g.T[3] = v & 15; g.TA[4] = 1 + v / 16; break; case 19: g.T[3] = 1; g.T[4] = v & 15; g.y5 = v >> 4; break;
	}
	check(g.make()); vh_obs("interface-byte-values");
}
static void s_ctlv(Rng& r, uint64_t)
{
	Bytes a; unsigned n = r.below(6); while (n--) { unsigned l = r.below(16); a.push_back(r.below(16) << 4 | l); Bytes v = r.bytes(l); a.insert(a.end(), v.begin(), v.end()); }
	if (r.chance(30) && !a.empty()) a.resize(r.below(a.size() + 1)); if (r.chance(10)) a = r.bytes(r.below(60));
	Exact e(a); struct iso7816_compact_tlv_itr_t it; struct iso7816_compact_tlv_t t; int g = iso7816_compact_tlv_itr_init(e.p, e.n, &it);
	VH_CHECK((g == 0) == !a.empty(), "compact-init", "init=%d for %zu bytes", g, a.size());
	if (g) return;
	size_t p = 0;
	for (;;) {
		memset(&t, 0x77, sizeof t); g = iso7816_compact_tlv_itr_next(&it, &t);
		if (p == a.size()) { VH_CHECK(g == 0, "compact-end", "%s: next=%d at the end", vh_hex(a).c_str(), g); vh_obs("compact-end"); break; }
		size_t l = a[p] & 15;
		if (p + 1 + l > a.size()) { VH_CHECK(g < 0, "compact-truncated", "%s: next=%d for a truncated element", vh_hex(a).c_str(), g); vh_obs("compact-truncated"); break; }
		VH_CHECK(g == (int)(1 + l) && t.tag == a[p] >> 4 && t.length == l && t.value == e.p + p + 1, "compact-element", "%s: element at %zu: next=%d tag %u length %zu", vh_hex(a).c_str(), p, g, t.tag, (size_t)t.length);
		p += 1 + l; vh_obs("compact-element");
	}
}
static void s_args(Rng&, uint64_t)
{
	struct iso7816_atr_info_t i; uint8_t a[40] = {0x3B, 0};
	VH_CHECK(iso7816_atr_parse(NULL, 2, &i) < 0 && iso7816_atr_parse(a, 2, NULL) < 0, "args", "NULL accepted");
	for (size_t n : {0, 1, 34, 40}) VH_CHECK(iso7816_atr_parse(a, n, &i) > 0, "args", "length %zu accepted", n);
	VH_CHECK(iso7816_atr_parse(a, 2, &i) == 0, "args", "3B00 rejected"); VH_CHECK(emv_atr_parse(NULL, 2) == EMV_ERROR_INVALID_PARAMETER, "args", "NULL");
}
std::vector<Suite> vh_suites() { return {{"atr-random", 0, 1, s_random}, {"atr-masks", 65536, 0, s_mask}, {"atr-byte", 20 * 256, 0, s_byte}, {"compact-tlv", 0, 0.3, s_ctlv}, {"args", 1, 0, s_args}}; }
std::vector<std::string> vh_required() { return {"accepted", "rejected", "with-TCK", "with-status-indicator", "with-TD3", "with-TD4", "T=1", "emv-accepted", "emv-accepted-T1", "emv-rejected-by-emv-rule", "interface-byte-values", "compact-end", "compact-truncated", "compact-element"}; }
const char* vh_rule() { return "generated ATRs (all presence-bit combinations over four levels, every value of every interface byte, historical byte layouts, truncation, bit flips, arbitrary bytes), every parsed field compared with a model; non-trivial = distinct accepted ATR"; }
