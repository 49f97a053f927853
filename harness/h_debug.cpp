// C23: debug events: filter, macros, kernel traces under every configuration
#include "kernel.hpp"
#include "ref_atr.hpp"
#include <ctime>
extern "C" {
#include "iso7816.h"
extern const int dbg_src[4], dbg_level[6], dbg_type[8], dbg_none, dbg_all;
int dbg_set(unsigned mask, int level, int which);
void dbg_emit(int src, int level, int type, const char* s, int n, const void* buf, size_t len);
#define V(n) void shim_debug_emit_##n(int, int, const char*, int, const void*, size_t);
V(0) V(1) V(2) V(3) V(4) V(5) V(6) V(7) V(8)
#undef V
void dbg_event(int which, unsigned ts, int src, int level, int type, const char* s, const void* buf, size_t n);
}
struct Ev { int which, src, level, type; std::string text; Bytes buf; const void* ptr; };
static std::vector<Ev> evs; static size_t ev_max = SIZE_MAX; static std::function<void(const Ev&)> hook; static bool keep = true;
static uint32_t usec(clockid_t c) { struct timespec t; clock_gettime(c, &t); return (uint32_t)((uint64_t)t.tv_sec * 1000000 + t.tv_nsec / 1000); }
static uint32_t t0[2]; static bool ts_bad;
static void mark() { t0[0] = usec(CLOCK_REALTIME); t0[1] = usec(CLOCK_MONOTONIC); }
void dbg_event(int which, unsigned ts, int src, int level, int type, const char* s, const void* buf, size_t n)
{
	uint32_t a = usec(CLOCK_REALTIME), b = usec(CLOCK_MONOTONIC); if ((uint32_t)(ts - t0[0]) > (uint32_t)(a - t0[0]) && (uint32_t)(ts - t0[1]) > (uint32_t)(b - t0[1])) ts_bad = true;
	Ev e{which, src, level, type, s ? s : "(null)", Bytes(), buf}; if (buf && n) e.buf.assign((const uint8_t*)buf, (const uint8_t*)buf + n); else if (n) e.text += " (length without data)";
	if (s) VH_DEFINED(s, strlen(s), "event-text"); if (type != dbg_type[3]) VH_DEFINED(buf, n, "event-data");
	if (keep && evs.size() < ev_max) evs.push_back(e); vh_obs("events"); if (hook) hook(e);
}
static std::string shown(const Ev& e) { return vh_fmt("[f%d source %X level %d type %d '%s' %s]", e.which, e.src, e.level, e.type, e.text.substr(0, 120).c_str(), vh_hex(e.buf).substr(0, 80).c_str()); }
static int level_name(int l) { for (int i = 0; i < 6; ++i) if (dbg_level[i] == l) return i; return -1; }
static bool wanted(unsigned mask, int level, int src, int l) { return (mask & src) && level_name(l) >= 1 && level_name(l) <= level_name(level); }
static std::string text_of(int form, const std::string& s, int n, size_t len) { return form == 0 ? "plain 100%" : form == 1 ? s + "|" + std::to_string(n) : vh_fmt("%02X:", n & 0xFF) + s + ":" + std::to_string(len); }
static bool same_text(const std::string& got, const std::string& want) { return got == want || (got.size() >= 1023 && want.compare(0, got.size(), got) == 0); }
static unsigned gen_mask(Rng& r) { switch (r.below(6)) { case 0: return dbg_none; case 1: return dbg_all; case 2: return dbg_src[r.below(4)]; default: { unsigned m = 0; for (int s : dbg_src) if (r.chance(50)) m |= s; return m; } } }
static std::string gen_str(Rng& r) { size_t n = r.chance(5) ? r.range(1000, 5000) : r.chance(10) ? r.range(1010, 1030) : r.below(30); std::string s; while (n--) s += (char)(r.chance(5) ? '%' : r.range(32, 126)); return s; }
static void expect(const std::vector<Ev>& want, const char* rule, const std::string& what)
{
	for (size_t i = 0; i < want.size() || i < evs.size(); ++i) {
		if (i >= evs.size()) vh_fail(rule, "%s: event %zu %s was not delivered", what.c_str(), i, shown(want[i]).c_str());
		if (i >= want.size()) vh_fail(rule, "%s: event %zu %s should not have been delivered", what.c_str(), i, shown(evs[i]).c_str());
		const Ev &a = evs[i], &b = want[i]; bool ok = a.which == b.which && a.src == b.src && a.level == b.level && a.type == b.type && same_text(a.text, b.text) && a.buf == b.buf;
		if (!ok) vh_fail(rule, "%s: event %zu is %s, expected %s", what.c_str(), i, shown(a).c_str(), shown(b).c_str());
	}
	vh_obs(std::string("check:") + rule, want.size() + 1); if (ts_bad) vh_fail("timestamp", "%s: event with a time before it was emitted or after it was delivered", what.c_str()); vh_obs("check:timestamp");
}
// arbitrary emissions under arbitrary and changing configurations
static void s_filter(Rng& r, uint64_t)
{
	evs.clear(); ts_bad = false; hook = nullptr; unsigned mask = 0; int level = dbg_level[0], which = -1; std::vector<Ev> want; std::string what; mark(); dbg_set(0, dbg_level[0], -1);
	unsigned n = r.range(1, 25); bool nest = r.chance(15); int nest_src = 0;
	struct Pending { unsigned mask; int level, which; }; Pending pend{}; bool reconf = r.chance(15), reconfigured = false;
	if (nest) { nest_src = dbg_src[r.below(4)]; hook = [&](const Ev& e) { if (e.text.find("nested") == std::string::npos) dbg_emit(nest_src, dbg_level[1], dbg_type[0], "nested", 1, NULL, 0); }; }
	if (reconf) { pend = {gen_mask(r), dbg_level[r.below(6)], (int)r.below(3) - 1}; hook = [&](const Ev&) { if (!reconfigured) { reconfigured = true; dbg_set(pend.mask, pend.level, pend.which); } }; nest = false; }
	bool cur_re = false;
	for (unsigned i = 0; i < n; ++i) {
		if (i == 0 || r.chance(20)) { mask = gen_mask(r); level = dbg_level[r.below(6)]; which = (int)r.below(7) ? (int)r.below(2) : -1; VH_CHECK(dbg_set(mask, level, which) == 0, "init", "emv_debug_init"); what += vh_fmt("init(%X,%d,%d) ", mask, level, which); continue; }
		int s = dbg_src[r.below(4)], l = dbg_level[r.range(1, 4)], t = dbg_type[r.below(8)], num = (int)r.u32(); std::string txt = gen_str(r); Bytes b = r.chance(30) ? Bytes() : r.bytes(r.below(1000) < 3 ? r.range(65530, 66000) : r.chance(98) ? r.below(300) : r.below(3000)); if (b.size() > 65535) vh_obs("data>64k"); Exact e(b); what += vh_fmt("emit(%X,%d,%d) ", s, l, t); vh_note("%s", what.c_str());
		mark(); dbg_emit(s, l, t, txt.c_str(), num, b.empty() ? NULL : e.p, b.size());
		if (which >= 0 && wanted(mask, level, s, l)) {
			want.push_back({which, s, l, t, text_of(1, txt, num, 0), b, NULL}); vh_obs("delivered"); if (same_text(std::string(1023, 'x'), std::string(1023, 'x')) && txt.size() > 1023) vh_obs("long-text");
			if (nest && txt.find("nested") == std::string::npos && wanted(mask, level, nest_src, dbg_level[1])) { want.push_back({which, nest_src, dbg_level[1], dbg_type[0], "nested|1", Bytes(), NULL}); vh_obs("nested"); }
			if (reconf && !cur_re) { cur_re = true; mask = pend.mask; level = pend.level; which = pend.which; vh_obs("reconfigured-by-the-function"); }
		} else vh_obs("suppressed");
		expect(want, "filter", what);
	}
	hook = nullptr; dbg_set(0, dbg_level[0], -1); vh_distinct(vh_hash(what));
}
// all masks x levels x sources x levels x types
static void s_grid(Rng& r, uint64_t i)
{
	unsigned mask = i & 0xFF; int level = dbg_level[i >> 8]; hook = nullptr; ts_bad = false;
	for (int f = -1; f < 2; ++f) for (int s : dbg_src) for (int l = 1; l < 5; ++l) {
		int t = dbg_type[r.below(8)]; evs.clear(); mark(); dbg_set(mask, level, f); Bytes b = r.bytes(r.below(5)); dbg_emit(s, dbg_level[l], t, "x", 7, b.empty() ? NULL : b.data(), b.size());
		std::vector<Ev> want; if (f >= 0 && wanted(mask, level, s, dbg_level[l])) want.push_back({f, s, dbg_level[l], t, "x|7", b, NULL});
		expect(want, "grid", vh_fmt("mask %X level %d function %d source %X event level %d", mask, level, f, s, l)); vh_obs("grid-points");
	}
	dbg_set(0, dbg_level[0], -1); vh_distinct(i);
}
static void (*const EMIT[9])(int, int, const char*, int, const void*, size_t) = {shim_debug_emit_0, shim_debug_emit_1, shim_debug_emit_2, shim_debug_emit_3, shim_debug_emit_4, shim_debug_emit_5, shim_debug_emit_6, shim_debug_emit_7, shim_debug_emit_8};
static void s_macros(Rng& r, uint64_t)
{
	static const int SRC[9] = {0, 1, 2, 3, 3, 2, 0, 0, 1}; static const char* VN[9] = {"TTL", "TAL", "EMV", "APP", "disabled", "card-disabled", "apdu-disabled", "tpdu-disabled", "trace-disabled"};
	static const int LV[12] = {1, 1 + 1, 2, 2, 3, 3, 3, 3, 3, 3, 4, 4}, TY[12] = {0, 0, 1, 2, 3, 0, 4, 5, 6, 7, 0, 1}; static const char* FIX[12] = {0, 0, 0, 0, "ATR", 0, "C-APDU", "R-APDU", "C-TPDU", "R-TPDU", 0, 0};
	hook = nullptr; evs.clear(); ts_bad = false; int v = r.below(9), m = r.below(12), form = r.below(3), n = (int)r.u32(); std::string s = gen_str(r); Bytes b = r.bytes(r.chance(98) ? r.below(270) : r.below(3000)); Exact e(b);
	unsigned mask = r.chance(60) ? dbg_all : gen_mask(r); int level = r.chance(60) ? dbg_level[5] : dbg_level[r.below(6)]; mark(); dbg_set(mask, level, 1); EMIT[v](m, form, s.c_str(), n, b.empty() ? NULL : e.p, b.size()); dbg_set(0, dbg_level[0], -1);
	bool off = v == 4 || (v == 5 && m >= 4 && m <= 9) || (v == 6 && m >= 5 && m <= 7) || (v == 7 && (m == 8 || m == 9)) || (v == 8 && m >= 10);
	std::vector<Ev> want; std::string what = vh_fmt("macro %d in %s mask %X level %d", m, VN[v], mask, level);
	if (!off && wanted(mask, level, dbg_src[SRC[v]], dbg_level[LV[m]])) {
		Ev w{1, dbg_src[SRC[v]], dbg_level[LV[m]], dbg_type[TY[m]], FIX[m] ? FIX[m] : text_of(form, s, n, b.size()), Bytes(), NULL}; if (m == 4) w.buf = Bytes(40, (uint8_t)n); else if (TY[m]) w.buf = b;
		if (m == 10 && evs.size() == 1) { std::string& t = evs[0].text; size_t k = t.find("]: "); bool loc = k != std::string::npos && t.find("shim_debug.inc[") != std::string::npos && t.find("shim_debug.inc[") < k; VH_CHECK(loc, "trace-location", "%s: '%.200s'", what.c_str(), t.c_str()); std::string full = t.substr(0, k + 3) + w.text; w.text = full; }
		want.push_back(w); vh_obs(vh_fmt("macro:%d", m));
	} else vh_obs(off ? "compiled-out" : "filtered-out");
	expect(want, "macros", what); vh_distinct(vh_hash(what));
}
// ---- what the kernel reports ----
static std::string normal(const std::string& s) { std::string o; for (size_t i = 0; i < s.size(); ++i) { if (s.compare(i, 2, "0x") == 0 || s.compare(i, 5, "(nil)") == 0) { o += "P"; i += s[i] == '(' ? 4 : 1; if (s[i] == 'x') while (i + 1 < s.size() && isxdigit((unsigned char)s[i + 1])) ++i; } else o += s[i]; } return o; }
struct Wire { Link* link; std::vector<std::pair<Bytes, Bytes>> log; bool log_failed = false; std::vector<bool> ok; };
static int wire_trx(void* c, const void* tx, size_t n, void* rx, size_t* rxn) { Wire* w = (Wire*)c; Bytes t((const uint8_t*)tx, (const uint8_t*)tx + n); int g = link_trx(w->link, tx, n, rx, rxn); w->log.push_back({t, g ? Bytes() : Bytes((uint8_t*)rx, (uint8_t*)rx + *rxn)}); w->ok.push_back(!g); return g; }
struct Run { std::string res; std::vector<Bytes> cmds; std::vector<Ev> ev; Wire w; };
static void txn(Run& o, const VCard& c0, const std::vector<Sup>& sup, const Flds& p, const Flds& cf, bool tpdu, unsigned pick, uint64_t seed, unsigned mask, int level, int which)
{
	VCard c = c0; c.reset(); Link k(&c, tpdu, seed); o.w.link = &k; struct emv_ctx_t x; struct emv_app_list_t l = EMV_APP_LIST_INIT; struct emv_ttl_t t; t.cardreader = {tpdu ? EMV_CARDREADER_MODE_TPDU : EMV_CARDREADER_MODE_APDU, &o.w, wire_trx};
	evs.clear(); mark(); dbg_set(mask, level, which); emv_ctx_init(&x, &t);
	for (auto& s : sup) emv_tlv_list_push(&x.supported_aids, EMV_TAG_9F06_AID, s.aid.size(), s.aid.data(), s.partial ? EMV_ASI_PARTIAL_MATCH : EMV_ASI_EXACT_MATCH);
	for (auto& f : p) emv_tlv_list_push(&x.params, f.tag, f.v.size(), f.v.data(), 0); for (auto& f : cf) emv_tlv_list_push(&x.config, f.tag, f.v.size(), f.v.data(), 0);
	int g = emv_build_candidate_list(&x, &l); o.res += vh_fmt("build=%d ", g); for (auto q = l.front; q; q = q->next) o.res += vh_hex(q->aid->value, q->aid->length) + "/" + q->display_name + "/" + show(snap(&q->tlv_list)) + ";";
	unsigned tries = 6; while (g == 0 || g == 4) { size_t n = 0; for (auto q = l.front; q; q = q->next) ++n; if (!n || !tries--) break; g = emv_select_application(&x, &l, pick % n); o.res += vh_fmt("select=%d ", g); if (g == 0) break; }
	if (g == 0) { g = emv_initiate_application_processing(&x, 7); o.res += vh_fmt("init=%d ", g) + show(snap(&x.terminal)); } if (g == 0) { g = emv_read_application_data(&x); o.res += vh_fmt("read=%d ", g); if (g == 0) vh_obs("complete-transactions"); }
	o.res += show(snap(&x.icc)); o.cmds = k.log; emv_app_list_clear(&l); emv_ctx_clear(&x); dbg_set(0, dbg_level[0], -1); o.ev.swap(evs); evs.clear();
}
static bool within(const Bytes& x, const Bytes& y) { return x.empty() || std::search(y.begin(), y.end(), x.begin(), x.end()) != y.end(); }
static void s_kernel(Rng& r, uint64_t)
{
	hook = nullptr; ts_bad = false; std::vector<Sup> sup = gen_sup(r, false); sup.push_back({from_hex("A000000003"), true}); VCard c = gen_card(r, sup, r.below(3));
	VCard::App a = simple_app(r, gen_pdol(r), r.chance(60)); gen_records(r, a, r.chance(30)); c.apps.push_back(a); if (r.chance(30)) { Resp x; x.fail = r.chance(30); x.sw = gen_sw(r); c.at[r.below(20)] = x; }
	Flds p, cf; gen_params(r, p, cf); bool tpdu = r.chance(50); unsigned pick = r.below(3); uint64_t seed = r.next();
	Run o[3]; unsigned mask = gen_mask(r); int level = dbg_level[r.below(6)], which = (int)r.below(3) - 1;
	txn(o[0], c, sup, p, cf, tpdu, pick, seed, dbg_none, dbg_level[0], -1); txn(o[1], c, sup, p, cf, tpdu, pick, seed, dbg_all, dbg_level[5], 0); txn(o[2], c, sup, p, cf, tpdu, pick, seed, mask, level, which);
	vh_note("%s", o[0].res.substr(0, 300).c_str());
	VH_CHECK(o[0].ev.empty(), "silent", "%zu events without a debug function", o[0].ev.size());
	for (int i = 1; i < 3; ++i) VH_CHECK(o[i].res == o[0].res && o[i].cmds == o[0].cmds, "no-influence", "with debug mask %X level %d: %s; without: %s", i == 1 ? dbg_all : mask, i == 1 ? dbg_level[5] : level, o[i].res.c_str(), o[0].res.c_str());
	// the configured selection of the complete stream
	std::vector<const Ev*> sel; if (which >= 0) for (auto& e : o[1].ev) if (wanted(mask, level, e.src, e.level)) sel.push_back(&e);
	VH_CHECK(sel.size() == o[2].ev.size(), "selection", "mask %X level %d: %zu events delivered, expected %zu", mask, level, o[2].ev.size(), sel.size());
	for (size_t i = 0; i < sel.size(); ++i) { const Ev &x = *sel[i], &y = o[2].ev[i]; VH_CHECK(x.src == y.src && x.level == y.level && x.type == y.type && normal(x.text) == normal(y.text) && x.buf == y.buf, "selection", "mask %X level %d: event %zu is %s, expected %s", mask, level, i, shown(y).c_str(), shown(x).c_str()); }
	if (!sel.empty() && sel.size() < o[1].ev.size()) vh_obs("partial-selection");
	// the card communication as it was
	size_t cc = 0, ti = 0, ri = 0, rr = 0; bool any_sub = true; std::string bad;
	for (auto& e : o[1].ev) {
		VH_CHECK(e.which == 0 && level_name(e.level) >= 1 && level_name(e.level) <= 4 && (e.src == dbg_src[0] || e.src == dbg_src[1] || e.src == dbg_src[2]), "event-class", "%s", shown(e).c_str());
		if (e.type >= dbg_type[4] && e.type <= dbg_type[7]) { VH_CHECK(e.src == dbg_src[0] && e.level == dbg_level[3], "event-class", "%s", shown(e).c_str()); }
		if (e.type == dbg_type[4]) { VH_CHECK(cc < o[1].cmds.size() && e.buf == o[1].cmds[cc], "c-apdu", "%s, command %s", shown(e).c_str(), cc < o[1].cmds.size() ? vh_hex(o[1].cmds[cc]).c_str() : "none"); ++cc; }
		else if (e.type == dbg_type[6]) { VH_CHECK(ti == ri && ti < o[1].w.log.size() && e.buf == o[1].w.log[ti].first, "c-tpdu", "%s", shown(e).c_str()); ++ti; }
		else if (e.type == dbg_type[7]) { while (ri < o[1].w.ok.size() && !o[1].w.ok[ri]) ++ri; VH_CHECK(ri < ti && e.buf == o[1].w.log[ri].second, "r-tpdu", "%s", shown(e).c_str()); ++ri; }
		else if (e.type == dbg_type[5]) { ++rr; VH_CHECK(ri > 0 && rr <= cc, "r-apdu", "%s", shown(e).c_str()); const Bytes& last = o[1].w.log[ri - 1].second; VH_CHECK(e.buf.size() >= 2 && last.size() >= 2, "r-apdu", "%s", shown(e).c_str()); }
		else if (e.type == dbg_type[0]) { VH_CHECK(e.buf.empty() && !e.text.empty(), "message", "%s", shown(e).c_str()); }
		else if (!e.buf.empty()) { bool found = false; for (auto& f : o[1].w.log) if (within(e.buf, f.first) || within(e.buf, f.second)) { found = true; break; } for (auto& s : sup) if (within(e.buf, s.aid)) found = true; for (auto* q : {&p, &cf}) for (auto& f : *q) if (within(e.buf, f.v)) found = true; if (!found && !tpdu) { any_sub = false; bad = shown(e); } vh_obs("data-events"); }
		while (ri < ti && ri < o[1].w.ok.size() && !o[1].w.ok[ri]) ++ri;
	}
	VH_CHECK(any_sub, "data-known", "%s: not part of the communication or configuration", bad.c_str());
	VH_CHECK(cc == o[1].cmds.size() && ti == o[1].w.log.size() && ri == ti, "communication-complete", "%zu of %zu commands, %zu of %zu transmissions, %zu responses", cc, o[1].cmds.size(), ti, o[1].w.log.size(), ri);
	if (ts_bad) vh_fail("timestamp", "event with a time before the transaction or after it was delivered");
	vh_obs("events-compared", o[1].ev.size()); vh_obs(tpdu ? "tpdu" : "apdu"); vh_distinct(vh_hash(o[0].res)); if (!o[1].ev.empty()) vh_sample(vh_fmt("%zu events, mask %X level %d selects %zu: ", o[1].ev.size(), mask, level, sel.size()) + shown(o[1].ev.back()));
}
// single exchanges: the response reported is the response returned
static void s_ttl(Rng& r, uint64_t)
{
	hook = nullptr; ts_bad = false; VCard c; VCard::App a = simple_app(r, gen_pdol(r), true); gen_records(r, a, false); c.apps.push_back(a); c.reset(); bool tpdu = r.chance(50); Link k(&c, tpdu, r.next()); Wire w; w.link = &k; struct emv_ttl_t t; t.cardreader = {tpdu ? EMV_CARDREADER_MODE_TPDU : EMV_CARDREADER_MODE_APDU, &w, wire_trx};
	for (int n = r.range(1, 5); n; --n) {
		if (r.chance(20)) { Resp x; x.fail = r.chance(40); x.sw = gen_sw(r); if (r.chance(50)) x.data = r.bytes(r.below(250)); c.at[r.below(5)] = x; }
		uint8_t rx[EMV_RAPDU_MAX]; size_t rl = sizeof rx; uint16_t sw = 0; evs.clear(); mark(); dbg_set(dbg_src[0], dbg_level[3], 1); w.log.clear(); w.ok.clear(); Bytes cmd; int g;
		switch (r.below(3)) { case 0: { Bytes df = a.df; cmd = {0, 0xA4, 4, 0, (uint8_t)df.size()}; cat(cmd, df); cmd.push_back(0); break; } case 1: cmd = {0, 0xB2, (uint8_t)r.range(1, 4), (uint8_t)(r.range(1, 30) << 3 | 4), 0}; break; default: cmd = {0x80, 0xA8, 0, 0, 2, 0x83, 0, 0}; }
		Exact e(cmd); g = emv_ttl_trx(&t, e.p, e.n, rx, &rl, &sw); dbg_set(0, dbg_level[0], -1);
		size_t ra = 0, ca = 0; for (size_t i = 0; i < evs.size(); ++i) { if (evs[i].type == dbg_type[5]) { ++ra; VH_CHECK(g == 0 && i + 1 == evs.size() && evs[i].buf == Bytes(rx, rx + rl), "r-apdu", "%s: returns %d %s, event %s", vh_hex(cmd).c_str(), g, vh_hex(rx, rl).c_str(), shown(evs[i]).c_str()); } if (evs[i].type == dbg_type[4]) { ++ca; VH_CHECK(i == 0 && evs[i].buf == cmd, "c-apdu", "%s: event %s", vh_hex(cmd).c_str(), shown(evs[i]).c_str()); } }
		VH_CHECK(ca == 1 && ra == (g == 0 ? 1u : 0u), "r-apdu", "%s: %zu command events, %zu response events, result %d", vh_hex(cmd).c_str(), ca, ra, g); vh_obs(g ? "exchange-failed" : "exchange"); if (g) break; vh_distinct(vh_hash(Bytes(rx, rx + rl)));
	}
}
static void s_atr(Rng& r, uint64_t)
{
	hook = nullptr; ts_bad = false; Bytes a = gen_atr(r).make(); if (r.chance(20)) mutate(r, a); if (a.empty()) return; Exact e(a); struct iso7816_atr_info_t i; bool ok = iso7816_atr_parse(e.p, e.n, &i) == 0; vh_note("%s", vh_hex(a).c_str());
	dbg_set(0, dbg_level[0], -1); int g0 = emv_atr_parse(e.p, e.n); evs.clear(); mark(); dbg_set(dbg_all, dbg_level[5], 0); int g = emv_atr_parse(e.p, e.n); dbg_set(0, dbg_level[0], -1);
	VH_CHECK(g == g0, "no-influence", "%s: %d with debug, %d without", vh_hex(a).c_str(), g, g0); size_t n = 0, err = 0;
	for (auto& x : evs) { if (x.type == dbg_type[3]) { ++n; VH_CHECK(x.src == dbg_src[2] && x.level == dbg_level[3] && x.buf.size() == sizeof i, "atr", "%s", shown(x).c_str()); struct iso7816_atr_info_t j; memcpy(&j, x.buf.data(), sizeof j); VH_CHECK(j.atr_len == a.size() && !memcmp(j.atr, a.data(), a.size()) && j.historical_bytes_len == i.historical_bytes_len && j.K_count == i.K_count, "atr", "%s reported as %s", vh_hex(a).c_str(), vh_hex(j.atr, std::min<size_t>(j.atr_len, 33)).c_str()); } else if (x.level == dbg_level[1]) ++err; }
	VH_CHECK(n == (ok ? 1u : 0u), "atr", "%s: %zu ATR events", vh_hex(a).c_str(), n); VH_CHECK((g != 0) == (err > 0), "atr-error", "%s: result %d with %zu error events", vh_hex(a).c_str(), g, err); vh_obs(ok ? "atr-reported" : "atr-unparsed"); if (ok && g) vh_obs("atr-rejected");
}
// the kernel's own properties hold with all events on
static void with_all(void (*f)(Rng&, uint64_t), Rng& r, uint64_t i) { hook = nullptr; keep = false; mark(); struct G { ~G() { dbg_set(0, dbg_level[0], -1); keep = true; } } g; dbg_set(dbg_all, dbg_level[5], 0); f(r, i); }
static void s_hostile_on(Rng& r, uint64_t i) { with_all(s_hostile, r, i); vh_obs("hostile-with-debug"); }
static void s_hist_on(Rng& r, uint64_t i) { with_all(s_hist, r, i); vh_obs("histories-with-debug"); }
static void s_oom_on(Rng& r, uint64_t i) { with_all(s_oom_tlv, r, i); vh_obs("oom-with-debug"); }
std::vector<Suite> vh_suites()
{
	return {{"grid", 256 * 6, 0, s_grid}, {"filter", 0, 1, s_filter}, {"macros", 0, 3, s_macros}, {"kernel", 0, 0.4, s_kernel}, {"ttl", 0, 1, s_ttl}, {"atr", 0, 2, s_atr}, {"hostile", 0, 0.05, s_hostile_on}, {"history", 0, 0.1, s_hist_on}, {"oom", 0, 0.02, s_oom_on}};
}
std::vector<std::string> vh_required()
{
	std::vector<std::string> v = {"delivered", "suppressed", "long-text", "nested", "reconfigured-by-the-function", "compiled-out", "filtered-out", "partial-selection", "complete-transactions", "tpdu", "apdu", "data-events", "exchange", "exchange-failed", "atr-reported", "atr-unparsed", "atr-rejected", "hostile-with-debug", "histories-with-debug"};
	for (int m = 0; m < 12; ++m) v.push_back(vh_fmt("macro:%d", m)); return v;
}
const char* vh_rule() { return "every mask and level against every source and event level, random emissions under changing configurations (long, nested and reconfiguring), every macro under every compile time configuration, transactions run without, with all and with selected events, and single exchanges and ATRs; distinct = distinct configurations, transactions and responses"; }
