// C04 (suites tpdu-*) and C05 (suites apdu-*): terminal transport layer against card models
#include "vh.hpp"
#include "ref_ber.hpp"
extern "C" {
#include "emv_ttl.h"
int shim_apdu_case(const void*, size_t); int shim_sw_success(uint8_t, uint8_t); int shim_sw_normal(uint8_t, uint8_t); int shim_sw_warning(uint8_t, uint8_t); int shim_sw_error(uint8_t, uint8_t);
extern const int shim_cases[7];
}
#define ISO7816_APDU_CASE_1 shim_cases[0]
#define ISO7816_APDU_CASE_2S shim_cases[1]
#define ISO7816_APDU_CASE_2E shim_cases[2]
#define ISO7816_APDU_CASE_3S shim_cases[3]
#define ISO7816_APDU_CASE_3E shim_cases[4]
#define ISO7816_APDU_CASE_4S shim_cases[5]
#define ISO7816_APDU_CASE_4E shim_cases[6]

// ---- plan of one exchange, made by the generator; both card model and oracle follow it ----
struct Step { // one answer block of the card's response phase
	Bytes data;       // response data
	uint16_t sw;      // status that goes with it
	bool fix_le;      // card first answers 6Cxx with exact length
	bool bare61;      // first answers 61xx without data (only first step, case 2)
};
struct Plan {
	int apdu_case; Bytes c_apdu; Bytes hdr; Bytes cdata;
	std::vector<bool> one;     // per procedure point: true = byte-by-byte (~INS), false = all remaining (INS)
	bool early_sw = false; size_t early_at = 0; uint16_t early = 0;   // status instead of procedure byte after early_at data bytes
	bool warn_first = false; uint16_t warn = 0;   // case 4: warning before GET RESPONSE
	std::vector<Step> steps;   // response blocks; last one's sw is final
	uint16_t only_sw = 0;      // no response data at all: this status
	Bytes want; uint16_t want_sw = 0; // what the caller must see
	std::string text;
};

static uint8_t gen_ins(Rng& r)
{
	for (;;) { uint8_t i = r.chance(40) ? r.pick({(uint8_t)0xA4, (uint8_t)0xB2, (uint8_t)0xA8, (uint8_t)0xCA, (uint8_t)0xAE, (uint8_t)0xC0, (uint8_t)0x00, (uint8_t)0xFF}) : r.u8(); if ((i & 0xF0) != 0x60 && (i & 0xF0) != 0x90) return i; }
}
static uint16_t gen_final(Rng& r)
{
	static const uint16_t k[] = {0x9000, 0x9000, 0x9000, 0x6A82, 0x6A81, 0x6283, 0x6A83, 0x6985, 0x6F00, 0x6D00, 0x6282, 0x63C2, 0x6300, 0x6200, 0x6281, 0x6700, 0x6B00, 0x9101, 0x90FF};
	for (;;) { uint16_t s = r.chance(85) ? r.pick(k) : (uint16_t)((r.chance(80) ? 0x6000 : 0x9000) | (r.u32() & 0xFFF)); if ((s >> 8) != 0x61 && (s >> 8) != 0x6C && (s >> 8) != 0x60) return s; }
}
static bool is_warn(uint16_t s) { return (s >> 8) == 0x62 || (s >> 8) == 0x63; }
static size_t gen_n(Rng& r, size_t max) { size_t n = r.chance(40) ? 1 + r.below(20) : r.chance(60) ? (size_t)r.pick({1, 2, 3, 127, 128, 254, 255, 256}) : 1 + r.below(256); return std::min(n, max); }

static Plan gen_plan(Rng& r, bool tpdu)
{
	Plan p; p.apdu_case = 1 + r.below(4);
	p.hdr = {(uint8_t)(r.chance(50) ? 0x00 : r.chance(50) ? 0x80 : r.u8()), gen_ins(r), r.b8(), r.b8()};
	p.c_apdu = p.hdr;
	if (p.apdu_case >= 3) { size_t n = r.chance(50) ? 1 + r.below(20) : r.chance(50) ? (size_t)r.pick({1, 2, 254, 255}) : 1 + r.below(255); p.cdata = r.bytes(n); 
		// data bytes that look like procedure or status bytes
		for (auto& b : p.cdata) if (r.chance(15)) b = r.pick({(uint8_t)p.hdr[1], (uint8_t)~p.hdr[1], (uint8_t)0x60, (uint8_t)0x61, (uint8_t)0x6C, (uint8_t)0x90, (uint8_t)0xC0});
		p.c_apdu.push_back(n); cat(p.c_apdu, p.cdata); }
	uint8_t le = r.chance(60) ? 0 : r.u8();
	if (p.apdu_case == 2 || p.apdu_case == 4) p.c_apdu.push_back(le);
	// command data transfer
	if (tpdu && p.apdu_case >= 3) {
		unsigned style = r.below(4); // all at once, all single, mixed, early status
		size_t sent = 0;
		while (sent < p.cdata.size()) {
			bool one = style == 0 ? false : style == 1 ? true : r.chance(style == 2 ? 85 : 70);
			if (style == 3 && r.chance(15)) { p.early_sw = true; p.early_at = sent; break; }
			p.one.push_back(one);
			sent += one ? 1 : p.cdata.size() - sent;
		}
		if (p.early_sw) { do p.early = gen_final(r); while (is_warn(p.early)); p.want_sw = p.early; p.text = "early-status"; return p; }
	}
	if (p.apdu_case == 1 || p.apdu_case == 3) { p.only_sw = gen_final(r); p.want_sw = p.only_sw; p.text = "status-only"; return p; }
	unsigned kind = r.below(10);
	if (kind < 2) { // status only
		do p.only_sw = gen_final(r); while (p.apdu_case == 4 && is_warn(p.only_sw));
		p.want_sw = p.only_sw; p.text = "status-only"; return p;
	}
	bool long_chain = kind == 9 && r.chance(40); // many small blocks, nearly every one behind a 6Cxx
	unsigned nsteps = kind < 6 ? 1 : long_chain ? 9 + r.below(30) : 2 + r.below(3);
	if (p.apdu_case == 4 && r.chance(30)) { p.warn_first = true; do p.warn = r.chance(25) ? 0x6200 | r.pick({0, 1, 2, 3, 16, 0x7F, 0x80, 0x81}) : gen_final(r); while (!is_warn(p.warn)); }
	for (unsigned i = 0; i < nsteps; ++i) {
		Step s; s.data = r.bytes(long_chain ? 1 + r.below(7) : gen_n(r, 256));
		if (r.chance(20)) for (auto& b : s.data) if (r.chance(40)) b = r.pick({(uint8_t)p.hdr[1], (uint8_t)0x60, (uint8_t)0x61, (uint8_t)0x6C, (uint8_t)0x90, (uint8_t)0x00, (uint8_t)0xC0});
		if (i == 0 && p.apdu_case == 2 && r.chance(5)) s.data.clear();
		s.fix_le = r.chance(long_chain ? 90 : 35);
		s.bare61 = i == 0 && p.apdu_case == 2 && !s.data.empty() && r.chance(25);
		s.sw = gen_final(r);
		p.steps.push_back(s);
	}
	for (unsigned i = 0; i + 1 < nsteps; ++i) p.steps[i].sw = 0x6100 | (p.steps[i + 1].data.size() & 0xFF);
	for (auto& s : p.steps) cat(p.want, s.data);
	p.want_sw = p.warn_first ? p.warn : p.steps.back().sw;
	p.text = vh_fmt("%u blocks%s%s", nsteps, p.warn_first ? " after warning" : "", p.steps[0].bare61 ? " after bare 61" : "");
	return p;
}

struct Card {
	Plan p; bool tpdu; std::vector<std::pair<Bytes, Bytes>> log; std::string err;
	enum { HDR, DATA, RESP, DONE } st = HDR;
	size_t sent = 0, pp = 0, step = 0; bool asked_le = false, asked_61 = false, warned = false; Bytes cur_hdr; unsigned steps_n = 0;
	size_t stop_at = (size_t)-1; int stop_r = 0; // reader failure
	Bytes reply; size_t calls = 0;
	void bad(const std::string& s) { if (err.empty()) err = s; }
	void sw(uint16_t s) { reply = {(uint8_t)(s >> 8), (uint8_t)s}; }
	uint8_t ins() { return cur_hdr[1]; }
	void block() // send response block 'step', the current command asked for it
	{
		Step& s = p.steps[step];
		if (s.fix_le && !asked_le) { asked_le = true; sw(0x6C00 | (s.data.size() & 0xFF)); return; }
		reply.clear();
		if (tpdu) reply.push_back(ins());
		cat(reply, s.data); reply.push_back(s.sw >> 8); reply.push_back(s.sw);
		++step; asked_le = false;
		if (step >= p.steps.size()) st = DONE;
	}
	void respond() // command fully received
	{
		if (p.only_sw) { sw(p.only_sw); st = DONE; return; }
		st = RESP;
		if (p.apdu_case == 2) {
			if (p.steps[0].bare61 && !asked_61) { asked_61 = true; sw(0x6100 | (p.steps[0].data.size() & 0xFF)); return; }
			block(); return;
		}
		if (p.warn_first && !warned) { warned = true; sw(p.warn); return; }
		if (tpdu) sw(0x6100 | (p.steps[0].data.size() & 0xFF));
		else if (!asked_61 && p.steps[0].data.size() % 2) { asked_61 = true; sw(0x6100 | (p.steps[0].data.size() & 0xFF)); }
		else { p.steps[0].fix_le = false; block(); }
	}
	void on_tx(const uint8_t* b, size_t n)
	{
		Bytes t(b, b + n);
		if (st == HDR) {
			if (tpdu) {
				Bytes want = p.hdr; want.push_back(p.apdu_case == 1 ? 0 : p.c_apdu[4]);
				if (t != want) bad("command header is " + vh_hex(t) + ", expected " + vh_hex(want));
				cur_hdr = want;
				if (p.apdu_case >= 3) { st = DATA; proc(); } else respond();
			} else {
				if (t != p.c_apdu) bad("C-APDU is " + vh_hex(t) + ", expected " + vh_hex(p.c_apdu));
				cur_hdr = p.hdr; respond();
			}
		} else if (st == DATA) {
			bool one = p.one[pp++];
			size_t k = one ? 1 : p.cdata.size() - sent;
			Bytes want(p.cdata.begin() + sent, p.cdata.begin() + sent + k);
			if (t != want) bad(vh_fmt("command data at %zu is ", sent) + vh_hex(t) + ", expected " + vh_hex(want));
			sent += k; proc();
		} else if (st == RESP) {
			// either corrected Le of the previous header, or GET RESPONSE
			Step& s = p.steps[step];
			if (asked_le) {
				Bytes want(cur_hdr.begin(), cur_hdr.begin() + 4); want.push_back(s.data.size() & 0xFF);
				if (t != want) bad("command with corrected Le is " + vh_hex(t) + ", expected " + vh_hex(want));
			} else {
				Bytes want = {0x00, 0xC0, 0x00, 0x00, (uint8_t)(s.data.size() & 0xFF)};
				bool first_after_warning = p.warn_first && step == 0 && warned;
				if (first_after_warning ? !(t.size() == 5 && t[0] == 0 && t[1] == 0xC0 && !t[2] && !t[3] && (!t[4] || ((p.warn >> 8) == 0x62 && (p.warn & 0xFF) >= 2 && (p.warn & 0xFF) <= 0x80 && t[4] == (p.warn & 0xFF)))) : t != want) bad("GET RESPONSE is " + vh_hex(t) + ", expected " + vh_hex(want));
			}
			cur_hdr = t; if (cur_hdr.size() < 5) cur_hdr.resize(5);
			block();
		} else { bad("transmission after the exchange was complete: " + vh_hex(t)); sw(0x6F00); }
	}
	void proc()
	{
		if (p.early_sw && sent == p.early_at) { sw(p.early); st = DONE; return; }
		if (sent < p.cdata.size()) { reply = {(uint8_t)(p.one[pp] ? ~p.hdr[1] : p.hdr[1])}; return; }
		respond();
	}
};
static int card_trx(void* ctx, const void* tx, size_t n, void* rx, size_t* rxn)
{
	Card* c = (Card*)ctx;
	if (vh_on_valgrind()) { size_t u = vh_undefined(tx, n); if (u) c->bad("uninitialised data transmitted"); }
	if (c->calls++ == c->stop_at) { *rxn = 0; return c->stop_r; }
	if (c->calls > 2000) { c->bad("more than 2000 transmissions"); return -99; }
	Bytes t((const uint8_t*)tx, (const uint8_t*)tx + n);
	c->reply.clear();
	c->on_tx(t.data(), t.size());
	c->log.push_back({t, c->reply});
	if (c->reply.size() > *rxn) { c->bad(vh_fmt("receive buffer of %zu bytes cannot hold the %zu byte answer", *rxn, c->reply.size())); return -98; }
	memcpy(rx, c->reply.data(), c->reply.size()); *rxn = c->reply.size();
	return 0;
}
static std::string trace(const Card& c) { std::string s; for (auto& x : c.log) s += " > " + vh_hex(x.first) + " < " + vh_hex(x.second); return s.substr(0, 1500); }

static void exchange(Rng& r, bool tpdu)
{
	Card c; c.tpdu = tpdu; c.p = gen_plan(r, tpdu);
	Plan& p = c.p;
	size_t need = p.want.size() + 2;
	size_t cap = r.chance(40) ? need : r.chance(40) ? std::max<size_t>(need, EMV_RAPDU_MAX) : r.chance(40) ? need + r.below(50) : (size_t)r.range(2, std::max<int64_t>(2, need - 1));
	bool small = cap < need;
	struct emv_ttl_t ttl; ttl.cardreader = {tpdu ? EMV_CARDREADER_MODE_TPDU : EMV_CARDREADER_MODE_APDU, &c, card_trx};
	bool fail = r.chance(8);
	if (fail) { c.stop_at = r.below(4); c.stop_r = r.chance(70) ? -(int)(20 + r.below(50)) : 0; }
	Exact in(p.c_apdu), out(cap); size_t len = cap; uint16_t sw = 0xBEEF;
	int rr = emv_ttl_trx(&ttl, in.p, in.n, out.p, &len, &sw);
	std::string tr = trace(c); vh_note("%s", tr.substr(0, 1000).c_str());
	VH_CHECK(c.err.empty(), "card-sees", "%s;%s", c.err.c_str(), tr.c_str());
	bool stopped = c.calls > c.stop_at;
	if (stopped) { VH_CHECK(c.stop_r ? rr == c.stop_r : rr != 0, "reader-failure", "reader returned %d, caller got %d", c.stop_r, rr); vh_obs("reader-failure"); return; }
	if (small) { vh_obs("buffer-too-small"); VH_CHECK(rr != 0, "too-small", "success although %zu bytes do not fit into %zu", need, cap); return; }
	VH_CHECK(rr == 0, "exchange", "returned %d for case %d (%s), response of %zu bytes into %zu;%s", rr, p.apdu_case, p.text.c_str(), need, cap, tr.c_str());
	Bytes want = p.want; want.push_back(p.want_sw >> 8); want.push_back(p.want_sw);
	VH_CHECK(len == want.size() && !memcmp(out.p, want.data(), len), "response", "R-APDU %s, expected %s;%s", vh_hex(out.p, std::min(len, cap)).c_str(), vh_hex(want).c_str(), tr.c_str());
	VH_CHECK(sw == p.want_sw, "status", "SW %04X, expected %04X;%s", sw, p.want_sw, tr.c_str());
	VH_CHECK(c.st == Card::DONE, "complete", "exchange ended before the card was done;%s", tr.c_str());
	for (size_t i = len; i < cap; ++i) VH_CHECK(out.p[i] == 0xA5, "beyond", "byte %zu beyond the response was written", i);
	VH_DEFINED(out.p, len, "r-apdu");
	vh_obs(vh_fmt("case%d", p.apdu_case) == "case1" ? "case1" : p.apdu_case == 2 ? "case2" : p.apdu_case == 3 ? "case3" : "case4");
	if (p.early_sw) vh_obs("early-status"); if (p.warn_first) vh_obs("warning-then-data"); if (p.steps.size() > 1) vh_obs("chained"); if (p.steps.size() > 8) vh_obs("long-chain"); 
	for (auto& s : p.steps) { if (s.fix_le) vh_obs("6C-corrected"); if (s.bare61) vh_obs("bare-61"); if (s.data.size() == 256) vh_obs("256-byte-block"); if (s.data.empty()) vh_obs("empty-block"); }
	bool any1 = false, anyAll = false; for (bool o : p.one) (o ? any1 : anyAll) = true;
	if (any1 && anyAll) vh_obs("mixed-data-transfer"); else if (any1) vh_obs("single-byte-transfer"); else if (anyAll) vh_obs("whole-data-transfer");
	vh_obs("exchange-bytes", c.log.size());
	std::string shape; for (auto& x : c.log) shape += vh_fmt("%zu/%zu/%02X ", x.first.size(), x.second.size(), x.second.empty() ? 0 : x.second[0]);
	vh_distinct(vh_hash(shape)); vh_sample((tpdu ? "T=0" : "APDU") + tr);
}
static void s_tpdu(Rng& r, uint64_t) { exchange(r, true); }
static void s_apdu(Rng& r, uint64_t) { exchange(r, false); }

// ---- malformed card behaviour ----
struct Script { std::vector<Bytes> replies; size_t i = 0; size_t max = 4000; std::vector<Bytes> txs; int rc = 0; bool small = false; bool loop = false; };
static int script_trx(void* ctx, const void* tx, size_t n, void* rx, size_t* rxn)
{
	Script* s = (Script*)ctx; s->txs.push_back(Bytes((const uint8_t*)tx, (const uint8_t*)tx + n));
	if (vh_on_valgrind() && vh_undefined(tx, n)) vh_fail("uninit:tx", "uninitialised data transmitted");
	if (s->txs.size() > s->max) return -77;
	if (s->i >= s->replies.size()) { if (!s->loop) return -55; s->i = 0; }
	Bytes& b = s->replies[s->i++]; size_t k = std::min(b.size(), *rxn);
	memcpy(rx, b.data(), k); *rxn = k; return 0;
}
static Bytes cat2(Bytes a, uint16_t sw) { a.push_back(sw >> 8); a.push_back(sw); return a; }
static void s_tpdu_bad(Rng& r, uint64_t)
{
	Plan p = gen_plan(r, true);
	Script s; Bytes good1 = {p.hdr[1]}; std::string what;
	auto other = [&]() { for (;;) { uint8_t b = r.u8(); if (b != p.hdr[1] && b != (uint8_t)~p.hdr[1]) return b; } };
	unsigned k = r.below(8);
	size_t D = p.cdata.size();
	switch (k) {
		case 0: what = "empty response"; s.replies = {{}}; break;
		case 1: what = "wrong procedure byte"; s.replies = {{other()}}; if (D && r.chance(50)) s.replies = {{(uint8_t)~p.hdr[1]}, {other()}}; if (D < 2 && s.replies.size() > 1) s.replies = {{other()}}; break;
		case 2: what = "data request without data"; if (p.apdu_case >= 3) { s.replies = {good1, {r.chance(50) ? p.hdr[1] : (uint8_t)~p.hdr[1]}}; } else s.replies = {good1}; break;
		case 3: if (p.apdu_case != 3 && p.apdu_case != 1) return; what = "data in answer to a command without response data"; { Bytes d = {p.hdr[1]}; cat(d, r.bytes(1 + r.below(20))); d = cat2(d, 0x9000); if (p.apdu_case == 3) s.replies = {good1, d}; else s.replies = {d}; } break;
		case 4: if (p.apdu_case != 3) return; what = "61xx/6Cxx for case 3"; s.replies = {good1, {(uint8_t)(r.chance(50) ? 0x61 : 0x6C), r.u8()}}; break;
		case 5: if (p.apdu_case != 2) return; what = "data with wrong INS"; { Bytes d = {other()}; cat(d, r.bytes(1 + r.below(20))); s.replies = {cat2(d, 0x9000)}; } break;
		case 6: if (p.apdu_case != 4) return; what = "GET RESPONSE answered with wrong INS"; { Bytes d; for (;;) { d = {r.u8()}; if (d[0] != 0xC0) break; } cat(d, r.bytes(1 + r.below(20))); s.replies = {good1, {0x61, 0x05}, cat2(d, 0x9000)}; } break;
		case 7: if (p.apdu_case != 2 && p.apdu_case != 4) return; what = "endless 61xx/6Cxx"; s.replies = {{(uint8_t)(r.chance(50) ? 0x61 : 0x6C), r.u8()}}; if (r.chance(40)) s.replies.push_back({(uint8_t)(r.chance(50) ? 0x61 : 0x6C), r.u8()}); s.loop = true; break;
	}
	struct emv_ttl_t ttl; ttl.cardreader = {EMV_CARDREADER_MODE_TPDU, &s, script_trx};
	Exact in(p.c_apdu), out((size_t)EMV_RAPDU_MAX); size_t len = out.n; uint16_t sw = 0;
	int rr = emv_ttl_trx(&ttl, in.p, in.n, out.p, &len, &sw);
	VH_CHECK(s.txs.size() <= s.max, "bounded", "%s: more than %zu transmissions", what.c_str(), s.max);
	VH_CHECK(rr != 0, "malformed-reported", "case %d, %s: success with %s", p.apdu_case, what.c_str(), vh_hex(out.p, std::min(len, out.n)).c_str());
	VH_CHECK(rr != -55, "malformed-detected", "case %d, %s: not noticed", p.apdu_case, what.c_str());
	vh_obs("malformed"); vh_distinct(k * 1000 + p.apdu_case);
}
static void s_noise(Rng& r, bool tpdu)
{
	// arbitrary replies: memory safety, boundedness, result consistency
	Plan p = gen_plan(r, tpdu); Script s;
	unsigned n = 1 + r.below(12);
	for (unsigned i = 0; i < n; ++i) {
		Bytes b;
		switch (r.below(7)) {
			case 0: b = {p.hdr[1]}; break; case 1: b = {(uint8_t)~p.hdr[1]}; break; case 2: b = {(uint8_t)r.pick({0x61, 0x6C, 0x62, 0x63, 0x90, 0x6A}), r.b8()}; break;
			case 3: b = {(uint8_t)(r.chance(50) ? p.hdr[1] : 0xC0)}; cat(b, r.bytes(r.below(257))); b = cat2(b, r.chance(40) ? 0x9000 : (uint16_t)(0x6100 | r.u8())); break;
			case 4: b = r.bytes(r.below(260)); break; case 5: b = {(uint8_t)(r.chance(50) ? 0xC0 : 0x3F)}; break; default: b = r.bytes(r.below(4)); break;
		}
		s.replies.push_back(b);
	}
	s.loop = r.chance(50);
	size_t cap = r.chance(50) ? EMV_RAPDU_MAX : 1 + r.below(400);
	struct emv_ttl_t ttl; ttl.cardreader = {tpdu ? EMV_CARDREADER_MODE_TPDU : EMV_CARDREADER_MODE_APDU, &s, script_trx};
	Bytes ca = p.c_apdu; if (r.chance(15)) mutate(r, ca); if (ca.empty()) return;
	Exact in(ca), out(cap); size_t len = cap; uint16_t sw = 0;
	int rr = emv_ttl_trx(&ttl, in.p, in.n, out.p, &len, &sw);
	VH_CHECK(s.txs.size() <= s.max, "bounded", "more than %zu transmissions", s.max);
	if (rr == 0) {
		VH_CHECK(len >= 2 && len <= cap, "noise-length", "success with length %zu of %zu", len, cap);
		VH_CHECK(sw == (out.p[len - 2] << 8 | out.p[len - 1]), "noise-sw", "SW %04X does not match R-APDU", sw);
		VH_DEFINED(out.p, len, "r-apdu"); vh_obs("noise-accepted");
		vh_distinct(vh_hash(out.p, len, s.txs.size()));
	} else vh_obs("noise-rejected");
	vh_obs("noise-transmissions", s.txs.size());
}
static void s_tpdu_noise(Rng& r, uint64_t) { s_noise(r, true); }
static void s_apdu_noise(Rng& r, uint64_t) { s_noise(r, false); }

// ---- C05: commands ----
static void s_apdu_cmd(Rng& r, uint64_t)
{
	bool tpdu = r.chance(25);
	Card c; c.tpdu = tpdu;
	unsigned cmd = r.below(4);
	Bytes df, data; uint8_t sfi = 0, rec = 0; bool valid = true; Plan& p = c.p;
	bool null_data = false;
	if (cmd < 2) {
		df = r.bytes(r.chance(85) ? 5 + r.below(12) : (size_t)r.pick({0, 1, 4, 17, 18, 255, 300}));
		valid = df.size() >= 5 && df.size() <= 16;
		p.apdu_case = 4; p.hdr = {0x00, 0xA4, 0x04, (uint8_t)(cmd == 0 ? 0x00 : 0x02)}; p.cdata = df;
	} else if (cmd == 2) {
		sfi = r.chance(80) ? 1 + r.below(30) : r.pick({(uint8_t)0, (uint8_t)31, (uint8_t)32, (uint8_t)0xFF, (uint8_t)0x80, (uint8_t)30}); rec = r.b8();
		valid = sfi >= 1 && sfi <= 30;
		p.apdu_case = 2; p.hdr = {0x00, 0xB2, rec, (uint8_t)(sfi * 8 + 4)};
	} else {
		null_data = r.chance(20);
		if (null_data) data = {0x83, 0x00};
		else { size_t n = r.chance(70) ? r.below(40) : (size_t)r.pick({0, 1, 2, 127, 128, 252, 253, 254, 255, 256}); data = enc_tlv(0x83, r.bytes(n)); if (r.chance(8)) data[0] = r.u8(); if (r.chance(5)) data.resize(r.below(2)); }
		valid = data.size() >= 2 && data.size() <= 255 && data[0] == 0x83;
		p.apdu_case = 4; p.hdr = {0x80, 0xA8, 0x00, 0x00}; p.cdata = data;
	}
	p.c_apdu = p.hdr; if (p.apdu_case == 4) { p.c_apdu.push_back(p.cdata.size()); cat(p.c_apdu, p.cdata); } p.c_apdu.push_back(0);
	if (p.apdu_case == 4) p.one.push_back(false);
	bool statusonly = r.chance(25);
	if (statusonly) { do p.only_sw = gen_final(r); while (is_warn(p.only_sw) && p.apdu_case == 4); p.want_sw = p.only_sw; }
	else {
		unsigned n = r.chance(80) ? 1 : 2; size_t left = 256;
		for (unsigned i = 0; i < n; ++i) { Step s; s.data = r.bytes(gen_n(r, n == 1 ? 256 : 128)); (void)left; s.fix_le = r.chance(20); s.bare61 = i == 0 && cmd == 2 && r.chance(15); s.sw = gen_final(r); p.steps.push_back(s); }
		for (unsigned i = 0; i + 1 < n; ++i) p.steps[i].sw = 0x6100 | (p.steps[i + 1].data.size() & 0xFF);
		for (auto& s : p.steps) cat(p.want, s.data);
		p.want_sw = p.steps.back().sw;
	}
	size_t cap = r.chance(70) ? 256 : r.chance(50) ? 256 + r.below(100) : r.below(256);
	bool capok = cap >= 256;
	if (r.chance(8)) { c.stop_at = r.below(3); c.stop_r = -(int)(20 + r.below(50)); }
	struct emv_ttl_t ttl; ttl.cardreader = {tpdu ? EMV_CARDREADER_MODE_TPDU : EMV_CARDREADER_MODE_APDU, &c, card_trx};
	Exact in(cmd < 2 ? df : data), out(cap); size_t len = cap; uint16_t sw = 0xBEEF; int rr;
	if (cmd == 0) rr = emv_ttl_select_by_df_name(&ttl, in.p, in.n, out.p, &len, &sw);
	else if (cmd == 1) rr = emv_ttl_select_by_df_name_next(&ttl, in.p, in.n, out.p, &len, &sw);
	else if (cmd == 2) rr = emv_ttl_read_record(&ttl, sfi, rec, out.p, &len, &sw);
	else rr = emv_ttl_get_processing_options(&ttl, null_data ? NULL : in.p, null_data ? 0 : in.n, out.p, &len, &sw);
	static const char* names[] = {"SELECT", "SELECT next", "READ RECORD", "GPO"};
	std::string tr = trace(c); vh_note("%s %s", names[cmd], tr.substr(0, 800).c_str());
	if (!valid || !capok) { VH_CHECK(rr != 0, "invalid-rejected", "%s accepted invalid arguments", names[cmd]); VH_CHECK(c.calls == 0, "invalid-not-sent", "%s sent something for invalid arguments:%s", names[cmd], tr.c_str()); vh_obs("invalid-arguments"); return; }
	VH_CHECK(c.err.empty(), "card-sees", "%s: %s;%s", names[cmd], c.err.c_str(), tr.c_str());
	if (c.calls > c.stop_at) { VH_CHECK(rr == c.stop_r, "reader-failure", "reader returned %d, caller got %d", c.stop_r, rr); vh_obs("reader-failure"); return; }
	VH_CHECK(rr == 0, "command", "%s returned %d;%s", names[cmd], rr, tr.c_str());
	VH_CHECK(len == p.want.size() && !memcmp(out.p, p.want.data(), len), "response-data", "%s: data %s, expected %s", names[cmd], vh_hex(out.p, std::min(len, cap)).c_str(), vh_hex(p.want).c_str());
	VH_CHECK(sw == p.want_sw, "status", "%s: SW %04X, expected %04X", names[cmd], sw, p.want_sw);
	for (size_t i = len; i < cap; ++i) VH_CHECK(out.p[i] == 0xA5, "beyond", "byte %zu beyond the response was written", i);
	VH_DEFINED(out.p, len, "response");
	vh_obs(cmd == 0 ? "SELECT" : cmd == 1 ? "SELECT-next" : cmd == 2 ? "READ-RECORD" : null_data ? "GPO-empty" : "GPO");
	if (p.want.size() == 256) vh_obs("256-byte-response");
	vh_distinct(vh_hash(p.c_apdu, vh_hash(p.want)));
	vh_sample(std::string(names[cmd]) + tr);
}
static void s_apdu_rr(Rng& r, uint64_t i)
{
	// every SFI x record number
	uint8_t sfi = i >> 8, rec = i; Script s; s.replies = {{0x70, 0x00, 0x90, 0x00}};
	struct emv_ttl_t ttl; ttl.cardreader = {EMV_CARDREADER_MODE_APDU, &s, script_trx}; Exact out(256); size_t len = 256; uint16_t sw = 0;
	int rr = emv_ttl_read_record(&ttl, sfi, rec, out.p, &len, &sw); bool ok = sfi >= 1 && sfi <= 30;
	if (!ok) { VH_CHECK(rr != 0 && s.txs.empty(), "invalid-rejected", "SFI %u", sfi); return; }
	Bytes want = {0x00, 0xB2, rec, (uint8_t)(sfi << 3 | 4), 0x00};
	VH_CHECK(rr == 0 && s.txs.size() == 1 && s.txs[0] == want, "card-sees", "READ RECORD %s, expected %s", s.txs.empty() ? "-" : vh_hex(s.txs[0]).c_str(), vh_hex(want).c_str());
	VH_CHECK(len == 2 && out.p[0] == 0x70 && sw == 0x9000, "response-data", "response");
}
static void s_apdu_short(Rng& r, uint64_t)
{
	// responses shorter than a status word, empty, oversized
	Script s; unsigned cmd = r.below(4);
	s.replies = {r.bytes(r.below(2))};
	struct emv_ttl_t ttl; ttl.cardreader = {EMV_CARDREADER_MODE_APDU, &s, script_trx};
	Exact out(256); size_t len = 256; uint16_t sw = 0; int rr; Bytes df = r.bytes(7); Exact in(df);
	if (cmd == 0) rr = emv_ttl_select_by_df_name(&ttl, in.p, in.n, out.p, &len, &sw);
	else if (cmd == 1) rr = emv_ttl_select_by_df_name_next(&ttl, in.p, in.n, out.p, &len, &sw);
	else if (cmd == 2) rr = emv_ttl_read_record(&ttl, 1, 1, out.p, &len, &sw);
	else rr = emv_ttl_get_processing_options(&ttl, NULL, 0, out.p, &len, &sw);
	VH_CHECK(rr != 0, "short-response", "response of %zu bytes accepted", s.replies[0].size());
	vh_obs("short-response");
}
static void s_apdu_case(Rng& r, uint64_t)
{
	// APDU case determination, all short and extended forms
	unsigned k = r.below(8); Bytes b = r.bbytes(4); int want; size_t n = r.chance(70) ? 1 + r.below(300) : r.chance(50) ? 65535 - r.below(3) : 255 + r.below(3);
	switch (k) {
		case 0: want = ISO7816_APDU_CASE_1; break;
		case 1: b.push_back(r.u8()); want = ISO7816_APDU_CASE_2S; break;
		case 2: n = 1 + n % 255; b.push_back(n); cat(b, r.bytes(n)); want = ISO7816_APDU_CASE_3S; break;
		case 3: n = 1 + n % 255; b.push_back(n); cat(b, r.bytes(n + 1)); want = ISO7816_APDU_CASE_4S; break;
		case 4: b.push_back(0); cat(b, r.bytes(2)); want = ISO7816_APDU_CASE_2E; break;
		case 5: b.push_back(0); b.push_back(n >> 8); b.push_back(n); cat(b, r.bytes(n)); want = ISO7816_APDU_CASE_3E; break;
		case 6: b.push_back(0); b.push_back(n >> 8); b.push_back(n); cat(b, r.bytes(n + 2)); want = ISO7816_APDU_CASE_4E; break;
		default: {
			// inconsistent length
			if (r.chance(30)) { b.resize(r.below(4)); if (b.empty()) b.push_back(0); want = -1; break; }
			n = 1 + r.below(200); b.push_back(n); size_t m = r.below(400); if (m == n || m == n + 1 || m == 0) return; cat(b, r.bytes(m)); want = -1; break; }
	}
	Exact e(b);
	int got = shim_apdu_case(e.p, e.n);
	VH_CHECK(want < 0 ? got < 0 : got == want, "apdu-case", "case %d, expected %d for %zu bytes %s", got, want, b.size(), vh_hex(b).substr(0, 24).c_str());
	vh_obs("apdu-case");
}
static void s_apdu_sw(Rng&, uint64_t i)
{
	uint8_t a = i >> 8, b = i;
	bool succ = a == 0x90 && b == 0, norm = succ || a == 0x61, warn = a == 0x62 || a == 0x63;
	VH_CHECK(!!shim_sw_success(a, b) == succ && !!shim_sw_normal(a, b) == norm && !!shim_sw_warning(a, b) == warn && !!shim_sw_error(a, b) == (!norm && !warn), "sw-class", "SW %04lX", (unsigned long)i);
}
static void s_apdu_args(Rng&, uint64_t)
{
	Script s; struct emv_ttl_t t; t.cardreader = {EMV_CARDREADER_MODE_APDU, &s, script_trx}; uint8_t b[300] = {0}, o[300]; size_t n = 300, z = 0; uint16_t sw;
	VH_CHECK(emv_ttl_trx(NULL, b, 5, o, &n, &sw) && emv_ttl_trx(&t, NULL, 5, o, &n, &sw) && emv_ttl_trx(&t, b, 0, o, &n, &sw) && emv_ttl_trx(&t, b, 5, NULL, &n, &sw) && emv_ttl_trx(&t, b, 5, o, NULL, &sw) && emv_ttl_trx(&t, b, 5, o, &z, &sw) && emv_ttl_trx(&t, b, 5, o, &n, NULL) && emv_ttl_trx(&t, b, 3, o, &n, &sw), "null-args", "emv_ttl_trx");
	VH_CHECK(emv_ttl_select_by_df_name(NULL, b, 5, o, &n, &sw) && emv_ttl_select_by_df_name(&t, NULL, 5, o, &n, &sw) && emv_ttl_select_by_df_name(&t, b, 5, NULL, &n, &sw) && emv_ttl_select_by_df_name(&t, b, 5, o, NULL, &sw) && emv_ttl_select_by_df_name(&t, b, 5, o, &n, NULL), "null-args", "select");
	VH_CHECK(emv_ttl_read_record(NULL, 1, 1, o, &n, &sw) && emv_ttl_read_record(&t, 1, 1, NULL, &n, &sw) && emv_ttl_get_processing_options(NULL, NULL, 0, o, &n, &sw) && emv_ttl_get_processing_options(&t, NULL, 0, NULL, &n, &sw), "null-args", "read/gpo");
	VH_CHECK(s.txs.empty(), "null-args", "something was sent");
	t.cardreader.mode = (enum emv_cardreader_mode_t)7; n = 300;
	VH_CHECK(emv_ttl_trx(&t, b, 5, o, &n, &sw) != 0 && s.txs.empty(), "unknown-mode", "unknown reader mode accepted");
}
std::vector<Suite> vh_suites()
{
	return {{"tpdu-exchange", 0, 4, s_tpdu}, {"tpdu-malformed", 0, 1, s_tpdu_bad}, {"tpdu-noise", 0, 2, s_tpdu_noise},
		{"apdu-exchange", 0, 1, s_apdu}, {"apdu-noise", 0, 1, s_apdu_noise}, {"apdu-cmd", 0, 4, s_apdu_cmd}, {"apdu-rr", 65536, 0, s_apdu_rr}, {"apdu-short", 0, 0.1, s_apdu_short},
		{"apdu-case", 0, 0.5, s_apdu_case}, {"apdu-sw", 65536, 0, s_apdu_sw}, {"apdu-args", 1, 0, s_apdu_args}};
}
std::vector<std::string> vh_required()
{
	if (!strcmp(vh_prefix(), "tpdu")) return {"case1", "case2", "case3", "case4", "early-status", "warning-then-data", "chained", "long-chain", "6C-corrected", "bare-61", "256-byte-block", "empty-block", "mixed-data-transfer", "single-byte-transfer", "whole-data-transfer", "reader-failure", "buffer-too-small", "malformed", "noise-accepted", "noise-rejected"};
	return {"SELECT", "SELECT-next", "READ-RECORD", "GPO", "GPO-empty", "invalid-arguments", "reader-failure", "short-response", "256-byte-response", "apdu-case", "chained"};
}
const char* vh_rule()
{
	return !strcmp(vh_prefix(), "tpdu") ? "T=0 exchange plans (case, INS, data sizes, ACK/~ACK order, early status, 61xx chains, 6Cxx corrections, warnings, buffer capacities, reader failures) executed by a card model that checks every transmitted byte; malformed and random reply scripts; non-trivial = distinct shape of the exchange (sizes and procedure bytes)"
		: "command arguments in and out of range, responses of 0-256 bytes with and without 61xx/6Cxx, buffer sizes, reader failures; all SFI x record, all status words; non-trivial = distinct (C-APDU, response)";
}
