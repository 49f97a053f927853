// C24: src/pcsc.c against a scripted PC/SC service that monitors its use
#include "vh.hpp"
#include <cstdarg>
#include <winscard.h>
#include <reader.h>
extern "C" {
#include "pcsc.h"
int vh_quiet_fprintf(FILE*, const char* f, ...) { static char b[4096]; va_list a; va_start(a, f); int n = vsnprintf(b, sizeof b, f, a); va_end(a); VH_DEFINED(b, strlen(b), "message"); vh_obs("messages"); return n; }
extern const SCARD_IO_REQUEST g_rgSCardT0Pci, g_rgSCardT1Pci, g_rgSCardRawPci;
const SCARD_IO_REQUEST g_rgSCardT0Pci = {SCARD_PROTOCOL_T0, sizeof(SCARD_IO_REQUEST)}, g_rgSCardT1Pci = {SCARD_PROTOCOL_T1, sizeof(SCARD_IO_REQUEST)}, g_rgSCardRawPci = {SCARD_PROTOCOL_RAW, sizeof(SCARD_IO_REQUEST)};
}
static const DWORD F_REQ = CM_IOCTL_GET_FEATURE_REQUEST;
struct Change { uint64_t at; DWORD state; };
struct Reader {
	std::string name; Bytes features, tlv; Bytes pin, disp; uint32_t code[3] = {0, 0, 0};  // control codes of pin, display, TLV properties
	LONG direct = 0; std::map<DWORD, LONG> fail; LONG direct_disc = 0;
	std::vector<Change> tl; LONG connect = 0, status = 0, disconnect = 0; DWORD proto = 0; Bytes atr; Bytes uid_reply; LONG trx = 0; Bytes reply; std::function<bool(const Bytes&, Bytes&)> card;
	// monitored
	bool got_features = false; std::set<DWORD> asked, got; bool any_fail = false; unsigned directs = 0;
};
struct Handle { size_t reader; bool direct; bool open = true; DWORD proto = 0; };
struct Service {
	std::vector<Reader> rd; LONG establish = 0, list[2] = {0, 0}, release = 0, wait = 0; unsigned lists = 0; bool ctx_open = false; SCARDCONTEXT ctx = 0; unsigned ctxs = 0; std::map<SCARDHANDLE, Handle> h; SCARDHANDLE next = 0x1000;
	uint64_t now = 0; std::string err; std::vector<Bytes> tx; size_t calls = 0; bool grown = false; size_t vanish = 0; bool waited_all_ignored = false; DWORD spent = 0; bool spurious = false;
	void bad(const std::string& s) { if (err.empty()) err = s; }
	int find(LPCSTR n) { for (size_t i = 0; i < rd.size(); ++i) if (rd[i].name == n) return i; return -1; }
	DWORD state(size_t i) { DWORD s = SCARD_STATE_EMPTY; for (auto& c : rd[i].tl) if (c.at <= now) s = c.state; return s; }
	size_t open() { size_t n = 0; for (auto& x : h) n += x.second.open; return n; }
	std::string strings() { std::string s; for (size_t i = 0; i < rd.size(); ++i) s += rd[i].name + std::string(1, 0); return s + std::string(1, 0); }
};
static Service* S;
#define USE(hc) do { ++S->calls; if (!S->ctx_open || (hc) != S->ctx) { S->bad(std::string(__func__) + " with a context that is not established"); return SCARD_E_INVALID_HANDLE; } } while (0)
#define CARD(hc) auto it = S->h.find(hc); ++S->calls; if (it == S->h.end() || !it->second.open || !S->ctx_open) { S->bad(std::string(__func__) + " with a card handle that is not connected"); return SCARD_E_INVALID_HANDLE; } Reader& r = S->rd[it->second.reader]; (void)r
extern "C" {
const char* pcsc_stringify_error(const LONG e) { static char s[40]; snprintf(s, sizeof s, "result %lX", (long)e); return s; }
LONG SCardEstablishContext(DWORD scope, LPCVOID, LPCVOID, LPSCARDCONTEXT c) { ++S->calls; if (scope != SCARD_SCOPE_SYSTEM) S->bad("scope"); if (S->ctx_open) S->bad("second context"); if (S->establish) return S->establish; S->ctx_open = true; ++S->ctxs; *c = S->ctx = 0x7700 + S->ctxs; return 0; }
LONG SCardReleaseContext(SCARDCONTEXT c) { USE(c); if (S->release) { return S->release; } S->ctx_open = false; return 0; }
LONG SCardIsValidContext(SCARDCONTEXT c) { return S->ctx_open && c == S->ctx ? 0 : SCARD_E_INVALID_HANDLE; }
LONG SCardListReaders(SCARDCONTEXT c, LPCSTR g, LPSTR b, LPDWORD n)
{
	USE(c); (void)g; unsigned k = b ? 1 : 0; ++S->lists; if (S->list[k]) return S->list[k]; std::string s = S->strings(); if (s.size() == 1) { return SCARD_E_NO_READERS_AVAILABLE; }
	if (!b) { *n = s.size(); return 0; } if (S->grown) { *n = s.size() + 20; return SCARD_E_INSUFFICIENT_BUFFER; } if (S->vanish) { S->rd.resize(S->rd.size() - S->vanish); S->vanish = 0; s = S->strings(); } if (*n < s.size()) { *n = s.size(); return SCARD_E_INSUFFICIENT_BUFFER; } memcpy(b, s.data(), s.size()); *n = s.size(); return 0;
}
LONG SCardConnect(SCARDCONTEXT c, LPCSTR name, DWORD share, DWORD pref, LPSCARDHANDLE h, LPDWORD proto)
{
	USE(c); int i = S->find(name); if (i < 0) { S->bad("SCardConnect to an unknown reader"); return SCARD_E_UNKNOWN_READER; } Reader& r = S->rd[i]; bool direct = share == SCARD_SHARE_DIRECT;
	for (auto& x : S->h) if (x.second.open && x.second.reader == (size_t)i) S->bad("SCardConnect while the reader is connected");
	if (direct) { ++r.directs; if (r.direct) return r.direct; *proto = 0; } else { if (share != SCARD_SHARE_EXCLUSIVE) S->bad("card not connected exclusively"); if (!(pref & SCARD_PROTOCOL_T0) || !(pref & SCARD_PROTOCOL_T1) || (pref & ~(SCARD_PROTOCOL_T0 | SCARD_PROTOCOL_T1))) S->bad("protocols other than T=0 and T=1 requested"); if (r.connect) return r.connect; *proto = r.proto; }
	*h = S->next++; S->h[*h] = {(size_t)i, direct, true, r.proto}; return 0;
}
LONG SCardReconnect(SCARDHANDLE, DWORD, DWORD, DWORD, LPDWORD) { return SCARD_E_UNSUPPORTED_FEATURE; }
LONG SCardDisconnect(SCARDHANDLE h, DWORD how)
{
	CARD(h); if (it->second.direct) { if (how != SCARD_LEAVE_CARD) S->bad("card disturbed while asking for features"); if (r.direct_disc) { it->second.open = false; return r.direct_disc; } } else { if (how != SCARD_UNPOWER_CARD) S->bad("card left powered"); if (r.disconnect) return r.disconnect; }
	it->second.open = false; return 0;
}
LONG SCardBeginTransaction(SCARDHANDLE) { return 0; } LONG SCardEndTransaction(SCARDHANDLE, DWORD) { return 0; }
LONG SCardStatus(SCARDHANDLE h, LPSTR, LPDWORD nl, LPDWORD state, LPDWORD proto, LPBYTE atr, LPDWORD n)
{
	CARD(h); (void)nl; if (r.status) return r.status; if (state) *state = SCARD_PRESENT | SCARD_POWERED; if (proto) *proto = r.proto; if (n) { if (atr && *n != SCARD_AUTOALLOCATE) { DWORD cap = *n; *n = r.atr.size(); if (cap < r.atr.size()) return SCARD_E_INSUFFICIENT_BUFFER; memcpy(atr, r.atr.data(), r.atr.size()); } else *n = r.atr.size(); } return 0;
}
LONG SCardGetStatusChange(SCARDCONTEXT c, DWORD ms, SCARD_READERSTATE* st, DWORD n)
{
	USE(c); if (S->wait) return S->wait; std::vector<int> id; bool all_ignored = true;
	for (DWORD k = 0; k < n; ++k) { id.push_back(S->find(st[k].szReader)); if (id.back() < 0) { S->bad("state of an unknown reader"); return SCARD_E_UNKNOWN_READER; } if (!(st[k].dwCurrentState & SCARD_STATE_IGNORE)) all_ignored = false; }
	if (!n) return 0; uint64_t end = ms == INFINITE ? UINT64_MAX : S->now + ms; uint64_t t = S->now; VH_DEFINED(st, 0, "reader-state");
	for (;;) {
		bool hit = false; for (DWORD k = 0; k < n; ++k) { DWORD cur = st[k].dwCurrentState & ~(DWORD)SCARD_STATE_CHANGED; if (cur & SCARD_STATE_IGNORE) { st[k].dwEventState = 0; continue; } DWORD s = S->state(id[k]); bool ch = cur == SCARD_STATE_UNAWARE || (cur & 0x7FF) != (s & 0x7FF); st[k].dwEventState = s | (ch ? SCARD_STATE_CHANGED : 0); if (s & SCARD_STATE_PRESENT) { st[k].cbAtr = S->rd[id[k]].atr.size() > MAX_ATR_SIZE ? 0 : S->rd[id[k]].atr.size(); memcpy(st[k].rgbAtr, S->rd[id[k]].atr.data(), st[k].cbAtr); } if (ch) hit = true; }
		if (hit) { S->spent += S->now - t; return 0; }
		uint64_t nx = UINT64_MAX; for (auto& r : S->rd) for (auto& x : r.tl) if (x.at > S->now) nx = std::min(nx, x.at);
		if (nx > end || nx == UINT64_MAX) { if (end == UINT64_MAX) { S->bad(all_ignored ? "waits for ever for no reader" : "waits for ever"); return SCARD_E_CANCELLED; } S->now = end; S->spent += end - t; return SCARD_E_TIMEOUT; }
		S->now = nx;
	}
}
LONG SCardControl(SCARDHANDLE h, DWORD code, LPCVOID, DWORD sn, LPVOID rx, DWORD cap, LPDWORD n)
{
	CARD(h); *n = 0; (void)sn; r.asked.insert(code); auto f = r.fail.find(code); if (f != r.fail.end()) { r.any_fail = true; return f->second; } const Bytes* d = NULL; if (code == F_REQ) d = &r.features; else if (code == r.code[0]) d = &r.pin; else if (code == r.code[1]) d = &r.disp; else if (code == r.code[2]) d = &r.tlv;
	if (!d) { S->bad(vh_fmt("control code %lX that the reader did not give", (unsigned long)code)); return SCARD_E_INVALID_PARAMETER; } if (d->size() > cap) { r.any_fail = true; return SCARD_E_INSUFFICIENT_BUFFER; } memcpy(rx, d->data(), d->size()); *n = d->size(); r.got.insert(code); if (code == F_REQ) r.got_features = true; return 0;
}
LONG SCardTransmit(SCARDHANDLE h, const SCARD_IO_REQUEST* pci, LPCBYTE tx, DWORD n, SCARD_IO_REQUEST*, LPBYTE rx, LPDWORD rn)
{
	CARD(h); if (it->second.direct) S->bad("transmission without a card"); if (!pci || pci->dwProtocol != r.proto) S->bad("transmission with another protocol than the card's"); VH_DEFINED(tx, n, "transmitted"); S->tx.push_back(Bytes(tx, tx + n)); if (r.trx) return r.trx; static const Bytes UID = {0xFF, 0xCA, 0, 0, 0}; if (r.card && S->tx.back() != UID) { if (!r.card(S->tx.back(), r.reply)) return SCARD_E_NOT_TRANSACTED; } const Bytes& d = S->tx.back() == UID ? r.uid_reply : r.reply; if (d.size() > *rn) { return SCARD_E_INSUFFICIENT_BUFFER; } memcpy(rx, d.data(), d.size()); *rn = d.size(); return 0;
}
LONG SCardListReaderGroups(SCARDCONTEXT, LPSTR, LPDWORD) { return SCARD_E_UNSUPPORTED_FEATURE; } LONG SCardFreeMemory(SCARDCONTEXT, LPCVOID) { return 0; } LONG SCardCancel(SCARDCONTEXT) { return 0; }
LONG SCardGetAttrib(SCARDHANDLE, DWORD, LPBYTE, LPDWORD) { return SCARD_E_UNSUPPORTED_FEATURE; } LONG SCardSetAttrib(SCARDHANDLE, DWORD, LPCBYTE, DWORD) { return SCARD_E_UNSUPPORTED_FEATURE; }
}
static LONG gen_err(Rng& r) { static const LONG E[] = {(LONG)SCARD_E_INVALID_HANDLE, (LONG)SCARD_E_NO_SERVICE, (LONG)SCARD_E_NO_MEMORY, (LONG)SCARD_E_SHARING_VIOLATION, (LONG)SCARD_W_REMOVED_CARD, (LONG)SCARD_E_READER_UNAVAILABLE, (LONG)SCARD_W_UNRESPONSIVE_CARD, (LONG)SCARD_F_COMM_ERROR, (LONG)SCARD_E_NOT_TRANSACTED, (LONG)SCARD_E_UNSUPPORTED_FEATURE, 1}; return r.pick(E); }
static Bytes gen_card_atr(Rng& r) { if (r.chance(50)) { unsigned k = r.below(16); Bytes a = {0x3B, (uint8_t)(0x80 | k), 0x80, 1}; Bytes h = r.bytes(k); a.insert(a.end(), h.begin(), h.end()); a.push_back(r.u8()); if (r.chance(25)) { switch (r.below(6)) { case 0: a.pop_back(); break; case 1: a.push_back(0); break; case 2: a[r.below(4)] ^= 1 << r.below(8); break; case 3: a.resize(4); break; case 4: a[1] |= 0x10 << r.below(3); break; case 5: a[0] = 0x3F; } } return a; } return r.bytes(r.range(1, 33)); }
static Reader gen_reader(Rng& r, size_t i, unsigned pf)
{
	Reader x; x.name = (r.chance(10) ? std::string(r.chance(95) ? r.range(1, 120) : r.range(250, 1000), 'N') : "Reader " + std::string(1, (char)('A' + r.below(26)))) + vh_fmt(" %02zu 00", i);
	std::vector<uint8_t> tags; unsigned n = r.chance(4) ? 44 : r.below(9); while (tags.size() < n) tags.push_back(r.chance(60) ? r.below(0x15) : r.u8()); for (uint8_t t : {0x0A, 0x11, 0x12}) if (r.chance(55)) { if (tags.size() < 44) tags.insert(tags.begin() + r.below(tags.size() + 1), t); } r.shuffle(tags);
	std::set<uint32_t> used = {0, F_REQ}; for (uint8_t t : tags) { uint32_t c; do c = r.chance(50) ? 0x42000000 + r.below(4000) : r.u32(); while (used.count(c)); used.insert(c); if (t != 0x0A && t != 0x11 && t != 0x12 && r.chance(5)) c = 0; int k = t == 0x0A ? 0 : t == 0x11 ? 1 : t == 0x12 ? 2 : -1; if (k >= 0 && !x.code[k]) x.code[k] = c; x.features.insert(x.features.end(), {t, 4, (uint8_t)(c >> 24), (uint8_t)(c >> 16), (uint8_t)(c >> 8), (uint8_t)c}); }
	if (r.chance(6) && !x.features.empty()) { if (r.chance(50)) { x.features.resize(x.features.size() - r.range(1, 5)); } else x.features[6 * r.below(x.features.size() / 6) + 1] = r.pick({0, 1, 3, 5, 6, 0xFF}); }
	x.pin = r.bytes(r.chance(88) ? sizeof(PIN_PROPERTIES_STRUCTURE) : r.below(sizeof(PIN_PROPERTIES_STRUCTURE) + 3)); x.disp = r.bytes(r.chance(88) ? 4 : r.below(7));
	for (unsigned q = r.below(8); q; --q) { Bytes v = r.bytes(r.chance(10) ? r.below(60) : r.below(5)); x.tlv.push_back(r.chance(70) ? r.range(1, 13) : r.u8()); x.tlv.push_back(v.size()); x.tlv.insert(x.tlv.end(), v.begin(), v.end()); } if (r.chance(15) && !x.tlv.empty()) x.tlv.resize(r.below(x.tlv.size())); if (r.chance(4)) { while (x.tlv.size() < 264) { x.tlv.push_back(0x40 + r.below(30)); x.tlv.push_back(r.below(30)); x.tlv.resize(x.tlv.size() + x.tlv.back(), 0x5A); } x.tlv.resize(264); }
	if (r.chance(5) && x.tlv.size() > 1) x.tlv[1] = r.u8();
	if (r.below(100) < pf) x.direct = gen_err(r); if (r.below(100) < pf) x.fail[F_REQ] = gen_err(r); for (uint32_t c : x.code) if (c && r.below(100) < pf) x.fail[c] = gen_err(r); if (r.below(100) < pf) x.direct_disc = gen_err(r);
	uint64_t t = 0; DWORD st = SCARD_STATE_EMPTY; static const DWORD ST[] = {SCARD_STATE_EMPTY, SCARD_STATE_PRESENT, SCARD_STATE_PRESENT, SCARD_STATE_PRESENT | SCARD_STATE_INUSE, SCARD_STATE_PRESENT | SCARD_STATE_MUTE, SCARD_STATE_PRESENT | SCARD_STATE_EXCLUSIVE | SCARD_STATE_INUSE, SCARD_STATE_UNAVAILABLE, SCARD_STATE_PRESENT | SCARD_STATE_UNPOWERED, SCARD_STATE_EMPTY | SCARD_STATE_UNPOWERED};
	for (unsigned q = r.below(5); q; --q) { st = r.pick(ST) | (DWORD)r.below(4) << 16; x.tl.push_back({t, st}); t += r.chance(30) ? r.range(1, 3) : r.below(5000); } if (r.chance(15)) x.tl.clear();
	x.atr = gen_card_atr(r); x.proto = r.chance(50) ? SCARD_PROTOCOL_T0 : SCARD_PROTOCOL_T1;
	x.uid_reply = r.chance(50) ? r.bytes(r.pick({4, 7, 10})) : r.bytes(r.below(12)); uint16_t sw = r.chance(60) ? 0x9000 : r.chance(70) ? 0x6A81 : r.pick({0x6A82, 0x9001, 0x6281, 0x9100, 0x6300}); if (sw != 0x9000) { if (r.chance(80)) x.uid_reply.clear(); } x.uid_reply.push_back(sw >> 8); x.uid_reply.push_back(sw & 0xFF); if (r.chance(4)) x.uid_reply.resize(r.below(2));
	if (r.below(100) < pf) x.connect = gen_err(r); if (r.below(100) < pf) x.status = gen_err(r); if (r.below(100) < pf / 2) x.disconnect = gen_err(r); x.reply = r.bytes(r.below(259));
	return x;
}
#define OK_USE(w) do { if (!S->err.empty()) vh_fail("service-use", "%s: %s", w, S->err.c_str()); vh_obs("check:service-use"); } while (0)
static void setup(Rng& r, Service& s, unsigned pf) { S = &s; unsigned n = r.below(1000) < 3 ? r.range(255, 300) : r.chance(5) ? 16 : r.chance(4) ? 0 : r.range(1, 5); if (n > 255) { pf = 0; vh_obs("many-readers"); } for (unsigned i = 0; i < n; ++i) s.rd.push_back(gen_reader(r, i, pf)); }
static void check_readers(Rng& r, pcsc_ctx_t c, Service& s)
{
	VH_CHECK(pcsc_get_reader_count(c) == s.rd.size(), "readers", "%zu readers, %zu present", pcsc_get_reader_count(c), s.rd.size()); VH_CHECK(!pcsc_get_reader(c, s.rd.size()) && !pcsc_get_reader(c, SIZE_MAX) && !pcsc_get_reader(c, s.rd.size() + r.below(100)), "readers", "reader beyond the last");
	for (size_t i = 0; i < s.rd.size(); ++i) {
		Reader& x = s.rd[i]; pcsc_reader_ctx_t h = pcsc_get_reader(c, i); VH_CHECK(h, "readers", "reader %zu missing", i); const char* nm = pcsc_reader_get_name(h); VH_CHECK(nm && x.name == nm, "names", "reader %zu is '%s', expected '%s'", i, nm ? nm : "NULL", x.name.c_str()); VH_CHECK(pcsc_reader_get_name(h) && x.directs == 1, "features-requested", "reader %zu asked %u times for its features", i, x.directs);
		bool list = x.got_features && x.features.size() % 6 == 0, valid = list; for (size_t k = 0; list && k < x.features.size(); k += 6) if (x.features[k + 1] != 4) valid = false;
		if (valid || !list) { std::set<unsigned> f; if (valid) for (size_t k = 0; k < x.features.size(); k += 6) f.insert(x.features[k]); for (unsigned t = 0; t < 256; ++t) VH_CHECK(pcsc_reader_has_feature(h, t) == (f.count(t) > 0), "features", "reader %zu feature %02X is %d; list %s", i, t, pcsc_reader_has_feature(h, t), vh_hex(x.features).c_str()); if (!f.empty()) vh_obs("features"); else vh_obs("no-features"); VH_CHECK(!pcsc_reader_has_feature(h, 256 + r.below(1000)), "features", "unknown feature"); } else vh_obs("malformed-features");
		bool had[3]; bool bad_len = x.got.count(x.code[0]) && x.code[0] && x.pin.size() != sizeof(PIN_PROPERTIES_STRUCTURE); bad_len |= x.code[1] && x.got.count(x.code[1]) && x.disp.size() != 4;
		for (int k = 0; k < 3; ++k) { had[k] = valid && x.code[k] && x.got.count(x.code[k]); if (valid && x.code[k] && !x.any_fail && !bad_len) VH_CHECK(had[k], "properties-requested", "reader %zu: properties %d not requested", i, k); }
		if (had[0] && x.pin.size() != sizeof(PIN_PROPERTIES_STRUCTURE)) had[0] = false; if (had[1] && x.disp.size() != 4) had[1] = false;
		for (unsigned t = 0; t < 256; ++t) {
			// expected value
			int w = 1; Bytes v; bool settled = false; bool over = false; if (had[2]) for (size_t k = 0; k + 2 <= x.tlv.size();) { size_t l = x.tlv[k + 1]; if (k + 2 + l > x.tlv.size()) { if (x.tlv[k] == t) over = settled = true; break; } if (x.tlv[k] == t) { w = 0; v.assign(x.tlv.begin() + k + 2, x.tlv.begin() + k + 2 + l); settled = true; break; } k += 2 + l; }
			if (!settled && had[0] && t == PCSC_PROPERTY_wLcdLayout) { w = 0; v.assign(x.pin.begin(), x.pin.begin() + 2); vh_obs("property-from-pin"); } if (!settled && had[1] && (t == PCSC_PROPERTY_wLcdMaxCharacters || t == PCSC_PROPERTY_wLcdMaxLines)) { w = 0; size_t o = t == PCSC_PROPERTY_wLcdMaxCharacters ? 0 : 2; v.assign(x.disp.begin() + o, x.disp.begin() + o + 2); vh_obs("property-from-display"); }
			size_t cap = w == 0 ? (r.chance(60) ? v.size() + r.below(3) : v.size() ? r.below(v.size()) : 0) : r.below(5); Exact o(cap); size_t n = cap; int g = pcsc_reader_get_property(h, t, o.p, &n); std::string what = vh_fmt("reader %zu property %02X capacity %zu: %d length %zu", i, t, cap, g, n);
			if (over) { VH_CHECK(g < 0 && n == 0, "property", "%s, expected an error; properties %s", what.c_str(), vh_hex(x.tlv).c_str()); vh_obs("property-malformed"); }
			else if (w) { VH_CHECK(g > 0 && n == 0, "property", "%s, expected none; properties %s", what.c_str(), vh_hex(x.tlv).c_str()); }
			else if (cap < v.size()) { VH_CHECK(g < 0 && n == 0, "property", "%s, expected an error", what.c_str()); vh_obs("property-too-long"); } else { VH_CHECK(g == 0 && n == v.size() && !memcmp(o.p, v.data(), v.size()), "property", "%s %s, expected %s", what.c_str(), vh_hex(o.p, std::min(n, cap)).c_str(), vh_hex(v).c_str()); vh_obs("property"); for (size_t k = n; k < cap; ++k) VH_CHECK(o.p[k] == 0xA5, "property", "%s writes beyond", what.c_str()); }
		}
		vh_distinct(vh_hash(x.features, vh_hash(x.tlv)));
	}
}
static void finish(pcsc_ctx_t* c, Service& s)
{
	bool fails = s.release != 0; pcsc_release(c); VH_CHECK(!*c, "release", "context pointer left"); OK_USE("release"); VH_CHECK(fails || !s.ctx_open, "release", "PC/SC context left open"); size_t stuck = 0; for (auto& x : s.h) if (x.second.open && !s.rd[x.second.reader].disconnect) ++stuck; VH_CHECK(!stuck, "release", "%zu connections left open", stuck); vh_alloc_expect_none("leak"); pcsc_release(c); OK_USE("second release");
}
static std::string story(const Service& s) { std::string o; for (auto& x : s.rd) o += x.name.substr(0, 12) + " features " + vh_hex(x.features).substr(0, 60) + "; "; return o; }
static void s_init(Rng& r, uint64_t)
{
	Service s; unsigned pf = r.pick({0, 0, 5, 30}); setup(r, s, pf); vh_alloc_reset(); pcsc_ctx_t c = (pcsc_ctx_t)0x55; bool fail = s.rd.empty(); int64_t at = -1;
	if (r.below(100) < pf / 3) s.establish = gen_err(r), fail = true; if (r.below(100) < pf / 3) s.list[0] = gen_err(r), fail = true; if (r.below(100) < pf / 3) s.list[1] = gen_err(r), fail = true; if (r.chance(3)) s.grown = true, fail = true;
	if (r.chance(15)) { at = r.below(5); vh_alloc_fail_at(at); } vh_note("%s alloc failure %d", story(s).c_str(), (int)at);
	int g = pcsc_init(&c); bool af = at >= 0 && vh_alloc_failed(); vh_alloc_fail_at(-1); OK_USE("init");
	if (fail || af) { VH_CHECK(g < 0, "init-failure", "pcsc_init returns %d", g); VH_CHECK(!s.ctx_open && !s.open(), "init-failure", "context open %d, %zu cards open after failure", s.ctx_open, s.open()); vh_alloc_expect_none("leak"); if (c && c != (pcsc_ctx_t)0x55) vh_fail("init-failure", "context pointer left"); vh_obs(af ? "alloc-failed" : s.establish ? "no-service" : s.rd.empty() ? "no-readers" : "list-failed"); return; }
	VH_CHECK(g == 0 && c, "init", "pcsc_init returns %d", g); VH_CHECK(s.open() == 0, "init", "%zu readers left connected", s.open()); check_readers(r, c, s); OK_USE("queries"); if (r.below(100) < pf) s.release = gen_err(r); finish(&c, s); vh_obs("initialised"); vh_sample(story(s));
}
// a reader vanishes between the request for the size of the list and the list
static void s_shrink(Rng& r, uint64_t)
{
	Service s; setup(r, s, 0); if (s.rd.size() < 2) return; vh_alloc_reset(); pcsc_ctx_t c = NULL; s.vanish = r.range(1, s.rd.size() - 1); int g = pcsc_init(&c); OK_USE("init");
	if (g == 0) { check_readers(r, c, s); finish(&c, s); vh_obs("fewer-readers"); } else { VH_CHECK(!s.ctx_open, "init-failure", "context left open"); vh_alloc_expect_none("leak"); }
}
static void s_wait(Rng& r, uint64_t)
{
	Service s; setup(r, s, 0); if (s.rd.empty()) return; vh_alloc_reset(); pcsc_ctx_t c = NULL; VH_CHECK(pcsc_init(&c) == 0, "init", "pcsc_init"); std::string seq;
	for (unsigned q = r.range(1, 8); q; --q) {
		s.now += r.below(3000); bool any = r.chance(50); size_t n = s.rd.size(), want = any ? PCSC_READER_ANY : r.chance(95) ? r.below(n) : n + r.below(3); bool outside = !any && want >= n;
		if (r.chance(20)) { // state of one reader
			size_t i = r.below(n); unsigned st = 0xDEAD; bool f = r.chance(10); if (f) s.wait = gen_err(r); int g = pcsc_reader_get_state(pcsc_get_reader(c, i), &st); if (f) { VH_CHECK(g < 0, "state", "%d although the service failed", g); vh_obs("state-failed"); } else { VH_CHECK(g == 0 && st == (unsigned)(s.state(i) | SCARD_STATE_CHANGED), "state", "reader %zu: %d state %X, expected %X", i, g, st, (unsigned)(s.state(i) | SCARD_STATE_CHANGED)); vh_obs("state"); } s.wait = 0; OK_USE("state"); continue;
		}
		// when does what happen: first change, first card
		auto asked = [&](size_t i) { return any || i == want; }; uint64_t first = UINT64_MAX, card = UINT64_MAX; std::set<uint64_t> ts = {s.now}; for (auto& x : s.rd) for (auto& y : x.tl) if (y.at > s.now) ts.insert(y.at); uint64_t keep = s.now;
		for (uint64_t t : ts) { s.now = t; for (size_t i = 0; i < n; ++i) if (asked(i)) { DWORD st = s.state(i); if ((st & 0x7FF) != SCARD_STATE_EMPTY && first == UINT64_MAX) first = t; if ((st & SCARD_STATE_PRESENT) && card == UINT64_MAX) card = t; } } s.now = keep;
		unsigned long ms = r.chance(20) ? 0 : r.chance(30) && card != UINT64_MAX && first == card ? PCSC_TIMEOUT_INFINITE : r.below(6000); uint64_t end = ms == PCSC_TIMEOUT_INFINITE ? UINT64_MAX : s.now + ms; bool f = r.chance(5); if (f) s.wait = gen_err(r); size_t idx = want; s.spent = 0; uint64_t began = s.now;
		int g = pcsc_wait_for_card(c, ms, &idx); s.wait = 0; OK_USE("wait"); std::string what = vh_fmt("wait(%s%zu, %lu ms) at %lu: %d reader %zu at %lu; first change %ld first card %ld", any ? "any " : "", any ? 0 : want, ms, (unsigned long)began, g, idx, (unsigned long)s.now, (long)first, (long)card); vh_note("%s", what.c_str());
		if (f) { VH_CHECK(g < 0 && idx == want, "wait-failure", "%s although the service failed", what.c_str()); vh_obs("wait-failed"); }
		else if (g == 0) { VH_CHECK(!outside && idx < n && asked(idx) && (s.state(idx) & SCARD_STATE_PRESENT), "wait-card", "%s: no such card", what.c_str()); VH_CHECK(card <= end && s.now == card, "wait-card", "%s", what.c_str()); for (size_t i = 0; i < idx; ++i) VH_CHECK(!asked(i) || !(s.state(i) & SCARD_STATE_PRESENT), "wait-first", "%s: reader %zu has a card", what.c_str(), i); vh_obs(any ? "card-any" : "card-specific"); if (s.now > began) vh_obs("card-after-wait"); bool other = false; for (size_t i = 0; i < n; ++i) if (!asked(i) && (s.state(i) & SCARD_STATE_PRESENT)) other = true; if (other) vh_obs("card-elsewhere-ignored"); }
		else { VH_CHECK(g > 0 && idx == want, "wait-timeout", "%s: the request must be left as it was", what.c_str()); bool early = first <= end && first < card; VH_CHECK(early || card > end, "wait-missed", "%s: the card was not reported", what.c_str()); VH_CHECK(early || s.now == end, "wait-timeout", "%s: gave up at another time", what.c_str()); vh_obs(early ? "other-change" : outside ? "timeout-outside" : "timeout"); }
		seq += vh_fmt("%d", g);
	}
	vh_distinct(vh_hash(seq + story(s))); finish(&c, s);
}
static void s_card(Rng& r, uint64_t)
{
	Service s; unsigned pf = r.pick({0, 0, 4, 20}); setup(r, s, pf); if (s.rd.empty()) return; vh_alloc_reset(); pcsc_ctx_t c = NULL; VH_CHECK(pcsc_init(&c) == 0, "init", "pcsc_init"); std::string seq; std::vector<int> con(s.rd.size(), 0);  // 0 not, 1 contact, 2 contactless
	for (unsigned q = r.range(3, 25); q; --q) {
		size_t i = r.chance(80) ? 0 : r.below(s.rd.size()); Reader& x = s.rd[i]; pcsc_reader_ctx_t h = pcsc_get_reader(c, i); unsigned op = r.below(10); s.tx.clear(); std::string what;
		if (op < 3) { // connect
			if (con[i]) { op = 3; } else {
				if (r.chance(30)) { x.atr = gen_card_atr(r); Reader y = gen_reader(r, i, pf); x.uid_reply = y.uid_reply; x.proto = r.chance(97) ? y.proto : r.pick({0, 4}); x.connect = y.connect; x.status = y.status; } x.trx = r.below(100) < pf ? gen_err(r) : 0;
				int g = pcsc_reader_connect(h); const Bytes& a = x.atr; bool maybe = a.size() > 4 && a[0] == 0x3B && (a[1] & 0x80) && a[2] == 0x80 && a[3] == 1 && a.size() == 5u + (a[1] & 15); int w; bool uncertain = maybe && (a[1] & 0x70);
				bool t01 = x.proto == SCARD_PROTOCOL_T0 || x.proto == SCARD_PROTOCOL_T1; if (x.connect || x.status) w = -1; else if (!maybe) w = 1; else if (!t01 || x.trx || x.uid_reply.size() < 2 || x.uid_reply.size() > 12) w = -1; else { uint16_t sw = x.uid_reply[x.uid_reply.size() - 2] << 8 | x.uid_reply.back(); w = sw == 0x9000 ? 2 : sw == 0x6A81 ? 1 : -1; }
				what = vh_fmt("connect with ATR %s UID answer %s: %d", vh_hex(a).c_str(), vh_hex(x.uid_reply).c_str(), g); vh_note("%s", what.c_str()); OK_USE("connect");
				if (!uncertain) { VH_CHECK(w < 0 ? g < 0 : g == w, "connect", "%s, expected %d", what.c_str(), w); if (!x.connect && !x.status && t01) { bool asked = !s.tx.empty(); VH_CHECK(asked == maybe && s.tx.size() <= 1, "uid-request", "%s: %zu transmissions", what.c_str(), s.tx.size()); } }
				bool op2 = false; for (auto& y : s.h) if (y.second.open && y.second.reader == i) op2 = true; if (g < 0) { VH_CHECK(!op2 || x.disconnect, "connect-failure", "%s: the card is left connected", what.c_str()); if (op2) { break; } con[i] = 0; vh_obs("connect-failed"); } else { VH_CHECK(op2, "connect", "%s: card not connected", what.c_str()); con[i] = g; vh_obs(g == 2 ? "contactless" : maybe ? "contact-by-uid" : "contact"); }
				seq += vh_fmt("c%d", g); continue;
			}
		}
		if (op < 5) { // ATR
			Exact o(PCSC_MAX_ATR_SIZE); size_t n = PCSC_MAX_ATR_SIZE; int g = pcsc_reader_get_atr(h, o.p, &n); what = vh_fmt("ATR %s: %d", vh_hex(x.atr).c_str(), g); if (con[i] == 1) { VH_CHECK(g == 0 && n == x.atr.size() && !memcmp(o.p, x.atr.data(), n), "atr", "%s %s", what.c_str(), vh_hex(o.p, std::min<size_t>(n, 33)).c_str()); vh_obs("atr"); } else { VH_CHECK(g > 0, "atr", "%s of %s card", what.c_str(), con[i] ? "a contactless" : "no"); for (size_t k = 0; k < o.n; ++k) VH_CHECK(o.p[k] == 0xA5, "atr", "%s writes", what.c_str()); vh_obs(con[i] ? "atr-contactless" : "atr-none"); } seq += vh_fmt("a%d", g);
		} else if (op < 8) { // transmit
			Bytes t = r.bytes(r.chance(98) ? r.range(1, 262) : r.range(263, 66000)); if (t.size() == 5 && t[0] == 0xFF && t[1] == 0xCA) t[0] = 0; bool ext = r.chance(3); x.reply = r.bytes(r.chance(5) ? 0 : ext && r.chance(60) ? r.range(259, 65538) : r.range(1, 258)); x.trx = r.below(100) < pf ? gen_err(r) : 0; size_t cap = ext ? 65536 + r.below(200) : r.chance(85) ? 258 + r.below(20) : r.range(1, 258); if (ext) vh_obs("extended-answer"); Exact in(t), o(cap); size_t n = cap; int g = pcsc_reader_trx(h, in.p, in.n, o.p, &n); OK_USE("transmit");
			bool t01 = x.proto == SCARD_PROTOCOL_T0 || x.proto == SCARD_PROTOCOL_T1; what = vh_fmt("transmit %zu bytes, answer %zu bytes, capacity %zu: %d", t.size(), x.reply.size(), cap, g); bool sent = con[i] && t01; VH_CHECK(s.tx.size() == (sent ? 1u : 0u) && (!sent || s.tx[0] == t), "transmit", "%s: card received %s", what.c_str(), s.tx.empty() ? "nothing" : vh_hex(s.tx[0]).c_str());
			if (sent && !x.trx && x.reply.size() <= cap) { VH_CHECK(g == 0 && n == x.reply.size() && !memcmp(o.p, x.reply.data(), n), "transmit", "%s: %s", what.c_str(), vh_hex(o.p, std::min(n, cap)).c_str()); for (size_t k = n; k < cap; ++k) VH_CHECK(o.p[k] == 0xA5, "transmit", "%s writes beyond", what.c_str()); vh_obs("transmitted"); } else { VH_CHECK(g < 0, "transmit", "%s, expected an error", what.c_str()); vh_obs(con[i] ? "transmit-failed" : "transmit-without-card"); } seq += vh_fmt("t%d", g);
		} else if (con[i]) { x.disconnect = r.below(100) < pf / 2 ? gen_err(r) : 0; int g = pcsc_reader_disconnect(h); OK_USE("disconnect"); VH_CHECK((g == 0) == !x.disconnect && g <= 0, "disconnect", "%d", g); if (!g) { con[i] = 0; for (auto& y : s.h) VH_CHECK(!y.second.open || y.second.reader != i, "disconnect", "card left connected"); vh_obs("disconnected"); } else vh_obs("disconnect-failed"); seq += vh_fmt("d%d", g); }
	}
	for (size_t i = 0; i < con.size(); ++i) if (con[i]) { s.rd[i].disconnect = 0; VH_CHECK(pcsc_reader_disconnect(pcsc_get_reader(c, i)) == 0, "disconnect", "failed"); }
	vh_distinct(vh_hash(seq)); vh_sample(seq); finish(&c, s);
}
static void s_args(Rng& r, uint64_t)
{
	Service s; S = &s; s.rd.push_back(gen_reader(r, 0, 0)); vh_alloc_reset(); pcsc_ctx_t c = NULL, nul = NULL; unsigned st; size_t n = 0; uint8_t b[40];
	VH_CHECK(pcsc_init(NULL) < 0, "null-args", "init"); pcsc_release(NULL); pcsc_release(&nul); VH_CHECK(pcsc_get_reader_count(NULL) == 0 && !pcsc_get_reader(NULL, 0) && !pcsc_reader_get_name(NULL) && !pcsc_reader_has_feature(NULL, 6), "null-args", "queries"); VH_CHECK(pcsc_init(&c) == 0, "init", "init"); pcsc_reader_ctx_t h = pcsc_get_reader(c, 0);
	VH_CHECK(pcsc_reader_get_property(NULL, 1, b, &n) < 0 && pcsc_reader_get_property(h, 1, NULL, &n) < 0 && pcsc_reader_get_property(h, 1, b, NULL) < 0 && pcsc_reader_get_state(NULL, &st) < 0 && pcsc_reader_get_state(h, NULL) < 0 && pcsc_wait_for_card(NULL, 0, &n) < 0 && pcsc_wait_for_card(c, 0, NULL) < 0 && pcsc_reader_connect(NULL) < 0 && pcsc_reader_disconnect(NULL) < 0, "null-args", "calls"); n = 33;
	VH_CHECK(pcsc_reader_get_atr(NULL, b, &n) < 0 && pcsc_reader_get_atr(h, NULL, &n) < 0 && pcsc_reader_get_atr(h, b, NULL) < 0 && pcsc_reader_trx(NULL, b, 1, b, &n) < 0 && pcsc_reader_trx(h, NULL, 1, b, &n) < 0 && pcsc_reader_trx(h, b, 0, b, &n) < 0 && pcsc_reader_trx(h, b, 1, NULL, &n) < 0 && pcsc_reader_trx(h, b, 1, b, NULL) < 0, "null-args", "card calls"); OK_USE("arguments"); vh_obs("null-args"); finish(&c, s);
}
std::vector<Suite> vh_suites() { return {{"args", 1, 0, s_args}, {"init", 0, 1, s_init}, {"fewer", 0, 0.05, s_shrink}, {"wait", 0, 1, s_wait}, {"card", 0, 1, s_card}}; }
std::vector<std::string> vh_required() { return {"null-args", "extended-answer", "many-readers", "initialised", "alloc-failed", "no-service", "no-readers", "list-failed", "features", "no-features", "malformed-features", "property", "property-from-pin", "property-from-display", "property-malformed", "property-too-long", "state", "state-failed", "wait-failed", "card-any", "card-specific", "card-after-wait", "card-elsewhere-ignored", "timeout", "timeout-outside", "other-change", "contact", "contactless", "contact-by-uid", "connect-failed", "atr", "atr-contactless", "atr-none", "transmitted", "transmit-failed", "transmit-without-card", "disconnected", "disconnect-failed"}; }
const char* vh_rule() { return "scripted PC/SC services (reader lists, feature lists, properties, card insertion times, cards, failures of any call and allocation) driving the PC/SC layer; distinct = distinct reader descriptions and call result sequences"; }
