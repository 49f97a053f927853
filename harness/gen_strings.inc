// C17: every text function, every buffer size.
#include "emv_tlv.h"
#include "emv_tags.h"
static bool shortened(const std::string& t, const std::string& f)
{
	if (f.compare(0, t.size(), t) == 0) return true;
	if (f.find('\n') == std::string::npos) return false;
	// whole lines that do not fit may be left out and the last line may be cut; what is present keeps its order
	size_t p = 0, q = 0;
	while (p < t.size()) {
		size_t e = t.find('\n', p); bool whole = e != std::string::npos; std::string l = t.substr(p, whole ? e - p + 1 : e); bool found = false;
		while (q < f.size()) { size_t z = f.find('\n', q); std::string m = f.substr(q, z == std::string::npos ? z : z - q + 1); q += m.size(); bool last = p + l.size() == t.size(); std::string c = whole ? l.substr(0, l.size() - 1) : l; if (last ? m.compare(0, c.size(), c) == 0 : m == l) { found = true; break; } }
		if (!found) return false;
		p += l.size();
	}
	return true;
}
typedef std::function<int(char*, size_t)> TextFn;
static void discipline(Rng& r, const char* name, const std::string& what, const TextFn& f, size_t tries)
{
	init();
	static const size_t BIG = 40000; static char *a = (char*)malloc(BIG), *b = (char*)malloc(BIG);
	memset(a, 0x7E, BIG); memset(b, 0, BIG);
	int g = f(a, BIG), g2 = f(b, BIG);
	VH_CHECK(g == g2, "repeatable", "%s %s: result %d then %d", name, what.c_str(), g, g2);
	std::string full;
	if (g == 0) {
		size_t n = strnlen(a, BIG); VH_CHECK(n < BIG, "terminated", "%s %s: success without terminated text", name, what.c_str());
		VH_DEFINED(a, n + 1, "text");
		VH_CHECK(!strcmp(a, b), "no-stale-text", "%s %s: text contains what was in the buffer before: '%s'", name, what.c_str(), esc(std::string(a, n)).substr(0, 300).c_str());
		full.assign(a, n); vh_obs(std::string(n ? "text:" : "empty:") + name); if (n) vh_distinct(vh_hash(what, vh_hash(std::string(name))));
	} else vh_obs(std::string("error:") + name);
	std::vector<size_t> sizes = {0, 1, 2, 3, full.size(), full.size() + 1, full.size() + 2, 255, 256, 257, full.size() + 256, full.size() + 257};
	for (size_t i = 0; i < full.size() && sizes.size() < 40; ++i) if (full[i] == '\n') { sizes.push_back(i); sizes.push_back(i + 1); sizes.push_back(i + 2); }
	std::vector<size_t> use; for (size_t k = 0; k < tries; ++k) use.push_back(r.chance(60) ? sizes[r.below(sizes.size())] : r.below(full.size() + 40)); if (r.chance(5)) use[0] = 65536 + (r.chance(50) ? r.below(3) : r.below(full.size() + 3)); if (full.size() > 255) vh_obs("text>255"); if (use[0] >= 65536) vh_obs("buffer>64k");
	for (size_t m : use) {
		Exact s(m, r.chance(50) ? 0x7E : 0x0A); int q = f(m ? (char*)s.p : NULL, m);
		if (!m) { vh_obs("no-buffer"); continue; }
		if (g != 0) { VH_CHECK(q != 0, "error-kept", "%s %s: an error with a large buffer but success with %zu bytes", name, what.c_str(), m); vh_obs("small-error"); continue; }
		if (q != 0) { vh_obs("small-refused"); VH_CHECK(m <= std::max<size_t>(full.size(), 0) || !strncmp(name, "tlv", 3) || !strncmp(name, "format-", 7) || !strncmp(name, "track2", 6), "fits", "%s %s: text of %zu characters refused with %zu bytes (%d)", name, what.c_str(), full.size(), m, q); continue; }
		size_t n = strnlen((char*)s.p, m); VH_CHECK(n < m, "terminated", "%s %s with %zu bytes: success without terminated text", name, what.c_str(), m);
		VH_DEFINED(s.p, n + 1, "text");
		std::string t((char*)s.p, n); VH_CHECK(shortened(t, full), "shortened", "%s %s with %zu bytes: '%s' is not a shortened form of '%s'", name, what.c_str(), m, esc(t).substr(0, 300).c_str(), esc(full).substr(0, 500).c_str());
		if (m > full.size()) VH_CHECK(t == full, "complete", "%s %s: text of %zu characters incomplete in %zu bytes", name, what.c_str(), full.size(), m);
		vh_obs(t.size() < full.size() ? "small-cut" : "small-complete");
	}
}
static Bytes cat(std::initializer_list<Bytes> l) { Bytes r; for (auto& b : l) r.insert(r.end(), b.begin(), b.end()); return r; }
static Bytes gen_capdu(Rng& r)
{
	static const uint8_t I[] = {0xA4, 0xB2, 0xDA, 0xDB, 0xCA, 0xCB, 0xB0, 0x84, 0x88, 0x82, 0x20, 0x24, 0x1E, 0x18, 0x16, 0xAE, 0xA8, 0xC0, 0x70, 0xE2, 0xD6};
	Bytes b = {(uint8_t)(r.chance(60) ? 0 : r.chance(60) ? 0x80 : r.u8()), r.chance(85) ? r.pick(I) : r.u8(), r.b8(), r.b8()};
	if (b[1] == 0xA4 && r.chance(70)) { static const uint8_t P[] = {0, 1, 2, 3, 4, 8, 9, 0x0C}; b[2] = r.pick(P); b[3] = r.below(4); }
	unsigned k = r.below(5); size_t n = r.chance(15) ? r.range(200, 255) : r.range(1, 20); if (k == 0) return b; if (k == 1) { b.push_back(r.u8()); return b; }
	Bytes d = r.chance(50) ? r.bytes(n) : Bytes(n); if (r.chance(50)) for (auto& c : d) c = r.range(0x20, 0x7E); b.push_back(n); b = cat({b, d}); if (k == 2) b.push_back(r.u8()); if (k == 3 && r.chance(20)) b.resize(r.range(4, b.size()));
	return b;
}
static Bytes gen_value(Rng& r, const StrFn& f)
{
	std::string n = f.name; Bytes b;
	if (r.chance(12)) return r.bbytes(r.chance(80) ? r.below(34) : r.range(34, 300));
	if (n == "iad") return gen_iad(r);
	if (n == "iso-capdu" || n == "emv-capdu") return gen_capdu(r);
	if (n == "aid") { b = unhex(std::string(aids[r.below(NA)].rid) + aids[r.below(NA)].pix); if (b.size() < 5) b.resize(5); b.resize(std::min<size_t>(b.size(), 16)); return b; }
	if (n == "cvm-list") { b = r.bbytes(8); size_t k = r.range(1, 8); if (r.chance(2)) k = r.range(20, 130); while (k--) { b.push_back(r.u8()); b.push_back(r.below(11)); } return b; }
	if (n == "afl") { size_t k = r.range(1, 6); if (r.chance(2)) k = r.range(20, 130); while (k--) { uint8_t q = r.range(1, 255); b.push_back(r.range(1, 30) << 3); b.push_back(q); b.push_back(r.range(q, 255)); b.push_back(r.below(2)); } return b; }
	if (n == "asrpd") { size_t k = r.range(1, 5); if (r.chance(2)) k = r.range(20, 130); while (k--) { size_t z = r.below(5); b = cat({b, {0, (uint8_t)r.below(4), (uint8_t)z}, r.bytes(z)}); } return b; }
	if (n == "mc-tpd") { b = {0x08, 0x40, (uint8_t)(r.chance(50) ? 0x80 : 0), (uint8_t)(r.chance(80) ? 3 : 0)}; if (b[2] == 0) b = cat({b, {(uint8_t)('0' + r.below(4)), (uint8_t)('0' + r.below(10))}}); bool fl = r.chance(50); if (b[3]) b = cat({b, {0, (uint8_t)(fl ? 1 : 2)}, r.bytes(fl ? 6 : 3)}); else b.push_back(0); return b; }
	if (n == "language-pref") { size_t k = r.chance(98) ? r.range(1, 4) : r.range(100, 300); while (k--) { auto it = refdata().lang2.begin(); std::advance(it, r.below(refdata().lang2.size())); b = cat({b, Bytes(it->first.begin(), it->first.end())}); } return b; }
	if (n == "app-ref-currency") { size_t k = r.chance(98) ? r.range(1, 4) : r.range(100, 300); while (k--) { auto it = refdata().curn.begin(); std::advance(it, r.below(refdata().curn.size())); unsigned c = it->first; b.push_back(c / 100); b.push_back(c / 10 % 10 << 4 | c % 10); } return b; }
	if (n == "arc") { auto it = refdata().arc.begin(); std::advance(it, r.below(refdata().arc.size())); return Bytes(it->first.begin(), it->first.end()); }
	if (n == "mcc") { auto it = refdata().mcc.begin(); std::advance(it, r.below(refdata().mcc.size())); unsigned c = it->first; return {(uint8_t)(c / 1000 << 4 | c / 100 % 10), (uint8_t)(c / 10 % 10 << 4 | c % 10)}; }
	if (n == "issuer-auth-data") { b = r.bytes(r.chance(50) ? 10 : r.range(8, 16)); if (r.chance(70)) { b[4] &= 0x8F; b[6] = 0; } if (b.size() == 10 && r.chance(40)) { b[8] = 'Z'; b[9] = '3'; } return b; }
	size_t len = r.chance(98) ? r.range(f.lo, f.hi) : r.chance(50) ? r.range(f.lo, f.hi) + 256 : r.range(1, 600); b = sparse(r, len);
	if (n == "format-a") for (auto& c : b) c = 'A' + r.below(26); else if (n == "format-an") for (auto& c : b) c = "0aZ9"[r.below(4)]; else if (n == "format-ans-space") for (auto& c : b) c = "0a Z"[r.below(4)]; else if (n == "format-ans-ccs") for (auto& c : b) c = r.range(0x20, 0x7E);
	else if (n == "format-cn" || n == "format-n" || n == "date" || n == "time" || n == "track2") for (auto& c : b) c = r.below(10) << 4 | r.below(10);
	if (n == "visa-ffi" && r.chance(80)) b[0] = 0x20 | (b[0] & 0x1F);
	if (n == "txn-type") { static const uint8_t T[] = {0, 1, 9, 0x20, 0x30}; b[0] = r.pick(T); } if (n == "account-type") b[0] = r.below(4) << 4; if (n == "pos-entry-mode") { static const uint8_t T[] = {0, 1, 2, 3, 4, 5, 7, 0x10, 0x80, 0x90, 0x91, 0x95, 0x99}; b[0] = r.pick(T); }
	return b;
}
static const size_t NFN = sizeof STRFNS / sizeof *STRFNS;
static void s_buf(Rng& r, uint64_t)
{
	const StrFn& f = STRFNS[r.below(NFN)]; Bytes v = gen_value(r, f); Exact in(v); if (in.n != 1 && f.lo == 1 && f.hi == 1) { Bytes one = {r.b8()}; discipline(r, f.name, vh_hex(one), [&](char* s, size_t l) { return f.fn(one.data(), 1, s, l); }, 6); return; }
	if (!strcmp(f.name, "sw1sw2") && in.n != 2) return;
	vh_note("%s %s", f.name, vh_hex(v).c_str());
	discipline(r, f.name, vh_hex(v), [&](char* s, size_t l) { return f.fn(in.p, in.n, s, l); }, 6);
}
// every size for one value of each function
static void s_buf_sizes(Rng& r, uint64_t idx)
{
	const StrFn& f = STRFNS[idx % NFN]; init();
	for (int k = 0; k < 6; ++k) {
		Bytes v = gen_value(r, f); if (!strcmp(f.name, "sw1sw2")) v = {0x63, 0xC2}; if (f.hi == 1) v.resize(1, r.u8()); Exact in(v); static char big[40000]; memset(big, 0x7E, sizeof big);
		int g = f.fn(in.p, in.n, big, sizeof big); if (g) { --k; if (r.chance(2)) return; continue; } std::string full = big;
		for (size_t m = 1; m <= full.size() + 3; ++m) {
			Exact s(m, 0x7E); int q = f.fn(in.p, in.n, (char*)s.p, m); if (q) { vh_obs("small-refused"); continue; }
			size_t n = strnlen((char*)s.p, m); VH_CHECK(n < m, "terminated", "%s %s with %zu bytes: success without terminated text", f.name, vh_hex(v).c_str(), m);
			VH_CHECK(shortened((char*)s.p, full), "shortened", "%s %s with %zu bytes: '%s' is not a shortened form of '%s'", f.name, vh_hex(v).c_str(), m, esc((char*)s.p).substr(0, 300).c_str(), esc(full).substr(0, 500).c_str());
			vh_obs("every-size");
		}
	}
}
static const unsigned TAGS[] = {
#include "tags.inc"
};
static void s_buf_tlv(Rng& r, uint64_t)
{
	struct emv_tlv_t t; memset(&t, 0, sizeof t); t.tag = r.pick(TAGS); if (r.chance(5)) t.tag = r.u32() & 0xFFFF;
	static const uint8_t L[] = {1, 1, 2, 2, 2, 3, 3, 4, 4, 5, 6, 7, 8, 10, 12, 16, 17, 20, 32}; size_t n = r.chance(80) ? r.pick(L) : r.chance(90) ? r.below(120) : r.below(700); Bytes v = r.below(3) == 0 ? r.bytes(n) : sparse(r, n); unsigned st = r.below(4);
	if (st == 0) for (auto& c : v) c = r.below(10) << 4 | r.below(10); if (st == 1) for (auto& c : v) c = r.range(0x20, 0x7E); if (st == 2 && n) v[r.below(n)] = r.u8();
	Exact in(v); t.length = n; t.value = in.p; vh_note("%X %s", t.tag, vh_hex(v).c_str());
	std::string nm = vh_fmt("tlv-%X", t.tag);
	discipline(r, "tlv", vh_fmt("%X %s", t.tag, vh_hex(v).c_str()), [&](char* s, size_t l) { struct emv_tlv_info_t i; if (l) s[0] = 0; int g = emv_tlv_get_info((struct emv_tlv_t*)&t, &i, s, l); return g; }, 6);
	// no value at all (as for DOL entries) and no buffer
	struct emv_tlv_t e = t; e.value = NULL; struct emv_tlv_info_t i; char s[64]; s[0] = 0x7E; emv_tlv_get_info(&e, &i, s, sizeof s); emv_tlv_get_info(&t, &i, NULL, 0); e.length = 0; emv_tlv_get_info(&e, &i, s, sizeof s); vh_obs("tlv-no-value");
}
static void s_buf_chars(Rng& r, uint64_t)
{
	Bytes v = r.bbytes(r.chance(97) ? r.range(1, 40) : r.range(1, 700)); Exact in(v); std::string h = vh_hex(v);
	discipline(r, "non-control", h, [&](char* s, size_t l) { return emv_format_ans_to_non_control_str(in.p, in.n, s, l); }, 4);
	discipline(r, "alnum-space", h, [&](char* s, size_t l) { return emv_format_ans_to_alnum_space_str(in.p, in.n, s, l); }, 4);
	discipline(r, "hex", h, [&](char* s, size_t l) { return emv_format_b_to_str(in.p, in.n, s, l); }, 4);
}
// absent value or buffer: refused or empty, never accessed
static void s_buf_null(Rng& r, uint64_t idx)
{
	init(); const StrFn& f = STRFNS[idx % NFN]; vh_note("%s", f.name); Bytes v = sparse(r, std::max(1, f.lo)); Exact in(v); char* o = (char*)malloc(64);
	bool plain = strncmp(f.name, "iso-", 4) != 0;
	for (size_t n : {(size_t)0, (size_t)1, v.size(), (size_t)8}) for (size_t l : {(size_t)0, (size_t)1, (size_t)64}) { memset(o, 0x7E, 64); int g = f.fn(NULL, n, o, l); if (g == 0) VH_CHECK(l && memchr(o, 0, l), "terminated", "%s without value: text not terminated", f.name); f.fn(in.p, v.size(), NULL, 0); f.fn(in.p, 0, o, l); f.fn(NULL, n, NULL, 0); (void)plain; }
	free(o); vh_obs("no-arguments");
}
static void buf_suites(std::vector<Suite>& s) { s.push_back({"buf-sizes", NFN * 4, 0, s_buf_sizes}); s.push_back({"buf-null", NFN, 0, s_buf_null}); s.push_back({"buf-fn", 0, 1, s_buf}); s.push_back({"buf-tlv", 0, 1, s_buf_tlv}); s.push_back({"buf-chars", 0, 0.2, s_buf_chars}); }
static std::vector<std::string> buf_required()
{
	std::vector<std::string> v = {"small-refused", "small-cut", "small-complete", "no-buffer", "every-size", "no-arguments", "text:tlv", "text:hex", "text:non-control", "text:alnum-space", "text>255", "buffer>64k", "tlv-no-value"};
	for (auto& f : STRFNS) v.push_back(std::string("text:") + f.name);
	return v;
}
static const char* buf_rule() { return "one case = one text function on one exact-size value, run with two differently filled large buffers and with several exact-size smaller buffers (every size for the buf-sizes suite), under address/undefined sanitizers and memcheck; non-trivial = values that give a non-empty text"; }
