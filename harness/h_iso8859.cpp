// C16: ISO 8859 to UTF-8. Built once per implementation (boost, iconv, simple).
#include "vh.hpp"
#include "iso8859.h"
#include "ref_iso8859.inc"

static std::string u8(unsigned c)
{
	std::string s;
	if (c < 0x80) s += (char)c; else if (c < 0x800) { s += (char)(0xC0 | c >> 6); s += (char)(0x80 | (c & 63)); }
	else { s += (char)(0xE0 | c >> 12); s += (char)(0x80 | (c >> 6 & 63)); s += (char)(0x80 | (c & 63)); }
	return s;
}
static bool supported(unsigned cp)
{
#ifdef SIMPLE
	return cp == 1;
#else
	return cp >= 1 && cp <= 15 && cp != 12;
#endif
}
static void judge(unsigned cp, const Bytes& in, size_t m)
{
	vh_note("cp=%u in=%s m=%zu ", cp, vh_hex(in).c_str(), m);
	VH_CHECK(iso8859_is_supported(cp) == supported(cp), "supported", "code page %u", cp);
	Exact e(in), o(m, 0x7E);
	int g = iso8859_to_utf8(cp, e.p, e.n, (char*)o.p, m);
	if (in.empty() || !m) { VH_CHECK(g < 0, "args", "empty buffer: result %d", g); vh_obs("empty"); return; }
	if (!supported(cp)) { VH_CHECK(g > 0, "unsupported", "code page %u: result %d", cp, g); VH_CHECK(o.p[0] == 0, "unsupported-text", "code page %u: text left", cp); vh_obs("unsupported"); return; }
	std::vector<std::string> cs; bool plain = true, nul = false;
	for (uint8_t b : in) {
		unsigned c = ISO8859[cp][b];
		if (c == 0xFFFF || c < 0x20 || (c >= 0x7F && c < 0xA0)) plain = false;
		if (b == 0) nul = true;
		if (nul || c == 0xFFFF) continue;
		cs.push_back(u8(c));
	}
	std::string full, want; for (auto& c : cs) full += c;
	for (auto& c : cs) { if (want.size() + c.size() > m - 1) break; want += c; }
	if (plain) VH_CHECK(g == 0, "accepted", "code page %u: %s: result %d", cp, vh_hex(in).c_str(), g);
	if (g) { vh_obs("rejected-control-or-undefined"); return; }
	size_t n = strnlen((char*)o.p, m); VH_CHECK(n < m, "terminated", "code page %u: %s in %zu bytes not terminated", cp, vh_hex(in).c_str(), m);
	std::string got((char*)o.p, n);
	if (got != want) vh_fail("text", "code page %u: %s in %zu bytes gives %s, expected %s", cp, vh_hex(in).c_str(), m, vh_hex(got.data(), got.size()).c_str(), vh_hex(want.data(), want.size()).c_str());
	VH_DEFINED(o.p, n + 1, "utf8");
	vh_obs("check:text"); vh_obs(want.size() < full.size() ? "truncated" : "complete"); if (full.size() - want.size() && want.size() < m - 1) vh_obs("truncated-before-multibyte");
	vh_distinct(vh_hash(in, cp)); vh_sample(vh_fmt("code page %u: %s in %zu bytes -> %s", cp, vh_hex(in).c_str(), m, vh_hex(got.data(), got.size()).c_str()));
}
static unsigned pickcp(Rng& r) {
#ifdef SIMPLE
	return r.chance(90) ? 1 : r.below(20);
#else
	return r.chance(95) ? r.range(1, 15) : r.chance(50) ? r.below(300) : r.u32();
#endif
}
// every single character of every code page, in every buffer size
static void s_chars(Rng&, uint64_t i) { unsigned cp = i / 256, b = i % 256; for (size_t m = 1; m <= 5; ++m) judge(cp, Bytes{(uint8_t)b}, m); for (size_t m = 1; m <= 8; ++m) judge(cp, Bytes{'a', (uint8_t)b, 'z'}, m); }
static void s_random(Rng& r, uint64_t)
{
	unsigned cp = pickcp(r); size_t n = r.chance(2) ? 0 : r.chance(90) ? r.range(1, 16) : r.chance(95) ? r.range(1, 260) : r.chance(95) ? r.range(256, 2000) : r.range(65530, 66000); if (n > 256) vh_obs("long-text"); if (n > 65535) vh_obs("very-long-text"); Bytes b(n); unsigned st = r.below(4);
	for (auto& c : b) { do c = st == 0 ? r.u8() : st == 1 ? r.range(0xA0, 0xFF) : st == 2 ? (r.chance(50) ? r.range(0x20, 0x7E) : r.range(0xA0, 0xFF)) : r.range(0x20, 0x7E); while (st && cp < 16 && supported(cp) && ISO8859[cp][c] == 0xFFFF && r.chance(90)); }
	judge(cp, b, r.chance(40) ? 3 * n + 1 : r.below(3 * n + 3));
}
std::vector<Suite> vh_suites() { return {{"chars", 16 * 256, 0, s_chars}, {"random", 0, 1, s_random}}; }
std::vector<std::string> vh_required() { return {"empty", "unsupported", "complete", "truncated", "truncated-before-multibyte", "long-text"}; }
const char* vh_rule() { return "one case = one byte string converted from one code page into a buffer of one size (all single characters of all pages enumerated); non-trivial = successful conversion compared byte by byte with the reference table"; }
