// C19: annotation of every EMV field.
#include "ref_annot.hpp"
#include "strfns.hpp"
#include "emv_tlv.h"

static void init()
{
	static bool done; if (done) return; done = true;
	int g = emv_strings_init(NULL, mcc_path().c_str()); if (g) { fprintf(stderr, "emv_strings_init %d\n", g); abort(); }
	vh_alloc_reset();
}
static std::string esc(const std::string& s) { std::string r; for (char c : s) if (c == '\n') r += "\\n"; else r += c; return r; }
static void tag_info(const struct emv_tlv_info_t& i, const RefTag* w, unsigned tag, const std::string& what)
{
	if (!w) { VH_CHECK(!i.tag_name && !i.tag_desc && i.format == EMV_FORMAT_B, "unknown-tag", "%X %s: described as '%s' format %d", tag, what.c_str(), i.tag_name ? i.tag_name : "", (int)i.format); return; }
	VH_CHECK(i.tag_name && w->name == i.tag_name, "name", "%X %s: named '%s', expected '%s'", tag, what.c_str(), i.tag_name ? i.tag_name : "(none)", w->name.c_str());
	VH_CHECK(i.tag_desc && w->desc == i.tag_desc, "description", "%X %s: described as '%s', expected '%s'", tag, what.c_str(), i.tag_desc ? i.tag_desc : "(none)", w->desc.c_str());
	VH_CHECK((int)i.format == w->format, "format", "%X %s: format %d, expected %d", tag, what.c_str(), (int)i.format, w->format);
}
static void judge(unsigned tag, const Bytes& v)
{
	init(); std::string h = vh_hex(v); vh_note("%X %s", tag, h.c_str()); Exact in(v);
	struct emv_tlv_t t; memset(&t, 0, sizeof t); t.tag = tag; t.length = v.size(); t.value = in.p; struct emv_tlv_info_t i; memset(&i, 0xC3, sizeof i);
	static const size_t L = 40000; static thread_local char* out = (char*)malloc(L); memset(out, 0x7E, L);
	int g = emv_tlv_get_info(&t, &i, out, L); RefInfo w = ref_info(tag, v.size(), in.p);
	tag_info(i, w.t, tag, h);
	if (w.t && w.t->kind.compare(0, 4, "ans:") == 0 && std::find(v.begin(), v.end(), 0x7F) != v.end()) { vh_obs("DEL-in-ans"); return; }  // whether DEL is a character is not specified
	VH_CHECK((g == 0) == w.ok, "result", "%X %s: result %d, expected %s", tag, h.c_str(), g, w.ok ? "success" : "no success");
	size_t n = strnlen(out, L); VH_CHECK(n < L, "terminated", "%X %s: text not terminated", tag, h.c_str()); VH_DEFINED(out, n + 1, "text");
	if (w.ok || !w.text_if_error) VH_CHECK(w.text == out, "text", "%X %s: text '%.500s', expected '%.500s'", tag, h.c_str(), esc(out).c_str(), esc(w.text).c_str());
	if (!w.t) vh_obs("unknown"); else if (!w.ok) vh_obs("undecodable"); else if (w.text.empty()) vh_obs("no-text"); else { vh_obs(vh_fmt("text:%X", tag)); vh_distinct(vh_hash(v, tag)); }
	if (w.ok && n) { // a buffer that holds the text and every maximum length is enough
		Exact s(std::max<size_t>(std::max<size_t>(n + 1, 80), 2 * v.size() + 1), 0x7E); memset(&i, 0xC3, sizeof i); g = emv_tlv_get_info(&t, &i, (char*)s.p, s.n); VH_CHECK(g == 0 && w.text == (char*)s.p, "text-small", "%X %s in %zu bytes: %d '%.300s', expected '%.300s'", tag, h.c_str(), s.n, g, (char*)s.p, w.text.c_str());
	}
	// the caller may not want the text
	memset(&i, 0xC3, sizeof i); emv_tlv_get_info(&t, &i, NULL, 0); tag_info(i, w.t, tag, "(no text wanted)");
	// a data object list entry has a length but no value
	t.value = NULL; char q[8] = {0x7E, 0x7E}; memset(&i, 0xC3, sizeof i); emv_tlv_get_info(&t, &i, q, sizeof q); RefInfo d = ref_info(tag, v.size(), NULL); tag_info(i, d.t, tag, vh_fmt("(no value, length %zu)", v.size())); VH_CHECK(!q[0], "no-value-text", "%X without value: text '%.8s'", tag, q);
}
static Bytes digits(Rng& r, size_t n) { Bytes b(n); for (auto& c : b) c = r.below(10) << 4 | r.below(10); return b; }
static Bytes sparse(Rng& r, size_t n) { Bytes b(n, 0); if (!n) return b; if (r.chance(30)) return r.bytes(n); for (size_t k = r.range(0, 4); k; --k) b[r.below(n)] ^= 1u << r.below(8); if (r.chance(10)) for (auto& x : b) x = ~x; return b; }
static Bytes chars(Rng& r, size_t n, const char* set) { Bytes b(n); size_t m = strlen(set); for (auto& c : b) c = set[r.below(m)]; return b; }
template <class M> static typename M::key_type any(Rng& r, const M& m) { auto it = m.begin(); std::advance(it, r.below(m.size())); return it->first; }
static Bytes code(unsigned c) { return {(uint8_t)(c / 1000 % 10 << 4 | c / 100 % 10), (uint8_t)(c / 10 % 10 << 4 | c % 10)}; }
static Bytes str(const std::string& s) { return Bytes(s.begin(), s.end()); }
static Bytes good(Rng& r, unsigned tag, const std::string& kind)
{
	const RefData& D = refdata(); size_t c = kind.find(':'); std::string k = kind.substr(0, c); size_t max = c == std::string::npos ? 0 : strtoul(kind.c_str() + c + 1, 0, 10); size_t lim = max ? max : 60;
	if (k == "n" || k == "cn") { Bytes b = digits(r, r.chance(60) ? (lim + 1) / 2 : r.range(1, (lim + 1) / 2)); if (r.chance(20)) for (size_t i = r.below(b.size()) + 1; i--;) b[i] = 0; if (k == "cn" && r.chance(60)) { size_t p = r.below(2 * b.size() + 1); for (size_t i = p; i < 2 * b.size(); ++i) b[i / 2] |= 0xF << (i % 2 ? 0 : 4); } return b; }
	static const char AN[] = "ABCXYZabcxyz0189"; static const char ANS[] = "ABCxyz019 .,-/:;~!@ %";
	size_t n = r.chance(40) ? lim : r.range(1, lim);
	if (k == "an") return chars(r, n, AN); if (k == "ans") return chars(r, n, ANS); if (k == "label") return chars(r, n, "ABCxyz 019"); if (k == "raw") { Bytes b = r.chance(50) ? chars(r, n, ANS) : r.bytes(n); for (auto& x : b) if (!x) x = 0xE9; return b; }
	if (k == "amount") return r.chance(50) ? r.bbytes(4) : r.bytes(r.range(1, 4)); if (k == "date" || k == "time") return digits(r, 3);
	if (k == "country") return code(r.chance(80) ? any(r, D.countryn) : r.below(1000)); if (k == "currency") return code(r.chance(80) ? any(r, D.curn) : r.below(1000)); if (k == "mcc") return code(r.chance(80) ? any(r, D.mcc) : r.below(10000));
	if (k == "alpha2") return r.chance(80) ? str(any(r, D.country2)) : chars(r, 2, AN); if (k == "alpha3") return r.chance(80) ? str(any(r, D.country3)) : chars(r, 3, AN);
	if (k == "arc") return r.chance(70) ? str(any(r, D.arc)) : chars(r, 2, AN); if (k == "aid" || k == "dfname") { if (k == "dfname" && r.chance(30)) return str(r.chance(50) ? "1PAY.SYS.DDF01" : "2PAY.SYS.DDF01"); const AidRow& w = aids[r.below(NA)]; Bytes a = unhex(std::string(w.rid) + w.pix); Bytes t = r.bytes(r.below(5)); if (r.chance(40)) a.insert(a.end(), t.begin(), t.end()); return a; }
	if (k == "language-pref") { Bytes b; for (size_t q = r.range(1, 4); q; --q) { std::string l = any(r, D.lang2); b.insert(b.end(), l.begin(), l.end()); } return b; }
	if (k == "app-ref-currency") { Bytes b; for (size_t q = r.range(1, 4); q; --q) { Bytes l = code(any(r, D.curn)); b.insert(b.end(), l.begin(), l.end()); } return b; }
	if (k == "track2") { Bytes b = digits(r, r.range(8, 19)); size_t p = r.range(10, 2 * b.size() - 1); b[p / 2] = p % 2 ? (b[p / 2] & 0xF0) | 0xD : (b[p / 2] & 0xF) | 0xD0; if (r.chance(50)) b.back() |= 0xF; return b; }
	if (k == "afl") { Bytes b; for (size_t q = r.range(1, 5); q; --q) { uint8_t f = r.range(1, 20), l = r.range(f, f + 4); b.insert(b.end(), {(uint8_t)(r.range(1, 30) << 3), f, l, (uint8_t)r.below(l - f + 2)}); } return b; }
	if (k == "cvm-list") { Bytes b = r.bbytes(8); for (size_t q = r.range(1, 8); q; --q) { b.push_back(r.below(32) | r.below(4) << 6); b.push_back(r.below(10)); } return b; }
	if (k == "iad") { Bytes a = sparse(r, 32); switch (r.below(4)) { case 0: a[0] = 0x0F; a[1] = 0xA5; a[16] = 0x0F; break; case 1: a.resize(18); a[1] = 0x10; break; case 2: a.resize(7); a[0] = 6; a[2] = 0x0A; a[3] = 3; break; case 3: a[0] = 0x1F; a[1] = 0x22; a[8] &= 15; break; } return a; }
	if (k == "issuer-auth-data") { Bytes b = sparse(r, r.chance(50) ? 10 : r.range(8, 16)); if (b.size() == 10 && r.chance(50)) { b[8] = 'Y'; b[9] = '1'; } return b; }
	if (k == "asrpd") { Bytes b; for (size_t q = r.range(1, 4); q; --q) { size_t z = r.below(5); Bytes t = r.bytes(z); b.insert(b.end(), {0, (uint8_t)r.below(5), (uint8_t)z}); b.insert(b.end(), t.begin(), t.end()); } return b; }
	if (k == "capdu") { static const uint8_t I[] = {0xDA, 0xDA, 0x1E, 0x18, 0x16, 0x24, 0xA4, 0xB2, 0xD6, 0xDC, 0xE2}; Bytes b = {(uint8_t)(r.chance(50) ? 0x84 : r.chance(50) ? 0x04 : 0), r.pick(I), r.b8(), r.b8()}; size_t q = r.range(1, 16); Bytes d = r.bytes(q); b.push_back(q); b.insert(b.end(), d.begin(), d.end()); return b; }
	if (k == "9F6E") { Bytes b; switch (r.below(4)) {
		case 0: b = sparse(r, 4); b[0] = 0x20 | (b[0] & 0x1F); b[2] = b[3] = 0; break;
		case 1: b = sparse(r, 4); b[0] = (b[0] & 0xC4) | 0x18; b[1] = 0x80 | (b[1] & 0x70); b[2] &= 0xC0; b[3] = (b[3] & 0xE0) | r.range(1, 7); if (r.chance(20)) b[r.below(4)] ^= 1 << r.below(8); break;
		case 2: b = code(any(r, D.countryn)); b.insert(b.end(), {0x80, 1}); b.push_back(r.u8()); break;
		case 3: b = code(any(r, D.countryn)); b.insert(b.end(), {0x00, 3, '0', (uint8_t)('0' + r.below(10)), 0, 2}); { Bytes t = sparse(r, 3); b.insert(b.end(), t.begin(), t.end()); } break; } return b; }
	if (k == "-") return r.bytes(r.below(20));
	Bytes b = sparse(r, refspec().len(k)); if (k == "txn-type") b[0] = r.pick({0, 1, 9, 0x20, 0x30}); if (k == "account-type") b[0] = r.below(4) << 4; if (k == "pos-entry-mode") b[0] = r.pick({0, 1, 2, 3, 4, 5, 6, 7, 0x10, 0x80, 0x81, 0x90, 0x91, 0x95}); if (k == "term-type") b[0] = r.range(1, 3) * 16 + r.range(1, 6);
	(void)tag; return b;
}
static Bytes gen(Rng& r, unsigned tag, const std::string& kind)
{
	Bytes b = good(r, tag, kind); unsigned k = r.below(20);
	if (k == 0) b = r.bytes(r.below(40)); else if (k == 1 && !b.empty()) b[r.below(b.size())] = r.b8(); else if (k == 2 && !b.empty()) b.pop_back(); else if (k == 3) b.push_back(r.b8()); else if (k == 4 && !b.empty()) b[r.below(b.size())] ^= 1 << r.below(8); else if (k == 5) b = digits(r, r.range(1, 14)); else if (k == 6) b = chars(r, r.range(1, 50), "ABC xyz019");
	return b;
}
static void s_random(Rng& r, uint64_t) { auto& T = ref_tags(); const RefTag& t = T[r.below(T.size())]; judge(t.tag, gen(r, t.tag, t.kind)); }
// every tag number: known ones are annotated, all others are not
static void s_tags(Rng& r, uint64_t idx)
{
	for (unsigned lo = 0; lo < 256; ++lo) { unsigned tag = idx << 8 | lo; if (ref_tag(tag) || r.chance(10)) { for (size_t n : {0, 1, 2, 3, 4, 6, 8}) judge(tag, r.bytes(n)); } else judge(tag, r.bytes(r.below(5))); }
	for (int k = 0; k < 20; ++k) { unsigned tag = r.u32(); judge(tag, r.bytes(4)); judge(0x9F0000 | (tag & 0xFFFF), r.bytes(3)); judge(0xDF8100 | (tag & 0xFF), r.bytes(3)); judge(tag << 16 | (k & 1 ? 0x9F02 : 0x9A), r.bytes(3)); }
}
// every code of the looked up tables and all single byte values
static void s_codes(Rng& r, uint64_t idx)
{
	const RefData& D = refdata();
	if (idx < 100) { for (unsigned c = 0; c < 100; ++c) { unsigned v = idx * 100 + c; for (unsigned t : {0x9F15, 0x5F28, 0x9F1A, 0x5F2A, 0x9F3C, 0x9F42, 0x9F3B}) judge(t, code(v)); } return; }
	for (auto& e : D.country2) { judge(0x5F55, str(e.first)); judge(0x5F2D, {(uint8_t)tolower(e.first[0]), (uint8_t)tolower(e.first[1])}); } for (auto& e : D.country3) judge(0x5F56, str(e.first)); for (auto& e : D.lang2) judge(0x5F2D, str(e.first)); for (auto& e : D.arc) judge(0x8A, str(e.first));
	for (auto& w : aids) { Bytes a = unhex(std::string(w.rid) + w.pix); for (unsigned t : {0x4F, 0x84, 0x9F06}) judge(t, a); }
	for (auto& t : ref_tags()) for (int v = 0; v < 256; ++v) { judge(t.tag, {(uint8_t)v}); Bytes b = good(r, t.tag, t.kind); if (!b.empty()) { b[r.below(b.size())] = v; judge(t.tag, b); } }
}
// every length of every field
static void s_lengths(Rng& r, uint64_t n)
{
	static const size_t LONG[] = {126, 127, 128, 129, 200, 253, 254, 255, 256, 257, 258, 259, 260, 261, 262, 263, 264, 266, 272, 288, 300, 400, 511, 512, 513, 514, 515, 700};
	if (n >= 80) { n = LONG[n - 80]; vh_obs("long-values"); }
	for (auto& t : ref_tags()) { Bytes b = good(r, t.tag, t.kind); Bytes c = b; c.resize(n, 0); judge(t.tag, c); judge(t.tag, digits(r, n)); judge(t.tag, chars(r, n, "ABCxyz019")); }
}
std::vector<Suite> vh_suites() { return {{"tags", 256, 0, s_tags}, {"codes", 101, 0, s_codes}, {"lengths", 80 + 28, 0, s_lengths}, {"values", 0, 1, s_random}}; }
std::vector<std::string> vh_required() { std::vector<std::string> v = {"unknown", "undecodable", "no-text", "long-values"}; for (auto& t : ref_tags()) if (t.kind != "-") v.push_back(vh_fmt("text:%X", t.tag)); return v; }
const char* vh_rule() { return "every one- and two-byte tag number and samples of longer ones, every length up to 79 and 28 lengths up to 700, every numeric, alphabetic and coded value of the looked up fields and generated values, annotated with and without buffer and value; name, description, format, result and text compared with an independent tag table and value models; non-trivial = a text was required"; }
