// C15: conversions between integers, digits, text and EMV formats.
#include "vh.hpp"
#include "emv_tlv.h"
#include "emv_strings.h"

// lengths beyond what one byte, or two, can count
static size_t some_len(Rng& r, size_t n) { if (!r.chance(2)) return n; vh_obs("long-field"); return r.chance(3) ? 65530 + r.below(10) : r.chance(60) ? r.pick({31, 64, 127, 128, 129, 254, 255, 256, 257, 258}) : r.below(600); }
static Bytes ref_n(uint64_t v, size_t n) { Bytes b(n, 0); for (size_t i = 0; i < n * 2; ++i) { unsigned d = v % 10; v /= 10; b[n - 1 - i / 2] |= d << (i % 2 ? 4 : 0); } return b; }
static uint32_t gen_u32(Rng& r)
{
	static const uint32_t K[] = {0, 1, 9, 10, 11, 99, 100, 255, 256, 999, 1000, 65535, 65536, 99999, 999999, 1000000, 99999999, 100000000, 999999999, 1000000000, 2147483647u, 2147483648u, 4294967295u, 4294967294u, 4000000000u};
	unsigned k = r.below(3); return k == 0 ? r.pick(K) : k == 1 ? r.u32() : r.u32() >> r.below(32);
}
static void s_uint(Rng& r, uint64_t)
{
	uint32_t v = gen_u32(r); size_t n = some_len(r, r.chance(3) ? 0 : r.range(1, 12));
	vh_note("v=%u n=%zu", v, n);
	{
		Exact b(n); const uint8_t* p = emv_uint_to_format_n(v, b.p, n);
		if (!n) VH_CHECK(!p, "n-encode-empty", "no buffer accepted");
		else {
			Bytes w = ref_n(v, n); VH_CHECK(p == b.p && !memcmp(b.p, w.data(), n), "n-encode", "%u in %zu bytes: %s, expected %s", v, n, vh_hex(b.p, n).c_str(), vh_hex(w).c_str());
			if (n >= 5) { uint32_t x = ~v; int g = emv_format_n_to_uint(b.p, n, &x); VH_CHECK(g == 0 && x == v, "n-roundtrip", "%u -> %s -> %d %u", v, vh_hex(b.p, n).c_str(), g, x); vh_obs("n-roundtrip"); } else vh_obs("n-short-field");
		}
	}
	{
		Exact b(n); const uint8_t* p = emv_uint_to_format_b(v, b.p, n);
		if (!n) { VH_CHECK(!p, "b-encode-empty", "no buffer accepted"); return; }
		Bytes w(n, 0); for (size_t i = 0; i < n && i < 4; ++i) w[n - 1 - i] = v >> (8 * i);
		VH_CHECK(p == b.p && !memcmp(b.p, w.data(), n), "b-encode", "%u in %zu bytes: %s, expected %s", v, n, vh_hex(b.p, n).c_str(), vh_hex(w).c_str());
		if (n == 4) { uint32_t x = ~v; int g = emv_format_b_to_uint(b.p, n, &x); VH_CHECK(g == 0 && x == v, "b-roundtrip", "%u -> %d %u", v, g, x); vh_obs("b-roundtrip"); }
	}
	vh_distinct(v ^ (uint64_t)n << 40);
}
static Bytes gen_digits(Rng& r, size_t n)
{
	Bytes b(n, 0); size_t lead = r.chance(50) ? r.below(2 * n + 1) : 0;
	for (size_t i = lead; i < 2 * n; ++i) b[i / 2] |= r.below(10) << (i % 2 ? 0 : 4);
	if (r.chance(10) && n) b[r.below(n)] = r.b8();
	if (r.chance(15) && n >= 5) { uint64_t v = 4294967295ull + r.range(-3, 3); b = ref_n(v, n); }
	return b;
}
static void s_decode(Rng& r, uint64_t)
{
	size_t n = some_len(r, r.below(9)); Bytes b = gen_digits(r, n); Exact e(b); vh_note("%s", vh_hex(b).c_str());
	// format n to integer
	uint64_t v = 0; bool ok = n > 0, big = false;
	for (uint8_t c : b) for (unsigned d : {c >> 4, c & 15}) { if (d > 9) ok = false; v = v * 10 + d; if (v > 0xFFFFFFFFull) { big = true; v = 0xFFFFFFFFFull; } }
	uint32_t x = 0xA5A5A5A5; int g = emv_format_n_to_uint(e.p, n, &x);
	VH_CHECK((g == 0) == (ok && !big), "n-decode-accept", "format n %s: result %d value %u", vh_hex(b).c_str(), g, x);
	if (ok && !big) { VH_CHECK(x == v, "n-decode", "format n %s: %u", vh_hex(b).c_str(), x); vh_obs("n-decoded"); } else vh_obs(big && ok ? "n-too-big" : "n-invalid");
	VH_CHECK(n == 0 ? g < 0 : g >= 0, "n-decode-class", "format n %s: result %d", vh_hex(b).c_str(), g);
	// format n to text: digits without leading zeros, whatever the magnitude
	std::string digits; for (uint8_t c : b) { digits += '0' + (c >> 4); digits += '0' + (c & 15); }
	std::string t = digits; size_t z = t.find_first_not_of('0'); t = z == std::string::npos ? "0" : t.substr(z);
	size_t sl = r.chance(50) ? t.size() + 1 : r.chance(50) ? r.below(t.size() + 2) : 64; Exact s(sl, 0x7E);
	g = emv_format_n_get_string(e.p, n, (char*)s.p, sl);
	if (!ok) VH_CHECK(g != 0, "n-text-accept", "format n %s: text accepted", vh_hex(b).c_str());
	else if (sl >= t.size() + 1) VH_CHECK(g == 0, "n-text-accept", "format n %s in %zu bytes: result %d", vh_hex(b).c_str(), sl, g);
	else VH_CHECK(g != 0, "n-text-short", "format n %s does not fit %zu bytes: result %d", vh_hex(b).c_str(), sl, g);
	if (g == 0) { VH_CHECK(strnlen((char*)s.p, sl) < sl && t == (char*)s.p, "n-text", "format n %s: text '%.*s'", vh_hex(b).c_str(), (int)sl, s.p); vh_obs(t.size() > 10 ? "n-text-long" : "n-text"); vh_distinct(vh_hash(b)); }
	// format b
	if (n) { uint32_t y = 0; int k = emv_format_b_to_uint(e.p, n, &y); uint64_t w = 0; for (uint8_t c : b) w = w << 8 | c; VH_CHECK(n <= 4 ? k == 0 && y == w : k != 0, "b-decode", "format b %s: result %d value %u", vh_hex(b).c_str(), k, y);
		Exact q(16, 0x7E); k = emv_amount_get_string(e.p, n, (char*)q.p, 16); if (n <= 4) { std::string a = std::to_string(w); VH_CHECK(k == 0 && a == (char*)q.p, "amount-text", "amount %s: result %d '%s'", vh_hex(b).c_str(), k, k ? "" : (char*)q.p);
			size_t m = r.below(a.size() + 3); Exact z2(m, 0x7E); k = emv_amount_get_string(e.p, n, (char*)z2.p, m); if (m > a.size()) VH_CHECK(k == 0 && a == (char*)z2.p, "amount-text", "amount %s in %zu bytes: %d", vh_hex(b).c_str(), m, k); else if (m) VH_CHECK(k != 0, "amount-short", "amount %s does not fit %zu bytes: %d '%.*s'", vh_hex(b).c_str(), m, k, (int)m, z2.p); }
		else VH_CHECK(k != 0, "amount-text", "amount %s of %zu bytes accepted", vh_hex(b).c_str(), n); }
	// date and time
	for (int k = 0; k < 2; ++k) {
		size_t full = k ? 8 : 10, m = r.chance(60) ? full + 1 : r.below(14); Exact q(m, 0x7E); int (*f)(const uint8_t*, size_t, char*, size_t) = k ? emv_time_get_string : emv_date_get_string;
		int q2 = f(e.p, n, (char*)q.p, m); if (!m) continue;
		bool good = n == 3 && ok; std::string w = k ? digits.substr(0, 2) + ":" + digits.substr(std::min<size_t>(2, digits.size()), 2) + ":" + digits.substr(std::min<size_t>(4, digits.size()), 2) : "20" + digits.substr(0, 2) + "-" + digits.substr(std::min<size_t>(2, digits.size()), 2) + "-" + digits.substr(std::min<size_t>(4, digits.size()), 2);
		if (!good || m <= full) VH_CHECK(q2 != 0, "date-time-accept", "%s %s in %zu bytes accepted", k ? "time" : "date", vh_hex(b).c_str(), m);
		else { VH_CHECK(q2 == 0 && w == (char*)q.p, "date-time", "%s %s: result %d", k ? "time" : "date", vh_hex(b).c_str(), q2); vh_obs(k ? "time-text" : "date-text"); }
	}
}
static void s_cn(Rng& r, uint64_t)
{
	// text -> cn / n
	size_t L = some_len(r, r.below(24)); std::string s; for (size_t i = 0; i < L; ++i) s += '0' + r.below(10);
	if (r.chance(15) && L) s[r.below(L)] = "A:/F \x80z-"[r.below(8)];
	size_t n = some_len(r, r.range(1, 13)); if (!n) n = 1; Exact in(Bytes(s.c_str(), s.c_str() + L + 1)); vh_note("'%s' n=%zu", s.c_str(), n);
	auto bad = [](const std::string& x) { for (char c : x) if (c < '0' || c > '9') return true; return false; };
	{
		std::string u = s.substr(0, 2 * n); Exact b(n); int g = emv_str_to_format_cn((char*)in.p, b.p, n);
		if (bad(u)) { VH_CHECK(g > 0, "cn-encode-reject", "'%s': result %d", s.c_str(), g); vh_obs("cn-rejected"); }
		else { Bytes w(n, 0xFF); for (size_t i = 0; i < u.size(); ++i) w[i / 2] = i % 2 ? (w[i / 2] & 0xF0) | (u[i] - '0') : (w[i / 2] & 0x0F) | (u[i] - '0') << 4;
			VH_CHECK(g == 0 && !memcmp(b.p, w.data(), n), "cn-encode", "'%s' in %zu bytes: result %d %s", s.c_str(), n, g, vh_hex(b.p, n).c_str()); vh_obs("cn-encoded");
			Exact t(2 * n + 1, 0x7E); g = emv_format_cn_get_string(b.p, n, (char*)t.p, 2 * n + 1); VH_CHECK(g == 0 && u == (char*)t.p, "cn-roundtrip", "'%s' -> %s -> %d '%s'", s.c_str(), vh_hex(b.p, n).c_str(), g, g ? "" : (char*)t.p); vh_distinct(vh_hash(s) ^ n); }
	}
	{
		std::string u = s.size() > 2 * n ? s.substr(s.size() - 2 * n) : s; Exact b(n); int g = emv_str_to_format_n((char*)in.p, b.p, n);
		if (bad(u)) { VH_CHECK(g > 0, "n-from-text-reject", "'%s': result %d", s.c_str(), g); vh_obs("n-rejected"); }
		else { Bytes w(n, 0); for (size_t i = 0; i < u.size(); ++i) { size_t p = 2 * n - u.size() + i; w[p / 2] |= (u[i] - '0') << (p % 2 ? 0 : 4); }
			VH_CHECK(g == 0 && !memcmp(b.p, w.data(), n), "n-from-text", "'%s' in %zu bytes: result %d %s", s.c_str(), n, g, vh_hex(b.p, n).c_str()); vh_obs("n-from-text"); }
	}
	// arbitrary cn data
	Bytes c = gen_digits(r, std::max<size_t>(1, some_len(r, r.range(1, 10)))); if (r.chance(40)) { size_t p = r.below(2 * c.size() + 1); for (size_t i = p; i < 2 * c.size(); ++i) c[i / 2] |= 0xF << (i % 2 ? 0 : 4); } if (r.chance(20)) c[r.below(c.size())] = r.u8();
	std::string w; bool ok = true, pad = false; for (uint8_t x : c) for (unsigned d : {x >> 4, x & 15}) { if (pad || !ok) continue; if (d == 15) pad = true; else if (d > 9) ok = false; else w += '0' + d; }
	Exact e(c); size_t m = r.chance(70) ? 2 * c.size() + 1 : r.below(2 * c.size() + 1); Exact t(m, 0x7E); int g = emv_format_cn_get_string(e.p, e.n, (char*)t.p, m);
	if (!ok) VH_CHECK(g != 0, "cn-text-reject", "cn %s accepted", vh_hex(c).c_str());
	else if (m > 2 * c.size()) { VH_CHECK(g == 0 && w == (char*)t.p, "cn-text", "cn %s: %d", vh_hex(c).c_str(), g); vh_obs("cn-text"); }
	else if (g == 0) VH_CHECK(strnlen((char*)t.p, m) < m && w == (char*)t.p, "cn-text", "cn %s in %zu bytes", vh_hex(c).c_str(), m);
}
static bool is_an(uint8_t c) { return (c >= '0' && c <= '9') || (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z'); }
static void s_text(Rng& r, uint64_t idx)
{
	size_t n = some_len(r, r.below(24)); Bytes b(n);
	unsigned st = r.below(6); for (auto& c : b) { c = st == 0 ? r.u8() : st == 1 ? r.range(0x20, 0x7E) : st == 2 ? "azAZ09 @[`{/:"[r.below(13)] : st == 3 ? "abcXYZ"[r.below(6)] : st == 4 ? "ab12XY 9"[r.below(8)] : (r.chance(90) ? (uint8_t)('a' + r.below(26)) : r.u8()); }
	Exact e(b); vh_note("%s", vh_hex(b).c_str());
	struct F { const char* n; int (*f)(const uint8_t*, size_t, char*, size_t); bool (*ok)(uint8_t); bool filter; } fs[] = {
		{"a", emv_format_a_get_string, [](uint8_t c) { return is_an(c) && c > '9'; }, false}, {"an", emv_format_an_get_string, is_an, false},
		{"ans-space", emv_format_ans_only_space_get_string, [](uint8_t c) { return is_an(c) || c == ' '; }, false}, {"ans-ccs", emv_format_ans_ccs_get_string, [](uint8_t c) { return c >= 0x20 && c < 0x7F; }, false},
		{"non-control", emv_format_ans_to_non_control_str, [](uint8_t c) { return (c >= 0x20 && c < 0x7F) || c >= 0xA0; }, true}, {"alnum-space", emv_format_ans_to_alnum_space_str, [](uint8_t c) { return is_an(c) || c == ' '; }, true}};
	bool del = std::count(b.begin(), b.end(), 0x7F);
	for (auto& f : fs) {
		size_t m = r.chance(60) ? n + 1 : r.below(n + 3); Exact t(m, 0x7E); int g = f.f(e.p, n, (char*)t.p, m); std::string w; bool all = true; for (uint8_t c : b) if (f.ok(c)) w += (char)c; else all = false;
		std::string got = m && strnlen((char*)t.p, m) < m ? (char*)t.p : "";
		if (!n || !m) { VH_CHECK(g < 0, "text-args", "%s: empty accepted", f.n); continue; }
		if (f.filter) { VH_CHECK(g == 0 && got == w.substr(0, m - 1), "text-filter", "%s of %s in %zu bytes: %d '%s'", f.n, vh_hex(b).c_str(), m, g, got.c_str()); vh_obs("filtered"); if (w.size() != n) vh_obs("filter-dropped"); continue; }
		if (!strcmp(f.n, "ans-ccs") && del) continue;
		if (!all) { VH_CHECK(g != 0, "text-reject", "%s of %s: accepted", f.n, vh_hex(b).c_str()); vh_obs("text-rejected"); }
		else if (m > n) { VH_CHECK(g == 0 && got == w, "text", "%s of %s: %d '%s'", f.n, vh_hex(b).c_str(), g, got.c_str()); vh_obs("text-ok"); vh_distinct(vh_hash(b)); }
		else VH_CHECK(g != 0, "text-short", "%s of %s in %zu bytes: %d", f.n, vh_hex(b).c_str(), m, g);
	}
	{ size_t m = r.below(2 * n + 4); Exact t(m, 0x7E); int g = emv_format_b_to_str(e.p, n, (char*)t.p, m); if (!n || !m) VH_CHECK(g < 0, "text-args", "hex: empty accepted"); else { VH_CHECK(g == 0 && strnlen((char*)t.p, m) < m && vh_hex(b).substr(0, m - 1) == (char*)t.p, "hex-text", "hex of %s in %zu", vh_hex(b).c_str(), m); vh_obs("hex-text"); } }
	(void)idx;
}
static void s_chars(Rng&, uint64_t idx)
{
	// every single character in every text format
	uint8_t c = idx; char t[4]; uint8_t one[1] = {c};
	auto ok = [&](int (*f)(const uint8_t*, size_t, char*, size_t)) { memset(t, 0x7E, 4); return f(one, 1, t, 4) == 0 && (uint8_t)t[0] == c && t[1] == 0; };
	bool alpha = is_an(c) && c > '9';
	VH_CHECK(ok(emv_format_a_get_string) == alpha, "char-a", "character %02X", c); VH_CHECK(ok(emv_format_an_get_string) == is_an(c), "char-an", "character %02X", c);
	VH_CHECK(ok(emv_format_ans_only_space_get_string) == (is_an(c) || c == ' '), "char-ans-space", "character %02X", c);
	if (c != 0x7F) VH_CHECK(ok(emv_format_ans_ccs_get_string) == (c >= 0x20 && c < 0x7F), "char-ans-ccs", "character %02X", c);
	VH_CHECK(ok(emv_format_ans_to_non_control_str) == ((c >= 0x20 && c < 0x7F) || c >= 0xA0), "char-non-control", "character %02X", c);
	VH_CHECK(ok(emv_format_ans_to_alnum_space_str) == (is_an(c) || c == ' '), "char-alnum", "character %02X", c);
	// every byte as one-byte numbers
	uint32_t v; bool d = (c >> 4) < 10 && (c & 15) < 10; int g = emv_format_n_to_uint(one, 1, &v); VH_CHECK((g == 0) == d && (!d || v == (unsigned)(c >> 4) * 10 + (c & 15)), "byte-n", "byte %02X", c);
	vh_distinct(c);
}
std::vector<Suite> vh_suites() { return {{"chars", 256, 0, s_chars}, {"uint", 0, 1, s_uint}, {"decode", 0, 1, s_decode}, {"cn", 0, 1, s_cn}, {"text", 0, 1, s_text}}; }
std::vector<std::string> vh_required() { return {"long-field", "n-roundtrip", "n-short-field", "b-roundtrip", "n-decoded", "n-too-big", "n-invalid", "n-text", "n-text-long", "time-text", "date-text", "cn-encoded", "cn-rejected", "n-from-text", "n-rejected", "cn-text", "filtered", "filter-dropped", "text-ok", "text-rejected", "hex-text"}; }
const char* vh_rule() { return "one case = one value or text converted by every applicable conversion in exact-size buffers of chosen sizes and judged digit by digit; non-trivial = valid values that were converted"; }
