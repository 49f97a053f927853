// C18 (prefix "bits"): texts of bit-mapped and coded fields against independent
// tables. C17 (prefix "buf"): buffer discipline of every text function.
#include "vh.hpp"
#include "strfns.hpp"
#include "ref_strings.hpp"
#include "emv_strings.h"

static void init()
{
	static bool done; if (done) return; done = true;
	int g = emv_strings_init(NULL, mcc_path().c_str()); if (g) { fprintf(stderr, "emv_strings_init %d\n", g); abort(); }
	vh_alloc_reset();
}
static std::string esc(const std::string& s) { std::string r; for (char c : s) if (c == '\n') r += "\\n"; else r += c; return r; }
// position and content of the first difference of two line lists
static void judge(const char* name, const Bytes& b, const RefText& w)
{
	init();
	Exact in(b); const size_t L = 40000; static thread_local char* out = (char*)malloc(L); memset(out, 0x7E, L);
	int g = strfn(name)->fn(in.p, in.n, out, L);
	std::string h = vh_hex(b);
	VH_CHECK((g == 0) == w.ok, "accept", "%s of %s: result %d, expected %s", name, h.c_str(), g, w.ok ? "success" : "an error");
	if (!w.ok) { vh_obs(std::string("rejected:") + name); return; }
	size_t n = strnlen(out, L); VH_CHECK(n < L, "terminated", "%s of %s: text not terminated", name, h.c_str());
	VH_DEFINED(out, n + 1, "text");
	std::string t(out, n);
	if (t != w.text) { size_t i = 0; while (i < t.size() && i < w.text.size() && t[i] == w.text[i]) ++i; size_t a = t.rfind('\n', i ? i - 1 : 0); a = a == std::string::npos ? 0 : a; size_t wa = std::min(a, w.text.size()); vh_fail("text", "%s of %s: text differs at offset %zu: ...'%s' expected ...'%s'", name, h.c_str(), i, esc(t.substr(a, 300)).c_str(), esc(w.text.substr(wa, 300)).c_str()); }
	vh_obs(std::string("decoded:") + name); vh_obs("check:text"); if (!t.empty()) { vh_distinct(vh_hash(b, vh_hash(std::string(name)))); }
}
static const char* const SPEC[] = {"term-type", "term-caps", "pos-entry-mode", "aip", "auc", "account-type", "tvr", "cid", "ttq", "ctq", "amex-cl-caps", "amex-enh-caps", "txn-type", "addl-term-caps", "tsi", "trmd", "cvm-results", "visa-ffi"};
static const size_t NSPEC = sizeof SPEC / sizeof *SPEC;
// one byte takes every value, the others are zero, all ones, random or sparse
static void s_spec_all(Rng& r, uint64_t idx)
{
	const char* n = SPEC[idx % NSPEC]; size_t len = refspec().len(n);
	for (size_t i = 0; i < len; ++i) for (int v = 0; v < 256; ++v) for (int k = 0; k < 3; ++k) {
		Bytes b = k == 0 ? Bytes(len, 0) : k == 1 ? r.bytes(len) : Bytes(len, 0xFF); b[i] = v; judge(n, b, ref_spec_text(n, b));
	}
	for (size_t l : {len + 256, len + 512, len + 65536}) { Bytes b = r.bytes(l); if (idx & 1) std::fill(b.begin(), b.end(), 0); judge(n, b, ref_spec_text(n, b)); vh_obs("length-wraps"); }
	for (size_t l = 1; l <= len + 2; ++l) { Bytes b = r.bytes(l); judge(n, b, ref_spec_text(n, b)); }
}
// every value of two-byte fields
static void s_spec_pairs(Rng&, uint64_t idx)
{
	static const char* const P[] = {"aip", "auc", "tsi", "ctq"};
	for (auto n : P) for (int v = 0; v < 256; ++v) { Bytes b = {(uint8_t)idx, (uint8_t)v}; judge(n, b, ref_spec_text(n, b)); }
	for (int v = 0; v < 256; ++v) { Bytes b = {(uint8_t)idx, (uint8_t)v, (uint8_t)(v * 7)}; judge("cvm-results", b, ref_spec_text("cvm-results", b)); }
}
static Bytes sparse(Rng& r, size_t n) { Bytes b(n, 0); if (!n) return b; if (r.chance(30)) return r.bytes(n); for (size_t k = r.range(0, 4); k; --k) b[r.below(n)] ^= 1u << r.below(8); if (r.chance(10)) for (auto& x : b) x = ~x; return b; }
static void s_spec(Rng& r, uint64_t) { const char* n = SPEC[r.below(NSPEC)]; size_t len = refspec().len(n); Bytes b = sparse(r, len); if (!strcmp(n, "visa-ffi") && r.chance(80)) b[0] = 0x20 | (b[0] & 0x1F); judge(n, b, ref_spec_text(n, b)); }

static Bytes gen_iad(Rng& r)
{
	Bytes a = sparse(r, r.range(1, 32));
	switch (r.below(7)) {
		case 0: case 1: a.resize(32); a[0] = 0x0F; a[1] = 0xA5 + r.below(2); a[16] = 0x0F; break;
		case 2: case 3: { static const size_t L[] = {18, 18, 20, 26, 28}; a.resize(r.pick(L), 0); a[1] = 0x10 | (r.u8() & 5); break; }
		case 4: a.resize(r.range(7, 32), 0); a[0] = 6; a[2] = r.below(4) << 4 | r.below(16); a[3] = 3; break;
		case 5: a.resize(32, 0); a[0] = 0x1F; a[1] = r.below(6) << 4 | r.below(16); a[8] = r.below(16); break;
	}
	if (r.chance(5)) a[r.below(a.size())] = r.b8();
	return a;
}
static void s_iad(Rng& r, uint64_t) { Bytes a = gen_iad(r); static const char* const N[] = {"iad-invalid", "iad-unknown", "iad-ccd", "iad-mchip4", "iad-mchip-advance", "iad-vsdc0", "iad-vsdc1", "iad-vsdc2", "iad-vsdc3", "iad-vsdc4"}; vh_obs(N[ref_iad(a) + 1]); judge("iad", a, ref_iad_text(a)); }
static void s_iad_all(Rng& r, uint64_t idx)
{
	// every byte of every layout takes every value
	static const size_t L[] = {32, 18, 20, 26, 28, 7, 32, 32, 7, 7}; size_t k = idx % 10;
	for (size_t i = 0; i < std::min<size_t>(L[k], 10); ++i) for (int v = 0; v < 256; ++v) {
		Bytes a = v & 1 ? sparse(r, L[k]) : Bytes(L[k], 0);
		if (k == 0) { a[0] = 0x0F; a[1] = 0xA5 + (v & 1); a[16] = 0x0F; }
		else if (k < 5) a[1] = 0x10 | (r.u8() & 5);
		else if (k == 6 || k == 7) { a[0] = 0x1F; a[1] = k == 6 ? 0x22 : 0x43; a[8] &= 0x0F; }
		else { a[0] = 6; a[2] = k == 5 ? 0x0A : k == 8 ? 0x12 : 0x3C; a[3] = 3; }
		a[i] = v; judge("iad", a, ref_iad_text(a));
	}
}
static void s_cvm(Rng& r, uint64_t)
{
	Bytes b = r.bbytes(8); size_t n = r.chance(5) ? r.range(118, 126) : r.below(9);
	for (size_t k = 0; k < n; ++k) { b.push_back(r.chance(70) ? r.below(32) | r.below(4) << 6 : r.u8()); b.push_back(r.chance(85) ? r.below(10) : r.u8()); }
	if (r.chance(5)) b.push_back(0); judge("cvm-list", b, ref_cvm_list(b));
}
static void s_cvm_all(Rng& r, uint64_t idx) { Bytes b = r.bbytes(8); for (int v = 0; v < 121; ++v) { b.push_back(idx); b.push_back(v); } judge("cvm-list", b, ref_cvm_list(b)); b.resize(8); for (int v = 121; v < 240; ++v) { b.push_back(idx); b.push_back(v); } judge("cvm-list", b, ref_cvm_list(b)); }
static void s_afl(Rng& r, uint64_t)
{
	Bytes b; size_t n = r.chance(3) ? 63 : r.range(1, 6);
	for (size_t k = 0; k < n; ++k) { uint8_t f = r.range(1, 255), l = r.chance(40) ? f : r.range(f, 255); b.push_back(r.range(1, 30) << 3); b.push_back(f); b.push_back(l); b.push_back(r.chance(50) ? 0 : r.range(0, l - f + 1)); }
	if (r.chance(10)) b[r.below(b.size())] = r.b8(); if (r.chance(5)) b.pop_back(); judge("afl", b, ref_afl_text(b));
}
static size_t some_count(Rng& r) { if (!r.chance(1)) return r.range(1, 4); vh_obs("many-entries"); return r.range(60, 300); }
static void s_misc(Rng& r, uint64_t)
{
	switch (r.below(7)) {
		case 0: { Bytes b = sparse(r, r.chance(50) ? 10 : r.range(6, 34)); if (b.size() > 9 && r.chance(60)) { for (int i = 8; i < 10; ++i) b[i] = r.chance(70) ? "09AZaz@[`{/:"[r.below(12)] : r.below(32); } if (b.size() > 7 && r.chance(60)) { b[4] &= 0x8F; b[6] = 0; } judge("issuer-auth-data", b, ref_issuer_auth(b)); break; }
		case 1: { Bytes b; for (size_t k = some_count(r); k; --k) { size_t n = r.chance(4) ? r.below(256) : r.below(5); b.push_back(r.chance(90) ? 0 : r.u8()); b.push_back(r.below(5)); b.push_back(n); Bytes t = r.bytes(n); b.insert(b.end(), t.begin(), t.end()); } if (r.chance(20)) b.pop_back(); if (r.chance(10)) b[r.below(b.size())] = r.b8(); if (b.empty()) b.push_back(0); judge("asrpd", b, ref_asrpd(b)); break; }
		case 2: {
			Bytes b; auto it = refdata().countryn.begin(); std::advance(it, r.below(refdata().countryn.size())); unsigned c = it->first; b = {(uint8_t)(c / 100), (uint8_t)(c / 10 % 10 << 4 | c % 10)};
			static const uint16_t I[] = {0, 3, 0x8003, 3, 0x8003, 1, 2, 0x8000, 0x8001, 0x7FFF, 0x0300}; uint16_t id = r.pick(I); b.push_back(id >> 8); b.push_back(id);
			if (!(id & 0x8000)) { std::string d = vh_fmt("%02u", (unsigned)r.below(36)); b.push_back(d[0]); b.push_back(d[1]); }
			if ((id & 0x7FFF) == 3 && r.chance(90)) { bool fl = r.chance(50); b.push_back(0); b.push_back(r.chance(90) ? (fl ? 1 : 2) : r.below(4)); Bytes t = sparse(r, fl ? 6 : 3); if (fl) { if (r.chance(70)) t[0] = r.below(4); if (r.chance(70)) t[2] = r.below(3) * 0x40; } else if (r.chance(80)) t[1] = r.below(11); b.insert(b.end(), t.begin(), t.end()); }
			else { Bytes t = r.chance(70) ? Bytes(1, r.chance(70) ? 0 : r.u8()) : sparse(r, r.below(12)); b.insert(b.end(), t.begin(), t.end()); }
			if (r.chance(10)) b.resize(r.range(1, 34), 0); if (r.chance(10)) b[r.below(b.size())] = r.b8(); judge("mc-tpd", b, ref_tpd(b)); break;
		}
		case 3: { Bytes b; for (size_t k = some_count(r); k; --k) { auto it = refdata().curn.begin(); std::advance(it, r.below(refdata().curn.size())); unsigned c = r.chance(80) ? it->first : r.below(10000); b.push_back(c / 1000 << 4 | c / 100 % 10); b.push_back(c / 10 % 10 << 4 | c % 10); } if (r.chance(8)) b[r.below(b.size())] = r.u8(); if (r.chance(5)) b.pop_back(); if (b.empty()) b.push_back(1); judge("app-ref-currency", b, ref_pairs(b, false)); break; }
		case 4: { Bytes b; for (size_t k = some_count(r); k; --k) { auto it = refdata().lang2.begin(); std::advance(it, r.below(refdata().lang2.size())); for (char c : it->first) b.push_back(r.chance(30) ? toupper(c) : c); } if (r.chance(15)) b[r.below(b.size())] = r.chance(50) ? r.u8() : "AZaz@[`{"[r.below(8)]; if (r.chance(5)) b.pop_back(); judge("language-pref", b, ref_pairs(b, true)); break; }
		case 5: {
			const RefData& D = refdata(); Bytes b; if (r.chance(70)) { auto it = D.arc.begin(); std::advance(it, r.below(D.arc.size())); b = Bytes(it->first.begin(), it->first.end()); } else b = {(uint8_t)r.range(0x20, 0x7E), (uint8_t)r.range(0x20, 0x7E)}; if (r.chance(5)) b[r.below(2)] = r.u8(); if (r.chance(5)) b.resize(r.range(1, 4), '0');
			RefText w = {false, ""}; if (b.size() == 2 && is_alnum(b[0]) && is_alnum(b[1])) { std::string c(b.begin(), b.end()), d = D.get(D.arc, c); w = {true, c + (d.empty() ? "" : " - " + d)}; vh_obs(d.empty() ? "arc-unknown" : "arc-known"); } judge("arc", b, w); break;
		}
		case 6: { Bytes b = r.bytes(r.chance(98) ? r.range(1, 19) : r.range(20, 300)); if (r.chance(70)) for (auto& x : b) x = r.below(10) << 4 | r.below(10); if (r.chance(60)) { size_t p = r.below(2 * b.size()); b[p / 2] = p % 2 ? (b[p / 2] & 0xF0) | 0xD : (b[p / 2] & 0x0F) | 0xD0; } if (r.chance(60)) b.back() |= r.chance(50) ? 0x0F : 0xFF; judge("track2", b, ref_track2(b)); break; }
	}
}
static void s_aid(Rng& r, uint64_t)
{
	const AidRow& w = aids[r.below(NA)]; Bytes a = unhex(std::string(w.rid) + w.pix); unsigned k = r.below(5); if (k == 0) a.pop_back(); if (k == 1) { Bytes t = r.bytes(r.below(8)); a.insert(a.end(), t.begin(), t.end()); } if (k == 2) a[r.below(a.size())] ^= 1 << r.below(8);
	const AidRow* m = a.size() >= 5 && a.size() <= 16 ? ref_aid(a) : NULL; judge("aid", a, {m != NULL, m ? m->text : ""});
}
static void s_tables(Rng& r, uint64_t idx)
{
	// every entry of the coded tables
	if (idx < 256) {
		for (int v = 0; v < 256; ++v) { Bytes b = {(uint8_t)idx, (uint8_t)v}; unsigned n; bool ok = bcd(b.data(), 2, n); judge("mcc", b, {ok, ok ? refdata().get(refdata().mcc, n) : ""}); }
		if (idx >= 0x80) { Bytes b = {0x80, (uint8_t)idx, 0, 0}; for (int p = 0; p < 3; ++p) { b[2] = r.u8(); b[3] = r.u8(); b[0] = 0x80 | r.below(127); judge("emv-capdu", b, ref_emv_capdu(b)); } }
		else { Bytes b = {0x80, (uint8_t)idx, 1, 2, 0}; judge("emv-capdu", b, ref_emv_capdu(b)); }
		return;
	}
	for (auto& w : aids) { Bytes a = unhex(std::string(w.rid) + w.pix); if (a.size() >= 5) judge("aid", a, {true, ref_aid(a)->text}); }
	for (auto& e : refdata().arc) { Bytes b(e.first.begin(), e.first.end()); judge("arc", b, {true, e.first + " - " + e.second}); }
	for (int d = 0; d < 256; ++d) for (int e = 0; e < 2; ++e) { Bytes b = {0x08, 0x40, 0, 1, (uint8_t)(e ? '0' + d / 10 : d), (uint8_t)(e ? '0' + d % 10 : '1'), 7, 8}; judge("mc-tpd", b, ref_tpd(b)); }
	for (auto& e : refdata().countryn) { Bytes b = {(uint8_t)(e.first / 100), (uint8_t)(e.first / 10 % 10 << 4 | e.first % 10), 0x80, 1, 1}; judge("mc-tpd", b, ref_tpd(b)); }
	for (auto& e : refdata().curn) { Bytes b = {(uint8_t)(e.first / 100), (uint8_t)(e.first / 10 % 10 << 4 | e.first % 10)}; judge("app-ref-currency", b, ref_pairs(b, false)); }
	for (auto& e : refdata().lang2) { Bytes b(e.first.begin(), e.first.end()); judge("language-pref", b, ref_pairs(b, true)); }
}

#include "gen_strings.inc"

std::vector<Suite> vh_suites()
{
	std::vector<Suite> s = {{"bits-spec-all", NSPEC, 0, s_spec_all}, {"bits-spec-pairs", 256, 0, s_spec_pairs}, {"bits-iad-all", 10, 0, s_iad_all}, {"bits-cvm-all", 256, 0, s_cvm_all}, {"bits-tables", 257, 0, s_tables},
		{"bits-spec", 0, 1, s_spec}, {"bits-iad", 0, 1, s_iad}, {"bits-cvm", 0, 0.5, s_cvm}, {"bits-afl", 0, 0.5, s_afl}, {"bits-misc", 0, 1, s_misc}, {"bits-aid", 0, 0.2, s_aid}};
	buf_suites(s); return s;
}
std::vector<std::string> vh_required()
{
	if (!strncmp(vh_prefix(), "buf", 3)) return buf_required();
	std::vector<std::string> v = {"iad-ccd", "iad-mchip4", "iad-mchip-advance", "iad-vsdc0", "iad-vsdc1", "iad-vsdc2", "iad-vsdc3", "iad-vsdc4", "iad-unknown", "iad-invalid", "arc-known", "arc-unknown", "rejected:iad", "rejected:mc-tpd", "rejected:cvm-list", "rejected:afl", "many-entries", "length-wraps"};
	for (auto n : SPEC) v.push_back(std::string("decoded:") + n);
	for (auto n : {"iad", "cvm-list", "afl", "issuer-auth-data", "asrpd", "mc-tpd", "app-ref-currency", "language-pref", "arc", "track2", "aid", "mcc", "emv-capdu"}) v.push_back(std::string("decoded:") + n);
	return v;
}
const char* vh_rule() { return !strncmp(vh_prefix(), "buf", 3) ? buf_rule() : "one case = one or a family of field values decoded to text by the library and compared with the text required by the independent tables (every value of every byte, all pairs for two-byte fields, and random combinations); non-trivial = values with a non-empty text"; }
