// C14: AID, AFL, CVM list and IAD decoders against independent models.
#include "vh.hpp"
#include "emv_fields.h"
#include "ref_aid.hpp"


static void check_aid(const Bytes& a)
{
	Exact e(a); struct emv_aid_info_t i; memset(&i, 0x5A, sizeof i);
	int g = emv_aid_get_info(e.p, e.n, &i);
	std::string h = vh_hex(a);
	if (a.size() < 5 || a.size() > 16) { vh_obs("aid-bad-length"); VH_CHECK(a.empty() ? g != 0 : g > 0, "aid-length", "AID %s: result %d", h.c_str(), g); return; }
	const AidRow* m = ref_aid(a);
	if (!m) { vh_obs("aid-unknown"); VH_CHECK(g != 0, "aid-unknown", "AID %s of an unknown provider: result %d", h.c_str(), g); VH_CHECK(i.scheme == 0 && i.product == 0, "aid-unknown", "AID %s: scheme %d product %d reported", h.c_str(), i.scheme, i.product); return; }
	vh_obs(m->product ? "aid-product" : "aid-scheme-only");
	VH_CHECK(g == 0 && (int)i.scheme == m->scheme && (int)i.product == m->product, "aid-info", "AID %s: result %d scheme %d product %d, expected %d %d", h.c_str(), g, i.scheme, i.product, m->scheme, m->product);
	vh_distinct(vh_hash(a));
}
static void s_aid_all(Rng& r, uint64_t idx)
{
	// every table row, every total length, every single bit changed
	const AidRow& w = aids[idx % NA]; Bytes a = unhex(std::string(w.rid) + w.pix);
	for (size_t n = 0; n <= 18; ++n) { Bytes b = a; b.resize(std::max(n, (size_t)0), r.u8()); check_aid(b); }
	for (size_t bit = 0; bit < a.size() * 8; ++bit) { Bytes b = a; b[bit / 8] ^= 1u << (bit % 8); check_aid(b); b.resize(16, r.u8()); check_aid(b); }
}
static void s_aid(Rng& r, uint64_t)
{
	const AidRow& w = aids[r.below(NA)]; Bytes a = unhex(std::string(w.rid) + (r.chance(70) ? aids[r.below(NA)].pix : w.pix));
	if (r.chance(30)) a = unhex(std::string(w.rid) + w.pix);
	unsigned k = r.below(6); if (k == 0 && !a.empty()) a.pop_back(); if (k == 1) { Bytes t = r.bytes(r.below(12)); a.insert(a.end(), t.begin(), t.end()); } if (k == 2) a[r.below(a.size())] = r.u8(); if (k == 3) a.resize(r.below(19), r.u8()); if (r.chance(1)) { a.resize(a.size() + 256, r.u8()); vh_obs("length-wraps"); }
	check_aid(a);
}
static void check_afl(const Bytes& a)
{
	Exact e(a); struct emv_afl_itr_t it; memset(&it, 0x5A, sizeof it); std::string h = vh_hex(a); const char* hx = h.c_str();
	int g = emv_afl_itr_init(e.p, e.n, &it);
	bool ok = a.size() && a.size() % 4 == 0 && a.size() <= 252;
	VH_CHECK((g == 0) == ok, "afl-init", "AFL of %zu bytes %s: result %d", a.size(), hx, g);
	if (!ok) { vh_obs("afl-bad-length"); VH_CHECK(a.empty() || g > 0, "afl-init", "AFL of %zu bytes: result %d", a.size(), g); return; }
	for (size_t o = 0; o < a.size(); o += 4) {
		struct emv_afl_entry_t x; memset(&x, 0x5A, sizeof x);
		unsigned sfi = a[o] >> 3, f = a[o + 1], l = a[o + 2], c = a[o + 3];
		bool v = !(a[o] & 7) && sfi >= 1 && sfi <= 30 && f >= 1 && l >= f && c <= l - f + 1;
		int n = emv_afl_itr_next(&it, &x);
		if (!v) { vh_obs("afl-entry-rejected"); VH_CHECK(n < 0, "afl-reject", "AFL %s entry at %zu: result %d", hx, o, n); return; }
		VH_CHECK(n == 4 && x.sfi == sfi && x.first_record == f && x.last_record == l && x.oda_record_count == c, "afl-entry", "AFL %s entry at %zu: result %d -> %u %u %u %u", hx, o, n, x.sfi, x.first_record, x.last_record, x.oda_record_count);
		vh_obs("afl-entry-decoded");
	}
	struct emv_afl_entry_t x; for (int k = 0; k < 2; ++k) VH_CHECK(emv_afl_itr_next(&it, &x) == 0, "afl-end", "AFL %s: end of data not reported", hx);
	vh_obs("afl-complete"); vh_distinct(vh_hash(a)); vh_sample("AFL " + h);
}
static void s_afl_one(Rng& r, uint64_t idx)
{
	// all SFI bytes x boundary records
	static const uint8_t B[] = {0, 1, 2, 3, 10, 0x7F, 0x80, 0xFE, 0xFF};
	for (uint8_t f : B) for (uint8_t l : B) for (int c = -2; c <= 2; ++c) { int n = l - f + 1 + c; check_afl({(uint8_t)idx, f, l, (uint8_t)n}); check_afl({(uint8_t)idx, f, l, (uint8_t)(c + 2)}); }
}
static void s_afl(Rng& r, uint64_t)
{
	Bytes a; size_t n = r.chance(1) ? r.range(66, 300) : r.chance(5) ? r.range(60, 65) : r.below(9);
	for (size_t i = 0; i < n; ++i) { uint8_t f = r.chance(80) ? r.range(1, 30) : r.range(1, 255), l = f + r.below(std::min(256 - f, 6)); a.push_back(r.range(1, 30) << 3); a.push_back(f); a.push_back(l); a.push_back(r.below(l - f + 2)); }
	if (!a.empty() && r.chance(35)) a[r.below(a.size())] = r.b8(); if (r.chance(10)) a.resize(r.below(a.size() + 3)); if (r.chance(3)) a = r.bytes(r.below(300));
	check_afl(a);
}
static void check_cvm(const Bytes& a)
{
	Exact e(a); struct emv_cvmlist_itr_t it; struct emv_cvmlist_amounts_t am; memset(&it, 0x5A, sizeof it); memset(&am, 0x5A, sizeof am); std::string h = vh_hex(a);
	int g = emv_cvmlist_itr_init(e.p, e.n, &am, &it);
	bool ok = a.size() >= 10 && a.size() % 2 == 0 && a.size() <= 252;
	VH_CHECK((g == 0) == ok, "cvm-init", "CVM list of %zu bytes %s: result %d", a.size(), h.c_str(), g);
	if (!ok) { vh_obs("cvm-bad-length"); return; }
	auto u32 = [&](size_t o) { return (uint32_t)a[o] << 24 | a[o + 1] << 16 | a[o + 2] << 8 | a[o + 3]; };
	VH_CHECK(am.X == u32(0) && am.Y == u32(4), "cvm-amounts", "CVM list %s: X=%u Y=%u", h.c_str(), am.X, am.Y);
	for (size_t o = 8; o < a.size(); o += 2) {
		struct emv_cv_rule_t x; memset(&x, 0x5A, sizeof x); int n = emv_cvmlist_itr_next(&it, &x);
		VH_CHECK(n == 2 && x.cvm == a[o] && x.cvm_cond == a[o + 1], "cvm-rule", "CVM list %s rule at %zu: result %d -> %02X%02X", h.c_str(), o, n, x.cvm, x.cvm_cond); vh_obs("cvm-rule-decoded");
	}
	struct emv_cv_rule_t x; for (int k = 0; k < 2; ++k) VH_CHECK(emv_cvmlist_itr_next(&it, &x) == 0, "cvm-end", "CVM list %s: end of data not reported", h.c_str());
	vh_distinct(vh_hash(a)); vh_sample("CVM list " + h);
}
static void s_cvm(Rng& r, uint64_t) { check_cvm(r.bbytes(r.chance(1) ? r.range(256, 600) : r.chance(10) ? r.range(240, 270) : r.below(40))); }

static void check_iad(const Bytes& a)
{
	Exact e(a); int g = emv_iad_get_format(e.p, e.n), m = ref_iad(a);
	VH_CHECK(g == m, "iad-format", "IAD %s: format %d, expected %d", vh_hex(a).c_str(), g, m);
	static const char* const N[] = {"iad-invalid", "iad-unknown", "iad-ccd", "iad-mchip4", "iad-mchip-advance", "iad-vsdc0", "iad-vsdc1", "iad-vsdc2", "iad-vsdc3", "iad-vsdc4"};
	vh_obs(N[m + 1]); if (m > 0) { vh_distinct(vh_hash(a)); vh_sample("IAD " + vh_hex(a)); }
}
static Bytes gen_iad(Rng& r)
{
	Bytes a = r.bytes(r.range(1, 32));
	switch (r.below(5)) {
		case 0: a.resize(32); a[0] = 0x0F; a[1] = r.chance(80) ? 0xA5 + r.below(2) : r.u8(); a[16] = 0x0F; break;
		case 1: { static const size_t L[] = {18, 18, 20, 26, 28, 17, 19, 21, 22, 24, 27, 29, 30, 32}; a.resize(r.pick(L), r.u8()); a[1] = 0x10 | (r.u8() & 0x0F); if (r.chance(50)) a[1] &= 0xF5; break; }
		case 2: a.resize(r.range(5, 32), r.u8()); a[0] = 6; a[2] = r.below(6) << 4 | r.below(16); a[3] = 3; break;
		case 3: a.resize(32, r.u8()); a[0] = 0x1F; a[1] = r.below(6) << 4 | r.below(16); a[8] = r.below(r.chance(80) ? 16 : 256); break;
	}
	if (r.chance(15)) a[r.below(a.size())] = r.b8(); if (r.chance(10)) a.resize(r.below(33), 0); if (r.chance(1)) a.resize(a.size() + 256, 0);
	return a;
}
static void s_iad(Rng& r, uint64_t) { check_iad(gen_iad(r)); }
static void s_iad_bytes(Rng& r, uint64_t idx)
{
	// every value of every deciding byte, for each layout
	static const struct { size_t n; int pos; } P[] = {{32, 0}, {32, 1}, {32, 16}, {18, 1}, {20, 1}, {26, 1}, {28, 1}, {7, 0}, {7, 2}, {7, 3}, {20, 2}, {32, 8}};
	const uint8_t v = idx;
	for (auto& p : P) for (int k = 0; k < 4; ++k) {
		Bytes a(p.n, 0);
		if (k == 0) { if (p.n != 32) continue; a[0] = 0x0F; a[1] = 0xA5; a[16] = 0x0F; }
		if (k == 1) a[1] = 0x10;
		if (k == 2) { a[0] = 6; a[3] = 3; a[2] = 0x10; }
		if (k == 3) { if (p.n != 32) continue; a[0] = 0x1F; a[1] = 0x22; }
		a[p.pos] = v; check_iad(a);
	}
}
static void s_args(Rng&, uint64_t)
{
	struct emv_aid_info_t i; uint8_t b[16] = {0xA0}; struct emv_afl_itr_t it; struct emv_cvmlist_itr_t ci; struct emv_cvmlist_amounts_t am;
	VH_CHECK(emv_aid_get_info(NULL, 5, &i) && emv_aid_get_info(b, 0, &i) && emv_aid_get_info(b, 5, NULL), "null", "emv_aid_get_info accepts NULL");
	VH_CHECK(emv_afl_itr_init(NULL, 4, &it) && emv_afl_itr_init(b, 4, NULL), "null", "emv_afl_itr_init accepts NULL");
	VH_CHECK(emv_cvmlist_itr_init(NULL, 10, &am, &ci) && emv_cvmlist_itr_init(b, 10, NULL, &ci) && emv_cvmlist_itr_init(b, 10, &am, NULL), "null", "emv_cvmlist_itr_init accepts NULL");
	VH_CHECK(emv_iad_get_format(NULL, 5) == EMV_IAD_FORMAT_INVALID, "null", "emv_iad_get_format accepts NULL");
}
std::vector<Suite> vh_suites()
{
	return {{"args", 1, 0, s_args}, {"aid-table", NA, 0, s_aid_all}, {"afl-sfi", 256, 0, s_afl_one}, {"iad-bytes", 256, 0, s_iad_bytes}, {"aid", 0, 1, s_aid}, {"afl", 0, 1, s_afl}, {"cvm", 0, 0.5, s_cvm}, {"iad", 0, 1, s_iad}};
}
std::vector<std::string> vh_required() { return {"aid-product", "aid-scheme-only", "aid-unknown", "aid-bad-length", "afl-complete", "afl-entry-rejected", "afl-bad-length", "cvm-rule-decoded", "cvm-bad-length", "iad-ccd", "iad-mchip4", "iad-mchip-advance", "iad-vsdc0", "iad-vsdc1", "iad-vsdc2", "iad-vsdc3", "iad-vsdc4", "iad-unknown", "iad-invalid"}; }
const char* vh_rule() { return "one case = one (family of) AID/AFL/CVM list/IAD value decoded by the library and judged against the independent tables and rules in h_fields.cpp; non-trivial = recognised AIDs, fully decoded lists and recognised IAD formats"; }
