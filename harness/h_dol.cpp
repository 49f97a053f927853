// C03: DOL iteration, length and data building against EMV Book 3, 5.4
#include "vh.hpp"
#include "ref_ber.hpp"
extern "C" {
#include "emv_dol.h"
#include "emv_tlv.h"
}
// EMV Book 3 Annex A1: format n, source Terminal
static const std::set<uint32_t> TERM_N = {0x9A, 0x9C, 0x5F2A, 0x5F36, 0x5F57, 0x9F01, 0x9F02, 0x9F03, 0x9F15, 0x9F1A, 0x9F21, 0x9F35, 0x9F39, 0x9F3C, 0x9F3D, 0x9F41};
// other data a terminal may be asked for (formats b, an, ans)
static const uint32_t OTHER[] = {0x81, 0x95, 0x9B, 0x9F04, 0x9F06, 0x9F09, 0x9F16, 0x9F1B, 0x9F1C, 0x9F1E, 0x9F33, 0x9F34, 0x9F37, 0x9F3A, 0x9F40, 0x9F4E, 0x9F53, 0x9F66, 0x9F7A, 0x8A, 0xDF8101, 0x9F81017F, 0xC1, 0x1F7F};
struct E { uint32_t tag; unsigned len; };
struct Src { std::vector<std::pair<uint32_t, Bytes>> f; };

static uint32_t any_tag(Rng& r)
{
	if (r.chance(45)) { auto it = TERM_N.begin(); std::advance(it, r.below(TERM_N.size())); return *it; }
	return r.pick(OTHER);
}
static bool model_parse(const Bytes& d, std::vector<E>& out)
{
	size_t p = 0;
	while (p < d.size()) {
		uint32_t t = 0; int64_t k = ref_ber_tag(d.data() + p, d.size() - p, t);
		if (k <= 0 || p + k >= d.size()) return false;
		out.push_back({t, d[p + k]}); p += k + 1;
	}
	return true;
}
static void s_build(Rng& r, uint64_t)
{
	Bytes dol; unsigned n = 1 + r.below(r.chance(90) ? 8 : 40); bool wide = r.chance(1); if (wide) n = 250 + r.below(400);
	std::vector<uint32_t> used;
	for (unsigned i = 0; i < n; ++i) {
		uint32_t t = (!used.empty() && r.chance(10)) ? r.pick(used) : any_tag(r);
		used.push_back(t); enc_tag(dol, t);
		dol.push_back(wide && n > 400 ? 255 - r.below(3) : r.chance(10) ? 0 : r.chance(90) ? 1 + r.below(12) : r.chance(50) ? r.u8() : (uint8_t)(r.chance(50) ? 0xFF : 0x80));
	}
	bool mutated = r.chance(15);
	if (mutated) mutate(r, dol);
	if (dol.empty()) return;
	std::vector<E> es; bool ok = model_parse(dol, es);
	for (auto& e : es) if (!TERM_N.count(e.tag) && std::find(std::begin(OTHER), std::end(OTHER), e.tag) == std::end(OTHER)) { /* absent from all sources: zeros */ }
	// iterator
	Exact d(dol);
	vh_note("dol=%s ", vh_hex(dol).c_str());
	{
		struct emv_dol_itr_t it; VH_CHECK(emv_dol_itr_init(d.p, d.n, &it) == 0, "itr-init", "failed");
		struct emv_dol_entry_t en; size_t i = 0; int rr;
		while ((rr = emv_dol_itr_next(&it, &en)) > 0) {
			VH_CHECK(i < es.size() && en.tag == es[i].tag && en.length == es[i].len, "itr-entry", "entry %zu is %X[%u]", i, en.tag, en.length);
			VH_DEFINED(&en, sizeof en, "entry");
			++i; vh_obs("entry");
		}
		VH_CHECK((rr == 0) == ok && i == es.size(), "itr-end", "ended with %d after %zu, model %s %zu", rr, i, ok ? "ok" : "malformed", es.size());
	}
	size_t total = 0; for (auto& e : es) total += e.len;
	int cl = emv_dol_compute_data_length(d.p, d.n);
	VH_CHECK(ok ? cl == (int)total : cl < 0, "compute-length", "computed %d, model %s %zu for %s", cl, ok ? "ok" : "malformed", total, vh_hex(dol).c_str());
	// sources
	unsigned ns = wide && r.chance(20) ? 257 + r.below(50) : 1 + r.below(4); if (n > 256) vh_obs("many-entries"); if (total > 65535) vh_obs("long-data"); if (ns > 256) vh_obs("many-sources");
	std::vector<Src> src(ns); std::vector<struct emv_tlv_list_t> lists(ns); std::vector<const struct emv_tlv_list_t*> ptrs;
	for (unsigned s = 0; s < ns; ++s) {
		lists[s] = EMV_TLV_LIST_INIT;
		unsigned k = r.below(10);
		for (unsigned j = 0; j < k; ++j) {
			uint32_t t = r.chance(75) && !used.empty() ? r.pick(used) : any_tag(r);
			unsigned want = 4; for (auto& e : es) if (e.tag == t) want = e.len;
			unsigned len = r.chance(40) ? want : r.chance(70) ? (unsigned)std::max<int64_t>(0, (int64_t)want + r.range(-3, 3)) : r.below(20);
			if (r.chance(3)) len = r.chance(5) ? 65536 + r.below(6) : 256 + r.below(300);
			Bytes v = r.bytes(len); for (auto& x : v) if (!x) x = 0x5A; // zeros only come from padding
			src[s].f.push_back({t, v});
			emv_tlv_list_push(&lists[s], t, v.size(), v.data(), 0);
		}
	}
	for (auto& x : lists) ptrs.push_back(&x);
	// model of the data
	Bytes want;
	for (auto& e : es) {
		const Bytes* v = NULL;
		for (auto& s : src) { for (auto& f : s.f) if (f.first == e.tag) { v = &f.second; break; } if (v) break; }
		Bytes o(e.len, 0);
		if (!v) vh_obs("absent");
		else if (TERM_N.count(e.tag)) {
			// right justified
			for (unsigned i = 0; i < e.len && i < v->size(); ++i) o[e.len - 1 - i] = (*v)[v->size() - 1 - i];
			vh_obs(v->size() == e.len ? "exact" : v->size() > e.len ? "n-truncated" : "n-padded");
		} else {
			for (unsigned i = 0; i < e.len && i < v->size(); ++i) o[i] = (*v)[i];
			vh_obs(v->size() == e.len ? "exact" : v->size() > e.len ? "truncated" : "padded");
		}
		cat(want, o);
	}
	size_t cap = r.chance(50) ? total : r.chance(60) ? total + r.below(20) : r.below(total + 1);
	if (!cap) cap = 1;
	Exact out(cap);
	size_t len = cap;
	int rr = emv_dol_build_data(d.p, d.n, ptrs.data(), ptrs.size(), out.p, &len);
	if (!ok) { vh_obs("malformed"); VH_CHECK(rr != 0, "build-malformed", "malformed DOL %s accepted", vh_hex(dol).c_str()); }
	else if (total > cap) { vh_obs("too-small"); VH_CHECK(rr > 0, "build-too-small", "returned %d for %zu bytes into %zu", rr, total, cap); }
	else {
		VH_CHECK(rr == 0, "build", "returned %d for DOL %s", rr, vh_hex(dol).c_str());
		VH_CHECK(len == total, "build-length", "length %zu, model %zu", len, total);
		VH_CHECK(!memcmp(out.p, want.data(), total), "build-data", "DOL %s: got %s, model %s", vh_hex(dol).c_str(), vh_hex(out.p, total).c_str(), vh_hex(want).c_str());
		for (size_t i = total; i < cap; ++i) VH_CHECK(out.p[i] == 0xA5, "build-beyond", "byte %zu beyond the data was written", i);
		VH_DEFINED(out.p, total, "dol-data");
		vh_obs("built"); vh_distinct(vh_hash(dol, vh_hash(want)));
		vh_sample("dol " + vh_hex(dol) + " -> " + vh_hex(want));
	}
	// sources unchanged
	for (unsigned s = 0; s < ns; ++s) {
		size_t i = 0;
		for (struct emv_tlv_t* t = lists[s].front; t; t = t->next, ++i) VH_CHECK(i < src[s].f.size() && t->tag == src[s].f[i].first && t->length == src[s].f[i].second.size() && !memcmp(t->value, src[s].f[i].second.data(), t->length), "source-intact", "source changed");
		VH_CHECK(i == src[s].f.size(), "source-intact", "source changed");
		emv_tlv_list_clear(&lists[s]);
	}
	vh_alloc_expect_none("leak");
}
static void s_tags(Rng&, uint64_t i)
{
	// every 1 and 2 byte tag value: right justification is for terminal numeric data only
	VH_CHECK(emv_tlv_is_terminal_format_n(i) == (TERM_N.count(i) != 0), "terminal-n-table", "tag %lX", (unsigned long)i);
}
static void s_small(Rng& r, uint64_t i)
{
	Bytes b; static const uint8_t al[] = {0x00, 0x01, 0x1F, 0x5F, 0x7F, 0x80, 0x81, 0x9A, 0x9F, 0xFF};
	uint64_t x = i, cnt = 1, n; for (n = 0;; ++n) { if (x < cnt) break; x -= cnt; cnt *= 10; }
	for (uint64_t k = 0; k < n; ++k) { b.push_back(al[x % 10]); x /= 10; }
	if (b.empty()) return;
	std::vector<E> es; bool ok = model_parse(b, es); size_t total = 0; for (auto& e : es) total += e.len;
	Exact d(b);
	int cl = emv_dol_compute_data_length(d.p, d.n);
	VH_CHECK(ok ? cl == (int)total : cl < 0, "compute-length", "computed %d, model %s %zu for %s", cl, ok ? "ok" : "malformed", total, vh_hex(b).c_str());
	struct emv_dol_entry_t en; int rr = emv_dol_decode(d.p, d.n, &en);
	uint32_t t = 0; int64_t k = ref_ber_tag(b.data(), b.size(), t);
	bool good = k > 0 && (size_t)k < b.size();
	VH_CHECK(good ? (rr == k + 1 && en.tag == t && en.length == b[k]) : rr < 0, "decode-entry", "decode returned %d for %s", rr, vh_hex(b).c_str());
}
static void s_args(Rng&, uint64_t)
{
	struct emv_tlv_list_t l = EMV_TLV_LIST_INIT; const struct emv_tlv_list_t* s[2] = {&l, NULL}; uint8_t d[2] = {0x9A, 3}, o[8]; size_t n = 8; struct emv_dol_entry_t e; struct emv_dol_itr_t it;
	VH_CHECK(emv_dol_build_data(NULL, 2, s, 1, o, &n) != 0 && emv_dol_build_data(d, 0, s, 1, o, &n) != 0 && emv_dol_build_data(d, 2, NULL, 1, o, &n) != 0 && emv_dol_build_data(d, 2, s, 0, o, &n) != 0 && emv_dol_build_data(d, 2, s, 1, NULL, &n) != 0 && emv_dol_build_data(d, 2, s, 1, o, NULL) != 0 && emv_dol_build_data(d, 2, s, 2, o, &n) != 0, "null-args", "build accepted invalid arguments");
	VH_CHECK(emv_dol_compute_data_length(NULL, 2) < 0 && emv_dol_decode(NULL, 2, &e) < 0 && emv_dol_decode(d, 2, NULL) < 0 && emv_dol_itr_init(NULL, 2, &it) != 0 && emv_dol_itr_init(d, 2, NULL) != 0 && emv_dol_itr_next(NULL, &e) < 0, "null-args", "NULL accepted");
}
std::vector<Suite> vh_suites() { return {{"build", 0, 3, s_build}, {"tags", 65536, 0, s_tags}, {"small", 1 + 10 + 100 + 1000 + 10000 + 100000, 0, s_small}, {"args", 1, 0, s_args}}; }
std::vector<std::string> vh_required() { return {"entry", "absent", "exact", "n-truncated", "n-padded", "truncated", "padded", "malformed", "too-small", "built", "many-entries", "long-data", "many-sources"}; }
const char* vh_rule() { return "generated DOLs (1-40 entries, duplicates, zero lengths, mutated) with 1-4 sources whose values are equal/shorter/longer than requested, outputs exact/larger/too small; all strings of length<=5 over a 10-byte alphabet; non-trivial = distinct (DOL, data) built"; }
