// C02: TLV lists as ordered owned sequences; flattening parse
#include "vh.hpp"
#include "ref_ber.hpp"
extern "C" {
#include "emv_tlv.h"
}
struct F { uint32_t tag; Bytes v; uint8_t flags; };
typedef std::vector<F> Seq;

static void same(const struct emv_tlv_list_t* l, const Seq& m, const char* after)
{
	size_t i = 0; const struct emv_tlv_t* last = NULL;
	VH_CHECK(emv_tlv_list_is_empty(l) == m.empty(), "is-empty", "after %s: empty=%d model has %zu", after, emv_tlv_list_is_empty(l), m.size());
	for (const struct emv_tlv_t* t = l->front; t; t = t->next, ++i) {
		VH_CHECK(i < m.size(), "order", "after %s: list longer than model (%zu)", after, m.size());
		VH_CHECK(t->tag == m[i].tag && t->length == m[i].v.size() && t->flags == m[i].flags && (!t->length || !memcmp(t->value, m[i].v.data(), t->length)), "content",
			"after %s: field %zu is %X[%u] flags %02X, model %X[%zu] flags %02X", after, i, t->tag, t->length, t->flags, m[i].tag, m[i].v.size(), m[i].flags);
		last = t;
	}
	VH_CHECK(i == m.size(), "order", "after %s: list has %zu fields, model %zu", after, i, m.size());
	VH_CHECK(l->back == last, "back", "after %s: back does not refer to the last field", after);
	std::set<uint32_t> s; bool dup = false;
	for (auto& f : m) if (!s.insert(f.tag).second) dup = true;
	VH_CHECK(emv_tlv_list_has_duplicate(l) == dup, "duplicate", "after %s: has_duplicate=%d model %d", after, emv_tlv_list_has_duplicate(l), dup);
	vh_obs("state-compared");
}

static int flatten(const uint8_t* b, size_t n, Seq& out, bool& unspec)
{
	size_t pos = 0;
	for (;;) {
		RefTlv m = ref_ber(b + pos, n - pos);
		if (m.r == REF_UNSPEC) { unspec = true; return 1; }
		if (m.r == 0) return 0;
		if (m.r < 0) return 1;
		if (m.flags & 0x20) { if (flatten(b + pos + m.hdr, m.length, out, unspec)) return 1; }
		else out.push_back({m.tag, Bytes(b + pos + m.hdr, b + pos + m.hdr + m.length), 0});
		pos += m.r;
	}
}

static Bytes gen_ber(Rng& r)
{
	Bytes b; unsigned k = r.below(5); bool nonmin = r.chance(30), indef = r.chance(30);
	if (r.chance(1)) { // sizes and counts beyond one and two bytes
		unsigned n = r.pick({1u, 2u, 3u, 257u, 300u, 600u}); for (unsigned i = 0; i < n; ++i) cat(b, enc_tlv(r.chance(50) ? 0x9F02 : 0xDF8000 + i % 0x7F, r.bytes(n < 4 ? r.pick({255u, 256u, 257u, 65535u, 65536u, (unsigned)r.below(140000)}) : r.below(4))));
		vh_obs(n < 4 ? "parse-big-values" : "parse-many-fields"); return r.chance(30) ? enc_tlv(0x70, enc_tlv(0xE1, b)) : b;
	}
	for (unsigned i = 0; i < k; ++i) { TreeNode n = gen_node(r, 3, indef); cat(b, enc_node(r, n, nonmin)); }
	return b;
}
static uint32_t some_tag(Rng& r)
{
	static const uint32_t t[] = {0x50, 0x57, 0x5A, 0x82, 0x94, 0x9F02, 0x9F03, 0x5F2A, 0x9A, 0x9F1A, 0xDFDF01, 0x9F8102, 0x01, 0xFFFFFFFF, 0x0, 0x9F};
	return r.chance(85) ? r.pick(t) : gen_tag(r, r.chance(10));
}

static void s_ops(Rng& r, uint64_t)
{
	const int L = 3;
	struct emv_tlv_list_t l[L]; Seq m[L];
	for (auto& x : l) x = EMV_TLV_LIST_INIT;
	std::vector<std::pair<struct emv_tlv_t*, F>> popped;
	unsigned steps = 1 + r.below(40); bool lng = r.chance(1), uniq = lng && r.chance(60), huge = r.chance(2);
	if (lng) steps = 300 + r.below(500);
	uint64_t sig = 0;
	std::string h;
	auto cleanup = [&]() { for (auto& x : l) emv_tlv_list_clear(&x); for (auto& p : popped) emv_tlv_free(p.first); popped.clear(); };
	for (unsigned s = 0; s < steps; ++s) {
		int a = r.below(L), b = r.below(L);
		unsigned op = r.below(100);
		sig = sig * 131 + op / 4 * 9 + a * 3 + b;
		if (lng && op >= 45 && op < 92 && r.chance(90)) op = r.below(45);
		if (op < 45) {
			if (lng) a = r.chance(80) ? 0 : a;
			F f{uniq && !r.chance(1) ? 0xDF8000u + s : some_tag(r), r.bytes(r.chance(15) ? 0 : huge && r.chance(10) ? r.pick({256u, 65535u, 65536u, 65537u, (unsigned)r.below(140000)}) : r.below(r.chance(95) ? 10 : 300)), r.u8()};
			// nearly the tag of a field that is there
			if (uniq && !m[a].empty() && r.chance(25)) { uint32_t t = r.pick(m[a]).tag ^ (r.chance(50) ? 1u << r.below(32) : 0xFFu << 8 * r.below(4)); bool in = false; for (auto& v : m) for (auto& q : v) if (q.tag == t) in = true; if (!in) { f.tag = t; vh_obs("near-tag"); } }
			if (f.v.size() > 65535) vh_obs("push-64k"); if (m[a].size() > 256) vh_obs("push-to-long-list");
			{
				Exact e(f.v);
				int rr = emv_tlv_list_push(&l[a], f.tag, e.n, e.p, f.flags);
				VH_CHECK(rr == 0, "push", "push returned %d", rr);
				e.own(); memset(e.p, 0xEE, e.n); // the list must own a copy
			}
			m[a].push_back(f); vh_obs("push");
			same(&l[a], m[a], "push");
		} else if (op < 65) {
			struct emv_tlv_t* t = emv_tlv_list_pop(&l[a]);
			VH_CHECK((t != NULL) == !m[a].empty(), "pop", "pop %p, model has %zu", (void*)t, m[a].size());
			if (t) {
				F f = m[a].front(); m[a].erase(m[a].begin());
				VH_CHECK(t->tag == f.tag && t->length == f.v.size() && (!t->length || !memcmp(t->value, f.v.data(), t->length)) && t->flags == f.flags && t->next == NULL, "pop-front", "popped %X, model front %X", t->tag, f.tag);
				if (r.chance(50)) popped.push_back({t, f}); else VH_CHECK(emv_tlv_free(t) == 0, "free", "free of popped field refused");
				vh_obs("pop");
			} else vh_obs("pop-empty");
			same(&l[a], m[a], "pop");
		} else if (op < 80) {
			if (a == b) continue;
			int rr = emv_tlv_list_append(&l[a], &l[b]);
			VH_CHECK(rr == 0, "append", "append returned %d", rr);
			vh_obs(m[a].empty() ? (m[b].empty() ? "append:e+e" : "append:e+n") : (m[b].empty() ? "append:n+e" : "append:n+n"));
			for (auto& f : m[b]) m[a].push_back(f);
			m[b].clear();
			same(&l[a], m[a], "append"); same(&l[b], m[b], "append(source)");
		} else if (op < 88) {
			uint32_t t = !m[a].empty() && r.chance(30) ? r.pick(m[a]).tag ^ (r.chance(30) ? 0u : 1u << r.below(32)) : some_tag(r);
			struct emv_tlv_t* x = emv_tlv_list_find(&l[a], t);
			size_t i = 0; while (i < m[a].size() && m[a][i].tag != t) ++i;
			size_t k = 0; struct emv_tlv_t* y = l[a].front; while (y && k < i) { y = y->next; ++k; }
			VH_CHECK(x == (i < m[a].size() ? y : NULL), "find", "find %X did not return the first match (%zu of %zu)", t, i, m[a].size());
			vh_obs(x ? "find-hit" : "find-miss");
			same(&l[a], m[a], "find");
		} else if (op < 92) {
			emv_tlv_list_clear(&l[a]); m[a].clear(); same(&l[a], m[a], "clear"); vh_obs("clear");
		} else {
			Bytes in = gen_ber(r); if (r.chance(30)) mutate(r, in);
			if (in.empty()) continue;
			Seq add; bool un = false;
			Exact e(in);
			vh_note("parse %s ", vh_hex(in).c_str());
			int mr = flatten(e.p, e.n, add, un);
			int rr = emv_tlv_parse(e.p, e.n, &l[a]);
			if (un) { cleanup(); return; }
			VH_CHECK((rr == 0) == (mr == 0), "parse-accept", "parse returned %d, model %d for %s", rr, mr, vh_hex(in).c_str());
			if (rr == 0) { for (auto& f : add) m[a].push_back(f); vh_obs("parse-ok"); same(&l[a], m[a], "parse"); }
			else {
				// fields decoded before the error may stay; the earlier ones must be intact
				vh_obs("parse-error");
				size_t k = 0; for (struct emv_tlv_t* t = l[a].front; t; t = t->next, ++k) {
					const F* f = k < m[a].size() ? &m[a][k] : k - m[a].size() < add.size() ? &add[k - m[a].size()] : NULL;
					VH_CHECK(f && t->tag == f->tag && t->length == f->v.size() && (!t->length || !memcmp(t->value, f->v.data(), t->length)), "parse-error-state", "unexpected field %zu (%X) after rejected data %s", k, t->tag, vh_hex(in).c_str());
				}
				VH_CHECK(k >= m[a].size(), "parse-error-state", "fields lost after rejected data");
				emv_tlv_list_clear(&l[a]); m[a].clear(); same(&l[a], m[a], "clear after rejected data");
			}
		}
	}
	// fields taken out earlier are independent of the lists
	for (auto& x : l) emv_tlv_list_clear(&x);
	for (auto& p : popped) {
		VH_CHECK(p.first->tag == p.second.tag && p.first->length == p.second.v.size() && (!p.first->length || !memcmp(p.first->value, p.second.v.data(), p.first->length)), "popped-owned", "popped field changed");
		VH_CHECK(emv_tlv_free(p.first) == 0, "free", "free refused");
	}
	popped.clear();
	vh_alloc_expect_none("leak");
	vh_distinct(sig);
}

static void s_parse(Rng& r, uint64_t i)
{
	Bytes in = gen_ber(r);
	switch (i % 4) { case 1: case 2: mutate(r, in); break; case 3: if (r.chance(30)) in = r.bbytes(r.below(60)); break; default: break; }
	if (in.empty()) return;
	Exact e(in); Seq m; bool un = false;
	vh_note("parse %s ", vh_hex(in).c_str());
	int mr = flatten(e.p, e.n, m, un);
	struct emv_tlv_list_t l = EMV_TLV_LIST_INIT;
	int rr = emv_tlv_parse(e.p, e.n, &l);
	if (!un) {
		VH_CHECK((rr == 0) == (mr == 0), "parse-accept", "parse returned %d, model %d for %s", rr, mr, vh_hex(in).c_str());
		if (!rr) { same(&l, m, "parse"); vh_obs("parse-ok"); vh_obs("fields-parsed", m.size()); vh_sample("parse " + vh_hex(in)); vh_distinct(vh_hash(in)); } else vh_obs("parse-error");
	}
	emv_tlv_list_clear(&l);
	vh_alloc_expect_none("leak");
}
static void s_edge(Rng&, uint64_t)
{
	struct emv_tlv_list_t l = EMV_TLV_LIST_INIT;
	VH_CHECK(emv_tlv_list_pop(&l) == NULL && emv_tlv_list_find(&l, 0x50) == NULL && emv_tlv_list_is_empty(&l) && !emv_tlv_list_has_duplicate(&l), "empty", "empty list");
	VH_CHECK(emv_tlv_list_push(NULL, 1, 0, NULL, 0) != 0 && emv_tlv_list_pop(NULL) == NULL && emv_tlv_list_find(NULL, 1) == NULL && emv_tlv_list_is_empty(NULL) && emv_tlv_free(NULL) != 0 && emv_tlv_list_append(&l, NULL) != 0 && emv_tlv_list_append(NULL, &l) != 0, "null-args", "NULL list accepted");
	uint8_t v[3] = {1, 2, 3};
	emv_tlv_list_push(&l, 0x50, 3, v, 0); emv_tlv_list_push(&l, 0x51, 3, v, 0);
	VH_CHECK(emv_tlv_free(l.front) != 0, "free-in-list", "field that is part of a list was freed");
	VH_CHECK(emv_tlv_parse(NULL, 3, &l) != 0, "null-args", "NULL data parsed");
	emv_tlv_list_clear(&l); emv_tlv_list_clear(&l);
	vh_alloc_expect_none("leak");
}
std::vector<Suite> vh_suites() { return {{"ops", 0, 1, s_ops}, {"parse", 0, 2, s_parse}, {"edge", 1, 0, s_edge}}; }
std::vector<std::string> vh_required() { return {"state-compared", "push", "pop", "pop-empty", "append:e+e", "append:e+n", "append:n+e", "append:n+n", "find-hit", "find-miss", "clear", "parse-ok", "parse-error", "push-64k", "parse-big-values", "parse-many-fields", "push-to-long-list", "check:leak-free"}; }
const char* vh_rule() { return "random histories (1-40 operations on three lists) compared with sequence model after every step, and generated/mutated BER trees flattened; non-trivial = distinct operation history or accepted encoding"; }
