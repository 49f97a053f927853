// C01: BER decoding (tag, TLV, iterator, OID, string predicate) against the X.690 model
#include "vh.hpp"
#include "ref_ber.hpp"
extern "C" {
#include "iso8825_ber.h"
}

static void compare_decode(const Bytes& in)
{
	Exact e(in);
	vh_note("in=%s ", vh_hex(in.data(), std::min<size_t>(in.size(), 300)).c_str());
	RefTlv m = ref_ber(e.p, e.n);
	struct iso8825_tlv_t t; memset(&t, 0xA5, sizeof t);
	int r = iso8825_ber_decode(e.p, e.n, &t);
	if (m.r == REF_UNSPEC) { vh_obs("unspecified"); return; }
	VH_CHECK((r > 0) == (m.r > 0) && (r == 0) == (m.r == 0), "ber-accept", "decode returned %d, model %ld for %s", r, (long)m.r, vh_hex(in).c_str());
	if (m.r > 0) {
		vh_obs(in.size() && m.hdr && e.p[m.hdr - 1] == 0x80 && m.r != (int64_t)(m.hdr + m.length) ? "accepted-indefinite" : "accepted");
		VH_CHECK(r == m.r, "ber-consumed", "consumed %d, model %ld for %s", r, (long)m.r, vh_hex(in).c_str());
		VH_CHECK(t.tag == m.tag, "ber-tag", "tag %X, model %X for %s", t.tag, m.tag, vh_hex(in).c_str());
		VH_CHECK(t.length == m.length, "ber-length", "length %u, model %zu for %s", t.length, m.length, vh_hex(in).c_str());
		VH_CHECK(t.value == e.p + m.hdr, "ber-value", "value at %ld, model %zu for %s", (long)(t.value - e.p), m.hdr, vh_hex(in).c_str());
		VH_CHECK(iso8825_ber_get_class(&t) == (m.flags & 0xC0) && iso8825_ber_is_constructed(&t) == ((m.flags & 0x20) != 0), "ber-class", "flags %02X, model %02X", t.flags, m.flags);
		VH_DEFINED(&t.tag, sizeof t.tag, "tlv"); VH_DEFINED(&t.length, sizeof t.length, "tlv"); VH_DEFINED(&t.value, sizeof t.value, "tlv"); VH_DEFINED(&t.flags, 1, "tlv");
		static const std::set<uint32_t> strtags = {7, 12, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 30};
		VH_CHECK(iso8825_ber_is_string(&t) == (strtags.count(t.tag) != 0), "ber-is-string", "tag %X", t.tag);
	} else vh_obs(m.r == 0 ? "end" : "rejected");
	uint32_t mt = 0; unsigned int gt = 0;
	int64_t mk = ref_ber_tag(e.p, e.n, mt);
	int k = iso8825_ber_tag_decode(e.p, e.n, &gt);
	VH_CHECK((k > 0) == (mk > 0) && (k == 0) == (mk == 0) && (mk <= 0 || (k == mk && gt == mt)), "ber-tag-decode", "tag decode %d %X, model %ld %X for %s", k, gt, (long)mk, mt, vh_hex(in).c_str());
}

static void compare_iter(const Bytes& in)
{
	Exact e(in);
	struct iso8825_ber_itr_t itr;
	VH_CHECK(iso8825_ber_itr_init(e.p, e.n, &itr) == 0, "itr-init", "init failed");
	size_t pos = 0; unsigned n = 0;
	for (;;) {
		RefTlv m = ref_ber(e.p + pos, e.n - pos);
		if (m.r == REF_UNSPEC) return;
		struct iso8825_tlv_t t; memset(&t, 0xA5, sizeof t);
		int r = iso8825_ber_itr_next(&itr, &t);
		VH_CHECK(m.r < 0 ? r < 0 : r == m.r, "itr-next", "element %u at offset %zu: iterator %d, model %ld for %s", n, pos, r, (long)m.r, vh_hex(in).c_str());
		if (m.r <= 0) {
			// a failed or finished iterator stays where it is
			int r2 = iso8825_ber_itr_next(&itr, &t);
			VH_CHECK(m.r < 0 ? r2 < 0 : r2 == 0, "itr-sticky", "second call after end/error returned %d (first %d)", r2, r);
			break;
		}
		VH_CHECK(t.tag == m.tag && t.length == m.length && t.value == e.p + pos + m.hdr, "itr-element", "element %u: tag %X len %u at %ld, model %X %zu at %zu for %s", n, t.tag, t.length, (long)(t.value - e.p), m.tag, m.length, pos + m.hdr, vh_hex(in).c_str());
		pos += m.r; ++n;
		vh_obs("element");
	}
	vh_obs(n > 1 ? "sequence>1" : "sequence<=1");
	vh_distinct(vh_hash(in));
}

// all 1..3 byte inputs over a boundary alphabet + all single tag/length bytes
static const uint8_t alpha[] = {0x00, 0x01, 0x02, 0x03, 0x1E, 0x1F, 0x20, 0x3F, 0x5F, 0x7F, 0x80, 0x81, 0x82, 0x83, 0x84, 0x85, 0x9F, 0xBF, 0xDF, 0xFF};
static const uint64_t NA = sizeof(alpha);
static void s_small(Rng&, uint64_t i)
{
	Bytes b; uint64_t n = 1, x = i;
	uint64_t cnt = 1;
	for (n = 0; ; ++n) { if (x < cnt) break; x -= cnt; cnt *= NA; }
	for (uint64_t k = 0; k < n; ++k) { b.push_back(alpha[x % NA]); x /= NA; }
	compare_decode(b);
	compare_iter(b);
}
static void s_twobyte(Rng& r, uint64_t i)
{
	// every tag byte x every length byte followed by content of about the right size
	Bytes b = {(uint8_t)(i >> 8), (uint8_t)i};
	size_t want = (i & 0xFF) & 0x7F;
	size_t n = want + (size_t)r.range(0, 2); n = n ? n - 1 : 0;
	cat(b, r.bbytes(n));
	compare_decode(b);
}
static void s_lens(Rng& r, uint64_t)
{
	// boundary lengths, all length forms, content one short / exact / one more
	static const size_t L[] = {0, 1, 2, 126, 127, 128, 129, 254, 255, 256, 257, 65534, 65535, 65536, 65537};
	size_t len = r.chance(80) ? L[r.below(13)] : L[r.below(15)];
	if (r.chance(20)) len = r.below(700);
	int min = len < 128 ? 0 : len <= 0xFF ? 1 : len <= 0xFFFF ? 2 : 3;
	int form = r.chance(50) ? min : min == 0 ? (int)r.range(1, 4) : (int)r.range(min, 4);
	Bytes b; enc_tag(b, gen_tag(r, r.chance(30), r.chance(5))); enc_len(b, len, form);
	int64_t have = (int64_t)len + r.range(-1, 2); if (have < 0) have = 0;
	Bytes v((size_t)have, r.u8()); cat(b, v);
	vh_obs(have < (int64_t)len ? "length-beyond-input" : "length-fits");
	compare_decode(b);
	vh_distinct(vh_hash(b));
}
static void s_hugelen(Rng& r, uint64_t)
{
	// long lengths with few bytes behind them
	Bytes b; enc_tag(b, gen_tag(r, r.chance(50), false));
	unsigned cnt = r.chance(80) ? 1 + r.below(5) : r.below(128);
	b.push_back(0x80 | cnt);
	unsigned put = r.chance(80) ? cnt : r.below(cnt + 1);
	for (unsigned i = 0; i < put; ++i) b.push_back(r.chance(50) ? (r.chance(50) ? 0xFF : 0x00) : r.u8());
	cat(b, r.bbytes(r.below(20)));
	compare_decode(b);
	compare_iter(b);
}
static void s_tree(Rng& r, uint64_t)
{
	Bytes b; unsigned k = 1 + r.below(4);
	std::vector<TreeNode> nodes;
	bool nonmin = r.chance(40);
	for (unsigned i = 0; i < k; ++i) { nodes.push_back(gen_node(r, 3, true)); cat(b, enc_node(r, nodes.back(), nonmin)); }
	if (r.chance(35)) mutate(r, b);
	else {
		// generator knows what must come out, independent of the decoder model
		Exact e(b); struct iso8825_ber_itr_t it; iso8825_ber_itr_init(e.p, e.n, &it);
		for (auto& n : nodes) {
			struct iso8825_tlv_t t; memset(&t, 0xA5, sizeof t);
			int rr = iso8825_ber_itr_next(&it, &t);
			VH_CHECK(rr > 0 && t.tag == n.tag && t.length == n.length && iso8825_ber_is_constructed(&t) == n.cons, "roundtrip", "rr=%d tag %X/%X len %u/%zu in %s", rr, t.tag, n.tag, t.length, n.length, vh_hex(b).c_str());
			if (!n.cons) VH_CHECK(!memcmp(t.value, n.val.data(), n.val.size()), "roundtrip-value", "value differs");
			if (n.indef) vh_obs("roundtrip-indefinite");
		}
		struct iso8825_tlv_t t;
		VH_CHECK(iso8825_ber_itr_next(&it, &t) == 0, "roundtrip-end", "no end of data after last element of %s", vh_hex(b).c_str());
	}
	vh_sample("ber " + vh_hex(b));
	compare_decode(b);
	compare_iter(b);
}
static void s_random(Rng& r, uint64_t)
{
	Bytes b = r.bbytes(r.below(r.chance(90) ? 40 : 600));
	compare_decode(b);
	compare_iter(b);
}
static void s_nest(Rng& r, uint64_t)
{
	// nested indefinite/definite templates, EOC at any depth
	Bytes b; unsigned d = 1 + r.below(12);
	for (unsigned i = 0; i < d; ++i) { enc_tag(b, gen_tag(r, true)); b.push_back(0x80); if (r.chance(30)) cat(b, enc_tlv(gen_tag(r, false), r.bytes(r.below(4)))); }
	unsigned eocs = r.chance(70) ? d : r.below(d + 3);
	for (unsigned i = 0; i < eocs; ++i) { b.push_back(0); b.push_back(0); if (r.chance(25)) cat(b, enc_tlv(gen_tag(r, false), r.bytes(r.below(4)))); }
	compare_decode(b);
	compare_iter(b);
}

// ---- OID ----
static void oid_check(const Bytes& in)
{
	vh_note("oid=%s ", vh_hex(in).c_str());
	// model
	std::vector<uint64_t> sub; bool bad = false, big = false; size_t i = 0;
	while (i < in.size()) {
		uint64_t v = 0; bool last = false; 
		while (i < in.size() && !last) { if (v >> 57) big = true; v = v << 7 | (in[i] & 0x7F); last = !(in[i] & 0x80); ++i; }
		if (!last) bad = true;
		if (v > 0xFFFFFFFFull) big = true;
		sub.push_back(v);
	}
	std::vector<uint64_t> oid;
	if (!sub.empty()) { uint64_t a = sub[0] < 40 ? 0 : sub[0] < 80 ? 1 : 2; oid.push_back(a); oid.push_back(sub[0] - a * 40); for (size_t k = 1; k < sub.size(); ++k) oid.push_back(sub[k]); }
	Exact e(in);
	Exact out(sizeof(struct iso8825_oid_t));
	struct iso8825_oid_t* o = (struct iso8825_oid_t*)out.p;
	int r = iso8825_ber_oid_decode(e.p, e.n, o);
	bool ok = !in.empty() && !bad && !big && oid.size() <= 10;
	VH_CHECK((r == 0) == ok, "oid-accept", "returned %d but %s expected for %s", r, ok ? "success" : "rejection", vh_hex(in).c_str());
	if (ok) {
		vh_obs("oid-accepted");
		VH_CHECK(o->length == oid.size(), "oid-length", "%u components, model %zu for %s", o->length, oid.size(), vh_hex(in).c_str());
		for (size_t k = 0; k < oid.size(); ++k) VH_CHECK(o->value[k] == oid[k], "oid-value", "component %zu is %u, model %lu for %s", k, o->value[k], (unsigned long)oid[k], vh_hex(in).c_str());
		vh_distinct(vh_hash(in, 77));
	} else vh_obs("oid-rejected");
}
static void s_oid(Rng& r, uint64_t)
{
	Bytes b;
	unsigned n = r.below(r.chance(80) ? 10 : 14);
	for (unsigned i = 0; i <= n; ++i) {
		uint32_t v;
		switch (r.below(6)) { case 0: v = r.below(128); break; case 1: v = r.below(20000); break; case 2: v = r.u32(); break;
			case 3: v = (uint32_t)r.pick({0, 1, 39, 40, 79, 80, 119, 120, 127, 128}); break; case 4: v = r.pick({16383u, 16384u, 2097151u, 2097152u, 268435455u, 268435456u, 4294967295u}); break; default: v = r.below(300); }
		Bytes t; t.push_back(v & 0x7F); while (v >>= 7) t.insert(t.begin(), 0x80 | (v & 0x7F));
		cat(b, t);
	}
	if (r.chance(30)) mutate(r, b);
	if (r.chance(5)) b = r.bbytes(r.below(60));
	oid_check(b);
}
static void s_oid1(Rng&, uint64_t i) { Bytes b = {(uint8_t)i}; if (i >= 256) b = {(uint8_t)((i - 256) >> 8), (uint8_t)(i - 256)}; oid_check(b); }
static void s_args(Rng& r, uint64_t)
{
	struct iso8825_tlv_t t; unsigned tag; struct iso8825_ber_itr_t it; struct iso8825_oid_t o; Exact e(r.bytes(4));
	VH_CHECK(iso8825_ber_decode(NULL, 4, &t) < 0 && iso8825_ber_decode(e.p, 4, NULL) < 0, "null-args", "decode");
	VH_CHECK(iso8825_ber_tag_decode(NULL, 4, &tag) < 0 && iso8825_ber_tag_decode(e.p, 4, NULL) < 0, "null-args", "tag");
	VH_CHECK(iso8825_ber_itr_init(NULL, 4, &it) < 0 && iso8825_ber_itr_init(e.p, 4, NULL) < 0, "null-args", "itr");
	VH_CHECK(iso8825_ber_itr_next(NULL, &t) < 0, "null-args", "next");
	VH_CHECK(iso8825_ber_oid_decode(NULL, 4, &o) < 0 && iso8825_ber_oid_decode(e.p, 4, NULL) < 0 && iso8825_ber_oid_decode(e.p, 0, &o) < 0, "null-args", "oid");
	VH_CHECK(!iso8825_ber_is_string(NULL), "null-args", "is_string");
}

// sizes and counts beyond 8, 16 and 24 bits, definite and indefinite
static void s_big(Rng& r, uint64_t i)
{
	static const size_t L[] = {65535, 65536, 65537, 131072, 0xFFFFFF, 0x1000000, 0x1000001, 300000};
	size_t len = L[i % 8]; Bytes b; unsigned style = i / 8; if (style && len > 300000) len = 0x12345;
	if (style == 0) { enc_tag(b, 0xDFDF01); enc_len(b, len, len <= 0xFFFF ? 2 : len <= 0xFFFFFF ? 3 : 4); b.resize(b.size() + len, r.u8()); cat(b, {0x5A, 1, 2}); }
	else {
		Bytes in; unsigned n = 0; while (in.size() < len) { Bytes v = r.bytes(style == 1 ? r.below(4) : r.chance(5) ? 20000 : r.below(300)); enc_tag(in, gen_tag(r, false)); enc_len(in, v.size(), v.size() < 128 ? 0 : 2); cat(in, v); ++n; }
		if (i & 1) { b = {0xE1, 0x80}; cat(b, in); cat(b, {0, 0, 0x5A, 1, 2}); } else b = in;
		if (n > 256) vh_obs("elements>256"); if (n > 65536) vh_obs("elements>65536"); if (i & 1) vh_obs("indefinite>64k");
	}
	compare_decode(b); compare_iter(b); vh_obs("big");
}
std::vector<Suite> vh_suites()
{
	return {
		{"small", 1 + NA + NA*NA + NA*NA*NA + NA*NA*NA*NA, 0, s_small},
		{"tag-len", 65536, 0, s_twobyte},
		{"lens", 0, 1, s_lens}, {"hugelen", 0, 1, s_hugelen}, {"tree", 0, 2, s_tree}, {"random", 0, 1, s_random}, {"nest", 0, 1, s_nest},
		{"oid", 0, 1, s_oid}, {"oid1", 256 + 65536, 0, s_oid1}, {"big", 24, 0, s_big}, {"args", 1, 0, s_args},
	};
}
std::vector<std::string> vh_required() { return {"accepted", "accepted-indefinite", "rejected", "element", "sequence>1", "roundtrip-indefinite", "length-beyond-input", "oid-accepted", "oid-rejected", "big", "elements>256", "indefinite>64k"}; }
const char* vh_rule() { return "BER inputs: all strings of length<=4 over a 20-byte boundary alphabet, all tag x length bytes, boundary lengths in every length form, generated (nested, indefinite, non-minimal) trees with mutations, random bytes, OIDs; non-trivial = distinct encodings decoded element by element and compared to the model"; }
