// Independent BER-TLV model (X.690 8.1) used as oracle, and BER generators.
#ifndef REF_BER_HPP
#define REF_BER_HPP
#include "vh.hpp"

struct RefTlv { int64_t r = 0; /* consumed, 0 end, <0 reject, INT64_MIN: unspecified */ uint32_t tag = 0; size_t hdr = 0; size_t length = 0; uint8_t flags = 0; };
static const int64_t REF_UNSPEC = INT64_MIN;

inline int64_t ref_ber_tag(const uint8_t* b, size_t n, uint32_t& tag)
{
	if (n == 0) return 0;
	size_t k = 1;
	if ((b[0] & 0x1F) == 0x1F) {
		// subsequent octets: up to and including the first with bit 8 clear
		size_t last = 1;
		while (last < n && (b[last] & 0x80)) ++last;
		if (last >= 4) return -1;   // tag field larger than 32 bits (or too short as well)
		if (last >= n) return -1;   // truncated
		k = last + 1;
	}
	tag = 0;
	for (size_t i = 0; i < k; ++i) tag = tag * 256u + b[i];
	return (int64_t)k;
}

inline RefTlv ref_ber(const uint8_t* b, size_t n)
{
	RefTlv t;
	if (n == 0) { t.r = 0; return t; }
	int64_t k = ref_ber_tag(b, n, t.tag);
	if (k < 0 || (size_t)k >= n) { t.r = -1; return t; }
	t.flags = b[0] & 0xE0;
	size_t pos = k;
	uint8_t l0 = b[pos++];
	if (l0 == 0x80) {
		if (!(b[0] & 0x20)) { t.r = -1; return t; }
		t.hdr = pos;
		for (;;) {
			RefTlv in = ref_ber(b + pos, n - pos);
			if (in.r == REF_UNSPEC) { t.r = REF_UNSPEC; return t; }
			if (in.r <= 0) { t.r = -1; return t; }
			if (in.tag == 0) {
				if (in.length) { t.r = -1; return t; }
				if (in.r != 2) { t.r = REF_UNSPEC; return t; }  // 00 8x 00..: not the X.690 end-of-contents octets
				t.length = pos - t.hdr;
				t.r = (int64_t)(pos + 2);
				return t;
			}
			pos += in.r;
		}
	}
	size_t len = l0;
	if (l0 & 0x80) {
		unsigned cnt = l0 & 0x7F;
		if (cnt > 4) { t.r = -1; return t; }
		if (cnt > n - pos) { t.r = -1; return t; }
		len = 0;
		for (unsigned i = 0; i < cnt; ++i) len = len * 256 + b[pos++];
	}
	if (len > n - pos) { t.r = -1; return t; }
	t.hdr = pos; t.length = len; t.r = (int64_t)(pos + len);
	return t;
}

// ---- encoders ----
inline void enc_tag(Bytes& o, uint32_t tag)
{
	if (tag > 0xFFFFFF) o.push_back(tag >> 24);
	if (tag > 0xFFFF) o.push_back(tag >> 16);
	if (tag > 0xFF) o.push_back(tag >> 8);
	o.push_back(tag);
}
inline void enc_len(Bytes& o, size_t len, int form = 0) // form: 0 minimal, 1..4 that many length octets
{
	if (form == 0) {
		if (len < 0x80) { o.push_back(len); return; }
		form = len <= 0xFF ? 1 : len <= 0xFFFF ? 2 : len <= 0xFFFFFF ? 3 : 4;
	}
	o.push_back(0x80 | form);
	for (int i = form - 1; i >= 0; --i) o.push_back(len >> (8 * i));
}
inline Bytes enc_tlv(uint32_t tag, const Bytes& v, int form = 0)
{
	Bytes o; enc_tag(o, tag); enc_len(o, v.size(), form); o.insert(o.end(), v.begin(), v.end()); return o;
}
inline void cat(Bytes& a, const Bytes& b) { a.insert(a.end(), b.begin(), b.end()); }
inline Bytes from_hex(const char* s)
{
	Bytes o; int hi = -1;
	for (; *s; ++s) {
		int c = *s, d;
		if (c >= '0' && c <= '9') d = c - '0'; else if (c >= 'A' && c <= 'F') d = c - 'A' + 10; else if (c >= 'a' && c <= 'f') d = c - 'a' + 10; else continue;
		if (hi < 0) hi = d; else { o.push_back(hi * 16 + d); hi = -1; }
	}
	return o;
}

// random tag; constructed as requested
inline uint32_t gen_tag(Rng& r, bool constructed, bool allow_zero = false)
{
	for (;;) {
		uint8_t b0 = r.u8();
		b0 = constructed ? (b0 | 0x20) : (b0 & ~0x20);
		unsigned extra = 0;
		if (r.chance(40)) { b0 |= 0x1F; extra = 1 + (r.chance(40) ? 1 : 0) + (r.chance(15) ? 1 : 0); if (extra > 3) extra = 3; }
		else if ((b0 & 0x1F) == 0x1F) b0 &= ~0x01;
		uint32_t t = b0;
		for (unsigned i = 0; i < extra; ++i) {
			uint8_t o = r.chance(30) ? r.pick({(uint8_t)0x00, (uint8_t)0x01, (uint8_t)0x7F, (uint8_t)0x1F}) : r.u8();
			o = (i + 1 < extra) ? (o | 0x80) : (o & 0x7F);
			t = t << 8 | o;
		}
		if (t == 0 && !allow_zero) continue;
		return t;
	}
}

struct TreeNode { uint32_t tag; bool cons; bool indef; Bytes val; std::vector<TreeNode> kids; size_t length = 0; };
inline TreeNode gen_node(Rng& r, int depth, bool allow_indef)
{
	TreeNode n;
	n.cons = depth > 0 && r.chance(45);
	n.indef = n.cons && allow_indef && r.chance(35);
	n.tag = gen_tag(r, n.cons);
	if (n.cons) { unsigned k = r.below(4); for (unsigned i = 0; i < k; ++i) n.kids.push_back(gen_node(r, depth - 1, allow_indef)); }
	else {
		size_t len = r.chance(70) ? r.below(12) : r.chance(60) ? (size_t)r.pick({0, 1, 126, 127, 128, 129, 254, 255, 256, 257}) : r.below(400);
		n.val = r.bbytes(len);
	}
	return n;
}
inline Bytes enc_node(Rng& r, TreeNode& n, bool nonmin)
{
	Bytes v = n.val;
	if (n.cons) { v.clear(); for (auto& k : n.kids) cat(v, enc_node(r, k, nonmin)); }
	n.length = v.size();
	if (n.indef) { Bytes o; enc_tag(o, n.tag); o.push_back(0x80); cat(o, v); o.push_back(0); o.push_back(0); return o; }
	int form = 0;
	if (nonmin && r.chance(25)) { int min = v.size() <= 0xFF ? 1 : v.size() <= 0xFFFF ? 2 : 3; form = min + (int)r.below(5 - min); }
	return enc_tlv(n.tag, v, form);
}
// mutate bytes: flips, truncation, insertion, duplication
inline void mutate(Rng& r, Bytes& b)
{
	unsigned k = 1 + r.below(3);
	while (k--) {
		switch (r.below(7)) {
			case 0: if (!b.empty()) b[r.below(b.size())] ^= 1u << r.below(8); break;
			case 1: if (!b.empty()) b[r.below(b.size())] = r.b8(); break;
			case 2: if (!b.empty()) b.resize(r.below(b.size())); break;
			case 3: b.insert(b.begin() + r.below(b.size() + 1), r.b8()); break;
			case 4: if (!b.empty()) b.erase(b.begin() + r.below(b.size())); break;
			case 5: { Bytes x = r.bbytes(1 + r.below(4)); b.insert(b.begin() + r.below(b.size() + 1), x.begin(), x.end()); break; }
			case 6: if (b.size() > 1) { size_t a = r.below(b.size()), n = 1 + r.below(b.size() - a); Bytes x(b.begin() + a, b.begin() + a + n); b.insert(b.begin() + r.below(b.size() + 1), x.begin(), x.end()); if (b.size() > 6000) b.resize(6000); } break;
		}
	}
}
#endif
