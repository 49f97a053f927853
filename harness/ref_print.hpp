// Expected console output of emv-decode and of tools/print_helpers.c, from the
// independent BER, ATR and annotation models.
#ifndef REF_PRINT_HPP
#define REF_PRINT_HPP
#include "ref_annot.hpp"
#include "ref_ber.hpp"
struct Out { std::string o; bool un = false; bool stop = false; };   // un: the expected output is not settled
static inline std::string ind(unsigned d) { std::string s; while (d--) s += "  "; return s; }
static inline std::string spaced(const uint8_t* b, size_t n) { std::string s; for (size_t i = 0; i < n; ++i) s += vh_fmt(" %02X", b[i]); return s; }
static inline std::string bullets(const std::string& list, unsigned d) { std::string s; for (auto& l : RefSpec::split(list, '\n')) if (!l.empty()) s += ind(d) + "- " + l + "\n"; return s; }
static inline std::string named(unsigned tag, size_t len, const char* sep) { RefInfo i = ref_info(tag, len, NULL); std::string s = vh_fmt("%02X", tag); if (i.t) s += " | " + i.t->name; return s + sep; }
static inline void print_dol(Out& p, const Bytes& b, unsigned d)
{
	p.o += ind(d) + "Data Object List:\n";
	for (size_t k = 0; k < b.size();) { uint32_t t = 0; int64_t n = ref_ber_tag(b.data() + k, b.size() - k, t); if (n <= 0 || k + n >= b.size()) return; uint8_t l = b[k + n]; if (l & 0x80) { p.un = true; return; } p.o += ind(d + 1) + named(t, l, "") + vh_fmt(" [%u]\n", l); k += n + 1; }
}
static inline void print_tags(Out& p, const Bytes& b, unsigned d)
{
	p.o += ind(d) + "Tag List:\n";
	for (size_t k = 0; k < b.size();) { uint32_t t = 0; int64_t n = ref_ber_tag(b.data() + k, b.size() - k, t); if (n <= 0) return; p.o += ind(d + 1) + named(t, 0, "\n"); k += n; }
}
static inline std::string head(unsigned tag, size_t len, const uint8_t* v, const RefTag** t, RefInfo& i) { i = ref_info(tag, len, v); *t = i.t; return vh_fmt("%02X", tag) + (i.t ? " | " + i.t->name : "") + vh_fmt(" : [%zu]", len); }
static inline void print_primitive(Out& p, unsigned tag, const Bytes& v, unsigned d, const RefInfo& i)
{
	bool ans = i.t && i.t->kind.compare(0, 4, "ans:") == 0;
	if ((i.t && !i.ok && i.text_if_error) || i.text.size() >= 2048 || (i.t && v.size() > 1000) || (ans && std::find(v.begin(), v.end(), 0x7F) != v.end())) p.un = true;
	p.o += spaced(v.data(), v.size()); bool list = !i.text.empty() && i.text.back() == '\n'; int f = i.t ? i.t->format : EMV_FORMAT_B;
	if (i.text.empty() || list) { p.o += "\n"; if (list) p.o += bullets(i.text, d + 1); if (f == EMV_FORMAT_DOL) print_dol(p, v, d + 1); if (f == EMV_FORMAT_TAG_LIST) print_tags(p, v, d + 1); }
	else if (f == EMV_FORMAT_A || f == EMV_FORMAT_AN || f == EMV_FORMAT_ANS) p.o += " \"" + i.text + "\"\n"; else p.o += " (" + i.text + ")\n";
}
static inline bool ref_oid(const Bytes& b, std::string& s)
{
	std::vector<uint64_t> c; for (size_t i = 0; i < b.size();) { uint64_t v = 0; bool last = false; while (i < b.size() && !last) { if (v >> 40) return false; v = v << 7 | (b[i] & 127); last = !(b[i++] & 128); } if (!last || v > 0xFFFFFFFFull) return false; if (c.empty()) { uint64_t a = v < 40 ? 0 : v < 80 ? 1 : 2; c.push_back(a); v -= a * 40; } c.push_back(v); }
	if (c.empty() || c.size() > 10) return false; s = " {"; for (size_t k = 0; k < c.size(); ++k) s += (k ? " " : "") + std::to_string(c[k]); s += "}"; return true;
}
// one level of BER fields; returns how many bytes of it were valid
static inline size_t print_level(Out& p, const uint8_t* b, size_t n, unsigned d, bool emv, bool pad)
{
	size_t at = 0;
	for (;;) {
		RefTlv t = ref_ber(b + at, n - at); if (t.r == REF_UNSPEC) { p.un = p.stop = true; return at; } if (t.r == 0) return at;
		if (t.r < 0) {
			size_t left = n - at; if (pad && ((n % 8 == 0 && left < 8) || (n % 16 == 0 && left < 16))) { p.o += ind(d) + vh_fmt("Padding : [%zu]", left) + spaced(b + at, left) + "\n"; return n; }
			p.o += "BER decoding error"; p.stop = true; return at;
		}
		const uint8_t* v = b + at + t.hdr; Bytes val(v, v + t.length); RefInfo i; const RefTag* rt; std::string h = head(t.tag, t.length, v, &rt, i);
		p.o += ind(d) + (emv ? h : vh_fmt("%02X : [%zu]", t.tag, t.length));
		if (t.flags & 0x20) { p.o += "\n"; size_t k = print_level(p, v, t.length, d + 1, emv, pad); if (p.stop) return at + t.hdr + k; }
		else if (emv) print_primitive(p, t.tag, val, d, i);
		else {
			p.o += spaced(v, t.length); static const std::set<uint32_t> S = {7, 12, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 30};
			if (S.count(t.tag)) p.o += t.length < 1024 ? " \"" + std::string((const char*)v, strnlen((const char*)v, t.length)) + "\"" : " \"...\""; else if (t.tag == 6) { std::string s; if (!ref_oid(val, s)) p.un = p.stop = true; p.o += s; if (p.stop) return at; }
			p.o += "\n";
		}
		at += t.r;
	}
}
static inline void print_all(Out& p, const Bytes& b, unsigned d, bool emv, bool pad) { size_t k = print_level(p, b.data(), b.size(), d, emv, pad); if (k < b.size()) p.o += vh_fmt(" at offset %zu; remaining invalid data:", k) + spaced(b.data() + k, b.size() - k) + "\n"; p.stop = false; }
static inline void print_field(Out& p, unsigned tag, const Bytes& v, unsigned d)
{
	RefInfo i; const RefTag* t; std::string h = head(tag, v.size(), v.data() ? v.data() : (const uint8_t*)"", &t, i); p.o += ind(d) + h; unsigned top = tag; while (top > 0xFF) top >>= 8;
	if (top & 0x20) { p.o += "\n"; print_all(p, v, d + 1, true, false); } else print_primitive(p, tag, v, d, i);
}
static inline void print_ref_atr(Out& p, const Bytes& a, const RefAtr& m)
{
	p.o += "ATR: " + vh_hex(a) + "\n" + vh_fmt("  TS  = 0x%02X: %s\n", a[0], a[0] == 0x3B ? "Direct convention" : "Inverse convention") + vh_fmt("  T0  = 0x%02X: ", a[1]) + ref_Y(m, 1) + vh_fmt("; K=%u\n", m.K);
	for (int i = 1; i <= 4; ++i) {
		const int* T[4] = {m.TA, m.TB, m.TC, m.TD}; if (i < 3 || T[0][i] >= 0 || T[1][i] >= 0 || T[2][i] >= 0 || T[3][i] >= 0) p.o += "  ----\n";
		for (int k = 0; k < 4; ++k) { bool has = T[k][i] >= 0; if (!has && (i > 2 || k == 3)) continue; std::string s; bool un = false; ref_atr_text(a, m, 'A' + k, i, s, un); if (un) p.un = true; if (i == 4 && k == 3) p.un = true; p.o += has ? vh_fmt("  T%c%d = 0x%02X: ", 'A' + k, i, a[T[k][i]]) + s + "\n" : vh_fmt("  T%c%d absent: ", 'A' + k, i) + s + "\n"; }
	}
	if (m.K) {
		unsigned v = m.T1; p.o += "  ----\n" + vh_fmt("  T1  = 0x%02X: %s\n", v, v == 0 ? "COMPACT-TLV followed by mandatory status indicator" : v == 0x10 ? "DIR data reference" : v == 0x80 ? "COMPACT-TLV including optional status indicator" : v > 0x80 && v < 0x90 ? "RFU" : "Proprietary");
		const uint8_t* h = a.data() + m.hist; if (v != 0 && v != 0x80) p.o += "  Historical bytes: " + (m.hist_len ? vh_hex(h, m.hist_len) : "") + "\n";
		else for (size_t q = 0; q < m.hist_len;) {
			static const char* const CT[16] = {0, "Country code", "Issuer identification number", "Card service data", "Initial access data", "Card issuer data", "Pre-issuing data", "Card capabilities", "Status indicator", 0, 0, 0, 0, 0, 0, "Application identifier (AID)"};
			unsigned tag = h[q] >> 4; size_t l = h[q] & 15; Bytes x(h + q + 1, h + q + 1 + l); p.o += vh_fmt("  %s (0x%X): [%zu] ", CT[tag] ? CT[tag] : "Unknown", tag, l); for (size_t k = 0; k < l; ++k) p.o += vh_fmt("%s%02X", k ? " " : "", x[k]); p.o += "\n";
			if (tag == 3 && l) { x.resize(1); p.o += bullets(ref_spec_text("card-service", x).text, 2); } if (tag == 7 && l > 3) p.un = true; if (tag == 7) { RefText c = ref_spec_text("card-caps", x); if (c.ok) p.o += bullets(c.text, 2); } q += 1 + l;
		}
		if (m.si >= 0) {
			if (m.si_any || m.si_len < 1 || m.si_len > 3) p.un = true; size_t l = m.si_len; uint8_t lcs = l == 2 ? 0 : a[m.si], s1 = l == 1 ? 0 : a[m.si + l - 2], s2 = l == 1 ? 0 : a[m.si + l - 1];
			p.o += "  ----\n" + vh_fmt("  LCS = %02X: ", lcs) + ref_lcs(lcs) + "\n"; if (s1 || s2) p.o += vh_fmt("  SW  = %02X%02X: (", s1, s2) + ref_sw(s1, s2) + ")\n";
		}
	}
	p.o += "  ----\n" + vh_fmt("  TCK = 0x%02X\n", m.TCK < 0 ? 0 : m.TCK);
}
// the number in "BER decoding error -N" is not compared
static inline std::string norm(const std::string& s) { std::string o; for (size_t i = 0; i < s.size();) { static const std::string E = "BER decoding error"; if (s.compare(i, E.size(), E) == 0) { o += E; i += E.size(); if (i < s.size() && s[i] == ' ' && (s[i + 1] == '-' || isdigit(s[i + 1]))) { ++i; while (i < s.size() && (s[i] == '-' || isdigit((unsigned char)s[i]))) ++i; } } else o += s[i++]; } return o; }
#endif
