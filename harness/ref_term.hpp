// Card models, T=0 / APDU links and an independent reference terminal
// (EMV Book 1 section 12, Book 3 sections 5.4, 6.5, 10.1, 10.2).
#ifndef REF_TERM_HPP
#define REF_TERM_HPP
#include "vh.hpp"
#include "ref_ber.hpp"
#include <iconv.h>
#include <deque>

struct Fld { uint32_t tag; Bytes v; bool operator==(const Fld& o) const { return tag == o.tag && v == o.v; } };
typedef std::vector<Fld> Flds;
inline const Fld* ffind(const Flds& l, uint32_t t) { for (auto& f : l) if (f.tag == t) return &f; return NULL; }

struct Unspec {};   // the generated input is outside of what the specification settles: case is not judged

// 0 ok, 1 malformed (out keeps what came before)
inline int ref_flatten(const uint8_t* b, size_t n, Flds& out)
{
	for (size_t pos = 0;;) {
		RefTlv m = ref_ber(b + pos, n - pos);
		if (m.r == REF_UNSPEC) throw Unspec();
		if (m.r == 0) return 0;
		if (m.r < 0) return 1;
		if (m.flags & 0x20) { if (ref_flatten(b + pos + m.hdr, m.length, out)) return 1; }
		else out.push_back({m.tag, Bytes(b + pos + m.hdr, b + pos + m.hdr + m.length)});
		pos += m.r;
	}
}

// ISO 8859-n to UTF-8, character by character; undefined characters are dropped
inline std::string ref_8859(unsigned cp, const Bytes& b, bool* undefined = NULL)
{
	static std::map<unsigned, std::vector<std::string>> tab;
	auto& t = tab[cp];
	if (t.empty()) {
		t.resize(256);
		iconv_t cd = iconv_open("UTF-8", vh_fmt("ISO-8859-%u", cp).c_str());
		if (cd == (iconv_t)-1) { fprintf(stderr, "iconv_open failed\n"); abort(); }
		for (int i = 0; i < 256; ++i) {
			char in = (char)i, out[8]; char* ip = &in; char* op = out; size_t il = 1, ol = 8;
			iconv(cd, NULL, NULL, NULL, NULL);
			if (iconv(cd, &ip, &il, &op, &ol) != (size_t)-1) t[i] = std::string(out, op - out);
		}
		iconv_close(cd);
	}
	std::string s;
	for (uint8_t c : b) { if (t[c].empty() && undefined) *undefined = true; s += t[c]; }
	return s;
}
inline std::string utf8_cut(const std::string& s, size_t max) // longest prefix of whole characters
{
	if (s.size() <= max) return s;
	size_t k = max; while (k && ((uint8_t)s[k] & 0xC0) == 0x80) --k;
	return s.substr(0, k);
}
inline bool utf8_valid(const std::string& s)
{
	for (size_t i = 0; i < s.size();) {
		uint8_t c = s[i]; size_t n = c < 0x80 ? 1 : (c & 0xE0) == 0xC0 ? 2 : (c & 0xF0) == 0xE0 ? 3 : (c & 0xF8) == 0xF0 ? 4 : 0;
		if (!n || i + n > s.size()) return false;
		for (size_t k = 1; k < n; ++k) if (((uint8_t)s[i + k] & 0xC0) != 0x80) return false;
		i += n;
	}
	return true;
}

// ---------------------------------------------------------------- card model
struct Resp { Bytes data; uint16_t sw = 0x9000; bool fail = false; };
typedef std::map<std::pair<int, int>, Resp> Files;

struct VCard {
	struct App { Bytes df, fci; uint16_t sw = 0x9000; Resp gpo; Files recs; };
	bool pse = false; Resp pse_resp; Files pse_recs;
	std::vector<App> apps;
	std::map<size_t, Resp> at;       // answer to the n-th command instead of the regular one
	Resp unknown{{}, 0x6A82, false}; // SELECT of something absent
	// state
	size_t n = 0; int cur = -1; bool in_pse = false;
	void reset() { n = 0; cur = -1; in_pse = false; }
	Resp handle(const Bytes& c)
	{
		size_t k = n++;
		Resp r = answer(c);
		auto o = at.find(k);
		return o == at.end() ? r : o->second;
	}
	Resp answer(const Bytes& c)
	{
		static const char PSE[] = "1PAY.SYS.DDF01";
		if (c.size() < 4) return {{}, 0x6700, false};
		if (c[0] == 0x00 && c[1] == 0xA4 && c[2] == 0x04 && (c[3] == 0x00 || c[3] == 0x02) && c.size() >= 6) {
			Bytes name(c.begin() + 5, c.begin() + 5 + std::min<size_t>(c[4], c.size() - 5));
			if (c[3] == 0 && name == Bytes(PSE, PSE + 14)) { cur = -1; in_pse = false; if (!pse) return unknown; in_pse = pse_resp.sw == 0x9000; return pse_resp; }
			size_t i = c[3] == 0x02 && cur >= 0 ? cur + 1 : c[3] == 0x02 ? apps.size() : 0;
			for (; i < apps.size(); ++i) {
				auto& a = apps[i];
				if (a.df.size() >= name.size() && std::equal(name.begin(), name.end(), a.df.begin())) {
					in_pse = false; cur = i;
					return {a.sw == 0x9000 || (a.sw >> 8) == 0x62 ? a.fci : Bytes(), a.sw, false};
				}
			}
			return unknown;
		}
		if (c[0] == 0x00 && c[1] == 0xB2 && c.size() == 5 && (c[3] & 7) == 4) {
			const Files* f = in_pse ? &pse_recs : cur >= 0 ? &apps[cur].recs : NULL;
			if (!f) return {{}, 0x6985, false};
			auto it = f->find({c[3] >> 3, c[2]});
			if (it == f->end()) return {{}, 0x6A83, false};
			return it->second;
		}
		if (c[0] == 0x80 && c[1] == 0xA8) { if (cur < 0) return {{}, 0x6985, false}; return apps[cur].gpo; }
		return {{}, 0x6D00, false};
	}
};

// ---------------------------------------------------------------- link between the code under test and a card model
struct Link {
	VCard* card; bool tpdu; Rng r; std::vector<Bytes> log; std::string err; size_t calls = 0, max = 400000;
	Link(VCard* c, bool t, uint64_t seed) : card(c), tpdu(t), r(seed) {}
	enum { IDLE, DATA, LE, GET, WARN } st = IDLE; Bytes hdr; Resp cur; uint16_t final_sw = 0;
	void bad(const std::string& s) { if (err.empty()) err = s; }
	static Bytes sw2(uint16_t s) { return {(uint8_t)(s >> 8), (uint8_t)s}; }
	Bytes full(uint8_t ins) { Bytes b; if (tpdu) b.push_back(ins); cat(b, cur.data); cat(b, sw2(final_sw)); st = IDLE; return b; }
	Resp run(const Bytes& c) { log.push_back(c); return card->handle(c); }
	bool warning() const { return (cur.sw >> 8) == 0x62 || (cur.sw >> 8) == 0x63; }
	bool on(const Bytes& t, Bytes& out)   // false: transport failure
	{
		if (st == WARN) { // warning without data for a case 4 command: the terminal may ask for data that does not exist
			st = IDLE;
			if (t.size() == 5 && t[0] == 0 && t[1] == 0xC0) { out = sw2(r.chance(50) ? 0x9000 : 0x6F00); return true; }
		}
		if (st == DATA) {
			if (t.size() != hdr[4]) bad("command data has the wrong length");
			Bytes c = hdr; cat(c, t); c.push_back(0);
			cur = run(c); st = IDLE;
			if (cur.fail) return false;
			if (cur.data.empty()) { if (warning()) st = WARN; out = sw2(cur.sw); return true; }
			st = GET; final_sw = cur.sw;
			if ((cur.sw >> 8) == 0x62 || (cur.sw >> 8) == 0x63) { out = sw2(cur.sw); return true; }
			out = sw2(0x6100 | (cur.data.size() & 0xFF)); return true;
		}
		if (st == GET) {
			if (t.size() != 5 || t[0] != 0 || t[1] != 0xC0) { bad("GET RESPONSE expected, got " + vh_hex(t)); st = IDLE; }
			else if (t[4] != (cur.data.size() & 0xFF)) { out = sw2(0x6C00 | (cur.data.size() & 0xFF)); return true; }
			else { if ((final_sw >> 8) == 0x62 || (final_sw >> 8) == 0x63) final_sw = 0x9000; out = full(0xC0); return true; }
		}
		if (st == LE) {
			Bytes w(hdr.begin(), hdr.begin() + 4); w.push_back(cur.data.size());
			if (t != w) bad("command with exact Le expected");
			out = full(hdr[1]); return true;
		}
		if (!tpdu) {
			if (t.size() == 5 && t[1] == 0xC0) { bad("unexpected GET RESPONSE"); return false; }
			cur = run(t); if (cur.fail) return false;
			final_sw = cur.sw;
			if (!cur.data.empty() && t[1] == 0xB2 && r.chance(15)) { hdr = t; st = LE; out = sw2(0x6C00 | (cur.data.size() & 0xFF)); return true; }
			bool w = cur.data.empty() && warning() && (t[1] == 0xA4 || t[1] == 0xA8);
			out = full(0); if (w) st = WARN;
			return true;
		}
		if (t.size() != 5) { bad("T=0 command header has the wrong size"); return false; }
		hdr = t;
		if (t[1] == 0xA4 || t[1] == 0xA8) { st = DATA; out = {t[1]}; return true; }
		cur = run(t); if (cur.fail) return false;
		final_sw = cur.sw;
		if (cur.data.empty()) { out = sw2(cur.sw); return true; }
		if (r.chance(40)) { st = LE; out = sw2(0x6C00 | (cur.data.size() & 0xFF)); return true; }
		out = full(t[1]); return true;
	}
};
inline int link_trx(void* ctx, const void* tx, size_t n, void* rx, size_t* rxn)
{
	Link* l = (Link*)ctx;
	if (vh_on_valgrind() && vh_undefined(tx, n)) l->bad("uninitialised data transmitted");
	vh_step();
	if (++l->calls > l->max) { l->bad("too many transmissions"); return -99; }
	Bytes out; Bytes t((const uint8_t*)tx, (const uint8_t*)tx + n);
	if (!l->on(t, out)) return -33;
	if (out.size() > *rxn) { l->bad("receive buffer too small for the answer"); return -98; }
	memcpy(rx, out.data(), out.size()); *rxn = out.size();
	return 0;
}

// ---------------------------------------------------------------- reference terminal
enum { R_OK = 0, R_CARD_ERROR = 1, R_BLOCKED = 2, R_NOT_ACCEPTED = 3, R_TRY_AGAIN = 4, R_GPO_NOT_ACCEPTED = 5, R_INTERNAL = -1, R_PARAM = -2 };

struct MApp { Bytes aid; std::string name; bool name_any = false; uint8_t prio = 0; bool conf = false; Flds tlvs; };
struct Sup { Bytes aid; bool partial; };

inline const std::set<uint32_t>& term_n()
{
	static const std::set<uint32_t> s = {0x9A, 0x9C, 0x5F2A, 0x5F36, 0x5F57, 0x9F01, 0x9F02, 0x9F03, 0x9F15, 0x9F1A, 0x9F21, 0x9F35, 0x9F39, 0x9F3C, 0x9F3D, 0x9F41};
	return s;
}
// true: well formed
inline bool ref_dol(const Bytes& d, std::vector<std::pair<uint32_t, size_t>>& es)
{
	for (size_t i = 0; i < d.size();) {
		uint32_t t; int64_t k = ref_ber_tag(d.data() + i, d.size() - i, t);
		if (k <= 0 || i + k >= d.size()) return false;
		es.push_back({t, d[i + k]}); i += k + 1;
	}
	return true;
}
inline Bytes ref_dol_data(const std::vector<std::pair<uint32_t, size_t>>& es, const std::vector<const Flds*>& src)
{
	Bytes o;
	for (auto& e : es) {
		const Fld* f = NULL; for (auto s : src) if ((f = ffind(*s, e.first))) break;
		Bytes v(e.second, 0);
		if (f) for (size_t i = 0; i < e.second && i < f->v.size(); ++i) {
			if (term_n().count(e.first)) v[e.second - 1 - i] = f->v[f->v.size() - 1 - i]; else v[i] = f->v[i];
		}
		cat(o, v);
	}
	return o;
}

struct RefTerm {
	std::vector<Sup> sup; Flds params, config, icc, terminal;
	std::vector<MApp> list; bool has_sel = false, initiated = false; MApp sel;
	VCard* card; std::vector<Bytes> log;
	bool trx(const Bytes& c, Bytes& d, uint16_t& sw) { log.push_back(c); Resp r = card->handle(c); if (r.fail) return false; d = r.data; sw = r.sw; return true; }
	bool select(const Bytes& name, bool next, Bytes& d, uint16_t& sw)
	{
		if (name.size() < 5 || name.size() > 16) return false;
		Bytes c = {0x00, 0xA4, 0x04, (uint8_t)(next ? 2 : 0), (uint8_t)name.size()}; cat(c, name); c.push_back(0);
		return trx(c, d, sw);
	}
	bool read(int sfi, int rec, Bytes& d, uint16_t& sw) { return trx({0x00, 0xB2, (uint8_t)rec, (uint8_t)(sfi << 3 | 4), 0x00}, d, sw); }

	// application from its fields
	static bool make(const Flds& f, uint32_t aidtag, const Flds* pse, MApp& a)
	{
		a = MApp(); a.tlvs = f;
		const Fld* x = ffind(f, aidtag); if (!x) return false;
		a.aid = x->v;
		const Fld* ct = ffind(pse ? *pse : f, 0x9F11); const Fld* pn = ffind(f, 0x9F12); const Fld* lb = ffind(f, 0x50);
		bool named = false;
		if (ct && ct->v.size() == 1 && ct->v[0] >= 1 && ct->v[0] <= 15 && ct->v[0] != 12 && pn) {
			Bytes t; for (uint8_t c : pn->v) if (((c >= 0x20 && c <= 0x7E) || c >= 0xA0) && t.size() < 16) t.push_back(c);
			bool undef = false; std::string s = ref_8859(ct->v[0], t, &undef);
			if (undef) { if (a.aid.empty() && !lb) throw Unspec(); named = true; a.name_any = true; }
			else if (!s.empty()) { named = true; a.name = utf8_cut(s, 32); }
		}
		if (!named) {
			if (lb) {
				for (uint8_t c : lb->v) if (((c >= '0' && c <= '9') || (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z') || c == ' ') && a.name.size() < 32) a.name += (char)c;
				if (a.name.empty()) a.name_any = true;   // label without usable characters
			} else {
				if (a.aid.empty()) return false;
				a.name = vh_hex(a.aid); for (auto& c : a.name) c = toupper(c);
				a.name = a.name.substr(0, 32);
			}
		}
		const Fld* p = ffind(f, 0x87);
		if (p && !p->v.empty()) { a.prio = p->v[0] & 0x0F; a.conf = p->v[0] & 0x80; }
		return true;
	}
	static bool from_fci(const Bytes& d, MApp& a)
	{
		RefTlv t = ref_ber(d.data(), d.size());
		if (t.r == REF_UNSPEC) throw Unspec();
		if (t.r != (int64_t)d.size() || t.r == 0 || t.tag != 0x6F) return false;
		Flds f; if (ref_flatten(d.data() + t.hdr, t.length, f)) return false;
		return make(f, 0x84, NULL, a);
	}
	bool supported(const Bytes& aid) const
	{
		for (auto& s : sup) {
			if (!s.partial && s.aid == aid) return true;
			if (s.partial && s.aid.size() <= aid.size() && std::equal(s.aid.begin(), s.aid.end(), aid.begin())) return true;
		}
		return false;
	}
	// the two ways to candidates, with the results documented in emv_tal.h
	int read_pse()
	{
		list.clear();
		Bytes d; uint16_t sw; static const char PSE[] = "1PAY.SYS.DDF01";
		if (!select(Bytes(PSE, PSE + 14), false, d, sw)) return -3;
		if (sw == 0x6A81) return -4;
		if (sw == 0x6A82) return 1;
		if (sw == 0x6283) return 2;
		if (sw != 0x9000) return 3;
		Flds pse; ref_flatten(d.data(), d.size(), pse); // padding after the FCI is tolerated
		const Fld* s = ffind(pse, 0x88);
		if (!s) return 5;
		if (s->v.size() != 1 || s->v[0] < 1 || s->v[0] > 30) return 6;
		for (int rec = 1; rec <= 255; ++rec) {
			if (!read(s->v[0], rec, d, sw)) { list.clear(); return -3; }
			if (sw == 0x6A83) break;
			if (sw != 0x9000) continue;
			RefTlv t = ref_ber(d.data(), d.size());
			if (t.r == REF_UNSPEC) throw Unspec();
			if (t.r <= 0 || t.tag != 0x70) continue;
			for (size_t p = 0; p < t.length;) {
				const uint8_t* b = d.data() + t.hdr + p;
				RefTlv e = ref_ber(b, t.length - p);
				if (e.r == REF_UNSPEC) throw Unspec();
				if (e.r <= 0) break;
				p += e.r;
				if (e.tag != 0x61) continue;
				Flds f; MApp a;
				if (ref_flatten(b + e.hdr, e.length, f) || !make(f, 0x4F, &pse, a)) continue;
				if (supported(a.aid)) list.push_back(a);
			}
		}
		return 0;
	}
	int find_supported()
	{
		Bytes d; uint16_t sw;
		for (auto& s : sup) {
			bool next = false; unsigned cnt = 0;
			for (;;) {
				if (!select(s.aid, next, d, sw)) return -3;
				if (!next && sw == 0x6A81) return -4;
				if (sw != 0x9000 && sw != 0x6283) break;
				MApp a; if (!from_fci(d, a)) break;
				bool exact = a.aid.size() == s.aid.size();
				if (!exact && !s.partial) break;
				if (sw == 0x9000) list.push_back(a);
				if (exact) break;
				if (cnt++ >= 255) break;
				next = true;
			}
		}
		return 0;
	}
	int build()
	{
		int r = read_pse();
		if (r < 0) return r == -4 ? R_BLOCKED : R_CARD_ERROR;
		if (list.empty()) { r = find_supported(); if (r < 0) return r == -4 ? R_BLOCKED : R_CARD_ERROR; }
		if (list.empty()) return R_NOT_ACCEPTED;
		std::stable_sort(list.begin(), list.end(), [](const MApp& a, const MApp& b) { return (a.prio ? a.prio : 16) < (b.prio ? b.prio : 16); });
		return R_OK;
	}
	int select_app(unsigned idx)
	{
		has_sel = false; initiated = false;
		if (idx >= list.size()) return R_PARAM;
		Bytes aid = list[idx].aid; list.erase(list.begin() + idx);
		int again = list.empty() ? R_NOT_ACCEPTED : R_TRY_AGAIN;
		if (aid.size() > 16) return again;
		Bytes d; uint16_t sw;
		if (!select(aid, false, d, sw)) return R_CARD_ERROR;
		if (sw == 0x6A81) return R_BLOCKED;
		MApp a;
		if (sw != 0x9000 || !from_fci(d, a) || a.aid != aid) return again;
		sel = a; has_sel = true; return R_OK;
	}
	static int parse_gpo(const Bytes& d, Flds& out)
	{
		RefTlv t = ref_ber(d.data(), d.size());
		if (t.r == REF_UNSPEC) throw Unspec();
		if (t.r <= 0) return R_CARD_ERROR;
		const uint8_t* v = d.data() + t.hdr;
		if (t.tag == 0x80) {
			if (t.length < 6 || (t.length - 2) % 4) return R_CARD_ERROR;
			out.push_back({0x82, Bytes(v, v + 2)}); out.push_back({0x94, Bytes(v + 2, v + t.length)});
		} else if (t.tag == 0x77) { if (ref_flatten(v, t.length, out)) return R_CARD_ERROR; }
		if (!ffind(out, 0x82) || !ffind(out, 0x94)) return R_CARD_ERROR;
		return 0;
	}
	int initiate(uint8_t pos)
	{
		if (!has_sel || initiated) return R_PARAM;
		icc.clear(); terminal = {{0x9F39, {pos}}, {0x9F06, sel.aid}, {0x9B, {0, 0}}, {0x95, {0, 0, 0, 0, 0}}};
		Bytes data = {0x83, 0x00};
		if (const Fld* p = ffind(sel.tlvs, 0x9F38)) {
			std::vector<std::pair<uint32_t, size_t>> es;
			if (p->v.empty()) throw Unspec();
			if (!ref_dol(p->v, es)) return R_CARD_ERROR;
			size_t tot = 0; for (auto& e : es) tot += e.second;
			if (tot > 252) return R_CARD_ERROR;
			data = enc_tlv(0x83, ref_dol_data(es, {&params, &config, &terminal}));
		}
		Bytes c = {0x80, 0xA8, 0x00, 0x00, (uint8_t)data.size()}; cat(c, data); c.push_back(0);
		Bytes d; uint16_t sw;
		if (!trx(c, d, sw)) return R_CARD_ERROR;
		if (sw == 0x6985) return R_GPO_NOT_ACCEPTED;
		if (sw != 0x9000) return R_CARD_ERROR;
		Flds out; int r = parse_gpo(d, out); if (r) return r;
		icc = sel.tlvs; icc.insert(icc.end(), out.begin(), out.end());
		initiated = true;
		return R_OK;
	}
	// result of reading all AFL records; oda set if a record cannot be used for offline data authentication
	int read_afl(const Bytes& afl, Flds& out, bool& oda)
	{
		oda = false;
		if (afl.empty()) return R_INTERNAL;
		if (afl.size() % 4) return R_CARD_ERROR;
		for (size_t i = 0; i < afl.size(); i += 4) {
			if (afl[i] & 7) return R_CARD_ERROR;
			int sfi = afl[i] >> 3; if (sfi == 0 || sfi == 31) return R_CARD_ERROR;
			if (!afl[i + 1] || afl[i + 2] < afl[i + 1] || afl[i + 3] > afl[i + 2] - afl[i + 1] + 1) return R_CARD_ERROR;
			for (int rec = afl[i + 1]; rec <= afl[i + 2]; ++rec) {
				Bytes d; uint16_t sw;
				if (!read(sfi, rec, d, sw)) return R_CARD_ERROR;
				if (sw != 0x9000) return R_CARD_ERROR;
				if (d.empty() || d[0] != 0x70) { if (sfi <= 10) return R_CARD_ERROR; oda = true; continue; }
				if (sfi <= 10) {
					RefTlv t = ref_ber(d.data(), d.size());
					if (t.r == REF_UNSPEC) throw Unspec();
					if (t.r <= 0) return R_CARD_ERROR;
					if (d[1] == 0x80 || d[1] > 0x81) throw Unspec(); // unusual length forms of the template
					if ((size_t)t.r != d.size()) return R_CARD_ERROR;
				}
				if (ref_flatten(d.data(), d.size(), out)) return R_CARD_ERROR;
			}
		}
		return R_OK;
	}
	int read_data(bool* oda_out = NULL)
	{
		const Fld* afl = ffind(icc, 0x94); if (!afl) return R_CARD_ERROR;
		Flds out; bool oda; int r = read_afl(afl->v, out, oda); if (r) return r;
		if (oda_out) *oda_out = oda;
		std::set<uint32_t> s; for (auto& f : out) if (!s.insert(f.tag).second) return R_CARD_ERROR;
		if (!s.count(0x5F24) || !s.count(0x5A) || !s.count(0x8C) || !s.count(0x8D)) return R_CARD_ERROR;
		icc.insert(icc.end(), out.begin(), out.end());
		return R_OK;
	}
	void reset() { params.clear(); icc.clear(); terminal.clear(); has_sel = false; initiated = false; }
};
#endif
