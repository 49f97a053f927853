#ifndef KERNEL_HPP
#define KERNEL_HPP
// C06-C12: EMV kernel against card models, compared with a reference terminal.
//   cand-*: candidate list   sel-*: selection   init-*: GPO   read-*: records
//   hostile-*: arbitrary replies   oom-*: allocation failure   hist-*: histories on one context
#include "vh.hpp"
#include "ref_term.hpp"
extern "C" {
#include "emv.h"
#include "emv_ttl.h"
#include "emv_tal.h"
#include "emv_app.h"
#include "emv_tlv.h"
#include "emv_tags.h"
#include "emv_fields.h"
#include "emv_dol.h"
}
static_assert(EMV_OUTCOME_CARD_ERROR == R_CARD_ERROR && EMV_OUTCOME_CARD_BLOCKED == R_BLOCKED && EMV_OUTCOME_NOT_ACCEPTED == R_NOT_ACCEPTED && EMV_OUTCOME_TRY_AGAIN == R_TRY_AGAIN && EMV_OUTCOME_GPO_NOT_ACCEPTED == R_GPO_NOT_ACCEPTED && EMV_ERROR_INTERNAL == R_INTERNAL && EMV_ERROR_INVALID_PARAMETER == R_PARAM, "enum");

// ---------------------------------------------------------------- generators
static Bytes cat_(std::initializer_list<Bytes> l) { Bytes o; for (auto& b : l) cat(o, b); return o; }
static Bytes gen_text(Rng& r, size_t max, bool alnum)
{
	static const char a[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZ abcdefghijklmnopqrstuvwxyz0123456789";
	Bytes b; size_t n = 1 + r.below(max);
	for (size_t i = 0; i < n; ++i) b.push_back(alnum || r.chance(70) ? a[r.below(sizeof(a) - 1)] : r.chance(80) ? r.range(0xA0, 0xFF) : r.u8());
	return b;
}
static const char* RIDS[] = {"A000000003", "A000000004", "A000000025", "A000000065", "A000000152", "A000000277", "D276000025"};
static Bytes gen_aid(Rng& r)
{
	Bytes a = from_hex(RIDS[r.below(r.chance(60) ? 2 : 7)]);
	static const char* px[] = {"", "10", "1010", "2010", "101003", "3060", "1010FF", "100000000000000000FFFF"};
	cat(a, from_hex(px[r.below(8)]));
	return a;
}
static Bytes gen_pdol(Rng& r)
{
	static const uint32_t t[] = {0x9F02, 0x9F03, 0x9F1A, 0x95, 0x5F2A, 0x9A, 0x9C, 0x9F37, 0x9F35, 0x9F45, 0x9F4C, 0x9F34, 0x9F06, 0x9F39, 0x9B, 0x9F66, 0x5F36, 0x9F33, 0x9F40, 0x9F41, 0xDF8101, 0x9F4E, 0x81};
	Bytes d; unsigned n = 1 + r.below(r.chance(85) ? 8 : 25);
	for (unsigned i = 0; i < n; ++i) { enc_tag(d, r.chance(92) ? r.pick(t) : gen_tag(r, false)); d.push_back(r.chance(90) ? r.below(9) : r.u8()); }
	if (r.chance(4)) { d.clear(); unsigned want = r.pick({124u, 125u, 126u, 127u, 128u, 129u, 250u, 251u, 252u, 253u, 254u}); unsigned a = r.below(want + 1); if (want - a > 255) a = want - 255; enc_tag(d, 0x9F02); d.push_back(a > 255 ? 255 : a); enc_tag(d, 0x9F37); d.push_back(want - (a > 255 ? 255 : a)); }
	if (r.chance(4)) mutate(r, d);
	if (d.size() > 100) d.resize(100);
	return d;
}
static Bytes gen_fci(Rng& r, const Bytes& df, bool defects)
{
	std::vector<Bytes> p;
	if (r.chance(85)) p.push_back(enc_tlv(0x50, r.chance(90) ? gen_text(r, 16, true) : gen_text(r, 40, false)));
	if (r.chance(60)) p.push_back(enc_tlv(0x87, {(uint8_t)(r.chance(70) ? r.below(16) : r.u8())}));
	if (r.chance(45)) p.push_back(enc_tlv(0x9F38, gen_pdol(r)));
	if (r.chance(30)) p.push_back(enc_tlv(0x5F2D, {'e', 'n'}));
	if (r.chance(40)) p.push_back(enc_tlv(0x9F11, {(uint8_t)(r.chance(85) ? 1 + r.below(15) : r.b8())}));
	if (r.chance(40)) p.push_back(enc_tlv(0x9F12, gen_text(r, r.chance(90) ? 16 : 30, false)));
	if (r.chance(25)) p.push_back(enc_tlv(0xBF0C, cat_({enc_tlv(0x9F4D, r.bytes(2)), r.chance(50) ? enc_tlv(0x9F0A, r.bytes(4)) : Bytes()})));
	if (r.chance(30)) r.shuffle(p);
	Bytes a5; for (auto& x : p) if (a5.size() + x.size() < 200) cat(a5, x);
	Bytes in = enc_tlv(0x84, df); cat(in, enc_tlv(0xA5, a5));
	unsigned k = defects ? r.below(14) : 99;
	if (k == 12) { Bytes x = enc_tlv(0x9F11, r.bytes(r.below(2) * 2)); cat(x, a5); in = cat_({enc_tlv(0x84, df), enc_tlv(0xA5, cat_({x, enc_tlv(0x9F12, gen_text(r, 16, false))}))}); }
	if (k == 13) in = cat_({enc_tlv(0x4F, gen_aid(r)), enc_tlv(0x84, df), enc_tlv(0xA5, a5)});
	if (k == 0) in = r.chance(50) ? enc_tlv(0xA5, a5) : cat_({enc_tlv(0x4F, df), enc_tlv(0xA5, a5)}); // no DF name
	if (k == 1) { Bytes d2 = df; d2.back() ^= 1; in = cat_({enc_tlv(0x84, d2), enc_tlv(0xA5, a5)}); }
	if (k == 2) in = cat_({enc_tlv(0x84, Bytes()), enc_tlv(0xA5, a5)});
	if (k == 3) in = cat_({enc_tlv(0xA5, a5), enc_tlv(0x84, df)});
	if (k == 4) in = cat_({enc_tlv(0x84, df), enc_tlv(0x84, gen_aid(r)), enc_tlv(0xA5, a5)});
	Bytes f = enc_tlv(k == 5 ? 0x6E : 0x6F, in);
	if (k == 6) cat(f, Bytes(1 + r.below(4), 0));              // padding
	if (k == 7) mutate(r, f);
	if (k == 8) f.resize(r.below(f.size()));
	if (k == 9) f = in;
	if (f.size() > 255) f.resize(255);
	return f;
}
static uint16_t gen_sw(Rng& r)
{
	static const uint16_t k[] = {0x6A82, 0x6283, 0x6A81, 0x6985, 0x6F00, 0x6D00, 0x6A86, 0x6983, 0x6700, 0x9001, 0x6300, 0x6200, 0x6A83, 0x6982, 0x6281, 0x6282, 0x63C1};
	return r.pick(k);
}
static Bytes gen_dir_entry(Rng& r, const Bytes& aid, bool defects)
{
	std::vector<Bytes> p; p.push_back(enc_tlv(0x4F, aid));
	if (r.chance(85)) p.push_back(enc_tlv(0x50, r.chance(90) ? gen_text(r, 16, true) : gen_text(r, 40, false)));
	if (r.chance(45)) p.push_back(enc_tlv(0x9F12, gen_text(r, r.chance(90) ? 16 : 30, false)));
	if (r.chance(65)) p.push_back(enc_tlv(0x87, {(uint8_t)(r.chance(70) ? r.below(16) : r.u8())}));
	if (r.chance(20)) p.push_back(enc_tlv(0x73, enc_tlv(0x9F0A, r.bytes(r.chance(85) ? 3 : r.below(140)))));
	if (r.chance(10)) p.push_back(enc_tlv(0x9F11, {(uint8_t)(1 + r.below(15))}));
	unsigned k = defects ? r.below(10) : 99;
	if (k == 0) p.erase(p.begin());
	if (k == 1) p.push_back(enc_tlv(0x87, Bytes()));
	if (k == 2) { p.erase(p.begin()); p.insert(p.begin(), enc_tlv(0x4F, Bytes())); }
	if (r.chance(30)) r.shuffle(p);
	Bytes in; for (auto& x : p) cat(in, x);
	if (k == 3) mutate(r, in);
	if (k == 4) in.push_back(r.u8());
	return enc_tlv(k == 5 ? 0x62 : 0x61, in);
}
static Bytes near_aid(Rng& r, const std::vector<Sup>& sup)
{
	Bytes a = sup.empty() || r.chance(15) ? gen_aid(r) : r.pick(sup).aid;
	unsigned k = r.below(10);
	if (k < 3) { size_t n = 1 + r.below(3); while (n-- && a.size() < 16) a.push_back(r.b8()); }
	if (k == 3 && a.size() > 5) a.pop_back();
	if (k == 4) a.back() ^= 1u << r.below(8);
	if (k == 5 && r.chance(20)) a.resize(20, 0x11);
	return a;
}
static std::vector<Sup> gen_sup(Rng& r, bool odd)
{
	std::vector<Sup> s; unsigned n = r.chance(5) ? 0 : 1 + r.below(5);
	for (unsigned i = 0; i < n; ++i) s.push_back({gen_aid(r), r.chance(60)});
	if (odd && n && r.chance(30)) s[r.below(n)].aid.resize(r.pick({1, 4, 17, 5, 16}), 0x22);
	return s;
}
static void gen_records(Rng& r, VCard::App& a, bool defects);
static VCard gen_card(Rng& r, const std::vector<Sup>& sup, unsigned defects)
{
	VCard c; unsigned n = r.below(6);
	for (unsigned i = 0; i < n; ++i) {
		VCard::App a; a.df = near_aid(r, sup); bool d = defects && r.chance(25);
		a.fci = gen_fci(r, a.df, d); a.sw = r.chance(defects ? 80 : 93) ? 0x9000 : r.chance(50) ? 0x6283 : gen_sw(r);
		gen_records(r, a, defects && r.chance(25));
		c.apps.push_back(a);
	}
	// like on real cards, order by nothing in particular
	c.pse = r.chance(65);
	if (c.pse) {
		uint8_t sfi = 1 + r.below(10);
		Bytes a5 = enc_tlv(0x88, {sfi});
		if (r.chance(40)) cat(a5, enc_tlv(0x5F2D, {'e', 'n', 'f', 'r'}));
		if (r.chance(50)) cat(a5, enc_tlv(0x9F11, {(uint8_t)(r.chance(85) ? 1 + r.below(15) : r.b8())}));
		unsigned k = defects ? r.below(14) : 99;
		if (k == 0) a5 = enc_tlv(0x5F2D, {'e', 'n'});
		if (k == 1) a5 = enc_tlv(0x88, {sfi, 0});
		if (k == 2) a5 = enc_tlv(0x88, {r.pick({(uint8_t)0, (uint8_t)31, (uint8_t)32, (uint8_t)0xFF, (uint8_t)30, (uint8_t)11})});
		if (k == 3) a5 = enc_tlv(0x88, Bytes());
		Bytes name((const uint8_t*)"1PAY.SYS.DDF01", (const uint8_t*)"1PAY.SYS.DDF01" + 14);
		Bytes f = enc_tlv(0x6F, cat_({enc_tlv(0x84, name), enc_tlv(0xA5, a5)}));
		if (k == 4) cat(f, Bytes(1 + r.below(5), 0));
		if (k == 5) mutate(r, f);
		c.pse_resp = {f, 0x9000, false};
		if (k == 6) c.pse_resp.sw = gen_sw(r);
		if (k == 7) c.pse_resp.sw = 0x6283;
		if ((c.pse_resp.sw >> 8) == 0x6A || c.pse_resp.sw == 0x6F00) c.pse_resp.data.clear();
		// directory: usually the apps, plus others
		std::vector<Bytes> dir; for (auto& a : c.apps) if (r.chance(90)) dir.push_back(a.df);
		unsigned ex = r.below(3); while (ex--) dir.push_back(near_aid(r, sup));
		if (r.chance(20)) r.shuffle(dir);
		int rec = 1; Bytes cur; std::vector<Bytes> recs;
		for (auto& a : dir) {
			Bytes e = gen_dir_entry(r, a, defects && r.chance(25));
			if (defects && r.chance(5)) cat(cur, enc_tlv(gen_tag(r, r.chance(50)), r.bytes(r.below(5))));
			if (cur.size() + e.size() > 240 || (!cur.empty() && r.chance(40))) { recs.push_back(cur); cur.clear(); }
			cat(cur, e);
		}
		if (!cur.empty()) recs.push_back(cur);
		for (auto& x : recs) {
			Bytes b = enc_tlv(0x70, x); unsigned q = defects ? r.below(30) : 99; Resp rs{b, 0x9000, false};
			if (q == 0) rs.data = enc_tlv(0x71, x); if (q == 1) mutate(r, rs.data); if (q == 2) rs.data.resize(r.below(b.size())); if (q == 3) cat(rs.data, r.bytes(1 + r.below(4)));
			if (q == 4) { rs.sw = gen_sw(r); if (rs.sw == 0x6A83) rs.sw = 0x6A82; if ((rs.sw >> 8) != 0x62 && (rs.sw >> 8) != 0x63) rs.data.clear(); }
			if (q == 5) rs.data.clear();
			if (rs.data.size() > 255) rs.data.resize(255);
			c.pse_recs[{sfi, rec++}] = rs;
			if (q == 6) ++rec; // gap: 6A83 ends the directory
		}
	}
	if (defects && r.chance(6)) c.unknown.sw = gen_sw(r);
	if (defects && r.chance(12)) { Resp x; x.fail = true; c.at[r.below(12)] = x; }
	if (defects && r.chance(6)) c.at[r.below(12)] = Resp{{}, gen_sw(r), false};
	return c;
}
static const uint32_t REC_TAGS[] = {0x57, 0x5F20, 0x9F1F, 0x5F25, 0x5F28, 0x5F34, 0x9F07, 0x8E, 0x9F0D, 0x9F0E, 0x9F0F, 0x9F4A, 0x8F, 0x90, 0x92, 0x9F32, 0x93, 0x9F46, 0x9F47, 0x9F08, 0x5F30, 0x9F42, 0x9F44, 0x9F69};
static void gen_records(Rng& r, VCard::App& a, bool defects)
{
	// fields spread over the records of 1-4 AFL entries
	std::vector<Fld> fs; std::set<uint32_t> used;
	uint32_t miss = defects && r.chance(15) ? r.pick({0x5F24u, 0x5Au, 0x8Cu, 0x8Du}) : 0; bool big = r.chance(12), many = r.chance(2);
	for (uint32_t t : {0x5F24u, 0x5Au, 0x8Cu, 0x8Du}) { if ((defects && r.chance(6)) || t == miss) continue; size_t len = 1 + r.below(10); if (big && r.chance(50)) len = r.chance(50) ? r.pick({0, 30, 127, 128, 129, 200, 240}) : r.below(241); fs.push_back({t, r.bytes(len)}); }
	unsigned n = many ? 200 + r.below(200) : r.below(10);
	for (unsigned i = 0; i < n; ++i) { uint32_t t = many && i > 20 ? 0xDF8100 + i / 100 * 0x100 + i % 100 : r.chance(95) ? r.pick(REC_TAGS) : gen_tag(r, false); if (!used.insert(t).second || t == 0x5F24 || t == 0x5A || t == 0x8C || t == 0x8D) continue; fs.push_back({t, r.bytes(many ? r.below(8) : r.chance(90) ? r.below(20) : r.below(120))}); }
	// nearly the tag of another field: no duplicate
	if (!fs.empty() && r.chance(15)) { uint32_t t = r.pick(fs).tag; t = t > 0xFFFF ? t ^ 1u << r.pick({16, 22, 23}) : t > 0xFF ? t ^ 1u << r.pick({14, 15}) : 0x9F00 | (t & 0x7F); static const std::set<uint32_t> m = {0x5F24, 0x5A, 0x8C, 0x8D}; bool in = m.count(t); for (auto& f : fs) if (f.tag == t) in = true; if (!in && !(t & (t > 0xFFFF ? 0x200000 : t > 0xFF ? 0x2000 : 0x20))) { fs.push_back({t, r.bytes(2)}); vh_obs("near-tags"); } }
	if (defects && r.chance(15)) fs.push_back({r.pick(fs.empty() ? std::vector<Fld>{{0x5A, {}}} : fs).tag, r.bytes(3)});
	r.shuffle(fs);
	unsigned ne = many ? (r.chance(30) ? 46 + r.below(17) : 1 + r.below(48)) : (big ? 3 : 1) + r.below(4); Bytes afl; size_t fi = 0;
	struct Slot { int sfi, rec; }; std::vector<Slot> slots;
	for (unsigned e = 0; e < ne; ++e) {
		int sfi = r.chance(75) ? 1 + r.below(10) : 11 + r.below(20);
		int f = r.chance(85) ? 1 + r.below(4) : 1 + r.below(255), l = std::min(255, f + (int)r.below(4));
		if (r.chance(3)) { l = 255; f = 253 + r.below(3); }
		int oda = r.below(l - f + 2);
		afl.push_back(sfi << 3); afl.push_back(f); afl.push_back(l); afl.push_back(oda);
		for (int k = f; k <= l; ++k) slots.push_back({sfi, k});
	}
	for (size_t s = 0; s < slots.size(); ++s) {
		bool dup = false; for (size_t q = 0; q < s; ++q) if (slots[q].sfi == slots[s].sfi && slots[q].rec == slots[s].rec) dup = true;
		if (dup) continue; // listed twice: the same record is read again
		size_t left = slots.size() - s, take = s + 1 == slots.size() ? fs.size() - fi : std::min(fs.size() - fi, (fs.size() - fi) / left + r.below(2));
		Bytes in; for (; take && in.size() < 200; --take, ++fi) { Bytes x = enc_tlv(fs[fi].tag, fs[fi].v); if (in.size() + x.size() > 250) break; if (r.chance(10)) x = enc_tlv(gen_tag(r, true), x); cat(in, x); }
		Resp rs{enc_tlv(0x70, in), 0x9000, false};
		if (slots[s].sfi > 10 && r.chance(15)) rs.data = r.chance(50) ? r.bytes(1 + r.below(20)) : enc_tlv(0x71, in);
		if (slots[s].sfi > 10 && r.chance(10)) cat(rs.data, enc_tlv(0x70, enc_tlv(0xDF01 + s, r.bytes(2))));
		unsigned q = defects ? r.below(14) : 99;
		if (q == 0) rs.data[0] = r.pick({(uint8_t)0x71, (uint8_t)0x77, (uint8_t)0x00, (uint8_t)0x50});
		if (q == 1) { unsigned y = r.below(3); cat(rs.data, y == 0 ? Bytes(1 + r.below(4), 0) : y == 1 ? enc_tlv(0x9F08, r.bytes(2)) : r.chance(50) ? enc_tlv(0x5A, Bytes()) : r.bytes(1 + r.below(4))); }
		if (q == 2) mutate(r, rs.data);
		if (q == 3) { rs.sw = gen_sw(r); if (!((rs.sw >> 8) == 0x62 || (rs.sw >> 8) == 0x63 || rs.sw == 0x9001) || r.chance(30)) rs.data.clear(); else vh_obs("warning-with-record"); }
		if (q == 4) rs.data.clear();
		if (q == 5) rs.fail = true;
		if (q == 6) rs.data.resize(r.below(rs.data.size()));
		if (rs.data.size() > 256) rs.data.resize(256);
		a.recs[{slots[s].sfi, slots[s].rec}] = rs;
	}
	if (defects && r.chance(30)) { unsigned q = r.below(5); size_t p = r.below(afl.size()); if (q == 0) afl[p] = r.b8(); if (q == 1) afl.pop_back(); if (q == 2) afl.clear(); if (q == 3) afl[p] ^= 1u << r.below(8); if (q == 4) afl[p / 4 * 4] |= 1 + r.below(7); }
	Bytes aip = r.bytes(2);
	if (r.chance(50) || afl.size() > 226) { if (afl.size() > 200) vh_obs("long-afl"); Bytes v = aip; cat(v, afl); a.gpo.data = enc_tlv(0x80, v); }
	else {
		std::vector<Bytes> p; p.push_back(enc_tlv(0x82, aip)); p.push_back(enc_tlv(0x94, afl)); if (r.chance(30)) p.push_back(enc_tlv(0x9F36, r.bytes(2))); if (r.chance(20)) p.push_back(enc_tlv(0x9F26, r.bytes(8)));
		if (r.chance(30)) r.shuffle(p);
		if (defects && r.chance(20)) p.erase(p.begin() + r.below(p.size()));
		Bytes v; for (auto& x : p) cat(v, x);
		a.gpo.data = enc_tlv(0x77, v);
	}
	unsigned q = defects ? r.below(16) : 99;
	if (q == 0) mutate(r, a.gpo.data);
	if (q == 1) a.gpo.data.clear();
	if (q == 2) { a.gpo.sw = 0x6985; a.gpo.data.clear(); }
	if (q == 3) { a.gpo.sw = gen_sw(r); bool w = a.gpo.sw == 0x9001 || (a.gpo.sw >> 8) == 0x62 || (a.gpo.sw >> 8) == 0x63; if (!w) a.gpo.data.clear(); else vh_obs("warning-with-gpo"); }
	if (q == 4) a.gpo.data[0] = r.pick({(uint8_t)0x77, (uint8_t)0x80, (uint8_t)0x70, (uint8_t)0x83});
	if (q == 5) a.gpo.data.resize(r.below(a.gpo.data.size()));
	if (q == 6) a.gpo.fail = true;
	if (q == 7) cat(a.gpo.data, r.bytes(1 + r.below(4)));
	if (a.gpo.data.size() > 256) a.gpo.data.resize(256);
	// T=0 cannot carry a warning without data for these commands
}
static void gen_params(Rng& r, Flds& params, Flds& config)
{
	params.clear(); config.clear();
	static const uint32_t p[] = {0x9F02, 0x9F03, 0x5F2A, 0x9A, 0x9C, 0x9F21, 0x9F41, 0x81, 0x9F37, 0x5F36};
	static const uint32_t c[] = {0x9F1A, 0x9F33, 0x9F40, 0x9F35, 0x9F15, 0x9F1E, 0x9F4E, 0x9F01, 0x9F66, 0x5F2A};
	for (uint32_t t : p) if (r.chance(70)) params.push_back({t, r.bytes(r.chance(90) ? 1 + r.below(8) : r.below(30))});
	for (uint32_t t : c) if (r.chance(70)) config.push_back({t, r.bytes(r.chance(90) ? 1 + r.below(8) : r.below(30))});
	if (r.chance(15)) params.push_back({r.pick({0x95u, 0x9F39u, 0x9F06u, 0x9Bu}), r.bytes(3)});
	if (r.chance(10)) r.shuffle(params);
}

// ---------------------------------------------------------------- observation of the code under test
static Flds snap(const struct emv_tlv_list_t* l)
{
	Flds f; for (const struct emv_tlv_t* t = l->front; t; t = t->next) { VH_DEFINED(t->value, t->length, "tlv-value"); f.push_back({t->tag, Bytes(t->value, t->value + t->length)}); }
	return f;
}
static std::string show(const Flds& f) { std::string s; for (auto& x : f) s += vh_fmt("%X=", x.tag) + vh_hex(x.v) + " "; return s.substr(0, 700); }
static void same_app(const struct emv_app_t* a, const MApp& m, const char* what, bool moved = false)
{
	VH_CHECK(a->aid != NULL, "aid", "%s: application has no AID", what);
	VH_CHECK(Bytes(a->aid->value, a->aid->value + a->aid->length) == m.aid, "aid", "%s: AID %s, expected %s", what, vh_hex(a->aid->value, a->aid->length).c_str(), vh_hex(m.aid).c_str());
	VH_DEFINED(a->display_name, strnlen(a->display_name, sizeof(a->display_name)) + 1, "display-name");
	VH_CHECK(memchr(a->display_name, 0, sizeof(a->display_name)) != NULL, "display-name", "not terminated");
	VH_CHECK(utf8_valid(a->display_name), "display-name", "%s: %s is not UTF-8", what, vh_hex(a->display_name, strlen(a->display_name)).c_str());
	VH_CHECK(m.name_any || m.name == a->display_name, "display-name", "%s: name '%s', expected '%s' for %s", what, a->display_name, m.name.c_str(), show(m.tlvs).c_str());
	VH_CHECK(a->priority == m.prio && a->confirmation_required == m.conf, "priority", "%s: priority %u/%d, expected %u/%d", what, a->priority, a->confirmation_required, m.prio, m.conf);
	if (!moved) { Flds f = snap(&a->tlv_list); VH_CHECK(f == m.tlvs, "app-data", "%s: fields %s, expected %s", what, show(f).c_str(), show(m.tlvs).c_str()); }
}
static void same_list(const struct emv_app_list_t* l, const std::vector<MApp>& m, const char* what)
{
	size_t i = 0; const struct emv_app_t* last = NULL;
	std::string got, want; for (auto a = l->front; a; a = a->next) got += (a->aid ? vh_hex(a->aid->value, a->aid->length) : "-") + vh_fmt("/%u ", a->priority);
	for (auto& a : m) want += vh_hex(a.aid) + vh_fmt("/%u ", a.prio);
	for (const struct emv_app_t* a = l->front; a; a = a->next, ++i) {
		VH_CHECK(i < m.size(), "candidates", "%s: candidates %s expected %s", what, got.c_str(), want.c_str());
		VH_CHECK(a->aid && Bytes(a->aid->value, a->aid->value + a->aid->length) == m[i].aid, "candidates", "%s: candidates %s expected %s", what, got.c_str(), want.c_str());
		same_app(a, m[i], what); last = a;
	}
	VH_CHECK(i == m.size(), "candidates", "%s: candidates %s expected %s", what, got.c_str(), want.c_str());
	VH_CHECK(l->back == last, "list-back", "%s: back of list", what);
	VH_CHECK(emv_app_list_is_empty(l) == m.empty(), "list-empty", "%s", what);
	bool req = m.size() > 1; for (auto& a : m) if (a.conf) req = true;
	VH_CHECK(emv_app_list_selection_is_required(l) == req, "selection-required", "%s: %d", what, !req);
}

struct Bench {  // context under test and reference side by side
	struct emv_ctx_t ctx; struct emv_ttl_t ttl; struct emv_app_list_t list = EMV_APP_LIST_INIT;
	RefTerm ref; VCard card, mcard; Link link; bool alive = false; Rng* r;
	std::string story;
	Bench(Rng& rr, const std::vector<Sup>& sup, bool tpdu) : link(&card, tpdu, rr.next()), r(&rr)
	{
		vh_alloc_reset();
		ttl.cardreader = {tpdu ? EMV_CARDREADER_MODE_TPDU : EMV_CARDREADER_MODE_APDU, &link, link_trx};
		VH_CHECK(emv_ctx_init(&ctx, &ttl) == 0, "init", "emv_ctx_init");
		alive = true; ref.card = &mcard; ref.sup = sup;
		for (auto& s : sup) emv_tlv_list_push(&ctx.supported_aids, EMV_TAG_9F06_AID, s.aid.size(), s.aid.data(), s.partial ? EMV_ASI_PARTIAL_MATCH : EMV_ASI_EXACT_MATCH);
	}
	void insert(const VCard& c) { card = c; mcard = c; card.reset(); mcard.reset(); link.st = Link::IDLE; }
	void set_params(const Flds& p, const Flds& c)
	{
		emv_tlv_list_clear(&ctx.params); emv_tlv_list_clear(&ctx.config);
		for (auto& f : p) emv_tlv_list_push(&ctx.params, f.tag, f.v.size(), f.v.data(), 0);
		for (auto& f : c) emv_tlv_list_push(&ctx.config, f.tag, f.v.size(), f.v.data(), 0);
		ref.params = p; ref.config = c;
	}
	void step_done(const char* what, int got, int want, bool judge_ret = true)
	{
		story += vh_fmt("%s=%d ", what, got);
		vh_note("%s", story.c_str());
		VH_CHECK(link.err.empty(), "card-sees", "%s: %s", what, link.err.c_str());
		size_t k = std::min(link.log.size(), ref.log.size());
		for (size_t i = 0; i < k; ++i) VH_CHECK(link.log[i] == ref.log[i], "commands", "%s: command %zu is %s, expected %s", what, i, vh_hex(link.log[i]).c_str(), vh_hex(ref.log[i]).c_str());
		if (link.log.size() != ref.log.size()) {
			std::string t; auto& L = link.log.size() > ref.log.size() ? link.log : ref.log;
			for (size_t i = 0; i < L.size(); ++i) t += vh_fmt(" [%zu] %s", i, vh_hex(L[i]).c_str());
			for (auto& q : ref.list) t += " listed " + vh_hex(q.aid);
			fprintf(stderr, "%s transcript:%s\n", what, t.c_str());
		}
		VH_CHECK(link.log.size() == ref.log.size(), "commands", "%s: %zu commands sent, expected %zu; next %s", what, link.log.size(), ref.log.size(), link.log.size() > k ? vh_hex(link.log[k]).c_str() : vh_hex(ref.log[k]).c_str());
		vh_obs("commands-compared", k);
		if (judge_ret) VH_CHECK(got == want, "result", "%s returned %d, expected %d (%s)", what, got, want, story.c_str());
		VH_CHECK(snap(&ctx.params) == ref.params, "params-intact", "%s changed the transaction parameters", what);
		VH_CHECK(snap(&ctx.config) == ref.config, "config-intact", "%s changed the configuration", what);
		size_t i = 0; for (auto t = ctx.supported_aids.front; t; t = t->next, ++i) VH_CHECK(i < ref.sup.size() && t->tag == 0x9F06 && Bytes(t->value, t->value + t->length) == ref.sup[i].aid && t->flags == (ref.sup[i].partial ? EMV_ASI_PARTIAL_MATCH : EMV_ASI_EXACT_MATCH), "aids-intact", "%s changed the supported AIDs", what);
		VH_CHECK(i == ref.sup.size(), "aids-intact", "%s changed the supported AIDs", what);
		VH_CHECK(ctx.ttl == &ttl, "ttl-intact", "%s changed the transport", what);
		link.log.clear(); ref.log.clear();
	}
	void same_sel(const char* what)
	{
		VH_CHECK((ctx.selected_app != NULL) == ref.has_sel, "selected", "%s: application selected=%d, expected %d", what, ctx.selected_app != NULL, ref.has_sel);
		if (ref.has_sel) { same_app(ctx.selected_app, ref.sel, what, ref.initiated); VH_CHECK(!ctx.selected_app->next, "selected", "linked"); if (ref.initiated) VH_CHECK(emv_tlv_list_is_empty(&ctx.selected_app->tlv_list), "app-data-moved", "%s", what); }
	}
	void same_icc(const char* what) { Flds f = snap(&ctx.icc); VH_CHECK(f == ref.icc, "icc-data", "%s: card data %s, expected %s", what, show(f).c_str(), show(ref.icc).c_str()); }
	int build()
	{
		emv_app_list_clear(&list);
		int w = ref.build();
		int g = emv_build_candidate_list(&ctx, &list);
		step_done("build", g, w);
		if (w == 0 || w == R_NOT_ACCEPTED) same_list(&list, ref.list, "build"); else { emv_app_list_clear(&list); ref.list.clear(); }
		same_sel("build"); same_icc("build");
		return g;
	}
	int select(unsigned i)
	{
		int w = ref.select_app(i); int g = emv_select_application(&ctx, &list, i);
		step_done("select", g, w); same_sel("select"); same_list(&list, ref.list, "select"); same_icc("select");
		return g;
	}
	int initiate(uint8_t pos)
	{
		int w = ref.initiate(pos); int g = emv_initiate_application_processing(&ctx, pos);
		step_done("initiate", g, w); same_sel("initiate"); same_icc("initiate"); same_list(&list, ref.list, "initiate");
		if (w == 0) { Flds f = snap(&ctx.terminal), m = ref.terminal; auto by = [](const Fld& a, const Fld& b) { return a.tag < b.tag; }; std::sort(f.begin(), f.end(), by); std::sort(m.begin(), m.end(), by); VH_CHECK(f == m, "terminal-data", "terminal data %s, expected %s", show(f).c_str(), show(m).c_str()); }
		return g;
	}
	int read(bool* oda = NULL)
	{
		int w = ref.read_data(oda); int g = emv_read_application_data(&ctx);
		step_done("read", g, w); same_sel("read"); same_icc("read");
		return g;
	}
	void reset() { ref.reset(); VH_CHECK(emv_ctx_reset(&ctx) == 0, "reset", "emv_ctx_reset"); same_sel("reset"); same_icc("reset"); VH_CHECK(snap(&ctx.params).empty() && snap(&ctx.terminal).empty(), "reset", "data left after reset"); }
	void end(bool check = true)
	{
		if (!alive) return;
		alive = false;
		emv_app_list_clear(&list);
		int r1 = emv_ctx_clear(&ctx);
		if (check) {
			VH_CHECK(r1 == 0 && !ctx.ttl && !ctx.selected_app && emv_tlv_list_is_empty(&ctx.icc) && emv_tlv_list_is_empty(&ctx.config) && emv_tlv_list_is_empty(&ctx.params) && emv_tlv_list_is_empty(&ctx.terminal) && emv_tlv_list_is_empty(&ctx.supported_aids), "clear", "emv_ctx_clear leaves data");
			vh_alloc_expect_none("leak");
		}
	}
	~Bench() { end(false); }
};
static const char* retname(int r) { switch (r) { case 0: return "ok"; case 1: return "card-error"; case 2: return "card-blocked"; case 3: return "not-accepted"; case 4: return "try-again"; case 5: return "gpo-not-accepted"; case -1: return "internal"; case -2: return "invalid-parameter"; } return "other"; }
static void obs_ret(const char* w, int r) { vh_obs(std::string(w) + ":" + retname(r)); }

// ---------------------------------------------------------------- C06
static void s_cand(Rng& r, uint64_t)
{
	std::vector<Sup> sup = gen_sup(r, r.chance(10)); unsigned def = r.chance(50) ? 0 : 1;
	Bench b(r, sup, r.chance(40));
	VCard c = gen_card(r, sup, def); b.insert(c);
	try {
		int g = b.build(); obs_ret("build", g);
		if (g == 0) {
			bool viapse = false; for (auto& a : b.ref.list) if (ffind(a.tlvs, 0x4F)) viapse = true;
			vh_obs(viapse ? "via-pse" : "via-aid-list"); if (b.ref.list.size() > 1) vh_obs("several-candidates");
			for (auto& a : b.ref.list) { if (a.prio) vh_obs("with-priority"); if (a.conf) vh_obs("needs-confirmation"); if (!a.name_any) vh_obs("named"); }
			uint64_t h = 0; for (auto& a : b.ref.list) h = vh_hash(a.aid, h * 31 + a.prio) ^ vh_hash(a.name); vh_distinct(h);
			std::string s; for (auto& a : b.ref.list) s += vh_hex(a.aid) + " '" + a.name + "' prio " + std::to_string(a.prio) + "; "; vh_sample(s);
		}
	} catch (Unspec&) { vh_obs("not-judged"); return; }
	b.end();
}
// both ways to candidates at the TAL interface, with their results
static void s_cand_tal(Rng& r, uint64_t)
{
	std::vector<Sup> sup = gen_sup(r, r.chance(10)); Bench b(r, sup, r.chance(40)); VCard c = gen_card(r, sup, r.chance(20) ? 0 : 1); b.insert(c);
	try {
		bool pse = r.chance(60); int w = pse ? b.ref.read_pse() : b.ref.find_supported();
		int g = pse ? emv_tal_read_pse(&b.ttl, &b.ctx.supported_aids, &b.list) : emv_tal_find_supported_apps(&b.ttl, &b.ctx.supported_aids, &b.list);
		b.step_done(pse ? "read-pse" : "find-supported", g, w);
		if (g < 0 && !pse) { emv_app_list_clear(&b.list); b.ref.list.clear(); }
		same_list(&b.list, b.ref.list, pse ? "read-pse" : "find-supported");
		vh_obs(vh_fmt("%s:%d", pse ? "pse" : "aids", g)); vh_distinct(vh_hash(vh_fmt("%d %d %zu", pse, g, b.ref.list.size())) ^ vh_hash(c.pse_resp.data));
	} catch (Unspec&) { vh_obs("not-judged"); return; }
	b.end();
}
// every combination of three priorities, via PSE (i < 4096) or list of AIDs
static void s_prio(Rng& r, uint64_t i)
{
	std::vector<Sup> sup = {{from_hex("A000000003"), true}, {from_hex("A0000000041010"), false}};
	VCard c; uint8_t p[4] = {(uint8_t)(i & 15), (uint8_t)(i >> 4 & 15), (uint8_t)(i >> 8 & 15), (uint8_t)(r.below(16))}; bool pse = i < 4096;
	for (int k = 0; k < 4; ++k) {
		Bytes aid = from_hex("A000000003"); aid.push_back(0x10 + k); if (k == 2) aid = from_hex("A0000000041010");
		Bytes pr = p[k] || (i & 1) ? enc_tlv(0x87, {(uint8_t)(p[k] | (r.chance(20) ? 0x80 : 0) | (r.chance(20) ? 0x70 : 0))}) : Bytes();
		VCard::App a; a.df = aid; a.fci = enc_tlv(0x6F, cat_({enc_tlv(0x84, aid), enc_tlv(0xA5, cat_({enc_tlv(0x50, {'A'}), pr}))})); c.apps.push_back(a);
		if (pse) c.pse_recs[{1, k + 1}] = Resp{enc_tlv(0x70, enc_tlv(0x61, cat_({enc_tlv(0x4F, aid), enc_tlv(0x50, {'A'}), pr}))), 0x9000, false};
	}
	if (pse) { c.pse = true; c.pse_resp.data = from_hex("6F15840E315041592E5359532E4444463031A503880101"); }
	Bench b(r, sup, false); b.insert(c);
	VH_CHECK(b.build() == 0, "build", "candidates expected"); VH_CHECK(b.ref.list.size() == 4, "oracle", "model has %zu", b.ref.list.size());
	vh_obs("priority-orders"); vh_distinct(i * 7919 + 13);
	b.end();
}
// long directories: many records up to 255, card that never ends the directory
static VCard long_card(Rng& r, int n, int per)
{
	VCard c; c.pse = true; c.pse_resp.data = from_hex("6F15840E315041592E5359532E4444463031A503880101");
	int k = 0; for (int rec = 1; rec <= 255 && k < n; ++rec) {
		Bytes x; for (int j = 0; j < per && k < n; ++j, ++k) {
			Bytes aid = from_hex("A0000000031010"); aid.push_back(k >> 8); aid.push_back(k);
			uint8_t p = r.below(16);
			cat(x, enc_tlv(0x61, cat_({enc_tlv(0x4F, aid), enc_tlv(0x87, {p})})));
			VCard::App a; a.df = aid; a.fci = enc_tlv(0x6F, cat_({enc_tlv(0x84, aid), enc_tlv(0xA5, cat_({enc_tlv(0x50, {'A'}), enc_tlv(0x87, {p})}))})); a.sw = 0x9000; c.apps.push_back(a);
		}
		c.pse_recs[{1, rec}] = Resp{enc_tlv(0x70, x), 0x9000, false};
	}
	return c;
}
static void s_long(Rng& r, uint64_t i)
{
	std::vector<Sup> sup = {{from_hex("A000000003"), true}};
	int n = i == 0 ? 255 : i == 1 ? 254 : i == 2 ? 257 : i == 3 ? 256 : i < 6 ? 258 + r.below(700) : 1 + r.below(255);
	VCard c = long_card(r, n, i < 2 || i > 5 ? 1 : 2 + r.below(11)); n = c.apps.size();
	if (i == 5 || i == 6) { c.pse = false; n = std::min(n, 256); } // one AID, many occurrences: bounded
	if (i == 4) { // many supported AIDs, the last one counts
		sup.clear(); for (int k = 0; k < 300; ++k) { Bytes a = from_hex("A000000004"); a.push_back(k >> 8); a.push_back(k); sup.push_back({a, r.chance(50)}); } sup.push_back({from_hex("A000000003"), true});
		vh_obs("many-supported");
	}
	if (i == 7) { // many supported AIDs and no directory
		c.pse = false; sup.clear(); for (int k = 0; k < 290; ++k) { Bytes a = from_hex("A0000000031010"); a.push_back(k >> 8); a.push_back(k); sup.push_back({a, false}); }
		n = std::min(n, 290); vh_obs("many-supported");
	}
	Bench b(r, sup, false); b.link.max = 5000; b.insert(c); VH_CHECK(b.build() == 0, "build", "candidates expected"); VH_CHECK((int)b.ref.list.size() == n, "oracle", "model has %zu of %d", b.ref.list.size(), n);
	vh_obs("long-directory"); if (n > 256) vh_obs("many-candidates"); b.end();
}
static void s_sel_long(Rng& r, uint64_t i)
{
	std::vector<Sup> sup = {{from_hex("A000000003"), true}};
	VCard c = long_card(r, i == 0 ? 257 : 258 + r.below(700), 3 + r.below(10));
	Bench b(r, sup, r.chance(30)); b.link.max = 5000; b.insert(c);
	VH_CHECK(b.build() == 0, "build", "candidates expected");
	for (unsigned k : {256u, 255u, 1024u + (unsigned)r.below(9), 0u, 3u + (unsigned)r.below(400), 257u, 0x10000u, 0x100u * (1 + (unsigned)r.below(3))}) {
		size_t n = b.ref.list.size(); if (k == 3) k = n - 1;
		int g = b.select(k); obs_ret("select", g); if (g == 0 && k >= 256) vh_obs("select-beyond-255");
	}
	b.end();
}

// ---------------------------------------------------------------- C07
static void s_sel(Rng& r, uint64_t)
{
	std::vector<Sup> sup = gen_sup(r, false); if (sup.empty()) return; unsigned def = r.chance(40) ? 0 : 1;
	Bench b(r, sup, r.chance(40));
	try {
		VCard c = gen_card(r, sup, def); if (c.apps.empty()) return;
		b.insert(c);
		if (b.build()) return;
		// the card may answer differently at selection time
		for (auto& a : b.card.apps) if (r.chance(35)) { if (r.chance(40)) a.sw = r.chance(15) ? 0x6A81 : gen_sw(r); else a.fci = gen_fci(r, a.df, true); }
		if (r.chance(10)) b.card.at[b.card.n + r.below(3)] = Resp{{}, 0, true};
		b.mcard = b.card;
		size_t len0 = b.ref.list.size(); unsigned steps = 1 + r.below(5); std::string seq;
		while (steps--) {
			size_t n = b.ref.list.size();
			unsigned i = n && r.chance(92) ? r.below(n) : n + r.below(3); if (r.chance(1)) i = 0xFFFFFFFFu;
			int g = b.select(i); obs_ret("select", g); seq += vh_fmt("%u/%zu=%d ", i, n, g);
			if (g == 0 && n > 1) vh_obs(i == 0 ? "select-first" : i + 1 == n ? "select-last" : "select-middle");
			if (g == 0 && r.chance(50)) break;
		}
		vh_distinct(vh_hash(seq)); vh_sample(vh_fmt("%zu candidates: ", len0) + seq);
	} catch (Unspec&) { vh_obs("not-judged"); return; }
	b.end();
}
// the candidate list operations themselves, against a vector
static void s_sel_list(Rng& r, uint64_t)
{
	vh_alloc_reset();
	struct emv_app_list_t l = EMV_APP_LIST_INIT; std::vector<struct emv_app_t*> m; unsigned serial = 0; std::string seq; bool many = r.below(1000) < 5;
	auto pr = [](struct emv_app_t* a) { return a->priority ? a->priority : 16u; };
	for (unsigned steps = many ? 700 : 1 + r.below(30); steps; --steps) {
		unsigned op = r.below(10); if (many && r.chance(90)) op = 0;
		if (op < 5) {
			Bytes d = enc_tlv(0x4F, {0xA0, 0, 0, 0, 3, (uint8_t)(serial >> 8), (uint8_t)serial}); ++serial; cat(d, enc_tlv(0x50, {'A'})); if (r.chance(75)) cat(d, enc_tlv(0x87, {(uint8_t)(r.below(16) | (r.chance(25) ? 0x80 : 0))})); struct emv_tlv_list_t pse = EMV_TLV_LIST_INIT; Exact e(d);
			struct emv_app_t* a = emv_app_create_from_pse(&pse, e.p, e.n); VH_CHECK(a, "list", "application not created from %s", vh_hex(d).c_str()); VH_CHECK(emv_app_list_push(&l, a) == 0, "list", "push"); m.push_back(a); seq += "p";
		} else if (op == 5) { struct emv_app_t* a = emv_app_list_pop(&l); VH_CHECK(a == (m.empty() ? NULL : m[0]), "list", "pop of %zu", m.size()); seq += "o"; if (a) { m.erase(m.begin()); VH_CHECK(!a->next && emv_app_free(a) == 0, "list", "popped application still linked"); vh_obs("list-pop"); } }
		else if (op < 8) { unsigned i = r.chance(90) && !m.empty() ? r.below(m.size()) : r.chance(50) ? m.size() + r.below(3) : r.u32() | 0x100; struct emv_app_t* a = emv_app_list_remove_index(&l, i); VH_CHECK(a == (i < m.size() ? m[i] : NULL), "list", "remove %u of %zu", i, m.size()); seq += vh_fmt("r%u/%zu", i, m.size()); if (a) { vh_obs(m.size() == 1 ? "list-remove-only" : i == 0 ? "list-remove-first" : i + 1 == m.size() ? "list-remove-last" : "list-remove-middle"); m.erase(m.begin() + i); VH_CHECK(!a->next && emv_app_free(a) == 0, "list", "removed application still linked"); } }
		else if (op == 8) { VH_CHECK(emv_app_list_sort_priority(&l) == 0, "list", "sort"); std::stable_sort(m.begin(), m.end(), [&](struct emv_app_t* a, struct emv_app_t* b) { return pr(a) < pr(b); }); seq += "s"; vh_obs("list-sort"); }
		else if (r.chance(10)) { emv_app_list_clear(&l); m.clear(); seq += "c"; }
		size_t i = 0; struct emv_app_t* last = NULL; bool conf = false; std::string got, want; for (auto a = l.front; a && i <= m.size(); a = a->next, ++i) { VH_CHECK(i < m.size() && a == m[i], "list", "after %s: application %zu of %zu is another", seq.c_str(), i, m.size()); last = a; conf |= a->confirmation_required; }
		VH_CHECK(i == m.size() && l.back == last && emv_app_list_is_empty(&l) == m.empty(), "list", "after %s: %zu applications, %zu expected, back %d", seq.c_str(), i, m.size(), l.back == last);
		VH_CHECK(emv_app_list_selection_is_required(&l) == (conf || m.size() > 1), "selection-required", "after %s", seq.c_str()); vh_obs("list-compared");
	}
	emv_app_list_clear(&l); VH_CHECK(!l.front && !l.back, "list", "not cleared"); vh_distinct(vh_hash(seq)); vh_alloc_expect_none("leak");
}
static void s_supported(Rng& r, uint64_t)
{
	Bytes aid = gen_aid(r); struct emv_tlv_list_t l = EMV_TLV_LIST_INIT; bool want = false; std::string what = vh_hex(aid) + ":"; unsigned n = r.below(200) == 0 ? 250 + r.below(20) : r.below(6);
	for (unsigned i = 0; i < n; ++i) {
		Bytes a = r.chance(40) ? gen_aid(r) : aid; unsigned k = r.below(6); if (k == 0 && a.size() > 5) a.resize(5 + r.below(a.size() - 4)); if (k == 1) a[r.below(a.size())] ^= 1 << r.below(8); if (k == 2 && a.size() < 16) a.push_back(r.b8());
		if (n > 200 && i + 1 < n) a[0] ^= 0x10; // only the last one may match
		bool part = r.chance(50); VH_CHECK(emv_tlv_list_push(&l, EMV_TAG_9F06_AID, a.size(), a.data(), part ? EMV_ASI_PARTIAL_MATCH : EMV_ASI_EXACT_MATCH) == 0, "push", "push"); if (n < 9) what += " " + vh_hex(a) + (part ? "*" : "");
		if (a.size() <= aid.size() && !memcmp(a.data(), aid.data(), a.size()) && (part || a.size() == aid.size())) want = true;
	}
	Bytes fci = enc_tlv(0x6F, cat_({enc_tlv(0x84, aid), enc_tlv(0xA5, enc_tlv(0x50, {'A'}))})); Exact e(fci); struct emv_app_t* a = emv_app_create_from_fci(e.p, e.n); VH_CHECK(a, "create", "FCI %s refused", vh_hex(fci).c_str());
	VH_CHECK(emv_app_is_supported(a, &l) == want, "supported", "%s is%s reported as supported", what.c_str(), want ? " not" : ""); vh_obs(want ? "supported" : "not-supported"); vh_distinct(vh_hash(what));
	emv_app_free(a); emv_tlv_list_clear(&l);
}
// ---------------------------------------------------------------- C08
static VCard::App simple_app(Rng& r, const Bytes& pdol, bool has_pdol)
{
	VCard::App a; a.df = from_hex("A0000000031010"); if (r.chance(50)) { a.df = from_hex("A000000003"); cat(a.df, r.bytes(r.chance(30) ? 11 : r.below(12))); }
	if (a.df.size() == 16) vh_obs("aid-16-bytes"); if (a.df.size() == 5) vh_obs("aid-5-bytes");
	Bytes a5 = enc_tlv(0x50, {'V'}); if (has_pdol) cat(a5, enc_tlv(0x9F38, pdol)); if (r.chance(30)) cat(a5, enc_tlv(0x5F2D, {'e', 'n'})); if (r.chance(40)) { cat(a5, enc_tlv(0x87, {r.chance(60) ? (uint8_t)(r.u8() | 0x80) : r.u8()})); vh_obs("priority-in-fci"); } if (r.chance(25)) { cat(a5, enc_tlv(0x9F11, {(uint8_t)(1 + r.below(15))})); cat(a5, enc_tlv(0x9F12, gen_text(r, 16, false))); }
	// fields that belong into records are of no use in the FCI
	if (r.chance(30)) { static const uint32_t t[] = {0x5F24, 0x5A, 0x8C, 0x8D, 0x82, 0x9F06, 0x9F39, 0x95}; Bytes x; for (uint32_t g : t) if (r.chance(30)) cat(x, enc_tlv(g, r.bytes(r.below(6)))); cat(a5, enc_tlv(0xBF0C, x)); vh_obs("record-fields-in-fci"); }
	a.fci = enc_tlv(0x6F, cat_({enc_tlv(0x84, a.df), enc_tlv(0xA5, a5)}));
	return a;
}
static void s_init(Rng& r, uint64_t)
{
	std::vector<Sup> sup = {{from_hex("A000000003"), true}};
	Bench b(r, sup, r.chance(40));
	try {
		bool hp = r.chance(75); VCard::App a = simple_app(r, gen_pdol(r), hp); gen_records(r, a, r.chance(60)); VCard c; c.apps.push_back(a); b.insert(c);
		Flds p, cf; gen_params(r, p, cf); b.set_params(p, cf);
		if (b.build() || b.select(0)) return;
		if (r.chance(20)) { emv_tlv_list_push(&b.ctx.icc, 0x5A, 2, (const uint8_t*)"\x12\x34", 0); b.ref.icc.push_back({0x5A, {0x12, 0x34}}); emv_tlv_list_push(&b.ctx.terminal, 0x95, 5, (const uint8_t*)"\1\2\3\4\5", 0); }
		unsigned tries = 1 + r.below(3);
		while (tries--) {
			int g = b.initiate(r.u8()); obs_ret("initiate", g);
			if (hp) vh_obs(g == 0 ? "with-pdol" : "pdol-failed"); else vh_obs("without-pdol");
			if (g == 0) { Flds f = b.ref.icc; vh_distinct(vh_hash(show(f))); vh_sample(show(f)); }
			if (g && r.chance(50)) { b.card.apps[0].gpo = Resp{from_hex("800600000801010 0"), 0x9000, false}; b.card.at.clear(); size_t n = b.card.n; int cur = b.card.cur; b.mcard = b.card; (void)n; (void)cur; }
		}
	} catch (Unspec&) { vh_obs("not-judged"); return; }
	b.end();
}
// GPO at the TAL interface: AIP/AFL pointers
static void s_init_tal(Rng& r, uint64_t)
{
	std::vector<Sup> sup = {{from_hex("A000000003"), true}};
	Bench b(r, sup, r.chance(30));
	try {
		VCard::App a = simple_app(r, {}, false); gen_records(r, a, r.chance(70)); VCard c; c.apps.push_back(a); b.insert(c); b.card.cur = 0; b.mcard.cur = 0;
		struct emv_tlv_list_t l = EMV_TLV_LIST_INIT; const struct emv_tlv_t *aip = (const struct emv_tlv_t*)&l, *afl = (const struct emv_tlv_t*)&l;
		Bytes pre = r.bytes(3); uint32_t pt = r.pick({0x50u, 0x82u, 0x94u, 0x77u}); emv_tlv_list_push(&l, pt, 3, pre.data(), 0);
		int g = emv_tal_get_processing_options(&b.ttl, NULL, 0, &l, &aip, &afl);
		Resp rs = b.mcard.handle(from_hex("80A8000002830000")); Flds out; int w;
		if (rs.fail) w = EMV_TAL_ERROR_TTL_FAILURE; else if (rs.sw == 0x6985) w = EMV_TAL_RESULT_GPO_CONDITIONS_NOT_SATISFIED; else if (rs.sw != 0x9000) w = EMV_TAL_ERROR_GPO_FAILED; else w = RefTerm::parse_gpo(rs.data, out) ? -999 : 0;
		VH_CHECK(w == -999 ? (g == EMV_TAL_ERROR_GPO_PARSE_FAILED || g == EMV_TAL_ERROR_GPO_FIELD_NOT_FOUND) : g == w, "gpo-result", "returned %d, expected %d for %s", g, w, vh_hex(rs.data).c_str());
		Flds f = snap(&l);
		if (g == 0) {
			Flds want = {{pt, pre}}; want.insert(want.end(), out.begin(), out.end());
			VH_CHECK(f == want, "gpo-fields", "%s expected %s", show(f).c_str(), show(want).c_str());
			auto node = [&](uint32_t t) { const struct emv_tlv_t* q = l.front ? l.front->next : NULL; while (q && q->tag != t) q = q->next; return q; }; // of the answer, not what the list held before
			VH_CHECK(aip == node(0x82) && afl == node(0x94), "gpo-pointers", "AIP/AFL do not refer to the list");
			vh_obs("gpo-ok");
		} else { VH_CHECK(!aip && !afl, "gpo-pointers", "AIP/AFL pointer left after error"); VH_CHECK((f == Flds{{pt, pre}}), "gpo-fields", "list changed by failed GPO"); vh_obs("gpo-failed"); }
		emv_tlv_list_clear(&l);
	} catch (Unspec&) { vh_obs("not-judged"); return; }
	b.end();
}
// ---------------------------------------------------------------- C09
static void s_read(Rng& r, uint64_t)
{
	std::vector<Sup> sup = {{from_hex("A000000003"), true}};
	Bench b(r, sup, r.chance(40));
	try {
		VCard::App a = simple_app(r, {}, false); gen_records(r, a, r.chance(55)); a.gpo.sw = 0x9000; a.gpo.fail = false; VCard c; c.apps.push_back(a); b.insert(c);
		if (b.build() || b.select(0) || b.initiate(5)) return;
		Flds before = b.ref.icc; bool oda = false;
		if (r.chance(10)) { // AFL missing from the card data
			for (auto& f : b.ref.icc) if (f.tag == 0x94) f.tag = 0xDF7F;
			for (auto t = b.ctx.icc.front; t; t = t->next) if (t->tag == 0x94) t->tag = 0xDF7F;
		}
		size_t n0 = b.card.n;
		int g = b.read(&oda); obs_ret("read", g); vh_obs("records-read", b.card.n - n0);
		if (g == 0 && b.ref.icc.size() > 256) vh_obs("many-fields");
		if (g == 0) { vh_obs(oda ? "oda-impossible" : "oda-possible"); vh_distinct(vh_hash(show(b.ref.icc))); vh_sample(show(b.ref.icc)); }
		for (auto& f : before) if (f.tag == 0x94) for (size_t i = 0; i + 3 < f.v.size(); i += 4) if (f.v[i + 2] == 255) vh_obs("last-record-255");
	} catch (Unspec&) { vh_obs("not-judged"); return; }
	b.end();
}
// every subset of the mandatory fields, with lengths of every kind
static void s_read_mand(Rng& r, uint64_t i)
{
	std::vector<Sup> sup = {{from_hex("A000000003"), true}};
	Bench b(r, sup, i & 16);
	VCard::App a = simple_app(r, {}, false); int rec = 0; unsigned mask = i & 15; bool lg = false; Bytes afl; std::vector<Bytes> recs;
	const uint32_t tags[] = {0x5F24, 0x5A, 0x8C, 0x8D};
	for (int k = 0; k < 4; ++k) if (mask >> k & 1) { size_t n = r.chance(60) ? r.pick({0, 1, 30, 127, 128, 129, 200, 240}) : r.below(241); lg |= n > 127; recs.push_back(enc_tlv(0x70, enc_tlv(tags[k], r.bytes(n)))); }
	recs.push_back(enc_tlv(0x70, enc_tlv(0x9F08, r.bytes(2)))); r.shuffle(recs);
	for (auto& x : recs) a.recs[{2, ++rec}] = Resp{x, 0x9000, false};
	Bytes v = r.bytes(2); cat(v, {0x10, 1, (uint8_t)rec, 0}); a.gpo = Resp{enc_tlv(0x80, v), 0x9000, false};
	VCard c; c.apps.push_back(a); b.insert(c);
	VH_CHECK(!b.build() && !b.select(0) && !b.initiate(5), "oracle", "set-up");
	int g = b.read(); obs_ret("read", g); VH_CHECK((g == 0) == (mask == 15), "mandatory", "returned %d with mandatory fields %X", g, mask);
	vh_obs(mask == 15 ? "mandatory-complete" : "mandatory-missing"); if (mask != 15 && lg) vh_obs("missing-beside-long"); vh_distinct(i);
	b.end();
}
static void s_read_tal(Rng& r, uint64_t)
{
	std::vector<Sup> sup = {{from_hex("A000000003"), true}};
	Bench b(r, sup, r.chance(30));
	try {
		VCard::App a = simple_app(r, {}, false); gen_records(r, a, r.chance(55)); VCard c; c.apps.push_back(a); b.insert(c); b.card.cur = 0; b.mcard.cur = 0;
		Flds g0; if (a.gpo.data.empty() || RefTerm::parse_gpo(a.gpo.data, g0)) return;
		Bytes afl = ffind(g0, 0x94)->v; if (afl.empty()) return;
		struct emv_tlv_list_t l = EMV_TLV_LIST_INIT; Exact e(afl);
		int g = emv_tal_read_afl_records(&b.ttl, e.p, e.n, &l);
		Flds out; bool oda; int w = b.ref.read_afl(afl, out, oda);
		b.step_done("read-afl", g, w, false);
		if (w == 0) { VH_CHECK(g == (oda ? EMV_TAL_RESULT_ODA_RECORD_INVALID : 0), "oda-result", "returned %d although ODA %s possible", g, oda ? "is not" : "is"); Flds f = snap(&l); VH_CHECK(f == out, "record-fields", "%s expected %s", show(f).c_str(), show(out).c_str()); vh_obs(oda ? "oda-reported" : "read-ok"); }
		else { VH_CHECK(g < 0, "read-error", "returned %d for invalid records", g); vh_obs("read-failed"); }
		emv_tlv_list_clear(&l);
	} catch (Unspec&) { vh_obs("not-judged"); return; }
	b.end();
}
// single AFL entry: all SFI bytes x selected first/last/oda values
static void s_read_afl(Rng& r, uint64_t i)
{
	static const int v[] = {0, 1, 2, 3, 9, 10, 11, 30, 31, 127, 128, 253, 254, 255};
	int b0 = i % 256, f = v[i / 256 % 14], l = v[i / 256 / 14 % 14]; int oda = r.chance(60) ? r.below(3) : r.u8();
	if (l - f > 12 && r.chance(90)) l = f + r.below(5);
	std::vector<Sup> sup = {{from_hex("A000000003"), true}};
	Bench b(r, sup, false); VCard::App a = simple_app(r, {}, false);
	for (int k = f; k <= l; ++k) if (k) a.recs[{b0 >> 3, k}] = Resp{enc_tlv(0x70, k == f ? from_hex("5F24013A5A0112 8C0101 8D0102") : enc_tlv(0x9F0000 | 0x8000 | (k & 0x7F) | (k & 0x80 ? 0x100 : 0), {(uint8_t)k})), 0x9000, false};
	a.gpo.data = enc_tlv(0x80, {0, 0, (uint8_t)b0, (uint8_t)f, (uint8_t)l, (uint8_t)oda});
	VCard c; c.apps.push_back(a); b.insert(c);
	if (b.build() || b.select(0) || b.initiate(5)) { VH_CHECK(false, "setup", "setup failed"); }
	b.link.max = b.link.calls + 2000;
	int g = b.read(); obs_ret("afl-entry", g);
	b.end();
}
// ---------------------------------------------------------------- C10 hostile
struct Hostile { Rng r; std::vector<Bytes> pool; size_t calls = 0, max = 300000; bool tpdu; uint8_t ins = 0; unsigned style; bool over = false; size_t bytes = 0; bool endless; std::vector<Bytes> cycle; size_t cyc = 0; bool expect_data = false; };
static int hostile_trx(void* ctx, const void* tx, size_t n, void* rx, size_t* rxn)
{
	Hostile* h = (Hostile*)ctx; const uint8_t* t = (const uint8_t*)tx; Rng& r = h->r;
	if (vh_on_valgrind() && vh_undefined(tx, n)) vh_fail("uninit:tx", "uninitialised data transmitted");
	if (++h->calls > h->max) { h->over = true; return -1; }
	if (n >= 4) h->ins = t[1];
	Bytes out; unsigned k = r.below(100);
	if (h->endless) { out = h->cycle[h->cyc++ % h->cycle.size()]; if (h->tpdu && !out.empty() && out[0] == 0xEE) out[0] = h->ins; }
	else {
		if (h->style == 0 && k < 3) return -(int)(1 + r.below(100));
		if (k < 75) { // plausible payload
			Bytes d = r.pick(h->pool); if (r.chance(25)) mutate(r, d); if (d.size() > 256) d.resize(256);
			if (h->tpdu) out.push_back(r.chance(95) ? h->ins : r.u8());
			if (!h->tpdu || n == 5) cat(out, d);
			uint16_t sw = r.chance(75) ? 0x9000 : r.chance(30) ? 0x6100 | r.u8() : r.chance(30) ? 0x6C00 | r.u8() : gen_sw(r);
			if (!(h->tpdu && n == 5 && r.chance(25))) { out.push_back(sw >> 8); out.push_back(sw); }
		} else if (k < 90) { uint16_t sw = r.chance(30) ? 0x6100 | r.u8() : r.chance(30) ? 0x6C00 | r.u8() : r.chance(30) ? (uint16_t)r.u32() : gen_sw(r); out = {(uint8_t)(sw >> 8), (uint8_t)sw}; }
		else if (k < 95 && h->tpdu) out = {r.chance(50) ? h->ins : r.chance(50) ? (uint8_t)~h->ins : r.u8()};
		else out = r.bytes(r.below(r.chance(80) ? 8 : 300));
	}
	size_t m = std::min(out.size(), *rxn); memcpy(rx, out.data(), m); *rxn = m; h->bytes += m;
	return 0;
}
static std::vector<Bytes> hostile_pool(Rng& r, const std::vector<Sup>& sup)
{
	std::vector<Bytes> p; VCard c = gen_card(r, sup, 1); while (c.apps.empty()) c = gen_card(r, sup, 1);
	p.push_back(c.pse_resp.data.empty() ? from_hex("6F15840E315041592E5359532E4444463031A503880101") : c.pse_resp.data);
	p.push_back(from_hex("6F15840E315041592E5359532E4444463031A503880101"));
	for (auto& x : c.pse_recs) p.push_back(x.second.data);
	for (auto& a : c.apps) { p.push_back(a.fci); p.push_back(a.gpo.data); for (auto& x : a.recs) if (p.size() < 30) p.push_back(x.second.data); }
	return p;
}
static void after_clean(Bench& b, Rng& r, Link& link, const char* what)
{
	// the context must still work: a regular transaction must equal the reference
	b.ttl.cardreader = {link.tpdu ? EMV_CARDREADER_MODE_TPDU : EMV_CARDREADER_MODE_APDU, &link, link_trx};
	VCard::App a = simple_app(r, from_hex("9F02069F1A02"), true); gen_records(r, a, false); VCard c; c.apps.push_back(a); b.insert(c);
	b.link.log.clear(); b.ref.log.clear();
	emv_ctx_reset(&b.ctx); b.ref.reset(); b.ref.list.clear(); b.ref.config = snap(&b.ctx.config);
	Flds p, cf; gen_params(r, p, cf); b.set_params(p, cf);
	try {
		int g = b.build(); if (!g) g = b.select(0); if (!g) g = b.initiate(7); if (!g) g = b.read();
		if (g == 0) vh_obs("usable-afterwards");
	} catch (Unspec&) { vh_obs("not-judged"); }
}
static void s_hostile(Rng& r, uint64_t)
{
	std::vector<Sup> sup = gen_sup(r, r.chance(5)); if (sup.empty() || !RefTerm().sup.empty()) return;
	sup.push_back({from_hex("A000000003"), true}); // used by the follow-up transaction
	bool tpdu = r.chance(50); Bench b(r, sup, tpdu); b.insert(VCard());
	Flds p, cf; gen_params(r, p, cf); b.set_params(p, cf);
	Hostile h{Rng(r.next())}; h.pool = hostile_pool(r, sup); h.tpdu = tpdu; h.style = r.below(3); h.endless = r.chance(8);
	if (h.endless) { // a card that goes on for ever with the same answer, or alternates between a few
		unsigned nc = r.chance(60) ? 1 : 2 + r.below(2);
		while (nc--) {
			unsigned k = r.below(8); Bytes d = k == 0 ? Bytes() : r.pick(h.pool), f; if (k == 4 || k >= 6) d = enc_tlv(0x6F, enc_tlv(0x84, cat_({sup[0].aid, {0x77}}))); if (k == 5) d = enc_tlv(0x70, Bytes());
			if (tpdu && !d.empty()) f = {0xEE}; cat(f, d); cat(f, k == 1 ? Bytes{0x61, 0x01} : k == 2 ? Bytes{0x6C, 0x05} : k == 6 ? Bytes{0x62, 0x83} : Bytes{0x90, 0x00}); h.cycle.push_back(f);
		}
	}
	b.ttl.cardreader = {tpdu ? EMV_CARDREADER_MODE_TPDU : EMV_CARDREADER_MODE_APDU, &h, hostile_trx};
	unsigned steps = 1 + r.below(10); std::string seq;
	for (unsigned i = 0; i < steps; ++i) {
		int g; size_t c0 = h.calls; unsigned op = r.chance(h.endless ? 50 : 25) ? 0 : r.below(5); h.max = h.calls + 300000;
		vh_note("hostile %s step %u op %u after %s", tpdu ? "T=0" : "APDU", i, op, seq.c_str());
		if (op == 0) { emv_app_list_clear(&b.list); g = emv_build_candidate_list(&b.ctx, &b.list); VH_CHECK(g != 0 || !emv_app_list_is_empty(&b.list), "defined-result", "success without candidates"); }
		else if (op == 1) { // a candidate, maybe one that was not offered
			if (emv_app_list_is_empty(&b.list)) { MApp m; Bytes fci = gen_fci(r, sup[0].aid, r.chance(20)); struct emv_app_t* a = emv_app_create_from_fci(fci.data(), fci.size()); if (a) emv_app_list_push(&b.list, a); }
			if (r.chance(60)) { const struct emv_app_t* a = b.list.front; if (a && a->aid->length && a->aid->length <= 16) { Bytes aid(a->aid->value, a->aid->value + a->aid->length); h.pool.push_back(gen_fci(r, aid, r.chance(20))); h.pool.push_back(h.pool.back()); } }
			g = emv_select_application(&b.ctx, &b.list, r.below(2)); VH_CHECK((g == 0) == (b.ctx.selected_app != NULL), "defined-result", "select=%d selected=%d", g, b.ctx.selected_app != NULL);
		}
		else if (op == 2) { if (!b.ctx.selected_app) { Bytes fci = gen_fci(r, sup[0].aid, false); b.ctx.selected_app = emv_app_create_from_fci(fci.data(), fci.size()); } g = emv_initiate_application_processing(&b.ctx, r.u8()); if (g == 0) VH_CHECK(emv_tlv_list_find(&b.ctx.icc, 0x82) && emv_tlv_list_find(&b.ctx.icc, 0x94), "defined-result", "initiated without AIP/AFL"); }
		else if (op == 3) { if (!emv_tlv_list_find(&b.ctx.icc, 0x94) && r.chance(80)) { Bytes afl; unsigned k = 1 + r.below(3); while (k--) { int f = 1 + r.below(254); cat(afl, {(uint8_t)((1 + r.below(30)) << 3), (uint8_t)f, (uint8_t)(r.chance(90) ? std::min(255, f + (int)r.below(4)) : 255), (uint8_t)r.below(2)}); } if (r.chance(20)) mutate(r, afl); emv_tlv_list_push(&b.ctx.icc, 0x94, afl.size(), afl.data(), 0); } g = emv_read_application_data(&b.ctx); if (g == 0) VH_CHECK(emv_tlv_list_find(&b.ctx.icc, 0x5A) && emv_tlv_list_find(&b.ctx.icc, 0x5F24) && emv_tlv_list_find(&b.ctx.icc, 0x8C) && emv_tlv_list_find(&b.ctx.icc, 0x8D), "defined-result", "read without mandatory fields"); }
		else { emv_ctx_reset(&b.ctx); g = 0; op = 4; }
		VH_CHECK(!h.over, "bounded", "more than 300000 transmissions in one step");
		VH_CHECK(g >= -2 && g <= 5, "defined-result", "undefined result %d", g);
		static const char* on[] = {"build", "select", "initiate", "read", "reset"}; obs_ret(on[op], g); vh_obs("hostile-exchanges", h.calls - c0); seq += vh_fmt("%s=%d(%zu) ", on[op], g, h.calls - c0);
		for (auto a = b.list.front; a; a = a->next) { snap(&a->tlv_list); VH_CHECK(a->aid && memchr(a->display_name, 0, 33), "defined-result", "candidate without AID or name"); VH_DEFINED(a->display_name, strlen(a->display_name) + 1, "display-name"); VH_CHECK(utf8_valid(a->display_name), "defined-result", "display name is not UTF-8"); }
		snap(&b.ctx.icc); snap(&b.ctx.terminal);
	}
	VH_CHECK(snap(&b.ctx.config) == cf, "config-intact", "configuration changed");
	if (h.endless) vh_obs("endless-card");
	vh_distinct(vh_hash(seq)); vh_sample(seq);
	emv_app_list_clear(&b.list); if (b.ctx.selected_app) b.ctx.selected_app->next = NULL;
	after_clean(b, r, b.link, "hostile");
	b.end();
}
// answers of very few bytes, where nothing but the status word may be looked at
static void s_hostile_short(Rng& r, uint64_t)
{
	std::vector<Sup> sup; sup.push_back({from_hex("A000000003"), true}); bool tpdu = r.chance(40); Bench b(r, sup, tpdu); b.insert(VCard());
	Hostile h{Rng(r.next())}; h.tpdu = tpdu; h.style = 1; h.endless = true;
	b.ttl.cardreader = {tpdu ? EMV_CARDREADER_MODE_TPDU : EMV_CARDREADER_MODE_APDU, &h, hostile_trx};
	std::string seq;
	for (unsigned i = 0; i < 10; ++i) {
		h.cycle.clear(); h.cyc = 0; h.max = h.calls + 300000;
		for (unsigned n = 1 + r.below(3); n; --n) {
			Bytes d = r.pick(std::vector<Bytes>{{}, {}, {0x70}, {0x70, 0x00}, {0x70, 0x01}, {0x6F}, {0x6F, 0x00}, {0x80}, {0x77, 0x00}, {0x80, 0x01}, {0x84}, {0x9F}, {0x70, 0x02, 0x9F}, r.bbytes(r.below(4))}), f;
			if (tpdu) f = {0xEE}; cat(f, d); cat(f, {0x90, 0x00}); if (r.chance(20)) f = {0x90, 0x00}; if (r.chance(5)) f = {r.u8()}; h.cycle.push_back(f);
		}
		unsigned op = r.below(4); int g; vh_note("short %s op %u answers ", tpdu ? "T=0" : "APDU", op); for (auto& f : h.cycle) vh_note("%s ", vh_hex(f).c_str());
		if (op == 0) { emv_app_list_clear(&b.list); g = emv_build_candidate_list(&b.ctx, &b.list); }
		else if (op == 1) { struct emv_app_t* a = NULL; g = emv_tal_select_app(&b.ttl, sup[0].aid.data(), sup[0].aid.size(), &a); VH_CHECK(g != 0 && !a, "defined-result", "application selected from %s", vh_hex(h.cycle[0]).c_str()); }
		else if (op == 2) { struct emv_tlv_list_t l = EMV_TLV_LIST_INIT; const struct emv_tlv_t *x = NULL, *y = NULL; g = emv_tal_get_processing_options(&b.ttl, NULL, 0, &l, &x, &y); VH_CHECK(g != 0 && emv_tlv_list_is_empty(&l), "defined-result", "processing options from %s", vh_hex(h.cycle[0]).c_str()); emv_tlv_list_clear(&l); }
		else {
			uint8_t sfi = 1 + r.below(30), n = 1 + r.below(4); Bytes afl = {(uint8_t)(sfi << 3), 1, n, 0}; struct emv_tlv_list_t l = EMV_TLV_LIST_INIT; bool notpl = false, fail = false; size_t c0 = h.calls;
			g = emv_tal_read_afl_records(&b.ttl, afl.data(), 4, &l);
			// judged for T=1 style answers only: SFI above 10 tolerates anything but a template is needed for ODA
			if (!tpdu) for (unsigned k = 0; k < h.calls - c0; ++k) { const Bytes& f = h.cycle[k % h.cycle.size()]; if (f.size() < 2 || f[f.size() - 2] != 0x90) { fail = true; break; } if (f.size() == 2 || f[0] != 0x70) { notpl = true; if (sfi <= 10) { fail = true; break; } } }
			if (!tpdu && notpl && !fail) VH_CHECK(g != 0, "defined-result", "records of SFI %u accepted although one is no template", sfi);
			if (!tpdu && fail) VH_CHECK(g < 0, "defined-result", "records of SFI %u: %d", sfi, g);
			emv_tlv_list_clear(&l);
		}
		VH_CHECK(!h.over, "bounded", "more than 300000 transmissions in one step"); vh_obs("short-answers", h.cyc); seq += vh_fmt("%u=%d ", op, g);
	}
	vh_distinct(vh_hash(seq)); emv_app_list_clear(&b.list); after_clean(b, r, b.link, "short"); b.end();
}
// model-conforming card whose answers are cut, corrupted or fail at one point: must equal the reference even so
static void s_hostile_model(Rng& r, uint64_t)
{
	std::vector<Sup> sup = gen_sup(r, false); sup.push_back({from_hex("A000000003"), true}); Bench b(r, sup, false);
	try {
		VCard c = gen_card(r, sup, 1);
		unsigned k = 1 + r.below(3); while (k--) { Resp x; unsigned q = r.below(4); if (q == 0) x.fail = true; else if (q == 1) x.sw = gen_sw(r); else { x.data = r.chance(50) ? r.bbytes(r.below(40)) : gen_fci(r, gen_aid(r), true); } c.at[r.below(20)] = x; }
		b.insert(c); Flds p, cf; gen_params(r, p, cf); b.set_params(p, cf);
		int g = b.build(); unsigned tries = 4;
		while (!b.ref.list.empty() && tries--) { g = b.select(r.below(b.ref.list.size())); if (g == 0) break; }
		if (!g) g = b.initiate(7); if (!g) g = b.read();
		obs_ret("faulty-card", g);
	} catch (Unspec&) { vh_obs("not-judged"); return; }
	b.end();
}
// ---------------------------------------------------------------- C11 allocation failure
static void s_oom(Rng& r, uint64_t)
{
	std::vector<Sup> sup = gen_sup(r, false); sup.push_back({from_hex("A000000003"), true}); sup.push_back({from_hex("A000000004"), true});
	VCard c = gen_card(r, sup, r.chance(30)); Flds p, cf; gen_params(r, p, cf); uint64_t lseed = r.next(); bool tpdu = r.chance(30);
	unsigned target = r.below(4); // which step
	// reference outcome
	uint64_t nalloc = 0; int clean = 0; std::vector<MApp> want; std::vector<MApp> via_aid; Flds want_icc; bool reached = false;
	auto prepare = [&](Bench& b) -> bool { // run the steps before the target; returns false when not reached
		b.insert(c); b.set_params(p, cf); if (target == 0) return true;
		if (b.build() || b.select(0)) return false;
		if (target == 1) { emv_app_list_clear(&b.list); b.ref.list.clear(); b.card.reset(); b.mcard.reset(); if (b.build()) return false; return true; }
		if (target == 2) return true;
		return b.initiate(7) == 0;
	};
	auto run = [&](Bench& b) -> int { switch (target) { case 0: return emv_build_candidate_list(&b.ctx, &b.list); case 1: return emv_select_application(&b.ctx, &b.list, 0); case 2: return emv_initiate_application_processing(&b.ctx, 7); default: return emv_read_application_data(&b.ctx); } };
	try {
		Rng lr(lseed); Bench b(lr, sup, tpdu); if (!prepare(b)) { b.end(); return; }
		uint64_t a0 = vh_alloc_count(); clean = run(b); nalloc = vh_alloc_count() - a0; reached = true;
		if (target == 0) { clean = clean; b.mcard.reset(); b.ref.build(); want = b.ref.list; VCard c2 = c; c2.pse = false; c2.at.clear(); c2.reset(); RefTerm t2; t2.card = &c2; t2.sup = sup; t2.build(); via_aid = t2.list; }
		want_icc = snap(&b.ctx.icc); b.end();
	} catch (Unspec&) { return; }
	if (!reached || !nalloc) return;
	static const char* nm[] = {"build", "select", "initiate", "read"};
	uint64_t lim = std::min<uint64_t>(nalloc, 60), start = nalloc > lim ? r.below(nalloc - lim + 1) : 0;
	for (uint64_t k = start; k < start + lim; ++k) {
		Rng lr(lseed); Bench b(lr, sup, tpdu);
		try { if (!prepare(b)) return; } catch (Unspec&) { return; }
		std::vector<MApp> lst = b.ref.list; Flds icc0 = snap(&b.ctx.icc); Flds app0 = b.ctx.selected_app ? snap(&b.ctx.selected_app->tlv_list) : Flds();
		vh_note("%s with allocation %lu of %lu failing", nm[target], (unsigned long)k, (unsigned long)nalloc);
		vh_alloc_fail_at(k); int g = run(b); bool hit = vh_alloc_failed(); vh_alloc_fail_at(-1);
		vh_obs(hit ? "alloc-failed" : "alloc-not-reached"); vh_obs(std::string("oom-") + nm[target]);
		VH_CHECK(g >= -2 && g <= 5, "defined-result", "%s returned %d", nm[target], g);
		if (hit) {
			if (target == 0) { // applications that could not be stored are not offered; everything offered is real and complete
				if (g == 0) for (auto a = b.list.front; a; a = a->next) { Flds f = snap(&a->tlv_list); bool ok = false; for (auto& m : want) if (m.tlvs == f) ok = true; for (auto& m : via_aid) if (m.tlvs == f) ok = true; VH_CHECK(ok || !c.at.empty(), "partial-data", "candidate with incomplete data %s after allocation %lu failed", show(f).c_str(), (unsigned long)k); VH_CHECK(a->aid && strlen(a->display_name) < 33, "partial-data", "incomplete candidate"); }
			} else {
				VH_CHECK(g != 0, "error-reported", "%s returned success although allocation %lu of %lu failed (clean result %d)", nm[target], (unsigned long)k, (unsigned long)nalloc, clean);
				if (target == 1) VH_CHECK(!b.ctx.selected_app, "error-state", "application selected after failure");
				if (target == 3) VH_CHECK(snap(&b.ctx.icc) == icc0, "error-state", "card data changed by failed reading");
				if (target == 2 && b.ctx.selected_app) VH_CHECK(snap(&b.ctx.selected_app->tlv_list) == app0, "error-state", "application data lost by failed initiation");
			}
		} else if (target != 0) VH_CHECK(g == clean, "result", "%s returned %d, clean run %d", nm[target], g, clean);
		vh_distinct(vh_hash(vh_fmt("%u/%lu/%lu/%d/%lu", target, (unsigned long)k, (unsigned long)nalloc, g, (unsigned long)lseed)));
		b.end();
	}
	vh_sample(vh_fmt("%s: each of %lu allocations failed in turn", nm[target], (unsigned long)nalloc));
}
static void s_oom_tlv(Rng& r, uint64_t)
{
	// list operations and parsing with every allocation failing in turn
	Bytes in; unsigned n = 1 + r.below(4); for (unsigned i = 0; i < n; ++i) { TreeNode t = gen_node(r, 3, r.chance(30)); cat(in, enc_node(r, t, r.chance(30))); }
	Flds want; try { if (ref_flatten(in.data(), in.size(), want)) return; } catch (Unspec&) { return; }
	for (int64_t k = 0; k < 200; ++k) {
		vh_alloc_reset(); struct emv_tlv_list_t l = EMV_TLV_LIST_INIT; Bytes pre = {1, 2, 3}; emv_tlv_list_push(&l, 0x50, 3, pre.data(), 7);
		vh_alloc_fail_at(k); int g = emv_tlv_parse(in.data(), in.size(), &l); bool hit = vh_alloc_failed(); vh_alloc_fail_at(-1);
		Flds f = snap(&l);
		VH_CHECK(!f.empty() && f[0].tag == 0x50 && f[0].v == pre, "earlier-fields", "earlier field lost");
		if (!hit) { VH_CHECK(g == 0 && f.size() == want.size() + 1, "result", "parse=%d without failure", g); emv_tlv_list_clear(&l); vh_alloc_expect_none("leak"); break; }
		VH_CHECK(g < 0, "error-reported", "parse returned %d although allocation %ld failed", g, (long)k);
		for (size_t i = 1; i < f.size(); ++i) VH_CHECK(i - 1 < want.size() && f[i] == want[i - 1], "partial-data", "incomplete field");
		// list remains usable
		VH_CHECK(emv_tlv_list_push(&l, 0x9F99, 3, pre.data(), 0) == 0 && snap(&l).size() == f.size() + 1, "usable", "list unusable after failure");
		emv_tlv_list_clear(&l); vh_alloc_expect_none("leak"); vh_obs("alloc-failed"); vh_obs("oom-parse");
	}
	// push
	for (int64_t k = 0; k < 3; ++k) {
		vh_alloc_reset(); struct emv_tlv_list_t l = EMV_TLV_LIST_INIT; Bytes v = r.bytes(r.below(20)); vh_alloc_fail_at(k); int g = emv_tlv_list_push(&l, 0x5A, v.size(), v.data(), 0); bool hit = vh_alloc_failed(); vh_alloc_fail_at(-1);
		VH_CHECK(hit ? (g != 0 && emv_tlv_list_is_empty(&l)) : g == 0, "push", "push returned %d, failure %d", g, hit);
		emv_tlv_list_clear(&l); vh_alloc_expect_none("leak"); if (hit) vh_obs("oom-push");
	}
	// application objects
	Bytes aid = gen_aid(r); Bytes fci = gen_fci(r, aid, false), dir = gen_dir_entry(r, aid, false);
	for (int which = 0; which < 2; ++which) for (int64_t k = 0; k < 60; ++k) {
		vh_alloc_reset(); struct emv_tlv_list_t pse = EMV_TLV_LIST_INIT; Exact e(which ? dir : fci);
		vh_alloc_fail_at(k); RefTlv t = ref_ber(dir.data(), dir.size());
		struct emv_app_t* a = which ? emv_app_create_from_pse(&pse, e.p + t.hdr, t.length) : emv_app_create_from_fci(e.p, e.n); bool hit = vh_alloc_failed(); vh_alloc_fail_at(-1);
		VH_CHECK(!hit || !a, "error-reported", "application created although allocation %ld failed", (long)k);
		if (a) emv_app_free(a); vh_alloc_expect_none("leak"); if (!hit) break; vh_obs("oom-app");
	}
}
// ---------------------------------------------------------------- C12 histories
static void s_hist(Rng& r, uint64_t)
{
	std::vector<Sup> sup = gen_sup(r, false); sup.push_back({from_hex("A000000003"), true}); bool tpdu = r.chance(40);
	Bench b(r, sup, tpdu); std::string seq; unsigned steps = 4 + r.below(25); unsigned done = 0, full = 0;
	try {
		b.insert(gen_card(r, sup, r.chance(40)));
		Flds p, cf; gen_params(r, p, cf); b.set_params(p, cf);
		bool reread = false;
		for (unsigned i = 0; i < steps; ++i) {
			unsigned op = r.below(100); int g = 0; const char* n = "";
			// mostly follow the regular order, with jumps
			if (op < 12) { b.insert(gen_card(r, sup, r.chance(40))); if (r.chance(40)) { VCard c2 = b.card; VCard::App a = simple_app(r, gen_pdol(r), r.chance(60)); gen_records(r, a, r.chance(15)); c2.apps.push_back(a); c2.pse = r.chance(30) && c2.pse; b.insert(c2); } n = "card"; }
			else if (op < 20) { Flds p2, c2; gen_params(r, p2, c2); b.set_params(p2, c2); n = "params"; }
			else if (op < 27) { b.reset(); n = "reset"; }
			else if (op < 45) { g = b.build(); n = "build"; ++done; }
			else if (op < 65) { size_t k = b.ref.list.size(); g = b.select(k && r.chance(95) ? r.below(k) : k); n = "select"; ++done; }
			else if (op < 83) { g = b.initiate(r.u8()); n = "initiate"; ++done; }
			else { g = b.read(); n = "read"; ++done; if (g == 0) ++full; }
			(void)reread;
			seq += vh_fmt("%c%d", n[0] == 'r' && n[2] == 's' ? 'z' : n[0], g); obs_ret(n, g);
		}
	} catch (Unspec&) { vh_obs("not-judged"); return; }
	if (full) vh_obs("complete-transactions", full);
	vh_distinct(vh_hash(seq)); vh_sample(seq);
	b.end();
}
// regular transactions back to back on one context, one fresh context each in parallel: all observations equal
static void s_hist_fresh(Rng& r, uint64_t)
{
	std::vector<Sup> sup = gen_sup(r, false); sup.push_back({from_hex("A000000003"), true});
	bool tpdu = r.chance(40); Rng r0(r.next()); Bench old(r0, sup, tpdu); unsigned n = 2 + r.below(4);
	uint64_t base = vh_alloc_live();
	for (unsigned t = 0; t < n; ++t) {
		VCard c = gen_card(r, sup, r.chance(40)); VCard::App a = simple_app(r, gen_pdol(r), r.chance(60)); gen_records(r, a, r.chance(15)); c.apps.push_back(a); Flds p, cf; gen_params(r, p, cf);
		unsigned pick = r.below(3);
		struct Obs { std::string s; std::vector<Bytes> log; } o[2];
		Rng r1(r.next());
		struct emv_ctx_t fresh; struct emv_app_list_t fl = EMV_APP_LIST_INIT; VCard fc = c; fc.reset(); Link fk(&fc, tpdu, 1); struct emv_ttl_t ft; ft.cardreader = {tpdu ? EMV_CARDREADER_MODE_TPDU : EMV_CARDREADER_MODE_APDU, &fk, link_trx};
		emv_ctx_init(&fresh, &ft); for (auto& s : sup) emv_tlv_list_push(&fresh.supported_aids, EMV_TAG_9F06_AID, s.aid.size(), s.aid.data(), s.partial ? EMV_ASI_PARTIAL_MATCH : EMV_ASI_EXACT_MATCH);
		for (int w = 0; w < 2; ++w) {
			struct emv_ctx_t* x = w ? &fresh : &old.ctx; struct emv_app_list_t* l = w ? &fl : &old.list; Link& k = w ? fk : old.link;
			if (!w) { old.card = c; old.card.reset(); k.st = Link::IDLE; k.log.clear(); k.r = Rng(1); emv_ctx_reset(x); emv_app_list_clear(l); emv_tlv_list_clear(&x->config); }
			for (auto& f : p) emv_tlv_list_push(&x->params, f.tag, f.v.size(), f.v.data(), 0);
			for (auto& f : cf) emv_tlv_list_push(&x->config, f.tag, f.v.size(), f.v.data(), 0);
			int g = emv_build_candidate_list(x, l); o[w].s += vh_fmt("build=%d ", g);
			for (auto q = l->front; q; q = q->next) o[w].s += vh_hex(q->aid->value, q->aid->length) + "/" + q->display_name + "/" + show(snap(&q->tlv_list)) + ";";
			unsigned tries = 6; while (g == 0 || g == 4) { size_t cnt = 0; for (auto q = l->front; q; q = q->next) ++cnt; if (!cnt || !tries--) break; g = emv_select_application(x, l, pick % cnt); o[w].s += vh_fmt("select=%d ", g); if (g == 0) break; }
			if (g == 0) { g = emv_initiate_application_processing(x, 7); o[w].s += vh_fmt("init=%d ", g) + show(snap(&x->terminal)); }
			if (g == 0) { g = emv_read_application_data(x); o[w].s += vh_fmt("read=%d ", g); }
			o[w].s += show(snap(&x->icc)); o[w].s += x->selected_app ? x->selected_app->display_name : "none"; o[w].log = k.log;
			if (g == 0 && w) vh_obs("complete-transactions");
		}
		VH_CHECK(o[0].log == o[1].log, "same-commands", "transaction %u: a used context sends other commands than a fresh one", t);
		VH_CHECK(o[0].s == o[1].s, "same-results", "transaction %u: used context: %s; fresh context: %s", t, o[0].s.c_str(), o[1].s.c_str());
		vh_distinct(vh_hash(o[0].s)); vh_obs("transactions-compared");
		emv_app_list_clear(&fl); emv_ctx_clear(&fresh);
	}
	emv_app_list_clear(&old.list); emv_ctx_reset(&old.ctx); emv_tlv_list_clear(&old.ctx.config);
	VH_CHECK(vh_alloc_live() == base, "accumulates", "%lu allocations live after reset, %lu before the first transaction", (unsigned long)vh_alloc_live(), (unsigned long)base);
	old.end();
}
static void s_args(Rng&, uint64_t)
{
	struct emv_app_list_t l = EMV_APP_LIST_INIT; struct emv_ctx_t c; memset(&c, 0, sizeof c); struct emv_ttl_t t; memset(&t, 0, sizeof t);
	VH_CHECK(emv_ctx_init(NULL, &t) < 0 && emv_ctx_init(&c, NULL) < 0 && emv_ctx_reset(NULL) < 0 && emv_ctx_clear(NULL) < 0, "null-args", "ctx");
	VH_CHECK(emv_build_candidate_list(NULL, &l) < 0 && emv_build_candidate_list(&c, NULL) < 0 && emv_select_application(NULL, &l, 0) < 0 && emv_select_application(&c, NULL, 0) < 0 && emv_initiate_application_processing(NULL, 0) < 0 && emv_initiate_application_processing(&c, 0) < 0 && emv_read_application_data(NULL) < 0, "null-args", "steps");
	vh_obs("null-args");
}

#endif
