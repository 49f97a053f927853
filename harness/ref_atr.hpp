// Independent ATR model (ISO 7816-3 section 8, ISO 7816-4 section 8.1.1, EMV Contact Interface 8.3)
#ifndef REF_ATR_HPP
#define REF_ATR_HPP
#include "vh.hpp"
struct RefAtr {
	bool ok = false;
	int any_err = 0;                       // rejection cause, for statistics
	int TA[6], TB[6], TC[6], TD[6];        // position of the byte or -1
	unsigned K = 0; size_t hist = 0; int T1 = -1; size_t hist_len = 0; int si = -1; size_t si_len = 0; bool si_any = false;
	int TCK = -1; bool surplus = false;
	unsigned Di = 1, Fi = 372; double fmax = 5; bool vpp = true; unsigned Vpp = 5000, Vppc = 5000, Ipp = 50; unsigned N = 0, GT = 12, proto = 0;
	bool spec = false, implicit_ = false, mut = false; unsigned spec_proto = 0; unsigned classes = 1, clock = 0, spu = 0;
	unsigned WI = 10, WT = 9600, CGT = 12, IFSI = 32, CWI = 13, BWI = 4; uint64_t CWT = 0, BWT = 0; unsigned edc = 0;
	bool amb_T1 = false, amb_T15 = false;  // several TA/TB/TC for the same T: only the first is defined
	bool amb = false;                      // acceptance itself is not settled by the specification
};
inline RefAtr ref_atr(const Bytes& a)
{
	RefAtr m; for (int i = 0; i < 6; ++i) m.TA[i] = m.TB[i] = m.TC[i] = m.TD[i] = -1;
	auto rej = [&](int e) { m.any_err = e; return m; };
	if (a.size() < 2 || a.size() > 33) return rej(1);
	if (a[0] != 0x3B && a[0] != 0x3F) return rej(2);
	m.K = a[1] & 15; size_t p = 2; unsigned y = a[1] >> 4; unsigned T = 0; bool tck = false;
	static const int D[16] = {0, 1, 2, 4, 8, 16, 32, 64, 12, 20, 0, 0, 0, 0, 0, 0};
	static const int F[16] = {372, 372, 558, 744, 1116, 1488, 1860, 0, 0, 512, 768, 1024, 1536, 2048, 0, 0};
	static const double FM[16] = {4, 5, 6, 8, 12, 16, 20, 0, 0, 5, 7.5, 10, 15, 20, 0, 0};
	int seen[3][2] = {{0}};
	for (int i = 1; i <= 5; ++i) {
		if (i == 5) { if (y) return rej(9); break; }
		int* slot[4] = {&m.TA[i], &m.TB[i], &m.TC[i], &m.TD[i]};
		for (int k = 0; k < 4; ++k) if (y >> k & 1) { if (p >= a.size()) return rej(3); *slot[k] = p++; }
		if (m.TA[i] >= 0) {
			uint8_t v = a[m.TA[i]];
			if (i == 1) { m.Di = D[v & 15]; m.Fi = F[v >> 4]; m.fmax = FM[v >> 4]; if (!m.Di || !m.Fi) return rej(10); }
			else if (i == 2) { m.spec = true; m.spec_proto = v & 15; m.implicit_ = v & 0x10; m.mut = !(v & 0x80); }
			else if (T == 15) { if (seen[0][0]++) m.amb_T15 = true; unsigned yy = v & 0x3F; if (yy < 1 || yy > 7) { if (m.amb_T15) m.amb = true; else return rej(19); } if (yy == 5) m.amb = true; m.classes = yy; m.clock = v >> 6; }
			else if (T == 1) { if (seen[0][1]++) m.amb_T1 = true; if (v == 0 || v == 255) { if (m.amb_T1) m.amb = true; else return rej(21); } m.IFSI = v; }
		}
		if (m.TB[i] >= 0) {
			uint8_t v = a[m.TB[i]];
			if (i == 1) { m.vpp = v != 0; if (v) { unsigned pi = v & 31; if (pi < 5 || pi > 25 || (v >> 5 & 3) == 3) return rej(12); m.Vpp = m.Vppc = pi * 1000; m.Ipp = (v >> 5 & 3) == 0 ? 25 : (v >> 5 & 3) == 1 ? 50 : 100; if (v & 0x80) m.amb = true; } }
			else if (i == 2) { if (!m.vpp) return rej(16); if (v < 50 || v > 250) return rej(17); m.Vpp = v * 100; }
			else if (T == 15) { if (seen[1][0]++) m.amb_T15 = true; m.spu = !v ? 0 : v & 0x80 ? 2 : 1; }
			else if (T == 1) { if (seen[1][1]++) m.amb_T1 = true; if (v >> 4 > 9) { if (m.amb_T1) m.amb = true; else return rej(23); } m.CWI = v & 15; m.BWI = v >> 4; }
		}
		if (m.TC[i] >= 0) {
			uint8_t v = a[m.TC[i]];
			if (i == 1) m.N = v;
			else if (i == 2) { if (!v) return rej(18); m.WI = v; }
			else if (T == 1) { if (seen[2][1]++) m.amb_T1 = true; m.edc = v & 1; }
		}
		if (m.TD[i] < 0) break;
		uint8_t v = a[m.TD[i]]; T = v & 15; y = v >> 4;
		if (i == 1 ? T > 1 : T != 0 && T != 1 && T != 15) return rej(14);
		if (i == 1) m.proto = T;
		if (T) tck = true;
	}
	if (p + m.K > a.size()) return rej(4);
	if (m.K) {
		m.T1 = a[p]; m.hist = p + 1; m.hist_len = m.K - 1;
		if (m.T1 == 0x00) { if (m.hist_len < 3) return rej(5); m.hist_len -= 3; m.si = m.hist + m.hist_len; m.si_len = 3; }
		if (m.T1 == 0x00 || m.T1 == 0x80) {
			for (size_t q = 0; q < m.hist_len;) {
				uint8_t b = a[m.hist + q]; size_t l = b & 15;
				if (q + 1 + l > m.hist_len) return rej(6);
				if (b >> 4 == 8) { if (m.si >= 0) m.si_any = true; m.si = m.hist + q + 1; m.si_len = l; }
				q += 1 + l;
			}
		}
		p += m.K;
	}
	if (tck) {
		if (p >= a.size()) return rej(7);
		uint8_t x = 0; for (size_t i = 1; i <= p; ++i) x ^= a[i];
		if (x) return rej(8);
		m.TCK = a[p++];
	}
	m.surplus = p != a.size();
	m.GT = m.N != 255 ? 12 + m.N : m.proto == 1 ? 11 : 12; m.CGT = m.N != 255 ? m.GT : 11;
	m.WT = m.WI * 960 * m.Di; m.CWT = 11 + (1ull << m.CWI); m.BWT = 11 + ((1ull << m.BWI) * 960 * 372 * m.Di) / m.Fi;
	m.ok = true; return m;
}
// EMV Contact Interface 8.3.3
inline bool ref_emv_atr(const Bytes& a, const RefAtr& m)
{
	auto has = [&](const int* t, int i) { return t[i] >= 0; };
	if (has(m.TA, 1)) {
		uint8_t v = a[m.TA[1]];
		if (has(m.TA, 2)) { if (!(a[m.TA[2]] & 0x10) && (v < 0x11 || v > 0x13)) return false; }
		else if (v >> 4 == 0 || (v & 15) < 3) return false;
	}
	if (has(m.TC, 1) && a[m.TC[1]] != 0 && a[m.TC[1]] != 0xFF) return false;
	if (has(m.TA, 2) && ((a[m.TA[2]] & 15) != (int)m.proto || (a[m.TA[2]] & 0x10))) return false;
	if (has(m.TC, 2) && (m.proto != 0 || a[m.TC[2]] != 0x0A)) return false;
	if (m.proto == 0) return !has(m.TD, 2) || (a[m.TD[2]] & 15) == 15;
	if (!has(m.TD, 2) || (a[m.TD[2]] & 15) != 1) return false;
	if (has(m.TA, 3) && a[m.TA[3]] < 0x10) return false;
	if (!has(m.TB, 3) || a[m.TB[3]] >> 4 > 4 || (a[m.TB[3]] & 15) > 5) return false;
	return !has(m.TC, 3) || a[m.TC[3]] == 0;
}
struct AtrGen { // builds ATRs; -1 = byte absent
	int TA[5] = {-1, -1, -1, -1, -1}, TB[5] = {-1, -1, -1, -1, -1}, TC[5] = {-1, -1, -1, -1, -1}, T[5] = {-1, -1, -1, -1, -1}; // T[i]: protocol of TDi
	uint8_t TS = 0x3B; Bytes hist; int y5 = 0; bool tck = false; uint8_t tckx = 0;
	Bytes make() const
	{
		Bytes o = {TS}; bool need = false;
		for (int i = 1; i <= 4; ++i) {
			uint8_t y = (TA[i] >= 0) << 4 | (TB[i] >= 0) << 5 | (TC[i] >= 0) << 6 | (T[i] >= 0) << 7;
			o.push_back(y | (i == 1 ? hist.size() & 15 : T[i - 1])); if (i > 1 && T[i - 1]) need = true;
			if (TA[i] >= 0) o.push_back(TA[i]); if (TB[i] >= 0) o.push_back(TB[i]); if (TC[i] >= 0) o.push_back(TC[i]);
			if (T[i] < 0) break;
			if (i == 4) { o.push_back(y5 << 4 | T[4]); if (T[4]) need = true; }
		}
		o.insert(o.end(), hist.begin(), hist.end());
		if (need || tck) { uint8_t x = tckx; for (size_t i = 1; i < o.size(); ++i) x ^= o[i]; o.push_back(x); }
		return o;
	}
};
inline Bytes gen_hist(Rng& r)
{
	unsigned k = r.below(10); Bytes h;
	if (k == 0) return h;
	if (k == 1) return r.bytes(1 + r.below(15));
	if (k == 2) { h = {0x10}; Bytes x = r.bytes(r.below(3)); h.insert(h.end(), x.begin(), x.end()); return h; }
	bool z = r.chance(50); h = {(uint8_t)(z ? 0x00 : 0x80)}; size_t max = z ? 12 : 15;
	unsigned n = r.below(5); static const uint8_t tg[] = {1, 2, 3, 4, 5, 6, 7, 8, 0xF, 0, 9};
	while (n--) { uint8_t t = r.pick(tg); size_t l = t == 3 ? 1 : t == 7 ? 1 + r.below(3) : t == 8 ? 1 + r.below(3) : r.below(6); if (r.chance(10)) l = r.below(16); if (h.size() + 1 + l > max) continue; if (t == 8 && z && r.chance(90)) continue; h.push_back(t << 4 | l); for (size_t i = 0; i < l; ++i) h.push_back(r.u8()); }
	if (z) { h.push_back(r.pick({0, 1, 3, 5, 7, 4, 6, 12, 15})); h.push_back(0x90); h.push_back(r.chance(70) ? 0 : r.u8()); if (r.chance(5)) h.resize(1 + r.below(3)); }
	return h;
}
inline AtrGen gen_atr(Rng& r)
{
	AtrGen g; g.TS = r.chance(80) ? 0x3B : 0x3F; bool emv = r.chance(50); g.hist = gen_hist(r);
	static const uint8_t fi[] = {0, 1, 2, 3, 4, 5, 6, 9, 10, 11, 12, 13};
	if (r.chance(60)) g.TA[1] = emv && r.chance(80) ? 0x11 + r.below(3) : fi[r.below(12)] << 4 | (1 + r.below(9));
	if (r.chance(60)) g.TB[1] = emv && r.chance(80) ? 0 : r.below(3) << 5 | (5 + r.below(21));
	if (r.chance(60)) g.TC[1] = emv ? r.chance(50) ? 0 : 0xFF : r.b8();
	if (r.chance(75)) {
		g.T[1] = r.below(2);
		if (r.chance(35)) g.TA[2] = emv && r.chance(80) ? (r.chance(50) ? 0x80 : 0) | g.T[1] : r.u8();
		if (r.chance(15) && g.TB[1] != 0) g.TB[2] = 50 + r.below(201);
		if (r.chance(35)) g.TC[2] = emv && r.chance(80) ? 10 : 1 + r.below(255);
		if (r.chance(75)) {
			g.T[2] = emv && r.chance(90) ? (g.T[1] ? 1 : 15) : r.pick({0, 1, 15});
			int last = 3;
			for (int i = 3; i <= 4; ++i) {
				int T = g.T[i - 1];
				if (r.chance(70)) g.TA[i] = T == 15 ? r.below(4) << 6 | (1 + r.below(7)) : r.chance(80) ? 0x10 + r.below(0xEF) : 1 + r.below(254);
				if (r.chance(70)) g.TB[i] = T == 15 ? r.b8() : emv && r.chance(85) ? r.below(5) << 4 | r.below(6) : r.below(10) << 4 | r.below(16);
				if (r.chance(40)) g.TC[i] = emv && r.chance(85) ? 0 : r.b8();
				if (!r.chance(50)) break;
				g.T[i] = r.pick({0, 1, 15}); last = i + 1;
				if (i == 4 && r.chance(10)) g.y5 = r.below(16);
			}
			(void)last;
		}
	}
	return g;
}
#endif
