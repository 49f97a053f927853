// Guided stage: cases are made by changing the draws of kept cases. A case is
// kept when the code under test did something new (control-flow edges with hit
// classes, distance classes of comparisons). Values seen on one side of a
// comparison in the code under test are written over draws that produced the
// other side. Case counts are fixed; everything follows from the seed.
#pragma once
static std::vector<std::pair<uint8_t*, uint8_t*>>& cov_regions() { static std::vector<std::pair<uint8_t*, uint8_t*>> v; return v; }
struct CmpRec { uint64_t a, b; uint32_t pc; uint8_t size; };
static bool g_on = false;
static std::vector<CmpRec>* g_cmps;
static uint32_t g_cmp_seen[4096], g_epoch;
static uint8_t* g_dist;          // per comparison: distance classes seen by kept cases
static bool g_dist_new = false;
static void g_log(uint32_t pc, uint64_t a, uint64_t b, unsigned size)
{
	if (a >> 40 || b >> 40) { if (size < 8 || (a >> 40 && a != ~0ull) || (b >> 40 && b != ~0ull)) return; }
	unsigned d = a == b ? 0 : 1 + std::min(6, (64 - __builtin_clzll(a > b ? a - b : b - a)) / 2);
	uint8_t& m = g_dist[pc & 0xFFFF];
	if (!(m & 1u << d)) { m |= 1u << d; g_dist_new = true; }
	if (a == b || g_cmps->size() >= 512) return;
	uint32_t h = (uint32_t)((pc * 0x9E3779B1u) ^ (a * 0x85EBCA77u) ^ (b * 0xC2B2AE3Du));
	uint32_t& s = g_cmp_seen[h >> 20];
	if (s == (h ^ g_epoch)) return;
	s = h ^ g_epoch; g_cmps->push_back({a, b, pc, (uint8_t)size});
}
extern "C" char __executable_start;
#define PC ((uint32_t)((uintptr_t)__builtin_return_address(0) - (uintptr_t)&__executable_start) & 0xFFFF)
extern "C" {
void __sanitizer_cov_8bit_counters_init(char* a, char* b) { if (a != b) cov_regions().push_back({(uint8_t*)a, (uint8_t*)b}); }
void __sanitizer_cov_trace_cmp1(uint8_t a, uint8_t b) { if (g_on) g_log(PC, a, b, 1); }
void __sanitizer_cov_trace_cmp2(uint16_t a, uint16_t b) { if (g_on) g_log(PC, a, b, 2); }
void __sanitizer_cov_trace_cmp4(uint32_t a, uint32_t b) { if (g_on) g_log(PC, a, b, 4); }
void __sanitizer_cov_trace_cmp8(uint64_t a, uint64_t b) { if (g_on) g_log(PC, a, b, 8); }
void __sanitizer_cov_trace_const_cmp1(uint8_t a, uint8_t b) { if (g_on) g_log(PC, a, b, 1); }
void __sanitizer_cov_trace_const_cmp2(uint16_t a, uint16_t b) { if (g_on) g_log(PC, a, b, 2); }
void __sanitizer_cov_trace_const_cmp4(uint32_t a, uint32_t b) { if (g_on) g_log(PC, a, b, 4); }
void __sanitizer_cov_trace_const_cmp8(uint64_t a, uint64_t b) { if (g_on) g_log(PC, a, b, 8); }
void __sanitizer_cov_trace_switch(uint64_t v, uint64_t* c) { if (g_on) for (uint64_t i = 0; i < c[0]; ++i) g_log((PC + (uint32_t)i * 7) & 0xFFFF, c[2 + i], v, (unsigned)(c[1] / 8)); }
}
struct Kept {
	std::vector<Tape::Draw> t; std::vector<CmpRec> c; uint64_t seed, idx;
	std::vector<CmpRec> f; unsigned energy; // comparisons first reached by this case, and how often they are still tried
	std::vector<std::pair<uint32_t, uint32_t>> pos; // value of a draw -> where, made on first use
	void index() { if (!pos.empty()) return; for (size_t i = 0; i < t.size(); ++i) if (t[i].kind == 1) pos.push_back({(uint32_t)(t[i].v >> 20 & 0xFF), (uint32_t)i}); else if (t[i].kind == 2 && t[i].n) pos.push_back({(uint32_t)(t[i].v % t[i].n) + (uint32_t)t[i].off, (uint32_t)i}); std::sort(pos.begin(), pos.end()); }
};
static Tape g_tape;
static std::string tape_text()
{
	if (!cur->tape_on) return "";
	std::string s = vh_fmt("%lx %lx", (unsigned long)cur->tape_seed, (unsigned long)cur->tape_idx);
	for (uint64_t i = 0; i < cur->tape_n; ++i) s += vh_fmt(" %lx", (unsigned long)cur->tape[i]);
	return s;
}
static void run_case(const Suite& su, Rng& r, uint64_t i, int cpu)
{
	vh_alloc_reset();
	arm(cpu);
	int fd0 = lowest_fd();
	try { su.fn(r, i); g_on = false; int fd = lowest_fd(); if (fd > fd0) vh_fail("descriptor-leak", "a file descriptor (%d) is still open afterwards", fd0); } catch (VhAbort&) { }
	g_on = false;
	vh_alloc_reset();
}
static void run_tape(const Suite& su, uint64_t seed, uint64_t idx, int cpu)
{
	cur->tape_seed = seed; cur->tape_idx = idx; cur->tape_n = std::min<size_t>(g_tape.in.size(), 6000);
	memcpy(cur->tape, g_tape.in.data(), cur->tape_n * 8); cur->tape_on = 1;
	g_tape.out.clear(); g_tape.total = 0;
	Rng r(seed); r.tape = &g_tape;
	run_case(su, r, idx, cpu);
	cur->tape_on = 0;
}
static void replay_tape(const std::string& file, const Suite& su, int cpu)
{
	FILE* f = fopen(file.c_str(), "r"); if (!f) { fprintf(stderr, "cannot read %s\n", file.c_str()); exit(2); }
	unsigned long seed = 0, idx = 0, v; if (fscanf(f, "%lx %lx", &seed, &idx) != 2) seed = 0;
	g_tape.in.clear(); while (fscanf(f, "%lx", &v) == 1) g_tape.in.push_back(v);
	fclose(f); run_tape(su, seed, idx, cpu);
}
static uint64_t set_draw(const Tape::Draw& d, uint64_t val, bool& ok)
{
	ok = true;
	if (d.kind == 1) return (d.v & ~(0xFFull << 20)) | (val & 0xFF) << 20;
	if (d.kind == 2) { uint64_t x = val - (uint64_t)(int64_t)d.off; if (d.n && x < d.n) return x; }
	ok = false; return d.v;
}
static bool draw_is(const Tape::Draw& d, uint64_t val)
{
	if (d.kind == 1) return ((d.v >> 20) & 0xFF) == val;
	if (d.kind == 2 && d.n) return (d.v % d.n) + (int64_t)d.off == val;
	return false;
}
// write the other side of a comparison over the draws that made one side
static bool steer(Rng& q, Kept& k, const std::vector<CmpRec>& list, std::vector<uint64_t>& t)
{
	k.index();
	for (int tries = 0; tries < 12; ++tries) {
		const CmpRec& c = list[q.below(list.size())];
		uint64_t from = c.b, to = c.a; if (q.chance(30)) std::swap(from, to);
		if (q.chance(20)) to += q.chance(50) ? 1 : -1;
		unsigned nb = 1; for (uint64_t m = std::max(from, to); m > 0xFF && nb < 8; m >>= 8) ++nb;
		std::vector<std::pair<size_t, int>> at;
		auto each = [&](uint64_t val, auto fn) { if (val >> 32) return; for (auto it = std::lower_bound(k.pos.begin(), k.pos.end(), std::make_pair((uint32_t)val, 0u)); it != k.pos.end() && it->first == val && at.size() < 400; ++it) fn((size_t)it->second); };
		each(from, [&](size_t i) { bool ok; set_draw(k.t[i], to, ok); if (ok && (k.t[i].kind == 2 || nb == 1)) at.push_back({i, 0}); });
		if (nb > 1 && nb <= 4) for (int big = 1; big >= 0; --big)
			each((big ? from >> 8 * (nb - 1) : from) & 0xFF, [&](size_t i) {
				bool same = i + nb <= k.t.size();
				for (unsigned b = 0; same && b < nb; ++b) same = k.t[i + b].kind == 1 && draw_is(k.t[i + b], from >> 8 * (big ? nb - 1 - b : b) & 0xFF);
				if (same) at.push_back({i, big ? 1 : 2});
			});
		if (at.empty() || q.chance(20)) {
			// the value may be a sum, an offset or a field of a draw: move one draw by the difference
			int64_t df = (int64_t)to - (int64_t)from; if (!df || df < -65536 || df > 65536 || k.t.empty()) { if (at.empty()) continue; }
			else for (int z = 0; z < 24; ++z) {
				size_t i = q.below(k.t.size()); const Tape::Draw& d = k.t[i]; int64_t v = d.kind == 1 ? (int64_t)(d.v >> 20 & 0xFF) : d.kind == 2 && d.n ? (int64_t)(d.v % d.n) : -1, m = d.kind == 1 ? 256 : d.n;
				if (v < 0 || v + df < 0 || v + df >= m) continue;
				t[i] = d.kind == 1 ? (d.v & ~(0xFFull << 20)) | (uint64_t)(v + df) << 20 : (uint64_t)(v + df);
				return true;
			}
			if (at.empty()) continue;
		}
		auto p = q.pick(at); bool ok;
		if (p.second == 0) t[p.first] = set_draw(k.t[p.first], to, ok);
		else for (unsigned b = 0; b < nb; ++b) t[p.first + b] = set_draw(k.t[p.first + b], p.second == 1 ? to >> 8 * (nb - 1 - b) : to >> 8 * b, ok);
		return true;
	}
	return false;
}
static uint64_t guide(const Suite& su, uint64_t n, uint64_t worker, int cpu, const std::set<std::pair<std::string, uint64_t>>& skip, uint64_t maxviol)
{
	if (cov_regions().empty()) return 0;
	size_t total = 0; for (auto& r : cov_regions()) total += r.second - r.first;
	if (!total) return 0;
	std::vector<uint8_t> seen(total, 0); std::vector<uint8_t> dist(65536, 0); g_dist = dist.data();
	std::vector<CmpRec> cmps; g_cmps = &cmps; std::vector<Kept> kept;
	Rng q(vh_hash(su.name, strlen(su.name)) ^ s_seed * 0xA24BAED4963EE407ull ^ (worker + 1) * 0x9FB21C651E98DF25ull);
	std::vector<uint8_t> pcs(65536, 0);
	struct Target { uint32_t pc; unsigned tries; std::vector<uint32_t> cases; std::vector<uint64_t> vals; }; // a comparison that never came out equal
	std::vector<Target> targets; std::vector<int32_t> target_of(65536, -1); std::vector<size_t> open; uint64_t done = 0, draws = 0; const uint64_t MARK = 1ull << 40;
	for (uint64_t k = 0; k < n; ++k) {
		uint64_t id = MARK | worker << 32 | k, seed = q.raw(), idx = k; std::vector<uint64_t> t; bool steered = false;
		if (!kept.empty() && k >= 24 && !q.chance(12)) {
			auto any = [&] { return q.chance(40) ? kept.size() - 1 - q.below(std::min<size_t>(kept.size(), 12)) : q.below(kept.size()); };
			size_t a = any(), b = any(); if (kept[b].t.size() * 2 < kept[a].t.size() && q.chance(70)) a = b; // mostly the cheaper one
			int tg = -1;
			if (!targets.empty() && q.chance(35)) {
				for (int z = 0; z < 4; ++z) { int y = q.below(targets.size()); if (g_dist[targets[y].pc] & 1 || targets[y].tries > 200) continue; if (tg < 0 || targets[y].tries < targets[tg].tries) tg = y; }
				if (tg >= 0) { if (targets[tg].cases.empty()) tg = -1; else a = q.pick(targets[tg].cases); }
			}
			bool hot = tg < 0 && !open.empty() && q.chance(65); if (hot) a = open.back();
			Kept& p = kept[a];
			seed = q.chance(80) ? p.seed : seed; idx = p.idx;
			t.reserve(p.t.size()); for (auto& d : p.t) t.push_back(d.v);
			unsigned how = q.below(100);
			if (tg >= 0) {
				std::vector<CmpRec> l; for (auto& c : p.c) if (c.pc == targets[tg].pc) l.push_back(c);
				++targets[tg].tries; if (!l.empty() && !q.chance(15)) steered = steer(q, p, l, t); if (steered) { vh_obs("guided-unequal-comparison-tried"); how = 100; }
			} else if (hot) { --p.energy; steered = steer(q, p, p.f, t); if (!p.energy) open.pop_back(); if (steered) vh_obs("guided-new-comparison-tried"); how = steered ? 100 : how; }
			if (!p.c.empty() && how < 50) { steered = steer(q, p, p.c, t); if (steered && q.chance(25)) steer(q, p, p.c, t); }
			if (!steered && !t.empty()) {
				unsigned m = 1 + q.below(3);
				while (m-- && !t.empty()) {
					size_t i = q.below(t.size()); const Tape::Draw* d = i < p.t.size() ? &p.t[i] : nullptr;
					switch (q.below(8)) {
					case 0: case 1: t[i] = q.raw(); break;
					case 2: if (d && d->kind == 1) t[i] = (t[i] & ~(0xFFull << 20)) | ((t[i] >> 20 ^ 1ull << q.below(8)) & 0xFF) << 20; else if (d && d->n) t[i] = q.chance(50) ? d->n - 1 : 0; break;
					case 3: if (d && d->kind == 1) t[i] = (t[i] & ~(0xFFull << 20)) | (uint64_t)q.b8() << 20; else t[i] = t[i] + (q.chance(50) ? 1 : -1); break;
					case 4: t[i] = t[q.below(t.size())]; break;
					case 5: { size_t l = 1 + q.below(std::min<size_t>(16, t.size() - i)); t.erase(t.begin() + i, t.begin() + i + l); break; }
					case 6: { size_t f = q.below(t.size()), l = 1 + q.below(std::min<size_t>(16, t.size() - f)); std::vector<uint64_t> b(t.begin() + f, t.begin() + f + l); t.insert(t.begin() + i, b.begin(), b.end()); break; }
					case 7: if (q.chance(30)) t.resize(i); else { const Kept& o = q.pick(kept); if (!o.t.empty()) { size_t f = q.below(o.t.size()); t.resize(i); for (; f < o.t.size(); ++f) t.push_back(o.t[f].v); } } break;
					}
				}
			}
		}
		if (skip.count({su.name, id})) continue;
		snprintf(cur->suite, sizeof(cur->suite), "%s", su.name);
		cur->idx = id; cur->note_len = 0; cur->note[0] = 0;
		if (t.size() > 6000) t.resize(6000);
		g_tape.in.swap(t);
		for (auto& r : cov_regions()) memset(r.first, 0, r.second - r.first);
		cmps.clear(); g_epoch = (uint32_t)(k * 2654435761u); g_dist_new = false; g_on = true;
		size_t v0 = viols.size();
		run_tape(su, seed, idx, cpu);
		++done; vh_obs("guided-case"); if (steered) vh_obs("guided-steered-by-comparison");
		if (viols.size() >= maxviol) break;
		bool fresh = g_dist_new; size_t o = 0;
		for (auto& r : cov_regions()) {
			for (uint8_t* c = r.first; c < r.second; ++c, ++o) {
				if (!*c) continue;
				unsigned x = *c, b = x < 4 ? x - 1 : x < 8 ? 3 : x < 16 ? 4 : x < 32 ? 5 : x < 128 ? 6 : 7;
				if (!(seen[o] & 1u << b)) { if (!seen[o]) vh_obs("guided-new-edge"); seen[o] |= 1u << b; fresh = true; }
			}
		}
		std::vector<size_t> serves;
		for (auto& c : cmps) {
			if (g_dist[c.pc] & 1) continue;
			int32_t& y = target_of[c.pc]; if (y < 0) { y = targets.size(); targets.push_back({c.pc, 0, {}, {}}); }
			Target& g = targets[y]; uint64_t val = c.a ^ c.b * 0x9E3779B97F4A7C15ull;
			if (g.vals.size() >= 12 || std::find(g.vals.begin(), g.vals.end(), val) != g.vals.end()) continue;
			g.vals.push_back(val); serves.push_back(y);
		}
		if (!serves.empty()) fresh = true;
		if (fresh && viols.size() == v0 && g_tape.total <= 6000 && draws < 2000000) { draws += g_tape.out.size(); 
			std::vector<CmpRec> f; for (auto& c : cmps) if (!pcs[c.pc]) f.push_back(c);
			for (auto& c : f) pcs[c.pc] = 1;
			kept.push_back({g_tape.out, cmps, seed, idx, f, f.empty() ? 0u : std::min<unsigned>(96, 24 * f.size()), {}});
			for (size_t y : serves) targets[y].cases.push_back(kept.size() - 1);
			if (!f.empty()) open.push_back(kept.size() - 1);
		 vh_obs("guided-kept"); }
	}
	return done;
}
