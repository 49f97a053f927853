// C21: code lookups agree with the data files, over initialisation histories.
// The lookups keep their tables in the process: every case is a forked child.
#include "refdata.hpp"
#include "isocodes_lookup.h"
#include "mcc_lookup.h"
#include "emv_strings.h"
#include "emv_tlv.h"
#include "emv_tags.h"
#include <sys/stat.h>
#include <unistd.h>
#include <fcntl.h>

enum { C2, C3, CN, U3, UN, L2, L3, MC, NK };
static const char* KN[NK] = {"country by alpha-2", "country by alpha-3", "country by number", "currency by alpha-3", "currency by number", "language by alpha-2", "language by alpha-3", "merchant category"};
static bool numeric(int k) { return k == CN || k == UN || k == MC; }
typedef std::set<std::string> Names;
struct Model { std::map<std::string, Names> must[NK], may[NK]; };   // code -> names of successfully loaded files / of files that failed half way
struct Held { const char* p; std::string s, what; };
static const char* look(int k, const std::string& c)
{
	switch (k) { case C2: return isocodes_lookup_country_by_alpha2(c.c_str()); case C3: return isocodes_lookup_country_by_alpha3(c.c_str()); case U3: return isocodes_lookup_currency_by_alpha3(c.c_str()); case L2: return isocodes_lookup_language_by_alpha2(c.c_str()); case L3: return isocodes_lookup_language_by_alpha3(c.c_str()); }
	unsigned v = strtoul(c.c_str(), 0, 10); return k == CN ? isocodes_lookup_country_by_numeric(v) : k == UN ? isocodes_lookup_currency_by_numeric(v) : mcc_lookup(v);
}
static void check(const Model& m, int k, const std::string& c, std::vector<Held>* held, const std::string& hist)
{
	std::string want = numeric(k) ? std::to_string(strtoul(c.c_str(), 0, 10)) : c;
	const char* g = look(k, c); auto must = m.must[k].find(want), may = m.may[k].find(want); bool a = must != m.must[k].end(), b = may != m.may[k].end();
	std::string gs = g ? g : "";
	if (!g) { VH_CHECK(!a, "missing", "%s: %s '%s' not found, the file names it '%s'", hist.c_str(), KN[k], c.c_str(), must->second.begin()->c_str()); vh_obs("absent"); return; }
	VH_CHECK(a || b, "invented", "%s: %s '%s' found as '%s', in no file", hist.c_str(), KN[k], c.c_str(), g);
	VH_CHECK((a && must->second.count(gs)) || (b && may->second.count(gs)), "name", "%s: %s '%s' found as '%s', expected '%s'", hist.c_str(), KN[k], c.c_str(), g, a ? must->second.begin()->c_str() : may->second.begin()->c_str());
	if (a) { vh_obs(std::string("found:") + KN[k]); vh_distinct(vh_hash(gs, vh_hash(c, k))); } else vh_obs("found-of-failed-file");
	if (held && held->size() < 4000) held->push_back({g, gs, std::string(KN[k]) + " " + c});
}
static void verify_held(const std::vector<Held>& h, const std::string& hist) { for (auto& x : h) VH_CHECK(x.s == x.p, "result-lost", "%s: text returned earlier for %s was '%s', is now '%.100s'", hist.c_str(), x.what.c_str(), x.s.c_str(), x.p); if (!h.empty()) vh_obs("held-results", h.size()); }
static void sweep(Rng& r, const Model& m, std::vector<Held>* held, const std::string& hist, bool full)
{
	for (int k = 0; k < NK; ++k) {
		for (auto& e : m.must[k]) check(m, k, e.first, held, hist);
		for (auto& e : m.may[k]) check(m, k, e.first, held, hist);
		if (numeric(k)) { unsigned top = full ? 10100 : 40; for (unsigned i = 0; i < top; ++i) check(m, k, std::to_string(full ? i : r.below(1100)), held, hist); for (unsigned v : {0u, 1000u, 9999u, 10000u, 65535u, 65536u, 4294967295u, 2147483648u}) check(m, k, std::to_string(v), held, hist); }
		else {
			bool low = k >= L2; size_t n = k == C2 || k == L2 ? 2 : 3;
			for (unsigned i = 0, top = full ? (n == 2 ? 676 : 17576) : 40; i < top; ++i) { unsigned v = full ? i : r.below(n == 2 ? 676 : 17576); std::string c; for (size_t q = 0; q < n; ++q) { c += (low ? 'a' : 'A') + v % 26; v /= 26; } check(m, k, c, held, hist); }
			for (const char* w : {"", "N", "n", "NL ", "nl", "NLDX", "ENG", "eng ", "528", "\xC3\x89", "00", "A", "AAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAA"}) check(m, k, w, held, hist);
			for (auto& e : m.must[k]) if (r.chance(20)) { std::string c = e.first; if (c.empty()) continue; size_t q = r.below(c.size()); c[q] ^= 0x20; check(m, k, c, held, hist); c = e.first; c.pop_back(); check(m, k, c, held, hist); check(m, k, e.first + "A", held, hist); }
		}
	}
}
// the texts of the fields that carry codes: the names the files give, as they are
static void one_text(const Names& all, unsigned tag, const std::string& val, bool list, bool exact, const std::string& what, const std::string& hist)
{
	struct emv_tlv_t t; memset(&t, 0, sizeof t); std::vector<uint8_t> b(val.begin(), val.end()); t.tag = tag; t.length = b.size(); t.value = b.data();
	struct emv_tlv_info_t info; char str[1024]; memset(str, 0x5A, sizeof str); int g = emv_tlv_get_info(&t, &info, str, sizeof str);
	VH_CHECK(g == 0, "text-result", "%s: text of field %X with %s: result %d", hist.c_str(), tag, what.c_str(), g);
	bool ok = memchr(str, 0, sizeof str) != NULL; std::string gs = ok ? str : "(not terminated)"; bool hit = false;
	for (auto n : all) { if (list) { if (n.empty()) n = "Unknown"; hit = hit || gs == n.substr(0, 127) + "\n"; if (n.size() > 127) hit = hit || gs == n + "\n"; } else hit = hit || gs == n; if (n.find('%') != std::string::npos) vh_obs("text-percent"); }
	(void)exact; VH_CHECK(ok && hit, "text", "%s: text of field %X with %s is '%.200s', expected '%.200s'", hist.c_str(), tag, what.c_str(), gs.c_str(), all.begin()->c_str()); vh_obs(list ? "text-list" : "text");
}
static void texts(Rng& r, const Model& m, const std::string& hist)
{
	auto names = [&](int k, const std::string& c) { Names n = m.must[k].at(c); auto f = m.may[k].find(c); if (f != m.may[k].end()) n.insert(f->second.begin(), f->second.end()); return n; };
	auto bcd = [&](const std::string& c) { unsigned v = strtoul(c.c_str(), 0, 10); std::string o; o += (char)((v / 1000 % 10) << 4 | v / 100 % 10); o += (char)((v / 10 % 10) << 4 | v % 10); return o; };
	for (auto& e : m.must[CN]) if (strtoul(e.first.c_str(), 0, 10) < 10000) one_text(names(CN, e.first), r.chance(50) ? 0x5F28 : 0x9F1A, bcd(e.first), false, true, e.first, hist);
	for (auto& e : m.must[UN]) if (strtoul(e.first.c_str(), 0, 10) < 10000) { static const unsigned T[] = {0x5F2A, 0x9F3C, 0x9F42}; one_text(names(UN, e.first), T[r.below(3)], bcd(e.first), false, true, e.first, hist); one_text(names(UN, e.first), 0x9F3B, bcd(e.first), true, true, e.first, hist); }
	for (auto& e : m.must[MC]) if (strtoul(e.first.c_str(), 0, 10) < 10000) one_text(names(MC, e.first), 0x9F15, bcd(e.first), false, true, e.first, hist);
	for (auto& e : m.must[C2]) { Names n = names(C2, e.first); if (n.count("")) n.insert(e.first); one_text(n, 0x5F55, e.first, false, true, e.first, hist); }
	for (auto& e : m.must[C3]) { Names n = names(C3, e.first); if (n.count("")) n.insert(e.first); one_text(n, 0x5F56, e.first, false, true, e.first, hist); }
	for (auto& e : m.must[L2]) { std::string c = e.first; bool low = c.size() == 2; for (char x : c) low = low && x >= 'a' && x <= 'z'; if (!low) continue; for (auto& x : c) if (r.chance(40)) x ^= 0x20; one_text(names(L2, e.first), 0x5F2D, c, true, true, c, hist); }
}
// ---- data files ----
struct Row { std::string a2, a3, num, name; };
static std::string jesc(Rng& r, const std::string& s) { std::string o = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 0x20) o += vh_fmt("\\u%04x", c); else if (c == '/' && r.chance(50)) o += "\\/"; else if (c < 0x80 && r.chance(3)) o += vh_fmt("\\u%04X", c); else o += c; } return o + "\""; }
static std::string name(Rng& r, int k)
{
	static const char* U[] = {"\xC3\x85land", "C\xC3\xB4te d'Ivoire", "\"quoted\"", "back\\slash", "a/b", "T\xC3\xBCrkiye", "\xE6\x97\xA5\xE6\x9C\xAC", "tab\there", "(parentheses)", "100% cotton", "%s%d", "%5$s", "%%"};
	std::string s; size_t n = r.chance(5) ? 0 : r.chance(30) ? r.range(16, 200) : r.range(1, 15); for (size_t i = 0; i < n; ++i) s += " ABCDEFGHabcdefgh,.'0123"[r.below(23)]; if (r.chance(25)) s += U[r.below(13)]; if (r.chance(10)) s.insert(0, U[r.below(13)]); (void)k; return s;
}
static std::string alpha(Rng& r, size_t n, bool low) { std::string s; while (n--) s += (low ? 'a' : 'A') + r.below(26); return s; }
static std::vector<Row> rows(Rng& r, int kind, const std::vector<Row>* prev)
{
	std::vector<Row> v; size_t n = r.chance(20) ? r.range(20, 150) : r.range(1, 12);
	for (size_t i = 0; i < n; ++i) {
		Row w; if (prev && !prev->empty() && r.chance(50)) { w = (*prev)[r.below(prev->size())]; if (r.chance(60)) w.name = name(r, kind); }
		else { w.a2 = kind == 2 && r.chance(50) ? "" : alpha(r, 2, kind == 2); w.a3 = alpha(r, 3, kind == 2); w.num = kind == 3 ? vh_fmt("%04d", (int)r.range(1, 9999)) : vh_fmt("%03d", (int)r.below(1000)); if (r.chance(5)) w.num = kind == 3 ? "0001" : "000"; w.name = name(r, kind); }
		v.push_back(w);
	}
	return v;
}
static std::string object(Rng& r, int kind, const Row& w, int drop, int badnum)
{
	std::vector<std::string> f; auto add = [&](const char* k, const std::string& v, int id) { if (id != drop) f.push_back(std::string("\"") + k + "\":" + (r.chance(50) ? " " : "") + jesc(r, v)); };
	std::string num = w.num; if (badnum) { static const char* B[] = {"", "12A", "-12", "1234567", " 12", "99999999999999999999", "x", "0x1"}; num = B[badnum % 8]; }
	if (kind == 3) { add("mcc", badnum ? "x" : num, 0); add("edited_description", w.name, 1); add("combined_description", "C " + w.name, -2); add("irs_description", "I " + w.name, -2); if (r.chance(50)) add("mcc_extra", "1", -2); }
	else { if (kind == 0 || !w.a2.empty()) add("alpha_2", w.a2, kind == 2 ? -2 : 0); add("alpha_3", w.a3, 1); add("name", w.name, 2); if (kind != 2) add("numeric", num, 3); if (r.chance(30)) add("official_name", "Official " + w.name, -2); if (r.chance(20)) add("common_name", "Common " + w.name, -2); if (r.chance(20)) add("bibliographic", "bib", -2); if (r.chance(20)) add("inverted_name", "inv " + w.name, -2); }
	r.shuffle(f); std::string o = "{"; for (size_t i = 0; i < f.size(); ++i) o += (i ? ", " : "") + f[i]; if (kind == 3 && !f.empty() && r.chance(60)) o += vh_fmt(", \"id\": %d", (int)r.below(1000)); return o + "}";
}
static const char* TOP[] = {"3166-1", "4217", "639-2"};
// a file of one kind; how: 0 good, else a kind of damage. upto = rows that precede the damage
static std::string file(Rng& r, int kind, const std::vector<Row>& v, int how, size_t& upto)
{
	upto = v.size(); std::string top = kind == 3 ? "" : TOP[kind]; size_t at = r.below(v.size()); if (r.chance(60)) at = v.size() - 1;
	if (how == 7) return ""; if (how == 8) { upto = 0; return r.chance(50) ? "[]" : "{}"; } if (how == 9) { upto = 0; return kind == 3 ? "{\"mcc\": []}" : std::string("{\"") + top + "\": {\"a\": \"b\"}}"; }
	if (how == 10) { upto = 0; return kind == 3 ? "\"text\"" : std::string("{\"") + (kind ? "3166-1" : "4217") + "\": [" + object(r, kind, v[0], -1, 0) + "]}"; }
	std::string o = kind == 3 ? "[" : std::string("{\"") + top + "\": [";
	for (size_t i = 0; i < v.size(); ++i) {
		if (i) o += ","; o += r.chance(50) ? "\n\t" : " ";
		if (i == at && how && how != 6) {
			upto = i; static const int NREQ[] = {4, 4, 3, 2}; int d = r.below(NREQ[kind]); if (kind == 1 && d == 0) d = 1; if (kind == 2 && d == 0) d = 1;
			if (how == 1) o += object(r, kind, v[i], d, 0); else if (how == 2) { if (kind == 2) o += "[]"; else o += object(r, kind, v[i], -1, 1 + r.below(8)); } else if (how == 3) o += r.chance(50) ? "5" : "[\"x\"]"; else if (how == 4) o += "null"; else o += "\"text\"";
		} else o += object(r, kind, v[i], -1, 0);
	}
	o += kind == 3 ? "]" : "]}"; if (how == 6) { upto = 0; o.resize(r.range(1, o.size() - 1)); } return o;
}
static void put(const std::string& p, const std::string& s) { FILE* f = fopen(p.c_str(), "w"); if (!f) abort(); fwrite(s.data(), 1, s.size(), f); fclose(f); }
static void learn(std::map<std::string, Names>* m, int kind, const Row& w)
{
	std::string n = std::to_string(strtoul(w.num.c_str(), 0, 10));
	if (kind == 0) { m[C2][w.a2].insert(w.name); m[C3][w.a3].insert(w.name); m[CN][n].insert(w.name); } if (kind == 1) { m[U3][w.a3].insert(w.name); m[UN][n].insert(w.name); } if (kind == 2) { if (!w.a2.empty()) m[L2][w.a2].insert(w.name); m[L3][w.a3].insert(w.name); } if (kind == 3) m[MC][n].insert(w.name);
}
static void quiet() { int fd = open("/dev/null", O_WRONLY); if (fd >= 0) { dup2(fd, 1); close(fd); } }
static void history(Rng& r)
{
	Model m; std::vector<Held> held; std::string hist = "start"; std::string dir = std::string(vh_scratch()) + "/codes." + std::to_string(getpid()); mkdir(dir.c_str(), 0700);
	sweep(r, m, &held, hist, false); if (!held.empty()) vh_fail("before-init", "lookups found something before initialisation"); vh_obs("before-init");
	std::vector<Row> prev[4]; bool rewrote_mcc = false; size_t steps = r.range(1, 4);
	for (size_t st = 0; st < steps; ++st) {
		std::vector<Row> v[4]; int how[4]; size_t upto[4]; int bad = r.chance(45) ? r.below(4) : -1; bool same = st && r.chance(25); int missing = r.chance(8) ? r.below(4) : -1;
		for (int k = 0; k < 4; ++k) { if (same) v[k] = prev[k]; else v[k] = rows(r, k, st ? &prev[k] : NULL); how[k] = k == bad ? r.range(1, 10) : 0; std::string f = file(r, k, v[k], how[k], upto[k]); std::string p = dir + (k == 3 ? "/mcc.json" : std::string("/iso_") + TOP[k] + ".json"); if (k == missing) { unlink(p.c_str()); } else put(p, f); prev[k] = v[k]; }
		int which = r.below(3); int g[2] = {0, 0}; bool iso = which != 1, mc = which != 0; std::string d = dir + (r.chance(50) ? "/" : "");
		if (which == 2) { g[0] = emv_strings_init(d.c_str(), (dir + "/mcc.json").c_str()); } else if (iso) g[0] = isocodes_init(d.c_str()); else g[1] = mcc_init((dir + "/mcc.json").c_str());
		bool stop = false; for (int k = 0; k < 4; ++k) { bool in = k == 3 ? mc : iso; if (!in || stop) continue; bool fails = k == missing || how[k]; if (k == missing) { stop = true; continue; }
			if (how[k]) { stop = true; for (size_t i = 0; i < upto[k]; ++i) learn(m.may, k, v[k][i]); vh_obs(vh_fmt("damage:%d", how[k])); } else for (auto& w : v[k]) learn(m.must, k, w); (void)fails; }
		for (auto* mm : {m.must, m.may}) for (auto& e : mm[MC]) { Names a = m.must[MC].count(e.first) ? m.must[MC][e.first] : Names(); if (m.may[MC].count(e.first)) a.insert(m.may[MC][e.first].begin(), m.may[MC][e.first].end()); if (a.size() > 1) rewrote_mcc = true; }
		int got = which == 1 ? g[1] : g[0]; hist += vh_fmt(" > %s%s%s%s", which == 2 ? "emv_strings_init" : iso ? "isocodes_init" : "mcc_init", same ? " same" : "", bad >= 0 ? vh_fmt(" damage %d in file %d", how[bad], bad).c_str() : "", missing >= 0 ? vh_fmt(" file %d missing", missing).c_str() : ""); vh_note("%s; ", hist.c_str());
		VH_CHECK((got != 0) == stop, "init-result", "%s: result %d, expected %s", hist.c_str(), got, stop ? "an error" : "success"); vh_obs(stop ? "init-failed" : "init-ok"); if (st && !stop) vh_obs("init-again");
		// names of merchant categories may be replaced by different names: only then are earlier texts allowed to go
		if (rewrote_mcc) { std::vector<Held> h; for (auto& x : held) if (x.what.compare(0, 8, "merchant")) h.push_back(x); held = h; } else vh_obs("held-mcc");
		verify_held(held, hist); sweep(r, m, &held, hist, false); texts(r, m, hist);
	}
	if (r.chance(30)) { int g = r.chance(50) ? isocodes_init("/nonexistent/dir") : mcc_init("/nonexistent/file"); VH_CHECK(g, "init-result", "%s: initialisation from a missing place succeeds", hist.c_str()); verify_held(held, hist); sweep(r, m, NULL, hist + " > missing", false); vh_obs("missing-path"); }
	std::string rm[] = {"/mcc.json", "/iso_3166-1.json", "/iso_4217.json", "/iso_639-2.json"}; for (auto& f : rm) unlink((dir + f).c_str()); rmdir(dir.c_str());
}
// the installed files: every code
static void installed(Rng& r, int how)
{
	const RefData& D = refdata(); Model m; std::vector<Held> held; std::string p = "/usr/share/iso-codes/json";
	int g = how == 0 ? emv_strings_init(NULL, mcc_path().c_str()) : how == 1 ? emv_strings_init(p.c_str(), mcc_path().c_str()) : how == 3 ? emv_strings_init(NULL, NULL) : how == 4 ? isocodes_init(NULL) : isocodes_init((p + "/").c_str()); if (how == 4) g = g ? g : mcc_init(NULL); if (how == 2) g = g ? g : mcc_init(mcc_path().c_str()); VH_CHECK(g == 0, "init-result", "installed files: %d", g);
	for (auto& e : D.country2) m.must[C2][e.first].insert(e.second); for (auto& e : D.country3) m.must[C3][e.first].insert(e.second); for (auto& e : D.countryn) m.must[CN][std::to_string(e.first)].insert(e.second);
	for (auto& e : D.cur3) m.must[U3][e.first].insert(e.second); for (auto& e : D.curn) m.must[UN][std::to_string(e.first)].insert(e.second); for (auto& e : D.lang2) m.must[L2][e.first].insert(e.second); for (auto& e : D.lang3) m.must[L3][e.first].insert(e.second); for (auto& e : D.mcc) m.must[MC][std::to_string(e.first)].insert(e.second);
	sweep(r, m, &held, "installed files", true); texts(r, m, "installed files"); vh_obs("installed"); emv_strings_init(NULL, mcc_path().c_str()); verify_held(held, "installed files, again"); sweep(r, m, &held, "installed files, again", true);
}
static void s_hist(Rng& r, uint64_t) { vh_fork([&] { quiet(); history(r); }); }
static void s_inst(Rng& r, uint64_t i) { vh_fork([&] { installed(r, i); }); }
std::vector<Suite> vh_suites() { return {{"installed", 5, 0, s_inst}, {"history", 0, 1, s_hist}}; }
std::vector<std::string> vh_required() { std::vector<std::string> v = {"before-init", "absent", "init-failed", "init-ok", "init-again", "missing-path", "installed", "held-results", "text", "text-list", "text-percent"}; for (auto k : KN) v.push_back(std::string("found:") + k); return v; }
const char* vh_rule() { return "every code of the installed files and every other code of the code spaces; histories of initialisations with generated files, valid or damaged in ten ways, missing or unchanged, each in a fresh process; every lookup, and the text of every field carrying such a code, compared with the names the files give, and every text returned earlier re-read; non-trivial = a code found"; }
