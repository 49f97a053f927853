// C26: emv-tool from its command line, a PC/SC service with scripted readers
// and cards and the choices of the cardholder to its output, the commands that
// the card received and its debug events.
#include "vh.hpp"
#include "ref_print.hpp"
#include "ref_atr.hpp"
#include "kernel.hpp"
#include <cstdarg>
#include <winscard.h>
#include <reader.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <time.h>
#include <numeric>
extern "C" {
#include "pcsc.h"
int emv_tool_main(int argc, char** argv);
const char* emv_lib_version_string(void);
extern const int shim_src[4], shim_level[4], shim_type[6];
}
namespace j_pcsc {
#include "h_pcsc.cpp"
}
using j_pcsc::Service; using j_pcsc::Reader;
struct Ev { int verbose, src, level, type; std::string s, b; };
static std::vector<Ev> evs; static time_t now_t; static int strings_ret; static std::string strings_arg; static bool ts_bad; static unsigned last_ts[2];
static void event(int verbose, unsigned ts, int src, int level, int type, const char* s, const void* b, size_t n)
{
	(void)ts; if (!s || (n && !b)) ts_bad = true; std::string t = s ? s : "(null)"; if (t.compare(0, 17, "Debugging enabled") == 0) t = "Debugging enabled"; evs.push_back({verbose, src, level, type, t, type == shim_type[5] ? "" : vh_hex(b, n)});
}
extern "C" {
time_t tool_time(time_t* t) { if (t) *t = now_t; return now_t; }
int tool_strings_init(const char* a, const char* b) { strings_arg = std::string(a ? a : "-") + "|" + (b ? b : "-"); return strings_ret; }
void tool_debug(unsigned ts, int src, int level, int type, const char* s, const void* b, size_t n) { event(0, ts, src, level, type, s, b, n); }
void tool_debug_verbose(unsigned ts, int src, int level, int type, const char* s, const void* b, size_t n) { event(1, ts, src, level, type, s, b, n); }
}
static const std::vector<Sup> SUP = {{from_hex("A00000000310"), true}, {from_hex("A0000000032010"), false}, {from_hex("A0000000032020"), false}, {from_hex("A00000000410"), true}, {from_hex("A00000000430"), true}};
static std::string shown(const std::string& s) { std::string o; for (char c : s) if (c == '\n') o += "\\n"; else o += c; return o; }
struct Stop {};   // the rest of the output is not settled
struct Expect {   // reader of the real output
	const std::string& got; size_t pos = 0; const std::string& what;
	void is(const std::string& w, const char* rule = "output")
	{
		vh_obs(std::string("check:") + rule); size_t k = 0; while (k < w.size() && pos + k < got.size() && got[pos + k] == w[k]) ++k;
		if (k < w.size()) { size_t z = pos + k > 100 ? pos + k - 100 : 0; vh_fail(rule, "%s: prints ..%s.., expected ..%s..", what.substr(0, 900).c_str(), shown(got.substr(z, 300)).c_str(), shown(w.substr(k > 60 ? k - 60 : 0, 300)).c_str()); }
		pos += w.size();
	}
	std::string line() { size_t e = got.find('\n', pos); return e == std::string::npos ? got.substr(pos) : got.substr(pos, e - pos + 1); }
	// fields printed one level deep, in any order if sorted
	void fields(const Flds& f, const char* rule, bool sorted = false)
	{
		std::vector<std::pair<std::string, bool>> w; std::vector<std::string> g;
		for (auto& x : f) { Out o; print_field(o, x.tag, x.v, 1); w.push_back({o.o, o.un}); if (std::find(x.v.begin(), x.v.end(), '\n') != x.v.end()) throw Stop(); }
		while (got.compare(pos, 2, "  ") == 0) { std::string l = line(); if (got.compare(pos, 3, "   ") == 0 && !g.empty()) g.back() += l; else g.push_back(l); pos += l.size(); }
		if (sorted) { auto key = [](const std::string& l) { return l.substr(0, l.find('|')); }; std::stable_sort(w.begin(), w.end(), [&](const std::pair<std::string, bool>& a, const std::pair<std::string, bool>& b) { return key(a.first) < key(b.first); }); std::stable_sort(g.begin(), g.end(), [&](const std::string& a, const std::string& b) { return key(a) < key(b); }); }
		for (size_t i = 0; i < std::max(g.size(), w.size()); ++i) { if (i < g.size() && i < w.size() && w[i].second) { vh_obs("text-not-settled"); continue; } vh_obs(std::string("check:") + rule); std::string a = i < g.size() ? g[i] : "(nothing)", b = i < w.size() ? w[i].first : "(nothing)"; if (a != b) vh_fail(rule, "%s: prints '%s', expected '%s'", what.substr(0, 900).c_str(), shown(a).substr(0, 300).c_str(), shown(b).substr(0, 300).c_str()); }
		vh_obs("fields-compared", g.size());
	}
};
static std::string state_text(DWORD s, const char* other) { if (s & SCARD_STATE_UNAVAILABLE) return "Status unavailable"; if (s & SCARD_STATE_EMPTY) return "No card"; if (s & SCARD_STATE_PRESENT) return s & SCARD_STATE_MUTE ? "Unresponsive card" : s & SCARD_STATE_UNPOWERED ? "Unpowered card" : "Card present"; return other; }
// What the PC/SC layer reports about the readers is the subject of C24; how
// emv-tool shows it is judged here. Lines whose meaning is open are skipped.
struct ReaderText { std::string features, properties; bool open = false; };
static std::vector<ReaderText> reader_texts(Service& s)
{
	std::vector<ReaderText> o; Service keep = s; j_pcsc::S = &s; pcsc_ctx_t c = NULL; if (pcsc_init(&c)) { s = keep; return o; }
	for (size_t i = 0; i < pcsc_get_reader_count(c); ++i) {
		pcsc_reader_ctx_t h = pcsc_get_reader(c, i); ReaderText t; static const struct { unsigned f; const char* n; } F[] = {{6, "PIN verification"}, {7, "PIN modification"}, {8, "MCT direct"}, {9, "MCT universal"}};
		for (auto& f : F) if (pcsc_reader_has_feature(h, f.f)) t.features += (t.features.empty() ? "" : ", ") + std::string(f.n);
		auto prop = [&](unsigned p, size_t want, Bytes& v) { uint8_t b[256]; size_t n = sizeof b; int g = pcsc_reader_get_property(h, p, b, &n); if (g) return false; if (n != want) t.open = true; v.assign(b, b + n); return n == want; };
		auto u16 = [](const Bytes& v) { uint16_t x; memcpy(&x, v.data(), 2); return (unsigned)x; }; auto add = [&](const std::string& x) { t.properties += (t.properties.empty() ? "" : ", ") + x; };
		Bytes v, w; bool any = false; if (prop(PCSC_PROPERTY_wLcdLayout, 2, v)) { any = true; add(v[0] || v[1] ? vh_fmt("LCD %u x %u", v[0], v[1]) : "No LCD"); }
		bool a = prop(PCSC_PROPERTY_wLcdMaxCharacters, 2, v), b = prop(PCSC_PROPERTY_wLcdMaxLines, 2, w); if (a || b) { any = true; add(a && b && u16(v) && u16(w) ? vh_fmt("LCD %u x %u", u16(v), u16(w)) : "LCD"); }
		a = prop(PCSC_PROPERTY_bMinPINSize, 1, v); b = prop(PCSC_PROPERTY_bMaxPINSize, 1, w); any |= a | b; unsigned lo = a ? v[0] : 0, hi = b ? w[0] : 0; if (hi) add(vh_fmt("PIN size %u-%u", lo, hi)); else if (lo) add(vh_fmt("PIN size %u+", lo));
		a = prop(PCSC_PROPERTY_wIdVendor, 2, v); b = prop(PCSC_PROPERTY_wIdProduct, 2, w); any |= a | b; if (a && b && u16(v) && u16(w)) add(vh_fmt("USB device %04x:%04x", u16(v), u16(w)));
		if (any) t.properties = "\tProperties: " + t.properties + "\n"; if (!t.features.empty()) t.features = "\tFeatures: " + t.features + "\n"; o.push_back(t);
	}
	pcsc_release(&c); s = keep; return o;
}
struct Params { unsigned type = 0; uint64_t amount = 0, other = 0; bool verbose = false; unsigned mask = 0xFF; int level = 2; bool debug_src = false; };
static Bytes bcd_n(uint64_t v, size_t n) { Bytes b(n); for (size_t i = n; i--;) { b[i] = v % 10; v /= 10; b[i] |= v % 10 << 4; v /= 10; } return b; }
static Bytes be(uint64_t v, size_t n) { Bytes b(n); for (size_t i = n; i--; v >>= 8) b[i] = v; return b; }
static Bytes text(const char* s) { return Bytes((const uint8_t*)s, (const uint8_t*)s + strlen(s)); }
static Flds config() { return {{0x9F01, from_hex("000123456789")}, {0x9F1A, from_hex("0528")}, {0x9F1B, from_hex("000003E8")}, {0x9F16, text("0987654321     ")}, {0x9F1C, text("TID12345")}, {0x9F1E, text("12345678")}, {0x9F4E, text("ACME Peanuts")}, {0x9F33, from_hex("20F8C8")}, {0x9F35, from_hex("22")}, {0x9F40, from_hex("FA00F0A3FF")}}; }
static Flds params(const Params& p)
{
	struct tm t; localtime_r(&now_t, &t);
	return {{0x9F41, bcd_n(42, 4)}, {0x9A, cat_({bcd_n(t.tm_year % 100, 1), bcd_n(t.tm_mon + 1, 1), bcd_n(t.tm_mday, 1)})}, {0x9F21, cat_({bcd_n(t.tm_hour, 1), bcd_n(t.tm_min, 1), bcd_n(t.tm_sec, 1)})}, {0x5F2A, from_hex("0978")}, {0x5F36, {2}}, {0x9C, bcd_n(p.type, 1)}, {0x9F02, bcd_n(p.amount, 6)}, {0x81, be(p.amount, 4)}, {0x9F03, bcd_n(p.other, 6)}, {0x9F04, be(p.other, 4)}};
}
static const char* const SRC[] = {"TTL", "TAL", "EMV", "APP", "ALL"}; static const char* const LEV[] = {"NONE", "ERROR", "INFO", "CARD", "TRACE", "ALL"};
static std::string spell(Rng& r, std::string s) { if (r.chance(40)) for (auto& c : s) if (r.chance(50)) c = tolower(c); return s; }
static void option(Rng& r, std::vector<std::vector<std::string>>& o, const std::string& n, const std::string& v) { if (r.chance(50)) o.push_back({"--" + n + "=" + v}); else o.push_back({"--" + n, v}); }
static std::vector<std::string> flat(Rng& r, std::vector<std::vector<std::string>> o) { r.shuffle(o); std::vector<std::string> a; for (auto& x : o) a.insert(a.end(), x.begin(), x.end()); return a; }
static std::string number(Rng& r, uint64_t v) { std::string s = std::to_string(v); if (r.chance(25)) s = std::string(r.range(1, 12), '0') + s; return s; }
static uint64_t gen_amount(Rng& r) { switch (r.below(5)) { case 0: return r.range(1, 100); case 1: return r.pick({0xFFFFFFFFull, 0xFFFFFFFEull, 0x80000000ull, 0x7FFFFFFFull, 0x10000ull, 999999999ull, 1000000000ull}); case 2: return 1 + r.below(0xFFFFFFFF); default: return 1 + r.below(1000000); } }
static std::vector<std::vector<std::string>> gen_options(Rng& r, Params& p)
{
	std::vector<std::vector<std::string>> o; bool t = r.chance(75); if (t) { p.type = r.chance(60) ? r.pick({0, 1, 9, 20, 30, 31, 40}) : r.below(100); option(r, o, "txn-type", vh_fmt("%02u", p.type)); }
	unsigned INQ = EMV_TRANSACTION_TYPE_INQUIRY, inq = (INQ >> 4) * 10 + (INQ & 15); if (p.type != inq || r.chance(40)) p.amount = gen_amount(r); if (p.amount || r.chance(30)) option(r, o, "txn-amount", number(r, p.amount));
	if (p.type == 9 || r.chance(25)) p.other = gen_amount(r); if (p.other || r.chance(15)) option(r, o, "txn-amount-other", number(r, p.other)); if (o.empty()) option(r, o, "txn-amount", number(r, p.amount = gen_amount(r)));
	return o;
}
static void debug_options(Rng& r, std::vector<std::vector<std::string>>& o, Params& p)
{
	if (r.chance(40)) { p.verbose = true; o.push_back({"--debug-verbose"}); }
	if (r.chance(70)) { std::string l; p.mask = 0; for (unsigned n = r.range(1, 4); n; --n) { unsigned k = r.chance(15) ? 4 : r.below(4); p.mask |= k == 4 ? 0xFF : 1u << k; l += (l.empty() ? "" : ",") + spell(r, SRC[k]); } option(r, o, "debug-source", l); p.debug_src = true; }
	if (r.chance(75)) { p.level = r.below(6); option(r, o, "debug-level", spell(r, LEV[p.level])); }
}
struct Case { Service s; std::vector<VCard> cards; std::vector<std::string> args; Params p; std::string input; std::vector<std::string> lines; bool complete_line = true; uint64_t link_seed; time_t t; std::string tz; int strings = 0; std::string strings_arg = "-|-"; };
static Bytes contact_atr(Rng& r) { for (int k = 0; k < 40; ++k) { Bytes a = gen_atr(r).make(); RefAtr m = ref_atr(a); if (a.size() > 33 || (a.size() > 4 && a[0] == 0x3B && (a[1] & 0x80) && a[2] == 0x80 && a[3] == 1)) continue; if (m.ok && !m.amb && ref_emv_atr(a, m)) return a; } return r.chance(50) ? from_hex("3B6500002063CB6800") : from_hex("3B00"); }
static VCard tool_card(Rng& r, unsigned def)
{
	VCard c = gen_card(r, SUP, def); unsigned n = r.range(1, 3); static const char* const A[] = {"A0000000031010", "A0000000032010", "A0000000041010", "A0000000043060", "A000000004101001", "A0000000032020"};
	for (unsigned k = 0; k < n; ++k) { VCard::App a = simple_app(r, gen_pdol(r), r.chance(60)); a.df = from_hex(r.pick(A)); a.fci = r.chance(50) ? gen_fci(r, a.df, false) : enc_tlv(0x6F, cat_({enc_tlv(0x84, a.df), enc_tlv(0xA5, cat_({enc_tlv(0x50, gen_text(r, 16, true)), r.chance(50) ? enc_tlv(0x87, {(uint8_t)(r.below(16) | (r.chance(25) ? 0x80 : 0))}) : Bytes(), r.chance(50) ? enc_tlv(0x9F38, gen_pdol(r)) : Bytes()}))})); gen_records(r, a, def && r.chance(30)); c.apps.insert(c.apps.begin() + r.below(c.apps.size() + 1), a); }
	return c;
}
static Case gen_case(Rng& r)
{
	Case c; unsigned pf = r.pick({0, 0, 0, 3}); unsigned n = r.chance(3) ? 0 : r.range(1, 4); for (unsigned i = 0; i < n; ++i) c.s.rd.push_back(j_pcsc::gen_reader(r, i, pf)); if (r.chance(1)) c.s.establish = j_pcsc::gen_err(r); if (r.chance(1)) c.s.list[r.below(2)] = j_pcsc::gen_err(r);
	if (n && r.chance(85)) { // one card, sooner or later
		size_t k = r.below(n); for (size_t i = 0; i < n; ++i) { Reader& x = c.s.rd[i]; x.tl.clear(); if (i != k && r.chance(10)) x.tl.push_back({(uint64_t)r.below(6000), SCARD_STATE_PRESENT}); }
		Reader& x = c.s.rd[k]; if (r.chance(20)) x.tl.push_back({0, SCARD_STATE_EMPTY}); x.tl.push_back({r.chance(60) ? 0 : (uint64_t)(r.chance(85) ? r.below(5000) : r.range(4990, 6000)), SCARD_STATE_PRESENT | (r.chance(20) ? (DWORD)SCARD_STATE_UNPOWERED : r.chance(10) ? (DWORD)SCARD_STATE_MUTE : 0)});
	}
	for (auto& x : c.s.rd) { if (r.chance(90)) x.atr = contact_atr(r); c.cards.push_back(tool_card(r, r.chance(60) ? 0 : 1)); if (x.connect && r.chance(70)) x.connect = 0; if (x.disconnect && r.chance(50)) x.disconnect = 0; }
	for (size_t q = r.below(7); q; --q) { unsigned k = r.below(10); c.lines.push_back(k < 7 ? std::to_string(r.range(1, 4)) : k == 7 ? std::to_string(r.range(5, 99)) : k == 8 ? r.pick(std::vector<std::string>{"0", "00", "x", "q1", "-1", "*", "A", "n"}) : ""); }
	for (auto& l : c.lines) c.input += l + "\n"; if (!c.lines.empty() && !c.lines.back().empty() && r.chance(30)) c.input.pop_back();
	c.link_seed = r.next(); c.t = r.chance(10) ? r.pick({951782399l, 951782400l, 1078012800l, 1704067199l, 1704067200l, 1709164800l, 4102444799l, 946684800l}) : 946684800 + (time_t)r.below(3150000000ull); c.tz = r.pick(std::vector<std::string>{"UTC0", "UTC0", "CET-1CEST", "XXX11", "XXX-13:45"});
	c.strings = r.chance(90) ? 0 : r.chance(60) ? 1 : -1; return c;
}
static std::string slurp(int fd) { std::string s; char b[65536]; ssize_t n; lseek(fd, 0, SEEK_SET); while ((n = read(fd, b, sizeof b)) > 0) s.append(b, n); return s; }
static int fo = memfd_create("o", 0), fe = memfd_create("e", 0), fi = memfd_create("i", 0), fv = memfd_create("v", 0);
static void rewound() {  for (int f : {fo, fe, fi, fv}) { if (f < 0 || ftruncate(f, 0)) abort(); lseek(f, 0, SEEK_SET); } }
static void init() { static bool done; if (done) return; done = true; if (emv_strings_init(NULL, mcc_path().c_str())) abort(); vh_alloc_reset(); }
static std::string joined(const std::vector<std::string>& a) { std::string s = "emv-tool"; for (auto& x : a) s += " " + x; return s; }
static std::string app_line(const MApp& a) { if (a.name_any) throw Stop(); return "Application: " + vh_hex(a.aid) + ", " + a.name + (a.prio ? vh_fmt(", Priority %u", a.prio) : "") + (a.conf ? ", Cardholder confirmation required" : "") + "\n"; }
static const char* outcome(int w) { switch (w) { case R_CARD_ERROR: return "Card error"; case R_BLOCKED: return "Card blocked"; case R_NOT_ACCEPTED: case R_GPO_NOT_ACCEPTED: return "Not accepted"; case R_TRY_AGAIN: return "Try again"; } return "?"; }
static std::string result_line(int w) { return w < 0 ? std::string("ERROR: ") + (w == -1 ? "Internal error" : "Invalid function parameter") + "\n" : std::string("OUTCOME: ") + outcome(w) + "\n"; }
// the transaction that must have taken place, read along the real output
struct Story { std::string end; bool finished = false; bool judged = true; };
static void judge(Case& c, Expect& e, const std::vector<ReaderText>& rt, RefTerm& ref, size_t& idx, Story& st, Rng& r)
{
	Service& s = c.s; idx = SIZE_MAX; (void)r;
	if (s.establish || s.list[0] || s.list[1] || s.rd.empty()) { e.is("PC/SC initialisation failed\n"); st.end = "no-service"; return; }
	e.is("\nPC/SC readers:\n"); s.now = 0;
	for (size_t i = 0; i < s.rd.size(); ++i) {
		e.is(vh_fmt("Reader %zu: ", i) + s.rd[i].name + "\n", "reader-list"); e.is(rt[i].features, "reader-list"); if (!rt[i].open) e.is(rt[i].properties, "reader-list"); else if (e.got.compare(e.pos, 12, "\tProperties:") == 0) e.pos += e.line().size();
		e.is("\tState: " + state_text(s.state(i), "Unknown") + "\n", "reader-list"); if (!rt[i].features.empty()) vh_obs("shown-features"); if (!rt[i].properties.empty()) vh_obs("shown-properties");
	}
	e.is("\nPresent card\n");
	uint64_t first = UINT64_MAX, card = UINT64_MAX; std::set<uint64_t> ts = {0}; for (auto& x : s.rd) for (auto& y : x.tl) ts.insert(y.at); for (uint64_t t : ts) { s.now = t; for (size_t i = 0; i < s.rd.size(); ++i) { DWORD v = s.state(i); if ((v & 0x7FF) != SCARD_STATE_EMPTY && first == UINT64_MAX) first = t; if ((v & SCARD_STATE_PRESENT) && card == UINT64_MAX) card = t; } }
	bool early = first < card && first <= 5000;
	if (card > 5000 || (early && e.got.compare(e.pos, 7, "No card") == 0)) { e.is("No card; exiting\n"); st.end = early ? "other-change" : "no-card"; return; }
	s.now = card; for (idx = 0; !(s.state(idx) & SCARD_STATE_PRESENT); ++idx) ; Reader& x = s.rd[idx];
	e.is(vh_fmt("Reader %zu: ", idx) + x.name + "; " + state_text(s.state(idx), "Unknown state") + "\nCard detected\n\n", "card-detected"); if (card) vh_obs("card-awaited"); if (idx) vh_obs("card-in-other-reader");
	const Bytes& a = x.atr; bool maybe = a.size() > 4 && a[0] == 0x3B && (a[1] & 0x80) && a[2] == 0x80 && a[3] == 1 && a.size() == 5u + (a[1] & 15); int w;
	if (maybe && (a[1] & 0x70)) throw Stop();
	if (x.connect || x.status) w = -1; else if (!maybe) w = 1; else if (x.uid_reply.size() < 2 || x.uid_reply.size() > 12) w = -1; else { uint16_t sw = x.uid_reply[x.uid_reply.size() - 2] << 8 | x.uid_reply.back(); w = sw == 0x9000 ? 2 : sw == 0x6A81 ? 1 : -1; }
	if (w < 0) { e.is("PC/SC reader activation failed\n"); st.end = "not-activated"; return; } e.is("Card activated\n"); if (w == 2) { e.is("Contactless not (yet) supported\n"); st.end = "contactless"; return; }
	RefAtr m = ref_atr(a); if (m.amb) throw Stop(); if (!m.ok || !ref_emv_atr(a, m)) { e.is(result_line(R_CARD_ERROR)); st.end = "atr-refused"; return; }
	ref.sup = SUP; ref.config = config(); ref.params = params(c.p); VCard mc = c.cards[idx]; mc.reset(); ref.card = &mc;
	e.is("\nTerminal config:\n"); e.fields(ref.config, "config", true); e.is("\nSupported AIDs:\n"); Flds aids; for (auto& q : SUP) aids.push_back({0x9F06, q.aid}); e.fields(aids, "aids"); e.is("\nTransaction parameters:\n"); e.fields(ref.params, "parameters", true);
	e.is("\nBuild candidate list\n"); int g = ref.build(); if (g) { e.is(result_line(g), "result"); st.end = std::string("build:") + retname(g); return; }
	e.is("Candidate applications:\n"); bool req = ref.list.size() > 1; for (auto& q : ref.list) { e.is(app_line(q), "candidates"); req |= q.conf; } if (req) { e.is("Cardholder selection is required\n", "choice-required"); vh_obs("choice-required"); }
	for (size_t used = 0;;) {
		unsigned pick = 0;
		if (req) {
			e.is("\nSelect application:\n", "choice"); for (size_t k = 0; k < ref.list.size(); ++k) { if (ref.list[k].name_any) throw Stop(); e.is(vh_fmt("%zu - ", k + 1) + ref.list[k].name + "\n", "choice"); } e.is("Enter number: ", "choice");
			if (used == c.lines.size() || (used + 1 == c.lines.size() && c.lines[used].empty() && c.input.empty())) { st.end = "end-of-input"; return; }
			std::string l = c.lines[used++]; bool num = !l.empty() && l.find_first_not_of("0123456789") == std::string::npos; pick = num ? atoi(l.c_str()) : 0; if (!pick || pick > ref.list.size()) { e.is("Invalid input. Try again.\n", "choice"); vh_obs("choice-refused"); continue; } if (pick > 1) vh_obs("choice-later"); --pick;
		} else e.is("\nSelect first application:\n", "choice");
		g = ref.select_app(pick); if (g) { e.is(result_line(g), "result"); if (g == R_TRY_AGAIN) { vh_obs("selected-again"); continue; } st.end = std::string("select:") + retname(g); return; }
		e.is("\nInitiate application processing:\n"); g = ref.initiate(EMV_POS_ENTRY_MODE_ICC_WITH_CVV); if (g) { e.is(result_line(g), "result"); if (g == R_GPO_NOT_ACCEPTED && !ref.list.empty()) { vh_obs("conditions-not-satisfied-again"); continue; } st.end = std::string("initiate:") + retname(g); return; }
		break;
	}
	e.is("\nRead application data\n"); g = ref.read_data(); if (g) { e.is(result_line(g), "result"); st.end = std::string("read:") + retname(g); return; }
	st.finished = true; st.end = x.disconnect ? "not-deactivated" : "complete";
	e.is("\nICC data:\n"); e.fields(ref.icc, "card-data"); e.is("\nTerminal data\n"); e.fields(ref.terminal, "terminal-data", true); e.is(x.disconnect ? "PC/SC reader deactivation failed\n" : "\nCard deactivated\n");
}
static void execute(const Case& c0, const std::vector<std::string>& args, const Params& p, Rng& r)
{
	rewound(); Case c = c0; c.p = p; std::string what = joined(args) + " <" + shown(c.input); vh_note("%s", what.c_str());
	if (!c.input.empty() && write(fi, c.input.data(), c.input.size()) != (ssize_t)c.input.size()) abort(); lseek(fi, 0, SEEK_SET);
	vh_fork([&] {
		setenv("TZ", c.tz.c_str(), 1); tzset(); now_t = c.t; strings_ret = c.strings; std::vector<ReaderText> rt = reader_texts(c.s); Service& s = c.s; j_pcsc::S = &s; std::vector<std::unique_ptr<Link>> link;
		for (size_t i = 0; i < s.rd.size(); ++i) { c.cards[i].reset(); link.emplace_back(new Link(&c.cards[i], false, c.link_seed + i)); Link* l = link.back().get(); l->max = 5000; s.rd[i].card = [l](const Bytes& t, Bytes& o) { if (++l->calls > l->max) { l->bad("too many transmissions"); return false; } return l->on(t, o); }; }
		std::vector<char*> v; std::vector<std::string> a = {"emv-tool"}; a.insert(a.end(), args.begin(), args.end()); for (auto& x : a) v.push_back(&x[0]); v.push_back(NULL); evs.clear(); ts_bad = false; strings_arg.clear();
		int o1 = dup(1), o2 = dup(2); dup2(fi, 0); dup2(fo, 1); dup2(fe, 2); vh_alloc_reset(); int rc = emv_tool_main(v.size() - 1, v.data()); uint64_t live = vh_alloc_live(); fflush(stdout); fflush(stderr); dup2(o1, 1); dup2(o2, 2); std::string out = slurp(fo), err = slurp(fe);
		for (auto& x : s.rd) x.card = nullptr;
		std::string ev; for (auto& x : evs) { std::string t = x.s; for (char& ch : t) if (ch == '\n') ch = '|'; ev += vh_fmt("%d %d %d ", x.src, x.level, x.type) + t + " " + x.b + "\n"; } if (write(fv, ev.data(), ev.size()) != (ssize_t)ev.size()) abort();
		if (strings_arg != c.strings_arg) vh_fail("strings", "%s: lookup data from '%s', expected '%s'", what.c_str(), strings_arg.c_str(), c.strings_arg.c_str());
		VH_CHECK(live == 0 || c.strings < 0, "leak", "%s: %lu allocations not freed", what.c_str(), (unsigned long)live); VH_CHECK(s.err.empty(), "service-use", "%s: %s", what.c_str(), s.err.c_str()); VH_CHECK(!s.ctx_open || s.release, "service-released", "%s: PC/SC context left open", what.c_str()); VH_DEFINED(out.data(), out.size(), "printed");
		if (c.strings < 0) { VH_CHECK(rc != 0 && !err.empty() && out.empty() && !s.ctxs, "strings-failed", "%s: exit status %d although the lookup data could not be loaded", what.c_str(), rc); vh_obs("end:strings-failed"); return; }
		VH_CHECK(err.empty() == (c.strings == 0), "stderr", "%s: reports '%s'", what.c_str(), err.substr(0, 300).c_str());
		RefTerm ref; VCard none; ref.card = &none; size_t idx = SIZE_MAX; Story st; Service model = s; Expect e{out, 0, what}; size_t real = SIZE_MAX; for (size_t i = 0; i < link.size(); ++i) { if (!link[i]->log.empty()) { VH_CHECK(real == SIZE_MAX, "one-card", "%s: commands to readers %zu and %zu", what.c_str(), real, i); real = i; } VH_CHECK(link[i]->err.empty(), "card-sees", "%s: %s", what.c_str(), link[i]->err.c_str()); }
		bool full = true; try { judge(c, e, rt, ref, idx, st, r); } catch (Unspec&) { vh_obs("not-judged"); full = false; } catch (Stop&) { vh_obs("output-not-settled"); full = false; }
		if (full) {
			if (st.end == "end-of-input") { e.pos = out.size(); } VH_CHECK(e.pos == out.size(), "output-end", "%s: prints also '%s'", what.c_str(), shown(out.substr(e.pos, 300)).c_str());
			static const std::vector<Bytes> nothing; const std::vector<Bytes>& got = idx < link.size() ? link[idx]->log : nothing; VH_CHECK(real == SIZE_MAX || real == idx, "one-card", "%s: commands to reader %zu, card is in %zu", what.c_str(), real, idx);
			for (size_t k = 0; k < std::max(got.size(), ref.log.size()); ++k) VH_CHECK(k < got.size() && k < ref.log.size() && got[k] == ref.log[k], "commands", "%s: command %zu is %s, expected %s", what.c_str(), k, k < got.size() ? vh_hex(got[k]).c_str() : "missing", k < ref.log.size() ? vh_hex(ref.log[k]).c_str() : "none"); vh_obs("commands-compared", got.size());
			if (st.finished && st.end == "complete") { for (auto& h : s.h) VH_CHECK(!h.second.open, "card-powered", "%s: card left connected", what.c_str()); }
			vh_obs("end:" + st.end); vh_distinct(vh_hash(out)); if (st.finished) vh_sample(shown(out).substr(0, 3000));
		}
		// debug events as requested
		VH_CHECK(!ts_bad, "event-data", "%s: event without text or data", what.c_str());
		for (auto& x : evs) VH_CHECK((x.src & p.mask) && x.level <= p.level && x.verbose == p.verbose, "events-requested", "%s: event '%s' of source %X level %d, verbose %d", what.c_str(), x.s.c_str(), x.src, x.level, x.verbose); if (!evs.empty()) vh_obs(p.verbose ? "events-verbose" : "events");
		if (p.level >= 3 && (p.mask & 1)) { size_t k = 0; std::vector<Bytes> none2; const std::vector<Bytes>& got = real < link.size() ? link[real]->log : none2; for (auto& x : evs) if (x.type == shim_type[3] && k < got.size() && x.b == vh_hex(got[k])) ++k; VH_CHECK(k == got.size(), "events-commands", "%s: command %zu of %zu not shown", what.c_str(), k, got.size()); vh_obs("commands-shown", k); }
	});
}
static void s_run(Rng& r, uint64_t)
{
	init(); Case c = gen_case(r); Params p; auto o = gen_options(r, p); if (r.chance(20)) debug_options(r, o, p);
	if (r.chance(10)) { std::string a = r.chance(50) ? "/iso codes" : "x", b = r.chance(50) ? "mcc.json" : "/y"; bool ha = r.chance(60), hb = !ha || r.chance(50); if (ha) option(r, o, "isocodes-path", a); if (hb) option(r, o, "mcc-json", b); c.strings_arg = (ha ? a : "-") + "|" + (hb ? b : "-"); vh_obs("lookup-paths"); }
	execute(c, flat(r, o), p, r);
}
static std::vector<std::string> lines(const std::string& s) { return RefSpec::split(s, '\n'); }
// what a selection of debug events shows is what the complete selection shows, without the rest
static void s_events(Rng& r, uint64_t)
{
	init(); Case c = gen_case(r); c.strings = 0; Params p; auto o = gen_options(r, p), full = o; Params pf = p; pf.level = 5; pf.mask = 0xFF; option(r, full, "debug-level", "ALL"); if (r.chance(70)) option(r, full, "debug-source", "ALL"); debug_options(r, o, p);
	execute(c, flat(r, full), pf, r); std::string a = slurp(fv); execute(c, flat(r, o), p, r); std::string b = slurp(fv), want;
	std::set<int> src, lev; for (auto& l : lines(a)) { int s, v, t; if (sscanf(l.c_str(), "%d %d %d", &s, &v, &t) != 3) continue; src.insert(s); lev.insert(v); if (s != 8 && (s & p.mask) && v <= p.level) want += l + "\n"; }
	std::string what = "options of level " + std::to_string(p.level) + vh_fmt(" mask %X", p.mask);
	std::vector<std::string> g, w = lines(want); for (auto& l : lines(b)) if (atoi(l.c_str()) != 8) g.push_back(l); while (!g.empty() && g.back().empty()) g.pop_back(); while (!w.empty() && w.back().empty()) w.pop_back();
	for (size_t k = 0; k < std::max(g.size(), w.size()); ++k) VH_CHECK(k < g.size() && k < w.size() && g[k] == w[k], "events-complete", "%s: event %zu is '%s', expected '%s'", what.c_str(), k, k < g.size() ? g[k].substr(0, 200).c_str() : "missing", k < w.size() ? w[k].substr(0, 200).c_str() : "none");
	for (int s : src) vh_obs(vh_fmt("source:%d", s)); for (int v : lev) vh_obs(vh_fmt("level:%d", v)); vh_obs("events-compared", w.size());
}
// ---- command lines that ask for no transaction: no reader may be touched
static void s_refuse(Rng& r, uint64_t)
{
	init(); rewound(); Params p; std::vector<std::vector<std::string>> o = gen_options(r, p); std::string why; int want = -1; std::string mustprint; std::vector<std::string> a; unsigned k = r.below(15);
	auto without = [&](const char* n) { for (size_t i = 0; i < o.size();) if (o[i][0].compare(0, strlen(n) + 2, std::string("--") + n) == 0 && (o[i][0].size() == strlen(n) + 2 || o[i][0][strlen(n) + 2] == '=')) o.erase(o.begin() + i); else ++i; };
	static const std::vector<std::string> BADTYPE = {"", "1", "123", "A0", "0A", "+1", "-1", " 1", "1 ", "0x", "zz", "000", "0.", "\t1"}, BADAMT = {"", "-1", "+1", " 1", "1 ", "1.00", "0x10", "abc", "1e3", "12a", "4294967296", "4294967297", "9999999999", "18446744073709551615", "18446744073709551616", "18446744073709551617", "99999999999999999999999", "-18446744073709551615", "1,000", "\t5"};
	switch (k) {
		case 0: case 1: why = "bad-type"; without("txn-type"); option(r, o, "txn-type", r.pick(BADTYPE)); break;
		case 2: case 3: why = "bad-amount"; without("txn-amount"); option(r, o, "txn-amount", r.pick(BADAMT)); break;
		case 4: why = "bad-other-amount"; without("txn-amount-other"); option(r, o, "txn-amount-other", r.pick(BADAMT)); break;
		case 5: case 6: why = "no-amount"; if (p.type == (EMV_TRANSACTION_TYPE_INQUIRY >> 4) * 10) { without("txn-type"); } without("txn-amount"); if (r.chance(60)) option(r, o, "txn-amount", number(r, 0)); if (o.empty()) option(r, o, "txn-type", "00"); break;
		case 7: case 8: why = "no-cashback-amount"; without("txn-type"); without("txn-amount"); without("txn-amount-other"); option(r, o, "txn-type", "09"); option(r, o, "txn-amount", "100"); if (r.chance(60)) option(r, o, "txn-amount-other", number(r, 0)); break;
		case 9: why = "bad-source"; option(r, o, "debug-source", r.pick(std::vector<std::string>{"XYZ", "TTL,XXX", "TTL;TAL", "TT", "TTLS", "1", "EMV,,Q"})); break;
		case 10: why = "bad-level"; option(r, o, "debug-level", r.pick(std::vector<std::string>{"XYZ", "", "INFOS", "INF", "3", "INFO,CARD"})); break;
		case 11: why = "unknown-option"; o.push_back({r.pick(std::vector<std::string>{"--no-such-option", "-x", "extra-argument", "--txn=5"})}); break;
		case 12: why = "version"; o.clear(); o.push_back({"--version"}); want = 0; mustprint = std::string(emv_lib_version_string()) + "\n"; break;
		case 13: why = "no-arguments"; o.clear(); break;
		case 14: why = "help"; o.clear(); o.push_back({"--help"}); want = 0; break;
	}
	a = flat(r, o); std::string what = joined(a); vh_note("%s (%s)", what.c_str(), why.c_str());
	static volatile uint64_t* touched = (volatile uint64_t*)mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); *touched = 0; static Service* srv; Service s; s.rd.push_back(j_pcsc::gen_reader(r, 0, 0)); s.rd[0].tl = {{0, SCARD_STATE_PRESENT}}; s.rd[0].atr = contact_atr(r); srv = &s; j_pcsc::S = &s;
	fflush(NULL); pid_t pid = fork(); if (pid < 0) abort();
	if (!pid) { atexit([] { *touched = srv->calls; }); strings_ret = 0; dup2(fi, 0); dup2(fo, 1); dup2(fe, 2); std::vector<char*> v = {strdup("emv-tool")}; for (auto& x : a) v.push_back(strdup(x.c_str())); v.push_back(NULL); alarm(60); exit(emv_tool_main(v.size() - 1, v.data())); }
	int st = 0; while (waitpid(pid, &st, 0) < 0) ; std::string out = slurp(fo), err = slurp(fe);
	if (WIFSIGNALED(st) || WEXITSTATUS(st) == 66) { fwrite(err.data(), 1, std::min<size_t>(err.size(), 20000), stderr); if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) vh_fail("hang", "%s: more than a minute", what.c_str()); vh_fail("crash", "%s: status %x", what.c_str(), st); }
	int rc = WEXITSTATUS(st); VH_CHECK(*touched == 0, "no-transaction", "%s (%s): the reader is used", what.c_str(), why.c_str()); VH_CHECK(want < 0 ? rc != 0 : rc == want, "refused", "%s (%s): exit status %d", what.c_str(), why.c_str(), rc);
	if (want < 0 && why != "no-arguments") VH_CHECK(!err.empty(), "refused", "%s (%s): nothing reported", what.c_str(), why.c_str()); if (!mustprint.empty()) VH_CHECK(out == mustprint, "version", "%s: prints '%s', expected '%s'", what.c_str(), out.c_str(), mustprint.c_str());
	if (why == "help" || why == "no-arguments") for (const char* n : {"--txn-type", "--txn-amount", "--txn-amount-other", "--debug-verbose", "--debug-source", "--debug-level", "--version"}) VH_CHECK(out.find(n) != std::string::npos, "help", "%s: %s not explained", what.c_str(), n);
	vh_obs("refused:" + why); vh_distinct(vh_hash(what));
}
std::vector<Suite> vh_suites() { return {{"run", 0, 1, s_run}, {"events", 0, 0.3, s_events}, {"refuse", 0, 0.2, s_refuse}}; }
std::vector<std::string> vh_required()
{
	return {"end:complete", "end:no-service", "end:no-card", "end:not-activated", "end:contactless", "end:atr-refused", "end:build:card-error", "end:build:not-accepted", "end:select:not-accepted", "end:initiate:card-error", "end:initiate:gpo-not-accepted", "end:read:card-error", "end:end-of-input", "end:strings-failed", "card-awaited", "card-in-other-reader", "choice-required", "choice-refused", "choice-later", "selected-again", "shown-features", "shown-properties", "events", "events-verbose", "commands-shown", "lookup-paths", "refused:bad-type", "refused:bad-amount", "refused:bad-other-amount", "refused:no-amount", "refused:no-cashback-amount", "refused:bad-source", "refused:bad-level", "refused:unknown-option", "refused:version", "refused:no-arguments", "refused:help", "source:1", "source:2", "source:4", "source:8", "level:2", "level:3", "level:4"};
}
const char* vh_rule() { return "generated command lines, PC/SC readers, cards and cardholder choices run through emv-tool in a child process; whole output, commands received by the card, debug events, exit status, PC/SC use and memory compared with a reference terminal and an independent rendering; distinct = distinct whole outputs and refused command lines"; }
