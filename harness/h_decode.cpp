// C22: emv-decode from the command line to its output, and the printing
// functions it shares with emv-tool.
#include "ref_print.hpp"
#include "ref_iso8859.inc"
#include "emv_tlv.h"
#include "emv_app.h"
#include "iso7816.h"
extern "C" {
#include "shim_print.h"
int emv_decode_main(int argc, char** argv);
}
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

static void init() { static bool done; if (done) return; done = true; if (emv_strings_init(NULL, mcc_path().c_str())) abort(); vh_alloc_reset(); }
static std::string printed(const std::function<void()>& f)
{
	static char* p; static size_t n; FILE* old = stdout; fflush(stdout); FILE* m = open_memstream(&p, &n); if (!m) abort(); stdout = m; f(); stdout = old; fclose(m); std::string s(p, n); Exact::free_raw(p); return s;
}
static std::string shown(const std::string& s) { std::string o; for (char c : s) if (c == '\n') o += "\\n"; else o += c; return o; }
static void same(const char* rule, const std::string& what, const std::string& got, const Out& w)
{
	if (w.un) { vh_obs(std::string("not-settled:") + rule); return; }
	vh_obs(std::string("check:") + rule); std::string a = norm(got), b = norm(w.o);
	if (a != b) { size_t k = 0; while (k < a.size() && k < b.size() && a[k] == b[k]) ++k; size_t z = k > 150 ? k - 150 : 0; vh_fail(rule, "%s: prints ..%s.., expected ..%s..", what.substr(0, 300).c_str(), shown(a.substr(z, 400)).c_str(), shown(b.substr(z, 400)).c_str()); }
	vh_distinct(vh_hash(w.o));
}
// ---- inputs ----
static Bytes good_value(Rng& r, const RefTag& t) { Bytes b; switch (r.below(6)) { case 0: b = r.bytes(r.below(12)); break; case 1: b = r.bytes(r.chance(97) ? r.range(1, 40) : r.range(100, 700)); if (b.size() > 255) vh_obs("long-value"); break; default: b = Bytes(refspec().f.count(t.kind) ? refspec().len(t.kind) : r.range(1, 8)); for (auto& c : b) c = t.format == EMV_FORMAT_N || t.format == EMV_FORMAT_CN ? r.below(10) << 4 | r.below(10) : t.format == EMV_FORMAT_B || t.format == EMV_FORMAT_VAR ? r.b8() : "ABCdef019 "[r.below(10)]; } return b; }
static Bytes dol(Rng& r) { Bytes b; for (size_t q = r.chance(1) ? r.range(100, 300) : r.below(6); q; --q) { enc_tag(b, r.chance(80) ? ref_tags()[r.below(ref_tags().size())].tag : gen_tag(r, false)); b.push_back(r.below(40)); } if (r.chance(10)) b.push_back(r.u8()); return b; }
static Bytes taglist(Rng& r) { Bytes b; for (size_t q = r.chance(1) ? r.range(100, 300) : r.below(6); q; --q) enc_tag(b, r.chance(80) ? ref_tags()[r.below(ref_tags().size())].tag : gen_tag(r, false)); if (r.chance(10)) b.push_back(r.chance(50) ? 0x9F : r.u8()); return b; }
static Bytes fields(Rng& r, int depth, size_t most)
{
	Bytes o; static const unsigned C[] = {0x61, 0x6F, 0x70, 0x71, 0x72, 0x77, 0xA5, 0xBF0C, 0x73, 0xE0, 0x7F66, 0x30, 0xFF01};
	for (size_t n = r.below(most + 1); n; --n) {
		if (depth > 0 && r.chance(35)) {
			unsigned tag = r.chance(80) ? r.pick(C) : gen_tag(r, true); Bytes v = fields(r, depth - 1, 4);
			if (r.chance(12)) { enc_tag(o, tag); o.push_back(0x80); cat(o, v); o.push_back(0); o.push_back(0); } else cat(o, enc_tlv(tag, v, r.chance(15) ? r.range(1, 4) : 0));
		} else {
			const RefTag& t = ref_tags()[r.below(ref_tags().size())]; unsigned top = t.tag; while (top > 0xFF) top >>= 8; if (top & 0x20) continue;
			Bytes v = t.format == EMV_FORMAT_DOL ? dol(r) : t.format == EMV_FORMAT_TAG_LIST ? taglist(r) : good_value(r, t); unsigned tag = r.chance(85) ? t.tag : gen_tag(r, false);
			if (r.chance(12)) { static const uint8_t U[] = {1, 2, 3, 4, 5, 6, 6, 6, 7, 12, 18, 19, 22, 23, 26, 30}; tag = r.pick(U); v = tag == 6 ? r.bytes(r.range(1, 8)) : r.chance(5) ? r.bytes(r.range(1020, 1030)) : r.bytes(r.below(10)); if (tag == 6) v.back() &= 127; if (tag != 6 && r.chance(80)) for (auto& c : v) c = 'a' + c % 26; }
			cat(o, enc_tlv(tag, v, r.chance(8) ? r.range(1, 4) : 0));
		}
	}
	return o;
}
static Bytes message(Rng& r)
{
	bool many = r.below(1000) < 4; Bytes b = many ? fields(r, 1, 700) : fields(r, r.range(1, 5), 6); if (many) vh_obs("many-elements"); if (b.empty()) b = {0x9A, 3, 0x24, 1, 2};
	switch (r.below(10)) {
		case 0: case 1: mutate(r, b); break;
		case 2: case 3: { size_t k = r.chance(50) ? 8 : 16; uint8_t f = r.pick({0, 0xFF, 0x9F, 0x80, 0x1F}); if (r.chance(40)) b.push_back(0x80); while (b.size() % k) b.push_back(f); if (r.chance(10)) b.push_back(f); if (r.chance(30)) { Bytes in = b; b = enc_tlv(0x70, in); } break; }
		case 4: b.resize(r.range(1, b.size())); break;
	}
	if (b.empty()) b = {0};
	return b;
}
static void s_print(Rng& r, uint64_t)
{
	init(); Bytes b = message(r); bool emv = r.chance(65), pad = r.chance(50); unsigned d = r.chance(80) ? 0 : r.below(4); std::string h = vh_fmt("%s%s depth %u %s", emv ? "TLV" : "BER", pad ? " ignoring padding" : "", d, vh_hex(b).c_str()); vh_note("%s", h.c_str()); Exact in(b);
	std::string g = printed([&] { if (emv) print_emv_buf(in.p, in.n, "  ", d, pad); else print_ber_buf(in.p, in.n, "  ", d, pad); }); Out w; print_all(w, b, d, emv, pad);
	VH_DEFINED(g.data(), g.size(), "printed"); same(emv ? "tlv" : "ber", h, g, w); vh_alloc_expect_none("print-leak");
	if (!w.un) { if (w.o.find("Padding : ") != std::string::npos) vh_obs("padding"); if (w.o.find(" at offset ") != std::string::npos) vh_obs(w.o.find("\n") < w.o.find(" at offset ") ? "error-after-fields" : "error-at-once"); if (w.o.find("\n    ") != std::string::npos) vh_obs("nested"); if (w.o.find("Data Object List:") != std::string::npos) vh_obs("dol-inside"); if (w.o.find("Tag List:") != std::string::npos) vh_obs("tag-list-inside"); if (w.o.find("  - ") != std::string::npos) vh_obs("list-inside"); if (w.o.find("{") != std::string::npos) vh_obs("oid-inside"); }
}
static void s_other(Rng& r, uint64_t)
{
	init(); Out w; unsigned d = r.below(3);
	switch (r.below(9)) {
		case 0: { Bytes b = dol(r); Exact in(b); print_dol(w, b, d); same("dol", vh_hex(b), printed([&] { print_emv_dol(in.p, in.n, "  ", d); }), w); break; }
		case 1: { Bytes b = taglist(r); Exact in(b); print_tags(w, b, d); same("tag-list", vh_hex(b), printed([&] { print_emv_tag_list(in.p, in.n, "  ", d); }), w); break; }
		case 2: { // fields of a transaction
			struct emv_tlv_list_t l = EMV_TLV_LIST_INIT; size_t n = r.below(6); std::string what; for (size_t k = 0; k < n; ++k) { Bytes f; do f = fields(r, 2, 1); while (f.empty()); RefTlv t = ref_ber(f.data(), f.size()); if (t.r <= 0 || (t.flags & 0x20)) continue; Bytes v(f.begin() + t.hdr, f.begin() + t.hdr + t.length); what += vh_fmt("%X ", t.tag) + vh_hex(v) + "; "; Exact e(v); if (emv_tlv_list_push(&l, t.tag, v.size(), e.p, r.below(2))) vh_fail("push", "%s", what.c_str()); print_field(w, t.tag, v, 1); }
			vh_note("%s", what.c_str()); std::string g = printed([&] { print_emv_tlv_list(&l); }); same("field-list", what, g, w); if (l.front) { Out x; Bytes v(l.front->value, l.front->value + l.front->length); print_field(x, l.front->tag, v, 0); same("field", what, printed([&] { print_emv_tlv(l.front); }), x); } emv_tlv_list_clear(&l); vh_alloc_expect_none("print-leak"); break; }
		case 3: { Bytes b = r.bytes(r.range(4, 20)); if (r.chance(70)) { b = {0, r.pick({(uint8_t)0xA4, (uint8_t)0xB2, (uint8_t)0xCA, (uint8_t)0x88, (uint8_t)0x84}), r.b8(), r.b8()}; if (r.chance(70)) { b.push_back(3); Bytes x = r.bytes(3); cat(b, x); if (r.chance(50)) b.push_back(0); } } if (r.chance(30)) { b[0] = 0x80; b[1] = r.pick({(uint8_t)0xA8, (uint8_t)0xAE, (uint8_t)0xCA}); } if (r.chance(10)) b.resize(r.below(4)); Exact in(b); auto e = ref_any_capdu(b); w.o = b.empty() ? "(null)\n" : vh_hex(b) + (e.first ? "" : " (" + e.second + ")") + "\n"; same("capdu", vh_hex(b), printed([&] { print_capdu(in.p, in.n); }), w); break; }
		case 4: { Bytes b = r.bytes(r.below(10)); if (r.chance(60) && b.size() > 1) { b[b.size() - 2] = r.pick({0x90, 0x61, 0x6A, 0x69, 0x63}); b.back() = r.pick({0, 0x82, 0x83, 0x85, 0xC1}); } Exact in(b); w.o = b.empty() ? "(null)\n" : vh_hex(b) + (b.size() < 2 || ref_sw(b[b.size() - 2], b.back()).empty() ? "" : " (" + ref_sw(b[b.size() - 2], b.back()) + ")") + "\n"; same("rapdu", vh_hex(b), printed([&] { print_rapdu(in.p, in.n); }), w); break; }
		case 5: { Bytes b = r.bytes(r.chance(95) ? r.below(10) : r.below(1500)); Exact in(b); bool nn = r.chance(20); std::string n = "Name"; w.o = (nn ? "" : n + ": ") + vh_hex(b) + "\n"; same("buf", vh_hex(b), printed([&] { print_buf(nn ? NULL : n.c_str(), in.p, in.n); }), w); Out x; x.o = "Name: (null)\n"; same("buf", "null", printed([&] { print_buf("Name", NULL, 0); }), x); break; }
		case 6: { Bytes aid = r.bytes(r.range(5, 16)); struct emv_tlv_t t; memset(&t, 0, sizeof t); Exact e(aid); t.tag = 0x4F; t.length = aid.size(); t.value = e.p; struct emv_app_t a; memset(&a, 0, sizeof a); a.aid = &t; std::string n; for (size_t q = r.below(33); q; --q) n += "ABC xyz01"[r.below(9)]; strcpy(a.display_name, n.c_str()); a.priority = r.below(16); a.confirmation_required = r.chance(50); w.o = "Application: " + vh_hex(aid) + ", " + n + (a.priority ? vh_fmt(", Priority %u", a.priority) : "") + (a.confirmation_required ? ", Cardholder confirmation required" : "") + "\n"; same("app", n, printed([&] { print_emv_app(&a); }), w); break; }
		case 7: { Bytes a = gen_atr(r).make(); RefAtr m = ref_atr(a); struct iso7816_atr_info_t i; memset(&i, 0xC3, sizeof i); vh_note("%s", vh_hex(a).c_str()); if (iso7816_atr_parse(a.data(), a.size(), &i) || !m.ok || m.amb) break; print_ref_atr(w, a, m); same("atr", vh_hex(a), printed([&] { print_atr(&i); }), w); break; }
		case 8: { // debug events
			static const char* SRC[] = {"TTL", "TAL", "EMV", "APP"}; static const int SV[] = {SHIM_SRC_TTL, SHIM_SRC_TAL, SHIM_SRC_EMV, SHIM_SRC_APP}; static const char* LV[] = {"ERROR", "INFO", "CARD", "TRACE"}; static const int LN[] = {SHIM_LEVEL_ERROR, SHIM_LEVEL_INFO, SHIM_LEVEL_CARD, SHIM_LEVEL_TRACE}; static const int TY[] = {SHIM_TYPE_MSG, SHIM_TYPE_DATA, SHIM_TYPE_TLV, SHIM_TYPE_CAPDU, SHIM_TYPE_RAPDU, SHIM_TYPE_ATR};
			int s = r.below(4), l = r.below(4), ty = r.below(6); unsigned ts = r.u32() >> r.below(30); bool vb = r.chance(50); std::string text = "text " + std::to_string(r.below(100)); Bytes b = ty == 2 ? message(r) : ty == 5 ? gen_atr(r).make() : r.bytes(r.range(1, 10)); if (ty == 4 && b.size() > 1) { b[b.size() - 2] = 0x90; b.back() = 0; }
			struct iso7816_atr_info_t i; memset(&i, 0, sizeof i); RefAtr m; if (ty == 5) { m = ref_atr(b); if (!m.ok || m.amb || iso7816_atr_parse(b.data(), b.size(), &i)) break; }
			w.o = vb ? vh_fmt("[%010u,%s,%s] ", ts, SRC[s], LV[l]) : vh_fmt("[%s] ", SRC[s]); if (ty == 0) w.o += text + "\n"; else if (ty == 5) print_ref_atr(w, b, m); else { w.o += text + ": " + vh_hex(b); if (ty == 3) { auto e = ref_any_capdu(b); if (!e.first) w.o += " (" + e.second + ")"; } if (ty == 4 && b.size() > 1) w.o += " (" + ref_sw(b[b.size() - 2], b.back()) + ")"; w.o += "\n"; if (ty == 2) print_all(w, b, 1, true, false); }
			Exact in(b); vh_note("type %d %s", ty, vh_hex(b).c_str()); same("debug-event", vh_fmt("type %d %s", ty, vh_hex(b).c_str()), printed([&] { shim_print_debug(vb, ts, SV[s], LN[l], TY[ty], text.c_str(), ty == 0 ? NULL : ty == 5 ? (void*)&i : in.p, ty == 0 ? 0 : ty == 5 ? sizeof i : in.n); }), w); break; }
	}
}
// ---- the program ----
struct Ran { int rc; std::string out, err; };
static std::string slurp(int fd) { std::string s; char b[65536]; off_t o = 0; ssize_t n; while ((n = pread(fd, b, sizeof b, o)) > 0) { s.append(b, n); o += n; } return s; }
static int fo = memfd_create("o", 0), fe = memfd_create("e", 0), fi = memfd_create("i", 0);
static Ran run(const std::vector<std::string>& args, const Bytes* in)
{
	for (int f : {fo, fe, fi}) { if (f < 0 || ftruncate(f, 0)) abort(); lseek(f, 0, SEEK_SET); }
	if (in && !in->empty() && write(fi, in->data(), in->size()) != (ssize_t)in->size()) abort(); lseek(fi, 0, SEEK_SET); fflush(NULL);
	std::vector<std::string> a = {"emv-decode"}; a.insert(a.end(), args.begin(), args.end());
	pid_t pid = fork(); if (pid < 0) abort();
	if (!pid) { dup2(fi, 0); dup2(fo, 1); dup2(fe, 2); std::vector<char*> v; for (auto& x : a) v.push_back(strdup(x.c_str())); v.push_back(NULL); alarm(60); exit(emv_decode_main(v.size() - 1, v.data())); }
	int st = 0; while (waitpid(pid, &st, 0) < 0) ; Ran x; x.out = slurp(fo); x.err = slurp(fe);
	if (WIFSIGNALED(st) || WEXITSTATUS(st) == 66 || WEXITSTATUS(st) == 1 + 66) { fwrite(x.err.data(), 1, std::min<size_t>(x.err.size(), 20000), stderr); fflush(stderr); if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) { vh_fail("hang", "emv-decode used more than a minute"); } x.rc = -1000 - (WIFSIGNALED(st) ? WTERMSIG(st) : 0); return x; }
	x.rc = WEXITSTATUS(st); return x;
}
static Ran go(const std::vector<std::string>& args, const Bytes* in)
{
	Ran x = run(args, in); std::string c; for (auto& a : args) c += " " + a; if (x.rc <= -1000) { fflush(stderr); _exit(66); } return x;
}
static std::string hexinput(Rng& r, const Bytes& b)
{
	std::string h = vh_hex(b), o; unsigned cs = r.below(3), sp = r.below(4);
	for (size_t i = 0; i < h.size(); ++i) { if ((sp == 1 && i && i % 2 == 0) || (sp == 2 && r.chance(20))) o += r.chance(80) ? ' ' : r.chance(50) ? '\n' : '\t'; char c = h[i]; if (cs == 1 || (cs == 2 && r.chance(50))) c = tolower(c); o += c; }
	if (r.chance(15)) { unsigned n = r.range(1, 4); while (n--) o += " \n\t\r"[r.below(4)]; vh_obs("trailing-space"); }
	return o;
}
struct Mode { std::vector<const char*> opt; const char* kind; size_t lo, hi; bool list; };
static const Mode MODES[] = {
	{{"--mcc", "--9F15"}, "mcc", 2, 2, false}, {{"--term-type", "--9F35"}, "term-type", 1, 1, true}, {{"--term-caps", "--9F33"}, "term-caps", 3, 3, true}, {{"--addl-term-caps", "--9F40"}, "addl-term-caps", 5, 5, true},
	{{"--cvm-list", "--8E"}, "cvm-list", 1, 252, true}, {{"--cvm-results", "--9F34"}, "cvm-results", 3, 3, true}, {{"--tvr", "--95"}, "tvr", 5, 5, true}, {{"--tsi", "--9B"}, "tsi", 2, 2, true}, {{"--issuer-app-data", "--9F10"}, "iad", 1, 32, true},
	{{"--ttq", "--9F66"}, "ttq", 4, 4, true}, {{"--ctq", "--9F6C"}, "ctq", 2, 2, true}, {{"--amex-cl-reader-caps", "--9F6D"}, "amex-cl-caps", 1, 1, false}, {{"--mastercard-third-party-data"}, "third-party", 5, 32, true}, {{"--visa-ffi"}, "visa-ffi", 4, 4, true}, {{"--amex-enh-cl-reader-caps"}, "amex-enh-caps", 4, 4, true}, {{"--terminal-risk-management-data", "--9F1D"}, "trmd", 8, 8, true},
};
static const size_t NM = sizeof MODES / sizeof *MODES;
static std::string u8(unsigned c) { std::string s; if (c < 0x80) s += (char)c; else if (c < 0x800) { s += (char)(0xC0 | c >> 6); s += (char)(0x80 | (c & 63)); } else { s += (char)(0xE0 | c >> 12); s += (char)(0x80 | (c >> 6 & 63)); s += (char)(0x80 | (c & 63)); } return s; }
static std::string joined(const std::vector<std::string>& a, const Bytes* in) { std::string s; for (auto& x : a) s += " '" + x + "'"; if (in) s += " < " + vh_hex(*in); return s; }
// a decoding, or none: then an error is reported and nothing printed
static void expect(const char* rule, const std::vector<std::string>& args, const Bytes* in, bool ok, const Out& w)
{
	std::string what = joined(args, in); vh_note("%s", what.c_str()); Ran x = go(args, in);
	if (ok) { VH_CHECK(x.rc == 0, "exit-status", "%s: exit status %d: %.200s", what.c_str(), x.rc, x.err.c_str()); same(rule, what, x.out, w); VH_CHECK(w.un || x.err.empty(), "stderr", "%s: reports '%.200s'", what.c_str(), x.err.c_str()); vh_obs(std::string("decoded:") + rule); }
	else if (!w.un) { VH_CHECK(!x.err.empty() && x.out.empty(), "refused", "%s: prints '%.200s' and reports '%.200s', expected an error only", what.c_str(), x.out.c_str(), x.err.c_str()); vh_obs(std::string("refused:") + rule); }
}
static std::vector<std::string> cmdline(Rng& r, const char* opt, const std::string& arg, bool pad = false) { std::vector<std::string> a = {opt, arg}; if (r.chance(25)) std::swap(a[0], a[1]); if (pad) a.insert(a.begin() + r.below(3), "--ignore-padding"); return a; }
static void give(Rng& r, const char* rule, const char* opt, const Bytes& b, bool ok, const Out& w, bool pad = false)
{
	if (r.chance(25) && !b.empty()) { auto a = cmdline(r, opt, "-", pad); vh_obs("stdin"); expect(rule, a, &b, ok, w); } else expect(rule, cmdline(r, opt, hexinput(r, b), pad), NULL, ok, w);
}
static void s_cli(Rng& r, uint64_t)
{
	Out w; unsigned k = r.below(20);
	if (k < 4) { Bytes b = message(r); if (r.chance(10)) { while (b.size() < 4090) { Bytes m = fields(r, 3, 6); cat(b, m); } if (r.chance(50)) { Bytes v(r.below(8000), 0xAB); cat(b, enc_tlv(0xDF01, v)); } vh_obs("large-input"); } bool emv = r.chance(60), pad = r.chance(50); print_all(w, b, 0, emv, pad); give(r, emv ? "cli-tlv" : "cli-ber", emv ? "--tlv" : "--ber", b, true, w, pad); return; }
	if (k == 4) { Bytes b = dol(r); if (b.empty()) b = {0x9A, 3}; print_dol(w, b, 0); give(r, "cli-dol", "--dol", b, true, w); return; }
	if (k == 5) { Bytes b = taglist(r); if (b.empty()) b = {0x9A}; print_tags(w, b, 0); give(r, "cli-tag-list", "--tag-list", b, true, w); return; }
	if (k == 6) { Bytes a = gen_atr(r).make(); if (r.chance(15)) mutate(r, a); if (a.empty()) a = {0x3B}; RefAtr m = ref_atr(a); if (m.amb || m.surplus) return; if (m.ok) print_ref_atr(w, a, m); give(r, "cli-atr", "--atr", a, m.ok, w); return; }
	if (k == 7) { Bytes b = r.bytes(r.chance(80) ? 2 : r.range(1, 4)); if (b.size() == 2 && r.chance(70)) b[0] = r.pick({0x90, 0x61, 0x62, 0x63, 0x64, 0x65, 0x66, 0x67, 0x68, 0x69, 0x6A, 0x6B, 0x6C, 0x6F}); if (b.size() == 2) w.o = vh_fmt("SW1SW2: %02X%02X (", b[0], b[1]) + ref_sw(b[0], b[1]) + ")\n"; give(r, "cli-sw", "--sw1sw2", b, b.size() == 2, w); return; }
	if (k < 13) {
		const Mode& m = MODES[r.below(NM)]; std::string kd = m.kind; Bytes b(r.chance(85) ? r.range(m.lo, std::min<size_t>(m.hi, 40)) : r.range(1, 40)); unsigned fill = r.below(5); for (auto& c : b) c = fill == 0 ? 0xFF : fill == 1 ? 1 << r.below(8) : fill == 2 ? r.below(10) << 4 | r.below(10) : r.b8();
		if (kd == "mcc" && r.chance(60)) { auto it = refdata().mcc.begin(); std::advance(it, r.below(refdata().mcc.size())); unsigned c = it->first; b = {(uint8_t)(c / 1000 % 10 << 4 | c / 100 % 10), (uint8_t)(c / 10 % 10 << 4 | c % 10)}; }
		if (kd == "cvm-list" && r.chance(70)) { b = r.bbytes(8); for (size_t q = r.chance(10) ? 122 : r.range(1, 8); q; --q) { b.push_back(r.below(32) | r.below(4) << 6); b.push_back(r.below(10)); } if (b.size() > 100) vh_obs("cli-long-list"); }
		if (kd == "iad" && r.chance(60)) { b = r.bytes(32); switch (r.below(3)) { case 0: b[0] = 0x0F; b[1] = 0xA5; b[16] = 0x0F; break; case 1: b.resize(7); b[0] = 6; b[2] = 0x0A; b[3] = 3; break; case 2: b.resize(18); b[1] = 0x10; break; } }
		if (kd == "third-party" && r.chance(60)) { b = {0x08, 0x26, 0x80, 1}; b.push_back(r.u8()); if (r.chance(50)) b = {0x07, 0x10, 0x00, 3, '0', '3', 0, 2, r.u8(), r.u8(), r.u8()}; if (r.chance(30)) { Bytes x = r.bytes(r.chance(60) ? 32 - b.size() : r.below(32 - b.size() + 2)); cat(b, x); } if (b.size() == 32) vh_obs("cli-third-party-full"); }
		if (kd == "visa-ffi" && r.chance(70)) { b = {(uint8_t)(0x20 | r.below(32)), r.u8(), 0, (uint8_t)r.below(3)}; } if (kd == "amex-enh-caps" && r.chance(70)) { b = {0x18, 0x80, 0, 3}; b[0] |= r.u8() & 0xC4; b[1] |= r.u8() & 0x70; b[2] |= r.u8() & 0xC0; b[3] |= r.u8() & 0xE0; }
		bool len = b.size() >= m.lo && b.size() <= m.hi; RefText t = {false, ""}; if (len) t = ref_value(kd, b); bool ok = len && t.ok && !(kd == "mcc" && t.text.empty()); w.o = t.text + (m.list ? "" : "\n"); if (kd == "third-party" && t.ok) vh_obs("cli-third-party");
		give(r, vh_fmt("cli-%s", m.kind).c_str(), m.opt[r.below(m.opt.size())], b, ok, w); return;
	}
	if (k < 16) { // names of codes
		const RefData& D = refdata(); unsigned q = r.below(3); std::string c, n; bool ok = false; auto any = [&](const std::map<std::string, std::string>& m) { auto it = m.begin(); std::advance(it, r.below(m.size())); return it->first; }; auto anyn = [&](const std::map<unsigned, std::string>& m) { auto it = m.begin(); std::advance(it, r.below(m.size())); return vh_fmt("%03u", it->first); };
		if (q == 0) c = r.chance(33) ? any(D.country2) : r.chance(50) ? any(D.country3) : anyn(D.countryn); else if (q == 1) c = r.chance(50) ? any(D.cur3) : anyn(D.curn); else c = r.chance(50) ? any(D.lang2) : any(D.lang3);
		if (r.chance(20)) { c[r.below(c.size())] = "AZaz09x"[r.below(7)]; } if (r.chance(8)) c += "1"; if (r.chance(8) && c.size() == 3) c = " 0+-"[r.below(4)] + c; if (r.chance(5) && c.size() < 4) c.pop_back();
		bool num = c.size() == 3 && c.find_first_not_of("0123456789") == std::string::npos, sh = c.size() == 2 && c.find_first_not_of("0123456789") == std::string::npos; if (sh) return;
		if (q == 0) { n = c.size() == 2 ? D.get(D.country2, c) : c.size() == 3 ? D.get(D.country3, c) : ""; if (n.empty() && num) n = D.get(D.countryn, (unsigned)atoi(c.c_str())); } if (q == 1) { n = c.size() == 3 ? D.get(D.cur3, c) : ""; if (n.empty() && num) n = D.get(D.curn, (unsigned)atoi(c.c_str())); } if (q == 2) n = c.size() == 2 ? D.get(D.lang2, c) : c.size() == 3 ? D.get(D.lang3, c) : "";
		ok = !n.empty(); w.o = n + "\n"; static const char* O[3][2] = {{"--country", "--iso3166-1"}, {"--currency", "--iso4217"}, {"--language", "--iso639"}}; static const char* R[] = {"cli-country", "cli-currency", "cli-language"}; expect(R[q], cmdline(r, O[q][r.below(2)], c), NULL, ok, w); return;
	}
	if (k == 16) { // ISO 8859
		unsigned cp = r.range(1, 15); if (cp == 12) return; Bytes b(r.range(1, r.chance(10) ? 500 : 20)); w.o = ""; for (auto& c : b) { do c = r.u8(); while (ISO8859[cp][c] == 0xFFFF || c < 0x20 || (c >= 0x7F && c < 0xA0)); w.o += u8(ISO8859[cp][c]); } w.o += "\n"; give(r, "cli-iso8859", vh_fmt("--iso8859-%u", cp).c_str(), b, true, w); return;
	}
	// input that is not valid
	std::vector<std::string> a; Bytes none; const Bytes* in = NULL; static const char* OPT[] = {"--tlv", "--ber", "--atr", "--dol", "--tag-list", "--9F33", "--iso8859-5", "--sw1sw2", "--8E"}; const char* o = r.pick(OPT); Bytes b = r.bytes(r.range(1, 8)); std::string h = hexinput(r, b); const char* why = "";
	switch (r.below(7)) {
		case 0: h.insert(r.below(h.size() + 1), 1, "gxGZ:,.-+_\x80\xFF"[r.below(12)]); if (h[0] == '-') h = "g" + h; a = {o, h}; why = "not-hex"; break;
		case 1: while (isspace(h.back())) h.pop_back(); if (r.chance(30)) h += ' '; h += "0123456789abcdefABCDEF"[r.below(22)]; if (r.chance(30)) h += r.chance(50) ? " " : "  \n"; a = {o, h}; why = "odd-digits"; break;
		case 2: a = {o, r.chance(50) ? "" : r.chance(30) ? std::string(r.range(1, 5), ' ') : std::string(1, "0a9"[r.below(3)])}; why = "too-short"; break;
		case 3: a = {o}; why = "no-input"; break; case 4: a = {o, "-"}; in = &none; why = "empty-stdin"; break;
		case 5: a = {o, h, r.pick(OPT)}; why = "two-options"; break; case 6: a = {o, h, "--no-such-option"}; why = "unknown-option"; break;
	}
	std::string what = joined(a, in); vh_note("%s", what.c_str()); Ran x = go(a, in); VH_CHECK(x.rc != 0 && !x.err.empty() && x.out.empty(), "invalid-input", "%s (%s): exit status %d, prints '%.200s', reports '%.200s'", what.c_str(), why, x.rc, x.out.c_str(), x.err.c_str()); vh_obs(std::string("invalid:") + why);
}
// Known limits, recorded in known_findings.txt
static void s_limits(Rng&, uint64_t n)
{
	if (vh_on_valgrind()) return;
	if (n == 0) { // value text longer than 2047 characters in TLV output
		init(); Bytes v(8, 0); for (int q = 0; q < 122; ++q) { v.push_back(q & 1 ? 0x42 : 0x1E); v.push_back(3); } Bytes b = enc_tlv(0x8E, v); Exact in(b); std::string g = printed([&] { print_emv_buf(in.p, in.n, "  ", 0, false); }); Out w; w.o = "8E | Cardholder Verification Method (CVM) List : [252]" + spaced(v.data(), v.size()) + "\n" + bullets(ref_value("cvm-list", v).text, 1);
		VH_CHECK(w.o.compare(0, 900, g, 0, 900) == 0, "long-value", "%.300s", shown(g).c_str()); if (g != w.o) { size_t lines = std::count(g.begin(), g.end(), '\n'); vh_fail("long-value-text-cut", "TLV with a CVM list of 122 rules: %zu of %zu lines printed", lines, (size_t)std::count(w.o.begin(), w.o.end(), '\n')); } return;
	}
	// very deep nesting
	Bytes b; for (int q = 0; q < 30000; ++q) { Bytes t = {0xE0, 0x83}; size_t len = (size_t)(30000 - 1 - q) * 5; t.push_back(len >> 16); t.push_back(len >> 8); t.push_back(len); cat(b, t); }
	const char* o = n == 1 ? "--tlv" : "--ber"; Ran x = run({o, "-"}, &b); bool over = x.rc <= -1000; VH_CHECK(over || x.rc == 0, "deep", "exit status %d", x.rc);
	if (over) vh_fail("deep-nesting-stack", "emv-decode %s with 30000 nested fields exhausts the stack", o);
}
std::vector<Suite> vh_suites() { return {{"limits", 3, 0, s_limits}, {"print", 0, 1, s_print}, {"other", 0, 1, s_other}, {"cli", 0, 0.15, s_cli}}; }
std::vector<std::string> vh_required()
{
	std::vector<std::string> v = {"padding", "error-after-fields", "error-at-once", "nested", "dol-inside", "tag-list-inside", "list-inside", "oid-inside", "stdin", "trailing-space", "cli-third-party-full", "large-input", "long-value", "many-elements", "check:field", "check:field-list", "check:capdu", "check:rapdu", "check:buf", "check:app", "check:atr", "check:debug-event", "check:dol", "check:tag-list", "decoded:cli-tlv", "decoded:cli-ber", "decoded:cli-dol", "decoded:cli-tag-list", "decoded:cli-atr", "decoded:cli-sw", "decoded:cli-country", "decoded:cli-currency", "decoded:cli-language", "decoded:cli-iso8859", "refused:cli-atr", "refused:cli-sw", "refused:cli-country", "refused:cli-currency", "refused:cli-language", "invalid:not-hex", "invalid:odd-digits", "invalid:too-short", "invalid:no-input", "invalid:empty-stdin", "invalid:two-options", "invalid:unknown-option"};
	for (auto& m : MODES) { v.push_back(std::string("decoded:cli-") + m.kind); v.push_back(std::string("refused:cli-") + m.kind); } return v;
}
const char* vh_rule() { return "generated EMV and BER messages (nested, indefinite, padded, truncated, mutated), DOLs, tag lists, ATRs, fields, lists, debug events and coded values printed by the real functions, and generated command lines (every option, hex in all spellings, stdin, invalid input) run through emv-decode in a child process; output, errors and status compared with an independent rendering; non-trivial = distinct expected outputs"; }
