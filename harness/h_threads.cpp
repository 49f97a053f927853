// C25: independent contexts used concurrently. The workloads (and oracles) of
// the other harnesses become jobs of threads that start together; one process
// per case, in which the threads make the first library calls after the global
// configuration. Data races are seen by ThreadSanitizer, interference by the
// oracles of the jobs and by comparing the debug events that each thread
// produced with the events of the same jobs executed alone.
#include "vh.hpp"
#include <deque>
#include <thread>
#include <atomic>
#include <iconv.h>
#include <time.h>
#include <locale.h>
#include <json-c/json.h>
#include "strfns.hpp"
#include "ref_ber.hpp"
#include "ref_aid.hpp"
#include "ref_annot.hpp"
#include "ref_atr.hpp"
#include "ref_iso7816.hpp"
#include "ref_strings.hpp"
#include "ref_term.hpp"
#include "refspec.hpp"
#include "refdata.hpp"
extern "C" {
#include "iso8825_ber.h"
#include "iso7816.h"
#include "iso7816_compact_tlv.h"
#include "iso7816_strings.h"
#include "iso8859.h"
#include "emv.h"
#include "emv_app.h"
#include "emv_dol.h"
#include "emv_fields.h"
#include "emv_strings.h"
#include "emv_tags.h"
#include "emv_tal.h"
#include "emv_tlv.h"
#include "emv_ttl.h"
}
#include "kernel.hpp"
extern "C" unsigned shim_debug_setup(void (*f)(unsigned, int, int, int, const char*, const void*, size_t));

namespace j_ber {
#include "h_ber.cpp"
}
namespace j_tlv {
#include "h_tlv.cpp"
}
namespace j_dol {
#include "h_dol.cpp"
}
namespace j_ttl {
#include "h_ttl.cpp"
}
namespace j_kernel {
#include "h_kernel.cpp"
}
namespace j_atr {
#include "h_atr.cpp"
}
namespace j_fields {
#include "h_fields.cpp"
}
namespace j_conv {
#include "h_conv.cpp"
}
namespace j_8859 {
#include "h_iso8859.cpp"
}
namespace j_str {
#include "h_strings.cpp"
}
namespace j_annot {
#include "h_annot.cpp"
}
namespace j_iso {
#include "h_isotext.cpp"
}

// libc functions whose result depends on state shared by all threads (linked
// with --wrap): a job that makes the library call one gets an answer that
// other threads can change
static void hidden(const char* f) { if (vh_worker) vh_fail("hidden-state", "the library calls %s(), which keeps state shared by all threads", f); }
#define HIDE(ret, name, decl, call) extern "C" { ret __real_##name decl; ret __wrap_##name decl { hidden(#name); return __real_##name call; } }
HIDE(char*, strtok, (char* a, const char* b), (a, b))
HIDE(struct tm*, localtime, (const time_t* t), (t))
HIDE(struct tm*, gmtime, (const time_t* t), (t))
HIDE(char*, ctime, (const time_t* t), (t))
HIDE(char*, asctime, (const struct tm* t), (t))
HIDE(int, rand, (void), ())
HIDE(long, random, (void), ())
HIDE(void, srand, (unsigned s), (s))
HIDE(char*, setlocale, (int c, const char* l), (c, l))

struct Job { std::string name; Suite s; unsigned weight; };
static std::vector<Job> jobs;
static void add(const char* lib, const std::vector<Suite>& v, unsigned weight, std::vector<std::string> skip = {})
{
	for (auto& s : v) {
		bool out = false; for (auto& k : skip) if (std::string(s.name).compare(0, k.size(), k) == 0) out = true;
		if (!out) jobs.push_back({std::string(lib) + ":" + s.name, s, weight});
	}
}
// Everything a thread may share read-only is built here, before any thread
static void setup()
{
	static bool done; if (done) return; done = true;
	add("ber", j_ber::vh_suites(), 1); add("tlv", j_tlv::vh_suites(), 3); add("dol", j_dol::vh_suites(), 2); add("ttl", j_ttl::vh_suites(), 2);
	add("kernel", j_kernel::vh_suites(), 6, {"oom-", "cand-long", "cand-prio", "hostile-args"}); add("atr", j_atr::vh_suites(), 2); add("fields", j_fields::vh_suites(), 2);
	add("conv", j_conv::vh_suites(), 2); add("iso8859", j_8859::vh_suites(), 3); add("strings", j_str::vh_suites(), 3, {"buf-"}); add("annot", j_annot::vh_suites(), 6); add("isotext", j_iso::vh_suites(), 2);
	j_str::init(); j_annot::init(); ref_tags(); vh_on_valgrind(); refdata(); refspec(); for (unsigned cp = 1; cp <= 16; ++cp) if (cp != 12) ref_8859(cp, {});
	(void)j_annot::vh_required(); (void)j_str::vh_required(); (void)j_iso::vh_required();
}
static Job& draw(Rng& r) { unsigned t = 0; for (auto& j : jobs) t += j.weight; unsigned k = r.below(t); for (auto& j : jobs) { if (k < j.weight) return j; k -= j.weight; } abort(); }

struct Work { Job* j; uint64_t seed, idx; };
struct Thr { std::vector<Work> w; VhWorker vw; std::vector<std::string> ev; size_t done = 0; };
static thread_local std::vector<std::string>* events;
static void on_event(unsigned, int source, int level, int type, const char* str, const void* buf, size_t n)
{
	vh_step();
	if (!events || events->size() >= 3000) return;
	// structures (ATR) and addresses are not comparable, the bytes of messages are
	std::string m; for (const char* p = str; *p; ++p) { m += *p; if (p[0] == '0' && p[1] == 'x') { size_t k = 2; while (isxdigit((unsigned char)p[k])) ++k; if (k > 8) { m += "xADDR"; p += k - 1; } } }
	events->push_back(vh_fmt("%d/%d/%d ", source, level, type) + m + (type == 1 || !buf ? std::string() : type == 4 ? vh_fmt("%zu", n) : vh_hex(buf, std::min(n, (size_t)300))));
}
static void execute(Thr& t)
{
	events = &t.ev; t.ev.clear();
	for (auto& w : t.w) {
		Rng r(w.seed);
		try { w.j->s.fn(r, w.idx); } catch (VhAbort&) { }
		if (vh_worker->failed) { vh_worker->msg = w.j->name + vh_fmt(" %lu/%lu: ", (unsigned long)w.idx, (unsigned long)w.seed) + vh_worker->msg; break; }
		++t.done;
	}
	events = nullptr;
}
static void round_(Rng& r)
{
	unsigned n = r.pick({2, 2, 3, 4}); bool same = r.chance(35), debug = r.chance(40); unsigned jn = r.range(1, 5);
	std::vector<Thr> ts(n); std::string story;
	std::vector<Work> common;
	auto mk = [&] { std::vector<Work> w; for (unsigned k = 0; k < jn; ++k) { Job& j = draw(r); w.push_back({&j, r.next(), j.s.count ? r.below(j.s.count) : r.below(1u << 30)}); } return w; };
	if (same) common = mk();
	unsigned yp = r.pick({0, 5, 30, 80});
	for (unsigned k = 0; k < n; ++k) { ts[k].w = same ? common : mk(); ts[k].vw.id = k; ts[k].vw.rng = r.next() | 1; ts[k].vw.yield_pct = yp; if (same && r.chance(30)) r.shuffle(ts[k].w); for (auto& w : ts[k].w) { story += w.j->name + " "; vh_obs("job:" + w.j->name); } story += "| "; }
	vh_note("%s", story.c_str());
	if (debug) { unsigned e = shim_debug_setup(on_event); VH_CHECK(!e, "debug-setup", "emv_debug_init fails"); }
	std::atomic<unsigned> ready{0};
	std::vector<std::thread> th;
	vh_tickets_reset();
	for (auto& t : ts) th.emplace_back([&t, &ready, n] { vh_worker = &t.vw; ready.fetch_add(1, std::memory_order_relaxed); while (ready.load(std::memory_order_relaxed) < n) sched_yield(); execute(t); vh_worker = nullptr; });
	for (auto& t : th) t.join();
	uint64_t checks = 0; size_t done = 0; std::vector<std::pair<uint32_t, unsigned>> order;
	for (auto& t : ts) {
		if (t.vw.failed) vh_fail("interference", "%u threads%s%s, thread %u: rule %s: %s", n, same ? ", same work" : "", debug ? ", debug" : "", t.vw.id, t.vw.rule.c_str(), t.vw.msg.c_str());
		checks += t.vw.checks; done += t.done; for (auto k : t.vw.tickets) order.push_back({k, t.vw.id});
	}
	std::sort(order.begin(), order.end());
	size_t sw = 0; uint64_t h = 7; for (size_t k = 0; k < order.size(); ++k) { if (k && order[k].second != order[k-1].second) { ++sw; } h = vh_hash(&order[k].second, 4, h); }
	vh_obs("threads", n); vh_obs("jobs-done", done); vh_obs("checks-in-threads", checks); vh_obs("scheduling-points", order.size()); vh_obs("context-switches-observed", sw); if (same) vh_obs("same-work");
	if (sw >= n) { vh_distinct(h); vh_obs("interleaved"); }
	vh_sample(vh_fmt("%u threads, %zu switches at %zu points: ", n, sw, order.size()) + story);
	if (debug) {
		// what each thread would get alone
		for (auto& t : ts) {
			Thr a; a.w = t.w; a.vw.yield_pct = 0; a.vw.rng = 1; vh_worker = &a.vw; execute(a); vh_worker = nullptr;
			vh_obs("debug-events-compared", a.ev.size()); if (a.vw.failed) vh_fail("alone", "alone: rule %s: %s", a.vw.rule.c_str(), a.vw.msg.c_str());
			size_t k = 0; while (k < a.ev.size() && k < t.ev.size() && a.ev[k] == t.ev[k]) ++k;
			VH_CHECK(k == a.ev.size() && k == t.ev.size(), "events", "thread %u of %u: event %zu is '%.200s', alone it is '%.200s' (%s)", t.vw.id, n, k, k < t.ev.size() ? t.ev[k].c_str() : "(none)", k < a.ev.size() ? a.ev[k].c_str() : "(none)", story.c_str());
		}
		vh_obs("debug-round");
	}
}
static void s_round(Rng& r, uint64_t) { setup(); vh_fork([&] { round_(r); }); }

std::vector<Suite> vh_suites() { return {{"rounds", 0, 1, s_round}}; }
std::vector<std::string> vh_required()
{
	setup();
	std::vector<std::string> v = {"threads", "checks-in-threads", "context-switches-observed", "interleaved", "same-work", "debug-round", "debug-events-compared"};
	for (auto j : {"kernel:sel-random", "kernel:init-random", "kernel:read-random", "kernel:hist-random", "annot:values", "iso8859:random", "ttl:apdu-exchange"}) v.push_back(std::string("job:") + j);
	return v;
}
const char* vh_rule() { return "one case = one process in which 2-4 threads start together and execute 1-5 jobs each (cases of the other harnesses with their oracles, the same or different ones), with random yields and delays at every transmission and at checks, under ThreadSanitizer and AddressSanitizer; non-trivial = distinct observed order of the threads' scheduling points with at least as many switches as threads"; }
