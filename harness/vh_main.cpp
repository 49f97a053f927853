#include "vh.hpp"
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/stat.h>
#include <signal.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/wait.h>
#include <sched.h>
#include <atomic>
#include <valgrind/memcheck.h>

#if defined(__SANITIZE_THREAD__) || (defined(__has_feature) && __has_feature(thread_sanitizer))
#define VH_TSAN 1
#endif

struct Cur { char suite[48]; uint64_t idx; uint64_t hang; char note[4096]; uint64_t note_len; uint64_t tape_seed, tape_idx, tape_on, tape_n; uint64_t tape[6000]; };
static Cur cur_static;
static Cur* cur = &cur_static;

static std::map<std::string, uint64_t>& counters() { static std::map<std::string, uint64_t> m; return m; }
static std::unordered_map<const char*, uint64_t> fast_counters;
static std::unordered_set<uint64_t> distinct;
static std::vector<std::string> samples;
struct Viol { std::string rule, suite, msg; uint64_t idx; std::string tape; };
static std::string tape_text();
static std::vector<Viol> viols;
static std::string s_data, s_repo, s_scratch;
static uint64_t s_seed = 1;
static double s_scale = 1;
static bool s_verbose = false;
static std::string s_prefix;
const char* vh_prefix() { return s_prefix.c_str(); }

thread_local VhWorker* vh_worker = nullptr;
static std::atomic<uint32_t> s_ticket{0};
uint32_t vh_tickets() { return s_ticket.load(std::memory_order_relaxed); }
void vh_tickets_reset() { s_ticket.store(0, std::memory_order_relaxed); }
void vh_step_slow()
{
	VhWorker* w = vh_worker;
	uint32_t t = s_ticket.fetch_add(1, std::memory_order_relaxed);
	if (w->tickets.size() < 4000) w->tickets.push_back(t);
	w->rng = w->rng * 6364136223846793005ull + 1442695040888963407ull;
	unsigned k = (unsigned)(w->rng >> 40) % 100;
	if (k >= w->yield_pct) return;
	if (k % 4) sched_yield(); else usleep(1 + (unsigned)(w->rng >> 50) % 60);
}
void vh_obs(const char* e, uint64_t n) { if (vh_worker) { vh_worker->checks++; if (vh_worker->checks % 4 == 0) vh_step_slow(); return; } fast_counters[e] += n; }
void vh_obs(const std::string& e, uint64_t n) { if (vh_worker) return; counters()[e] += n; }
void vh_distinct(uint64_t h) { if (!vh_worker && distinct.size() < 4000000) distinct.insert(h); }
void vh_sample(const std::string& s) { if (!vh_worker && samples.size() < 6) samples.push_back(s.substr(0, 400)); }
bool vh_verbose() { return s_verbose; }
const char* vh_datadir() { return s_data.c_str(); }
const char* vh_repodir() { return s_repo.c_str(); }
const char* vh_scratch() { return s_scratch.c_str(); }
uint64_t vh_seed() { return s_seed; }
double vh_scale() { return s_scale; }

std::string vh_fmt(const char* fmt, ...)
{
	va_list ap; va_start(ap, fmt);
	char* p = nullptr;
	int r = vasprintf(&p, fmt, ap);
	va_end(ap);
	std::string s = r >= 0 ? std::string(p, r) : "";
	if (r >= 0) Exact::free_raw(p);
	return s;
}
void vh_note(const char* fmt, ...)
{
	if (vh_worker) return;
	va_list ap; va_start(ap, fmt);
	size_t left = sizeof(cur->note) - cur->note_len;
	if (left > 1) {
		int r = vsnprintf(cur->note + cur->note_len, left, fmt, ap);
		if (r > 0) cur->note_len += (size_t)r < left ? r : left - 1;
	}
	va_end(ap);
}
static int lowest_fd() { int f = dup(2); if (f >= 0) close(f); return f; }
void vh_fail(const char* rule, const char* fmt, ...)
{
	va_list ap; va_start(ap, fmt);
	char buf[4000];
	vsnprintf(buf, sizeof(buf), fmt, ap);
	va_end(ap);
	if (vh_worker) { vh_worker->failed = true; vh_worker->rule = rule; vh_worker->msg = buf; throw VhAbort(); }
	viols.push_back({rule, cur->suite, buf, cur->idx, tape_text()});
	if (s_verbose) fprintf(stderr, "FAIL rule=%s suite=%s case=%lu: %s\n", rule, cur->suite, (unsigned long)cur->idx, buf);
	throw VhAbort();
}
std::string vh_hex(const void* p, size_t n)
{
	static const char* d = "0123456789ABCDEF";
	std::string s; const uint8_t* b = (const uint8_t*)p;
	for (size_t i = 0; i < n; ++i) { s += d[b[i] >> 4]; s += d[b[i] & 15]; }
	return s;
}
uint64_t vh_hash(const void* p, size_t n, uint64_t h)
{
	const uint8_t* b = (const uint8_t*)p;
	for (size_t i = 0; i < n; ++i) { h ^= b[i]; h *= 1099511628211ull; }
	h ^= n; h *= 1099511628211ull;
	return h;
}
bool vh_on_valgrind() { static int v = -1; if (v < 0) v = RUNNING_ON_VALGRIND; return v > 0; }
size_t vh_undefined(const void* p, size_t n)
{
	if (!n || !vh_on_valgrind()) return 0;
	unsigned long a = VALGRIND_CHECK_MEM_IS_DEFINED(p, n);
	return a ? (size_t)(a - (unsigned long)p) + 1 : 0;
}

// ---- allocation monitor (--wrap) ----
static __thread bool in_monitor = false;
static bool alloc_on = true;
static std::unordered_map<void*, size_t>* live_set;
static uint64_t alloc_n = 0;
static int64_t fail_at = -1;
static bool failed = false;
extern "C" {
void* __real_malloc(size_t); void __real_free(void*); void* __real_calloc(size_t, size_t); void* __real_realloc(void*, size_t);
char* __real_strdup(const char*);
#ifdef VH_TSAN
void* __wrap_malloc(size_t n) { return __real_malloc(n); }
void __wrap_free(void* p) { __real_free(p); }
void* __wrap_calloc(size_t a, size_t b) { return __real_calloc(a, b); }
void* __wrap_realloc(void* p, size_t n) { return __real_realloc(p, n); }
char* __wrap_strdup(const char* s) { return __real_strdup(s); }
#else
static bool alloc_inject()
{
	if (vh_worker || in_monitor || !alloc_on) return false;
	uint64_t k = alloc_n++;
	if (fail_at >= 0 && (int64_t)k == fail_at) { failed = true; return true; }
	return false;
}
static void alloc_add(void* p, size_t n)
{
	if (vh_worker || !p || in_monitor || !alloc_on) return;
	in_monitor = true;
	if (!live_set) live_set = new std::unordered_map<void*, size_t>();
	(*live_set)[p] = n;
	in_monitor = false;
}
static void alloc_del(void* p)
{
	if (vh_worker || !p || in_monitor || !live_set) return;
	in_monitor = true;
	live_set->erase(p);
	in_monitor = false;
}
void* __wrap_malloc(size_t n) { if (alloc_inject()) return NULL; void* p = __real_malloc(n); alloc_add(p, n); return p; }
void __wrap_free(void* p) { alloc_del(p); __real_free(p); }
void* __wrap_calloc(size_t a, size_t b) { if (alloc_inject()) return NULL; void* p = __real_calloc(a, b); alloc_add(p, a * b); return p; }
void* __wrap_realloc(void* q, size_t n) { if (alloc_inject()) return NULL; alloc_del(q); void* p = __real_realloc(q, n); alloc_add(p, n); return p; }
char* __wrap_strdup(const char* s) { if (alloc_inject()) return NULL; char* p = __real_strdup(s); alloc_add(p, 1); return p; }
#endif
}
void* Exact::malloc_raw(size_t n) { return __real_malloc(n); }
void Exact::free_raw(void* p) { __real_free(p); }
void vh_alloc_reset() { if (vh_worker) return; if (live_set) live_set->clear(); alloc_n = 0; fail_at = -1; failed = false; }
uint64_t vh_alloc_count() { return vh_worker ? 0 : alloc_n; }
uint64_t vh_alloc_live() { return vh_worker ? 0 : live_set ? live_set->size() : 0; }
void vh_alloc_fail_at(int64_t n) { if (vh_worker) return; fail_at = n < 0 ? -1 : (int64_t)alloc_n + n; failed = false; }
bool vh_alloc_failed() { return failed; }
void vh_alloc_expect_none(const char* rule)
{
	vh_obs("check:leak-free");
	if (vh_alloc_live()) {
		size_t tot = 0; for (auto& x : *live_set) tot += x.second;
		size_t n = live_set->size();
		live_set->clear();
		vh_fail(rule, "%zu allocation(s), %zu bytes, still live after everything was released", n, tot);
	}
}

// ---- hang monitor: CPU time of one case ----
static void on_vtalrm(int) { cur->hang = 1; _exit(97); }
static void arm(int secs)
{
	struct itimerval it; memset(&it, 0, sizeof it);
	it.it_value.tv_sec = secs;
	setitimer(ITIMER_PROF, &it, NULL);
}

static int s_cpu = 60;
void vh_fork(const std::function<void()>& fn)
{
	int fd[2]; if (pipe(fd)) abort();
	fflush(NULL);
	pid_t pid = fork(); if (pid < 0) abort();
	if (!pid) {
		close(fd[0]); counters().clear(); fast_counters.clear(); distinct.clear(); samples.clear(); viols.clear();
		arm(s_cpu);
		try { fn(); } catch (VhAbort&) { }
		arm(0); alloc_on = false;
		for (auto& f : fast_counters) counters()[f.first] += f.second;
		std::string o;
		auto put = [&](char t, const std::string& a, uint64_t n) { uint64_t l = a.size(); o += t; o.append((char*)&l, 8); o.append((char*)&n, 8); o += a; };
		for (auto& c : counters()) put('E', c.first, c.second);
		for (auto h : distinct) put('D', "", h);
		for (auto& x : samples) put('S', x, 0);
		for (auto& v : viols) { put('R', v.rule, 0); put('M', v.msg, 0); }
		for (size_t k = 0; k < o.size(); ) { ssize_t w = write(fd[1], o.data() + k, o.size() - k); if (w <= 0) break; k += w; }
		_exit(0);
	}
	close(fd[1]); std::string o; char b[65536]; ssize_t n;
	while ((n = read(fd[0], b, sizeof b)) > 0) o.append(b, n);
	close(fd[0]); int st = 0; while (waitpid(pid, &st, 0) < 0) ;
	if (WIFSIGNALED(st)) { signal(WTERMSIG(st), SIG_DFL); raise(WTERMSIG(st)); _exit(66); }
	if (WEXITSTATUS(st)) _exit(WEXITSTATUS(st));
	std::string rule;
	for (size_t k = 0; k + 17 <= o.size(); ) {
		char t = o[k]; uint64_t l, v; memcpy(&l, &o[k + 1], 8); memcpy(&v, &o[k + 9], 8); std::string a = o.substr(k + 17, l); k += 17 + l;
		if (t == 'E') counters()[a] += v; else if (t == 'D') vh_distinct(v); else if (t == 'S') vh_sample(a); else if (t == 'R') rule = a;
		else { viols.push_back({rule, cur->suite, a, cur->idx, tape_text()}); throw VhAbort(); }
	}
}

static std::string jstr(const std::string& s)
{
	std::string o = "\"";
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') { o += '\\'; o += c; }
		else if (c < 0x20 || c >= 0x7F) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
		else o += c;
	}
	return o + "\"";
}

#include "vh_guided.hpp"

int main(int argc, char** argv)
{
	std::string stats, only_suite, curfile, skipfile, tapefile;
	double guided = 0;
	int64_t only_case = -1;
	uint64_t workers = 1, worker = 0, maxviol = 8;
	double scale = 1;
	int cpu = 60;
	uint64_t fixed_max = 0;
	for (int i = 1; i < argc; ++i) {
		std::string a = argv[i];
		auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
		if (a == "--seed") s_seed = strtoull(val().c_str(), 0, 10);
		else if (a == "--workers") workers = strtoull(val().c_str(), 0, 10);
		else if (a == "--worker") worker = strtoull(val().c_str(), 0, 10);
		else if (a == "--scale") scale = atof(val().c_str());
		else if (a == "--stats") stats = val();
		else if (a == "--cur") curfile = val();
		else if (a == "--skip") skipfile = val();
		else if (a == "--suite") only_suite = val();
		else if (a == "--case") only_case = atoll(val().c_str());
		else if (a == "--data") s_data = val();
		else if (a == "--repo") s_repo = val();
		else if (a == "--scratch") s_scratch = val();
		else if (a == "--prefix") s_prefix = val();
		else if (a == "--fixed-max") fixed_max = strtoull(val().c_str(), 0, 10);
		else if (a == "--cpu") cpu = s_cpu = atoi(val().c_str());
		else if (a == "--guided") guided = atof(val().c_str());
		else if (a == "--tape") tapefile = val();
		else if (a == "--verbose") s_verbose = true;
		else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
	}
	s_scale = scale;
	if (!curfile.empty()) {
		int fd = open(curfile.c_str(), O_RDWR | O_CREAT, 0600);
		if (fd >= 0 && ftruncate(fd, sizeof(Cur)) == 0) {
			void* p = mmap(NULL, sizeof(Cur), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
			if (p != MAP_FAILED) cur = (Cur*)p;
		}
		if (fd >= 0) close(fd);
	}
	std::set<std::pair<std::string, uint64_t>> skip;
	if (!skipfile.empty()) {
		FILE* f = fopen(skipfile.c_str(), "r");
		char sn[64]; unsigned long ix;
		if (f) { while (fscanf(f, "%63s %lu", sn, &ix) == 2) skip.insert({sn, ix}); fclose(f); }
	}
	signal(SIGPROF, on_vtalrm);
	uint64_t evals = 0;
	std::map<std::string, uint64_t> per_suite;
	for (auto& su : vh_suites()) {
		if (!only_suite.empty() && only_suite != su.name) continue;
		if (strncmp(su.name, s_prefix.c_str(), s_prefix.size())) continue;
		uint64_t n = su.count ? su.count : (uint64_t)(su.weight * scale + 0.5);
		// under valgrind a fixed enumeration is sampled with the scale
		uint64_t stride = 1;
		if (su.count && fixed_max && only_case < 0) stride = 1 + su.count / fixed_max;
		for (uint64_t k = worker; ; k += workers) {
			uint64_t i = k * stride;
			if (only_case >= 0) { if (k != worker) break; i = only_case; }
			else if (i >= n) break;
			if (skip.count({su.name, i})) continue;
			snprintf(cur->suite, sizeof(cur->suite), "%s", su.name);
			cur->idx = i; cur->note_len = 0; cur->note[0] = 0;
			uint64_t h = vh_hash(su.name, strlen(su.name)) ^ (s_seed * 0x9E3779B97F4A7C15ull) ^ (i * 0xD1B54A32D192ED03ull);
			if (tapefile.empty()) { Rng r(h); run_case(su, r, i, cpu); } else replay_tape(tapefile, su, cpu);
			++evals; ++per_suite[su.name];
			if (viols.size() >= maxviol) break;
		}
		if (viols.size() >= maxviol) break;
		if (guided > 0 && !su.count && only_case < 0) {
			uint64_t g = (uint64_t)(su.weight * guided / workers + 0.999);
			evals += g = guide(su, g, worker, cpu, skip, maxviol);
			per_suite[std::string(su.name) + " (guided)"] += g;
			if (viols.size() >= maxviol) break;
		}
	}
	arm(0);
	for (auto& f : fast_counters) counters()[f.first] += f.second;
	alloc_on = false;
	if (!stats.empty()) {
		FILE* f = fopen(stats.c_str(), "w");
		if (!f) return 2;
		fprintf(f, "{\"evaluations\":%lu,\"distinct\":%zu,\"rule\":%s,\"suites\":{", (unsigned long)evals, distinct.size(), jstr(vh_rule()).c_str());
		bool first = true;
		for (auto& s : per_suite) { fprintf(f, "%s%s:%lu", first ? "" : ",", jstr(s.first).c_str(), (unsigned long)s.second); first = false; }
		fprintf(f, "},\"events\":{");
		first = true;
		for (auto& s : counters()) { fprintf(f, "%s%s:%lu", first ? "" : ",", jstr(s.first).c_str(), (unsigned long)s.second); first = false; }
		fprintf(f, "},\"required\":[");
		first = true;
		for (auto& s : vh_required()) { fprintf(f, "%s%s", first ? "" : ",", jstr(s).c_str()); first = false; }
		fprintf(f, "],\"samples\":[");
		first = true;
		for (auto& s : samples) { fprintf(f, "%s%s", first ? "" : ",", jstr(s).c_str()); first = false; }
		fprintf(f, "],\"violations\":[");
		first = true;
		for (auto& v : viols) {
			fprintf(f, "%s{\"rule\":%s,\"suite\":%s,\"case\":%lu,\"msg\":%s,\"tape\":\"%s\"}", first ? "" : ",", jstr(v.rule).c_str(), jstr(v.suite).c_str(), (unsigned long)v.idx, jstr(v.msg).c_str(), v.tape.c_str());
			first = false;
		}
		fprintf(f, "],\"hashes\":[");
		first = true;
		size_t k = 0;
		for (auto h : distinct) { if (k++ >= 300000) break; fprintf(f, "%s%lu", first ? "" : ",", (unsigned long)(h >> 12)); first = false; }
		fprintf(f, "]}\n");
		fclose(f);
	}
	return viols.empty() ? 0 : 3;
}
