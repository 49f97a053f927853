// Common runtime of all monitors in /verif/harness.
//
// A harness declares suites. A suite is either "fixed" (count cases, all of
// them are executed: an enumeration) or random (weight * scale cases, each one
// derived from (seed, suite, index) only, so any case can be replayed alone).
// Every case runs the real emv-utils code; VH_CHECK is the oracle's verdict on
// what was observed. Crashes, sanitizer reports and hangs are seen by the
// driver (lib/driver.py) through the "current case" page.
#ifndef VH_HPP
#define VH_HPP
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <string>
#include <exception>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <unordered_map>
#include <functional>
#include <algorithm>
#include <memory>

typedef std::vector<uint8_t> Bytes;

// A tape of draws. In the guided stage every draw of the case's generator is
// recorded, and a changed copy of the tape makes the next case.
struct Tape {
	struct Draw { uint64_t v; uint32_t n; uint16_t kind; int32_t off; }; // kind: 0 raw, 1 byte, 2 below(n)
	std::vector<uint64_t> in;
	std::vector<Draw> out;
	uint64_t total = 0;
	uint64_t draw(uint64_t fallback) {
		size_t k = out.size(); ++total;
		if (k >= 6000) return fallback;
		uint64_t v = k < in.size() ? in[k] : fallback;
		out.push_back({v, 0, 0, 0});
		return v;
	}
	void mark(unsigned kind, uint64_t n) { if (!out.empty() && out.size() < 6000) { out.back().kind = kind; out.back().n = n > 0xFFFFFFFFu ? 0 : (uint32_t)n; } }
	void base(int64_t a) { if (!out.empty() && out.size() < 6000) out.back().off = (int32_t)a; }
};

struct Rng {
	uint64_t s[2];
	Tape* tape = nullptr;
	static uint64_t mix(uint64_t& x) {
		uint64_t z = (x += 0x9E3779B97F4A7C15ull);
		z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
		z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
		return z ^ (z >> 31);
	}
	explicit Rng(uint64_t seed) { s[0] = mix(seed); s[1] = mix(seed); }
	uint64_t next() { uint64_t r = raw(); return tape ? tape->draw(r) : r; }
	uint64_t raw() {
		uint64_t a = s[0], b = s[1];
		uint64_t r = a + b;
		b ^= a;
		s[0] = ((a << 24) | (a >> 40)) ^ b ^ (b << 16);
		s[1] = (b << 37) | (b >> 27);
		return r;
	}
	uint64_t below(uint64_t n) { if (!n) return 0; uint64_t v = next() % n; if (tape) tape->mark(2, n); return v; }
	// inclusive range
	int64_t range(int64_t a, int64_t b) { uint64_t v = below((uint64_t)(b - a + 1)); if (tape && b - a != -1) tape->base(a); return a + (int64_t)v; }
	bool chance(unsigned pct) { return below(100) < pct; }
	uint8_t u8() { uint8_t v = (uint8_t)(next() >> 20); if (tape) tape->mark(1, 0); return v; }
	uint32_t u32() { return (uint32_t)(next() >> 20); }
	Bytes bytes(size_t n) { Bytes v(n); for (auto& x : v) x = u8(); return v; }
	// biased byte: favours boundary values
	uint8_t b8() {
		static const uint8_t k[] = {0x00,0x01,0x02,0x7E,0x7F,0x80,0x81,0x82,0xFE,0xFF,0x1F,0x20,0x3F,0x40,0x9F,0x5F,0xBF,0xDF};
		return chance(40) ? k[below(sizeof(k))] : u8();
	}
	Bytes bbytes(size_t n) { Bytes v(n); for (auto& x : v) x = b8(); return v; }
	template <class T> T pick(const std::vector<T>& v) { return v[below(v.size())]; }
	template <class T, size_t N> T pick(const T (&v)[N]) { return v[below(N)]; }
	template <class T> void shuffle(std::vector<T>& v) { for (size_t i = v.size(); i > 1; --i) std::swap(v[i-1], v[below(i)]); }
};

struct VhAbort {};

struct Suite {
	const char* name;
	uint64_t count;   // >0: fixed enumeration of that many cases
	double weight;    // random: cases = weight * scale
	void (*fn)(Rng&, uint64_t idx);
};

// Provided by each harness
extern std::vector<Suite> vh_suites();
extern std::vector<std::string> vh_required();  // event names that must have been observed
extern const char* vh_rule();                   // how cases are made, what is non-trivial

// Services
void vh_obs(const char* event, uint64_t n = 1);         // count an observed event (string literal)
void vh_obs(const std::string& event, uint64_t n = 1);  // same, any text
void vh_distinct(uint64_t h);                           // register a distinct non-trivial case signature
void vh_sample(const std::string& s);                   // keep a few samples
void vh_fail(const char* rule, const char* fmt, ...) __attribute__((format(printf, 2, 3)));  // records and throws
void vh_note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));  // text attached to the current case (kept for replay)
bool vh_on_valgrind();
bool vh_verbose();
// 0 if all bytes defined (always 0 when not under valgrind)
size_t vh_undefined(const void* p, size_t n);
std::string vh_hex(const void* p, size_t n);
inline std::string vh_hex(const Bytes& b) { return vh_hex(b.data(), b.size()); }
std::string vh_fmt(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
uint64_t vh_hash(const void* p, size_t n, uint64_t h = 1469598103934665603ull);
inline uint64_t vh_hash(const Bytes& b, uint64_t h = 1469598103934665603ull) { return vh_hash(b.data(), b.size(), h); }
inline uint64_t vh_hash(const std::string& b, uint64_t h = 1469598103934665603ull) { return vh_hash(b.data(), b.size(), h); }
const char* vh_datadir();    // /verif/harness/data
const char* vh_repodir();    // /repo
const char* vh_scratch();    // scratch directory of this run
uint64_t vh_seed();
const char* vh_prefix();       // only suites with this name prefix run (one harness, several properties)
double vh_scale();

// Thread jobs (h_threads.cpp): in a worker thread the services above record
// nothing in shared state; a failed check ends the job and is reported by the
// thread that joins. vh_step marks a scheduling point: it takes a ticket
// (relaxed, so it orders nothing between threads) and may yield or sleep.
extern thread_local struct VhWorker* vh_worker;
struct VhWorker {
	unsigned id = 0; uint64_t rng = 1; unsigned yield_pct = 0; uint64_t checks = 0; bool failed = false; std::string rule, msg, note;
	std::vector<uint32_t> tickets;
};
void vh_step_slow();
inline void vh_step() { if (vh_worker) vh_step_slow(); }
uint32_t vh_tickets();      // taken so far; the next run of threads starts at 0
void vh_tickets_reset();

#define VH_CHECK(cond, rule, ...) do { vh_obs("check:" rule); if (!(cond)) vh_fail(rule, __VA_ARGS__); } while (0)
// Run fn in a forked child: for code that keeps state in the process. What the
// child observed and the verdict of its checks come back; a child that dies
// takes this process with it (the driver then sees the crash).
void vh_fork(const std::function<void()>& fn);
// Observed memory must be initialised (decided under valgrind memcheck only)
#define VH_DEFINED(p, n, rule) do { if (vh_on_valgrind()) { vh_obs("defined:" rule); size_t o_ = vh_undefined((p), (n)); \
	if (o_) vh_fail("uninit:" rule, "byte %zu of %zu observed is uninitialised", o_ - 1, (size_t)(n)); } } while (0)

// Exact-size heap copy of an input so that AddressSanitizer sees any access
// outside of it. A zero-length buffer is still a valid unique pointer.
struct Exact {
	uint8_t* p; size_t n; uint8_t* keep = NULL;  // what an input was, to see that it is not changed
	explicit Exact(const Bytes& b) : p((uint8_t*)malloc_raw(b.size())), n(b.size()) { if (n) { memcpy(p, b.data(), n); keep = (uint8_t*)malloc_raw(n); memcpy(keep, b.data(), n); } }
	explicit Exact(size_t n_, int fill = 0xA5) : p((uint8_t*)malloc_raw(n_)), n(n_) { if (n) memset(p, fill, n); }
	void own() { bool same = !keep || !memcmp(keep, p, n); free_raw(keep); keep = NULL; if (!same) vh_fail("input-modified", "an input of %zu bytes was changed", n); }  // the harness changes it from here on
	~Exact() noexcept(false)
	{
		bool same = !keep || !memcmp(keep, p, n); free_raw(p); free_raw(keep);
		if (!same && !std::uncaught_exceptions()) vh_fail("input-modified", "an input of %zu bytes was changed", n);
	}
	Exact(const Exact&) = delete;
	Exact& operator=(const Exact&) = delete;
	static void* malloc_raw(size_t n);
	static void free_raw(void* p);
};

// Allocation monitor: every malloc/calloc/realloc/strdup/free made by the code
// under test (linked with --wrap). Live set is checked at the end of each case.
void vh_alloc_reset();                 // forget live set, no fault
uint64_t vh_alloc_count();             // allocations requested since reset
uint64_t vh_alloc_live();              // live allocations since reset
void vh_alloc_fail_at(int64_t n);      // fail the n-th (0-based) allocation from now; -1 never
bool vh_alloc_failed();                // the injected failure was delivered
void vh_alloc_expect_none(const char* rule);   // VH_CHECK(live==0)
#endif
