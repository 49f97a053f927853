// Expected texts of bit-mapped and coded fields, from harness/data/strings.spec:
// an ordered list of (condition on the bytes, text) per field, written from
// EMV Book 3/4 annexes and the scheme documents the library refers to.
#ifndef REFSPEC_HPP
#define REFSPEC_HPP
#include "vh.hpp"
struct RefSpec {
	struct Term { int i; uint8_t m; bool neg; std::vector<uint8_t> v; };
	struct Line { std::vector<std::vector<Term>> any; std::string text; };
	struct Field { size_t len; std::vector<Line> lines; };
	std::map<std::string, Field> f;
	uint64_t total = 0;
	RefSpec() {
		std::string fn = std::string(vh_datadir()) + "/strings.spec";
		FILE* fp = fopen(fn.c_str(), "r"); if (!fp) abort();
		char buf[2048]; Field* cur = NULL;
		while (fgets(buf, sizeof buf, fp)) {
			std::string l = buf; if (!l.empty() && l.back() == '\n') l.pop_back(); if (l.empty()) continue;
			if (!l.compare(0, 3, "## ")) { size_t s = l.find(' ', 3); cur = &f[l.substr(3, s - 3)]; cur->len = strtoul(l.c_str() + s, 0, 10); continue; }
			size_t t = l.find('\t'); if (t == std::string::npos || !cur) abort();
			Line x; x.text = l.substr(t + 1); std::string c = l.substr(0, t);
			if (c == "*") x.any.push_back({});
			else for (auto& alt : split(c, '|')) {
				std::vector<Term> ts;
				for (auto& s : split(alt, '&')) {
					Term q; size_t sl = s.find('/'); q.i = atoi(s.c_str()); q.m = (uint8_t)strtoul(s.substr(sl + 1, 2).c_str(), 0, 16); q.neg = s[sl + 3] == '!';
					for (auto& h : split(s.substr(sl + 4), ',')) q.v.push_back((uint8_t)strtoul(h.c_str(), 0, 16));
					ts.push_back(q);
				}
				x.any.push_back(ts);
			}
			cur->lines.push_back(x); ++total;
		}
		fclose(fp);
	}
	static std::vector<std::string> split(const std::string& s, char d) { std::vector<std::string> r; size_t p = 0; for (;;) { size_t q = s.find(d, p); r.push_back(s.substr(p, q == std::string::npos ? q : q - p)); if (q == std::string::npos) return r; p = q + 1; } }
	static bool within(const Line& l, size_t n) { for (auto& a : l.any) for (auto& t : a) if ((size_t)t.i >= n) return false; return true; }
	static bool holds(const Line& l, const uint8_t* b) {
		for (auto& alt : l.any) { bool ok = true; for (auto& t : alt) { bool in = false; for (auto v : t.v) if ((b[t.i] & t.m) == v) in = true; if (in == t.neg) { ok = false; break; } } if (ok) return true; }
		return false;
	}
	static std::string expand(const std::string& t, const uint8_t* b) {
		std::string r;
		for (size_t i = 0; i < t.size(); ++i) {
			if (t[i] != '{') { r += t[i]; continue; }
			uint8_t v = b[atoi(t.c_str() + i + 1)]; size_t c = t.find(':', i);
			switch (t[c + 1]) { case 'h': r += vh_fmt("%u", v >> 4); break; case 'l': r += vh_fmt("%u", v & 15); break; case 't': r += vh_fmt("%u", v >> 5); break; case 'd': r += vh_fmt("%u", v); break; case 'D': r += vh_fmt("%02u", v); break; case 'x': r += vh_fmt("%02X", v); break; default: abort(); }
			i = t.find('}', i);
		}
		return r;
	}
	std::vector<std::string> eval(const std::string& name, const uint8_t* b, size_t n = 99) const {
		auto it = f.find(name); if (it == f.end()) abort();
		std::vector<std::string> r; for (auto& l : it->second.lines) if (within(l, n) && holds(l, b)) { r.push_back(expand(l.text, b)); vh_obs("line:" + name); }
		return r;
	}
	size_t len(const std::string& name) const { return f.at(name).len; }
};
static inline const RefSpec& refspec() { static RefSpec s; return s; }
#endif
