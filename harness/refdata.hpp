// Names by code, read directly from the installed data files.
#ifndef REFDATA_HPP
#define REFDATA_HPP
#include "vh.hpp"
#include <json-c/json.h>
struct RefData {
	std::map<std::string, std::string> country2, country3, cur3, lang2, lang3; std::map<unsigned, std::string> countryn, curn, mcc;
	std::map<std::string, std::string> arc, mcdev;
	static std::string s(json_object* o, const char* k) { json_object* v; return json_object_object_get_ex(o, k, &v) && json_object_is_type(v, json_type_string) ? json_object_get_string(v) : ""; }
	static void tsv(const char* fn, std::map<std::string, std::string>& m) {
		FILE* f = fopen((std::string(vh_datadir()) + "/" + fn).c_str(), "r"); if (!f) abort(); char b[1024];
		while (fgets(b, sizeof b, f)) { std::string l = b; if (l.back() == '\n') l.pop_back(); size_t t = l.find('\t'); m[l.substr(0, t)] = l.substr(t + 1); }
		fclose(f);
	}
	explicit RefData(const char* iso = "/usr/share/iso-codes/json", const char* mccfile = NULL) {
		struct { const char* n; int k; } F[] = {{"3166-1", 0}, {"4217", 1}, {"639-2", 2}};
		for (auto& f : F) {
			json_object* r = json_object_from_file((std::string(iso) + "/iso_" + f.n + ".json").c_str()); if (!r) abort();
			json_object* a; if (!json_object_object_get_ex(r, f.n, &a)) abort();
			for (size_t i = 0; i < json_object_array_length(a); ++i) {
				json_object* o = json_object_array_get_idx(a, i); std::string n = s(o, "name"), a2 = s(o, "alpha_2"), a3 = s(o, "alpha_3"), nu = s(o, "numeric");
				if (f.k == 0) { country2.insert({a2, n}); country3.insert({a3, n}); countryn.insert({(unsigned)atoi(nu.c_str()), n}); }
				if (f.k == 1) { cur3.insert({a3, n}); curn.insert({(unsigned)atoi(nu.c_str()), n}); }
				if (f.k == 2) { if (!a2.empty()) lang2.insert({a2, n}); lang3.insert({a3, n}); }
			}
			json_object_put(r);
		}
		std::string mf = mccfile ? mccfile : std::string(vh_datadir()) + "/mcc_codes.json"; json_object* r = json_object_from_file(mf.c_str()); if (!r) abort();
		for (size_t i = 0; i < json_object_array_length(r); ++i) { json_object* o = json_object_array_get_idx(r, i); mcc.insert({(unsigned)atoi(s(o, "mcc").c_str()), s(o, "edited_description")}); }
		json_object_put(r);
		tsv("arc.tsv", arc); tsv("mcdevice.tsv", mcdev);
	}
	template <class K> static std::string get(const std::map<K, std::string>& m, const K& k) { auto i = m.find(k); return i == m.end() ? "" : i->second; }
};
static inline const RefData& refdata() { static RefData d; return d; }
static inline std::string mcc_path() { return std::string(vh_datadir()) + "/mcc_codes.json"; }
#endif
