// Support for the executable oracles: case generation, failure reporting.
// Output lines: FAIL<TAB>key<TAB>detail, STAT<TAB>name<TAB>count, SAMPLE<TAB>text
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <unistd.h>
#include <chrono>
#include <fstream>
#include <functional>
#include <map>
#include <optional>
#include <set>
#include <string>
#include <string_view>
#include <type_traits>
#include <utility>
#include <vector>
#include <sanitizer/common_interface_defs.h>
extern "C" inline const char* __asan_default_options() { return "handle_abort=1:detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=0"; }
extern "C" inline const char* __ubsan_default_options() { return "print_stacktrace=1:halt_on_error=1:exitcode=77"; }
namespace hs {
	using std::string;
	inline char cur[1 << 16]; inline volatile size_t curn = 0; inline char sect[128] = "start";
	inline void death() { static bool once = false; if (once) return; once = true; char b[256]; int n = snprintf(b, sizeof b, "\nFAIL\tcrash:%s\t", sect); (void)!write(1, b, n); (void)!write(1, cur, curn); (void)!write(1, "\n", 1); }
	inline void onalarm(int) { char b[256]; int n = snprintf(b, sizeof b, "\nFAIL\thang:%s\t", sect); (void)!write(1, b, n); (void)!write(1, cur, curn); (void)!write(1, "\n", 1); _exit(78); }
	inline void onabort(int) { death(); _exit(77); }
	inline string esc(std::string_view s, size_t max = 300) {
		string r = "\""; size_t k = 0;
		for (unsigned char c : s) { if (k++ >= max) { r += "..."; break; }
			if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c >= 32 && c < 127) r += c; else { char b[8]; snprintf(b, 8, "\\x%02x", c); r += b; } }
		return r + "\"" + (s.size() > max ? "(" + std::to_string(s.size()) + " bytes)" : "");
	}
	inline string esc(const std::vector<uint8_t>& v) { return esc(std::string_view((const char*)v.data(), v.size())); }
	struct Rng { uint64_t s; uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
		uint64_t below(uint64_t n) { return n ? next() % n : 0; } bool chance(int a, int b) { return below(b) < (uint64_t)a; } };
	inline Rng rng{1};
	inline bool thorough = false; inline double budget = 5; inline std::chrono::steady_clock::time_point t0;
	inline uint64_t cases = 0, nfail = 0; inline std::map<string,int> keys; inline std::set<uint64_t> distinct; inline std::vector<string> samples; inline std::vector<string> seeds;
	inline uint64_t fnv(std::string_view s) { uint64_t h = 1469598103934665603ull; for (unsigned char c : s) h = (h ^ c) * 1099511628211ull; return h; }
	inline void section(const char* s) { snprintf(sect, sizeof sect, "%s", s); }
	inline const bool getenv_sect = getenv("LVC_SECT"); inline std::map<string, uint64_t> bysect;
	inline void begin(const string& desc) { size_t n = std::min(desc.size(), sizeof cur); memcpy(cur, desc.data(), n); curn = n; cases++; if (getenv_sect) bysect[sect]++; if (distinct.size() < 2000000) distinct.insert(fnv(desc) ^ fnv(sect)); if (samples.size() < 6 && (cases & (cases - 1)) == 0) samples.push_back(string(sect) + ": " + desc.substr(0, 200)); alarm(20); }
	inline void fail(const string& key, const string& detail) { nfail++; if (keys[key]++ == 0 && keys.size() < 40) { string d = detail; for (auto& c : d) if (c == '\n' || c == '\t') c = ' '; printf("\nFAIL\t%s\t%s | case %s: %s\n", key.c_str(), d.substr(0, 1200).c_str(), sect, string(cur, curn).substr(0, 1500).c_str()); fflush(stdout); } }
	template <class F> inline void expect(bool ok, const string& key, F f) { if (!ok) fail(key, f()); }
	inline void expect(bool ok, const string& key) { if (!ok) fail(key, ""); }
	template <class A, class B> inline void same(const A& got, const B& want, const string& key) { if (!(got == want)) fail(key, "got " + esc(got) + " want " + esc(want)); }
	// time is left for the random part; what came before may take the budget, but the random part keeps most of its share
	inline bool more(double share = 1.0) { static double base = -1; static int calls = 0; double e = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); if (base < 0) base = std::max(0.0, e - 0.4 * budget); return calls++ < 3 || e - base < budget * share; }
	inline void init() {
		__sanitizer_set_death_callback(death); signal(SIGALRM, onalarm); signal(SIGPIPE, SIG_DFL);
		if (auto s = getenv("VERIF_SEED")) rng.s = strtoull(s, 0, 10) * 7919 + 17; if (auto s = getenv("LVC_SALT")) rng.s += strtoull(s, 0, 10) * 1000003;
		if (auto s = getenv("VERIF_TIER")) thorough = !strcmp(s, "thorough");
		if (auto s = getenv("LVC_BUDGET")) budget = atof(s);
		if (auto s = getenv("LVC_SEEDS")) { std::ifstream f(s); string l; while (std::getline(f, l)) { string b; for (size_t i = 0; i + 1 < l.size(); i += 2) b += (char)strtol(l.substr(i, 2).c_str(), 0, 16); seeds.push_back(b); } }
		t0 = std::chrono::steady_clock::now();
	}
	inline int done() { alarm(0); for (auto& s : samples) { string d = s; for (auto& c : d) if (c == '\n' || c == '\t') c = ' '; printf("SAMPLE\t%s\n", d.c_str()); } for (auto& x : bysect) fprintf(stderr, "SECTION %s %llu\n", x.first.c_str(), (unsigned long long)x.second); printf("STAT\tcases\t%llu\nSTAT\tdistinct\t%zu\nSTAT\tfailures\t%llu\nDONE\n", (unsigned long long)cases, distinct.size(), (unsigned long long)nfail); fflush(stdout); _exit(nfail ? 1 : 0); }
	// generators
	inline string from(std::string_view alpha, size_t maxlen) { string r; size_t n = rng.below(maxlen + 1); for (size_t i = 0; i < n; i++) r += alpha[rng.below(alpha.size())]; return r; }
	inline string anybytes(size_t maxlen) { string r; size_t n = rng.below(maxlen + 1); int mode = rng.below(4); for (size_t i = 0; i < n; i++) r += (char)(mode == 0 ? rng.below(256) : mode == 1 ? 32 + rng.below(95) : mode == 2 ? (rng.below(2) ? 0xff : 0) : 0x7e + rng.below(4)); return r; }
	inline string pick(const std::vector<string>& v) { return v[rng.below(v.size())]; }
	inline string mix(const std::vector<string>& dict, std::string_view alpha, size_t maxtok) { string r; size_t n = rng.below(maxtok + 1); for (size_t i = 0; i < n; i++) { if (rng.below(3)) r += pick(dict); else r += from(alpha, 3); } return r; }
	inline string anystr(std::string_view alpha, size_t maxlen) { if (!seeds.empty() && rng.below(4) == 0) return pick(seeds); if (rng.below(4) == 0) return anybytes(maxlen); return from(alpha, maxlen); }
	// all strings over alpha up to length n
	inline void all(std::string_view alpha, size_t n, const std::function<void(const string&)>& f) { string s; std::function<void(size_t)> go = [&](size_t k) { f(s); if (k == 0) return; for (char c : alpha) { s += c; go(k - 1); s.pop_back(); } }; go(n); }
	template <class F> inline auto thrown(F f) -> std::optional<string> { try { f(); } catch (const std::exception& e) { return string(e.what()); } catch (...) { return string("(non-std exception)"); } return std::nullopt; }
	inline string lower(string s) { for (auto& c : s) if (c >= 'A' && c <= 'Z') c += 32; return s; }
	inline string upper(string s) { for (auto& c : s) if (c >= 'a' && c <= 'z') c -= 32; return s; }
}
using namespace std::string_literals;
