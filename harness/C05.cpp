// SRC: core/polyfill/strings.cpp
#include "h.hpp"
#include <core/polyfill/polyfill.hpp>
using namespace hs; using namespace Lambda; using std::vector;
static bool ws(char c) { return c == ' ' || c == '\t' || c == '\r' || c == '\n'; }
static vector<string> osplit(const string& s, const string& t) { if (s.empty()) return {}; if (t.empty()) return {s}; vector<string> r; size_t i = 0; for (;;) { size_t m = s.find(t, i); if (m == string::npos) { if (i < s.size()) r.push_back(s.substr(i)); return r; } r.push_back(s.substr(i, m - i)); i = m + t.size(); } }
static string vs(const vector<string>& v) { string r = "["; for (auto& x : v) r += esc(x) + ","; return r + "]"; }
static string ojoin(const vector<string>& v, const string& t) { string r; for (size_t i = 0; i < v.size(); i++) { if (i) r += t; r += v[i]; } return r; }
static string orep(const string& s, const string& a, const string& b, bool every) { string r; size_t i = 0; if (a.empty() && every) return s; for (;;) { size_t m = s.find(a, i); if (m == string::npos) return r + s.substr(i); r += s.substr(i, m - i) + b; i = m + a.size(); if (!every) return r + s.substr(i); } }
static void one(const string& s, const string& t, const string& u) {
	begin(esc(s) + " " + esc(t) + " " + esc(u));
	same(Strings::toLowerCase(s), lower(s), "lower"); same(Strings::toUpperCase(s), upper(s), "upper");
	{ string q = s; Strings::toLowerCase(q); same(q, lower(s), "lower-in-place"); q = s; Strings::toUpperCase(q); same(q, upper(s), "upper-in-place"); }
	string w = s; for (size_t i = 0; i < w.size(); i++) { bool st = i == 0 || s[i - 1] == ' ' || s[i - 1] == '-'; w[i] = st ? upper(string(1, s[i]))[0] : lower(string(1, s[i]))[0]; }
	same(Strings::toTittleCase(s), w, "title");
	expect(Strings::includes(s, t) == (s.find(t) != string::npos), "includes"); if (t.size()) expect(Strings::includes(s, t[0]) == (s.find(t[0]) != string::npos), "includes-char");
	expect(Strings::includes(s, vector<string>{t, u}) == (s.find(t) != string::npos || s.find(u) != string::npos), "includes-list"); expect(!Strings::includes(s, vector<string>{}), "includes-list");
	expect(Strings::startsWith(s, t) == s.starts_with(t), "startsWith"); expect(Strings::endsWith(s, t) == s.ends_with(t), "endsWith"); expect(Strings::endsWith(s + t, t) && Strings::startsWith(t + s, t), "startsWith");
	size_t a = 0, b = s.size(); while (a < b && ws(s[a])) a++; while (b > a && ws(s[b - 1])) b--;
	same(Strings::trim(s), s.substr(a, b - a), "trim");
	auto sp = Strings::split(s, t); expect(sp == osplit(s, t), "split", [&] { return vs(sp) + " want " + vs(osplit(s, t)); });
	if (t.size()) { auto sc = Strings::split(s, t[0]); expect(sc == osplit(s, string(1, t[0])), "split-char", [&] { return vs(sc); }); }
	same(Strings::replace(s, t, u), orep(s, t, u, false), "replace"); same(Strings::replaceAll(s, t, u), orep(s, t, u, true), "replaceAll");
	string tz = t.c_str(); vector<string> v{s, t, u, s}; v.resize(rng.below(5)); same(Strings::join(v, tz.c_str()), ojoin(v, tz), "join");
}
int main() { init(); section("strings");
	all("a b", 4, [](const string& s) { all("ab", 2, [&](const string& t) { one(s, t, "x"); one(s, t, "a" + t); }); });
	for (int c = 0; c < 256; c++) one(string(1, (char)c), "a", "b");
	while (more()) { string t = rng.below(2) ? from("ab", 3) : anystr(" -aA\t\r\nzZ", 4); string s = anystr(" -aAbB\t\r\nzZ@[`{", 20); if (rng.below(2)) s += t + s.substr(0, rng.below(s.size() + 1)) + t; one(s, t, anystr("ab ", 4)); }
	return done(); }
