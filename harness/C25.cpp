// SRC: core/html/renderer.cpp
#include "h.hpp"
#include <core/html/html.hpp>
using namespace hs; using namespace Lambda;
typedef std::map<string, string> M;
static string oracle(const string& s, const M& m) { string r; size_t i = 0; for (;;) { size_t o = s.find("{{", i); if (o == string::npos) return r + s.substr(i); size_t c = s.find("}}", o); if (c == string::npos) return r + s.substr(i);
	string n = s.substr(o + 2, c - o - 2); size_t a = 0, b = n.size(); while (a < b && (n[a] == ' ' || n[a] == '\t')) a++; while (b > a && (n[b - 1] == ' ' || n[b - 1] == '\t')) b--; n = n.substr(a, b - a); bool ok = n.size(); for (unsigned char x : n) if (!(x == '_' || (x >= '0' && x <= '9') || (x >= 'a' && x <= 'z') || (x >= 'A' && x <= 'Z'))) ok = false;
	if (ok) { auto v = m.find(n); r += s.substr(i, o - i) + (v == m.end() ? "" : v->second); } else r += s.substr(i, c + 2 - i); i = c + 2; } }
static void one(const string& s, const M& m) { string d; for (auto& [k, v] : m) d += " " + esc(k) + "=" + esc(v); begin(esc(s) + d); M c = m; string g; auto t = thrown([&] { g = HTML::renderTemplate(s, m); }); expect(!t, "throws", [&] { return *t; }); if (!t) same(g, oracle(s, m), "render"); expect(c == m, "props-changed"); }
int main() { init(); section("templates"); M m{{"a", "1"}, {"ab", "{{a}}"}, {"b", ""}, {"A_9", "}}"}, {"x", "long value {{"}};
	all("{}a ", 7, [&](const string& s) { one(s, m); }); for (int c = 0; c < 256; c++) { one("{{" + string(1, (char)c) + "}}", m); one("<{{a" + string(1, (char)c) + "b}}>{{a}}", m); one("{{ a" + string(1, (char)c) + " }}", m); }
	while (more()) { string s; size_t n = rng.below(8); for (size_t i = 0; i < n; i++) s += rng.below(3) ? pick({"{{a}}", "{{ ab }}", "{{\tx}}", "{{none}}", "{{ }}", "{{a b}}", "{{", "}}", "{{A_9}}", "{", "}", "text", "{{b}}"}) : from("{}ab _\n\xe9", 3); one(s, m); one(anystr("{}a b", 12), m); }
	return done(); }
