// SRC: core/utils/syncout.cpp
#include "h.hpp"
#include <core/utils/utils.hpp>
#include <thread>
using namespace hs; using namespace Lambda; using SyncOut::MgsOverload;
static char *ob, *eb; static size_t on, en; static FILE *rout, *rerr;
static void grab() { rout = stdout; rerr = stderr; stdout = open_memstream(&ob, &on); stderr = open_memstream(&eb, &en); }
static std::pair<string, string> got() { fclose(stdout); fclose(stderr); stdout = rout; stderr = rerr; std::pair<string, string> r{string(ob, on), string(eb, en)}; free(ob); free(eb); return r; }
static string rb() { string s; for (size_t n = rng.below(20); n--;) s += (char)rng.below(256); return s; }
struct It { string text; bool has; MgsOverload m; };
template <class T> static It num(T v) { return {std::to_string(v), true, MgsOverload(v)}; }
static It item() { switch (rng.below(18)) { case 0: { string s = rng.below(3) ? from("ab \n%s\\", 8) : rb(); return {s, !s.empty(), MgsOverload(s)}; } case 1: { string s = rng.below(3) ? from("ab \n%d", 8) : ""; return {s, !s.empty(), MgsOverload(s.c_str())}; } case 2: return {"", false, MgsOverload((const char*)nullptr)}; case 3: { bool b = rng.below(2); return {b ? "true" : "false", true, MgsOverload(b)}; } case 4: { char c = (char)rng.below(256); return {string(1, c), true, MgsOverload(c)}; } case 5: return num((unsigned char)rng.next()); case 6: return num((short)rng.next()); case 7: return num((unsigned short)rng.next()); case 8: return num((int)rng.next()); case 9: return num((unsigned)rng.next()); case 10: return num((long)rng.next()); case 11: return num((unsigned long)rng.next()); case 12: return num((long long)rng.next()); case 13: return num((unsigned long long)rng.next()); case 14: return num((float)(int)rng.next() / 3); case 15: return num((double)(long)rng.next() / 7); case 16: return num((long double)(long)rng.next() / 9); default: return {"", false, MgsOverload()}; } }
static void one() { string want[2]; SyncOut::WrapperImpl o; std::vector<std::vector<It>> calls; std::vector<int> how; string desc; for (size_t k = 1 + rng.below(4); k--;) { std::vector<It> v; size_t n = rng.below(5); while (n--) v.push_back(item()); int h = rng.below(4); if (h < 2) { v.resize(1); if (v[0].text.empty() && !v[0].has) v[0] = item(); } string t; for (auto& x : v) if (x.has) t += (t.size() ? " " : "") + x.text; desc += std::to_string(h) + esc(t); if (t.size()) want[h & 1] += t + "\n"; calls.push_back(v); how.push_back(h); }
	hs::begin("calls " + desc); grab(); for (size_t i = 0; i < calls.size(); i++) { auto& v = calls[i]; switch (how[i]) { case 0: o.log(v[0].m); break; case 1: o.error(v[0].m); break; default: { auto f = [&](std::initializer_list<MgsOverload> l) { if (how[i] == 2) o.log(l); else o.error(l); }; switch (v.size()) { case 0: f({}); break; case 1: f({v[0].m}); break; case 2: f({v[0].m, v[1].m}); break; case 3: f({v[0].m, v[1].m, v[2].m}); break; default: f({v[0].m, v[1].m, v[2].m, v[3].m}); } } } } auto g = got(); same(g.first, want[0], "stdout"); same(g.second, want[1], "stderr"); }
static void threads() { section("threads"); hs::begin("concurrent lines"); grab(); auto run = [](int k) { for (int i = 0; i < 200; i++) { string a(20 + k, (char)('a' + k)); if (i % 3 == 0) syncout.error({a, i, a}); else if (i % 3 == 1) syncout.log({a, i, a}); else syncout.log(a + " " + std::to_string(i) + " " + a); } }; { std::vector<std::thread> t; for (int k = 0; k < 4; k++) t.emplace_back(run, k); for (auto& x : t) x.join(); } auto g = got(); std::map<int, int> last[2]; size_t n = 0; int which = 0; for (auto* s : {&g.first, &g.second}) { size_t p = 0; while (p < s->size()) { auto e = s->find('\n', p); if (e == string::npos) { fail("mixed", "unterminated"); break; } string l = s->substr(p, e - p); p = e + 1; n++; int k = l.empty() ? -1 : l[0] - 'a'; if (k < 0 || k > 3) { fail("mixed", esc(l)); continue; } string a(20 + k, (char)('a' + k)); int i = atoi(l.c_str() + a.size()); expect(l == a + " " + std::to_string(i) + " " + a, "mixed", [&] { return esc(l); }); auto it = last[which].find(k); expect(it == last[which].end() || it->second < i, "order"); last[which][k] = i; } which++; } expect(n == 800, "lost", [&] { return std::to_string(n); }); }
int main() { init(); section("lines"); for (int i = 0; i < 3; i++) threads(); section("lines"); while (more()) one(); return done(); }
