// SRC: extra/kvstorage/*.cpp core/utils/*.cpp
// LIBS: -pthread
#include "h.hpp"
#include <extra/kvstorage/kvstorage.hpp>
#include <filesystem>
#include <fstream>
#include <thread>
#include <sys/resource.h>
#include <sys/wait.h>
using namespace hs; using namespace Lambda::Storage; namespace fs = std::filesystem; typedef std::map<string, string> Map;
static string slurp(const string& p) { std::ifstream f(p, std::ios::binary); return string(std::istreambuf_iterator<char>(f), {}); }
static void spit(const string& p, const string& c) { std::ofstream(p, std::ios::binary) << c; }
static string le(unsigned long v, int n) { string r; while (n--) { r += char(v); v >>= 8; } return r; }
static string rec(int t, const string& k, const string& v) { return le(t, 2) + le(k.size(), 2) + le(v.size(), 4) + k + v; }
static const string head = "mlkvdb" + le(3, 2);
// what a file means, or nothing if it is no whole storage file
static std::optional<Map> replay(const string& s) { if (s.substr(0, 8) != head) return {}; Map m; size_t i = 8; auto num = [&](size_t a, int n) { unsigned long v = 0; while (n--) v = v << 8 | (unsigned char)s[a + n]; return v; };
	while (i < s.size()) { if (i + 8 > s.size()) return {}; auto t = num(i, 2), k = num(i + 2, 2), v = num(i + 4, 4); i += 8; if (t > 2 || (t == 1 && v) || (t == 2 && (k || v)) || k + v > s.size() - i) return {}; string key = s.substr(i, k), val = s.substr(i + k, v); i += k + v; if (t == 0) m[key] = val; else if (t == 1) m.erase(key); else m.clear(); } return m; }
static const std::vector<string> KEYS = {"", "a", "b", "A", string("a\0b", 3), "key with blanks", "\xff\xfe", string(255, 'k'), string(256, 'k'), string(65535, 'K'), "ключ"};
static string value() { switch (rng.below(9)) { case 0: return ""; case 1: return string(rng.below(300), 'v'); case 2: return string(65530 + rng.below(20), 'w'); default: return anybytes(40); } }
static string key() { return rng.below(4) ? pick(KEYS) : from("ab", 3); }
static void look(LocalStorage& s, const Map& m, const char* when) { expect(s.size() == m.size(), "number of items", [&] { return string(when) + ": " + std::to_string(s.size()) + " instead of " + std::to_string(m.size()); });
	for (auto& e : m) { expect(s.hasItem(e.first), "an item is present", [&] { return string(when) + ": " + esc(e.first, 60); }); expect(s.getItem(e.first) == e.second, "the value last set", [&] { return string(when) + ": " + esc(e.first, 60) + " is " + esc(s.getItem(e.first), 80) + " instead of " + esc(e.second, 80); }); }
	for (auto& k : KEYS) if (!m.count(k)) { expect(!s.hasItem(k), "an item is absent", [&] { return string(when) + ": " + esc(k, 60); }); expect(s.getItem(k).empty(), "no value for an absent item"); } }
static void opens(const string& file, const std::optional<Map>& want, const char* when) { std::optional<LocalStorage> s; auto e = thrown([&] { s.emplace(file); }); if (!want) { expect((bool)e, "a damaged or foreign file is refused", [&] { return string(when); }); return; } if (e) { fail("a storage file is read", string(when) + ": " + *e); return; } look(*s, *want, when); }
static void step(LocalStorage& s, Map& m, string* log) { string k = key(), v; switch (rng.below(8)) { case 0: s.removeItem(k); m.erase(k); break; case 1: if (rng.below(3) == 0) { s.clear(); m.clear(); } break; default: v = value(); s.setItem(k, v); m[k] = v; } if (log) *log += esc(k, 20) + "=" + esc(v, 20) + " "; }
static void history() { string f = rng.below(2) ? "h.db" : "dir/sub/h.db"; fs::remove(f); hs::begin("history"); string log; { Map m; int n = 1 + rng.below(4); for (int r = 0; r < n; r++) { std::optional<LocalStorage> s; if (auto e = thrown([&] { s.emplace(f); })) { fail("a storage can be opened again", *e + " after " + log); return; } look(*s, m, "after opening"); int ops = rng.below(12);
		for (int i = 0; i < ops; i++) { step(*s, m, &log); hs::begin("history " + log.substr(0, 3000)); if (rng.below(4) == 0) look(*s, m, "while open"); if (rng.below(3) == 0) { fs::copy_file(f, "copy.db", fs::copy_options::overwrite_existing); auto r = replay(slurp("copy.db")); expect(r && *r == m, "the file holds every completed operation"); opens("copy.db", m, "stopped here"); } } look(*s, m, "before closing"); } } }
static string some() { string s = head; int n = rng.below(7); for (int i = 0; i < n; i++) { int t = rng.below(6); s += t == 4 ? rec(1, key(), "") : t == 5 ? rec(2, "", "") : rec(0, key(), rng.below(3) ? anybytes(20) : value()); } return s; }
static void limited(unsigned long n, const std::function<void()>& f) { rlimit o, l; getrlimit(RLIMIT_FSIZE, &o); l = o; l.rlim_cur = n; auto h = signal(SIGXFSZ, SIG_IGN); setrlimit(RLIMIT_FSIZE, &l); f(); setrlimit(RLIMIT_FSIZE, &o); signal(SIGXFSZ, h); }
int main() { init();
	section("places"); { hs::begin("default file"); Map m; if (auto e = thrown([&] { LocalStorage s; s.setItem("x", "1"); })) fail("a storage can be created", *e); if (auto e = thrown([&] { LocalStorage s; m["x"] = "1"; look(s, m, "default file"); })) fail("a storage can be opened again", *e); }
	for (const char* p : {"new.db", "./new2.db", "d1/new.db", "d2/d3/d4/new.db", "d2/../d5/new.db", "noext"}) { hs::begin(string("file ") + p); if (auto e = thrown([&] { { LocalStorage s(p); look(s, {}, "new"); s.setItem("a", "b"); } LocalStorage s(p); look(s, {{"a", "b"}}, "opened again"); })) fail("a storage can be created and opened again", *e); }
	{ string p = fs::absolute("abs.db"); hs::begin("absolute path"); if (auto e = thrown([&] { { LocalStorage s(p); s.setItem("a", "b"); } opens(p, Map{{"a", "b"}}, "absolute"); })) fail("a storage can be created and opened again", *e); }
	spit("plain", "x"); fs::create_directory("adir"); for (const char* p : {"plain/x.db", "adir", "/dev/null/x/y.db", "/proc/nothing/here.db"}) { hs::begin(string("file ") + p); expect((bool)thrown([&] { LocalStorage s(p); s.setItem("a", "b"); }), "a file that cannot be written is reported"); }
	section("sizes"); { Map m; hs::begin("long keys"); { LocalStorage s("big.db"); s.setItem("a", "1"); m["a"] = "1"; for (size_t n : {65534ul, 65535ul}) { s.setItem(string(n, 'q'), "v"); m[string(n, 'q')] = "v"; } for (size_t n : {65536ul, 65537ul, 131072ul, 200000ul}) { expect((bool)thrown([&] { s.setItem(string(n, 'q'), "v"); }), "a key that cannot be stored is reported", [&] { return std::to_string(n) + " bytes"; }); if (auto e = thrown([&] { s.removeItem(string(n, 'q')); })) fail("removing an absent item does nothing", *e); } s.setItem("b", string(5000000, 'z')); m["b"] = string(5000000, 'z'); look(s, m, "after long keys"); } opens("big.db", m, "after long keys"); }
	section("cut off files"); for (int r = 0; r < (thorough ? 60 : 12); r++) { string s = some(); if (s.size() > 3000) continue; for (size_t n = 0; n <= s.size(); n++) { string t = s.substr(0, n); hs::begin("cut off at " + std::to_string(n) + " of " + std::to_string(s.size()) + ": " + esc(t, 200)); spit("cut.db", t); opens("cut.db", replay(t), "cut off"); } }
	section("damaged files"); for (int r = 0; r < 4; r++) { string s = some(); for (size_t i = 0; i < std::min<size_t>(s.size(), 400); i++) for (int b : {0, 1, 7}) { string t = s; t[i] ^= 1 << b; hs::begin("bit " + std::to_string(b) + " of byte " + std::to_string(i) + " changed: " + esc(t, 300)); spit("bad.db", t); opens("bad.db", replay(t), "damaged"); } }
	for (auto& t : {head + rec(3, "a", ""), head + rec(256, "a", "b"), head + rec(1, "a", "b"), head + rec(2, "a", ""), head + rec(2, "", "v"), head + rec(0, "", ""), head + rec(1, "nope", ""), head + rec(0, "a", "1") + rec(0, "a", "2"), head + rec(0, "a", "1") + rec(2, "", "") + rec(0, "b", "2"), head + rec(0, "a", "1") + rec(1, "a", ""), string("mlkvdb") + le(2, 2), string("mlkvdb") + le(0x300, 2), string("mlkvDb") + le(3, 2), string(""), string("mlkvdb"), head + le(0, 2) + le(3, 2) + le(0xffffffff, 4) + "abc"}) { hs::begin("file " + esc(t)); spit("bad.db", t); opens("bad.db", replay(t), "made"); }
	section("failing writes"); for (unsigned long lim : {0ul, 5ul, 8ul, 12ul, 20ul, 40ul, 70ul, 100ul}) { Map m = {{"a", "1"}, {"b", string(30, '2')}, {"c", "3"}}; string f = "lim.db"; fs::remove(f); { LocalStorage s(f); for (auto& e : m) s.setItem(e.first, e.second); } hs::begin("at most " + std::to_string(lim) + " bytes can be written while opening"); limited(lim, [&] { auto e = thrown([&] { LocalStorage s(f); look(s, m, "opened"); }); if (lim < 50) expect((bool)e, "a failed write is reported"); }); fs::remove(f + ".tmp"); opens(f, m, "after a failed opening");
		hs::begin("at most " + std::to_string(lim) + " more bytes can be written"); { LocalStorage s(f); auto base = fs::file_size(f); bool bad = false; limited(base + lim, [&] { for (int i = 0; i < 12; i++) { string k = std::to_string(i % 5), v(i, 'x'); auto e = thrown([&] { if (i % 4 == 3) { s.removeItem("a"); } else s.setItem(k, v); }); if (e) { bad = true; break; } if (i % 4 == 3) m.erase("a"); else m[k] = v; } }); if (lim < 70) expect(bad, "a failed write is reported"); look(s, m, "after a failed write"); } }
	for (unsigned long lim : {0ul, 5ul, 8ul, 12ul, 20ul, 40ul, 70ul}) { Map m = {{"a", "1"}, {"b", string(30, '2')}, {"c", "3"}}; string f = "kill.db"; fs::remove(f); { LocalStorage s(f); for (auto& e : m) s.setItem(e.first, e.second); } hs::begin("stopped after writing " + std::to_string(lim) + " bytes while opening"); fflush(stdout); int p = fork(); if (!p) { signal(SIGXFSZ, SIG_DFL); rlimit l{lim, lim}, c{0, 0}; setrlimit(RLIMIT_CORE, &c); setrlimit(RLIMIT_FSIZE, &l); try { LocalStorage s(f); } catch (...) {} _exit(0); } int st; waitpid(p, &st, 0); opens(f, m, "after being stopped"); }
	section("threads"); for (int r = 0; r < (thorough ? 20 : 4); r++) { hs::begin("threads"); fs::remove("t.db"); std::vector<string> ks = {"s", "t", "u"}; { LocalStorage s("t.db"); std::vector<std::thread> th; std::atomic<int> torn{0}; for (int t = 0; t < 4; t++) th.emplace_back([&, t] { unsigned x = t * 77 + r; for (int i = 0; i < 300; i++) { x = x * 1103515245 + 12345; auto& k = ks[x / 65536 % 3]; int what = x / 1000 % 7; if (what == 0) s.removeItem(k); else if (what == 1 && i % 50 == 0) s.clear(); else if (what < 5) s.setItem(k, string(20 + 50 * t, 'a' + t)); else { auto v = s.getItem(k); if (v.size()) { int o = v[0] - 'a'; if (o < 0 || o > 3 || v != string(20 + 50 * o, 'a' + o)) torn++; } s.hasItem(k); } s.setItem("own" + std::to_string(t), std::to_string(i)); if (i % 3 == 0) { auto v = s.getItem("own" + std::to_string(t)); if (v != std::to_string(i) && v != "") torn++; } if (s.size() > 7) torn++; } });
		for (auto& t : th) t.join(); expect(torn == 0, "every operation takes effect as a whole"); auto rr = replay(slurp("t.db")); if (!rr) fail("the file of concurrent operations is whole", ""); else { bool ok = s.size() == rr->size(); for (auto& e : *rr) ok = ok && s.getItem(e.first) == e.second; expect(ok, "the file tells the operations in their order"); } } opens("t.db", replay(slurp("t.db")), "after threads"); }
	section("histories"); while (more()) for (int i = 0; i < 20; i++) history(); return done(); }
