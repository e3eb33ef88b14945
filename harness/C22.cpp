// SRC: extra/vfs/*.cpp core/polyfill/strings.cpp core/compression/*.cpp
// LIBS: -lz -lbrotlienc -lbrotlidec -lbrotlicommon -pthread
#include "h.hpp"
#include <extra/vfs/vfs.hpp>
#include <atomic>
#include <thread>
using namespace hs; using namespace Lambda; using Buf = std::vector<uint8_t>;
static std::atomic<time_t> now_{1000}; extern "C" time_t time(time_t* t) { time_t n = now_; if (t) *t = n; return n; }
struct F { string data; time_t c, m; };
static string name() { static const std::vector<string> N = {"a", "A", "b", "a/b", "A/B", "index.html", "INDEX.html", "", "\xc3\x84", "longer name with blanks", "a\0b"s}; return rng.below(6) ? pick(N) : from("aAbB/.", 4); }
static void look(VFS::Interface& v, const std::map<string, F>& M, const string& n) { auto it = M.find(lower(n)); auto r = v.read(n); auto i = v.fileInfo(n); expect(r.has_value() == (it != M.end()), "read finds the file"); expect(i.has_value() == (it != M.end()), "info finds the file"); if (it == M.end()) return;
	if (r) { same(r->text(), it->second.data, "content"); same(r->name, it->first, "name"); expect(r->size() == it->second.data.size(), "size"); expect(r->created == it->second.c && r->modified == it->second.m, "times of a file read"); }
	if (i) { same(i->name, it->first, "name in info"); expect(i->size == it->second.data.size(), "size in info"); expect(i->created == it->second.c && i->modified == it->second.m, "times in info", [&] { return "created " + std::to_string(i->created) + " modified " + std::to_string(i->modified) + " want " + std::to_string(it->second.c) + " " + std::to_string(it->second.m); }); } }
static void ops() { section("operations"); VFS::Interface v; std::map<string, F> M; string d; hs::begin("");
	for (int k = 0, n = 1 + rng.below(25); k < n; k++) { now_ += rng.below(3); string a = name(), b = rng.below(5) ? name() : a; switch (rng.below(6)) {
		case 0: case 1: { string s = rng.below(2) ? from("xyz", 6) : anybytes(40); d += "write(" + esc(a) + "," + esc(s) + ") "; hs::begin(d); if (rng.below(2)) v.write(a, s); else v.write(a, Buf(s.begin(), s.end())); auto it = M.find(lower(a)); M[lower(a)] = {s, it == M.end() ? now_.load() : it->second.c, now_}; } break;
		case 2: d += "remove(" + esc(a) + ") "; hs::begin(d); v.remove(a); M.erase(lower(a)); break;
		case 3: case 4: { d += "move(" + esc(a) + "," + esc(b) + ") "; hs::begin(d); bool have = M.count(lower(a)); auto e = thrown([&] { v.move(a, b); }); expect((bool)e == !have, "move fails exactly if there is no such file"); if (have) { F f = M[lower(a)]; M.erase(lower(a)); M[lower(b)] = f; } } break;
		default: { d += "look(" + esc(a) + ") "; hs::begin(d); look(v, M, a); } }
		size_t total = 0; for (auto& e : M) total += e.first.size() + e.second.data.size(); auto st = v.stats(); expect(st.totalFiles == M.size(), "number of files", [&] { return std::to_string(st.totalFiles) + " want " + std::to_string(M.size()); }); expect(st.totalSize == total, "total size", [&] { return std::to_string(st.totalSize) + " want " + std::to_string(total); });
		if (rng.below(4) == 0 || k + 1 == n) { auto l = v.listAll(); std::map<string, int> seen; for (auto& i : l) { auto it = M.find(i.name); expect(it != M.end(), "lists a file that is not there"); expect(seen[i.name]++ == 0, "lists a file twice"); if (it != M.end()) expect(i.size == it->second.data.size() && i.created == it->second.c && i.modified == it->second.m, "listed facts"); } expect(l.size() == M.size(), "lists every file"); } } 
	for (auto& e : M) look(v, M, e.first); }
static void threads() { section("threads"); hs::begin("writers, movers and readers at once"); VFS::Interface v; std::vector<std::thread> t; std::atomic<bool> bad{false}; for (int k = 0; k < 4; k++) t.emplace_back([&, k] { string own = string(1, 'p' + k); for (int i = 0; i < 150; i++) { string s(1 + i % 7, 'a' + k); v.write(own, s); v.write("shared", s); auto r = v.read("SHARED"); if (r) { string x = r->text(); if (x.empty() || x != string(x.size(), x[0])) bad = true; } v.move(own, own + "2"); auto q = v.read(own + "2"); if (!q || q->text() != s || v.read(own)) bad = true; v.listAll(); v.remove(own + "2"); } }); for (auto& x : t) x.join(); expect(!bad, "torn or lost file"); auto st = v.stats(); auto r = v.read("shared"); expect(st.totalFiles == 1 && r && st.totalSize == 6 + r->size(), "stats after concurrent use", [&] { return std::to_string(st.totalFiles) + " " + std::to_string(st.totalSize); }); }
int main() { init(); threads(); section("operations"); while (more()) { for (int i = 0; i < 200; i++) ops(); if (thorough) threads(); } return done(); }
