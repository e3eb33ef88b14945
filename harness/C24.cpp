// SRC: extra/staticserver/staticserver.cpp core/polyfill/*.cpp core/html/*.cpp core/http/*.cpp core/encoding/*.cpp core/utils/*.cpp core/crypto/*.cpp core/compression/*.cpp core/network/*.cpp core/network/*/*.cpp
// LIBS: -lz -lbrotlienc -lbrotlidec -lbrotlicommon -pthread
#include "h.hpp"
#include "res.hpp"
#include <extra/staticserver/staticserver.hpp>
#include <filesystem>
#include <fstream>
using namespace hs; using namespace Lambda; namespace fs = std::filesystem;
static const std::map<string, string> table = {
#include "mime.inc"
};
static std::map<string, string> files; // by path below the root
static void put(const string& n, const string& c) { auto p = fs::path("site/root" + n); fs::create_directories(p.parent_path()); std::ofstream(p, std::ios::binary) << c; files[n] = c; }
static string norm(string s, bool& dir) { for (char& c : s) if (c == '\\') c = '/'; std::vector<string> st; size_t i = 0; dir = false; for (;;) { size_t j = s.find('/', i); string g = s.substr(i, j == string::npos ? j : j - i); dir = g.empty() || g == "." || g == ".."; if (g == "..") { if (!st.empty()) st.pop_back(); } else if (!g.empty() && g != ".") st.push_back(g); if (j == string::npos) break; i = j + 1; } string r; for (auto& g : st) r += "/" + g; return r; }
static void ask(StaticServer& s, const string& path) { hs::begin("GET " + (path.size() > 200 ? path.substr(0, 60) + "... of " + std::to_string(path.size()) : esc(path)));
	bool dir; string n = norm(path, dir), want; bool found = false; string last = n.substr(n.rfind('/') == string::npos ? 0 : n.rfind('/') + 1);
	if (!dir && files.count(n)) { want = n; found = true; } else if (dir || last.find('.') == string::npos) for (const char* c : {"/index.html", "/index.htm"}) if (!found && files.count(n + c)) { want = n + c; found = true; }
	HTTP::Response r; if (rng.below(2)) r = s.serve(path); else { HTTP::Request q; q.url.pathname = path; r = s.serve(q); }
	expect(r.status.code() == (found ? 200 : 404), found ? "a file below the root is found" : "what is not there, or outside of the root, is not found", [&] { return "status " + std::to_string(r.status.code()) + " body " + esc(r.body.text().substr(0, 80)); });
	if (found && r.status.code() == 200) { expect(r.body.text() == files[want], "the bytes of the file", [&] { return "of " + want + ": " + std::to_string(r.body.size()) + " bytes " + esc(r.body.text().substr(0, 60)); }); auto b = want.substr(want.rfind('/') + 1); auto d = b.rfind('.'); auto it = table.find(d == string::npos ? "" : b.substr(d + 1)); same(r.headers.get("content-type"), it == table.end() ? string("application/octet-stream") : it->second, "media type"); } }
static string path() { static const std::vector<string> S = {"index.html", "a", "b", "a.txt", "sub", "deep", "..", "..", ".", "", "noext", "v1.2", "d", "v1.2/d", "x.min.js", "secret.txt", "root", "site", "rootx", "link.html", "missing", "missing.html", "...", "a..", ".hidden", "%2e%2e", "etc", "passwd", "UPPER.HTML"}; string r = rng.below(8) ? "/" : rng.below(2) ? "" : "\\"; int n = rng.below(7); for (int i = 0; i < n; i++) { r += rng.below(12) ? pick(S) : from("a.b", 4); if (i + 1 < n || rng.below(4) == 0) r += rng.below(7) ? "/" : rng.below(2) ? "\\" : "//"; } return r; }
int main() { init(); fs::create_directories("site/root"); fs::create_directories("site/rootx"); std::ofstream("site/secret.txt") << "SECRET"; std::ofstream("site/index.html") << "OUTSIDE"; std::ofstream("site/rootx/a.txt") << "SIBLING"; std::ofstream("secret.txt") << "SECRET"; std::ofstream("index.html") << "OUTSIDE2";
	put("/index.html", "<h1>start</h1>"); put("/a.txt", "text"); put("/a/index.htm", "old index"); put("/a/b/index.html", "b"); put("/a/b/index.htm", "not this one"); put("/a/b/a.txt", string("bin\0\xff\r\n", 7)); put("/sub/deep/noext", anybytes(200)); put("/noext", ""); put("/v1.2/d/index.html", "below a dotted one"); put("/v1.2/index.html", "dotted directory"); put("/sub/x.min.js", string(200000, 'j')); put("/.hidden", "h"); put("/a../a.txt", "dots behind"); put("/.../a.txt", "three"); put("/sub/UPPER.HTML", "upper"); put("/secret.txt/index.html", "a directory with a name like a file"); put("/blob", "linked"); put("/b.b/a", "b.b"); fs::create_symlink("blob", "site/root/link.html"); files["/link.html"] = "linked"; fs::create_symlink("loop", "site/root/loop");
	section("roots"); for (const char* p : {"site/nowhere", "site/root/a.txt", ""}) { hs::begin(string("root ") + p); expect((bool)thrown([&] { StaticServer s(p); }), "what is not a directory is refused"); }
	std::vector<StaticServer> servers; for (const char* p : {"site/root", "site/root/", "./site/root", "site/rootx/../root"}) { hs::begin(string("root ") + p); if (auto e = thrown([&] { servers.emplace_back(p); })) { fail("a directory is accepted", *e); return done(); } } string abs = fs::absolute("site/root").string(); servers.emplace_back(abs);
	section("paths"); for (auto& s : servers) { for (auto& f : files) { ask(s, f.first); ask(s, f.first.substr(1)); ask(s, "/../" + f.first); ask(s, "/x/.." + f.first); } for (const char* p : {"", "/", "..", "/..", "/../", "../..", "/../secret.txt", "/a/../../secret.txt", "..\\secret.txt", "/..\\..\\secret.txt", "/../rootx/a.txt", "/..rootx/a.txt", "/a/..", "/a/.", "/a/./../index.html", "/a//../a.txt", "/.", "/./", "/.../a.txt", "/a../a.txt", "/....//secret.txt", "/..././secret.txt", "/.\\./secret.txt", "/index.html/", "/index.html/x", "/a.txt/index.html", "/loop", "/loop/x", "/secret.txt", "/secret.txt/", "/v1.2", "/v1.2/", "/?", "/a/b", "/a/b/"}) ask(s, p);
		for (size_t n : {254u, 255u, 256u, 300u, 4095u, 4096u, 5000u, 70000u}) { ask(s, "/" + string(n, 'a')); ask(s, "/" + string(n, 'a') + ".html"); string d; while (d.size() < n) d += "/dd"; ask(s, d); ask(s, d + "/a.txt"); } }
	section("short paths"); all("/.\\a", thorough ? 9 : 7, [](const string& p) { static StaticServer s("site/root"); ask(s, p); });
	section("any"); while (more()) for (int i = 0; i < 200; i++) ask(servers[rng.below(servers.size())], path()); return done(); }
