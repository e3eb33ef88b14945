// SRC: extra/vfs/*.cpp core/polyfill/strings.cpp core/compression/*.cpp
// LIBS: -lz -lbrotlienc -lbrotlidec -lbrotlicommon -pthread
#include "h.hpp"
#include <extra/vfs/vfs.hpp>
#include <zlib.h>
#include <atomic>
#include <filesystem>
using namespace hs; using namespace Lambda; using Buf = std::vector<uint8_t>;
static std::atomic<time_t> now_{1000}; extern "C" time_t time(time_t* t) { time_t n = now_; if (t) *t = n; return n; }
static string dir;
static string slurp(const string& p) { std::ifstream f(p, std::ios::binary); return string(std::istreambuf_iterator<char>(f), {}); }
static void spit(const string& p, const string& s) { std::ofstream f(p, std::ios::binary); f.write(s.data(), s.size()); }
static string unz(const string& in, bool& ok) { z_stream s{}; inflateInit2(&s, 31); string out; s.next_in = (Bytef*)in.data(); s.avail_in = in.size(); int r; std::vector<char> b(1 << 16); do { s.next_out = (Bytef*)b.data(); s.avail_out = b.size(); r = inflate(&s, Z_NO_FLUSH); out.append(b.data(), b.size() - s.avail_out); } while (r == Z_OK); ok = r == Z_STREAM_END && s.avail_in == 0; inflateEnd(&s); return out; }
static string gz(const string& in, int level) { z_stream s{}; deflateInit2(&s, level, Z_DEFLATED, 31, 8, Z_DEFAULT_STRATEGY); string out(deflateBound(&s, in.size()) + 64, 0); s.next_in = (Bytef*)in.data(); s.avail_in = in.size(); s.next_out = (Bytef*)out.data(); s.avail_out = out.size(); deflate(&s, Z_FINISH); out.resize(s.total_out); deflateEnd(&s); return out; }
struct E { string name, data; time_t m; };
static string oct(uint64_t v, size_t w) { string r; for (size_t i = 0; i + 1 < w; i++) { r.insert(r.begin(), '0' + v % 8); v /= 8; } return r + '\0'; }
static string padded(string s) { s.resize((s.size() + 511) / 512 * 512, 0); return s; }
static string head(const string& n, char type, size_t size, time_t m, int style = 0) { string h(512, 0); auto at = [&](size_t o, const string& s) { h.replace(o, s.size(), s); }; at(0, n.substr(0, 100)); at(100, style ? "0000644\0"s : "0100777\0"s); at(108, "0000000\0"s); at(116, "0000000\0"s); at(124, oct(size, 12)); at(136, oct(m, 12)); h[156] = type; at(257, "ustar\0"s "00"s); if (style) { at(265, "root"); at(297, "root"); at(329, "0000000\0"s); at(337, "0000000\0"s); } at(148, "        "); unsigned s = 0; for (unsigned char c : h) s += c; at(148, style ? oct(s, 7) + " " : oct(s, 8)); return h; }
static string ours(const std::vector<E>& es, int style) { string t; for (auto& e : es) { bool whole = style && e.name.size() == 100 && rng.below(2); /* fills its field */ if (e.name.size() >= 100 && !whole) t += head("././@LongLink", 'L', e.name.size(), e.m, style) + padded(e.name); if (style && rng.below(4) == 0) t += head("dir/", '5', 0, 5, 1); t += head(e.name.substr(0, whole ? 100 : 99), '0', e.data.size(), e.m, style) + padded(e.data); } return t + string(1024, 0); }
static std::optional<string> rd(const string& t, std::vector<E>& out) { size_t p = 0; string longname; bool have = false; for (;;) { if (p + 512 > t.size()) return "no end of archive"; string h = t.substr(p, 512); if (!h[0]) break; if (h.compare(257, 6, "ustar\0"s)) return "not ustar"; if (h.compare(263, 2, "00")) return "version of the format"; auto num = [&](size_t o, size_t w) { return strtoull(string(h, o, w).c_str(), nullptr, 8); }; unsigned s = 0; for (size_t i = 0; i < 512; i++) s += i >= 148 && i < 156 ? 32 : (unsigned char)h[i]; if (s != num(148, 8)) return "checksum of " + esc(string(h.c_str(), strnlen(h.c_str(), 100))); size_t n = num(124, 12); p += 512; if (p + (n + 511) / 512 * 512 > t.size()) return "entry cut off"; string d = t.substr(p, n); p += (n + 511) / 512 * 512; if (h[156] == 'L') { longname = d; have = true; continue; } if (h[156] != '0') return "entry type"; out.push_back({have ? longname : string(h.c_str(), strnlen(h.c_str(), 100)), d, (time_t)num(136, 12)}); have = false; } for (; p < t.size(); p++) if (t[p]) return "data behind the end"; return std::nullopt; }
static string name() { static const std::vector<string> N = {"a", "b.txt", "dir/file", "\xc3\xa4\xff", "x y", "a.tar.gz"}; switch (rng.below(6)) { case 0: { size_t n = std::vector<size_t>{98, 99, 100, 101, 154, 155, 156, 255, 511, 512, 513, 1024}[rng.below(12)]; string s; for (size_t i = 0; i < n; i++) s += (char)(rng.below(30) ? 'a' + rng.below(26) : 0x80 + rng.below(100)); return s; } case 1: { string s; size_t n = 1 + rng.below(20); while (s.size() < n) s += (char)(1 + rng.below(255)); return lower(s); } default: return pick(N) + (rng.below(2) ? std::to_string(rng.below(5)) : ""); } }
static string content() { static const std::vector<size_t> S = {0, 1, 511, 512, 513, 1023, 1024, 1025, 1536, 2048, 5120, 10240}; size_t n = rng.below(3) ? S[rng.below(S.size())] : rng.below(3000); if (rng.below(40) == 0) n = rng.below(2) ? 131072 * (1 + rng.below(3)) : rng.below(500000); string s(n, 0); int m = rng.below(3); for (auto& c : s) c = m == 0 ? 0 : m == 1 ? (char)rng.next() : "some text to write "[&c - s.data() - (&c - s.data()) / 19 * 19]; return s; }
static string desc(const std::map<string, E>& M) { string d; for (auto& e : M) d += esc(e.first, 60) + ":" + std::to_string(e.second.data.size()) + "@" + std::to_string(e.second.m) + " "; return d; }
static void sameset(VFS::Interface& v, const std::map<string, E>& M, const string& what) { auto l = v.listAll(); expect(l.size() == M.size(), what + ": number of files", [&] { return std::to_string(l.size()) + " want " + std::to_string(M.size()); }); size_t total = 0; for (auto& e : M) { total += e.first.size() + e.second.data.size(); auto r = v.read(e.first); if (!r) { fail(what + ": file missing", esc(e.first)); continue; } expect(r->text() == e.second.data, what + ": content", [&] { return esc(e.first) + " " + std::to_string(r->size()) + " bytes"; }); expect(r->modified == e.second.m, what + ": modification time", [&] { return std::to_string(r->modified) + " want " + std::to_string(e.second.m); }); } auto st = v.stats(); expect(st.totalFiles == M.size() && st.totalSize == total, what + ": stats"); }
static const std::vector<string> EXT = {".tar", ".tar.gz", ".tgz", ".TAR", ".Tar.Gz"};
static void trip() { section("round trip"); VFS::Interface v; std::map<string, E> M; for (size_t n = rng.below(7); n--;) { string k = name(); now_ = rng.below(3) ? rng.below(2000000000) : rng.below(1ll << 33); if (v.read(k)) v.remove(k); string d = content(); v.write(k, d); M[k] = {k, d, now_}; } string x = pick(EXT), p = dir + "/s" + x; bool z = lower(x).ends_with("gz"); hs::begin("save as " + x + " " + desc(M)); if (rng.below(3) == 0) spit(p, string(rng.below(5000), 'j'));
	if (auto e = thrown([&] { v.saveSnapshot(p); })) { fail("save fails", *e); return; } string t = slurp(p); if (z) { bool ok; t = unz(t, ok); expect(ok, "saved file is not one gzip stream"); } std::vector<E> es; if (auto e = rd(t, es)) fail("saved file is not a tar archive", *e); else { std::map<string, E> got; for (auto& y : es) { expect(!got.count(y.name), "file saved twice"); got[y.name] = y; } expect(got.size() == M.size(), "saved number of files"); for (auto& y : M) { auto it = got.find(y.first); expect(it != got.end() && it->second.data == y.second.data && it->second.m == y.second.m, "saved file", [&] { return esc(y.first, 200); }); } }
	sameset(v, M, "after saving"); VFS::Interface w; if (rng.below(2)) { w.write("kept", "k"); now_ = 77; if (!M.count("kept")) M["kept"] = {"kept", "k", w.read("kept")->modified}; for (auto& e : M) if (rng.below(2) && e.first != "kept") w.write(e.first, "old"); } if (auto e = thrown([&] { w.loadSnapshot(p); })) { fail("load fails", *e); return; } sameset(w, M, "loaded"); }
static void foreign() { section("foreign archives"); std::vector<E> es; std::map<string, E> M; for (size_t n = rng.below(6); n--;) { E e{name(), content(), (time_t)rng.below(2000000000)}; es.push_back(e); M[lower(e.name)] = e; } string t = ours(es, rng.below(2)); string x = pick(EXT), p = dir + "/f" + x; bool z = lower(x).ends_with("gz"); if (rng.below(4) == 0) t += string(512 * rng.below(20), 0); spit(p, z ? gz(t, rng.below(10)) : t); hs::begin("load " + x + " " + desc(M)); VFS::Interface v; if (auto e = thrown([&] { v.loadSnapshot(p); })) fail("load fails", *e); else sameset(v, M, "foreign"); }
static void broken() { section("broken archives"); std::vector<E> es; for (size_t n = 1 + rng.below(3); n--;) es.push_back({name(), content().substr(0, 3000), 5}); string t = ours(es, 0); string x = pick(EXT), p = dir + "/b" + x; bool z = lower(x).ends_with("gz"); int how = rng.below(4); string d; bool must = false; size_t end = t.size() - 1024;
	if (how == 0) { size_t c = 1 + rng.below(end - 1); t.resize(c); d = "cut to " + std::to_string(c); } else if (how == 1) { size_t o = rng.below(512); char old = t[o]; t[o] ^= 1 << rng.below(8); must = o > 0 && (o < 148 || o >= 156) && old != t[o]; d = "header byte " + std::to_string(o) + " damaged"; } else if (how == 2) { t = from("ustar\0 0x"s, 3000); d = "junk"; } else { static const std::vector<string> F = {"-0000000001\0"s, "77777777777\0"s, "00000000xx0\0"s, string(12, 0), "            "}; string h = t.substr(0, 512); string f = pick(F); h.replace(124, 12, f); h.replace(148, 8, "        "); unsigned s = 0; for (unsigned char c : h) s += c; h.replace(148, 8, oct(s, 8)); t.replace(0, 512, h); d = "size field " + esc(f); if (f[0] == '7') { return; } }
	string f = z ? gz(t, 6) : t; if (z && rng.below(3) == 0) { size_t c = rng.below(f.size()); f.resize(c); d += ", stream cut to " + std::to_string(c); must = false; } spit(p, f); hs::begin("broken " + x + ": " + d); VFS::Interface v; bool th = (bool)thrown([&] { v.loadSnapshot(p); }); if (must) expect(th, "damaged header accepted"); }
static void badpath() { section("paths"); VFS::Interface v; v.write("a", "b"); for (string x : {"/x.zip", "/x", "/tar", "/x.tarx", "/x.gz.bak", ""}) { hs::begin("unsupported name " + x); expect((bool)thrown([&] { v.saveSnapshot(dir + x); }), "unsupported format accepted"); expect((bool)thrown([&] { v.loadSnapshot(dir + x); }), "unsupported format accepted"); } for (string x : {"/no/such/dir/x.tar", "/missing.tar"}) { hs::begin("missing " + x); expect((bool)thrown([&] { v.loadSnapshot(dir + x); }), "missing file accepted"); } hs::begin("unwritable"); expect((bool)thrown([&] { v.saveSnapshot(dir + "/no/such/dir/x.tar"); }), "save to a missing directory succeeds"); if (!access("/dev/full", W_OK)) { (void)!symlink("/dev/full", (dir + "/full.tar").c_str()); hs::begin("full disk"); expect((bool)thrown([&] { v.saveSnapshot(dir + "/full.tar"); }), "save to a full disk succeeds"); } }
int main() { init(); char b[] = "lvc.XXXXXX"; dir = mkdtemp(b); badpath(); while (more()) { trip(); foreign(); broken(); } std::filesystem::remove_all(dir); return done(); }
