// SRC: core/encoding/hex.cpp core/encoding/url.cpp
#include "h.hpp"
#include <core/encoding/encoding.hpp>
using namespace hs; using namespace Lambda; using std::vector;
static const char* U = "0123456789ABCDEF"; static int hv(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
static const string ESC = "\"'\\/>< %{}|^`:?#[]@!$&()*+,;=";
static string henc(const string& d) { string r; for (unsigned char c : d) { r += U[c >> 4]; r += U[c & 15]; } return r; }
static std::optional<string> hdec(const string& s) { if (s.size() % 2) return {}; string r; for (size_t i = 0; i < s.size(); i += 2) { int a = hv(s[i]), b = hv(s[i + 1]); if (a < 0 || b < 0) return {}; r += (char)(a << 4 | b); } return r; }
static string penc(const string& d) { string r; for (char c : d) { if (ESC.find(c) != string::npos) { r += '%'; r += henc(string(1, c)); } else r += c; } return r; }
static std::optional<string> pdec(const string& s) { string r; for (size_t i = 0; i < s.size(); i++) { if (s[i] != '%') { r += s[i]; continue; } if (i + 2 >= s.size()) return {}; int a = hv(s[i + 1]), b = hv(s[i + 2]); if (a < 0 || b < 0) return {}; r += (char)(a << 4 | b); i += 2; } return r; }
static void e(const string& d) { begin("encode " + esc(d)); vector<uint8_t> v(d.begin(), d.end()); string x = Encoding::toHex(v); same(x, henc(d), "hex-encode"); auto t = thrown([&] { expect(Encoding::fromHex(x) == v, "hex-round-trip"); expect(Encoding::fromHex(lower(x)) == v, "hex-lower-case"); }); expect(!t, "hex-round-trip-throws");
	string p = Encoding::encodeURIComponent(d); same(p, penc(d), "url-encode"); t = thrown([&] { same(Encoding::decodeURIComponent(p), d, "url-round-trip"); }); expect(!t, "url-round-trip-throws"); }
static void d(const string& s) { begin("decode " + esc(s)); { auto w = hdec(s); std::optional<vector<uint8_t>> g; thrown([&] { g = Encoding::fromHex(s); }); if (!w) expect(!g, "hex-accepts-malformed"); else { expect(!!g, "hex-rejects-wellformed"); if (g) same(string(g->begin(), g->end()), *w, "hex-decode"); } }
	{ auto w = pdec(s); std::optional<string> g; thrown([&] { g = Encoding::decodeURIComponent(s); }); if (!w) expect(!g, "url-accepts-malformed"); else { expect(!!g, "url-rejects-wellformed"); if (g) same(*g, *w, "url-decode"); } } }
int main() { init(); section("hex-url");
	for (int c = 0; c < 256; c++) { e(string(1, (char)c)); d(string(1, (char)c) + "0"); d("0" + string(1, (char)c)); d("%" + string(1, (char)c) + "0"); d("%0" + string(1, (char)c)); d("%" + string(1, (char)c)); for (int b = 0; b < 256; b++) e(string{(char)c, (char)b}); }
	all("%aF0g", 6, d);
	while (more()) { e(anybytes(rng.below(10) ? 12 : 300)); string s = rng.below(2) ? henc(anybytes(8)) : penc(anybytes(8)); if (rng.below(2) && s.size()) s[rng.below(s.size())] = (char)rng.below(256); d(s); d(anystr("%09afAFxz", 9)); }
	return done(); }
