// SRC: core/encoding/base64.cpp
#include "h.hpp"
#include <core/encoding/encoding.hpp>
using namespace hs; using namespace Lambda; using std::vector;
static const char* A = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static string enc(const string& d) { string r; for (size_t i = 0; i < d.size(); i += 3) { uint32_t v = 0; for (int k = 0; k < 3; k++) v = v << 8 | (i + k < d.size() ? (uint8_t)d[i + k] : 0); for (int k = 0; k < 4; k++) r += (i + k > d.size()) ? '=' : A[v >> (18 - 6 * k) & 63]; } return r; }
static std::optional<string> dec(string s) { size_t p = 0; if (s.size() % 4 == 0) while (p < 2 && p < s.size() && s[s.size() - 1 - p] == '=') p++; s.resize(s.size() - p); if (s.size() % 4 == 1) return {}; string r; uint32_t v = 0; int b = 0; for (char c : s) { const char* q = c ? strchr(A, c) : 0; if (!q) return {}; v = v << 6 | (q - A); b += 6; if (b >= 8) { b -= 8; r += (char)(v >> b); } } return r; }
static void e(const string& d) { begin("encode " + esc(d)); vector<uint8_t> v(d.begin(), d.end()); string x = Encoding::toBase64(v); same(x, enc(d), "encode"); auto t = thrown([&] { auto y = Encoding::fromBase64(x); expect(y == v, "round-trip", [&] { return esc(x) + " -> " + esc(y); }); }); expect(!t, "round-trip-throws"); }
static void d(const string& s) { begin("decode " + esc(s)); auto w = dec(s); std::optional<vector<uint8_t>> g; auto t = thrown([&] { g = Encoding::fromBase64(s); }); if (!w) expect(!g, "accepts-malformed"); else { expect(!!g, "rejects-wellformed"); if (g) same(string(g->begin(), g->end()), *w, "decode"); } }
int main() { init(); section("base64");
	all(string("\0\x01\x7f\x80\xff", 5), 4, e); all(string("AQ/+=\0-", 7), 5, d);
	for (int a = 0; a < 256; a++) for (int b = 0; b < 256; b++) { e(string{(char)a, (char)b}); if (b % 7 == 0) { e(string{(char)a, (char)b, (char)(a ^ b)}); } }
	for (int c = 0; c < 256; c++) { d("AA" + string(1, (char)c) + "A"); d("AAAA" + string(1, (char)c) + "A=="); d(string(1, (char)c)); }
	while (more()) { e(anybytes(rng.below(10) ? 12 : 300)); string s = enc(anybytes(10)); if (rng.below(2)) { size_t p = rng.below(s.size() + 1); s.insert(p, 1, rng.below(2) ? '=' : (char)rng.below(256)); } if (s.size() && rng.below(2)) s.pop_back(); d(s); d(anystr("AZaz09+/=", 9)); }
	return done(); }
