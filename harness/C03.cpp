// SRC: core/crypto/sha1.cpp
#include "h.hpp"
#include <core/crypto/crypto.hpp>
using namespace hs; using Lambda::Crypto::SHA1; using std::vector;
static string sha1(const string& m) { uint32_t h[5] = {0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0}; string p = m + '\x80'; while (p.size() % 64 != 56) p += '\0'; for (int i = 7; i >= 0; i--) p += (char)((uint64_t)m.size() * 8 >> (8 * i)); auto rol = [](uint32_t x, int n) { return x << n | x >> (32 - n); };
	for (size_t o = 0; o < p.size(); o += 64) { uint32_t w[80]; for (int i = 0; i < 16; i++) { w[i] = 0; for (int k = 0; k < 4; k++) w[i] = w[i] << 8 | (uint8_t)p[o + 4 * i + k]; } for (int i = 16; i < 80; i++) w[i] = rol(w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16], 1); uint32_t a = h[0], b = h[1], c = h[2], d = h[3], e = h[4];
		for (int i = 0; i < 80; i++) { uint32_t f = i < 20 ? (b & c) | (~b & d) : i < 40 ? b ^ c ^ d : i < 60 ? (b & c) | (b & d) | (c & d) : b ^ c ^ d, k = i < 20 ? 0x5A827999 : i < 40 ? 0x6ED9EBA1 : i < 60 ? 0x8F1BBCDC : 0xCA62C1D6, t = rol(a, 5) + f + e + k + w[i]; e = d; d = c; c = rol(b, 30); b = a; a = t; } h[0] += a; h[1] += b; h[2] += c; h[3] += d; h[4] += e; }
	string r; for (auto x : h) for (int k = 3; k >= 0; k--) r += (char)(x >> 8 * k); return r; }
static string str(const vector<uint8_t>& v) { return string(v.begin(), v.end()); }
static string bytes(size_t n) { string s; for (size_t i = 0; i < n; i++) s += (char)rng.next(); return s; }
static void feed(SHA1& h, const string& p) { if (rng.below(2)) h.update(p); else h.update(vector<uint8_t>(p.begin(), p.end())); }
static void parts(const string& d, size_t cut, const char* key) { SHA1 h; string desc; for (size_t i = 0; i <= d.size();) { size_t n = std::min(d.size() - i, (size_t)rng.below(cut + 1)); feed(h, d.substr(i, n)); i += n; if (i == d.size()) break; } same(str(h.digest()), sha1(d), key); }
static void one(const string& d) {
	hs::begin("hash of " + esc(d, 200)); SHA1 h; h.update(d); auto r = h.digest(); same(str(r), sha1(d), "hash"); expect(r.size() == 20, "size");
	parts(d, 1 + rng.below(130), "in-parts"); if (d.size() < 200) parts(d, 1, "byte-by-byte");
	h.reset(); string e = bytes(rng.below(70)); h.update(e); same(str(h.digest()), sha1(e), "after-reset"); h.reset(); same(str(h.digest()), sha1(""), "empty-after-reset");
}
static void copies() { string a = bytes(rng.below(150)), b = bytes(rng.below(150)), c = bytes(rng.below(150)); hs::begin("copies " + esc(a) + " " + esc(b) + " " + esc(c)); SHA1 x; x.update(a); SHA1 y(x); y.update(b); x.update(c); SHA1 z; z.update(b); z = x; z.update(b); SHA1 w(std::move(y)); w = w;
	same(str(x.digest()), sha1(a + c), "copied-from"); same(str(w.digest()), sha1(a + b), "copy"); same(str(z.digest()), sha1(a + c + b), "assigned"); }
int main() { init(); section("sha1");
	for (size_t n = 0; n < 200; n++) { one(string(n, '\0')); one(string(n, '\xff')); one(bytes(n)); }
	for (int i = 0; i < 200; i++) copies();
	while (more()) { one(bytes(rng.below(8) ? rng.below(300) : rng.below(20000))); copies(); }
	return done(); }
