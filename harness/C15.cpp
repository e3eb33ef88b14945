// SRC: core/**/*.cpp
// LIBS: -lz -lbrotlienc -lbrotlidec -lbrotlicommon
#include "h.hpp"
#include "res.hpp"
#include <core/websocket/transport.hpp>
using namespace hs; using namespace Lambda::Websocket; namespace T = Lambda::Websocket::Transport;

typedef std::vector<uint8_t> V;
struct H { uint8_t fin, op; size_t size, payload; bool masked; uint8_t mask[4]; };
static std::optional<H> refParse(const V& b) { if (b.size() < 2) return {}; H h{}; h.fin = b[0] & 0x80; h.op = b[0] & 15; h.masked = b[1] & 0x80; size_t l = b[1] & 127, n = l == 126 ? 2 : l == 127 ? 8 : 0; h.size = 2 + n; if (b.size() < h.size) return {};
	h.payload = l; if (n) { h.payload = 0; for (size_t i = 0; i < n; i++) h.payload = h.payload * 256 + b[2 + i]; } if (h.masked) { if (b.size() < h.size + 4) return {}; for (int i = 0; i < 4; i++) h.mask[i] = b[h.size + i]; h.size += 4; } return h; }
static V refHead(uint8_t fin, uint8_t op, uint64_t n) { V r{(uint8_t)(fin | op)}; if (n < 126) r.push_back(n); else if (n < 65536) { r.push_back(126); r.push_back(n >> 8); r.push_back(n); } else { r.push_back(127); for (int i = 7; i >= 0; i--) r.push_back(n >> (8 * i)); } return r; }
static void parse(const V& b) { begin(esc(b)); auto w = refParse(b); T::FrameHeader g{}; V c = b; auto t = thrown([&] { g = T::parseFrameHeader(b); }); expect(c == b, "input-changed"); expect(!!t == !w, "parse-throws", [&] { return t ? *t : string("accepted a truncated header"); }); if (t || !w) return;
	expect((uint8_t)g.finbit == w->fin, "fin"); expect((uint8_t)g.opcode == w->op, "opcode"); expect(g.size == w->size, "header-size", [&] { return std::to_string(g.size); }); expect(g.payloadSize == w->payload, "payload-size", [&] { return std::to_string(g.payloadSize) + " want " + std::to_string(w->payload); });
	expect(g.mask.has_value() == w->masked, "mask-present"); if (w->masked && g.mask) for (int i = 0; i < 4; i++) expect((*g.mask)[i] == w->mask[i], "mask-bytes"); }
static void ser(uint8_t fin, uint8_t op, uint64_t n) { begin(std::to_string(fin) + " " + std::to_string(op) + " " + std::to_string(n)); T::FrameHeader h{(T::FrameControlBits)fin, (T::OpCode)op, (size_t)rng.below(20), (size_t)n, std::nullopt}; V g; auto t = thrown([&] { g = T::serializeFrameHeader(h); }); expect(!t, "ser-throws"); if (!t) { same(g, refHead(fin, op, n), "header"); parse(g); } }
static void msg(const V& d) { string s(d.begin(), d.end()); for (int k = 0; k < 8; k++) { bool p = rng.below(2), b = rng.below(2); begin(std::to_string(k) + esc(d)); auto m = k == 0 ? Message(s) : k < 3 ? Message(s, p) : k == 3 ? Message(d) : k < 6 ? Message(d, p) : Message(d, b, p); bool bin = k < 3 ? false : k < 6 ? true : b, par = k == 0 || k == 3 ? false : p;
		same(m.data, d, "message-data"); expect(m.binary == bin, "message-binary"); expect(m.partial == par, "message-partial"); expect(m.size() == d.size(), "message-size"); same(m.text(), s, "message-text");
		V w = refHead(par ? 0 : 0x80, bin ? 2 : 1, d.size()); w.insert(w.end(), d.begin(), d.end()); V g; auto t = thrown([&] { g = T::serializeMessage(m); }); expect(!t, "message-throws"); same(g, w, "message-bytes"); } }
int main() { init(); section("parse"); for (int a = 0; a < 256; a++) for (int b = 0; b < 256; b++) if (thorough || a % 17 == b % 17 || b > 120) { V v{(uint8_t)a, (uint8_t)b}; parse(v); v.resize(14, 7); parse(v); }
	V full{0x81, 0xff, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13}; for (int b : {5, 126, 127, 133, 254, 255}) for (size_t n = 0; n <= full.size(); n++) { V v(full.begin(), full.begin() + n); if (n > 1) v[1] = b; parse(v); for (auto& x : v) if (&x > &v[0] + 1) x = 0xff - x; parse(v); }
	section("header"); for (uint8_t f : {0, 0x80}) for (uint8_t o = 0; o < 16; o++) for (uint64_t n : {0ull, 1ull, 2ull, 124ull, 125ull, 126ull, 127ull, 128ull, 255ull, 256ull, 65534ull, 65535ull, 65536ull, 65537ull, 1ull << 24, (1ull << 31) - 1, 1ull << 31, 1ull << 32, 0x0102030405060708ull, 0x7fffffffffffffffull}) ser(f, o, n);
	section("messages"); for (size_t n : {0, 1, 125, 126, 127, 255, 256, 65535, 65536, 70000}) { V d(n); for (auto& x : d) x = rng.next(); msg(d); }
	while (more()) { section("parse"); V v; size_t n = rng.below(18); for (size_t i = 0; i < n; i++) v.push_back(rng.next()); if (n > 1 && rng.below(2)) v[1] |= 126; parse(v); section("header"); ser(rng.below(2) * 0x80, rng.below(16), rng.next() >> rng.below(64) >> 1); section("messages"); string s = anybytes(300); msg(V(s.begin(), s.end())); }
	return done(); }
