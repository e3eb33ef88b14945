// SRC: core/utils/byteswap.cpp core/crypto/uid.cpp core/encoding/*.cpp core/polyfill/strings.cpp
#include "h.hpp"
#include <core/utils/utils.hpp>
#include <core/crypto/crypto.hpp>
using namespace hs; using namespace Lambda;
template <class T> static T rev(T v) { unsigned char b[sizeof v], r[sizeof v]; memcpy(b, &v, sizeof v); for (size_t i = 0; i < sizeof v; i++) r[i] = b[sizeof v - 1 - i]; memcpy(&v, r, sizeof v); return v; }
template <class T> static void sw(uint64_t x, const char* n) { T v = (T)x; begin(string(n) + " " + std::to_string(v)); T g = Bits::netwnormx(v); expect(g == rev(v), string("net-order-") + n, [&] { return "got " + std::to_string(g); }); expect(Bits::netwnormx(g) == v, string("net-order-round-trip-") + n); expect(Bits::storenormx(v) == v, string("store-order-") + n); }
static void all6(uint64_t x) { sw<int16_t>(x, "i16"); sw<uint16_t>(x, "u16"); sw<int32_t>(x, "i32"); sw<uint32_t>(x, "u32"); sw<int64_t>(x, "i64"); sw<uint64_t>(x, "u64"); }
static string text(uint32_t v) { unsigned char b[4]; memcpy(b, &v, 4); string r; char t[3]; for (int i = 0; i < 4; i++) { snprintf(t, 3, "%02x", b[i]); r += t; } return r; }
static void id(uint32_t v) { begin("id " + std::to_string(v)); using Crypto::ShortID; ShortID a(v); expect(a.id() == v, "id-value"); same(a.toString(), text(v), "id-text"); ShortID b(a); expect(b.id() == v, "id-copy"); same(b.toString(), text(v), "id-copy-text"); ShortID c(v + 1); c = a; expect(c.id() == v, "id-assign"); same(c.toString(), text(v), "id-assign-text"); expect(a.id() == v && a.toString() == text(v), "id-source-changed"); ShortID m(std::move(b)); expect(m.id() == v, "id-move"); same(m.toString(), text(v), "id-move-text"); c.update(~v); expect(c.id() == ~v, "id-update"); same(c.toString(), text(~v), "id-update-text"); c.update(); same(c.toString(), text(c.id()), "id-random-text"); ShortID r; same(r.toString(), text(r.id()), "id-fresh-text"); }
int main() { init(); section("byteorder");
	for (int k = 0; k < 64; k++) { all6(1ull << k); all6(~(1ull << k)); all6((1ull << k) - 1); all6(0xffull << k); all6(0x80ull << k); id((uint32_t)(0xffull << k)); id(1u << (k & 31)); }
	section("shortid"); for (uint32_t v = 0; v < 70000; v += 251) { id(v); id(v * 65537u); all6(v); }
	while (more(0.4)) { uint64_t x = rng.next(); all6(x); all6(x >> (x & 63)); id((uint32_t)x); }
	return done(); }
