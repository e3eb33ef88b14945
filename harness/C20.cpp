// SRC: core/compression/*.cpp
// LIBS: -lz -lbrotlienc -lbrotlidec -lbrotlicommon
#include "h.hpp"
#include <core/compression/compression.hpp>
#include <zlib.h>
#include <brotli/decode.h>
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));
using namespace hs; using namespace Lambda::Compress; using Buf = std::vector<uint8_t>;
static long live = 0; static void onm(const volatile void*, size_t) { live++; } static void onf(const volatile void* p) { if (p) live--; }
static string sum(const Buf& b) { return std::to_string(b.size()) + " bytes #" + std::to_string(fnv(std::string_view((const char*)b.data(), b.size()))); }
static void eq(const Buf& got, const Buf& want, const char* key) { expect(got == want, key, [&] { return "got " + sum(got) + " want " + sum(want); }); }
static Buf gen(size_t n, int mode) { Buf b(n); uint64_t z = rng.next(); for (size_t i = 0; i < n; i++) switch (mode) { case 0: b[i] = 0; break; case 1: b[i] = (uint8_t)rng.next(); break; case 2: b[i] = "the quick brown fox "[i % 20]; break; case 3: b[i] = (uint8_t)((i * z) >> 9); break; default: b[i] = rng.below(50) ? 'a' + rng.below(3) : (uint8_t)rng.next(); } return b; }
static const size_t C = 131072; static const std::vector<size_t> SZ = {0, 1, 2, 17, 100, 1000, 65535, 65536, C - 1, C, C + 1, 2 * C - 1, 2 * C, 2 * C + 1, 3 * C, 4 * C + 7};
static Buf input(string& d, size_t cap = 600000) { size_t n = rng.below(3) ? SZ[rng.below(SZ.size())] : rng.below(rng.below(2) ? 3000 : cap); if (n > cap) n = n % cap; int m = rng.below(5); Buf b = gen(n, m); d = sum(b) + " mode " + std::to_string(m); return b; }
static Buf rawinflate(const Buf& in, int wb, bool& ok, size_t cap) { z_stream s{}; inflateInit2(&s, wb); Buf out(cap + 64); s.next_in = (Bytef*)in.data(); s.avail_in = in.size(); s.next_out = out.data(); s.avail_out = out.size(); ok = inflate(&s, Z_FINISH) == Z_STREAM_END && s.avail_in == 0; out.resize(s.total_out); inflateEnd(&s); return out; }
static const ZlibSetHeader HD[] = {ZlibSetHeader::Gzip, ZlibSetHeader::Defalte, ZlibSetHeader::Raw};
static void oneshot() { section("one call"); string d; Buf in = input(d); int q = rng.below(10), h = rng.below(3); hs::begin("zlib quality " + std::to_string(q) + " header " + std::to_string(h) + " " + d);
	Buf keep = in; Buf z; if (auto e = thrown([&] { z = zlibCompressBuffer(in, (Quality)q, HD[h]); })) { fail("zlib compress fails", *e); return; }
	eq(in, keep, "input changed"); if (in.empty()) { expect(z.empty(), "zlib empty"); } else { bool ok; Buf r = rawinflate(z, h == 0 ? 31 : h == 1 ? 15 : -15, ok, in.size()); expect(ok, "zlib output is not one complete stream of that kind"); eq(r, in, "zlib output decodes to something else"); }
	if (h < 2) { Buf r; if (auto e = thrown([&] { r = zlibDecompressBuffer(z); })) fail("zlib decompress fails", *e); else eq(r, in, "zlib round trip");
		// foreign streams
		if (z.size() > 1) for (int k = 0; k < 3; k++) { Buf t(z.begin(), z.begin() + 1 + rng.below(z.size() - 1)); expect((bool)thrown([&] { zlibDecompressBuffer(t); }), "zlib accepts a cut off stream", [&] { return std::to_string(t.size()) + " of " + std::to_string(z.size()); }); }
		if (z.size() > 20) { Buf t = z; t[10 + rng.below(z.size() - 10)] ^= 1 << rng.below(8); Buf r2; if (!thrown([&] { r2 = zlibDecompressBuffer(t); })) eq(r2, in, "zlib accepts a damaged stream"); } } }
static void brot() { section("brotli"); string d; int q = rng.below(10); Buf in = input(d, q > 5 ? 140000 : 600000); hs::begin("brotli quality " + std::to_string(q) + " " + d); Buf z, r;
	if (auto e = thrown([&] { z = brotliCompressBuffer(in, (Quality)q); })) { fail("brotli compress fails", *e); return; }
	if (in.empty()) expect(z.empty(), "brotli empty"); else { Buf o(in.size() + 64); size_t n = o.size(); auto ok = BrotliDecoderDecompress(z.size(), z.data(), &n, o.data()); o.resize(ok == BROTLI_DECODER_RESULT_SUCCESS ? n : 0); expect(ok == BROTLI_DECODER_RESULT_SUCCESS, "brotli output is not a complete stream"); eq(o, in, "brotli output decodes to something else"); }
	if (auto e = thrown([&] { r = brotliDecompressBuffer(z); })) fail("brotli decompress fails", *e); else eq(r, in, "brotli round trip");
	if (z.size() > 1) { for (int k = 0; k < 3; k++) { Buf t(z.begin(), z.begin() + 1 + rng.below(z.size() - 1)); expect((bool)thrown([&] { brotliDecompressBuffer(t); }), "brotli accepts a cut off stream", [&] { return std::to_string(t.size()) + " of " + std::to_string(z.size()); }); } Buf t = z; size_t g = 1 + (rng.below(2) ? rng.below(10) : rng.below(300000)); t.resize(t.size() + g, 0x5a); expect((bool)thrown([&] { brotliDecompressBuffer(t); }), "brotli accepts data behind the stream", [&] { return std::to_string(g) + " bytes"; }); } }
static void junk() { section("junk"); string s = anybytes(60); if (rng.below(2)) s = "\x1f\x8b\x08\0"s + s; else if (rng.below(2)) s = "\x78\x9c"s + s; Buf b(s.begin(), s.end()); hs::begin("junk " + esc(b)); thrown([&] { zlibDecompressBuffer(b); }); thrown([&] { brotliDecompressBuffer(b); }); try { GzipStreamDecompressor g; g.nextChunk(b); } catch (const std::exception&) {} }
static std::vector<Buf> cut(const Buf& b) { std::vector<Buf> r; size_t p = 0; int style = rng.below(4); while (p < b.size()) { size_t n = style == 0 ? b.size() : style == 1 ? 1 + rng.below(200) : style == 2 ? C : rng.below(2 * C); if (b.size() > 5000 && style == 1) n *= 50; n = std::min(n, b.size() - p); r.push_back(Buf(b.begin() + p, b.begin() + p + n)); p += n; if (rng.below(10) == 0) r.push_back({}); } return r; }
static void stream() { section("stream"); string d; int q = rng.below(10); Buf in = input(d); int fin = rng.below(2); hs::begin("stream quality " + std::to_string(q) + " " + d); Buf z; long before = live; { std::optional<GzipStreamCompressor> c; std::optional<GzipStreamDecompressor> u; if (auto e = thrown([&] {
		c.emplace((Quality)q); if (rng.below(3) == 0) { GzipStreamCompressor o(Quality::Fast); o = std::move(*c); c.emplace(std::move(o)); }
		for (int round = 0; round < 1 + (int)rng.below(2); round++) { if (round) c->reset(); z.clear(); auto put = [&](Buf x) { z.insert(z.end(), x.begin(), x.end()); }; auto ps = cut(in); if (ps.empty()) ps.push_back({}); for (size_t i = 0; i < ps.size(); i++) { Buf k = ps[i]; if (fin && i + 1 == ps.size()) put(c->nextChunk(k, GzipStreamCompressor::StreamFlush::Finish)); else put(c->nextChunk(k)); eq(k, ps[i], "input changed"); } if (!fin) put(c->end()); Buf x{1}; expect((bool)thrown([&] { c->nextChunk(x); }), "chunk accepted behind the end"); expect((bool)thrown([&] { c->end(); }), "ended twice"); }
		bool ok; Buf r = rawinflate(z, 31, ok, in.size()); expect(ok, "stream output is not one complete gzip stream"); eq(r, in, "stream output decodes to something else"); r = zlibDecompressBuffer(z); eq(r, in, "stream read by the one call decoder");
		u.emplace(); if (rng.below(3) == 0) { GzipStreamDecompressor o; o = std::move(*u); u.emplace(std::move(o)); }
		for (int round = 0; round < 1 + (int)rng.below(2); round++) { if (round) u->reset(); Buf out; size_t fed = 0; for (auto& p : cut(z)) { expect(!u->isDone(), "done too early"); if (u->isDone()) break; auto n = u->nextChunk(p); fed += p.size(); out.insert(out.end(), n.begin(), n.end()); expect(u->isDone() == (fed == z.size()), "done exactly at the end"); if (fed == z.size()) break; } eq(out, in, "stream round trip"); Buf x{1}; expect((bool)thrown([&] { u->nextChunk(x); }), "chunk accepted behind the end"); }
	})) fail("stream fails", *e); c.reset(); u.reset(); } Buf().swap(z); (void)before; }
static void leaks() { section("release"); hs::begin("streams release what they hold"); Buf in = gen(5000, 2); auto use = [&] { GzipStreamCompressor c(Quality::Fast); Buf a = c.nextChunk(in); GzipStreamCompressor o(Quality::Max); o = std::move(c); Buf b = o.end(); GzipStreamCompressor p(std::move(o)); GzipStreamDecompressor u, w; u.nextChunk(a); w = std::move(u); w.nextChunk(b); GzipStreamDecompressor v(std::move(w)); zlibDecompressBuffer(zlibCompressBuffer(in, Quality::Good, ZlibSetHeader::Gzip)); brotliDecompressBuffer(brotliCompressBuffer(in, Quality::Good)); thrown([&] { Buf x{1, 2, 3}; zlibDecompressBuffer(x); }); thrown([&] { Buf x{1, 2, 3}; brotliDecompressBuffer(x); }); }; use(); use(); long l0 = live; for (int i = 0; i < 10; i++) use(); expect(live - l0 < 10, "memory is not released", [&] { return std::to_string(live - l0) + " blocks"; }); }
static void bad() { section("quality"); Buf in = gen(100, 2); for (int q : {-100, -1, 10, 11, 99, 1 << 30}) { hs::begin("quality " + std::to_string(q)); expect((bool)thrown([&] { zlibCompressBuffer(in, (Quality)q, ZlibSetHeader::Gzip); }), "zlib accepts a level out of range"); expect((bool)thrown([&] { brotliCompressBuffer(in, (Quality)q); }), "brotli accepts a level out of range"); } }
// output that fills whole chunks exactly, and input that ends with a chunk
static void exact() { section("exact"); for (size_t n : {C - 20, C - 11, C, 2 * C, 3 * C}) for (int q : {0, 6}) { for (int k = -40; k <= 40; k += q ? 8 : 1) { Buf in = gen(n + k, 1); hs::begin("incompressible " + std::to_string(n + k) + " quality " + std::to_string(q)); Buf z; if (auto e = thrown([&] { z = zlibCompressBuffer(in, (Quality)q, ZlibSetHeader::Gzip); eq(zlibDecompressBuffer(z), in, "round trip"); GzipStreamCompressor c((Quality)q); Buf a = c.nextChunk(in), b = c.end(); a.insert(a.end(), b.begin(), b.end()); GzipStreamDecompressor u; eq(u.nextChunk(a), in, "stream round trip"); expect(u.isDone(), "not done"); })) fail("fails on whole chunks", *e); if (!more(0.35)) return; } } }
static void dict() { section("dictionary"); hs::begin("zlib stream with a preset dictionary"); z_stream s{}; deflateInit(&s, 6); deflateSetDictionary(&s, (const Bytef*)"hello", 5); Buf in = gen(100, 2), z(500); s.next_in = in.data(); s.avail_in = in.size(); s.next_out = z.data(); s.avail_out = z.size(); deflate(&s, Z_FINISH); z.resize(s.total_out); deflateEnd(&s); expect((bool)thrown([&] { zlibDecompressBuffer(z); }), "dictionary is not reported"); expect((bool)thrown([&] { GzipStreamDecompressor u; u.nextChunk(z); }), "dictionary is not reported by the stream"); }
int main() { init(); dict(); __sanitizer_install_malloc_and_free_hooks(onm, onf); bad(); leaks(); exact(); while (more()) { oneshot(); brot(); stream(); for (int i = 0; i < 20; i++) junk(); } return done(); }
