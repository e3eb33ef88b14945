// SRC: core/json/*.cpp core/polyfill/strings.cpp
#include "json.hpp"
using namespace js;
static void out(const V& v) { hs::begin("value " + show(v)); section("stringify"); string t = J::stringify(prop(v)); auto r = Rd::read(t); if (!r) { fail("not-json", esc(t)); return; }
	V w = v; std::function<void(V&)> norm = [&](V& x) { if (x.k == V::Flt) {} for (auto& y : x.a) norm(y); for (auto& y : x.m) norm(y.second); }; norm(w); expect(eqv(*r, w), "denotes", [&] { return esc(t) + " is " + show(*r) + " want " + show(v); });
	section("round-trip"); try { auto p = J::parse(t); expect(eq(p, v), "round-trip", [&] { return esc(t); }); } catch (const std::exception& e) { fail("round-trip-throws", esc(t) + " " + e.what()); } }
static void in(V v) { section("parse"); string t = write(v); hs::begin("text " + esc(t)); auto r = Rd::read(t); if (!r || !eqv(*r, v)) { fail("harness", esc(t)); return; } try { auto p = J::parse(t); expect(eq(p, v, true), "parse", [&] { return esc(t) + " gives " + esc(J::stringify(p)) + " want " + show(v); }); } catch (const std::exception& e) { fail("parse-throws", esc(t) + " " + e.what()); } }
static void wild(const string& t) { section("any-text"); hs::begin("any text " + esc(t)); try { auto p = J::parse(t); if (auto r = Rd::read(t)) { expect(eq(p, *r, true), "parse", [&] { return esc(t) + " gives " + esc(J::stringify(p)) + " want " + show(*r); }); } } catch (const std::exception& e) { expect(!Rd::read(t), "parse-throws", [&] { return esc(t) + " " + e.what(); }); } }
int main() { init(); V e; e.k = V::Arr; out(e); in(e); e.k = V::Map; out(e); in(e); for (int c = 0; c < 256; c++) for (const char* f : {"", "\\", "\"", "a"}) { V s; s.k = V::Str; s.s = string(1, (char)c) + f; out(s); s.s = f + string(1, (char)c); out(s); V m; m.k = V::Map; m.m[s.s] = s; out(m); in(m); V a; a.k = V::Arr; a.a = {s, s}; out(a); in(a); }
	all("[]{},:\"\\0-n ", 4, wild); for (auto& s : seeds) { V v; v.k = V::Str; v.s = s; out(v); }
	for (int64_t i : {0, 1, -1, 9, 10, -10, INT32_MAX, INT32_MIN}) { V v; v.k = V::Int; v.i = (int32_t)i; out(v); in(v); }
	for (uint32_t u : {0u, 1u, 65535u, 65536u, 0x7fffffffu, 0x80000000u, 0xffffffffu}) { hs::begin("unsigned " + std::to_string(u)); auto r = Rd::read(J::stringify(Property(u))); expect(r && (r->k == V::Int ? r->i == (int64_t)u : r->k == V::Flt && r->f == u), "unsigned", [&] { return std::to_string(u) + " gives " + J::stringify(Property(u)); }); }
	while (more()) { V v = rnd(4); out(v); in(v); if (rng.below(3) == 0) { string t = write(v); if (t.size()) { t[rng.below(t.size())] = " ,:\"\\[]{}0"[rng.below(10)]; wild(t); } } }
	return done(); }
