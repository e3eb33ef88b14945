// SRC: core/json/property.cpp core/json/stringify.cpp core/json/parse.cpp core/polyfill/strings.cpp
#include "json.hpp"
using namespace js; using T = J::JSTypes;
template <class F> static bool throws(F f) { try { f(); return false; } catch (const std::exception&) { return true; } }
static void check(const Property& p, const V& v, const char* key) { expect(eq(p, v), key, [&] { return J::stringify(p) + " want " + show(v); });
	bool ok = throws([&] { (void)p.asInt(); }) == (v.k != V::Int) && throws([&] { (void)p.asFloat(); }) == (v.k != V::Flt) && throws([&] { (void)p.asBool(); }) == (v.k != V::Bool) && throws([&] { (void)p.asString(); }) == (v.k != V::Str) && throws([&] { (void)p.asArray(); }) == (v.k != V::Arr) && throws([&] { (void)p.asMap(); }) == (v.k != V::Map); expect(ok, "accessors", [&] { return string(key) + " " + show(v); }); expect(p.isNull() == (v.k == V::Null) && p.isNil() == (v.k == V::Null) && !p.isUndefined(), "kind"); }
static void steps() { std::vector<V> mv; std::vector<Property> pv; string log; for (int i = 0; i < 4; i++) { mv.push_back(rnd(2)); log += show(mv.back()) + "; "; }
	size_t n = 1 + rng.below(10); std::vector<int> op; std::vector<size_t> x, y; std::vector<V> nv; for (size_t i = 0; i < n; i++) { op.push_back(rng.below(6)); x.push_back(rng.below(4)); y.push_back(rng.below(4)); nv.push_back(rnd(2)); log += " " + std::to_string(op[i]) + "(" + std::to_string(x[i]) + "," + std::to_string(y[i]) + ")" + show(nv[i]); }
	hs::begin(log); for (auto& v : mv) pv.push_back(prop(v));
	for (size_t i = 0; i < n; i++) { auto& a = pv[x[i]]; auto& b = pv[y[i]]; auto& ma = mv[x[i]]; auto& mb = mv[y[i]]; switch (op[i]) { case 0: a = b; ma = V(mb); break; case 1: a = prop(nv[i]); ma = nv[i]; break; case 2: { Property c(b); V mc(mb); b = prop(nv[i]); mb = nv[i]; check(c, mc, "copy"); a = c; ma = mc; break; }
			case 3: if (ma.k == V::Arr && ma.a.size()) { size_t k = rng.below(ma.a.size()); V t = ma.a[k]; a = a.asArray()[k]; ma = t; } else if (ma.k == V::Map && ma.m.size()) { string k = ma.m.begin()->first; V t = ma.m.begin()->second; a = a.asMap().at(k); ma = t; } break;
			case 4: { J::Array arr = {a, b}; V t; t.k = V::Arr; t.a = {ma, mb}; a = Property(arr); ma = t; break; } case 5: { J::Map m; m["k"] = b; m["k"] = a; V t; t.k = V::Map; t.m["k"] = ma; b = m; mb = t; break; } }
		for (size_t k = 0; k < 4; k++) check(pv[k], mv[k], "after-steps"); } }
static void simple() { section("constructors"); for (int i = 0; i < 50; i++) { int64_t r = (int64_t)rng.next(); hs::begin("scalars " + std::to_string(r)); expect(Property((int16_t)r).asInt() == (int16_t)r, "int16"); expect(Property((uint16_t)r).asInt() == (uint16_t)r, "uint16"); expect(Property((int32_t)r).asInt() == (int32_t)r, "int32"); uint32_t u = (uint32_t)r; Property pu(u); expect((pu.type() == T::Integer && pu.asInt() >= 0 && (uint32_t)pu.asInt() == u) || (pu.type() == T::Float && pu.asFloat() == u), "uint32", [&] { return std::to_string(u); });
		double d = (double)r / 77; expect(Property(d).asFloat() == d && Property((float)d).asFloat() == (float)d && Property((long double)d).asFloat() == d, "float"); string s = rstr(); expect(Property(s).asString() == s && Property(s.c_str()).asString() == s.c_str(), "string"); expect(Property(true).asBool() && !Property(false).asBool(), "bool"); } Property u; expect(u.isUndefined() && u.isNil() && !u.isNull() && u.type() == T::Undefined && throws([&] { (void)u.asInt(); }) && throws([&] { (void)u.asString(); }), "undefined"); Property n(nullptr); expect(n.isNull() && n.isNil() && !n.isUndefined(), "null"); u = n; expect(u.isNull(), "assigned-null"); Property q(5); q = Property(); expect(q.isUndefined() && throws([&] { (void)q.asInt(); }), "assigned-undefined"); }
int main() { init(); simple(); section("values"); while (more()) { steps(); } simple(); return done(); }
