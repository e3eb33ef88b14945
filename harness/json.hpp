// a reference model of JSON values with a strict reader (RFC 8259) and a random writer
#pragma once
#include "h.hpp"
#include <core/json/json.hpp>
#include <cmath>
namespace js {
	using namespace hs; namespace J = Lambda::JSON; using J::Property;
	struct V { enum K { Null, Bool, Int, Flt, Str, Arr, Map } k = Null; bool b = false; int32_t i = 0; long double f = 0; string s; std::vector<V> a; std::map<string, V> m; };
	inline void utf8(string& s, uint32_t c) { if (c < 0x80) s += (char)c; else if (c < 0x800) { s += (char)(0xC0 | c >> 6); s += (char)(0x80 | (c & 63)); } else if (c < 0x10000) { s += (char)(0xE0 | c >> 12); s += (char)(0x80 | (c >> 6 & 63)); s += (char)(0x80 | (c & 63)); } else { s += (char)(0xF0 | c >> 18); s += (char)(0x80 | (c >> 12 & 63)); s += (char)(0x80 | (c >> 6 & 63)); s += (char)(0x80 | (c & 63)); } }
	inline string show(const V& v) { switch (v.k) { case V::Null: return "null"; case V::Bool: return v.b ? "true" : "false"; case V::Int: return std::to_string(v.i); case V::Flt: { char b[6000]; snprintf(b, sizeof b, "%.8Lg", v.f); return string("f") + b; } case V::Str: return esc(v.s);
		case V::Arr: { string r = "["; for (auto& x : v.a) r += (r.size() > 1 ? "," : "") + show(x); return r + "]"; } default: { string r = "{"; for (auto& x : v.m) r += (r.size() > 1 ? "," : "") + esc(x.first) + ":" + show(x.second); return r + "}"; } } }
	inline Property prop(const V& v) { switch (v.k) { case V::Null: return Property(nullptr); case V::Bool: return Property(v.b); case V::Int: return Property(v.i); case V::Flt: return Property(v.f); case V::Str: return Property(v.s);
		case V::Arr: { J::Array a; for (auto& x : v.a) a.push_back(prop(x)); return Property(a); } default: { J::Map m; for (auto& x : v.m) m.insert({x.first, prop(x.second)}); return Property(m); } } }
	inline bool close(long double a, long double b) { return a == b || std::fabs(a - b) <= std::max(5.01e-7L, std::fabs(b) * 5e-19L); }
	inline bool eq(const Property& p, const V& v, bool exact = false) { using T = J::JSTypes; switch (v.k) { case V::Null: return p.type() == T::Null && p.isNull() && p.isNil() && !p.isUndefined(); case V::Bool: return p.type() == T::Boolean && p.asBool() == v.b; case V::Int: return p.type() == T::Integer && p.asInt() == v.i; case V::Flt: return p.type() == T::Float && (exact ? p.asFloat() == v.f : close(p.asFloat(), v.f)); case V::Str: return p.type() == T::String && p.asString() == v.s;
		case V::Arr: { if (p.type() != T::Array || p.asArray().size() != v.a.size()) return false; for (size_t i = 0; i < v.a.size(); i++) if (!eq(p.asArray()[i], v.a[i], exact)) return false; return true; }
		default: { if (p.type() != T::Map || p.asMap().size() != v.m.size()) return false; for (auto& x : v.m) { auto q = p.asMap().find(x.first); if (q == p.asMap().end() || !eq(q->second, x.second, exact)) return false; } return true; } } }
	inline bool eqv(const V& a, const V& b) { if (a.k != b.k) return false; switch (a.k) { case V::Null: return true; case V::Bool: return a.b == b.b; case V::Int: return a.i == b.i; case V::Flt: return close(a.f, b.f); case V::Str: return a.s == b.s; case V::Arr: if (a.a.size() != b.a.size()) return false; for (size_t i = 0; i < a.a.size(); i++) if (!eqv(a.a[i], b.a[i])) return false; return true; default: if (a.m.size() != b.m.size()) return false; for (auto& x : a.m) { auto q = b.m.find(x.first); if (q == b.m.end() || !eqv(q->second, x.second)) return false; } return true; } }
	struct Rd { std::string_view s; size_t i = 0; struct Bad {}; void ws() { while (i < s.size() && strchr(" \t\n\r", s[i]) && s[i]) i++; } char at() { if (i >= s.size()) throw Bad{}; return s[i]; } void want(char c) { if (at() != c) throw Bad{}; i++; } bool lit(const char* w) { size_t n = strlen(w); if (s.substr(i, n) == w) { i += n; return true; } return false; }
		uint32_t hex4() { uint32_t r = 0; for (int k = 0; k < 4; k++) { char c = at(); if (!isxdigit((unsigned char)c)) throw Bad{}; r = r * 16 + (isdigit((unsigned char)c) ? c - '0' : (c | 32) - 'a' + 10); i++; } return r; }
		string str() { want('"'); string r; for (;;) { unsigned char c = at(); i++; if (c == '"') return r; if (c < 32) throw Bad{}; if (c != '\\') { r += c; continue; } c = at(); i++; switch (c) { case '"': case '\\': case '/': r += c; break; case 'n': r += '\n'; break; case 'r': r += '\r'; break; case 't': r += '\t'; break; case 'b': r += '\b'; break; case 'f': r += '\f'; break; case 'u': { uint32_t u = hex4(); if (u >= 0xDC00 && u < 0xE000) throw Bad{}; if (u >= 0xD800 && u < 0xDC00) { want('\\'); want('u'); uint32_t l = hex4(); if (l < 0xDC00 || l > 0xDFFF) throw Bad{}; u = 0x10000 + ((u - 0xD800) << 10) + (l - 0xDC00); } utf8(r, u); break; } default: throw Bad{}; } } }
		V val() { ws(); V v; char c = at(); if (c == '"') { v.k = V::Str; v.s = str(); } else if (c == '[') { v.k = V::Arr; i++; ws(); if (at() == ']') i++; else for (;;) { v.a.push_back(val()); ws(); if (at() == ',') i++; else { want(']'); break; } } } else if (c == '{') { v.k = V::Map; i++; ws(); if (at() == '}') i++; else for (;;) { ws(); string k = str(); ws(); want(':'); v.m[k] = val(); ws(); if (at() == ',') i++; else { want('}'); break; } } }
			else if (lit("true")) { v.k = V::Bool; v.b = true; } else if (lit("false")) v.k = V::Bool; else if (lit("null")) v.k = V::Null; else { size_t b = i; if (at() == '-') i++; if (at() == '0') i++; else { if (!isdigit((unsigned char)at())) throw Bad{}; while (i < s.size() && isdigit((unsigned char)s[i])) i++; } bool fl = false; if (i < s.size() && s[i] == '.') { fl = true; i++; if (!isdigit((unsigned char)at())) throw Bad{}; while (i < s.size() && isdigit((unsigned char)s[i])) i++; } if (i < s.size() && (s[i] | 32) == 'e') { fl = true; i++; if (at() == '+' || at() == '-') i++; if (!isdigit((unsigned char)at())) throw Bad{}; while (i < s.size() && isdigit((unsigned char)s[i])) i++; }
				string n(s.substr(b, i - b)); long double x = strtold(n.c_str(), 0); if (!fl && x >= -2147483648.0L && x <= 2147483647.0L) { v.k = V::Int; v.i = (int32_t)x; } else { v.k = V::Flt; v.f = x; } } ws(); return v; }
		static std::optional<V> read(std::string_view t) { Rd r{t}; try { V v = r.val(); r.ws(); if (r.i != t.size()) return {}; return v; } catch (Bad) { return {}; } } };
	inline string rstr() { static const string al("ab\"\\/,:[]{} \n\t\r\b\f\x01\x1f\x7fnrtu0\xc3\xa9"); string s; size_t n = rng.below(4) ? rng.below(6) : rng.below(20); for (size_t i = 0; i < n; i++) s += rng.below(20) ? al[rng.below(al.size())] : (char)rng.below(256); return s; }
	inline V rnd(int d) { V v; switch (rng.below(d > 0 ? 9 : 6)) { case 0: v.k = V::Null; break; case 1: v.k = V::Bool; v.b = rng.below(2); break; case 2: v.k = V::Int; v.i = rng.below(3) ? (int)rng.below(200) - 100 : (int32_t)rng.next(); if (rng.below(20) == 0) v.i = rng.below(2) ? INT32_MIN : INT32_MAX; break; case 3: v.k = V::Flt; v.f = ((long double)(int64_t)rng.next()) / (rng.below(2) ? 1e15L : rng.below(2) ? 1e6L : rng.below(3) ? 1.0L : 1e-20L); break; case 4: case 5: v.k = V::Str; v.s = rstr(); break;
		case 6: case 7: { v.k = V::Arr; size_t n = rng.below(4); for (size_t i = 0; i < n; i++) v.a.push_back(rnd(d - 1)); break; } default: { v.k = V::Map; size_t n = rng.below(4); for (size_t i = 0; i < n; i++) v.m[rstr()] = rnd(d - 1); } } return v; }
	inline string ws() { string s; while (rng.below(4) == 0) s += " \t\n\r"[rng.below(4)]; return s; }
	inline string hex4(uint32_t u) { char b[8]; snprintf(b, 8, rng.below(2) ? "%04x" : "%04X", u); return b; }
	inline string wstr(const string& s, string* real) { string r = "\""; for (unsigned char c : s) { *real += c; switch (c) { case '"': r += "\\\""; break; case '\\': r += "\\\\"; break; case '\n': r += "\\n"; break; case '\r': r += "\\r"; break; case '\t': r += "\\t"; break; case '\b': r += "\\b"; break; case '\f': r += "\\f"; break; case '/': r += rng.below(2) ? "\\/" : "/"; break; default: if (c < 32 || (c < 128 && rng.below(12) == 0)) r += "\\u" + hex4(c); else r += c; } if (rng.below(12) == 0) { static const uint32_t us[] = {0x80u, 0xe9u, 0x7ffu, 0x800u, 0xd7ffu, 0xe000u, 0xffffu, 0x10000u, 0x1f600u, 0x10ffffu}; uint32_t u = us[rng.below(10)]; utf8(*real, u); if (u < 0x10000) r += "\\u" + hex4(u); else r += "\\u" + hex4(0xD800 + ((u - 0x10000) >> 10)) + "\\u" + hex4(0xDC00 + ((u - 0x10000) & 0x3ff)); } } return r + "\""; }
	// writes v as JSON in a random way; v is changed to what was written
	inline string write(V& v) { string r = ws(); switch (v.k) { case V::Null: r += "null"; break; case V::Bool: r += v.b ? "true" : "false"; break; case V::Int: r += std::to_string(v.i); break; case V::Flt: { char b[64]; switch (rng.below(4)) { case 0: snprintf(b, 64, "%.3Lf", v.f); break; case 1: snprintf(b, 64, "%.5Le", v.f); break; case 2: snprintf(b, 64, "%.0LfE+2", std::round(v.f)); break; default: { long double x = std::floor(std::fabs(v.f)) + 3e9L; snprintf(b, 64, "%s%.0Lf", v.f < 0 ? "-" : "", x); } } r += b; v.f = strtold(b, 0); break; } case V::Str: { string x; r += wstr(v.s, &x); v.s = x; break; }
		case V::Arr: { r += "["; bool f = true; for (auto& x : v.a) { if (!f) r += ","; f = false; r += write(x); } r += ws() + "]"; break; } default: { r += "{"; bool f = true; std::map<string, V> m; for (auto& x : v.m) { if (!f) r += ","; f = false; string k; if (rng.below(6) == 0) { string t = wstr(x.first, &k); V o = rnd(1); r += ws() + (rng.below(2) ? t : (k = "", wstr(x.first, &k))) + ws() + ":" + write(o) + ","; m[k] = o; k = ""; } r += ws() + wstr(x.first, &k) + ws() + ":"; r += write(x.second); m[k] = x.second; } v.m = m; r += ws() + "}"; } } return r + ws(); }
}
