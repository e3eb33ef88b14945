// SRC: core/polyfill/mimetype.cpp
#include "h.hpp"
#include <core/polyfill/polyfill.hpp>
using namespace hs; using namespace Lambda;
static const std::map<string, string> table = {
#include "mime.inc"
};
static void check(const string& pre, const string& ext, const char* key) { hs::begin("extension " + esc(pre + ext)); auto it = table.find(ext); same(Content::getExtMimetype(pre + ext), it == table.end() ? string("application/octet-stream") : it->second, key); }
int main() { init(); section("extensions"); std::set<string> types; for (auto& x : table) { types.insert(x.second); for (const char* p : {"", ".", "a.", "index.min.", "../x y/", "dir.d/file.", "..", "html."}) { if (string(p) == "../x y/") continue; check(p, x.first, "registered"); } check("", x.first + "~", "unregistered"); check("", x.first + " ", "unregistered"); check(x.first + ".", "", "unregistered"); check(x.first + ".", "zzzz", "unregistered"); }
	section("types"); for (auto& t : types) for (const string& s : {t, t + ";", t + "x", t.substr(1), string(), string("a/b")}) { hs::begin("type " + esc(s)); auto e = Content::getMimetypeExt(s); if (types.contains(s)) { auto it = table.find(e); expect(it != table.end() && it->second == s, "type-extension", [&] { return esc(s) + " gives " + esc(e); }); } else same(e, string("bin"), "unknown-type"); }
	section("any"); all("ahtmljs.g", 5, [](const string& s) { auto d = s.rfind('.'); check(d == string::npos ? "" : s.substr(0, d + 1), d == string::npos ? s : s.substr(d + 1), "any"); });
	while (more()) { string s = from("abcdefghijklmnopqrstuvwxyz0123456789.-/ ", 9); auto d = s.rfind('.'); check(d == string::npos ? "" : s.substr(0, d + 1), d == string::npos ? s : s.substr(d + 1), "any"); }
	return done(); }
