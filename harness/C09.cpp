// SRC: core/http/auth.cpp core/encoding/*.cpp core/polyfill/strings.cpp
#include "http.hpp"
using namespace hs; using namespace Lambda::HTTP;
static const char* A = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static string enc(const string& d, bool pad = true) { string r; for (size_t i = 0; i < d.size(); i += 3) { uint32_t v = 0; for (int k = 0; k < 3; k++) v = v << 8 | (i + k < d.size() ? (uint8_t)d[i + k] : 0); for (int k = 0; k < 4; k++) { if (i + k > d.size()) { if (pad) r += '='; } else r += A[v >> (18 - 6 * k) & 63]; } } return r; }
static std::optional<string> dec(string s) { size_t p = 0; if (s.size() % 4 == 0) while (p < 2 && p < s.size() && s[s.size() - 1 - p] == '=') p++; s.resize(s.size() - p); if (s.size() % 4 == 1) return {}; string r; uint32_t v = 0; int b = 0; for (char c : s) { const char* q = c ? strchr(A, c) : 0; if (!q) return {}; v = v << 6 | (q - A); b += 6; if (b >= 8) { b -= 8; r += (char)(v >> b); } } return r; }
static void one(const string& h) { begin("header " + esc(h)); std::optional<pair<string, string>> w; size_t sp = h.find(' '); if (sp != string::npos && lower(h.substr(0, sp)) == "basic") { string t = trim(h.substr(sp + 1)); if (t.size()) if (auto d = dec(t)) { size_t c = d->find(':'); if (c != string::npos) w = {d->substr(0, c), d->substr(c + 1)}; } }
	std::optional<pair<string, string>> g; auto t = thrown([&] { auto r = Auth::parseBasicAuth(h); if (r) g = {r->user, r->password}; }); expect(!t, "throws", [&] { return *t; }); if (t) return; expect(!w || g, "rejects-valid"); expect(w || !g, "accepts-invalid"); if (w && g) { same(g->first, w->first, "user"); same(g->second, w->second, "password"); } }
int main() { init(); section("basic-auth");
	for (auto s : {"", "Basic", "Basic ", "Basic  ", "basic dTpw", "BASIC dTpw", "Bearer dTpw", "Basic dTpw ", "Basic\tdTpw", "Basic dTpw dTpw", " Basic dTpw", "Basic dQ==", "Basic dTo=", "Basic OnA=", "Basic Og==", "Basic dTpwOng=", "Basic ????", "Basicx dTpw", "dTpw"}) one(s);
	all("u:", 5, [](const string& c) { one("Basic " + enc(c)); one("bAsIc  " + enc(c, false) + "\t"); });
	while (more()) { string c = rng.below(2) ? anybytes(8) + ":" + anybytes(8) : anystr("ab:", 9); string sch = rng.below(4) ? pick({"Basic", "basic", "BASIC", "bASIC"}) : anystr("Basic ", 7); string h = sch + " " + (rng.below(4) ? "" : from(" \t", 2)) + enc(c, rng.below(4)) + (rng.below(5) ? "" : from(" =A\r\n", 3)); if (rng.below(6) == 0 && h.size()) h[rng.below(h.size())] = (char)rng.below(256); one(h); }
	return done(); }
