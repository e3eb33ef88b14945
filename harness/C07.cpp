// SRC: core/http/request.cpp core/http/response.cpp core/http/cookies.cpp core/http/kvcontainer.cpp core/http/url.cpp core/http/urlsearchparams.cpp core/http/method.cpp core/http/status.cpp core/http/body.cpp core/polyfill/strings.cpp
#include <algorithm>
#include "http.hpp"
using namespace hs; using namespace Lambda::HTTP;
static void sameJar(const Cookies& c, const Jar& j, const string& key) { auto e = c.entries(); vector<pair<string, string>> w(j.begin(), j.end()); expect(e == w, key, [&] { return "got " + show(e) + " want " + show(w); }); expect(c.size() == j.size(), key + "-size"); for (auto& [k, v] : j) { expect(c.has(k) && c.has(upper(k)), key + "-has"); same(c.get(k), v, key + "-get"); same(c.get(upper(k)), v, key + "-get"); } expect(!c.has("absent") && c.get("absent").empty(), key + "-absent"); }
static void sameSet(const Cookies& c, const Queue& q, const string& key) { auto l = c.serialize(), w = setLines(q); std::sort(l.begin(), l.end()); std::sort(w.begin(), w.end()); expect(l == w, key, [&] { return "got " + show(l) + " want " + show(w); }); }
#include <algorithm>
static void parse(const string& s) { begin("parse " + esc(s)); Cookies c(s); sameJar(c, jarOf(s), "parse"); sameSet(c, {}, "parse-queues"); Request r("/"); r.headers.set("Cookie", s); sameJar(r.getCookies(), jarOf(s), "request-cookies"); }
int main() { init(); section("cookies"); parse(""); { Request r("/"); begin("no cookie header"); sameJar(r.getCookies(), {}, "request-cookies"); }
	all("a=; ", 5, parse); all("aB=;", 4, [](const string& s) { parse(s + "; b=1; B=2"); parse("x=1; " + s); });
	vector<string> ks{"user", "USER", "User", "sid", "x_lambda", "", "a"};
	while (more()) { parse(mix({"a=b", "; ", "=", "User=X", "user=y", " ", ";"}, "aA=; \t", 9));
		string log, t = rng.below(2) ? "" : mix({"a=b", "; ", "User=X", "sid=1"}, "aA=; ", 6); log = "from " + esc(t) + ";"; begin(log); Cookies c(t); Jar j = jarOf(t); Queue q; size_t n = rng.below(10);
		for (size_t i = 0; i < n; i++) { string k = rng.below(5) ? pick(ks) : anystr("aAzZ-", 4), v = from("vw=", 3), l = lower(k);
			switch (rng.below(8)) {
				case 0: case 1: log += "set " + esc(k) + esc(v) + ";"; begin(log); c.set(k, v); j[l] = v; q[l] = {v, {}}; break;
				case 2: case 3: { string a = from("SX", 2), b = from("yz", 2), d = from("E", 1); log += "set " + esc(k) + esc(v) + "{" + esc(a) + "," + esc(b) + "=" + esc(d) + "};"; begin(log); if (rng.below(2)) { c.set(k, v, {a, {b, d}}); q[l] = {v, {{a, ""}, {b, d}}}; } else { c.set(k, v, {a.c_str(), {b}, {b, d, "ignored"}}); q[l] = {v, {{a, ""}, {b, ""}, {b, d}}}; } j[l] = v; break; }
				case 4: case 5: { log += "del " + esc(k) + ";"; begin(log); bool had = j.count(l); c.del(k); if (had) { j.erase(l); auto s = c.serialize(); bool ok = false; for (auto& x : s) { string y = lower(x); if (y.starts_with(l + "=;") && (y.find("expires=thu, 01 jan 1970 00:00:00 gmt") != string::npos || y.find("max-age=0") != string::npos)) ok = true; } expect(ok, "delete-expires", [&] { return show(s); }); q.erase(l); q[l] = {"", {{"expires", "Thu, 01 Jan 1970 00:00:00 GMT"}}}; } break; }
				case 6: log += "copy;"; begin(log); { Cookies d(c), e; e = c; sameJar(d, j, "copy"); sameSet(d, q, "copy-queue"); sameJar(e, j, "copy"); sameSet(e, q, "copy-queue"); d.set("zz", "1"); e.del(k); } break;
				default: log += "move;"; begin(log); { Cookies d(std::move(c)); sameJar(d, j, "move"); sameSet(d, q, "move-queue"); c = std::move(d); } }
			expect(c.has(k) == (j.count(l) > 0), "has"); same(c.get(k), j.count(l) ? j[l] : "", "get"); sameJar(c, j, "content"); sameSet(c, q, "queue"); }
		begin("response " + log); Response r; r.headers.append("set-cookie", "first=1"); r.setCookies(c); vector<string> w{"first=1"}; for (auto& x : setLines(q)) w.push_back(x); auto g = r.headers.getAll("Set-Cookie"); std::sort(g.begin(), g.end()); std::sort(w.begin(), w.end()); expect(g == w, "set-cookie-headers", [&] { return "got " + show(g) + " want " + show(w); }); expect(r.headers.size() == 1, "set-cookie-headers");
		string a = from("ab", 2), b = from("v", 1), d = from("ab", 2); begin("pairs " + esc(a) + esc(b) + esc(d)); Response p; p.setCookies({{a, b}, {d, "1"}}); vector<string> z; if (a.size()) z.push_back(b.size() ? a + "=" + b : a); if (d.size()) z.push_back(d + "=1"); expect(p.headers.getAll("set-cookie") == z, "set-cookie-pairs", [&] { return show(p.headers.getAll("set-cookie")); }); }
	return done(); }
