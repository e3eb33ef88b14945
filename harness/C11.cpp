// SRC: core/**/*.cpp
// LIBS: -lz -lbrotlienc -lbrotlidec -lbrotlicommon
#include "tp.hpp"
using namespace tp;
static string aTarget() { return pick({"/", "/index.html", "/a/b", "*", "x", "", "//"}) + (rng.below(2) ? "?" + mix({"a=1", "b=2", "a=3", "&", "=", "?", "c=%20"}, "abc=&", 5) : "") + (rng.below(4) ? "" : "#" + from("ab?#", 3)); }
static string aRequest(bool big, size_t limit) {
	string m = pick({"GET", "GET", "POST", "POST", "PUT", "HEAD", "DELETE", "get", "OPTIONS", "FOO", ""}), s = rng.below(12) ? m + " " + aTarget() + (rng.below(8) ? " HTTP/1.1" : "") : mix({"GET", " ", "/", "\t"}, "ab", 4);
	string body; size_t n = rng.below(3) ? 0 : big ? rng.below(200000) : rng.below(rng.below(2) ? 12 : 300); if (n && rng.below(3)) body.assign(n, 0), [&] { for (auto& c : body) c = "\r\n ab\x80\xff\0:"[rng.below(9)]; }(); else body = string(n, 'b');
	s += "\r\n"; for (size_t i = rng.below(4); i--;) s += rng.below(20) ? pick({"Host: example.com:8080", "host:x", "Host: ", "X-A: 1", "x-a:2", "X-B:  a: b ", "Accept: */*", "Authorization: Basic dTpw", "authorization: basic dTo6cA==", "Authorization: Bearer x", "Cookie: a=b", "Connection: keep-alive", "Empty:", "Content-Type: text/plain", "X-Q: a,b; c=\"d\""}) + "\r\n" : pick({"nocolon", ": v", " : v", "a\tb:c", ":", "a:\r\r"}) + "\r\n";
	if (body.size() || !rng.below(5)) s += pick({"Content-Length: ", "content-length:", "CONTENT-LENGTH:   "}) + (rng.below(14) ? std::to_string(body.size()) : pick({"", "-1", "+3", "0x10", "1 2", "99999999999999999999999", "18446744073709551615", "18446744073709551616", "18446744073709551617", "007", "3a", std::to_string(body.size() + 1), std::to_string(limit)})) + "\r\n";
	s += "\r\n" + body; if (!rng.below(10) && s.size()) s[rng.below(std::min<size_t>(s.size(), 60))] = "\r\n :?#\0a"[rng.below(8)]; return s; }
static void stream() {
	Conn c; LT::TransportOptions o; bool big = !rng.below(40); o.maxRequestSize = big ? 150000 : rng.below(4) ? 4000 : 40 + rng.below(400); o.reuseConnections = true; o.useCompression = rng.below(2);
	size_t n = 1 + rng.below(4); for (size_t i = 0; i < n; i++) c.f.in += aRequest(big, o.maxRequestSize); if (!rng.below(4)) c.f.in += aRequest(false, 100).substr(0, rng.below(60)); c.segments(); if (big && c.f.cuts.size()) for (auto& x : c.f.cuts) x += 3000;
	const string S = c.f.in; begin("max " + std::to_string(o.maxRequestSize) + " cuts " + c.cutText() + " " + esc(S, 700));
	LT::TransportContextV1 t(*c.c, o); size_t at = 0; longest = 0; bool ans = rng.below(2);
	for (size_t k = 0; k < 8; k++) {
		Req w; int r = parse(S, at, o.maxRequestSize, c.port, w); bool got = false; auto ex = thrown([&] { got = t.awaitNext(); });
		if (r) { expect(!got, "accepted-bad-request", [&] { auto q = t.nextRequest(); return "request " + std::to_string(k) + " " + q.request.method.toString() + " " + q.request.url.pathname + " body " + esc(q.request.body.text()); }); if (r == 1 && !ex && S.find("\r\n\r\n", at) == string::npos) { std::vector<uint8_t> raw; bool had = t.hasPartialData(); expect(had == (at < S.size()), "partial-data"); auto e2 = thrown([&] { raw = t.readRaw(1); }); if (at < S.size() && !e2) same(string(raw.begin(), raw.end()), S.substr(at), "partial-lost"); } return; }
		if (ex || !got) { fail("refused-good-request", "request " + std::to_string(k) + (ex ? " threw " + *ex : " reported none")); return; }
		if (rng.below(3) == 0) { bool g2 = false; auto e2 = thrown([&] { g2 = t.awaitNext(); }); expect(!e2 && g2, "pending-forgotten"); }
		bool conn_ = get(w.h, "connection").empty() || lower(get(w.h, "connection")).find("keep-alive") != string::npos; if (k && !conn_) conn_ = lower(get(w.h, "connection")).find("close") == string::npos;
		try { auto q = t.nextRequest(); sameReq(q.request, w, "request"); expect(q.id.toString().size() == 8, "request-id"); expect(!!thrown([&] { t.nextRequest(); }), "handed-out-twice"); if (ans && k % 2) t.respond({HTTP::Response(200, "ok"), q.id}); } catch (const std::exception& e) { fail("threw", e.what()); return; }
		at = w.end; if (!conn_) { bool g = true; thrown([&] { g = t.awaitNext(); }); expect(!g, "request-after-close"); return; } } }
static void rawread() { Conn c; LT::TransportOptions o; string head = "GET / HTTP/1.1\r\n\r\n", rest = anybytes(60); c.f.in = head + rest; c.segments(); begin("raw " + c.cutText() + esc(rest)); LT::TransportContextV1 t(*c.c, o); try { if (!t.awaitNext()) { fail("raw-request", ""); return; } t.nextRequest(); t.writeRaw({1, 2, 3}); expect(c.f.out == "\x01\x02\x03", "raw-write"); string got; for (int i = 0; i < 200 && got.size() < rest.size(); i++) { auto v = rng.below(2) ? t.readRaw() : t.readRaw(1 + rng.below(10)); if (v.empty()) break; got.append(v.begin(), v.end()); } same(got, rest, "raw-bytes"); t.reset(); expect(!t.hasPartialData(), "reset"); } catch (const std::exception& e) { fail("raw-threw", e.what()); } }
int main() { init(); section("raw"); for (int i = 0; i < 200; i++) rawread(); section("requests"); do stream(); while (more()); return done(); }
