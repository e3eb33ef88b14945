// SRC: core/http/request.cpp core/http/response.cpp core/http/cookies.cpp core/http/kvcontainer.cpp core/http/url.cpp core/http/urlsearchparams.cpp core/http/method.cpp core/http/status.cpp core/http/body.cpp core/polyfill/strings.cpp
#include "http.hpp"
using namespace hs; using namespace Lambda::HTTP;
static void sb(const BodyBuffer& b, const string& w, const string& k) { same(b.text(), w, k); same((string)b, w, k); expect(b.size() == w.size(), k + "-size"); same(string(b.buffer().begin(), b.buffer().end()), w, k + "-bytes"); }
static void body(const string& s) { begin("body " + esc(s)); vector<uint8_t> v(s.begin(), s.end()); BodyBuffer a(s), b(v), z; sb(a, s, "body"); sb(b, s, "body"); sb(z, "", "body-default"); BodyBuffer c(a); sb(c, s, "body-copy"); c = "x"; sb(a, s, "body-shares"); z = s; sb(z, s, "body-assign"); z = v; sb(z, s, "body-assign"); z = string("tail") ; sb(z, "tail", "body-assign"); string t = s.c_str(); sb(BodyBuffer(s.c_str()), t, "body-chars"); z = s.c_str(); sb(z, t, "body-chars"); z = a; sb(z, s, "body-assign"); }
int main() { init(); section("messages"); body(""); body(string(1, '\0')); body(string("a\0b", 3)); body(string(70000, 'q'));
	while (more(0.6)) { string s = anybytes(rng.below(8) ? 12 : 400); body(s);
		uint32_t code = (uint32_t)rng.below(1000); string tx = from("ab ", 4), k = from("aB", 3), v = from("vw", 3); begin("response " + std::to_string(code) + esc(tx) + esc(k) + esc(v) + esc(s)); Status st(code, tx); Headers h; h.append(k, v); h.append("n", "1"); h.append(k, "2"); KV m; m[lower(k)].push_back(v); m["n"].push_back("1"); m[lower(k)].push_back("2"); BodyBuffer b(s);
		auto chk = [&](const Response& r, bool s1, bool h1, bool b1, const string& n) { expect(r.status.code() == (s1 ? code : 200u), n + "-status"); same(r.status.text(), s1 ? tx : string("OK"), n + "-status"); sameKV(r.headers, h1 ? m : KV{}, n + "-headers"); sb(r.body, b1 ? s : "", n + "-body"); };
		chk(Response(), 0, 0, 0, "response0"); chk(Response(st), 1, 0, 0, "response1"); chk(Response(st, h), 1, 1, 0, "response2"); chk(Response(st, b), 1, 0, 1, "response3"); chk(Response(st, h, b), 1, 1, 1, "response4"); chk(Response(b), 0, 0, 1, "response5"); { Response r(st, h, b); Response q(r); chk(q, 1, 1, 1, "response-copy"); q.headers.del("n"); q.body = ""; chk(r, 1, 1, 1, "response-copy"); Response w(std::move(q)); }
		string u = pick({"/", "/a?b=c#d", "http://h/p", "http://u:p@h:1/x?A=b&a=c"}), me = pick({"POST", "get", "DELETE", "HEAD"}); begin("request " + u + " " + me + esc(s)); Method mm(me); auto wu = *urlOf(u);
		auto rq = [&](const Request& r, bool m1, bool h1, bool b1, const string& n) { sameUrl(r.url, wu, n + "-url"); expect(r.method == (m1 ? mm : Method()), n + "-method"); sameKV(r.headers, h1 ? m : KV{}, n + "-headers"); sb(r.body, b1 ? s : "", n + "-body"); };
		rq(Request(u), 0, 0, 0, "request1"); rq(Request(u, mm), 1, 0, 0, "request2"); rq(Request(u, h), 0, 1, 0, "request3"); rq(Request(u, mm, b), 1, 0, 1, "request4"); rq(Request(u, mm, h, b), 1, 1, 1, "request5"); expect(!!thrown([&] { Request r("no-scheme"); }), "request-bad-url"); }
	return done(); }
