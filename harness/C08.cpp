// SRC: core/http/url.cpp core/http/urlsearchparams.cpp core/http/kvcontainer.cpp core/polyfill/strings.cpp
#include "http.hpp"
using namespace hs; using namespace Lambda::HTTP;
static void url(const string& s) { begin("url " + esc(s)); auto w = urlOf(s); std::optional<URL> u; auto t = thrown([&] { u.emplace(s); }); if (!w) { expect(!!t, "accepts-malformed"); return; } expect(!t, "rejects-wellformed"); if (!u) return; sameUrl(*u, *w, "parse");
	if (s.find('\0') == string::npos) { URL v(s.c_str()); sameUrl(v, *w, "parse-chars"); }
	auto h = hrefOf(*w); std::optional<string> g; thrown([&] { g = u->href(); }); expect(!!g == !!h, "href-validity"); if (g && h) { same(*g, *h, "href"); if (w->port.find_first_of(":@") == string::npos && w->hostname.find('@') == string::npos && w->protocol.size() && w->protocol[0] != '/') { auto r = urlOf(*g); if (r && w->username.size() && w->password.size()) { URL b(*g); same(b.username, w->username, "href-round-trip"); } std::optional<URL> b; thrown([&] { b.emplace(*g); }); expect(!!b, "href-round-trip"); if (b) { same(b->pathname, w->pathname, "href-round-trip"); sameKV(b->searchParams, w->q, "href-round-trip"); same(b->hostname, w->hostname, "href-round-trip"); } } } }
static void query(const string& s) { begin("query " + esc(s)); auto m = queryOf(s); URLSearchParams p(s); sameKV(p, m, "query"); same(p.stringify(), queryText(m), "stringify"); sameKV(URLSearchParams("?" + p.stringify()), m, "query-round-trip"); }
int main() { init(); section("urls"); 
	for (auto s : {"http://u:p@h:80/p?a=1&a=2&B=c#f", "/", "", "h", "://", "://h", "x://h", "x:///p", "http://h?x=1", "http://h#x", "http://u@h/", "http://u:@h/", "http://:p@h/", "http://h:/", "http://h/#", "http://h/?", "http://h/a#b?c=d", "http://h/a?b=c#", "http://h/?A=x?y=z", "http://u:p:q@h:1:2/x", "/a?b=c&d=e#f#g", "/?x", "/?=x", "/?x="}) url(s);
	all("a:/@?#", 5, [](const string& s) { url("x://" + s); url("/" + s); }); all("a=&?", 6, query); all("aA =&", 4, [](const string& s) { query("?k=v&" + s); });
	while (more()) { string s; if (rng.below(3)) { s = (rng.below(4) ? "http" : from("ht:/", 3)) + "://"; if (rng.below(3) == 0) s += from("u:@", 4) + "@"; s += from("h.:", 5); } if (rng.below(4)) s += "/" + from("ab/", 4); if (rng.below(2)) s += "?" + mix({"a=1", "&", "B=2", "=", "a=3", "?", " "}, "aAb=&? \xff", 7); if (rng.below(3) == 0) s += "#" + from("f#?/", 3); url(s); url(anystr("a:/@?#=&", 14));
		query(mix({"a=1", "&", "B=2", "=", "a=3", "?", " ", "%20", "+"}, "aAb=&? \xff\t", 9)); }
	return done(); }
