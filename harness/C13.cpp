// SRC: core/**/*.cpp
// LIBS: -lz -lbrotlienc -lbrotlidec -lbrotlicommon
#include "tp.hpp"
using namespace tp;
static void session() {
	Conn c; LT::TransportOptions o; o.reuseConnections = rng.below(4); size_t n = 1 + rng.below(5); std::vector<string> asks, says; int fd = c.f.fd;
	for (size_t i = 0; i < n; i++) { asks.push_back(rng.below(2) ? "" : pick({"keep-alive", "close", "Keep-Alive", "CLOSE", "upgrade", "keep-alive, upgrade", "Upgrade, close"})); says.push_back(rng.below(3) ? "" : pick({"close", "keep-alive", "Close", "upgrade", "Keep-Alive"})); c.f.in += "GET / HTTP/1.1\r\n" + (asks[i].empty() ? "" : "Connection: " + asks[i] + "\r\n") + "\r\n"; }
	begin((o.reuseConnections ? "reuse " : "no reuse ") + show(asks) + show(says)); c.f.hold = false; LT::TransportContextV1 t(*c.c, o); int state = 0; auto has = [](const string& s, const char* w) { return lower(s).find(w) != string::npos; };
	for (size_t i = 0; i < n; i++) { bool got = false; auto e = thrown([&] { got = t.awaitNext(); }); if (e || !got) { fail("no-request", std::to_string(i) + e.value_or("")); return; }
		if (!o.reuseConnections) state = 2; else if (state == 0) state = asks[i].empty() || has(asks[i], "keep-alive") ? 1 : 2; else if (has(asks[i], "close")) state = 2;
		expect(t.isConnected(), "closed-before-response"); auto q = t.nextRequest(); c.f.out.clear(); HTTP::Response r(200, "x"); if (says[i].size()) r.headers.set("connection", says[i]); auto e2 = thrown([&] { t.respond({r, q.id}); }); if (e2) { fail("respond-threw", *e2); return; }
		if (says[i].size()) state = has(says[i], "close") ? 2 : 1; string want = says[i].size() ? says[i] : state == 1 ? "keep-alive" : "close"; size_t p = c.f.out.find("\r\nconnection: "); string g = p == string::npos ? "(none)" : c.f.out.substr(p + 14, c.f.out.find("\r\n", p + 2) - p - 14); same(g, want, "connection-header");
		expect(t.isConnected() == (state == 1), "connection-state", [&] { return "after response " + std::to_string(i) + (t.isConnected() ? " open" : " closed"); }); expect((fcntl(fd, F_GETFD) != -1) == (state == 1), "socket-state"); if (state == 2) { bool g2 = true; thrown([&] { g2 = t.awaitNext(); }); expect(!g2, "request-after-close"); return; } }
	t.close(); expect(!t.isConnected() && fcntl(fd, F_GETFD) == -1, "close"); }
int main() { init(); section("keepalive"); do session(); while (more()); return done(); }
