// SRC: core/**/*.cpp
// LIBS: -lz -lbrotlienc -lbrotlidec -lbrotlicommon
#include "tp.hpp"
#include <core/sse/sse.hpp>
using namespace tp;
// the event stream interpretation of the HTML standard (events with their accumulated data, ids and types)
struct Ev { string type, data, id; bool operator==(const Ev& o) const { return type == o.type && data == o.data && id == o.id; } };
struct Client { string retry; std::vector<Ev> got; std::vector<std::pair<string, string>> fields;
	void feed(const string& s) { string type, data, last; size_t i = 0; std::vector<string> ls; string cur; while (i < s.size()) { if (s[i] == '\r') { ls.push_back(cur); cur.clear(); i += i + 1 < s.size() && s[i + 1] == '\n' ? 2 : 1; } else if (s[i] == '\n') { ls.push_back(cur); cur.clear(); i++; } else cur += s[i++]; }
		bool any = false; for (auto& l : ls) { if (l.empty()) { if (any) { if (data.size()) data.pop_back(); got.push_back({type, data, last}); } type.clear(); data.clear(); any = false; continue; } if (l[0] == ':') continue; size_t c = l.find(':'); string k = l.substr(0, c), v = c == string::npos ? "" : l.substr(c + 1); if (v.size() && v[0] == ' ') v.erase(0, 1); any = true; fields.push_back({k, v}); if (k == "event") type = v; else if (k == "data") data += v + "\n"; else if (k == "id") last = v; else if (k == "retry") retry = v; }
		open = cur.size() || any; }
	bool open = false; };
static string norm(const string& s) { string r; for (size_t i = 0; i < s.size(); i++) if (s[i] == '\r') { r += '\n'; if (i + 1 < s.size() && s[i + 1] == '\n') i++; } else r += s[i]; return r; }
static void session() {
	Conn c; LT::TransportOptions o; o.reuseConnections = true; string origin = rng.below(3) ? "" : pick({"http://a.b", "null", "https://x"}); c.f.in = "GET /ev HTTP/1.1\r\n" + (origin.empty() ? "" : "Origin: " + origin + "\r\n") + "Accept-Encoding: gzip, br\r\n\r\n";
	LT::TransportContextV1 t(*c.c, o); t.flags.autocompress = true; begin("origin " + esc(origin)); if (auto e = thrown([&] { if (!t.awaitNext()) throw std::runtime_error("none"); })) { fail("no-request", *e); return; } auto q = t.nextRequest();
	int sp[2]; if (socketpair(AF_UNIX, SOCK_STREAM, 0, sp)) abort(); close(sp[1]); WorkerContext wc{Network::TCP::Connection(sp[0], Network::ConnectionInfo{}), std::thread(), false, false}; auto& down = wc.shutdownFlag; int fd = c.f.fd; SSE::Writer w({wc, t, q}); auto head = c.f.out; size_t e = head.find("\r\n\r\n"); expect(e == head.size() - 4 && head.substr(0, 15) == "HTTP/1.1 200 OK", "head", [&] { return esc(head); });
	auto ls = split(head.substr(0, e), "\r\n"); KV h; for (size_t i = 1; i < ls.size(); i++) { size_t k = ls[i].find(':'); h[lower(ls[i].substr(0, k))].push_back(trim(ls[i].substr(k + 1))); } same(get(h, "content-type"), string("text/event-stream; charset=UTF-8"), "content-type"); same(get(h, "connection"), string("keep-alive"), "connection"); same(get(h, "cache-control"), string("no-cache"), "cache-control"); same(get(h, "access-control-allow-origin"), origin, "origin"); expect(!h.count("content-length") && !h.count("content-encoding"), "length-or-encoding");
	expect(w.connected(), "connected"); c.f.out.clear(); std::vector<Ev> want; size_t n = 1 + rng.below(6); string desc, retry, lastId;
	for (size_t i = 0; i < n; i++) { SSE::EventMessage m; static const string al("ab: \n\r\n\rdata:x\xc3\0", 17); m.data = rng.below(4) ? from(al, rng.below(2) ? 4 : 20) : "plain"; if (rng.below(2)) m.event = rng.below(6) ? from("abc: ", 6) : from("a\r\n", 4); if (rng.below(2)) m.id = rng.below(6) ? from("123: ", 5) : from("1\n\r", 4); if (rng.below(3) == 0) m.retry = rng.below(2) ? rng.next() : rng.below(100);
		string one = "data " + esc(m.data) + (m.event ? " event " + esc(*m.event) : "") + (m.id ? " id " + esc(*m.id) : "") + (m.retry ? " retry " + std::to_string(*m.retry) : ""); desc += one + "; "; hs::begin(desc); auto bad = [](const std::optional<string>& s) { return s && s->find_first_of("\r\n") != string::npos; }; bool no = bad(m.event) || bad(m.id); string before = c.f.out;
		auto err = thrown([&] { w.push(m); }); if (no) { expect(!!err, "accepts-line-break"); same(c.f.out, before, "sent-refused"); } else { if (err) { fail("push-threw", *err); return; } if (m.id) lastId = *m.id; want.push_back({m.event.value_or(""), norm(m.data), lastId}); if (m.retry) retry = std::to_string(*m.retry); } }
	auto check = [&](const string& k) { Client cl; cl.feed(c.f.out); expect(!cl.open, k + "-unfinished"); if (!(cl.got == want)) { string g; for (auto& x : cl.got) g += esc(x.type) + esc(x.data) + esc(x.id) + ";"; fail(k + "-events", "got " + g + " from " + esc(c.f.out)); } same(cl.retry, retry, k + "-retry"); for (auto& f : cl.fields) expect(f.first == "data" || f.first == "event" || f.first == "id" || f.first == "retry", k + "-field", [&] { return esc(f.first); }); }; check("push");
	if (rng.below(2)) { down = true; expect(!w.connected(), "shutdown"); down = false; } bool ended = rng.below(3) == 0; if (ended) c.c->end(); expect(w.connected() == !ended, "connected-after"); if (ended) { string b = c.f.out; expect(!!thrown([&] { w.push({"x"}); }), "push-after-end"); same(c.f.out, b, "sent-after-end"); }
	auto err = thrown([&] { w.close(); }); if (err) fail("close-threw", *err); if (!ended) want.push_back({"close", "", lastId}); check("close"); expect(!w.connected() && !t.isConnected() && fcntl(fd, F_GETFD) == -1, "still-open"); }
int main() { init(); section("sse"); do session(); while (more()); return done(); }
