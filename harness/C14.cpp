// SRC: core/**/*.cpp
// LIBS: -lz -lbrotlienc -lbrotlidec -lbrotlicommon
#include "tp.hpp"
#include "json.hpp"
#include <core/server/server_impl.hpp>
#include <core/server/worker.hpp>
#include <fstream>
using namespace tp; using Server::Connection::UpgradeError;
static string page; static const std::map<int, string> texts = {{400, "Bad Request"}, {404, "Not Found"}, {405, "Method Not Allowed"}, {413, "Content Too Large"}, {500, "Internal Server Error"}, {503, "Service Unavailable"}};
static string put(string s, const string& n, const string& v) { size_t at = s.find("{{" + n + "}}"); if (at != string::npos) s.replace(at, n.size() + 4, v); return s; }
static const char* TN[] = {"plain", "html", "json"}; static ErrorResponseType TT[] = {ErrorResponseType::Plain, ErrorResponseType::HTML, ErrorResponseType::JSON}; static const char* CT[] = {"text/plain", "text/html", "application/json"};
// does the page tell this status and message in this form?
static void checkPage(int type, int code, const string& text, const string& message, const string& ctype, const string& body, const string& k) {
	same(ctype.substr(0, ctype.find(';')), string(CT[type]), k + "-type-" + TN[type]);
	if (type == 0) expect(body.find(message) != string::npos, k + "-plain", [&] { return esc(body); });
	else if (type == 1) { string w = page; for (auto& [n, v] : std::vector<std::pair<string, string>>{{"svcpage_message_text", message}, {"svcpage_statustext", text}, {"svcpage_statuscode", std::to_string(code)}}) w = put(w, n, v); same(body, w, k + "-html"); }
	else { auto v = js::Rd::read(body); if (!v || v->k != js::V::Map) { fail(k + "-json", esc(body)); return; } auto& m = v->m; expect(m.count("ok") && m["ok"].k == js::V::Bool && !m["ok"].b && m.count("what") && m["what"].s == message && m.count("context") && m["context"].s == text, k + "-json-fields", [&] { return esc(body) + " for " + esc(message); }); } }
struct Want { bool any = false; int code = 200; string body; bool isPage = false; string message; bool close = false; string ctype; KV extra; };
struct Odd { int x; };
struct Act { string name; Want w; std::function<HandlerResponse(const HTTP::Request&, const RequestContext&)> f; bool ends = false; };
static string text() { string s = from("abc <>&\"'{}\\", 30); return rng.below(6) ? s : s + "{{svcpage_statuscode}}" ; }
static Act act(const string& method, bool ws) {
	Act a; string m = text(), b = anybytes(rng.below(60)); int code = std::vector<int>{200, 201, 404, 503, 418}[rng.below(5)]; string v = from("abc", 5);
	switch (rng.below(16)) {
		case 0: a.name = "text"; a.w.body = b; a.f = [=](auto&, auto&) -> HandlerResponse { return b; }; break;
		case 1: a.name = "cstring"; for (auto& c : b) if (!c) c = 'x'; a.w.body = b; a.f = [=](auto&, auto&) -> HandlerResponse { return b.c_str(); }; break;
		case 2: a.name = "bytes"; a.w.body = b; a.w.ctype = "application/octet-stream"; a.f = [=](auto&, auto&) -> HandlerResponse { return std::vector<uint8_t>(b.begin(), b.end()); }; break;
		case 3: case 4: a.name = "response"; a.w.body = b; a.w.code = code; if (v.size()) a.w.extra["x-v"] = {v}; a.f = [=](auto&, auto&) -> HandlerResponse { HTTP::Response r(HTTP::Status(code, "Text")); r.body = b; if (v.size()) r.headers.set("X-V", v); return r; }; break;
		case 5: a.name = "nothing"; a.w.code = 500; a.w.isPage = true; a.w.any = true; a.f = [](auto&, auto&) -> HandlerResponse { return {}; }; break;
		case 6: a.name = "std exception"; a.w.code = 500; a.w.isPage = true; a.w.message = m; a.f = [=](auto&, auto&) -> HandlerResponse { throw std::runtime_error(m); }; break;
		case 7: a.name = "lambda error"; a.w.code = 500; a.w.isPage = true; a.w.message = m; a.f = [=](auto&, auto&) -> HandlerResponse { throw Lambda::Error(m); }; break;
		case 8: a.name = "odd exception"; a.w.code = 500; a.w.isPage = true; a.w.any = true; { int k = rng.below(4); a.f = [=](auto&, auto&) -> HandlerResponse { if (k == 0) throw 7; if (k == 1) throw "text"; if (k == 2) throw Odd{1}; throw std::string("text"); }; } break;
		case 9: a.name = "protocol error"; a.w.code = 500; a.w.isPage = true; a.w.message = m; a.f = [=](auto&, auto&) -> HandlerResponse { throw LT::ProtocolError(m, 404); }; break;
		case 10: a.name = "network error"; a.w.code = 500; a.w.isPage = true; a.w.message = m; a.f = [=](auto&, auto&) -> HandlerResponse { throw std::out_of_range(m); }; break;
		case 11: case 12: a.name = "refused upgrade"; a.w.isPage = true; a.w.any = true; a.w.close = true; a.w.code = method == "GET" ? 400 : 405; a.f = [](auto&, const RequestContext& c) -> HandlerResponse { auto x = c.upgrateToWebsocket(); return {}; }; break;
		case 13: a.name = "refused upgrade, answered"; a.w.code = code; a.w.body = b; a.f = [=](auto&, const RequestContext& c) -> HandlerResponse { try { auto x = c.upgrateToWebsocket(); } catch (const std::exception&) { HTTP::Response r(HTTP::Status(code, "Text")); r.body = b; return r; } return {}; }; break;
		case 14: a.name = "refused upgrade, other failure"; a.w.code = 500; a.w.isPage = true; a.w.message = m; a.f = [=](auto&, const RequestContext& c) -> HandlerResponse { try { auto x = c.upgrateToWebsocket(); } catch (const std::exception&) { throw std::runtime_error(m); } return {}; }; break;
		default: a.name = "event stream"; a.ends = true; a.w.body = "data: " + v + "\r\n\r\n"; a.w.ctype = "text/event-stream; charset=UTF-8"; { bool late = rng.below(2); a.f = [=](auto&, const RequestContext& c) -> HandlerResponse { auto s = c.startEventStream(); s.push({.data = v}); if (late) throw std::runtime_error("late"); return {}; }; } break; }
	return a; }
static void session() {
	Conn c; ServeOptions o; int type = rng.below(3); o.errorResponseType = TT[type]; o.loglevel.requests = false; o.transport.reuseConnections = rng.below(6); o.transport.useCompression = rng.below(2);
	size_t n = rng.below(6); std::vector<Act> acts; std::vector<string> methods; string d = string(TN[type]) + (o.transport.reuseConnections ? "" : " no reuse"); bool bad = rng.below(3) == 0; int badcode = 0; string in; bool closes = false;
	for (size_t i = 0; i < n; i++) { string m = pick({"GET", "GET", "POST", "HEAD", "DELETE"}); methods.push_back(m); acts.push_back(act(m, false)); string body = m == "POST" ? from("abc\r\n", 20) : ""; in += m + " /" + std::to_string(i) + " HTTP/1.1\r\nHost: h\r\n" + (body.size() ? "Content-Length: " + std::to_string(body.size()) + "\r\n" : "") + "\r\n" + body; d += " " + m + ":" + acts.back().name; }
	if (bad) { switch (rng.below(4)) { case 0: in += "GET / HTTP/1.1\r\nno separator\r\n\r\n"; badcode = 400; break; case 1: in += "GET / HTTP/1.1\r\n: v\r\n\r\n"; badcode = 400; break; case 2: in += "POST / HTTP/1.1\r\nContent-Length: 99999999999\r\n\r\n"; badcode = 413; break; default: in += "POST / HTTP/1.1\r\nContent-Length: 1x\r\n\r\n"; badcode = 400; } d += " bad" + std::to_string(badcode); }
	c.f.in = in; c.segments(); c.f.hold = false; size_t calls = 0; begin(d + " cuts " + c.cutText()); string wrong; int fd = c.f.fd;
	{ WorkerContext w{std::move(*c.c)};
		Server::connectionWorker(w, o, [&](const HTTP::Request& q, const RequestContext& x) -> HandlerResponse { size_t i = calls++; if (i >= acts.size()) { wrong = "too many requests"; return "x"; } if (q.url.pathname != "/" + std::to_string(i) || q.method.toString() != methods[i]) wrong = "request " + q.url.pathname + " as number " + std::to_string(i); if (x.requestID.empty() || x.contextID.empty() || &x.conninfo != &w.conn.info()) wrong = "context"; return acts[i].f(q, x); }); }
	if (wrong.size()) fail("handler-call", wrong);
	// read the responses
	const string& S = c.f.out; size_t at = 0, k = 0; bool open = true;
	for (; k < acts.size() && open; k++) { auto& a = acts[k]; if (calls <= k) { fail("not-handled", std::to_string(k)); return; } size_t e = S.find("\r\n\r\n", at); if (e == string::npos) { fail("no-response:" + a.name, esc(S.substr(at))); return; } auto ls = split(S.substr(at, e - at), "\r\n"); at = e + 4; KV g; for (size_t i = 1; i < ls.size(); i++) { size_t s = ls[i].find(": "); if (s != string::npos) g[ls[i].substr(0, s)].push_back(ls[i].substr(s + 2)); }
		same(ls[0].substr(0, 12), "HTTP/1.1 " + std::to_string(a.w.code), "status:" + a.name); string cl = get(g, "content-length"); size_t bl = a.ends ? S.size() - at : atol(cl.c_str()); string body; if (methods[k] != "HEAD" || a.ends) { if (at + bl > S.size()) { fail("short-body", a.name); return; } body = S.substr(at, bl); at += bl; }
		if (methods[k] != "HEAD" && a.w.isPage && !a.w.any) checkPage(type, a.w.code, texts.at(a.w.code), a.w.message, get(g, "content-type"), body, "page"); else if (a.w.isPage) same(get(g, "content-type").substr(0, get(g, "content-type").find(';')), string(CT[type]), "page-type"); else if (methods[k] != "HEAD" || a.ends) same(body, a.w.body, "body:" + a.name);
		if (a.w.ctype.size()) same(get(g, "content-type"), a.w.ctype, "content-type:" + a.name); for (auto& [h, v] : a.w.extra) same(get(g, h), v[0], "header:" + a.name);
		string con = get(g, "connection"); if (a.w.close) same(con, string("close"), "connection:" + a.name); open = con == "keep-alive" && !a.ends; if (!o.transport.reuseConnections && !a.ends) same(con, string("close"), "connection-no-reuse"); else if (!a.w.close) same(con, string("keep-alive"), "connection-kept:" + a.name); }
	expect(calls == k, "calls", [&] { return std::to_string(calls) + " calls, " + std::to_string(k) + " responses"; });
	if (open && bad) { size_t e = S.find("\r\n\r\n", at); if (e == string::npos) { fail("no-error-page", esc(S.substr(at))); return; } same(S.substr(at, 12), "HTTP/1.1 " + std::to_string(badcode), "error-page-status"); at = e + 4; expect(S.size() > at, "error-page-empty"); if (type == 2) { auto v = js::Rd::read(S.substr(at)); expect(v && v->k == js::V::Map, "error-page-json", [&] { return esc(S.substr(at)); }); } if (type == 1) expect(S.find(std::to_string(badcode), at) != string::npos && S.find("<html", at) != string::npos, "error-page-html"); at = S.size(); expect(fcntl(fd, F_GETFD) == -1, "open-after-error"); }
	expect(at == S.size(), "more-than-one-response", [&] { return esc(S.substr(at)); }); }
static void pages() { int type = rng.below(3), code = 200; auto it = texts.begin(); std::advance(it, rng.below(texts.size())); code = it->first; string m = text(), t = rng.below(2) ? it->second : from("abc", 8); begin(string("page ") + TN[type] + std::to_string(code) + esc(m)); auto r = Server::Pages::renderErrorPage(HTTP::Status(code, t), m, TT[type]); expect((int)r.status.code() == code && r.status.text() == t, "page-status"); checkPage(type, code, t, m, r.headers.get("content-type"), r.body.text(), "rendered");
	auto r2 = Server::Pages::renderErrorPage(HTTP::Status(code, t), m); checkPage(1, code, t, m, r2.headers.get("content-type"), r2.body.text(), "rendered-default"); }
static void shutdown() { Conn c; ServeOptions o; o.loglevel.requests = false; size_t stop = rng.below(3); for (int i = 0; i < 4; i++) c.f.in += "GET / HTTP/1.1\r\n\r\n"; c.f.hold = false; size_t calls = 0; begin("shutdown after " + std::to_string(stop)); WorkerContext w{std::move(*c.c)}; if (!stop) w.shutdownFlag = true; Server::connectionWorker(w, o, [&](auto&, auto&) -> HandlerResponse { if (++calls == stop) w.shutdownFlag = true; return "x"; }); expect(calls == stop, "requests-after-shutdown", [&] { return std::to_string(calls); }); }
int main() { init(); std::ifstream f(LVC_REPO "/core/html/resources/servicepage.html"); page.assign(std::istreambuf_iterator<char>(f), {}); section("pages"); for (int i = 0; i < 300; i++) pages(); section("shutdown"); for (int i = 0; i < 30; i++) shutdown(); section("worker"); do session(); while (more()); return done(); }
