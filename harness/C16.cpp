// SRC: core/**/*.cpp
// LIBS: -lz -lbrotlienc -lbrotlidec -lbrotlicommon
#include "tp.hpp"
#include <core/websocket/websocket.hpp>
#include <core/server/server_impl.hpp>
using namespace tp; namespace WS = Lambda::Websocket; using Lambda::Server::Connection::UpgradeError;
static string sha1(const string& m) { uint32_t h[5] = {0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0}; string p = m + '\x80'; while (p.size() % 64 != 56) p += '\0'; for (int i = 7; i >= 0; i--) p += (char)((uint64_t)m.size() * 8 >> (8 * i)); auto rol = [](uint32_t x, int n) { return x << n | x >> (32 - n); };
	for (size_t o = 0; o < p.size(); o += 64) { uint32_t w[80]; for (int i = 0; i < 16; i++) { w[i] = 0; for (int k = 0; k < 4; k++) w[i] = w[i] << 8 | (uint8_t)p[o + 4 * i + k]; } for (int i = 16; i < 80; i++) w[i] = rol(w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16], 1); uint32_t a = h[0], b = h[1], c = h[2], d = h[3], e = h[4];
		for (int i = 0; i < 80; i++) { uint32_t f = i < 20 ? (b & c) | (~b & d) : i < 40 ? b ^ c ^ d : i < 60 ? (b & c) | (b & d) | (c & d) : b ^ c ^ d, k = i < 20 ? 0x5A827999 : i < 40 ? 0x6ED9EBA1 : i < 60 ? 0x8F1BBCDC : 0xCA62C1D6, t = rol(a, 5) + f + e + k + w[i]; e = d; d = c; c = rol(b, 30); b = a; a = t; } h[0] += a; h[1] += b; h[2] += c; h[3] += d; h[4] += e; }
	string r; for (auto x : h) for (int k = 3; k >= 0; k--) r += (char)(x >> 8 * k); return r; }
static string b64(const string& s) { static const char* A = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; string r; for (size_t i = 0; i < s.size(); i += 3) { uint32_t v = 0; size_t n = std::min<size_t>(3, s.size() - i); for (size_t k = 0; k < 3; k++) v = v << 8 | (k < n ? (uint8_t)s[i + k] : 0); for (size_t k = 0; k < 4; k++) r += k <= n ? A[v >> (18 - 6 * k) & 63] : '='; } return r; }
static string frame(bool fin, int op, const string& d, bool mask, int form = 0) { string r; r += (char)((fin ? 0x80 : 0) | op); size_t n = d.size(); if (n < 126 && form == 0) r += (char)((mask ? 0x80 : 0) | n); else if (n < 65536 && form < 2) { r += (char)((mask ? 0x80 : 0) | 126); r += (char)(n >> 8); r += (char)n; } else { r += (char)((mask ? 0x80 : 0) | 127); for (int k = 7; k >= 0; k--) r += (char)((uint64_t)n >> 8 * k); } if (!mask) return r + d; string m; for (int k = 0; k < 4; k++) m += (char)rng.next(); r += m; for (size_t i = 0; i < n; i++) r += (char)(d[i] ^ m[i % 4]); return r; }
struct Msg { string data; bool binary, partial; bool operator==(const Msg& o) const { return data == o.data && binary == o.binary && partial == o.partial; } };
static string showm(const std::vector<Msg>& v) { string r; for (auto& m : v) r += string(m.binary ? "b" : "t") + (m.partial ? "+" : ".") + esc(std::string_view(m.data).substr(0, 30)) + "(" + std::to_string(m.data.size()) + ") "; return r; }
struct Frame { bool fin; int op; string d; };
static bool frames(const string& s, std::vector<Frame>& r) { size_t i = 0; while (i < s.size()) { if (i + 2 > s.size()) return false; int a = (uint8_t)s[i], b = (uint8_t)s[i + 1]; if (b & 128) return false; size_t n = b, h = 2; if (n == 126) { if (i + 4 > s.size()) return false; n = (uint8_t)s[i + 2] << 8 | (uint8_t)s[i + 3]; h = 4; if (n < 126) return false; } else if (n == 127) { if (i + 10 > s.size()) return false; n = 0; for (int k = 0; k < 8; k++) n = n << 8 | (uint8_t)s[i + 2 + k]; h = 10; if (n < 65536) return false; } if (n > s.size() - i - h) return false; r.push_back({(a & 128) != 0, a & 15, s.substr(i + h, n)}); if (a & 0x70) return false; i += h + n; } return true; }
struct Sess { Conn c; LT::TransportOptions o; std::unique_ptr<LT::TransportContextV1> t; std::unique_ptr<LT::IncomingRequest> q; WorkerContext wc{dummy(), std::thread(), false, false};
	static Network::TCP::Connection dummy() { int sp[2]; if (socketpair(AF_UNIX, SOCK_STREAM, 0, sp)) abort(); close(sp[1]); return Network::TCP::Connection(sp[0], Network::ConnectionInfo{}); }
	bool open(const string& req, const string& extra) { c.f.in = req + extra; c.f.hold = true; t = std::make_unique<LT::TransportContextV1>(*c.c, o); if (!t->awaitNext()) return false; q = std::make_unique<LT::IncomingRequest>(t->nextRequest()); return true; } };
static string handshake(const string& key) { return "GET /ws HTTP/1.1\r\nHost: a\r\nUpgrade: " + string(pick({"websocket", "WebSocket", "WEBSOCKET"})) + "\r\nConnection: Upgrade\r\nSec-WebSocket-Key: " + key + "\r\nSec-WebSocket-Version: 13\r\n\r\n"; }
static string randkey() { string s; for (int i = 0; i < 16; i++) s += (char)rng.next(); return b64(s); }
static void refused() { Sess s; string key = randkey(), r = handshake(key), extra; int want = 400; switch (rng.below(5)) { case 0: r = "POST" + r.substr(3); want = 405; break; case 1: r = "GET /ws HTTP/1.1\r\nUpgrade: h2c\r\nSec-WebSocket-Key: " + key + "\r\n\r\n"; break; case 2: r = "GET /ws HTTP/1.1\r\nUpgrade: websocket\r\n\r\n"; break; case 3: r = "GET /ws HTTP/1.1\r\nSec-WebSocket-Key: " + key + "\r\n\r\n"; break; case 4: extra = frame(true, 1, "x", true); }
	begin(esc(r + extra)); if (!s.open(r, extra)) { fail("no-request", ""); return; } bool up = false; try { WS::WebsocketContext w({s.wc, *s.t, *s.q}); } catch (const UpgradeError& e) { up = true; expect(e.status().code() == want, "refusal-status", [&] { return std::to_string(e.status().code()) + " want " + std::to_string(want); }); } catch (const std::exception& e) { fail("refusal-kind", e.what()); return; } expect(up, "not-refused"); same(s.c.f.out, string(), "sent-when-refused"); s.c.f.hold = false; }
static void session() {
	Sess s; string key = randkey(); s.o.maxRequestSize = rng.below(3) ? 1 << 20 : 300 + rng.below(2000); if (!s.open(handshake(key), "")) { fail("no-request", ""); return; } s.c.f.out.clear(); s.c.f.hold = false; s.c.f.hold = true;
	string in, desc, pongs; std::vector<Msg> want; std::vector<string> answered; int end = 0; bool open = false, bin = false; size_t n = rng.below(8); bool wild = rng.below(3) == 0; bool big = rng.below(12) == 0;
	for (size_t i = 0; i < n && !end; i++) { int op; bool fin = rng.below(3) != 0, mask = true; string d; size_t len = rng.below(8) == 0 ? 120 + rng.below(12) : rng.below(5) == 0 ? rng.below(700) : big && rng.below(4) == 0 ? 65500 + rng.below(80) : rng.below(20); for (size_t k = 0; k < len; k++) d += (char)(rng.next() >> 40); int form = rng.below(8) == 0 ? 1 + rng.below(2) : 0; if (rng.below(3) == 0) { op = 8 + rng.below(3); if (op == 8 && rng.below(2)) op = 9; fin = true; if (op == 10) d = "ping/lambda/ws"; if (d.size() > 125) d.resize(125); } else op = open ? 0 : 1 + rng.below(2);
		if (wild && rng.below(6) == 0) switch (rng.below(6)) { case 0: mask = false; break; case 1: op = 3 + rng.below(5); break; case 2: op = open ? 1 + rng.below(2) : 0; break; case 3: op = 11 + rng.below(5); break; case 4: if (op >= 8) fin = false; break; case 5: if (op == 10) d = "other"; }
		string f = frame(fin, op, d, mask, form); size_t hs = f.size() - d.size(); desc += (fin ? "F" : "f") + std::to_string(op) + (mask ? "" : "!") + "(" + std::to_string(d.size()) + (form ? "/" + std::to_string(form) : "") + ") "; in += f;
		bool known = op <= 2 || (op >= 8 && op <= 10); if (!known || !mask) end = 1002; else if (op == 1 || op == 2 ? open : op == 0 ? !open : !fin) end = 1002; else if (hs + d.size() > s.o.maxRequestSize) end = 1009; else if (op == 8) end = 1000; else if (op == 9) answered.push_back(d); else if (op == 10) { if (d != "ping/lambda/ws") end = 1002; } else { if (op) bin = op == 2; open = !fin; want.push_back({d, bin, !fin}); } }
	if (!end && rng.below(4) == 0) { string f = frame(true, open ? 0 : 2, string(200, 'x'), true); in += f.substr(0, rng.below(f.size())); desc += "cut "; } if (!end && desc.find("cut ") == string::npos && rng.below(10) == 0) { string f = "\x82\xff"; for (int k = 0; k < 8; k++) f += (char)(k ? rng.next() : 0xff); f += "abcd"; in += string(f); desc += "huge "; end = open ? 1002 : 1009; }

	auto at0 = s.c.f.in.size(); { std::unique_lock<std::mutex> l(s.c.f.m); s.c.f.cuts.clear(); switch (rng.below(4)) { case 0: break; case 1: s.c.f.cuts = {1 + rng.below(7)}; break; case 2: for (size_t k = 1 + rng.below(6); k--;) s.c.f.cuts.push_back(1 + rng.below(rng.below(2) ? 5 : 200)); break; case 3: s.c.f.cuts = {1 + rng.below(300), 100000}; } if (in.size() > 20000) s.c.f.cuts.clear(); s.c.f.call = 0; if (rng.below(3) == 0) for (size_t k = 1 + rng.below(4); k-- && in.size();) s.c.f.stalls.insert(at0 + rng.below(in.size() + 1)); } string stalls; for (auto x : s.c.f.stalls) stalls += std::to_string(x - at0) + ",";
	hs::begin(desc + "limit " + std::to_string(s.o.maxRequestSize) + " cuts " + s.c.cutText() + " stalls " + stalls); std::vector<Msg> got, sent; int mode = rng.below(6);
	{ std::unique_ptr<WS::WebsocketContext> w; auto e0 = thrown([&] { w = std::make_unique<WS::WebsocketContext>(WS::WebsocketInit{s.wc, *s.t, *s.q}); }); if (e0) { fail("refused", *e0); return; }
		string head; { std::unique_lock<std::mutex> l(s.c.f.m); head = s.c.f.out; } size_t e = head.find("\r\n\r\n"); expect(head.substr(0, 13) == "HTTP/1.1 101 ", "status", [&] { return esc(head); }); KV h; auto ls = split(head.substr(0, e), "\r\n"); for (size_t i = 1; i < ls.size(); i++) { size_t k = ls[i].find(':'); h[lower(ls[i].substr(0, k))].push_back(trim(ls[i].substr(k + 1))); } same(get(h, "sec-websocket-accept"), b64(sha1(key + "258EAFA5-E914-47DA-95CA-C5AB0DC85B11")), "accept"); same(lower(get(h, "upgrade")), string("websocket"), "upgrade"); same(lower(get(h, "connection")), string("upgrade"), "connection");
		if (mode == 0) for (size_t k = rng.below(4); k--;) { Msg m{from("abc\n\0", 200), rng.below(2) == 1, rng.below(2) == 1}; auto x = thrown([&] { w->sendMessage(WS::Message(std::vector<uint8_t>(m.data.begin(), m.data.end()), m.binary, m.partial)); }); if (x) { fail("send-threw", *x); } else sent.push_back(m); }
		{ std::unique_lock<std::mutex> l(s.c.f.m); s.c.f.in += in; s.c.f.hold = false; } s.c.f.cv.notify_all();
		if (mode == 5) { w.reset(); expect(!s.t->isConnected() && fcntl(s.c.f.fd, F_GETFD) == -1, "open-after-destroy"); std::vector<Frame> fs; expect(frames(s.c.f.out.substr(e + 4), fs), "broken-output"); return; }
		bool threw = false; try { while (w->awaitMessage()) { auto m = w->nextMessage(); got.push_back({string(m.data.begin(), m.data.end()), m.binary, m.partial}); } } catch (const std::exception& x) { threw = true; } while (w->hasMessage()) { auto m = w->nextMessage(); got.push_back({string(m.data.begin(), m.data.end()), m.binary, m.partial}); }
		if (end != 1) expect(threw == (end == 1002 || end == 1009), "error-reported", [&] { return "end " + std::to_string(end); }); expect(!!thrown([&] { w->nextMessage(); }), "message-from-nowhere"); if (end) expect(!!thrown([&] { w->sendMessage(WS::Message("late")); }), "sent-after-close"); }
	if (end != 1 && !(got == want)) fail("messages", "got " + showm(got) + "want " + showm(want)); std::vector<Frame> fs; string out = s.c.f.out; out = out.substr(out.find("\r\n\r\n") + 4); if (!frames(out, fs)) { fail("broken-output", esc(out)); return; }
	std::vector<string> ans; std::vector<Msg> sn; int closed = 0; for (auto& f : fs) { if (closed) fail("frame-after-close", ""); if (f.op == 10) ans.push_back(f.d); else if (f.op == 8) closed = f.d.size() == 2 ? (uint8_t)f.d[0] << 8 | (uint8_t)f.d[1] : -1; else if (f.op == 1 || f.op == 2) sn.push_back({f.d, f.op == 2, !f.fin}); else if (f.op != 9) fail("strange-frame", std::to_string(f.op)); } same(show(ans), show(answered), "pongs"); if (!(sn == sent)) fail("sent-messages", showm(sn)); if (end > 1) expect(closed == end, "close-reason", [&] { return std::to_string(closed) + " want " + std::to_string(end); }); else if (!end) expect(!closed, "unexpected-close", [&] { return std::to_string(closed); }); expect(!s.t->isConnected() && fcntl(s.c.f.fd, F_GETFD) == -1, "still-open"); }
static void leaving() { Sess s; if (!s.open(handshake(randkey()), "")) { fail("no-request", ""); return; } int mode = rng.below(3); begin("mode " + std::to_string(mode)); s.c.f.out.clear(); int code = 0; { WS::WebsocketContext w({s.wc, *s.t, *s.q}); { std::unique_lock<std::mutex> l(s.c.f.m); s.c.f.out.clear(); if (mode == 0) s.c.f.broken = true; } if (mode == 1) { code = rng.below(2) ? 1003 : 1008; auto e = thrown([&] { w.close((WS::CloseReason)code); }); if (e) fail("close-threw", *e); expect(!!thrown([&] { w.sendMessage(WS::Message("x")); }), "sent-after-close"); } else if (mode == 2) code = 1001; { std::unique_lock<std::mutex> l(s.c.f.m); s.c.f.hold = false; if (mode == 2) s.c.f.hold = true; } if (mode != 2) s.c.f.cv.notify_all(); }
	s.c.f.hold = false; std::vector<Frame> fs; frames(s.c.f.out, fs); if (mode) { expect(fs.size() == 1 && fs[0].op == 8 && fs[0].fin && fs[0].d.size() == 2 && ((uint8_t)fs[0].d[0] << 8 | (uint8_t)fs[0].d[1]) == code, "close-frame", [&] { return esc(s.c.f.out); }); expect(!s.t->isConnected(), "still-open"); } }
int main() { init(); size_t k = 0; do { section("session"); session(); if (k % 8 == 1) { section("refused"); refused(); } if (k % 64 == 3) { section("leaving"); leaving(); } k++; } while (more()); return done(); }
