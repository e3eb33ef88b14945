// A TCP connection whose bytes come from memory, in pieces of chosen sizes, and whose output is captured.
#pragma once
#include "http.hpp"
#include "res.hpp"
#include <core/network/tcp/connection.hpp>
#include <core/http/transport.hpp>
#include <core/http/transport_impl.hpp>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <fcntl.h>
#include <cerrno>
#include <mutex>
#include <condition_variable>
namespace tp {
	using std::string;
	struct Feed { int fd = -1; string in, out; size_t at = 0, call = 0; std::vector<size_t> cuts; std::set<size_t> stalls; /* where a receive finds nothing in time, once */ bool hold = false, broken = false; string tail; std::mutex m; std::condition_variable cv; };
	inline Feed* feed = nullptr;
	inline size_t longest = 0;
}
extern "C" ssize_t recv(int fd, void* buf, size_t n, int flags) {
	auto f = tp::feed; if (!f || fd != f->fd) return syscall(SYS_recvfrom, fd, buf, n, flags, nullptr, nullptr);
	std::unique_lock<std::mutex> l(f->m); if (f->at == f->in.size() && f->hold) { f->cv.wait_for(l, std::chrono::milliseconds(1500), [&] { return !f->hold || f->at < f->in.size(); }); if (f->hold && f->at == f->in.size()) { errno = EAGAIN; return -1; } }
	if (f->stalls.erase(f->at)) { errno = EAGAIN; return -1; } size_t k = std::min(n, f->in.size() - f->at); if (auto i = f->stalls.upper_bound(f->at); i != f->stalls.end()) k = std::min(k, *i - f->at); if (f->cuts.size()) k = std::min(k, f->cuts[f->call % f->cuts.size()]); f->call++; memcpy(buf, f->in.data() + f->at, k); f->at += k; tp::longest = std::max(tp::longest, n); return k; }
extern "C" ssize_t send(int fd, const void* buf, size_t n, int flags) {
	auto f = tp::feed; if (!f || fd != f->fd) return syscall(SYS_sendto, fd, buf, n, flags, nullptr, 0);
	std::unique_lock<std::mutex> l(f->m); if (f->broken) { errno = EPIPE; return -1; } f->out.append((const char*)buf, n); return n; }
namespace tp {
	using namespace hs; using namespace Lambda; namespace LT = Lambda::HTTP::Transport;
	struct Conn { Feed f; std::unique_ptr<Network::TCP::Connection> c; uint16_t port; Conn() { int v[2]; if (socketpair(AF_UNIX, SOCK_STREAM, 0, v)) abort(); close(v[1]); f.fd = v[0]; Network::ConnectionInfo i{}; port = i.hostPort = rng.next(); i.remoteAddr.hostname = "127.0.0.1"; c = std::make_unique<Network::TCP::Connection>(v[0], i); feed = &f; } ~Conn() { c.reset(); feed = nullptr; }
		void segments() { f.cuts.clear(); switch (rng.below(4)) { case 0: break; case 1: f.cuts = {1 + rng.below(7)}; break; case 2: { size_t n = 1 + rng.below(6); for (size_t i = 0; i < n; i++) f.cuts.push_back(1 + rng.below(rng.below(2) ? 5 : 200)); } break; case 3: f.cuts = {f.in.empty() ? 1 : 1 + rng.below(f.in.size()), 100000}; } }
		string cutText() { string r; for (auto x : f.cuts) r += std::to_string(x) + ","; return r; } };
	struct Req { string method, path, host, hostname, port, user, password, body, target; KV q, h; size_t end = 0; };
	inline bool upperName(string m, string& out) { out = upper(trim(m)); static const std::set<string> k = {"GET", "POST", "PUT", "DELETE", "HEAD", "OPTIONS", "TRACE", "PATCH", "CONNECT"}; return k.count(out); }
	inline string get(const KV& m, const string& k) { auto i = m.find(k); return i == m.end() || i->second.empty() ? "" : i->second[0]; }
	inline std::optional<string> unb64(const string& s) { static const string A = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; string t = s; size_t pad = 0; while (pad < 2 && t.size() && t.back() == '=') { t.pop_back(); pad++; } if (pad && s.size() % 4) return {}; if (t.size() % 4 == 1) return {}; if (pad && (t.size() + pad) % 4) return {}; string r; uint32_t a = 0; int b = 0; for (char c : t) { auto i = A.find(c); if (i == string::npos) return {}; a = a << 6 | i; b += 6; if (b >= 8) { b -= 8; r += (char)(a >> b); a &= (1u << b) - 1; } } return r; }
	// 0: a request, 1: more bytes are needed, 2: not acceptable
	inline int parse(const string& s, size_t at, size_t limit, uint16_t port, Req& r) {
		size_t e = s.find("\r\n\r\n", at); if (e == string::npos) return 1;
		auto ls = split(s.substr(at, e - at), "\r\n"); size_t hs_ = e + 4 - at; if (hs_ > limit || ls.empty() || ls[0].empty()) return 2;
		auto st = split(ls[0], " "); if (st.size() < 2 || !upperName(st[0], r.method)) return 2;
		for (size_t i = 1; i < ls.size(); i++) { size_t c = ls[i].find(':'); if (c == string::npos) return 2; string k = lower(trim(ls[i].substr(0, c))), v = trim(ls[i].substr(c + 1)); if (k.empty()) return 2; if (v.size()) r.h[k].push_back(v); }
		string t = r.target = st[1]; size_t q = t.find('?'), g = t.find('#', q == string::npos ? 0 : q); if (g != string::npos) t = t.substr(0, g); if (q != string::npos) { r.q = queryOf(t.substr(q)); t = t.substr(0, q); } r.path = (q != string::npos || g != string::npos) && t.empty() ? "/" : t;
		string hh = get(r.h, "host"), ps = std::to_string(port); if (hh.empty()) { r.host = "lambdahost:" + ps; r.hostname = "lambdahost"; r.port = ps; } else { r.host = hh; size_t c = hh.find(':'); r.hostname = hh.substr(0, c); if (c != string::npos) r.port = hh.substr(c + 1); }
		string a = get(r.h, "authorization"); { size_t sp = a.find(' '); if (sp != string::npos && lower(trim(a.substr(0, sp))) == "basic") { auto d = unb64(trim(a.substr(sp + 1))); if (d && d->find(':') != string::npos) { r.user = d->substr(0, d->find(':')); r.password = d->substr(d->find(':') + 1); } } }
		string cl = get(r.h, "content-length"); size_t n = 0; for (char c : cl) { if (c < '0' || c > '9') return 2; if (n > 1000000000000ull) return 2; n = n * 10 + c - '0'; } if (n > limit || hs_ + n > limit) return 2;
		if (e + 4 + n > s.size()) return 1; r.body = s.substr(e + 4, n); r.end = e + 4 + n; return 0; }
	inline void sameReq(const HTTP::Request& g, const Req& w, const string& k) { same(g.method.toString(), w.method, k + "-method"); same(g.url.pathname, w.path, k + "-path"); same(g.url.host, w.host, k + "-host"); same(g.url.hostname, w.hostname, k + "-hostname"); same(g.url.port, w.port, k + "-port"); same(g.url.username, w.user, k + "-user"); same(g.url.password, w.password, k + "-password"); same(g.body.text(), w.body, k + "-body"); sameKV(g.headers, w.h, k + "-headers"); sameKV(g.url.searchParams, w.q, k + "-query"); }
}
