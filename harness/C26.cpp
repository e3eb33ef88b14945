// SRC: core/**/*.cpp
// LIBS: -lz -lbrotlienc -lbrotlidec -lbrotlicommon
#include "h.hpp"
#include "res.hpp"
#include <core/network/tcp/connection.hpp>
#include <sys/socket.h>
#include <fcntl.h>
#include <memory>
#include <thread>
using namespace hs; using namespace Lambda::Network; using TCP::Connection;
typedef std::vector<uint8_t> V;
static bool alive(int fd) { return fcntl(fd, F_GETFD) != -1; }
static ConnectionInfo someInfo() { ConnectionInfo i{}; i.remoteAddr.hostname = "h" + std::to_string(rng.below(1000)); i.remoteAddr.port = rng.next(); i.hostPort = rng.next(); i.timeouts.receive = rng.next(); i.timeouts.send = rng.next(); return i; }
static bool sameInfo(const ConnectionInfo& a, const ConnectionInfo& b) { return a.remoteAddr.hostname == b.remoteAddr.hostname && a.remoteAddr.port == b.remoteAddr.port && a.hostPort == b.hostPort && a.timeouts.receive == b.timeouts.receive && a.timeouts.send == b.timeouts.send; }
struct Pair { int a = -1, b = -1; Pair(bool nb = false) { int v[2]; if (socketpair(AF_UNIX, SOCK_STREAM, 0, v)) abort(); a = v[0]; b = v[1]; if (nb) fcntl(a, F_SETFL, O_NONBLOCK); } ~Pair() { if (b >= 0) close(b); } void hang() { close(b); b = -1; } };
static V bytes(size_t n) { V v(n); for (auto& x : v) x = rng.next(); return v; }
static V drain(int fd, size_t n) { V v(n); size_t k = 0; while (k < n) { auto r = recv(fd, v.data() + k, n - k, 0); if (r <= 0) break; k += r; } v.resize(k); return v; }
static long tmo(int fd, int opt) { timeval t{}; socklen_t l = sizeof t; getsockopt(fd, SOL_SOCKET, opt, &t, &l); return t.tv_sec * 1000 + t.tv_usec / 1000; }
static void reading() { Pair p; Connection c(p.a, someInfo()); V sent, got; int rounds = 1 + rng.below(4); size_t ask = rng.below(3) ? 1 + rng.below(40) : 0; begin("reading, chunks of " + std::to_string(ask));
	for (int i = 0; i < rounds; i++) { V d = bytes(1 + rng.below(rng.below(4) ? 50 : 9000)); (void)!write(p.b, d.data(), d.size()); sent.insert(sent.end(), d.begin(), d.end()); size_t lim = rng.below(2) ? sent.size() : sent.size() / 2; while (got.size() < lim) { size_t want = ask ? ask : 2048; auto r = ask ? c.read(ask) : c.read(); if (r.empty() || r.size() > want) { fail("read-size", std::to_string(r.size())); return; } got.insert(got.end(), r.begin(), r.end()); } }
	p.hang(); while (true) { V r; auto t = thrown([&] { r = ask ? c.read(ask) : c.read(); }); if (t) { fail("read-threw", *t); return; } if (r.empty()) break; got.insert(got.end(), r.begin(), r.end()); }
	same(got, sent, "read-bytes"); expect(!c.isOpen(), "eof-not-closed"); expect(!alive(p.a), "eof-handle-leaked"); expect(!!thrown([&] { c.read(5); }), "read-after-close"); expect(!!thrown([&] { c.write({1}); }), "write-after-close"); }
static void writing() { Pair p; Connection c(p.a, someInfo()); begin("writing"); V sent; for (int i = 0; i < 4; i++) { V d = bytes(rng.below(4) ? rng.below(300) : 3000); V e = d; auto t = thrown([&] { c.write(d); }); if (t) fail("write-threw", *t); expect(d == e, "write-changed-data"); sent.insert(sent.end(), d.begin(), d.end()); }
	same(drain(p.b, sent.size()), sent, "written-bytes"); p.hang(); bool th = false; for (int i = 0; i < 3 && !th; i++) th = !!thrown([&] { c.write(bytes(10)); }); expect(th, "write-to-gone-peer"); }
static void ends() { Pair p; begin("end"); int keep = -1; { Connection c(p.a, someInfo()); expect(c.isOpen(), "open"); c.end(); expect(!c.isOpen(), "end-open"); expect(!alive(p.a), "end-handle-leaked"); expect(drain(p.b, 1).empty(), "end-peer"); keep = fcntl(p.b, F_DUPFD, p.a); c.end(); } if (keep == p.a) { expect(alive(keep), "closed-twice"); } if (keep >= 0 && alive(keep)) close(keep);
	{ Pair q; { Connection c(q.a, someInfo()); } expect(!alive(q.a), "destructor-handle-leaked"); expect(drain(q.b, 1).empty(), "destructor-peer"); } }
static void moves() { Pair p, q; begin("move"); auto i1 = someInfo(), i2 = someInfo(); { auto a = std::make_unique<Connection>(p.a, i1); expect(sameInfo(a->info(), i1), "info"); expect(a->flags.closeOnTimeout && a->flags.throwOnDisconnect, "default-flags"); bool f = rng.below(2), g = rng.below(2); a->flags.closeOnTimeout = f; a->flags.throwOnDisconnect = g;
		Connection b(std::move(*a)); expect(!a->isOpen(), "move-source-open"); expect(b.isOpen() && sameInfo(b.info(), i1), "moved-info"); expect(b.flags.closeOnTimeout == f && b.flags.throwOnDisconnect == g, "moved-flags"); a.reset(); expect(alive(p.a), "move-source-closes"); V d = bytes(9); b.write(d); same(drain(p.b, 9), d, "moved-write");
		Connection c(q.a, i2); c = std::move(b); expect(!b.isOpen() && c.isOpen(), "assign-open"); expect(!alive(q.a), "assign-leaks-replaced"); expect(alive(p.a), "assign-closes-source"); expect(sameInfo(c.info(), i1), "assign-info"); expect(c.flags.closeOnTimeout == f && c.flags.throwOnDisconnect == g, "assign-flags"); auto* self = &c; c = std::move(*self); expect(c.isOpen() && alive(p.a), "self-assign"); c.write(d); same(drain(p.b, 9), d, "assign-write"); }
	expect(!alive(p.a), "move-leaks"); }
static void timeouts() { Pair p; Connection c(p.a, someInfo()); uint32_t a = rng.below(3) ? rng.below(100000) : 1000 * rng.below(50), b = rng.below(100000), d = rng.below(5000); begin("timeouts " + std::to_string(a) + " " + std::to_string(b) + " " + std::to_string(d)); auto near = [](long x, long y) { return x >= y && x <= y + 10; };
	c.setTimeouts(a); expect(near(tmo(p.a, SO_RCVTIMEO), a) && near(tmo(p.a, SO_SNDTIMEO), a), "timeout-both", [&] { return std::to_string(tmo(p.a, SO_RCVTIMEO)) + " " + std::to_string(tmo(p.a, SO_SNDTIMEO)); }); expect(c.info().timeouts.receive == a && c.info().timeouts.send == a, "timeout-both-info");
	c.setTimeouts(b, SetTimeoutsDirection::Send); expect(near(tmo(p.a, SO_RCVTIMEO), a) && near(tmo(p.a, SO_SNDTIMEO), b), "timeout-send"); expect(c.info().timeouts.receive == a && c.info().timeouts.send == b, "timeout-send-info");
	c.setTimeouts(d, SetTimeoutsDirection::Receive); expect(near(tmo(p.a, SO_RCVTIMEO), d) && near(tmo(p.a, SO_SNDTIMEO), b), "timeout-receive"); expect(c.info().timeouts.receive == d && c.info().timeouts.send == b, "timeout-receive-info"); }
static void blocking() { Pair p(true); Connection c(p.a, someInfo()); bool f = rng.below(2); begin(f ? "timeout, close" : "timeout, keep"); c.flags.closeOnTimeout = f; V r{1}; auto t = thrown([&] { r = c.read(); }); expect(!t, "timeout-threw"); expect(r.empty(), "timeout-data"); expect(c.isOpen() == !f && alive(p.a) == !f, "timeout-close"); if (!f) { V d = bytes(7); (void)!write(p.b, d.data(), 7); same(c.read(), d, "read-after-timeout"); } }
static void threads() { Pair p; int sb = 4096; setsockopt(p.a, SOL_SOCKET, SO_SNDBUF, &sb, sizeof sb); Connection c(p.a, someInfo()); begin("two writers"); const size_t n = 60000; V A(n, 1), B(n, 2), got; std::thread x([&] { c.write(A); }), y([&] { c.write(B); }); got = drain(p.b, 2 * n); x.join(); y.join(); size_t sw = 0; for (size_t i = 1; i < got.size(); i++) sw += got[i] != got[i - 1]; expect(got.size() == 2 * n && sw == 1, "mixed-writes", [&] { return std::to_string(sw) + " switches"; }); }
static void stalled() { Pair p; int sb = 4096; setsockopt(p.a, SOL_SOCKET, SO_SNDBUF, &sb, sizeof sb); Connection c(p.a, someInfo()); begin("peer stops reading"); c.setTimeouts(30, SetTimeoutsDirection::Send); expect(!!thrown([&] { c.write(V(300000, 3)); }), "short-write-unreported"); }
int main() { init(); section("connection"); timeouts(); threads(); stalled(); do { section("read"); reading(); section("write"); writing(); section("end"); ends(); section("move"); moves(); section("timeouts"); timeouts(); section("blocking"); blocking(); if (rng.below(8) == 0) { section("threads"); threads(); } } while (more()); return done(); }
