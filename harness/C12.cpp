// SRC: core/**/*.cpp
// LIBS: -lz -lbrotlienc -lbrotlidec -lbrotlicommon
#include "tp.hpp"
#include <zlib.h>
#include <brotli/decode.h>
using namespace tp;
static std::optional<string> inflated(const string& s, int bits) { z_stream z{}; if (inflateInit2(&z, bits) != Z_OK) return {}; string r; z.next_in = (Bytef*)s.data(); z.avail_in = s.size(); char b[65536]; int c; do { z.next_out = (Bytef*)b; z.avail_out = sizeof b; c = inflate(&z, Z_NO_FLUSH); r.append(b, sizeof b - z.avail_out); } while (c == Z_OK); bool ok = c == Z_STREAM_END && z.avail_in == 0; inflateEnd(&z); if (!ok) return {}; return r; }
static std::optional<string> unbrotli(const string& s) { auto st = BrotliDecoderCreateInstance(0, 0, 0); size_t in = s.size(); const uint8_t* p = (const uint8_t*)s.data(); string r; uint8_t b[65536]; BrotliDecoderResult c; do { size_t n = sizeof b; uint8_t* q = b; c = BrotliDecoderDecompressStream(st, &in, &p, &n, &q, 0); r.append((char*)b, sizeof b - n); } while (c == BROTLI_DECODER_RESULT_NEEDS_MORE_OUTPUT); BrotliDecoderDestroyInstance(st); if (c != BROTLI_DECODER_RESULT_SUCCESS || in) return {}; return r; }
static string clean(string s) { for (auto& c : s) if (c == '\r' || c == '\n') c = ' '; return s; }
// one connection, several requests
static void session() {
	Conn c; LT::TransportOptions o; o.useCompression = rng.below(4); o.reuseConnections = rng.below(8); size_t n = 1 + rng.below(3); std::vector<string> methods, accepts;
	for (size_t i = 0; i < n; i++) { string m = pick({"GET", "GET", "HEAD", "POST"}), a = rng.below(3) ? pick({"gzip", "br", "deflate", "gzip, deflate", "gzip, deflate, br", "deflate, gzip", "identity", "zstd", "gzip;q=0", "br;q=0, gzip", "*", "xgzip, brr", "GZIP"}) : ""; methods.push_back(m); accepts.push_back(a); c.f.in += m + " /" + std::to_string(i) + " HTTP/1.1\r\nHost: h\r\n" + (a.empty() ? "" : "Accept-Encoding: " + a + "\r\n") + "\r\n"; }
	LT::TransportContextV1 t(*c.c, o); if (!rng.below(6)) t.flags.autocompress = false; if (!rng.below(8)) t.flags.forceContentLength = false;
	for (size_t i = 0; i < n; i++) { bool got = false; auto e = thrown([&] { got = t.awaitNext(); }); if (e || !got) { if (i == 0 || o.reuseConnections) fail("no-request", e.value_or("")); return; } auto q = t.nextRequest(); c.f.out.clear();
		HTTP::Response r; int code = pick({"200", "204", "404", "500", "301"}) == "200" ? 200 : (int)(100 + rng.below(900)); string text = rng.below(3) ? pick({"OK", "Not Found", ""}) : mix({"A", "\r\n", "\n", "X: y", " "}, "ab\r", 4); r.status = HTTP::Status(code, text);
		KV h; for (size_t k = rng.below(4); k--;) { string a = pick({"X-A", "x-b", "Set-Cookie", "Location", "x\r\ny", "x\nset-cookie"}), v = pick({"1", "a b", "", "v\r\nX-Evil: 1", "v\n\nbody", "\r\n\r\n<html>", "gzip"}); r.headers.append(a, v); h[lower(a)].push_back(v); }
		string ct = pick({"", "", "text/plain", "text/html; charset=utf-8", "application/json", "image/png", "APPLICATION/XML", "video/mp4", "application/javascript"}); if (ct.size()) { r.headers.set("Content-Type", ct); h["content-type"] = {ct}; }
		string body; size_t bs = rng.below(4) ? rng.below(200) : rng.below(20) ? rng.below(3000) : rng.below(300000); if (rng.below(3)) { body.resize(bs); for (auto& x : body) x = rng.next(); } else while (body.size() < bs) body += "hello world "; r.body = body;
		begin(methods[i] + " accept " + esc(accepts[i]) + " status " + std::to_string(code) + " " + esc(text) + " type " + ct + " headers " + show(entriesOf(h)) + " body " + esc(body, 40));
		auto before = *(&r.headers); auto e2 = thrown([&] { t.respond({r, q.id}); }); if (e2) { fail("respond-threw", *e2); return; }
		const string& S = c.f.out; size_t he = S.find("\r\n\r\n"); if (he == string::npos) { fail("no-head", esc(S)); return; } string rest = S.substr(he + 4); auto ls = split(S.substr(0, he), "\r\n");
		same(ls[0], "HTTP/1.1 " + std::to_string(code) + " " + clean(text), "status-line"); KV g; for (size_t k = 1; k < ls.size(); k++) { size_t s = ls[k].find(": "); if (s == string::npos) { fail("header-line", esc(ls[k])); return; } if (ls[k].find_first_of("\r\n") != string::npos) fail("line-break-in-header", esc(ls[k])); g[ls[k].substr(0, s)].push_back(ls[k].substr(s + 2)); }
		string enc = get(g, "content-encoding"); bool texty = ct.empty(); for (auto w : {"text", "html", "json", "xml", "javascript"}) if (lower(ct).find(w) != string::npos) texty = true;
		auto as = split(accepts[i], ", "); string want; if (o.useCompression && t.flags.autocompress && texty) for (string w : {"br", "gzip", "deflate"}) { bool l = false; for (auto& a : as) l |= a == w; if (l) { want = w; break; } } same(enc, want, "encoding"); expect(g["content-encoding"].size() == (want.empty() ? 0u : 1u), "encoding-headers"); g.erase("content-encoding");
		string sent = rest; if (methods[i] == "HEAD") { expect(rest.empty(), "head-with-body", [&] { return esc(rest); }); } else { std::optional<string> d; if (body.empty() && rest.empty()) d = ""; else if (enc == "gzip") d = inflated(rest, 15 + 16); else if (enc == "deflate") { d = inflated(rest, 15); if (!d) d = inflated(rest, -15); } else if (enc == "br") d = unbrotli(rest); else d = rest; expect(d && *d == body, "body", [&] { return "sent " + esc(rest, 60) + " decoded " + (d ? esc(*d, 60) : "nothing"); }); }
		if (t.flags.forceContentLength) { auto cl = g["content-length"]; expect(cl.size() == 1, "length-headers"); if (methods[i] != "HEAD" && cl.size()) same(cl[0], std::to_string(rest.size()), "content-length"); } g.erase("content-length");
		for (auto k : {"date", "server", "x-request-id", "connection"}) { expect(g[k].size() == 1, "standard-header-"s + k); } same(get(g, "server"), "maddsua/lambda", "server"); same(get(g, "x-request-id"), t.contextID() + "-" + q.id.toString(), "request-id-header"); for (auto k : {"date", "server", "x-request-id", "connection"}) g.erase(k);
		if (t.flags.autocompress && ct.empty()) h["content-type"] = {"text/html; charset=utf-8"}; KV w; for (auto& [k, vs] : h) for (auto& v : vs) w[clean(k)].push_back(clean(v)); auto sorted = [](KV m) { for (auto& x : m) std::sort(x.second.begin(), x.second.end()); return m; }; expect(sorted(g) == sorted(w), "headers", [&] { return "got " + show(entriesOf(g)) + " want " + show(entriesOf(w)); });
		expect(entriesOf([&] { KV m; for (auto& [k, v] : r.headers.entries()) m[k].push_back(v); return m; }()) == entriesOf(h.count("content-type") && ct.empty() ? [&] { auto m = h; m.erase("content-type"); return m; }() : h), "response-changed"); } }
int main() { init(); section("respond"); do session(); while (more()); return done(); }
