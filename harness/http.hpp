// Reference models of the HTTP value types, written from the property texts.
#pragma once
#include "h.hpp"
#include <core/http/http.hpp>
namespace hs {
	using std::vector; using std::map; using std::pair;
	typedef map<string, vector<string>> KV;
	inline bool isws(char c) { return c == ' ' || c == '\t' || c == '\r' || c == '\n'; }
	inline string trim(const string& s) { size_t a = 0, b = s.size(); while (a < b && isws(s[a])) a++; while (b > a && isws(s[b - 1])) b--; return s.substr(a, b - a); }
	inline vector<string> split(const string& s, const string& t) { vector<string> r; size_t i = 0; while (i < s.size()) { size_t m = s.find(t, i); if (m == string::npos) { r.push_back(s.substr(i)); break; } r.push_back(s.substr(i, m - i)); i = m + t.size(); } return r; }
	inline string show(const vector<pair<string, string>>& v) { string r = "["; for (auto& x : v) r += esc(x.first) + ":" + esc(x.second) + " "; return r + "]"; }
	inline string show(const vector<string>& v) { string r = "["; for (auto& x : v) r += esc(x) + " "; return r + "]"; }
	inline vector<pair<string, string>> entriesOf(const KV& m) { vector<pair<string, string>> r; for (auto& [k, vs] : m) for (auto& v : vs) r.push_back({k, v}); return r; }
	inline bool pairOf(const string& e, string& k, string& v) { size_t i = e.find('='); if (i == string::npos || i == 0 || i == e.size() - 1) return false; k = lower(trim(e.substr(0, i))); v = trim(e.substr(i + 1)); return k.size() && v.size(); }
	inline KV queryOf(const string& s) { KV m; size_t q = s.find('?'); string k, v; for (auto& e : split(q == string::npos ? s : s.substr(q + 1), "&")) if (pairOf(e, k, v)) m[k].push_back(v); return m; }
	inline string queryText(const KV& m) { string r; for (auto& [k, v] : entriesOf(m)) r += (r.size() ? "&" : "") + k + "=" + v; return r; }
	inline void sameKV(const Lambda::HTTP::KVContainer& c, const KV& m, const string& key) { auto e = c.entries(), w = entriesOf(m); expect(e == w, key, [&] { return "got " + show(e) + " want " + show(w); }); expect(c.size() == m.size(), key + "-size"); for (auto& [k, vs] : m) { expect(c.has(k) && c.has(upper(k)), key + "-has", [&] { return esc(k); }); expect(c.getAll(k) == vs, key + "-getall", [&] { return esc(k); }); same(c.get(k), vs.empty() ? "" : vs[0], key + "-get"); } }
	struct UrlM { string protocol, username, password, host, hostname, port, pathname, hash; KV q; };
	inline std::optional<UrlM> urlOf(const string& h) {
		UrlM u; string doc; 
		if (h.size() && h[0] == '/') doc = h; else {
			size_t p = h.find("://"); if (p == string::npos) return {}; u.protocol = h.substr(0, p); size_t d = h.find('/', p + 3); string a = d == string::npos ? h.substr(p + 3) : h.substr(p + 3, d - p - 3);
			if (a.find_first_of("?#") != string::npos) return {};
			size_t at = a.find('@'); if (at != string::npos) { string c = a.substr(0, at); size_t s = c.find(':'); if (s != string::npos) { u.username = c.substr(0, s); u.password = c.substr(s + 1); } a = a.substr(at + 1); }
			u.host = a; size_t s = a.find(':'); u.hostname = a.substr(0, s); if (s != string::npos) u.port = a.substr(s + 1); if (u.hostname.empty()) return {};
			if (d == string::npos) { u.pathname = "/"; return u; } doc = h.substr(d); }
		size_t s = doc.find('#'); if (s != string::npos) { u.hash = doc.substr(s); doc = doc.substr(0, s); } s = doc.find('?'); if (s != string::npos) { u.q = queryOf(doc.substr(s)); doc = doc.substr(0, s); } u.pathname = doc; return u; }
	inline std::optional<string> hrefOf(const UrlM& u) { if (u.hostname.empty() || u.pathname.empty()) return {}; string q = queryText(u.q); return (u.protocol.empty() ? "http" : u.protocol) + "://" + (u.username.size() && u.password.size() ? u.username + ":" + u.password + "@" : "") + u.hostname + (u.port.size() ? ":" + u.port : "") + u.pathname + (u.q.size() ? "?" + q : "") + (u.hash.size() > 1 ? u.hash : ""); }
	inline void sameUrl(const Lambda::HTTP::URL& u, const UrlM& w, const string& k) { same(u.protocol, w.protocol, k + "-protocol"); same(u.username, w.username, k + "-username"); same(u.password, w.password, k + "-password"); same(u.host, w.host, k + "-host"); same(u.hostname, w.hostname, k + "-hostname"); same(u.port, w.port, k + "-port"); same(u.pathname, w.pathname, k + "-pathname"); same(u.hash, w.hash, k + "-hash"); sameKV(u.searchParams, w.q, k + "-query"); }
	typedef map<string, string> Jar; typedef vector<pair<string, string>> Attrs; typedef map<string, pair<string, Attrs>> Queue;
	inline Jar jarOf(const string& s) { Jar j; string k, v; for (auto& e : split(s, "; ")) if (pairOf(e, k, v)) j[k] = v; return j; }
	inline vector<string> setLines(const Queue& q) { vector<string> r; for (auto& [k, d] : q) { string l = k + "=" + d.first; for (auto& [a, x] : d.second) if (a.size()) l += "; " + a + (x.size() ? "=" + x : ""); r.push_back(l); } return r; }
	inline std::optional<pair<string, string>> authOf(const string& h);
}
