// SRC: core/http/kvcontainer.cpp core/polyfill/strings.cpp
#include "http.hpp"
using namespace hs; using namespace Lambda::HTTP;
int main() { init(); section("headers");
	vector<string> ks{"Accept", "accept", "ACCEPT", "x-A", "X-a", "", " b", "z", "aA", "Ab"};
	begin("initial pairs"); { Headers h{{" Host ", " x "}, {"HOST", "y\r\n"}, {"a", ""}}; sameKV(h, KV{{"host", {"x", "y"}}, {"a", {""}}}, "init"); }
	while (more()) {
		string log; KV m; Headers h; size_t n = rng.below(14);
		auto key = [&] { return rng.below(5) ? pick(ks) : anystr("aAbBzZ-@[ ", 4); }; 
		for (size_t i = 0; i < n; i++) { string k = key(), v = rng.below(4) ? from("vw ", 3) : anybytes(5), l = lower(k);
			switch (rng.below(9)) {
				case 0: case 1: log += "set " + esc(k) + esc(v) + ";"; begin(log); h.set(k, v); m[l] = {v}; break;
				case 2: case 3: case 4: log += "append " + esc(k) + esc(v) + ";"; begin(log); h.append(k, v); m[l].push_back(v); break;
				case 5: log += "del " + esc(k) + ";"; begin(log); h.del(k); m.erase(l); break;
				case 6: log += "copy;"; begin(log); { Headers c(h), d{{"q", "1"}}; d = h; sameKV(c, m, "copy"); sameKV(d, m, "copy"); c.set("only-in-copy", "1"); d.del(k); d.append(k, "more"); sameKV(h, m, "copy-shares"); } break;
				case 7: log += "move;"; begin(log); { Headers c(std::move(h)); sameKV(c, m, "move"); Headers d{{"q", "1"}}; d = std::move(c); sameKV(d, m, "move"); h = d; } break;
				default: log += "self-assign;"; begin(log); { auto& r = h; h = r; } }
			expect(h.has(k) == (m.count(l) > 0), "has"); same(h.get(upper(k)), m.count(l) && m[l].size() ? m[l][0] : "", "get"); expect(h.getAll(k) == (m.count(l) ? m[l] : vector<string>{}), "getAll"); expect(!h.has("not-there") && h.get("not-there").empty() && h.getAll("not-there").empty(), "absent");
			sameKV(h, m, "content"); }
		string a = key(), b = key(), x = from(" v\t", 3), y = from(" v\n", 3); begin("init " + esc(a) + esc(x) + esc(b) + esc(y)); Headers i{{a, x}, {b, y}}; KV w; w[trim(lower(a))].push_back(trim(x)); w[trim(lower(b))].push_back(trim(y)); sameKV(i, w, "init"); }
	return done(); }
