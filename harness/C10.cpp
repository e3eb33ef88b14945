// SRC: core/http/method.cpp core/http/status.cpp core/polyfill/strings.cpp
#include "http.hpp"
using namespace hs; using namespace Lambda::HTTP;
static const vector<pair<string, Methods>> MS{{"GET", Methods::GET}, {"POST", Methods::POST}, {"PUT", Methods::PUT}, {"DELETE", Methods::DEL}, {"HEAD", Methods::HEAD}, {"OPTIONS", Methods::OPTIONS}, {"TRACE", Methods::TRACE}, {"PATCH", Methods::PATCH}, {"CONNECT", Methods::CONNECT}};
static const map<unsigned, string> ST{{100,"Continue"},{101,"Switching Protocols"},{102,"Processing"},{200,"OK"},{201,"Created"},{202,"Accepted"},{203,"Non-Authoritative Information"},{204,"No Content"},{205,"Reset Content"},{206,"Partial Content"},{207,"Multi-Status"},{226,"IM Used"},{300,"Multiple Choices"},{301,"Moved Permanently"},{302,"Found"},{303,"See Other"},{304,"Not Modified"},{305,"Use Proxy"},{307,"Temporary Redirect"},{308,"Permanent Redirect"},{400,"Bad Request"},{401,"Unauthorized"},{402,"Payment Required"},{403,"Forbidden"},{404,"Not Found"},{405,"Method Not Allowed"},{406,"Not Acceptable"},{407,"Proxy Authentication Required"},{408,"Request Timeout"},{409,"Conflict"},{410,"Gone"},{411,"Length Required"},{412,"Precondition Failed"},{413,"Payload Too Large"},{414,"URI Too Long"},{415,"Unsupported Media Type"},{416,"Range Not Satisfiable"},{417,"Expectation Failed"},{418,"I'm a teapot"},{422,"Unprocessable Entity"},{423,"Locked"},{424,"Failed Dependency"},{426,"Upgrade Required"},{428,"Precondition Required"},{429,"Too Many Requests"},{431,"Request Header Fields Too Large"},{451,"Unavailable For Legal Reasons"},{500,"Internal Server Error"},{501,"Not Implemented"},{502,"Bad Gateway"},{503,"Service Unavailable"},{504,"Gateway Time-out"},{505,"HTTP Version Not Supported"},{506,"Variant Also Negotiates"},{507,"Insufficient Storage"},{511,"Network Authentication Required"}};
static void method(const string& s) { begin("method " + esc(s)); string c = upper(trim(s)); const pair<string, Methods>* w = 0; for (auto& m : MS) if (m.first == c) w = &m; std::optional<Method> g; auto t = thrown([&] { g.emplace(s); }); expect(!!g == !!w, w ? "method-rejected" : "method-accepted"); if (s.find('\0') == string::npos) { std::optional<Method> p; thrown([&] { p.emplace(s.c_str()); }); expect(!!p == !!w, "method-chars"); if (p && g) expect(*p == *g, "method-chars"); }
	if (g && w) { expect((Methods)*g == w->second, "method-value"); same(g->toString(), w->first, "method-name"); same((string)*g, w->first, "method-name"); expect(Method(g->toString()) == *g, "method-round-trip"); expect(*g == w->first && *g == lower(w->first), "method-equals-name"); for (auto& m : MS) { Method o(m.first); expect((o == *g) == (m.second == w->second), "method-equality"); expect((*g == m.first) == (m.second == w->second), "method-equals-name"); expect((*g == m.first.c_str()) == (m.second == w->second), "method-equals-name"); } expect((*g == s) == (upper(s) == w->first), "method-equals-name"); } }
static void status(uint32_t k) { begin("status " + std::to_string(k)); auto w = ST.find(k); std::optional<Status> g; auto t = thrown([&] { g.emplace(k); }); expect(!!g == (w != ST.end()), "status-validity"); if (g && w != ST.end()) { expect(g->code() == k, "status-code"); same(g->text(), w->second, "status-text"); } Status s(k, "custom"); expect(s.code() == k, "status-code"); same(s.text(), string("custom"), "status-text"); using T = Status::Type; T ty = k < 200 ? T::Info : k < 300 ? T::Success : k < 400 ? T::Redirect : k < 500 ? T::ClientError : T::ServerError; expect(s.type() == ty, "status-type"); }
int main() { init(); section("methods"); begin("defaults"); expect((Methods)Method() == Methods::GET, "method-default"); expect(Status().code() == 200 && Status().text() == "OK", "status-default");
	for (auto& m : MS) for (auto& p : {"", " ", "\t", "\r\n", "x"}) { method(p + m.first); method(m.first + p); method(lower(m.first) + p); method(m.first.substr(1)); method(m.first.substr(0, m.first.size() - 1)); method(p + m.first + p + m.first); for (size_t i = 0; i < m.first.size(); i++) { string x = m.first; x[i] ^= 0x20; method(x); x[i] = m.first[i] + 1; method(x); x[i] = '@'; method(x); } }
	method(""); method("DEL"); for (uint32_t k = 0; k < 1200; k++) { status(k); status(k << 16 | k); status(~k); }
	while (more(0.5)) { method(anystr("GETPOSUgetpos \t", 8)); status((uint32_t)rng.next()); }
	return done(); }
