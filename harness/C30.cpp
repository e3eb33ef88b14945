// SRC: core/polyfill/date.cpp
#include "h.hpp"
#include <core/polyfill/polyfill.hpp>
using namespace hs; using namespace Lambda;
static void check(int64_t t) { hs::begin("time " + std::to_string(t)); int64_t d = t / 86400, s = t % 86400; if (s < 0) { s += 86400; d--; }
	int64_t wd = ((d % 7) + 11) % 7; int64_t z = d + 719468, era = (z >= 0 ? z : z - 146096) / 146097, doe = z - era * 146097, yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365, y = yoe + era * 400, doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153, day = doy - (153 * mp + 2) / 5 + 1, m = mp < 10 ? mp + 3 : mp - 9; if (m <= 2) y++;
	static const char* W[] = {"Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat"}; static const char* M[] = {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"};
	auto p2 = [](int64_t v) { return string(1, (char)('0' + v / 10)) + (char)('0' + v % 10); }; string ys = std::to_string(y), date = p2(day) + " " + M[m - 1] + " " + ys, time = p2(s / 3600) + ":" + p2(s / 60 % 60) + ":" + p2(s % 60);
	Date x((time_t)t); Date c(x); same(c.toUTCString(), string(W[wd]) + ", " + date + " " + time + " GMT", "utc"); same(x.toHRTString(), date + " " + time, "hrt"); same(x.getDate(), string(W[wd]) + ", " + date, "date");
	expect(x.getTime() == t, "time"); expect(x.getSeconds() == s % 60 && x.getMinutes() == s / 60 % 60 && x.getHours() == s / 3600, "clock"); expect(x.getDay() == day && x.getMonth() == m - 1 && x.getYear() == y - 1900, "calendar"); }
int main() { init(); section("dates"); setenv("TZ", rng.below(2) ? "America/New_York" : "XXX-5:30", 1); tzset(); int64_t max = 67767976233532799LL, min = -62135596800LL; for (int64_t k : {0LL, 1LL, -1LL, 951782399LL, 951782400LL, 951868799LL, 951868800LL, 4107542400LL, 2147483647LL, 2147483648LL, 4294967295LL, 4294967296LL, 253402300799LL, 253402300800LL}) check(k); check(max); check(min);
	for (int64_t d = -1000; d < 60000; d++) { check(d * 86400); check(d * 86400 - 1); if (d % 16 == 0 && !more(0.5)) break; } { time_t a = time(0); Date n; time_t b = time(0); hs::begin("now"); expect(n.getTime() >= a && n.getTime() <= b && n.toUTCString() == Date(n.getTime()).toUTCString(), "now"); }
	while (more()) { check((int64_t)rng.below(4000000000u)); check(min + (int64_t)rng.below((uint64_t)(253402300799LL - min))); check((int64_t)rng.below((uint64_t)max)); }
	return done(); }
