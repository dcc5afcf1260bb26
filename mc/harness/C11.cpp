// C11: dates and times.
#include "mc_main.hpp"
#include "mcv.hpp"
#include "vmime/utility/datetimeUtils.hpp"
#include "vmime/platforms/posix/posixHandler.hpp"
#include <ctime>
using namespace vmime;
typedef utility::datetimeUtils U;

static time_t gNow = -1;
extern "C" time_t time(time_t* p) { time_t t = gNow; if (gNow == time_t(-1)) { timespec ts; clock_gettime(CLOCK_REALTIME, &ts); t = ts.tv_sec; } if (p) *p = t; return t; }

/** days since 1970-01-01 of a date of the proleptic Gregorian calendar, by counting years and months */
static bool leap(int y) { if (y % 400 == 0) return true; if (y % 100 == 0) return false; return y % 4 == 0; }
static int dim(int y, int m) { switch (m) { case 2: return leap(y) ? 29 : 28; case 4: case 6: case 9: case 11: return 30; default: return 31; } }
static long yearStart(int y) { static std::map <int, long> memo; auto i = memo.find(y); if (i != memo.end()) return i->second; long d = 0; if (y >= 1970) for (int k = 1970 ; k < y ; ++k) d += leap(k) ? 366 : 365; else for (int k = y ; k < 1970 ; ++k) d -= leap(k) ? 366 : 365; return memo[y] = d; }
static long days(int y, int m, int d) { long n = yearStart(y); for (int k = 1 ; k < m ; ++k) n += dim(y, k); return n + d - 1; }
static int wday(long n) { return int(((n + 4) % 7 + 7) % 7); }   // 1970-01-01 was a Thursday
static int isoWeek(int y, int m, int d) { // the week belongs to the year of its Thursday
	const long n = days(y, m, d); const long th = n - (wday(n) + 6) % 7 + 3;
	int ty = y; if (th < yearStart(y)) ty = y - 1; else if (th >= yearStart(y + 1)) ty = y + 1;
	return int((th - yearStart(ty)) / 7) + 1;
}
static long long instant(const datetime& d) { return ((days(d.getYear(), d.getMonth(), d.getDay()) * 24LL + d.getHour()) * 60 + d.getMinute() - d.getZone()) * 60 + d.getSecond(); }
static S show(const datetime& d) { char b[96]; snprintf(b, 96, "%d-%02d-%02d %02d:%02d:%02d %+d", d.getYear(), d.getMonth(), d.getDay(), d.getHour(), d.getMinute(), d.getSecond(), d.getZone()); return b; }

static void roundTrip(mc::Run& R, const datetime& d) {
	const S g = d.generate(); R.outcome(g);
	datetime p; p.parse(g); R.equal(show(p), show(d), "date read from " + R.show(g));
	datetime q(2011, 11, 11, 11, 11, 11, 111); q.parse(" " + g + " (c)"); R.equal(show(q), show(d), "date read again from " + R.show(g));
	CHECK(p == d && !(p != d) && p <= d && p >= d && !(p < d) && !(p > d), "comparison of " + show(d) + " with itself");
	static const char* W[] = {"Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat"};
	R.equal(g.substr(0, 3), S(W[wday(days(d.getYear(), d.getMonth(), d.getDay()))]), "day of week in " + R.show(g));
}
static void convert(mc::Run& R, const datetime& d, int zone) {
	const datetime u = U::toUniversalTime(d); R.transition();
	R.equal(u.getZone(), 0, "zone of the universal time");
	CHECK(u.getMonth() >= 1 && u.getMonth() <= 12 && u.getDay() >= 1 && u.getDay() <= dim(u.getYear(), u.getMonth()) && u.getHour() >= 0 && u.getHour() < 24 && u.getMinute() >= 0 && u.getMinute() < 60, "invalid date " + show(u) + " from " + show(d));
	R.equal(instant(u), instant(d), "instant of " + show(u) + " from " + show(d));
	const datetime l = U::toLocalTime(d, zone);
	R.equal(l.getZone(), zone, "zone of the local time"); R.equal(instant(l), instant(d), "instant of " + show(l) + " from " + show(d) + " in zone " + str(zone));
	CHECK(l.getMonth() >= 1 && l.getMonth() <= 12 && l.getDay() >= 1 && l.getDay() <= dim(l.getYear(), l.getMonth()) && l.getHour() >= 0 && l.getHour() < 24 && l.getMinute() >= 0 && l.getMinute() < 60, "invalid date " + show(l) + " from " + show(d));
	R.equal(show(U::toLocalTime(u, d.getZone())), show(d), "local time of the universal time of " + show(d));
	R.equal(show(U::toUniversalTime(l)), show(u), "universal time of the local time of " + show(d));
}

void mc_main(mc::Run& R) {
	initPlatform();
	R.property = "C11";
	R.rule = "every day of the years 1583 to 2600 (calendar functions); every zone offset of a whole number of minutes up to 23:59 at the boundary days and times; every second of a day; all pairs of dates around equal instants; every form of the RFC 822/5322 grammar; every 20 minutes of two years in six time zones (system clock under control)";
	R.assumptions = {"proleptic Gregorian calendar computed by counting days", "years have four digits", "zone offsets are whole minutes below 24 hours"};
	const bool T = R.thorough;
	for (int y = 1583 ; y <= (T ? 9998 : 2600) ; ++y) R.testL([&] { return "year|" + str(y); }, [&] {
		R.equal(U::isLeapYear(y), leap(y), "leap year " + str(y));
		for (int m = 1 ; m <= 12 ; ++m) {
			R.equal(U::getDaysInMonth(y, m), dim(y, m), "days in month " + str(m));
			for (int d = 1 ; d <= dim(y, m) ; ++d) {
				const S w = str(y) + "-" + str(m) + "-" + str(d); const datetime dt(y, m, d); R.transition();
				R.equal(U::getDayOfWeek(y, m, d), wday(days(y, m, d)), "day of week of " + w); R.equal(dt.getWeekDay(), wday(days(y, m, d)), "week day of " + w);
				const int iw = isoWeek(y, m, d);
				R.equal(U::getWeekOfYear(y, m, d, true), iw, "ISO week of " + w);
				R.equal(dt.getWeek(), iw == 1 && m == 12 ? 53 : iw, "week of " + w);
				R.outcome(str(wday(days(y, m, d))) + "/" + str(iw));
			}
			for (int d : {0, -1, dim(y, m) + 1, 32}) { bool th = false; try { U::getDayOfWeek(y, m, d); } catch (std::out_of_range&) { th = true; } CHECK(th, "invalid day accepted"); }
		}
		for (int m : {0, 13, -1}) { bool th = false; try { U::getDaysInMonth(y, m); } catch (std::out_of_range&) { th = true; } CHECK(th, "invalid month accepted"); }
		for (int m = 1 ; m <= 12 ; ++m) for (int d : {1, 9, 10, dim(y, m)}) roundTrip(R, datetime(y, m, d, d % 24, (d * 7) % 60, (d * 13) % 60, (y % 25 - 12) * 60 + (m % 4) * 15));
	});
	struct D { int y, m, d; }; const std::vector <D> B = {{2000, 1, 1}, {1999, 12, 31}, {2000, 2, 28}, {2000, 2, 29}, {2000, 3, 1}, {2001, 2, 28}, {1900, 3, 1}, {2004, 2, 29}, {2010, 4, 30}, {2010, 5, 1}, {2099, 12, 31}, {1970, 1, 1}, {2100, 2, 28}, {2023, 10, 31}};
	struct H { int h, m, s; }; const std::vector <H> TM = {{0, 0, 0}, {0, 0, 59}, {0, 1, 0}, {0, 59, 1}, {1, 0, 0}, {12, 30, 15}, {22, 59, 59}, {23, 0, 0}, {23, 59, 59}};
	for (int z = -1439 ; z <= 1439 ; ++z) R.testL([&] { return "zone|" + str(z); }, [&] {
		for (auto& b : B) for (auto& t : TM) {
			const datetime d(b.y, b.m, b.d, t.h, t.m, t.s, z);
			if (T || (&t - &TM[0]) % 3 == (z + 1440) % 3) roundTrip(R, d);
			for (int z2 : {0, 60, -60, 330, -570, 1439, -1439, -z}) convert(R, d, z2);
		}
	});
	for (int h = 0 ; h < 24 ; ++h) R.testL([&] { return "hour|" + str(h); }, [&] {
		for (int m = 0 ; m < 60 ; ++m) for (int s = 0 ; s <= 60 ; ++s) { if (s == 60 && m != 59) continue; roundTrip(R, datetime(2012, 2, 29, h, m, s, (h - 12) * 60 + m)); if (s < 60) convert(R, datetime(2012, 2, 29, h, m, s, (h - 12) * 60 + m), (m - 30) * 20 + s); }
	});
	// order
	{
		std::vector <datetime> v;
		for (auto& b : B) for (int z : {0, 90, -600}) for (int k : {-1, 0, 1}) {
			long long s = (days(b.y, b.m, b.d) * 24LL) * 3600 + k + z * 60LL; long n = long(s >= 0 ? s / 86400 : -((86399 - s) / 86400)); long r = long(s - n * 86400LL);
			int y = b.y - 1; while (days(y + 1, 1, 1) <= n) ++y; int m = 1; long q = n - yearStart(y); while (q >= dim(y, m)) q -= dim(y, m++);
			v.push_back(datetime(y, m, int(q) + 1, int(r / 3600), int(r / 60 % 60), int(r % 60), z));
		}
		for (size_t i = 0 ; i < v.size() ; ++i) R.testL([&] { return "order|" + show(v[i]); }, [&] {
			for (auto& b : v) {
				const datetime& a = v[i]; const long long x = instant(a), y = instant(b); const S w = show(a) + " and " + show(b); R.transition();
				R.equal(a == b, x == y, "== of " + w); R.equal(a != b, x != y, "!= of " + w); R.equal(a < b, x < y, "< of " + w); R.equal(a <= b, x <= y, "<= of " + w); R.equal(a > b, x > y, "> of " + w); R.equal(a >= b, x >= y, ">= of " + w);
				R.outcome(str(x < y) + str(x == y));
			}
		});
	}
	// time_t
	for (long day = -20000 ; day <= 60000 ; day += (T ? 1 : 7)) R.testL([&] { return "time_t|" + str(day); }, [&] {
		for (long s : {0L, 1L, 3599L, 43200L, 86399L}) { const time_t t = time_t(day) * 86400 + s; const datetime d(t); R.equal(instant(d), (long long) t, "instant of " + show(d)); R.equal(d.getZone(), 0, "zone");
			for (int z : {-720, -330, -59, -1, 1, 60, 330, 345, 840}) { const datetime l(t, z); R.equal(instant(l), (long long) t, "instant of " + show(l)); R.equal(l.getZone(), z, "zone"); } }
	});
	// grammar
	static const char* MN[] = {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"};
	struct Z { const char* s; int z; }; static const Z ZN[] = {{"+0000", 0}, {"-0000", 0}, {"+0530", 330}, {"-0930", -570}, {"GMT", 0}, {"UT", 0}, {"Z", 0}, {"EST", -300}, {"EDT", -240}, {"CST", -360}, {"CDT", -300}, {"MST", -420}, {"MDT", -360}, {"PST", -480}, {"PDT", -420}, {"est", -300}, {"UTC", 0}, {"+1400", 840}, {"-1200", -720}, {"+0001", 1}};
	for (int m = 1 ; m <= 12 ; ++m) for (auto& z : ZN) R.testL([&] { return S("form|") + MN[m - 1] + z.s; }, [&] {
		for (int lc = 0 ; lc < 3 ; ++lc) for (int dn = 0 ; dn < 4 ; ++dn) for (int d : {1, 9, 10, 28}) for (int two = 0 ; two < 2 ; ++two) for (int y : {1997, 2000, 1950, 2049}) for (int secs = 0 ; secs < 2 ; ++secs) for (const S sp : {" ", "  ", "\r\n "}) for (const S tail : {"", " (comment)"}) {
			S mn = MN[m - 1]; if (lc == 1) for (char& c : mn) c = toupper(c); if (lc == 2) for (char& c : mn) c = tolower(c);
			char yb[16], tb[16]; snprintf(yb, 16, two ? "%02d" : "%d", two ? y % 100 : y); snprintf(tb, 16, secs ? "07:08:09" : "07:08");
			const S ds = d < 10 && lc == 1 ? "0" + str(d) : str(d);
			const S src = (dn == 0 ? S() : dn == 1 ? "Fri," + sp : dn == 2 ? "fri, " : "Fri" + sp + ",") + ds + sp + mn + sp + yb + sp + tb + sp + z.s + tail;
			const S want = show(datetime(y, m, d, 7, 8, secs ? 9 : 0, z.z));
			datetime p; p.parse(src); R.equal(show(p), want, "date of " + R.show(src)); R.outcome(want); R.transition();
			datetime q(2011, 11, 11, 11, 11, 11, 111); q.parse(src); R.equal(show(q), want, "date read again from " + R.show(src));
			const S pad = "99x " + src + "5:30"; datetime r(1990, 10, 11, 12, 13, 14, 15); r.parse(pad, 4, 4 + src.size()); R.equal(show(r), want, "date of a region of " + R.show(pad));
		}
	});
	// current time
	static const char* TZS[] = {"UTC0", "CET-1CEST,M3.5.0,M10.5.0/3", "EST5EDT,M3.2.0,M11.1.0", "IST-5:30", "NZST-12NZDT,M9.5.0,M4.1.0/3", "LHST-10:30LHDT-11,M10.1.0,M4.1.0"};
	for (auto tz : TZS) for (int mon = 0 ; mon < 24 ; ++mon) R.testL([&] { return S("now|") + tz + "|" + str(mon); }, [&] {
		setenv("TZ", tz, 1); tzset();
		for (time_t t = 1640995200 + mon * 2629800L ; t < 1640995200 + (mon + 1) * 2629800L ; t += 1200) { gNow = t; const datetime d = datetime::now(); gNow = -1; R.equal(instant(d), (long long) t, "current time " + show(d) + " in " + tz); R.transition(); }
		setenv("TZ", "UTC", 1); tzset();
	});
}
