/* Dates: civil arithmetic redone here, the offsets of local time taken from
 * POSIX TZ rules computed here as well. */
#include <lib-common/core.h>
#include <lib-common/datetime.h>
#include <locale.h>
#include "pt.h"

#define U(n)  pt_u(t, (n) - 1)
#define P(n)  pt_p(t, (n), 100)

const char pt_rule[] =
    "fmt: timestamps formatted in UTC and in zones, compared with a civil "
    "calendar and parsed back; parse: texts of the accepted formats (ISO, "
    "syslog, RFC822, Unix, relative) and damaged ones in exact-size buffers; "
    "period: start of minute/hour/day/week/month/year in zones with and "
    "without daylight saving; tv: timeval arithmetic against 64-bit "
    "microseconds; misc: day counts, short dates, splits, durations. "
    "non-trivial: the text was accepted, or the date lies within two days of "
    "a change of offset, month or year, or an operand was negative or carried";

/* {{{ zones */

typedef struct zone_t {
    const char *tz;
    int std, dst;            /* seconds east of UTC */
    bool has_dst;
    /* month, week, day of week, seconds in local time before the change */
    int sm, sw, sd, st;
    int em, ew, ed, et;
    bool midnight;
} zone_t;

static const zone_t zones[] = {
    { "UTC0", 0, 0, false },
    { "CET-1CEST,M3.5.0,M10.5.0/3", 3600, 7200, true,
      3, 5, 0, 7200, 10, 5, 0, 10800 },
    { "EST5EDT,M3.2.0,M11.1.0", -18000, -14400, true,
      3, 2, 0, 7200, 11, 1, 0, 7200 },
    { "IST-5:30", 19800, 19800, false },
    { "NPT-5:45", 20700, 20700, false },
    { "NST3:30NDT,M3.2.0,M11.1.0", -12600, -9000, true,
      3, 2, 0, 7200, 11, 1, 0, 7200 },
    { "AEST-10AEDT,M10.1.0,M4.1.0/3", 36000, 39600, true,
      10, 1, 0, 7200, 4, 1, 0, 10800 },
    { "WAK-12", 43200, 43200, false },
    { "LIN-14", 50400, 50400, false },
    { "BIT12", -43200, -43200, false },
    { "MMT0:30", -1800, -1800, false },
    { "LHST-10:30LHDT-11,M10.1.0,M4.1.0", 37800, 39600, true,
      10, 1, 0, 7200, 4, 1, 0, 7200 },
    { "BRT3BRST,M10.3.0/0,M2.3.0/0", -10800, -7200, true,
      10, 3, 0, 0, 2, 3, 0, 0 },
};

static int64_t fdiv(int64_t a, int64_t b)
{
    int64_t q = a / b;
    return (a % b != 0 && ((a < 0) != (b < 0))) ? q - 1 : q;
}
static int64_t fmod_(int64_t a, int64_t b)
{
    return a - fdiv(a, b) * b;
}

static bool leap(int64_t y)
{
    return (fmod_(y, 4) == 0 && fmod_(y, 100) != 0) || fmod_(y, 400) == 0;
}
static int mdays(int64_t y, int m)
{
    static const int d[] = { 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 };
    return m == 2 && leap(y) ? 29 : d[m - 1];
}
/* days since 1970-01-01 (proleptic Gregorian) */
static int64_t days_civil(int64_t y, int m, int d)
{
    int64_t n;
    int64_t y1 = y - 1;

    n = 365 * y1 + fdiv(y1, 4) - fdiv(y1, 100) + fdiv(y1, 400);
    n -= 719162;
    for (int i = 1; i < m; i++) {
        n += mdays(y, i);
    }
    return n + d - 1;
}
typedef struct civ_t {
    int64_t y;
    int m, d, H, M, S, wday, yday;
} civ_t;
static civ_t civil(int64_t secs)
{
    civ_t c = { .y = 0 };
    int64_t days = fdiv(secs, 86400);
    int64_t r = fmod_(secs, 86400);

    c.H = r / 3600;
    c.M = r / 60 % 60;
    c.S = r % 60;
    c.wday = fmod_(days + 4, 7);
    c.y = 1970 + fdiv(days, days < 0 ? 365 : 366) - 1;
    while (days_civil(c.y + 1, 1, 1) <= days) {
        c.y++;
    }
    c.yday = days - days_civil(c.y, 1, 1);
    c.m = 1;
    c.d = c.yday + 1;
    while (c.d > mdays(c.y, c.m)) {
        c.d -= mdays(c.y, c.m);
        c.m++;
    }
    return c;
}

/* day (since epoch) of the rule Mm.w.d in the year */
static int64_t rule_day(int64_t y, int m, int w, int d)
{
    int64_t first = days_civil(y, m, 1);
    int wd = fmod_(first + 4, 7);
    int64_t day = first + fmod_(d - wd, 7) + 7 * (w - 1);

    while (day >= first + mdays(y, m)) {
        day -= 7;
    }
    return day;
}
static int64_t next_change(const zone_t *z, int64_t y, bool start)
{
    return start ? rule_day(y, z->sm, z->sw, z->sd) * 86400 + z->st - z->std
                 : rule_day(y, z->em, z->ew, z->ed) * 86400 + z->et - z->dst;
}
static int offset(const zone_t *z, int64_t ts)
{
    int64_t s, e, y;

    if (!z->has_dst) {
        return z->std;
    }
    y = civil(ts + z->std).y;
    s = next_change(z, y, true);
    e = next_change(z, y, false);
    if (s < e) {
        return ts >= s && ts < e ? z->dst : z->std;
    }
    return ts >= s || ts < e ? z->dst : z->std;
}
static civ_t local(const zone_t *z, int64_t ts)
{
    return civil(ts + offset(z, ts));
}
/* the timestamp of a local civil time that exists once */
static bool unlocal(const zone_t *z, int64_t secs, int64_t *ts)
{
    int64_t a = secs - z->std, b = secs - z->dst;
    bool oka = offset(z, a) == z->std;
    bool okb = offset(z, b) == z->dst;

    if (z->std == z->dst) {
        *ts = a;
        return true;
    }
    if (oka == okb) {
        return false;
    }
    *ts = oka ? a : b;
    return true;
}

static const zone_t *gen_zone(pt_t *t)
{
    const zone_t *z = &zones[U(countof(zones))];

    setenv("TZ", z->tz, true);
    tzset();
    pt_note(t, "TZ=%s", z->tz);
    return z;
}

static int64_t gen_ts(pt_t *t, const zone_t *z, int64_t ymin, int64_t ymax)
{
    int64_t y, ts;

    /* the C library does not apply TZ rules before 1971 */
    if (z && z->has_dst && ymin < 1972) {
        ymin = 1972;
    }
    y = ymin + U(ymax - ymin + 1);

    if (P(50)) {
        y = y < 1960 || y > 2050 ? 1972 + U(80) : y;
    }
    if (P(20)) {
        static const int ys[] = { 1970, 2000, 2100, 2038, 1999, 2024, 1900, 2004 };
        int k = ys[U(countof(ys))];

        if (k >= ymin && k <= ymax) {
            y = k;
        }
    }
    switch (U(5)) {
      case 0: /* near a change of offset */
        if (z && z->has_dst) {
            ts = next_change(z, y, pt_bool(t));
            ts += pt_range(t, -90000, 90000);
            if (P(50)) {
                ts = ts / 60 * 60 + (int)U(3) - 1;
            }
            pt_nontrivial(t);
            break;
        }
        /* FALLTHROUGH */
      case 1: /* near the start of a month */
        ts = days_civil(y, 1 + U(12), 1) * 86400 - (z ? z->std : 0);
        ts += pt_range(t, -90000, 90000);
        pt_nontrivial(t);
        break;
      case 2: /* around a start of day, hour */
        ts = (days_civil(y, 1, 1) + U(366)) * 86400 - (z ? z->std : 0);
        ts += (int64_t)3600 * U(24) + pt_range(t, -2, 2);
        break;
      default:
        ts = days_civil(y, 1, 1) * 86400 + U(366 * 86400);
        break;
    }
    ts += P(10) ? 86400 * pt_range(t, -3, 3) : 0;
    if (ts < days_civil(ymin, 1, 2) * 86400) {
        ts = days_civil(ymin, 1, 2) * 86400;
    }
    if (ts >= days_civil(ymax, 12, 31) * 86400) {
        ts = days_civil(ymax, 12, 31) * 86400 - 1;
    }
    pt_note(t, "ts=%jd", (intmax_t)ts);
    return ts;
}

/* }}} */
/* {{{ fmt */

static void check_parse(pt_t *t, const char *s, int64_t ts, const char *what)
{
    int len = strlen(s);
    char *b = (malloc)(len + !len);
    pstream_t ps;
    time_t r = 0x5aa5;

    memcpy(b, s, len);
    ps = ps_init(b, len);
    PT_CHECK(t, time_parse_iso8601(&ps, &r) == 0, "%s: `%s` refused", what, s);
    PT_CHECK(t, r == ts, "%s: `%s` read as %jd, not %jd", what, s,
             (intmax_t)r, (intmax_t)ts);
    (free)(b);
}

static void run_fmt(pt_t *t)
{
    t_scope;
    const zone_t *z = gen_zone(t), *z2 = &zones[U(countof(zones))];
    int64_t ts = gen_ts(t, z, P(30) ? 1 : 1902, P(30) ? 9999 : 2098);
    int ms = U(1000);
    civ_t c = civil(ts), l;
    char exp[64], got[64];
    const char *tz;
    const zone_t *zz;
    bool parse = c.y > 1901 && c.y < 2099;
    int off;
    SB_1k(sb);

    if (z2->has_dst && ts < 3 * 365 * 86400) {
        z2 = &zones[3];
    }
    memset(got, 0x7e, sizeof(got));
    (snprintf)(exp, sizeof(exp), "%04d-%02d-%02dT%02d:%02d:%02dZ", (int)c.y,
               c.m, c.d, c.H, c.M, c.S);
    {
        char *hb = (malloc)(21);
        time_fmt_iso8601(hb, ts);
        PT_CHECK(t, !strcmp(hb, exp), "iso8601: `%s`, not `%s`", hb, exp);
        (free)(hb);
    }
    PT_CHECK(t, lstr_equal(t_fmt_date_time_iso8601(ts), LSTR(exp)), "t_fmt");
    sb_adds(&sb, "x");
    sb_add_time_iso8601(&sb, ts);
    PT_CHECK(t, sb.len == 21 && !strcmp(sb.data + 1, exp), "sb: `%s`, not `%s`",
             sb.data + 1, exp);
    if (parse) {
        check_parse(t, exp, ts, "iso8601");
    }
    (snprintf)(exp, sizeof(exp), "%04d-%02d-%02dT%02d:%02d:%02d.%03dZ",
               (int)c.y, c.m, c.d, c.H, c.M, c.S, ms);
    {
        char *hb = (malloc)(25);
        time_fmt_iso8601_msec(hb, ts, ms);
        PT_CHECK(t, !strcmp(hb, exp), "iso8601_msec: `%s`, not `%s`", hb, exp);
        (free)(hb);
    }
    sb_sets(&sb, "y");
    sb_add_time_iso8601_msec(&sb, ts, ms);
    PT_CHECK(t, sb.len == 25 && !strcmp(sb.data + 1, exp), "sb msec: `%s`",
             sb.data);
    if (parse) {
        check_parse(t, exp, ts, "iso8601_msec");
    }

    /* local time, of the process or of a given zone */
    if (P(10)) {
        unsetenv("TZ");
        tzset();
        z = NULL;
    }
    tz = !z || pt_bool(t) ? z2->tz : NULL;
    zz = tz ? z2 : z;
    off = offset(zz, ts);
    l = civil(ts + off);
    if (l.y < 1 || l.y > 9999) {
        return;
    }
    (snprintf)(exp, sizeof(exp), "%04d-%02d-%02dT%02d:%02d:%02d%c%02d:%02d",
               (int)l.y, l.m, l.d, l.H, l.M, l.S, off < 0 ? '-' : '+',
               abs(off) / 3600, abs(off) / 60 % 60);
    {
        char *hb = (malloc)(26);
        time_fmt_localtime_iso8601(hb, ts, tz);
        PT_CHECK(t, !strcmp(hb, exp), "local iso8601 (%s): `%s`, not `%s`",
                 zz->tz, hb, exp);
        (free)(hb);
    }
    sb_sets(&sb, "y");
    sb_add_localtime_iso8601(&sb, ts, tz);
    PT_CHECK(t, sb.len == 26 && !strcmp(sb.data + 1, exp), "sb local: `%s`",
             sb.data);
    if (parse) {
        check_parse(t, exp, ts, "local iso8601");
    }
    (snprintf)(exp, sizeof(exp), "%04d-%02d-%02dT%02d:%02d:%02d.%03d%c%02d:%02d",
               (int)l.y, l.m, l.d, l.H, l.M, l.S, ms, off < 0 ? '-' : '+',
               abs(off) / 3600, abs(off) / 60 % 60);
    {
        char *hb = (malloc)(30);
        time_fmt_localtime_iso8601_msec(hb, ts, ms, tz);
        PT_CHECK(t, !strcmp(hb, exp), "local iso8601_msec: `%s`, not `%s`", hb,
                 exp);
        (free)(hb);
    }
    sb_sets(&sb, "y");
    sb_add_localtime_iso8601_msec(&sb, ts, ms, tz);
    PT_CHECK(t, sb.len == 30 && !strcmp(sb.data + 1, exp), "sb local ms: `%s`",
             sb.data);
    if (parse) {
        check_parse(t, exp, ts, "local iso8601_msec");
    }

    /* the zone of the process did not change */
    if (z) {
        PT_CHECK(t, getenv("TZ") && !strcmp(getenv("TZ"), z->tz),
                 "TZ became %s", getenv("TZ") ?: "unset");
    } else {
        PT_CHECK(t, !getenv("TZ"), "TZ became set");
    }
    {
        struct tm tm;
        time_t x = ts;

        localtime_r(&x, &tm);
        PT_CHECK(t, tm.tm_gmtoff == (z ? offset(z, ts) : 0),
                 "offset of the process became %ld", tm.tm_gmtoff);
        PT_CHECK(t, time_get_localtime(&x, &tm, tz) == &tm, "ret");
        PT_CHECK(t, tm.tm_gmtoff == off && tm.tm_year == l.y - 1900
                 && tm.tm_mon == l.m - 1 && tm.tm_mday == l.d
                 && tm.tm_hour == l.H && tm.tm_min == l.M && tm.tm_sec == l.S
                 && tm.tm_wday == l.wday && tm.tm_yday == l.yday, "fields");
    }

    /* strftime wrapper */
    if (z) {
        static const char *locs[] = { NULL, NULL, "C", "POSIX", "C.UTF-8" };
        const char *cur = P(50) ? "C.UTF-8" : "C";
        const char *loc = locs[U(countof(locs))];
        char before[64];
        int size, res, elen;
        char *out;

        if (!setlocale(LC_TIME, cur)) {
            setlocale(LC_TIME, "C");
        }
        (snprintf)(before, sizeof(before), "%s", setlocale(LC_TIME, NULL));
        l = local(z, ts);
        if (pt_bool(t)) {
            (snprintf)(exp, sizeof(exp), "%jd", (intmax_t)ts);
            elen = strlen(exp);
            size = elen + 2 - (int)U(5);
            size = size < 1 ? 1 : size;
            out = (malloc)(size);
            res = format_timestamp("%s", ts, loc, out, size);
        } else {
            (snprintf)(exp, sizeof(exp), "%d/%02d/%02d %02d-%02d-%02d",
                       (int)l.y, l.m, l.d, l.H, l.M, l.S);
            elen = strlen(exp);
            size = elen + 2 - (int)U(5);
            out = (malloc)(size);
            res = format_timestamp("%Y/%m/%d %H-%M-%S", ts, loc, out, size);
        }
        pt_note(t, "format_timestamp size=%d exp=%s", size, exp);
        if (size > elen) {
            PT_CHECK(t, res == elen && !strcmp(out, exp),
                     "format_timestamp: %d `%s`, not `%s`", res, out, exp);
        } else {
            PT_CHECK(t, res == -1, "format_timestamp in %d bytes: %d", size,
                     res);
        }
        PT_CHECK(t, !strcmp(before, setlocale(LC_TIME, NULL)),
                 "format_timestamp changed the locale to %s",
                 setlocale(LC_TIME, NULL));
        (free)(out);
        setlocale(LC_TIME, "C");
    }
}

/* }}} */
/* {{{ parse */

static const struct { const char *n; int off; } tznames[] = {
    { "Z", 0 }, { "z", 0 }, { "GMT", 0 }, { "gmt", 0 }, { "UT", 0 },
    { "UTC", 0 }, { "utc", 0 }, { "EDT", -4 }, { "EST", -5 }, { "est", -5 },
    { "CDT", -5 }, { "CST", -6 }, { "MDT", -6 }, { "MST", -7 }, { "PDT", -7 },
    { "PST", -8 }, { "Pst", -8 }, { "A", -1 }, { "M", -12 }, { "N", 1 },
    { "Y", 12 }, { "y", 12 },
};
static const char *mon[] = { "Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul",
                             "Aug", "Sep", "Oct", "Nov", "Dec" };
static const char *dow[] = { "Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat" };

static void recase(pt_t *t, char *s)
{
    int k = U(4);

    for (; *s; s++) {
        if (k == 1) {
            *s = tolower(*s);
        } else
        if (k == 2) {
            *s = toupper(*s);
        }
    }
}

static int put_tz(pt_t *t, char *s, bool *has)
{
    int off, h, m;
    bool neg;

    *has = true;
    if (P(40)) {
        int k = U(countof(tznames));

        strcpy(s, tznames[k].n);
        return tznames[k].off * 3600;
    }
    neg = pt_bool(t);
    h = U(15);
    m = P(50) ? 0 : U(60);
    off = h * 3600 + m * 60;
    switch (U(3)) {
      case 0:
        (sprintf)(s, "%c%02d:%02d", neg ? '-' : '+', h, m);
        break;
      case 1:
        (sprintf)(s, "%c%02d%02d", neg ? '-' : '+', h, m);
        break;
      default:
        (sprintf)(s, "%c%02d", neg ? '-' : '+', h);
        off = h * 3600;
        break;
    }
    return neg ? -off : off;
}

static void run_parse(pt_t *t)
{
    const zone_t *z = gen_zone(t);
    int64_t y = P(20) ? 1902 + U(197) : 1970 + U(100);
    int m = 1 + U(12), d = 1 + U(31);
    int H = P(15) ? 23 * U(2) : U(24), M = U(60), S = U(60);
    bool valid = true, has_tz = false, local_t = false, rel = false;
    bool iso = false, dayonly = false, syslog = false;
    int off = 0, kind = U(7), len;
    int64_t secs, exp = 0;
    char s[160], tz[32] = "", frac[32] = "";
    bool amb = false;
    unsigned flags = 0;
    time_t r = 0x77;
    char *b;
    pstream_t ps;
    int ret, fn;

    if (z->has_dst && y < 1972) {
        y = 1972;
    }
    if (P(20)) {
        d = 28 + U(5);
    }
    if (P(70) && d > mdays(y, m)) {
        d = mdays(y, m);
    }
    if (d > mdays(y, m)) {
        valid = false;
    }
    if (kind == 0 || kind == 1 || kind == 2) {
        iso = true;
        syslog = kind == 1;
        dayonly = kind == 2;
        if (P(5)) {
            m = pt_bool(t) ? 0 : 13 + U(3);
            valid = false;
        }
        if (P(20)) {
            (sprintf)(frac, ".%0*d", (int)(1 + U(9)), (int)U(10));
        }
        if (dayonly) {
            (sprintf)(s, P(80) ? "%04d-%02d-%02d" : "%d-%d-%d", (int)y, m, d);
            H = M = S = 0;
            local_t = true;
        } else {
            if (P(60)) {
                off = put_tz(t, tz, &has_tz);
            } else {
                local_t = true;
            }
            if (local_t && P(30)) {
                (sprintf)(s, "%04d-%02d-%02dT%02d%c%02d:%02d%s", (int)y, m, d, H,
                          pt_bool(t) ? 'L' : 'l', M, S, frac);
                syslog = false;
            } else {
                (sprintf)(s, "%04d-%02d-%02d%c%02d:%02d:%02d%s%s%s", (int)y, m,
                          d, syslog ? ' ' : pt_bool(t) ? 'T' : 't', H, M, S,
                          frac, syslog && has_tz ? " " : "", tz);
            }
        }
    } else
    if (kind == 3) { /* relative */
        static const char *unit[] = { "Y", "M", "D", "H", "M", "S" };
        struct tm tm;
        time_t now = lp_getsec();
        int last = -1, n = 0;
        int v[6];
        bool inT = false;
        int *f[6] = { &tm.tm_year, &tm.tm_mon, &tm.tm_mday, &tm.tm_hour,
                      &tm.tm_min, &tm.tm_sec };

        rel = iso = true;
        localtime_r(&now, &tm);
        strcpy(s, "P");
        for (int i = 0; i < 6; i++) {
            v[i] = pt_bool(t) ? pt_range(t, i == 0 ? -50 : -200, i == 0 ? 60 : 200) : 0;
            if (!v[i] && P(80)) {
                continue;
            }
            if (i >= 3 && !inT) {
                strcat(s, "T");
                inT = true;
            }
            (sprintf)(s + strlen(s), "%d%s", v[i], unit[i]);
            *f[i] += v[i];
            last = i;
            n++;
        }
        (void)n;
        if (last >= 0 && pt_bool(t)) {
            recase(t, s + 1);
        }
        tm.tm_isdst = -1;
        exp = mktime(&tm);
        valid = true;
    } else
    if (kind == 4 || kind == 5) { /* RFC822 */
        int64_t dd;

        if (d > mdays(y, m)) {
            d = mdays(y, m);
            valid = true;
        }
        dd = days_civil(y, m, d);
        if (P(60)) {
            off = put_tz(t, tz, &has_tz);
        } else {
            local_t = true;
        }
        if (kind == 5) {
            (sprintf)(s, "%s, ", dow[fmod_(dd + 4, 7)]);
        } else {
            s[0] = 0;
        }
        (sprintf)(s + strlen(s), P(50) ? "%d %s %04d %02d:%02d:%02d%s%s"
                                     : "%02d %s %04d %02d:%02d:%02d%s%s",
                  d, mon[m - 1], (int)y, H, M, S,
                  has_tz && P(90) ? " " : "", tz);
        recase(t, s);
    } else { /* Unix */
        int64_t v = pt_sbits(t, 62);

        if (P(30)) {
            v = 30000000000ll + pt_range(t, -3, 3);
        }
        (sprintf)(s, "%jd", (intmax_t)v);
        exp = v >= 30000000000ll ? v / 1000 : v;
        valid = true;
        rel = true;
    }
    if (!rel && valid) {
        secs = days_civil(y, m, d) * 86400 + H * 3600 + M * 60 + S;
        if (local_t) {
            amb = !unlocal(z, secs, &exp);
        } else {
            exp = secs - off;
        }
    }
    len = strlen(s);
    pt_note(t, "text=`%s` valid=%d", s, valid);

    fn = iso ? U(3) : 0;
    if (fn) {
        if (pt_bool(t)) {
            flags |= ISO8601_ALLOW_SYSLOG_FORMAT;
        }
        if (pt_bool(t)) {
            flags |= ISO8601_ALLOW_DAY_DATE_FORMAT;
        }
        if (P(15)) {
            flags |= ISO8601_RESTRICT_DAY_DATE_FORMAT;
        }
        if (kind != 3) {
            if (syslog && !(flags & ISO8601_ALLOW_SYSLOG_FORMAT)) {
                valid = false;
            }
            if (dayonly && !(flags & (ISO8601_ALLOW_DAY_DATE_FORMAT
                                      | ISO8601_RESTRICT_DAY_DATE_FORMAT)))
            {
                valid = false;
            }
            if (!dayonly && (flags & ISO8601_RESTRICT_DAY_DATE_FORMAT)) {
                valid = false;
            }
        }
    } else
    if (iso && kind == 3 && len <= 4) {
        fn = 1; /* time_parse wants more than 4 bytes there */
    } else
    if (iso && dayonly && s[4] != '-') {
        fn = 1;
        valid = false;
        flags = 0;
    }

    if (P(25)) {
        /* damage: no oracle but safety */
        switch (U(4)) {
          case 0:
            len = U(len + 1);
            break;
          case 1:
            if (len) {
                s[U(len)] = "+-:T .PZ09\xff,"[U(12)];
            }
            break;
          case 2:
            s[len++] = "+-:. Z9P"[U(8)];
            break;
          default: {
            int at = U(len + 1);
            memmove(s + at + 1, s + at, len - at);
            s[at] = "+-:. Z9P"[U(8)];
            len++;
          } break;
        }
        b = (malloc)(len + !len);
        memcpy(b, s, len);
        ps = ps_init(b, len);
        ret = fn ? time_parse_iso8601_flags(&ps, &r, flags)
                 : time_parse(&ps, &r);
        PT_CHECK(t, ps.b <= (const byte *)b + len
                 && ps.b_end == (const byte *)b + len, "stream");
        (void)ret;
        (free)(b);
        pt_label(t, "damaged");
        return;
    }
    b = (malloc)(len + !len);
    memcpy(b, s, len);
    ps = ps_init(b, len);
    ret = fn ? time_parse_iso8601_flags(&ps, &r, flags)
             : time_parse(&ps, &r);
    (free)(b);
    if (!valid) {
        PT_CHECK(t, ret < 0, "`%s` (flags %x) accepted", s, flags);
        return;
    }
    PT_CHECK(t, ret == 0, "`%s` (flags %x) refused", s, flags);
    pt_nontrivial(t);
    if (amb) {
        int64_t e = exp;
        (void)e;
        secs = days_civil(y, m, d) * 86400 + H * 3600 + M * 60 + S;
        PT_CHECK(t, r == secs - z->std || r == secs - z->dst,
                 "`%s` (twice or never) read as %jd", s, (intmax_t)r);
        return;
    }
    if (kind == 3) {
        PT_CHECK(t, r >= exp && r <= exp + 5, "`%s` read as %jd, not %jd", s,
                 (intmax_t)r, (intmax_t)exp);
        return;
    }
    PT_CHECK(t, r == exp, "`%s` in %s read as %jd, not %jd", s, z->tz,
             (intmax_t)r, (intmax_t)exp);
    /* zero-terminated forms */
    if (!fn && P(50)) {
        time_t r2 = 0;
        char s2[200];

        (snprintf)(s2, sizeof(s2), "%s%s%s", P(50) ? " " : "", s,
                   P(50) ? "\t " : "");
        PT_CHECK(t, time_parse_str(s2, &r2) == 0 && r2 == exp,
                 "time_parse_str(`%s`): %jd", s2, (intmax_t)r2);
        if (iso && !syslog && !dayonly) {
            PT_CHECK(t, time_parse_iso8601s(s2, &r2) == 0 && r2 == exp,
                     "time_parse_iso8601s(`%s`): %jd", s2, (intmax_t)r2);
        }
    }
}

/* }}} */
/* {{{ period */

static bool day_start(const zone_t *z, int64_t day, int64_t *ts)
{
    if (unlocal(z, day * 86400, ts)) {
        return true;
    }
    if (z->dst > z->std) {
        /* midnight is skipped: the day starts with the new offset */
        int64_t e = day * 86400 - z->std;

        if (offset(z, e) == z->dst && offset(z, e - 1) == z->std) {
            *ts = e;
            return true;
        }
    }
    return false;
}

static void run_period(pt_t *t)
{
    const zone_t *z = gen_zone(t);
    int64_t ts = gen_ts(t, z, 1920, 2200), e, got;
    civ_t c;
    int64_t day;
    int n, fdow = U(7);

    if (ts == 0) {
        return;
    }
    if (z->has_dst && ts < 5 * 365 * 86400) {
        return;
    }
    c = local(z, ts);
    day = days_civil(c.y, c.m, c.d);

#define EQ(call, what)                                                       \
    do {                                                                     \
        got = (call);                                                        \
        PT_CHECK(t, got == e, what "(%jd) in %s: %jd, not %jd",              \
                 (intmax_t)ts, z->tz, (intmax_t)got, (intmax_t)e);           \
    } while (0)

    /* minutes and hours, unless the offset changes inside the hour by
     * something else than hours */
    e = ts - c.S;
    if (offset(z, e) == offset(z, ts)) {
        EQ(localtime_curminute(ts), "curminute");
        if (offset(z, e + 60) == offset(z, ts)
        ||  (z->dst - z->std) % 3600 == 0)
        {
            e += 60;
            EQ(localtime_nextminute(ts), "nextminute");
        }
    }
    e = ts - c.S - 60 * c.M;
    if ((z->dst - z->std) % 3600 == 0
    ||  (offset(z, e) == offset(z, ts) && offset(z, e + 3600) == offset(z, ts)))
    {
        EQ(localtime_curhour(ts), "curhour");
        e += 3600;
        EQ(localtime_nexthour(ts), "nexthour");
    }
    if (day_start(z, day, &e)) {
        EQ(localtime_curday(ts), "curday");
    }
    if (day_start(z, day + 1, &e)) {
        EQ(localtime_nextday(ts), "nextday");
    }
    n = pt_range(t, -400, 400);
    pt_note(t, "n=%d fdow=%d", n, fdow);
    if (day_start(z, day + n, &e)) {
        EQ(localtime_addday(ts, n), "addday");
    }
    if (day_start(z, day - fmod_(c.wday - fdow, 7), &e)) {
        EQ(localtime_curweek(ts, fdow), "curweek");
    }
    if (day_start(z, day - fmod_(c.wday - fdow, 7) + 7, &e)) {
        EQ(localtime_nextweek(ts, fdow), "nextweek");
    }
    if (day_start(z, days_civil(c.y, c.m, 1), &e)) {
        EQ(localtime_curmonth(ts), "curmonth");
    }
    if (day_start(z, days_civil(c.m == 12 ? c.y + 1 : c.y,
                                c.m == 12 ? 1 : c.m + 1, 1), &e))
    {
        EQ(localtime_nextmonth(ts), "nextmonth");
    }
    if (day_start(z, days_civil(c.y, 1, 1), &e)) {
        EQ(localtime_curyear(ts), "curyear");
    }

    /* day counts */
    {
        int64_t ts2 = P(50) ? ts + pt_range(t, -200000, 200000)
                            : gen_ts(t, z, 1920, 2200);
        civ_t c2 = local(z, ts2);
        int64_t day2 = days_civil(c2.y, c2.m, c2.d);
        struct tm a, b;
        time_t x = ts, y = ts2;

        if (ts2 == 0 || (z->has_dst && ts2 < 3 * 365 * 86400)) {
            return;
        }
        e = day2 - day;
        EQ(time_diff_days(ts, ts2), "time_diff_days");
        localtime_r(&x, &a);
        localtime_r(&y, &b);
        EQ(tm_diff_days(&a, &b), "tm_diff_days");
        e = (day2 - day) * 24 + c2.H - c.H;
        EQ(tm_diff_hours(&a, &b), "tm_diff_hours");
        e = ((day2 - day) * 24 + c2.H - c.H) * 60 + c2.M - c.M;
        if (e >= INT32_MIN && e <= INT32_MAX) {
            EQ(tm_diff_minutes(&a, &b), "tm_diff_minutes");
        }
    }
#undef EQ
}

/* }}} */
/* {{{ timeval */

static int64_t us(struct timeval v)
{
    return (int64_t)v.tv_sec * 1000000 + v.tv_usec;
}
static struct timeval gen_tv(pt_t *t)
{
    static const int ed[] = { 0, 1, 999, 1000, 1001, 499999, 500000, 500001,
                              998999, 999000, 999001, 999999 };
    struct timeval v;

    v.tv_sec = P(30) ? pt_range(t, -3, 3) : P(70) ? pt_sbits(t, 31) : pt_sbits(t, 40);
    v.tv_usec = P(40) ? ed[U(countof(ed))] : U(1000000);
    pt_note(t, "tv %jd.%06d", (intmax_t)v.tv_sec, (int)v.tv_usec);
    return v;
}
#define TVEQ(call, expv, what)                                               \
    do {                                                                     \
        struct timeval r_ = (call);                                          \
        PT_CHECK(t, us(r_) == (expv), what ": %jd.%06jd, not %jd us",        \
                 (intmax_t)r_.tv_sec, (intmax_t)r_.tv_usec,                  \
                 (intmax_t)(expv));                                          \
        PT_CHECK(t, r_.tv_usec >= 0 && r_.tv_usec < 1000000,                 \
                 what ": not normalized: %jd us", (intmax_t)r_.tv_usec);     \
    } while (0)

static void run_tv(pt_t *t)
{
    struct timeval a = gen_tv(t), b = P(15) ? a : gen_tv(t), left;
    int64_t ms = P(50) ? pt_range(t, -3000, 3000) : pt_sbits(t, 40);
    int k;
    int64_t d;

    if (P(20)) {
        b.tv_sec = a.tv_sec;
    }
    if (a.tv_sec < 0 || b.tv_sec < 0 || ms < 0
    ||  a.tv_usec + b.tv_usec >= 1000000)
    {
        pt_nontrivial(t);
    }
    pt_note(t, "ms=%jd", (intmax_t)ms);
    TVEQ(timeval_add(a, b), us(a) + us(b), "timeval_add");
    TVEQ(timeval_sub(a, b), us(a) - us(b), "timeval_sub");
    TVEQ(timeval_addmsec(a, ms), us(a) + ms * 1000, "timeval_addmsec");
    k = pt_sbits(t, a.tv_sec > 1000000000 || a.tv_sec < -1000000000 ? 3 : 12);
    pt_note(t, "k=%d", k);
    TVEQ(timeval_mul(a, k), us(a) * k, "timeval_mul");
    k = P(70) ? k : pt_sbits(t, 31);
    if (k) {
        struct timeval q = timeval_div(a, k);

        PT_CHECK(t, q.tv_usec >= 0 && q.tv_usec < 1000000, "timeval_div: %jd",
                 (intmax_t)q.tv_usec);
        d = us(a) - us(q) * k;
        PT_CHECK(t, d > -(int64_t)llabs(k) && d < (int64_t)llabs(k),
                 "timeval_div(%d): %jd.%06jd", k, (intmax_t)q.tv_sec,
                 (intmax_t)q.tv_usec);
    }
    d = us(a) - us(b);
    PT_CHECK(t, timeval_diff64(&a, &b) == d, "timeval_diff64: %jd",
             (intmax_t)timeval_diff64(&a, &b));
    if (d >= INT32_MIN && d <= INT32_MAX) {
        PT_CHECK(t, timeval_diff(&a, &b) == d, "timeval_diff: %d",
                 timeval_diff(&a, &b));
    }
    {
        int64_t r = timeval_diffmsec(&a, &b);

        PT_CHECK(t, r * 1000 - d < 1000 && d - r * 1000 < 1000,
                 "timeval_diffmsec: %jd for %jd us", (intmax_t)r, (intmax_t)d);
        r = timeval_to_msec(a);
        PT_CHECK(t, r * 1000 <= us(a) && us(a) - r * 1000 < 1000,
                 "timeval_to_msec: %jd", (intmax_t)r);
    }
    PT_CHECK(t, timeval_is_eq0(a) == (us(a) == 0), "eq0");
    PT_CHECK(t, timeval_is_lt0(a) == (us(a) < 0), "lt0");
    PT_CHECK(t, timeval_is_le0(a) == (us(a) <= 0), "le0");
    PT_CHECK(t, timeval_is_gt0(a) == (us(a) > 0), "gt0");
    PT_CHECK(t, timeval_is_ge0(a) == (us(a) >= 0), "ge0");
    PT_CHECK(t, is_expired(&a, &b, NULL) == (us(a) <= us(b)), "is_expired");
    PT_CHECK(t, is_expired(&a, &b, &left) == (us(a) <= us(b)), "is_expired");
    TVEQ(left, us(a) - us(b), "is_expired's left");
    if (P(5)) {
        struct timeval n;

        gettimeofday(&n, NULL);
        n.tv_sec += 1000;
        PT_CHECK(t, !is_expired(&n, NULL, NULL), "future");
        n.tv_sec -= 1001;
        PT_CHECK(t, is_expired(&n, NULL, &left), "past");
        PT_CHECK(t, us(left) < 0, "left");
    }

    /* durations */
    if (a.tv_sec > INT32_MIN && a.tv_sec <= INT32_MAX) {
        char exp[64];
        int64_t m = llabs(us(a));
        const zone_t *z;
        civ_t l;

        (snprintf)(exp, sizeof(exp), "%s%jd %2d:%02d:%02d.%06d",
                   us(a) < 0 ? "-" : "", (intmax_t)(m / 86400000000),
                   (int)(m / 3600000000 % 24), (int)(m / 60000000 % 60),
                   (int)(m / 1000000 % 60), (int)(m % 1000000));
        PT_CHECK(t, !strcmp(timeval_format(a, true), exp),
                 "timeval_format: `%s`, not `%s`", timeval_format(a, true), exp);
        z = gen_zone(t);
        if (z->has_dst && a.tv_sec < 3 * 365 * 86400) {
            return;
        }
        l = local(z, a.tv_sec);
        (snprintf)(exp, sizeof(exp), "%02d/%02d/%04d %2d:%02d:%02d.%06d", l.d,
                   l.m, (int)l.y, l.H, l.M, l.S, (int)a.tv_usec);
        PT_CHECK(t, !strcmp(timeval_format(a, false), exp),
                 "timeval_format: `%s`, not `%s`", timeval_format(a, false), exp);
    }
}

/* }}} */
/* {{{ misc */

static void run_misc(pt_t *t)
{
    t_scope;
    const zone_t *z = gen_zone(t);

    /* short dates */
    {
        int y = 1970 + U(67), m = 1 + U(12), d = 1 + U(32);
        bool ok, shorty = pt_bool(t);
        char s[64];
        struct tm tm;
        int64_t e;
        time_t r;

        if (P(50) && d > mdays(y, m)) {
            d = mdays(y, m);
        }
        if (P(5)) {
            d = 0;
        }
        if (P(5)) {
            y = pt_bool(t) ? 1969 - U(100) : 2037 + U(100);
            shorty = false;
        }
        ok = d >= 1 && d <= mdays(y, m) && y >= 1970 && y <= 2036;
        (sprintf)(s, shorty ? "%02d-%s-%02d" : "%02d-%s-%04d", d, mon[m - 1],
                  shorty ? y % 100 : y);
        recase(t, s);
        pt_note(t, "%s", s);
        p_clear(&tm, 1);
        tm.tm_hour = 7;
        PT_CHECK(t, (strtotm(s, &tm) == 0) == ok, "strtotm(%s)", s);
        if (ok) {
            pt_nontrivial(t);
            PT_CHECK(t, tm.tm_mday == d && tm.tm_mon == m - 1
                     && tm.tm_year == y - 1900 && tm.tm_hour == 7,
                     "strtotm(%s): fields", s);
        }
        PT_CHECK(t, is_mday_valid(d, m - 1, y) == (d >= 1 && d <= mdays(y, m)),
                 "is_mday_valid(%d, %d, %d)", d, m - 1, y);
        PT_CHECK(t, year_is_leap_year(y) == leap(y), "leap");
        {
            int n = 0, yy = 1900 + U(700);

            for (int i = 1901; i <= yy; i++) {
                n += leap(i);
            }
            PT_CHECK(t, nb_leap_years_since_1900(yy) == n,
                     "leap years %d: %d", yy, nb_leap_years_since_1900(yy));
        }
        r = lstrtotime(LSTR(s));
        if (!ok) {
            PT_CHECK(t, r == -1, "lstrtotime(%s)", s);
        } else
        if ((y >= 1972 || !z->has_dst)
        &&  unlocal(z, days_civil(y, m, d) * 86400, &e))
        {
            PT_CHECK(t, r == e, "lstrtotime(%s): %jd, not %jd", s, (intmax_t)r,
                     (intmax_t)e);
        }
        if (P(40)) {
            char *h;
            int len = strlen(s);

            if (P(50)) {
                len = U(len + 1);
            } else {
                s[U(len)] = "-0 9x\xff"[U(6)];
            }
            h = (malloc)(len + 1);
            memcpy(h, s, len);
            h[len] = 0;
            if (strtotm(h, &tm) == 0) {
                PT_CHECK(t, tm.tm_mon >= 0 && tm.tm_mon <= 11
                         && tm.tm_year >= 70 && tm.tm_year <= 136
                         && tm.tm_mday >= 1
                         && tm.tm_mday <= mdays(tm.tm_year + 1900,
                                                tm.tm_mon + 1),
                         "strtotm(%s)", h);
            }
            (free)(h);
        }
    }

    /* amounts */
    {
        static const uint64_t q[] = { 31536000, 604800, 86400, 3600, 60, 1 };
        static const char *en[] = { "year", "week", "day", "hour", "minute",
                                    "second" };
        static const char *fr[] = { "année", "semaine", "jour", "heure",
                                    "minute", "seconde" };
        uint64_t s = P(50) ? 0 : pt_bits(t, 55), r;
        int prec = pt_range(t, -1, 7), p;
        int v[6];
        SB_1k(e);
        SB_1k(f);
        time_split_t sp;
        lstr_t g;

        if (!s) {
            for (int i = 0; i < 6; i++) {
                if (pt_bool(t)) {
                    s += q[i] * U(i == 0 ? 100 : 60);
                }
            }
        }
        pt_note(t, "seconds=%ju precision=%d", (uintmax_t)s, prec);
        r = s;
        for (int i = 0; i < 6; i++) {
            v[i] = r / q[i];
            r %= q[i];
        }
        sp = split_time_interval(s);
        PT_CHECK(t, sp.years == v[0] && sp.weeks == v[1] && sp.days == v[2]
                 && sp.hours == v[3] && sp.minutes == v[4]
                 && sp.seconds == v[5], "split_time_interval(%ju)",
                 (uintmax_t)s);
        p = prec;
        for (int i = 0, first = -1; i < 6; i++) {
            if (first < 0 && v[i]) {
                first = i;
            }
            if (first < 0 || (p >= 0 && i > first + p) || !v[i]) {
                continue;
            }
            if (e.len) {
                sb_adds(&e, ", ");
                sb_adds(&f, ", ");
            }
            sb_addf(&e, "%d %s%s", v[i], en[i], v[i] > 1 ? "s" : "");
            sb_addf(&f, "%d %s%s", v[i], fr[i], v[i] > 1 ? "s" : "");
        }
        g = t_get_time_split_p_lstr_en(s, prec);
        PT_CHECK(t, lstr_equal(g, LSTR_SB_V(&e)), "en: `%.*s`, not `%s`",
                 g.len, g.s, e.data);
        g = t_get_time_split_p_lstr_fr(s, prec);
        PT_CHECK(t, lstr_equal(g, LSTR_SB_V(&f)), "fr: `%.*s`, not `%s`",
                 g.len, g.s, f.data);
    }
}

/* }}} */

void pt_setup(void)
{
    e_set_verbosity(-1);
}

const pt_target_t pt_targets[] = {
    { "fmt",    run_fmt,    180000, 9000000, 20 },
    { "parse",  run_parse, 400000, 20000000, 30 },
    { "period", run_period, 180000, 9000000, 20 },
    { "tv",     run_tv,     240000, 12000000, 10 },
    { "misc",   run_misc,   180000, 9000000, 10 },
};
const int pt_targets_len = countof(pt_targets);
