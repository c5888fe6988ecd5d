/* Number parsing, against exact arithmetic on 128 bits. */
#include <lib-common/core.h>
#include <math.h>
#include "pt.h"

const char pt_rule[] =
    "num: texts that look like numbers (signs, spaces, digits around each "
    "integer limit, prefixes, extensions, trailing junk, embedded NULs, no "
    "terminator) given to each parsing function; value, status, errno class "
    "and end position compared with exact arithmetic, doubles with the C "
    "library. non-trivial: the text held at least one digit";

typedef __int128 i128;
static char   buf[4096];
static int    len;

static void put(char c)
{
    if (len < ssizeof(buf) - 1) {
        buf[len++] = c;
    }
}
static void puts_(const char *s)
{
    while (*s) {
        put(*s++);
    }
}
static void put_u128(unsigned __int128 v, int base, bool up)
{
    char tmp[200];
    int n = 0;
    do {
        int d = v % base;
        tmp[n++] = d < 10 ? '0' + d : (up ? 'A' : 'a') + d - 10;
        v /= base;
    } while (v);
    while (n) {
        put(tmp[--n]);
    }
}

static void gen_num(pt_t *t, int base)
{
    static const char *sp[] = { "", "", "", " ", "\t", "  ", "\n", "\v\f\r " };
    static const char *sg[] = { "", "", "", "", "-", "-", "+", "+-", "--", "- " };
    static const char *tl[] = {
        "", "", "", "", "", " ", "  ", "x", "s", "m", "h", "d", "w", "K", "M",
        "G", "T", "Kb", "s1", "k", "w ", "T-", ".", ".5", "e3", "-", "+", "_",
        "z", "P", ",", "K,", "\n",
    };
    static const uint64_t lim[] = {
        0, 1, 9, 10, 127, 255, 32767, 65535, INT32_MAX, (uint64_t)INT32_MAX + 1,
        UINT32_MAX, (uint64_t)UINT32_MAX + 1, INT64_MAX, (uint64_t)INT64_MAX + 1,
        UINT64_MAX, INT64_MAX / 1024, UINT64_MAX / 1024, INT64_MAX / 10,
        INT32_MAX / 10, INT64_MAX / 60, INT64_MAX / 3600, INT64_MAX / 86400,
        INT64_MAX / 604800, UINT64_MAX / 604800, 1ull << 23, 1ull << 24,
        UINT64_MAX / 60,
    };
    unsigned __int128 v;
    int b = base == 0 ? 10 : base;

    puts_(pt_pick(t, sp));
    puts_(pt_pick(t, sg));
    if (pt_p(t, 1, 8)) {
        static const char *junk[] = { "", "a", "_", ".", "0x", "0xg", "x1", "-" };
        puts_(pt_pick(t, junk));
    } else {
        if (base == 0 || base == 16 || base == 8) {
            if (pt_p(t, 1, 3)) {
                if (base == 8 || (base == 0 && pt_bool(t))) {
                    put('0');
                    b = base == 0 ? 8 : b;
                } else {
                    puts_(pt_bool(t) ? "0x" : "0X");
                    b = 16;
                }
            }
        }
        switch (pt_u(t, 4)) {
          case 0: case 1:
            v = pt_pick(t, lim);
            v += pt_range(t, -2, 2);
            if (v >> 70) {
                v = 0;
            }
            break;
          case 2:
            v = pt_bits(t, 64);
            break;
          case 3:
            v = (unsigned __int128)pt_bits(t, 64) * (1 + pt_u(t, 1000));
            break;
          default:
            v = pt_u(t, 1000);
            break;
        }
        for (int i = pt_p(t, 1, 6) ? pt_u(t, 30) : 0; i > 0; i--) {
            put('0');
        }
        put_u128(v, b, pt_bool(t));
    }
    puts_(pt_pick(t, tl));
    if (pt_p(t, 1, 20) && len) {
        buf[pt_u(t, len - 1)] = pt_u(t, 255);
    }
}

typedef struct res_t {
    bool digits;
    bool neg;
    bool over;      /* beyond 100 bits */
    i128 v;
    int  end;       /* after the digits (0 when there are none) */
} res_t;

static bool sp_c(int c) { return c == ' ' || (c >= '\t' && c <= '\r'); }

/* the grammar of strtol() on p[0..n[ */
static res_t m_parse(const char *p, int n, int base)
{
    res_t r = { 0 };
    int i = 0;

    while (i < n && sp_c((uint8_t)p[i])) {
        i++;
    }
    if (i < n && (p[i] == '-' || p[i] == '+')) {
        r.neg = p[i] == '-';
        i++;
    }
    if ((base == 0 || base == 16) && i + 2 < n && p[i] == '0'
    &&  (p[i + 1] == 'x' || p[i + 1] == 'X')
    &&  isxdigit((uint8_t)p[i + 2]))
    {
        i += 2;
        base = 16;
    } else
    if (base == 0) {
        base = i < n && p[i] == '0' ? 8 : 10;
    }
    for (; i < n; i++) {
        int c = (uint8_t)p[i];
        int d = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'z'
              ? c - 'a' + 10 : c >= 'A' && c <= 'Z' ? c - 'A' + 10 : 99;

        if (d >= base) {
            break;
        }
        r.digits = true;
        r.v = r.v * base + d;
        if (r.v >> 100) {
            r.v = (i128)1 << 100;
        }
    }
    r.end = r.digits ? i : 0;
    if (r.neg) {
        r.v = -r.v;
    }
    return r;
}

/* exactly sized copy, or NUL terminated */
static char *dup_in(bool z)
{
    char *p = (malloc)(len + z);
    memcpy(p, buf, len);
    if (z) {
        p[len] = '\0';
    }
    return p;
}

static i128 sat(i128 v, i128 lo, i128 hi)
{
    return v < lo ? lo : v > hi ? hi : v;
}

static void note_text(pt_t *t)
{
    pt_note_hex(t, "text", buf, len);
    pt_note(t, "'%.*s'", len, buf);
}

/* {{{ memtoip & co */

static void run_plain(pt_t *t)
{
    char *p;
    res_t r;
    const byte *end;

    len = 0;
    gen_num(t, 10);
    note_text(t);
    r = m_parse(buf, len, 10);
    if (r.digits) {
        pt_nontrivial(t);
    }
    p = dup_in(false);

#define CHK(fn, lo, hi) \
    do {                                                                     \
        int64_t got;                                                         \
        errno = 0;                                                           \
        end = NULL;                                                          \
        got = fn(p, len, &end);                                              \
        if (!r.digits) {                                                     \
            PT_CHECK(t, errno == EINVAL, #fn ": errno %d without digits",    \
                     errno);                                                 \
            PT_CHECK(t, got == 0, #fn ": %jd without digits", got);          \
        } else {                                                             \
            PT_CHECK(t, got == (int64_t)sat(r.v, lo, hi), #fn ": %jd", got); \
            PT_CHECK(t, errno == (r.v < (lo) || r.v > (hi) ? ERANGE : 0),    \
                     #fn ": errno %d", errno);                               \
            PT_CHECK(t, end == (byte *)p + r.end, #fn ": stopped at %d, "    \
                     "expected %d", (int)(end - (byte *)p), r.end);          \
        }                                                                    \
        PT_CHECK(t, end >= (byte *)p && end <= (byte *)p + len,              \
                 #fn ": end out of the text");                               \
    } while (0)
    CHK(memtoip, INT_MIN, INT_MAX);
    CHK(memtollp, INT64_MIN, INT64_MAX);
    {
        pstream_t ps = ps_init(p, len);
        int v;
        errno = 0;
        v = ps_geti(&ps);
        PT_CHECK(t, !r.digits || (v == (int)sat(r.v, INT_MIN, INT_MAX)
                                  && ps.s == p + r.end), "ps_geti");
    }
    /* unsigned */
    if (len) {
        uint64_t got;
        errno = 0;
        end = NULL;
        got = memtoullp(p, len, &end);
        if (r.digits && r.v < 0) {
            PT_CHECK(t, errno == ERANGE, "memtoullp: negative number, errno %d "
                     "value %ju", errno, got);
        } else
        if (r.digits) {
            if (r.v > UINT64_MAX) {
                PT_CHECK(t, errno == ERANGE, "memtoullp: errno %d", errno);
            } else {
                PT_CHECK(t, !errno && got == (uint64_t)r.v, "memtoullp: %ju "
                         "errno %d", got, errno);
                PT_CHECK(t, end == (byte *)p + r.end, "memtoullp: end");
            }
        } else {
            PT_CHECK(t, errno || end == (byte *)p, "memtoullp: no digits");
        }
    }
    /* lstr */
    {
        lstr_t l = LSTR_INIT_V(p, len);
        int n = len, i;
        bool full;
        int64_t i64;
        int i32;
        uint64_t u64;
        uint32_t u32;
        int ret;

        while (n && sp_c((uint8_t)p[n - 1])) {
            n--;
        }
        full = r.digits && r.end == n;
        for (i = 0; i < n && sp_c((uint8_t)p[i]); i++) {
        }
#define LCHK(fn, var, lo, hi) \
        do {                                                                 \
            errno = ENOTTY;                                                  \
            ret = fn(l, &var);                                               \
            if (full && r.v >= (lo) && r.v <= (hi)) {                        \
                PT_CHECK(t, ret == 0, #fn " refused");                       \
                PT_CHECK(t, var == r.v, #fn ": wrong value %jd",             \
                         (intmax_t)var);                                     \
                PT_CHECK(t, errno == ENOTTY, #fn ": errno changed");         \
            } else {                                                         \
                PT_CHECK(t, ret < 0, #fn " accepted: %jd", (intmax_t)var);   \
                PT_CHECK(t, errno == EINVAL || errno == ERANGE,              \
                         #fn ": errno %d", errno);                           \
            }                                                                \
        } while (0)
        LCHK(lstr_to_int, i32, INT_MIN, INT_MAX);
        LCHK(lstr_to_int64, i64, INT64_MIN, INT64_MAX);
        if (!(r.neg && r.v == 0)) {
            LCHK(lstr_to_uint64, u64, 0, (i128)UINT64_MAX);
            LCHK(lstr_to_uint, u32, 0, (i128)UINT32_MAX);
        }
    }
    (free)(p);
    p = dup_in(true);
    {
        const char *e = NULL;
        int n = strlen(p), got;
        r = m_parse(p, n, 10);
        errno = 0;
        got = strtoip(p, &e);
        if (r.digits) {
            PT_CHECK(t, got == (int)sat(r.v, INT_MIN, INT_MAX), "strtoip: %d",
                     got);
            PT_CHECK(t, e == p + r.end, "strtoip: end");
            PT_CHECK(t, errno == (r.v < INT_MIN || r.v > INT_MAX ? ERANGE : 0),
                     "strtoip: errno");
        } else {
            PT_CHECK(t, errno == EINVAL, "strtoip: errno without digits");
        }
    }
    (free)(p);
}

/* }}} */
/* {{{ extensions */

static void run_ext(pt_t *t)
{
    static const int bases[] = { 0, 0, 10, 10, 16, 8, 2, 36, 7 };
    int base = pt_pick(t, bases);
    bool is_signed = pt_bool(t);
    bool z = pt_p(t, 1, 3);
    char *p;
    res_t r;
    uint64_t out = 0xdeadbeef;
    const void *end = NULL;
    int ret, err, n;
    i128 lo = is_signed ? INT64_MIN : 0;
    i128 hi = is_signed ? (i128)INT64_MAX : (i128)UINT64_MAX;

    len = 0;
    gen_num(t, base);
    note_text(t);
    pt_note(t, "base %d signed %d z %d", base, is_signed, z);
    p = dup_in(z);
    n = z ? (int)strlen(p) : len;
    if (base == 0 || base == 2) {
        /* binary prefixes depend on the C library */
        for (int i = 0; i + 1 < n; i++) {
            if (p[i] == '0' && (p[i + 1] == 'b' || p[i + 1] == 'B')) {
                (free)(p);
                pt_discard(t);
                return;
            }
        }
    }
    r = m_parse(p, n, base);
    if (r.digits) {
        pt_nontrivial(t);
    }
    if (z) {
        ret = is_signed ? strtoll_ext(p, (int64_t *)&out, (const char **)&end,
                                      base)
                        : strtoull_ext(p, &out, (const char **)&end, base);
    } else {
        ret = is_signed ? memtoll_ext(p, n, (int64_t *)&out, &end, base)
                        : memtoull_ext(p, n, &out, &end, base);
    }
    err = errno;
    PT_CHECK(t, end && (char *)end >= p && (char *)end <= p + n,
             "end out of the text");
    if (!z && !n) {
        PT_CHECK(t, ret == 0 && out == 0, "empty: %d", ret);
    } else
    if (!r.digits) {
        PT_CHECK(t, ret < 0 && err == EINVAL, "no digits: %d errno %d", ret,
                 err);
    } else
    if (r.v < lo || r.v > hi) {
        PT_CHECK(t, ret < 0 && err == ERANGE, "out of range: %d errno %d", ret,
                 err);
        if (r.v > hi || is_signed) {
            PT_CHECK(t, out == (uint64_t)sat(r.v, lo, hi), "clamping");
        }
    } else {
        int c = r.end < n ? (uint8_t)p[r.end] : 0;
        int nx = r.end + 1 < n ? (uint8_t)p[r.end + 1] : 0;
        i128 mult = 1;
        int ext = 1;
        bool bad = false;

        switch (c) {
          case 's': break;
          case 'm': mult = 60; break;
          case 'h': mult = 3600; break;
          case 'd': mult = 86400; break;
          case 'w': mult = 604800; break;
          case 'K': mult = 1 << 10; break;
          case 'M': mult = 1 << 20; break;
          case 'G': mult = 1 << 30; break;
          case 'T': mult = 1ull << 40; break;
          default:
            ext = 0;
            bad = (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z');
        }
        if (ext && ((nx >= '0' && nx <= '9') || (nx >= 'a' && nx <= 'z')
                    || (nx >= 'A' && nx <= 'Z')))
        {
            bad = true;
        }
        if (bad) {
            PT_CHECK(t, ret < 0 && err == EDOM, "bad extension: %d errno %d",
                     ret, err);
            pt_label(t, "bad extension");
        } else
        if (r.v * mult < lo || r.v * mult > hi) {
            PT_CHECK(t, ret < 0 && err == ERANGE, "out of range with its "
                     "extension: %d errno %d", ret, err);
            pt_label(t, "overflow by extension");
        } else {
            PT_CHECK(t, ret == r.end + ext, "returned %d, expected %d errno %d",
                     ret, r.end + ext, err);
            PT_CHECK(t, (char *)end == p + ret, "end");
            PT_CHECK(t, out == (uint64_t)(r.v * mult), "value %jd",
                     (intmax_t)out);
            if (ext) {
                pt_label(t, "extension");
            }
        }
    }
    (free)(p);
}

/* }}} */
/* {{{ strtolp, parse_number */

static void run_strtolp(pt_t *t)
{
    int flags = pt_u(t, 31);
    long min = pt_p(t, 1, 4) ? LONG_MIN : pt_range(t, -300, 300);
    long max = pt_p(t, 1, 4) ? LONG_MAX : min + (long)pt_u(t, 70000);
    char *p;
    const char *end = NULL;
    long res = 0x5a5a;
    res_t r;
    int ret, n, start = 0, stop;

    if (min == LONG_MIN && max < 0) {
        max = 0;
    }
    len = 0;
    gen_num(t, 10);
    p = dup_in(true);
    n = strlen(p);
    note_text(t);
    pt_note(t, "flags %x min %ld max %ld", flags, min, max);
    ret = strtolp(p, &end, 10, &res, flags, min, max);
    if (sp_c((uint8_t)p[0]) && !(flags & STRTOLP_IGNORE_SPACES)) {
        PT_CHECK(t, ret == -EINVAL, "leading space: %d", ret);
        (free)(p);
        return;
    }
    while (sp_c((uint8_t)p[start])) {
        start++;
    }
    r = m_parse(p + start, n - start, 10);
    stop = start + r.end;
    if (r.digits) {
        pt_nontrivial(t);
    }
    if (flags & STRTOLP_IGNORE_SPACES) {
        while (sp_c((uint8_t)p[stop])) {
            stop++;
        }
    }
    PT_CHECK(t, end == p + stop, "end at %d, expected %d", (int)(end - p), stop);
    if ((flags & STRTOLP_CHECK_END) && p[stop]) {
        PT_CHECK(t, ret == -EINVAL, "trailing text: %d", ret);
    } else
    if (!r.digits && !(flags & STRTOLP_EMPTY_OK)) {
        PT_CHECK(t, ret == -EINVAL, "no digits: %d", ret);
    } else {
        bool over = r.v < LONG_MIN || r.v > LONG_MAX;
        bool out = r.v < min || r.v > max;
        bool both = (flags & (STRTOLP_CLAMP_RANGE | STRTOLP_CHECK_RANGE))
               == (STRTOLP_CLAMP_RANGE | STRTOLP_CHECK_RANGE);

        if (flags & STRTOLP_CLAMP_RANGE) {
            PT_CHECK(t, res == (long)sat(r.v, min, max), "clamped to %ld", res);
            if (both) {
                PT_CHECK(t, ret == (out ? -ERANGE : 0) || over, "clamped: %d",
                         ret);
            } else {
                PT_CHECK(t, ret == 0, "clamped: %d", ret);
            }
        } else
        if (over || ((flags & STRTOLP_CHECK_RANGE) && out)) {
            PT_CHECK(t, ret == -ERANGE, "out of range: %d", ret);
        } else {
            PT_CHECK(t, ret == 0 && res == (long)r.v, "%d: %ld", ret, res);
        }
    }
    (free)(p);
}

static void run_parse_number(pt_t *t)
{
    static const char sfx[] = "KMGTPkmgtp";
    static const int64_t mults[] = {
        1ll << 10, 1ll << 20, 1ll << 30, 1ll << 40, 1ll << 50, 1000, 1000000,
        1000000000, 1000000000000ll, 1000000000000000ll,
    };
    uint64_t v = pt_bool(t) ? pt_u(t, 100000) : pt_bits(t, 63);
    bool neg = pt_p(t, 1, 5);
    int k = pt_p(t, 1, 4) ? -1 : (int)pt_u(t, 9);
    int nf = pt_p(t, 1, 3) ? pt_u(t, 6) : 0;
    i128 m, exp, fr = 0, den = 1;
    int64_t got;
    bool junk = pt_p(t, 1, 8);
    char *p;

    len = 0;
    if (neg) {
        put('-');
    }
    put_u128(v, 10, false);
    if (nf) {
        put('.');
        for (int i = 0; i < nf; i++) {
            int d = pt_u(t, 9);
            fr = fr * 10 + d;
            den *= 10;
            put('0' + d);
        }
    }
    m = 1;
    if (k >= 0) {
        put(sfx[k]);
        m = mults[k];
    } else
    if (pt_bool(t)) {
        int e = pt_u(t, v ? 20 : 18);
        put(pt_bool(t) ? 'e' : 'E');
        put_u128(e, 10, false);
        while (e-- > 0) {
            m *= 10;
        }
    }
    if (junk) {
        put("xKk. -"[pt_u(t, 5)]);
        if (buf[len - 1] == '.' || (buf[len - 1] != ' ' && m == 1)) {
            put('!');
        }
    }
    note_text(t);
    p = dup_in(true);
    exp = (i128)v * m + fr * m / den;
    if (neg) {
        exp = -exp;
    }
    got = parse_number(p);
    pt_nontrivial(t);
    if (junk) {
        PT_CHECK(t, got == INT64_MIN, "junk accepted: %jd", (intmax_t)got);
    } else
    if (exp > INT64_MAX || exp < INT64_MIN) {
        PT_CHECK(t, got == INT64_MIN, "overflow: %jd", (intmax_t)got);
        pt_label(t, "overflow");
    } else {
        PT_CHECK(t, got == (int64_t)exp, "%jd, expected %jd", (intmax_t)got,
                 (intmax_t)exp);
    }
    (free)(p);
}

/* }}} */
/* {{{ doubles */

static void run_double(pt_t *t)
{
    char *p, *z, *ze;
    double exp, got;
    const byte *end = NULL;
    int err, n, ret;
    bool sub;

    len = 0;
    if (pt_p(t, 2, 3)) {
        double d = pt_double(t, false);
        char tmp[1200];
        static const char *fmts[] = {
            "%.17g", "%g", "%.3f", "%a", "%e", "%.0f", "%.30e", "%.1f",
        };
        if (pt_p(t, 1, 4)) {
            puts_(" ");
        }
        (snprintf)(tmp, sizeof(tmp), pt_pick(t, fmts), d);
        puts_(tmp);
        if (pt_p(t, 1, 3)) {
            static const char *tl[] = { " ", "e", "e+", "x", ".", "5", "e5", "-",
                                        "p", "\n" };
            puts_(pt_pick(t, tl));
        }
    } else {
        while (pt_more(t, 6)) {
            static const char *tk[] = {
                "-", "+", ".", "e", "E", "0", "1", "9", "00", "123456789", "x",
                "0x", "p", "inf", "nan", "infinity", "nan(12)", " ", "e-", "e+",
                "999", "1e308", "e-320", "4.9e-324", "2.2250738585072011e-308",
            };
            puts_(pt_pick(t, tk));
        }
    }
    if (pt_p(t, 1, 20) && len) {
        buf[pt_u(t, len - 1)] = pt_u(t, 255);
    }
    note_text(t);
    if (!len) {
        return;
    }
    p = dup_in(false);
    z = dup_in(true);
    errno = 0;
    exp = (strtod)(z, &ze);
    err = errno;
    sub = fpclassify(exp) == FP_SUBNORMAL;
    if (ze > z) {
        pt_nontrivial(t);
    }
    errno = 0;
    got = memtod(p, len, &end);
    PT_CHECK(t, !memcmp(&got, &exp, sizeof(got)), "memtod: %a, expected %a",
             got, exp);
    PT_CHECK(t, end - (byte *)p == ze - z, "memtod: stopped at %d, expected %d",
             (int)(end - (byte *)p), (int)(ze - z));
    PT_CHECK(t, errno == (sub ? 0 : err), "memtod: errno %d, expected %d", errno,
             sub ? 0 : err);
    n = len;
    while (n && sp_c((uint8_t)p[n - 1])) {
        n--;
    }
    z[n] = '\0';
    errno = 0;
    exp = (strtod)(z, &ze);
    err = errno;
    sub = fpclassify(exp) == FP_SUBNORMAL;
    got = 12345;
    ret = lstr_to_double(LSTR_INIT_V(p, len), &got);
    if (n && ze == z + n && (!err || sub)) {
        PT_CHECK(t, ret == 0, "lstr_to_double refused");
        PT_CHECK(t, !memcmp(&got, &exp, sizeof(got)), "lstr_to_double: %a", got);
    } else {
        PT_CHECK(t, ret < 0, "lstr_to_double accepted");
    }
    (free)(p);
    (free)(z);
}

/* }}} */

void pt_setup(void) { }

const pt_target_t pt_targets[] = {
    { "plain",   run_plain,        400000, 8000000, 0 },
    { "ext",     run_ext,          400000, 8000000, 0 },
    { "strtolp", run_strtolp,      300000, 5000000, 0 },
    { "parse",   run_parse_number, 200000, 3000000, 0 },
    { "double",  run_double,       300000, 5000000, 0 },
};
const int pt_targets_len = countof(pt_targets);
