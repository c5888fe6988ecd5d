/* printf-like formatting, against the C library. */
#include <lib-common/core.h>
#include <lib-common/container-qvector.h>
#include <math.h>
#include <locale.h>
#include "pt.h"

const char pt_rule[] =
    "fmt: format strings of several conversions (all flags, widths and "
    "precisions given inline or by argument, all length modifiers, integers, "
    "characters, strings, pointers, doubles, %n, %m, and lib-common's own "
    "%*pM %*pX %*px %pL %*pd %*pu %*ph %*pH and registered formatters), with "
    "their arguments; result and text compared with the C library's "
    "conversion of each piece, for a buffer of every interesting size, for a "
    "stream and for each function that formats into a growing string. "
    "non-trivial: at least one conversion with a flag, a width or a precision";

/* va_list built by hand: everything is fetched from the overflow area. */
#define U(n)  pt_u(t, (n) - 1)

typedef struct va_tag {
    unsigned gp, fp;
    void *over, *reg;
} va_tag;

#define MAXARGS 64
typedef struct args_t {
    uint64_t v[MAXARGS] __attribute__((aligned(16)));
    int n;
} args_t;

static void args_va(args_t *a, va_list ap)
{
    va_tag *tag = (va_tag *)ap;

    tag->gp = 48;
    tag->fp = 176;
    tag->over = a->v;
    tag->reg = NULL;
}
static void push(args_t *a, uint64_t v)
{
    a->v[a->n++] = v;
}
static void push_int(args_t *a, int v)
{
    push(a, (uint32_t)v | 0xdead000000000000ull);
}
static void push_ptr(args_t *a, const void *p)
{
    push(a, (uintptr_t)p);
}
static void push_dbl(args_t *a, double d)
{
    uint64_t u;

    memcpy(&u, &d, 8);
    push(a, u);
}
static void push_ldbl(args_t *a, long double d)
{
    if (a->n & 1) {
        a->n++;
    }
    memcpy(&a->v[a->n], &d, 16);
    a->n += 2;
}

static char   fmt[4096];
static int    fmt_len;
static char   xp[1 << 17];
static int    xp_len;
static args_t args;
static int    errno_in;
static int    n_pos, n_got;           /* %n: expected position, receiver */
static long   n_got_l;
static short  n_got_h;
static signed char n_got_hh;
static int    n_kind;
static bool   nontriv;
static int    n_conv;

static void fput(char c)
{
    fmt[fmt_len++] = c;
}
static void fputstr(const char *s)
{
    while (*s) {
        fput(*s++);
    }
}
static void xput(const void *p, int n)
{
    memcpy(xp + xp_len, p, n);
    xp_len += n;
}

/* strings that live as long as a case */
static char  arena[1 << 16];
static int   arena_len;
static char *keep(pt_t *t, int n, bool nul_ok)
{
    char *s = arena + arena_len;

    for (int i = 0; i < n; i++) {
        s[i] = pt_p(t, 90, 100) ? 32 + U(95) : U(256);
        if (!nul_ok && !s[i]) {
            s[i] = '\1';
        }
    }
    arena_len += n + 1;
    return s;
}

static uint64_t gen_int(pt_t *t)
{
    static const uint64_t lim[] = {
        0, 0, 1, 9, 10, 99, 100, 127, 128, 255, 256, 999, 1000, 32767, 32768,
        65535, 65536, 999999, 1000000, 99999999, 100000000, INT32_MAX,
        (uint64_t)INT32_MAX + 1, UINT32_MAX, (uint64_t)UINT32_MAX + 1,
        10000000000ull, 9999999999999999ull, 10000000000000000ull,
        999999999999999999ull, 1000000000000000000ull, INT64_MAX,
        (uint64_t)INT64_MAX + 1, 10000000000000000000ull, UINT64_MAX,
    };
    uint64_t v;

    switch (U(4)) {
      case 0:
        v = lim[U(countof(lim))];
        break;
      case 1:
        v = lim[U(countof(lim))] + (int64_t)U(5) - 2;
        break;
      default:
        v = pt_bits(t, 1 + U(64));
        break;
    }
    return pt_p(t, 30, 100) ? -v : v;
}

static double gen_dbl(pt_t *t)
{
    static const double lim[] = {
        0., -0., 1., -1., 0.5, 1.5, 2.5, 0.05, 0.15, 9.5, 9.4999999, 99.5,
        0.1, 0.9, 0.99, 0.999999, 0.9999995, 9.9999995, 9.9999994999, 1e5,
        999999.5, 999999.4, 1e6, 1e7, 1e-4, 9.9999e-5, 0.0001, 0.00001234,
        1e15, 1e16, 1e17, 1e21, 1e22, 1e23, 123456789., 4294967296.,
        9007199254740992., 9007199254740993., 1.7976931348623157e308,
        2.2250738585072014e-308, 4.9406564584124654e-324, 5e-324, 1e-310,
        1e100, 1e-100, 3.14159265358979, 8.5, 0.125, 0.375, 1e-5, 1e-7,
    };
    double d;
    uint64_t u;

    switch (U(6)) {
      case 0:
        d = lim[U(countof(lim))];
        break;
      case 1: /* small decimal */
        d = (double)pt_bits(t, 1 + U(40));
        for (int i = U(12); i-- > 0; ) {
            d /= 10;
        }
        break;
      case 2: /* exact ties */
        d = (double)(pt_bits(t, 1 + U(50)) * 2 + 1)
          / (double)(1ull << (1 + U(20)));
        break;
      case 3:
        d = (double)(int64_t)gen_int(t);
        break;
      case 4: /* near a power of ten */
        d = pow(10, (int)U(40) - 20);
        memcpy(&u, &d, 8);
        u += (int64_t)U(7) - 3;
        memcpy(&d, &u, 8);
        break;
      default:
        u = pt_bits(t, 64);
        memcpy(&d, &u, 8);
        break;
    }
    if (pt_p(t, 2, 100)) {
        d = pt_bool(t) ? INFINITY : -INFINITY;
    }
    if (pt_p(t, 1, 100)) {
        d = NAN;
    }
    return pt_p(t, 30, 100) ? -d : d;
}

/* C library's conversion of one piece */
static void piece(const char *f, args_t *a)
{
    va_list ap;
    int r;

    args_va(a, ap);
    errno = errno_in;
    r = (vsnprintf)(xp + xp_len, sizeof(xp) - xp_len, f, ap);
    if (r < 0 || r >= ssizeof(xp) - xp_len) {
        fprintf(stderr, "oracle failed on %s\n", f);
        abort();
    }
    xp_len += r;
}

static void put_padded(const char *s, int n, int width, bool left)
{
    int pad = width > n ? width - n : 0;

    if (!left) {
        memset(xp + xp_len, ' ', pad);
        xp_len += pad;
    }
    xput(s, n);
    if (left) {
        memset(xp + xp_len, ' ', pad);
        xp_len += pad;
    }
}

static int u128_str(unsigned __int128 v, int base, bool up, char *out)
{
    char tmp[140];
    int n = 0, m = 0;

    do {
        tmp[n++] = (up ? "0123456789ABCDEF" : "0123456789abcdef")[v % base];
        v /= base;
    } while (v);
    while (n) {
        out[m++] = tmp[--n];
    }
    return m;
}

/* user formatters */
typedef struct obj_t { int v; const char *s; } obj_t;
static int obj_str(const obj_t *o, char *out)
{
    return (sprintf)(out, "<%d|%s>", o->v, o->s);
}
static ssize_t fmt_obj(int modifier, const void *val, FILE *stream,
                       char *buf, size_t buf_len)
{
    const obj_t *o = val;

    return formatter_writef(stream, buf, buf_len, "<%d|%s>", o->v, o->s);
}
static ssize_t fmt_rawobj(int modifier, const void *val, size_t val_len,
                          FILE *stream, char *buf, size_t buf_len)
{
    return formatter_write(stream, buf, buf_len, val, val_len);
}

static void gen_conv(pt_t *t)
{
    args_t a1 = { .n = 0 };
    char sub[128];
    int start = fmt_len;
    bool minus = false, zero = false, quote = false, plus = false;
    bool space = false, alt = false;
    bool has_w = false, has_p = false, neg_p = false;
    int width = 0, prec = -1;
    static const char kinds[] = "dddiuuoxXcssspeEfFgGnm%MXxLduhHZzQ";
    int kpos = U(sizeof(kinds) - 1);
    char k = kinds[kpos];

    n_conv++;
    if (kpos >= 22) {
        /* lib-common's own */
        fput('%');
        switch (k) {
          case '%':
            fput('%');
            xput("%", 1);
            return;
          case 'M': {
            int n = pt_size(t, 40);
            char *s = keep(t, n, true);

            fputstr("*pM");
            push_int(&args, n);
            push_ptr(&args, s);
            xput(s, n);
            return;
          }
          case 'X': case 'x': {
            int n = pt_size(t, 40);
            char *s = keep(t, n, true);

            fputstr("*p");
            fput(k);
            push_int(&args, n);
            push_ptr(&args, s);
            for (int i = 0; i < n; i++) {
                xp_len += (sprintf)(xp + xp_len, k == 'X' ? "%02X" : "%02x",
                                    (unsigned char)s[i]);
            }
            return;
          }
          case 'L': {
            int n = pt_size(t, 40);
            char *s = keep(t, n, true);
            lstr_t *l;

            arena_len = ROUND_UP(arena_len, 16);
            l = (lstr_t *)(arena + arena_len);
            arena_len += sizeof(lstr_t);
            *l = LSTR_INIT_V(s, n);
            fputstr("pL");
            push_ptr(&args, l);
            xput(s, n);
            return;
          }
          case 'd': case 'u': case 'h': case 'H': {
            unsigned __int128 v = gen_int(t), w;
            unsigned __int128 *p;

            if (pt_p(t, 70, 100)) {
                v = (v << 64) | gen_int(t);
                v >>= U(64);
            }
            if (pt_p(t, 30, 100)) {
                /* around a power of 10 */
                w = 1;
                for (int i = U(39); i-- > 0; ) {
                    w *= 10;
                }
                v = w * (1 + U(9)) + (__int128)U(300) - 150;
            }
            if (pt_p(t, 30, 100)) {
                v = -v;
            }
            arena_len = ROUND_UP(arena_len, 16);
            p = (unsigned __int128 *)(arena + arena_len);
            arena_len += 16;
            *p = v;
            fputstr("*p");
            fput(k);
            push_int(&args, 16);
            push_ptr(&args, p);
            if (k == 'd' && (__int128)v < 0) {
                xput("-", 1);
                v = -v;
            }
            xp_len += u128_str(v, k == 'h' || k == 'H' ? 16 : 10, k == 'H',
                               xp + xp_len);
            return;
          }
          case 'Z': case 'z': {
            int n = pt_size(t, 30);
            char *s = keep(t, n, false);
            obj_t *o;

            s[n] = 0;
            arena_len = ROUND_UP(arena_len, 16);
            o = (obj_t *)(arena + arena_len);
            arena_len += sizeof(obj_t);
            o->v = gen_int(t);
            o->s = s;
            fputstr("pZ");
            push_ptr(&args, o);
            xp_len += obj_str(o, xp + xp_len);
            return;
          }
          case 'Q': {
            int n = pt_size(t, 30);
            char *s = keep(t, n, true);

            fputstr("*pQ");
            push_int(&args, n);
            push_ptr(&args, s);
            xput(s, n);
            return;
          }
        }
    }

    fput('%');
    while (pt_p(t, 40, 100)) {
        static const char fl[] = "-+# 0'I";
        char c = fl[U(sizeof(fl) - 1)];

        if (c == 'I' && k != 'd' && k != 'i' && k != 'u') {
            continue;
        }
        if (c == '\'' && (!strchr("diu", k) || zero)) {
            continue;
        }
        if (c == '0' && (quote || !strchr("diuoxXeEfFgG", k))) {
            continue;
        }
        if (c == '#' && !strchr("oxXeEfFgG", k)) {
            continue;
        }
        switch (c) {
          case '-': minus = true; break;
          case '+': plus = true; break;
          case '#': alt = true; break;
          case ' ': space = true; break;
          case '0': zero = true; break;
          case '\'': quote = true; break;
        }
        fput(c);
    }
    if (k == 'n') {
        fmt_len = start + 1;
        minus = plus = alt = space = zero = quote = false;
    } else {
        if (pt_p(t, 40, 100)) {
            has_w = true;
            width = pt_p(t, 10, 100) ? 1 + U(400) : 1 + U(30);
            if (pt_p(t, 1, 100)) {
                width = 1 + U(9000);
            }
            if (pt_p(t, 30, 100)) {
                fput('*');
                if (pt_p(t, 20, 100)) {
                    push_int(&args, -width);
                    push_int(&a1, -width);
                    minus = true;
                } else {
                    push_int(&args, width);
                    push_int(&a1, width);
                }
            } else {
                fmt_len += (sprintf)(fmt + fmt_len, "%d", width);
            }
        }
        if (pt_p(t, 40, 100) && k != 'c' && k != 'p' && k != 'm' && !quote) {
            has_p = true;
            prec = pt_p(t, 90, 100) ? U(20) : U(300);
            fput('.');
            switch (U(4)) {
              case 0:
                fput('*');
                push_int(&args, prec);
                push_int(&a1, prec);
                break;
              case 1:
                prec = 0;
                break;
              default:
                fmt_len += (sprintf)(fmt + fmt_len, "%d", prec);
                break;
            }
        }
    }
    (void)neg_p;
    if (has_w || has_p || minus || plus || alt || space || zero || quote) {
        nontriv = true;
    }

    switch (k) {
      case 'd': case 'i': case 'u': case 'o': case 'x': case 'X': {
        static const char *mods[] = {
            "", "", "", "h", "hh", "l", "ll", "j", "z", "t", "L",
        };
        int m = U(countof(mods));
        uint64_t v = gen_int(t);

        fputstr(mods[m]);
        fput(k);
        if (m < 5) {
            push_int(&args, v);
            push_int(&a1, v);
        } else {
            push(&args, v);
            push(&a1, v);
        }
        if (quote) {
            char tmp[64], out[64];
            int n, o = 0;
            int64_t s;

            s = m < 3 ? (int)v : m == 3 ? (short)v : m == 4 ? (signed char)v
              : (int64_t)v;
            if (k == 'u') {
                v = m < 3 ? (unsigned)v : m == 3 ? (unsigned short)v
                  : m == 4 ? (unsigned char)v : v;
            } else {
                if (s < 0) {
                    out[o++] = '-';
                } else
                if (plus) {
                    out[o++] = '+';
                } else
                if (space) {
                    out[o++] = ' ';
                }
                v = s < 0 ? -(uint64_t)s : (uint64_t)s;
            }
            n = u128_str(v, 10, false, tmp);
            for (int i = 0; i < n; i++) {
                if (i && (n - i) % 3 == 0) {
                    out[o++] = ',';
                }
                out[o++] = tmp[i];
            }
            put_padded(out, o, width, minus);
            return;
        }
        break;
      }
      case 'c': {
        int c = 1 + U(255);

        fput('c');
        push_int(&args, c);
        push_int(&a1, c);
        break;
      }
      case 's': {
        int n = pt_size(t, 40);
        char *s;

        fput('s');
        if (has_p && pt_bool(t)) {
            /* exactly as much as the precision allows: no terminator */
            n = prec;
            s = (malloc)(n ?: 1);
            for (int i = 0; i < n; i++) {
                s[i] = 'a' + U(26);
            }
            /* leaked on purpose until the end of the case */
            {
                char *s2 = keep(t, n, false);

                memcpy(s2, s, n);
                (free)(s);
                s = s2;
                s[n] = pt_bool(t) ? 'Z' : 0;
            }
        } else {
            s = keep(t, n, false);
            s[n] = 0;
            if (!has_p && pt_p(t, 5, 100)) {
                s = NULL;
            }
        }
        push_ptr(&args, s);
        push_ptr(&a1, s);
        break;
      }
      case 'p': {
        uint64_t v = pt_p(t, 10, 100) ? 0 : gen_int(t);

        fput('p');
        push(&args, v);
        push(&a1, v);
        plus = space = false;
        break;
      }
      case 'e': case 'E': case 'f': case 'F': case 'g': case 'G': {
        double d = gen_dbl(t);
        int lm = U(6);

        if (lm == 0) {
            fput('l');
        }
        if (lm == 1) {
            fput('L');
        }
        fput(k);
        if (lm == 1) {
            push_ldbl(&args, d);
        } else {
            push_dbl(&args, d);
        }
        push_dbl(&a1, d);
        if (!isfinite(d)) {
            const char *s = isnan(d) ? "NaN" : d < 0 ? "-Inf"
                          : plus ? "+Inf" : "Inf";

            put_padded(s, strlen(s), width, minus);
            return;
        }
        if (alt && (k == 'g' || k == 'G')) {
            /* glibc writes %#g of 999999.5 as 1.e+06: use the definition in
             * the C standard */
            int P = !has_p ? 6 : prec ? prec : 1;
            int X, o = 0;
            args_t a2 = { .n = 0 };
            char tmp[600];

            (snprintf)(tmp, sizeof(tmp), "%.*e", P - 1, d);
            X = atoi(strchr(tmp, 'e') + 1);
            sub[o++] = '%';
            for (const char *f = "#"; *f; f++) {
                sub[o++] = *f;
            }
            if (minus) sub[o++] = '-';
            if (plus) sub[o++] = '+';
            if (space) sub[o++] = ' ';
            if (zero) sub[o++] = '0';
            sub[o++] = '*';
            sub[o++] = '.';
            sub[o++] = '*';
            push_int(&a2, width);
            if (P > X && X >= -4) {
                sub[o++] = 'f';
                push_int(&a2, P - 1 - X);
            } else {
                sub[o++] = k == 'g' ? 'e' : 'E';
                push_int(&a2, P - 1);
            }
            sub[o] = 0;
            push_dbl(&a2, d);
            piece(sub, &a2);
            return;
        }
        if (lm == 1) {
            int o = 0;
            for (int i = start; i < fmt_len; i++) {
                if (fmt[i] != 'L') {
                    sub[o++] = fmt[i];
                }
            }
            sub[o] = 0;
            piece(sub, &a1);
            return;
        }
        break;
      }
      case 'n':
        if (n_kind >= 0) {
            fmt_len = start;
            return;
        }
        n_kind = U(4);
        fputstr(n_kind == 0 ? "n" : n_kind == 1 ? "ln" : n_kind == 2 ? "hn"
                : "hhn");
        push_ptr(&args, n_kind == 0 ? (void *)&n_got
                 : n_kind == 1 ? (void *)&n_got_l
                 : n_kind == 2 ? (void *)&n_got_h : (void *)&n_got_hh);
        n_pos = xp_len;
        return;
      case 'm':
        fput('m');
        break;
      default:
        abort();
    }
    {
        int o = 0;

        if (k == 'p') {
            /* + and space flags mean nothing for %p here */
            for (int i = start; i < fmt_len; i++) {
                if (fmt[i] != '+' && fmt[i] != ' ') {
                    sub[o++] = fmt[i];
                }
            }
        } else {
            memcpy(sub, fmt + start, fmt_len - start);
            o = fmt_len - start;
        }
        sub[o] = 0;
        piece(sub, &a1);
    }
}

static void gen_fmt(pt_t *t)
{
    int guard = 0;

    fmt_len = xp_len = arena_len = 0;
    args.n = 0;
    n_kind = -1;
    nontriv = false;
    n_conv = 0;
    n_got = -1;
    n_got_l = -1;
    n_got_h = -1;
    n_got_hh = -1;
    errno_in = U(120);
    do {
        if (pt_p(t, 50, 100)) {
            int n = pt_size(t, 12);

            for (int i = 0; i < n; i++) {
                char c = 32 + U(95);

                if (c == '%') {
                    c = '_';
                }
                fput(c);
                xput(&c, 1);
            }
        }
        if (args.n < MAXARGS - 8) {
            bool after_p;

            gen_conv(t);
            after_p = fmt_len && fmt[fmt_len - 1] == 'p';
            if (after_p) {
                /* letters and digits after %p are reserved */
                fput(':');
                xput(":", 1);
            }
        }
    } while (++guard < 12 && pt_p(t, 70, 100));
    fmt[fmt_len] = 0;
    if (nontriv) {
        pt_nontrivial(t);
    }
    if (pt_verbose(t)) {
        pt_note(t, "format %s", fmt);
        pt_note_hex(t, "expected", xp, xp_len);
    }
}

static void check_n(pt_t *t)
{
    if (n_kind >= 0) {
        long got = n_kind == 0 ? n_got : n_kind == 1 ? n_got_l
                 : n_kind == 2 ? n_got_h : n_got_hh;
        long want = n_kind == 2 ? (short)n_pos
                  : n_kind == 3 ? (signed char)n_pos : n_pos;

        PT_CHECK(t, got == want, "%%n got %ld instead of %ld", got, want);
    }
}

static void run_buf(pt_t *t)
{
    int tries;

    gen_fmt(t);
    tries = 3;
    for (int i = 0; i < tries; i++) {
        size_t sz = i == 0 ? (size_t)xp_len + 1 : i == 1 ? (size_t)xp_len
                  : U(xp_len + 2);
        char *buf = (malloc)(sz ? sz : 1);
        va_list ap;
        int r;
        int keep_len = (int)sz - 1 < xp_len ? (int)sz - 1 : xp_len;

        if (sz) {
            memset(buf, 0x5a, sz);
        }
        args_va(&args, ap);
        errno = errno_in;
        r = ivsnprintf(sz ? buf : NULL, sz, fmt, ap);
        PT_CHECK(t, r == xp_len, "size %zu: returned %d instead of %d for "
                 "format `%s'", sz, r, xp_len, fmt);
        if (sz) {
            PT_CHECK(t, !memcmp(buf, xp, keep_len) && buf[keep_len] == 0,
                     "size %zu, format `%s': got `%.*s' instead of `%.*s'",
                     sz, fmt, keep_len, buf, keep_len, xp);
        }
        check_n(t);
        (free)(buf);
    }
}

static FILE *mem_stream(char **p, size_t *n)
{
    return open_memstream(p, n);
}

static void run_stream(pt_t *t)
{
    char *out = NULL;
    size_t n = 0;
    FILE *f;
    va_list ap;
    int r;

    gen_fmt(t);
    f = mem_stream(&out, &n);
    args_va(&args, ap);
    errno = errno_in;
    r = ivfprintf(f, fmt, ap);
    fclose(f);
    PT_CHECK(t, r == xp_len, "stream: returned %d instead of %d for format "
             "`%s'", r, xp_len, fmt);
    PT_CHECK(t, (int)n == xp_len && !memcmp(out, xp, n),
             "stream, format `%s': got `%.*s' instead of `%.*s'",
             fmt, (int)n, out, xp_len, xp);
    check_n(t);
    (free)(out);
}

/* growing strings */
static void run_grow(pt_t *t)
{
    va_list ap;
    int kind = U(6);

    gen_fmt(t);
    errno = errno_in;
    args_va(&args, ap);
    switch (kind) {
      case 0: case 1: {
        sb_t sb;
        int n0 = pt_size(t, 100);
        char *old = (malloc)(n0 + 1);
        int alloc = U(3);
        char small[64];
        int r;

        for (int i = 0; i < n0; i++) {
            old[i] = U(256);
        }
        if (alloc == 0) {
            sb_init(&sb);
        } else
        if (alloc == 1) {
            sb_init_full(&sb, small, 0, sizeof(small), &mem_pool_static);
            small[0] = 0;
        } else {
            sb_init(&sb);
            /* make the free room close to what is needed */
            sb_grow(&sb, n0 + U(xp_len + 8));
        }
        sb_add(&sb, old, n0);
        errno = errno_in;
        if (kind == 0) {
            r = sb_addvf(&sb, fmt, ap);
            PT_CHECK(t, sb.len == n0 + xp_len
                     && !memcmp(sb.data, old, n0)
                     && !memcmp(sb.data + n0, xp, xp_len),
                     "sb_addvf, format `%s': got `%.*s' instead of `%.*s'",
                     fmt, sb.len - n0, sb.data + n0, xp_len, xp);
        } else {
            r = sb_prependvf(&sb, fmt, ap);
            PT_CHECK(t, sb.len == n0 + xp_len
                     && !memcmp(sb.data + xp_len, old, n0)
                     && !memcmp(sb.data, xp, xp_len),
                     "sb_prependvf, format `%s': got `%.*s' instead of "
                     "`%.*s'", fmt, sb.len - n0, sb.data, xp_len, xp);
        }
        (void)r;
        PT_CHECK(t, sb.data[sb.len] == 0, "string not terminated");
        sb_wipe(&sb);
        (free)(old);
        break;
      }
      case 2: {
        char *s = ivasprintf(fmt, ap);

        PT_CHECK(t, !memcmp(s, xp, xp_len) && s[xp_len] == 0,
                 "ivasprintf, format `%s': got `%s' instead of `%.*s'", fmt,
                 s, xp_len, xp);
        p_delete(&s);
        break;
      }
      case 3: {
        t_scope;
        lstr_t l = lstr_vfmt(fmt, ap);

        PT_CHECK(t, l.len == xp_len && !memcmp(l.s, xp, xp_len)
                 && !l.s[l.len],
                 "lstr_vfmt, format `%s': got `%.*s' instead of `%.*s'", fmt,
                 l.len, l.s, xp_len, xp);
        lstr_wipe(&l);
        break;
      }
      case 4: {
        t_scope;
        lstr_t l = t_lstr_vfmt(fmt, ap);

        PT_CHECK(t, l.len == xp_len && !memcmp(l.s, xp, xp_len)
                 && !l.s[l.len],
                 "t_lstr_vfmt, format `%s': got `%.*s' instead of `%.*s'",
                 fmt, l.len, l.s, xp_len, xp);
        break;
      }
      case 5: {
        t_scope;
        int n;
        char *s = mp_vfmt(t_pool(), &n, fmt, ap);

        PT_CHECK(t, n == xp_len && !memcmp(s, xp, xp_len) && !s[n],
                 "mp_vfmt, format `%s': got `%.*s' instead of `%.*s'",
                 fmt, n, s, xp_len, xp);
        break;
      }
    }
}

void pt_setup(void)
{
    e_set_verbosity(-1);
    iprintf_register_pointer_formatter('Z', &fmt_obj);
    iprintf_register_formatter('Q', &fmt_rawobj);
}

const pt_target_t pt_targets[] = {
    { "buf",    run_buf,    300000, 10000000, 20 },
    { "stream", run_stream, 100000, 4000000, 20 },
    { "grow",   run_grow,   150000, 5000000, 20 },
};
const int pt_targets_len = 3;
