/* String buffers, bounded strings and parsing streams, against plain byte
 * arrays. */
#include <math.h>
#include <lib-common/core.h>
#include <lib-common/container-qvector.h>
#include <lib-common/unix.h>
#include <sys/socket.h>
#include "pt.h"

const char pt_rule[] =
    "sb: histories of operations on a string buffer (heap, stack buffer, frame "
    "or fifo pool) compared with a byte array after each of them; lstr, ps, "
    "cstr: each function of bounded strings, parsing streams and C strings on "
    "generated texts, compared with its definition; io: reads of files and "
    "pipes in any chunks, with failures. non-trivial: sb: at least 5 "
    "operations; others: a text that is not empty";

#define U(n)       pt_u(t, (n) - 1)
#define P(n)       pt_p(t, (n), 100)

/* {{{ model */

typedef struct buf_t {
    unsigned char *d;
    int len, size;
} buf_t;

static void b_need(buf_t *b, int n)
{
    if (b->len + n > b->size) {
        b->size = (b->len + n) * 2 + 64;
        b->d = (realloc)(b->d, b->size);
    }
}
static void b_splice(buf_t *b, int pos, int rm, const void *s, int n)
{
    b_need(b, n);
    memmove(b->d + pos + n, b->d + pos + rm, b->len - pos - rm);
    if (s) {
        memcpy(b->d + pos, s, n);
    }
    b->len += n - rm;
}
static void b_add(buf_t *b, const void *s, int n)
{
    b_splice(b, b->len, 0, s, n);
}

static unsigned char *tx;
static int txlen;

/* a text of about n bytes in an exactly sized block */
static void gen_text(pt_t *t, int max, int mode)
{
    static unsigned char *last;

    if (last) {
        (free)(last);
    }
    txlen = pt_size(t, max);
    last = tx = (malloc)(txlen ? txlen : 1);
    for (int i = 0; i < txlen; i++) {
        switch (mode) {
          case 0:
            tx[i] = U(256);
            break;
          case 1: /* few distinct letters */
            tx[i] = "abAB \t\n\0z9,;"[U(12)];
            break;
          default:
            tx[i] = 'a' + U(3);
            break;
        }
    }
}

static bool m_space(int c)
{
    return c == ' ' || (c >= 9 && c <= 13);
}
static int m_lower(int c)
{
    return c >= 'A' && c <= 'Z' ? c + 32 : c;
}
static int m_upper(int c)
{
    return c >= 'a' && c <= 'z' ? c - 32 : c;
}
static int m_find(const unsigned char *h, int hl, const unsigned char *n,
                  int nl)
{
    for (int i = 0; i + nl <= hl; i++) {
        if (!memcmp(h + i, n, nl)) {
            return i;
        }
    }
    return -1;
}

/* }}} */
/* {{{ sb */

static bool in_set(const unsigned char *set, int n, int c)
{
    return memchr(set, c, n) != NULL;
}

static void sb_ok(pt_t *t, const sb_t *sb, const buf_t *m, const char *op)
{
    PT_CHECK(t, sb->len == m->len, "%s: length %d instead of %d", op, sb->len,
             m->len);
    PT_CHECK(t, sb->size > sb->len && sb->skip >= 0,
             "%s: size %d, length %d, skip %d", op, sb->size, sb->len,
             sb->skip);
    PT_CHECK(t, !memcmp(sb->data, m->d, m->len), "%s: wrong content", op);
    PT_CHECK(t, sb->data[sb->len] == 0, "%s: not terminated", op);
}

static void run_sb(pt_t *t)
{
    t_scope;
    static buf_t m;
    char *stk = NULL;
    int stk_len = 0;
    mem_pool_t *fifo = NULL;
    int pool = U(4);
    int n_ops = 0;
    sb_t sb;
    const char *op;
    int big = P(20) ? 40000 : 60;

    m.len = 0;
    b_need(&m, 1);
    switch (pool) {
      case 0:
        sb_init(&sb);
        break;
      case 1:
        stk_len = 1 + U(200);
        stk = (malloc)(stk_len);
        memset(stk, 0x55, stk_len);
        sb_init_full(&sb, stk, 0, stk_len, &mem_pool_static);
        break;
      case 2:
        t_sb_init(&sb, 1 + U(200));
        break;
      default:
        fifo = mem_fifo_pool_new("verif", 0);
        mp_sb_init(fifo, &sb, 1 + U(200));
        break;
    }
    sb_ok(t, &sb, &m, "init");

    do {
        n_ops++;
        switch (U(36)) {
          case 34: case 35: {
            bool pre = pt_bool(t);
            int n, r, av = sb_avail(&sb);

            switch (U(3)) {
              case 0: /* around what is available */
                n = U(7) + (av > 6 && av < 100000 ? av - 6 : 0);
                break;
              case 1: /* around the size of stdio's buffers */
                n = BUFSIZ - 6 + U(7);
                break;
              default:
                n = U(100);
                break;
            }
            op = pre ? "sb_prependf" : "sb_addf";
            if (pre) {
                r = sb_prependf(&sb, "%0*d%s", n + 1, 7, n & 2 ? "x" : "yz");
            } else {
                r = sb_addf(&sb, "%0*d%s", n + 1, 7, n & 2 ? "x" : "yz");
            }
            gen_text(t, 0, 0);
            b_splice(&m, pre ? 0 : m.len, 0, NULL, n + 2 + !(n & 2));
            memset(m.d + (pre ? 0 : m.len - (n + 2 + !(n & 2))), '0', n);
            memcpy(m.d + (pre ? 0 : m.len - (n + 2 + !(n & 2))) + n,
                   n & 2 ? "7x" : "7yz", 2 + !(n & 2));
            PT_CHECK(t, r == n + 2 + !(n & 2), "%s returned %d", op, r);
            break;
          }
          case 0: case 1: case 2:
            gen_text(t, big, 0);
            op = "sb_add";
            sb_add(&sb, tx, txlen);
            b_add(&m, tx, txlen);
            break;
          case 3: {
            int c = U(256);

            op = "sb_addc";
            sb_addc(&sb, c);
            b_add(&m, (unsigned char[]){ c }, 1);
            break;
          }
          case 4: {
            int n = pt_size(t, big);
            int c = U(256);

            op = "sb_addnc";
            sb_addnc(&sb, n, c);
            b_splice(&m, m.len, 0, NULL, n);
            memset(m.d + m.len - n, c, n);
            break;
          }
          case 5: case 6: case 7: {
            int pos = U(m.len + 1);
            int rm = U(m.len - pos + 1);

            if (P(30)) {
                pos = 0;
                rm = 0;
            }
            gen_text(t, big, 0);
            op = "sb_splice";
            sb_splice(&sb, pos, rm, tx, txlen);
            b_splice(&m, pos, rm, tx, txlen);
            break;
          }
          case 8: {
            int pos = U(m.len + 1);
            int rm = U(m.len - pos + 1);
            int n = pt_size(t, big);
            int c = U(256);

            op = "sb_splicenc";
            sb_splicenc(&sb, pos, rm, n, c);
            b_splice(&m, pos, rm, NULL, n);
            memset(m.d + pos, c, n);
            break;
          }
          case 9: case 10: {
            gen_text(t, big, 0);
            op = "sb_prepend_lstr";
            sb_prepend_lstr(&sb, LSTR_INIT_V((char *)tx, txlen));
            b_splice(&m, 0, 0, tx, txlen);
            break;
          }
          case 11: {
            int c = U(256);

            op = "sb_prependc";
            sb_prependc(&sb, c);
            b_splice(&m, 0, 0, (unsigned char[]){ c }, 1);
            break;
          }
          case 12: case 13: case 14: {
            int n = P(50) ? U(m.len + 1) : m.len - U(MIN(m.len, 3) + 1);

            if (n < 0) {
                n = 0;
            }
            op = "sb_skip";
            sb_skip(&sb, n);
            b_splice(&m, 0, n, NULL, 0);
            break;
          }
          case 15: {
            int n = U(m.len + 1);

            op = "sb_clip";
            sb_clip(&sb, n);
            m.len = n;
            break;
          }
          case 16: {
            int n = U(m.len + 1);

            op = "sb_shrink";
            sb_shrink(&sb, n);
            m.len -= n;
            break;
          }
          case 17: {
            int k = U(3);

            op = k == 0 ? "sb_ltrim" : k == 1 ? "sb_rtrim" : "sb_trim";
            if (k == 0) {
                sb_ltrim(&sb);
            } else
            if (k == 1) {
                sb_rtrim(&sb);
            } else {
                sb_trim(&sb);
            }
            if (k != 1) {
                int n = 0;

                while (n < m.len && m_space(m.d[n])) {
                    n++;
                }
                b_splice(&m, 0, n, NULL, 0);
            }
            if (k != 0) {
                while (m.len && m_space(m.d[m.len - 1])) {
                    m.len--;
                }
            }
            break;
          }
          case 18: {
            int pos = U(m.len + 1);
            int r, e;

            gen_text(t, 4, 0);
            if (m.len && P(70)) {
                int o = U(m.len);
                txlen = U(MIN(m.len - o, txlen) + 1);
                memcpy(tx, m.d + o, txlen);
            }
            op = "sb_search";
            r = sb_search(&sb, pos, tx, txlen);
            e = m_find(m.d + pos, m.len - pos, tx, txlen);
            if (e >= 0) {
                e += pos;
            }
            PT_CHECK(t, r == e, "sb_search: %d instead of %d", r, e);
            break;
          }
          case 19: {
            int n = -7;
            char *s = sb_detach(&sb, P(80) ? &n : NULL);

            op = "sb_detach";
            PT_CHECK(t, (n == -7 || n == m.len) && !memcmp(s, m.d, m.len)
                     && !s[m.len], "sb_detach: wrong result");
            p_delete(&s);
            m.len = 0;
            break;
          }
          case 20: case 21: {
            lstr_t l = LSTR_NULL;
            bool keep = pt_bool(t);

            if (P(30)) {
                l = lstr_dups("old", 3);
            }
            if (keep && pool == 1 && sb.mp == &mem_pool_static) {
                /* would refer to the stack buffer */
                keep = false;
            }
            if (keep && fifo) {
                /* the mp_* functions are needed to free it */
                keep = false;
            }
            op = keep ? "lstr_transfer_sb(keep)" : "lstr_transfer_sb";
            lstr_transfer_sb(&l, &sb, keep);
            PT_CHECK(t, l.len == m.len && !memcmp(l.s, m.d, m.len)
                     && !l.s[m.len], "%s: wrong string", op);
            lstr_wipe(&l);
            m.len = 0;
            break;
          }
          case 22:
            op = "sb_reset";
            sb_reset(&sb);
            m.len = 0;
            break;
          case 23:
            op = "sb_reset_keep_mem";
            sb_reset_keep_mem(&sb);
            m.len = 0;
            break;
          case 24:
            op = "sb_wipe";
            sb_wipe(&sb);
            m.len = 0;
            break;
          case 25:
            op = "sb_reset_reverse";
            sb_reset_reverse(&sb);
            m.len = 0;
            break;
          case 26: {
            int n = pt_size(t, big);
            int used;

            op = "sb_grow";
            gen_text(t, n, 0);
            used = MIN(txlen, n);
            memcpy(sb_grow(&sb, n), tx, used);
            PT_CHECK(t, sb_avail(&sb) >= n, "sb_grow: no room");
            __sb_fixlen(&sb, sb.len + used);
            b_add(&m, tx, used);
            break;
          }
          case 27: {
            gen_text(t, big, 0);
            op = "sb_growlen";
            memcpy(sb_growlen(&sb, txlen), tx, txlen);
            b_add(&m, tx, txlen);
            break;
          }
          case 28: {
            gen_text(t, big, 0);
            op = "sb_set";
            sb_set(&sb, tx, txlen);
            m.len = 0;
            b_add(&m, tx, txlen);
            break;
          }
          case 29: {
            static const int caps[] = { 0x7f, 0x7ff, 0xffff, 0x10ffff };
            int c = U(caps[U(4)] + 1);
            unsigned char u[4];
            int n = 0;

            if (c < 0x80) {
                u[n++] = c;
            } else
            if (c < 0x800) {
                u[n++] = 0xc0 | (c >> 6);
                u[n++] = 0x80 | (c & 63);
            } else
            if (c < 0x10000) {
                u[n++] = 0xe0 | (c >> 12);
                u[n++] = 0x80 | ((c >> 6) & 63);
                u[n++] = 0x80 | (c & 63);
            } else {
                u[n++] = 0xf0 | (c >> 18);
                u[n++] = 0x80 | ((c >> 12) & 63);
                u[n++] = 0x80 | ((c >> 6) & 63);
                u[n++] = 0x80 | (c & 63);
            }
            op = "sb_adduc";
            sb_adduc(&sb, c);
            b_add(&m, u, n);
            break;
          }
          case 30: case 31: {
            /* sanitizing */
            unsigned char set[8];
            int sn = 1 + U(8);
            bool out = pt_bool(t);
            int c = P(50) ? -1 : (int)U(256);
            ctype_desc_t d;
            bool prev = false;

            for (int i = 0; i < sn; i++) {
                set[i] = "abAB \t\n\0z9,;\xff"[U(13)];
            }
            ctype_desc_build2(&d, (char *)set, sn);
            gen_text(t, 40, 1);
            op = out ? "sb_add_sanitized_out" : "sb_add_sanitized";
            if (out) {
                if (c < 0 && pt_bool(t)) {
                    sb_add_filtered_out(&sb, LSTR_INIT_V((char *)tx, txlen),
                                        &d);
                } else {
                    sb_add_sanitized_out(&sb, LSTR_INIT_V((char *)tx, txlen),
                                         &d, c);
                }
            } else {
                if (c < 0 && pt_bool(t)) {
                    sb_add_filtered(&sb, LSTR_INIT_V((char *)tx, txlen), &d);
                } else {
                    sb_add_sanitized(&sb, LSTR_INIT_V((char *)tx, txlen), &d,
                                     c);
                }
            }
            for (int i = 0; i < txlen; i++) {
                if (in_set(set, sn, tx[i]) != out) {
                    b_add(&m, tx + i, 1);
                    prev = false;
                } else {
                    if (!prev && c >= 0) {
                        b_add(&m, (unsigned char[]){ c }, 1);
                    }
                    prev = true;
                }
            }
            break;
          }
          case 32: {
            int pad = 8 - m.len % 8;
            lstr_t l;

            op = "pkcs7";
            sb_add_pkcs7_8_bytes_padding(&sb);
            l = lstr_trim_pkcs7_padding(LSTR_SB_V(&sb));
            PT_CHECK(t, l.s == sb.data && l.len == m.len,
                     "pkcs7: %d bytes after trimming instead of %d", l.len,
                     m.len);
            b_splice(&m, m.len, 0, NULL, pad);
            memset(m.d + m.len - pad, pad, pad);
            break;
          }
          default: {
            sb_t sb2;
            int c;

            op = "sb_cmp";
            sb_init(&sb2);
            gen_text(t, 10, 1);
            if (P(50)) {
                sb_addsb(&sb2, &sb);
                if (sb2.len && P(50)) {
                    sb2.data[U(sb2.len)] ^= 1 << U(8);
                }
                if (P(30)) {
                    sb_addc(&sb2, 0);
                }
            } else {
                sb_add(&sb2, tx, txlen);
            }
            c = memcmp(sb2.data, m.d, MIN(sb2.len, m.len));
            if (!c) {
                c = m.len - sb2.len;
            } else {
                c = -c;
            }
            PT_CHECK(t, (sb_cmp(&sb, &sb2) > 0) == (c > 0)
                     && (sb_cmp(&sb, &sb2) < 0) == (c < 0), "sb_cmp");
            sb_wipe(&sb2);
            break;
          }
        }
        if (pt_verbose(t)) {
            pt_note(t, "%s -> %d bytes", op, m.len);
        }
        sb_ok(t, &sb, &m, op);
        if (m.len > 2000000) {
            break;
        }
    } while (pt_more(t, 15));

    sb_wipe(&sb);
    if (fifo) {
        mem_fifo_pool_delete(&fifo);
    }
    if (stk) {
        (free)(stk);
    }
    if (n_ops >= 5) {
        pt_nontrivial(t);
    }
}

/* }}} */
/* {{{ numbers and durations in sb */

static int group(const char *digits, int n, int sep, char *out)
{
    int o = 0;

    for (int i = 0; i < n; i++) {
        if (i && (n - i) % 3 == 0 && sep >= 0) {
            out[o++] = sep;
        }
        out[o++] = digits[i];
    }
    return o;
}

static void run_sbnum(pt_t *t)
{
    SB_1k(sb);
    char tmp[1000], out[1400];
    int o = 0, n;
    int sep = P(30) ? -1 : ",. '_"[U(5)];

    pt_nontrivial(t);
    switch (U(4)) {
      case 0: {
        uint64_t v = pt_bits(t, 64);

        sb_add_uint_fmt(&sb, v, sep);
        n = (sprintf)(tmp, "%llu", (unsigned long long)v);
        o = group(tmp, n, sep, out);
        break;
      }
      case 1: {
        int64_t v = pt_sbits(t, 64);

        sb_add_int_fmt(&sb, v, sep);
        if (v < 0) {
            out[o++] = '-';
        }
        n = (sprintf)(tmp, "%llu", v < 0 ? -(unsigned long long)v
                      : (unsigned long long)v);
        o += group(tmp, n, sep, out + o);
        break;
      }
      case 2: {
        double d = pt_bool(t) ? (double)pt_sbits(t, 60)
                                / (double)(1 << U(20)) : pt_double(t, true);
        int dec = 1 + U(12);
        int dsep = ".,:"[U(3)];
        const char *p;

        if (!isfinite(d)) {
            return;
        }
        sb_add_double_fmt(&sb, d, dec, dsep, sep);
        (snprintf)(tmp, sizeof(tmp), "%.*f", dec, d);
        p = tmp;
        if (*p == '-') {
            out[o++] = '-';
            p++;
        }
        o += group(p, strchr(p, '.') - p, sep, out + o);
        p = strchr(p, '.') + 1;
        if (strspn(p, "0") != strlen(p)) {
            out[o++] = dsep;
            o += (sprintf)(out + o, "%s", p);
        }
        break;
      }
      default: {
        /* durations: two units, within half of the smaller one */
        static const struct { const char *n; uint64_t ms; } un[] = {
            { "d", 86400000 }, { "h", 3600000 }, { "m", 60000 },
            { "s", 1000 }, { "ms", 1 },
        };
        bool with_ms = pt_bool(t);
        uint64_t ms = pt_bits(t, 1 + U(48)), got = 0, diff, unit;
        pstream_t ps;
        int first = -1, cnt = 0, last = -1;
        bool sub_second = false;

        if (P(40)) {
            ms = un[U(5)].ms * (1 + U(70)) + U(7);
            ms -= ms > 3 ? 3 : 0;
        }
        if (!with_ms) {
            ms = ms / 1000 * 1000;
            sb_add_duration_s(&sb, ms / 1000);
        } else {
            sb_add_duration_ms(&sb, ms);
        }
        if (pt_verbose(t)) {
            pt_note(t, "%llu ms -> %s", (unsigned long long)ms, sb.data);
        }
        if (!ms) {
            PT_CHECK(t, !strcmp(sb.data, "0s"), "zero as `%s'", sb.data);
            return;
        }
        ps = ps_initsb(&sb);
        while (!ps_done(&ps)) {
            uint64_t v = 0;
            int nd = 0, j;

            if (cnt) {
                PT_CHECK(t, ps_skipc(&ps, ' ') == 0, "bad text `%s'",
                         sb.data);
            }
            while (!ps_done(&ps) && *ps.s >= '0' && *ps.s <= '9') {
                v = v * 10 + (*ps.s++ - '0');
                nd++;
            }
            PT_CHECK(t, nd, "no digits in `%s'", sb.data);
            for (j = 0; j < 5; j++) {
                int l = strlen(un[j].n);

                if (ps_len(&ps) >= (size_t)l && !memcmp(ps.s, un[j].n, l)
                &&  (ps_len(&ps) == (size_t)l || ps.s[l] == ' '))
                {
                    ps.s += l;
                    break;
                }
            }
            PT_CHECK(t, j < 5, "unknown unit in `%s'", sb.data);
            if (cnt == 0) {
                first = j;
                PT_CHECK(t, v > 0, "useless zero in `%s'", sb.data);
            } else {
                PT_CHECK(t, j == first + 1, "units do not follow in `%s'",
                         sb.data);
                PT_CHECK(t, v < un[j - 1].ms / un[j].ms,
                         "second unit too large in `%s'", sb.data);
            }
            got += v * un[j].ms;
            last = j;
            cnt++;
        }
        (void)sub_second;
        PT_CHECK(t, cnt == 2 || (cnt == 1 && last == (with_ms ? 4 : 3)),
                 "%d units in `%s' for %llu ms", cnt, sb.data,
                 (unsigned long long)ms);
        unit = un[last].ms;
        /* the value may have been rounded up to the next unit */
        for (int j = 0; j < 4; j++) {
            if (ms >= un[j].ms) {
                unit = un[j + 1].ms;
                break;
            }
        }
        diff = got > ms ? got - ms : ms - got;
        PT_CHECK(t, diff * 2 <= unit, "%llu ms as `%s'",
                 (unsigned long long)ms, sb.data);
        return;
      }
    }
    PT_CHECK(t, sb.len == o && !memcmp(sb.data, out, o),
             "got `%s' instead of `%.*s'", sb.data, o, out);
}

/* }}} */
/* {{{ lstr */

static unsigned char *dupx(const void *p, int n)
{
    unsigned char *r = (malloc)(n ? n : 1);

    memcpy(r, p, n);
    return r;
}

static int sgn(int x)
{
    return x < 0 ? -1 : x > 0;
}

/* optimal string alignment distance */
static int m_osa(const unsigned char *a, int n, const unsigned char *b, int m)
{
    static int d[40][40];

    for (int i = 0; i <= n; i++) {
        for (int j = 0; j <= m; j++) {
            int v;

            if (!i || !j) {
                d[i][j] = i + j;
                continue;
            }
            v = d[i - 1][j] + 1;
            if (d[i][j - 1] + 1 < v) {
                v = d[i][j - 1] + 1;
            }
            if (d[i - 1][j - 1] + (a[i - 1] != b[j - 1]) < v) {
                v = d[i - 1][j - 1] + (a[i - 1] != b[j - 1]);
            }
            if (i > 1 && j > 1 && a[i - 1] == b[j - 2] && a[i - 2] == b[j - 1]
            &&  d[i - 2][j - 2] + 1 < v)
            {
                v = d[i - 2][j - 2] + 1;
            }
            d[i][j] = v;
        }
    }
    return d[n][m];
}

static void run_lstr(pt_t *t)
{
    t_scope;
    unsigned char *a, *b;
    int al, bl;
    lstr_t la, lb;
    int mode = U(3);

    gen_text(t, 36, mode);
    al = txlen;
    a = dupx(tx, al);
    if (P(50)) {
        /* b derived from a */
        int o = U(al + 1);

        switch (U(4)) {
          case 0:
            bl = o;
            b = dupx(a, bl);
            break;
          case 1:
            bl = al - o;
            b = dupx(a + o, bl);
            break;
          case 2:
            bl = U(al - o + 1);
            b = dupx(a + o, bl);
            break;
          default:
            bl = al;
            b = dupx(a, bl);
            for (int i = 0; i < 3 && bl > 1; i++) {
                int p = U(bl - 1);
                unsigned char c = b[p];

                if (pt_bool(t)) {
                    b[p] = b[p + 1];
                    b[p + 1] = c;
                } else {
                    b[p] = pt_bool(t) ? c ^ 32 : 'a' + U(3);
                }
            }
            break;
        }
        if (bl && P(30)) {
            int p = U(bl);

            b[p] = m_lower(b[p]) == b[p] ? m_upper(b[p]) : m_lower(b[p]);
        }
    } else {
        gen_text(t, 36, mode);
        bl = txlen;
        b = dupx(tx, bl);
    }
    if (al) {
        pt_nontrivial(t);
    }
    la = LSTR_INIT_V((char *)a, al);
    lb = LSTR_INIT_V((char *)b, bl);
    if (pt_verbose(t)) {
        pt_note_hex(t, "a", a, al);
        pt_note_hex(t, "b", b, bl);
    }

    /* comparisons */
    {
        int n = al < bl ? al : bl;
        int c = sgn(memcmp(a, b, n)) ?: sgn(al - bl);
        int ic = 0;
        bool ieq = al == bl;

        PT_CHECK(t, sgn(lstr_cmp(la, lb)) == c, "lstr_cmp");
        PT_CHECK(t, sgn(lstr_cmp_p(&la, &lb)) == c, "lstr_cmp_p");
        PT_CHECK(t, lstr_equal(la, lb) == !c, "lstr_equal");
        for (int i = 0; i < n && !ic; i++) {
            ic = sgn(m_lower(a[i]) - m_lower(b[i]));
        }
        ieq = ieq && !ic;
        ic = ic ?: sgn(al - bl);
        PT_CHECK(t, sgn(lstr_ascii_icmp(la, lb)) == ic, "lstr_ascii_icmp");
        PT_CHECK(t, lstr_ascii_iequal(la, lb) == ieq, "lstr_ascii_iequal");
        PT_CHECK(t, lstr_contains(la, lb) == (m_find(a, al, b, bl) >= 0),
                 "lstr_contains");
    }
    /* prefixes and suffixes */
    {
        bool pre = bl <= al, suf = pre, ipre = pre, isuf = pre;
        int c = U(256);

        for (int i = 0; i < bl && bl <= al; i++) {
            pre = pre && a[i] == b[i];
            suf = suf && a[al - bl + i] == b[i];
            ipre = ipre && m_lower(a[i]) == m_lower(b[i]);
            isuf = isuf && m_lower(a[al - bl + i]) == m_lower(b[i]);
        }
        PT_CHECK(t, lstr_startswith(la, lb) == pre, "lstr_startswith");
        PT_CHECK(t, lstr_endswith(la, lb) == suf, "lstr_endswith");
        PT_CHECK(t, lstr_ascii_istartswith(la, lb) == ipre,
                 "lstr_ascii_istartswith");
        PT_CHECK(t, lstr_ascii_iendswith(la, lb) == isuf,
                 "lstr_ascii_iendswith");
        if (al && P(50)) {
            c = pt_bool(t) ? a[0] : a[al - 1];
        }
        PT_CHECK(t, lstr_startswithc(la, c) == (al && a[0] == c),
                 "lstr_startswithc");
        PT_CHECK(t, lstr_endswithc(la, c) == (al && a[al - 1] == c),
                 "lstr_endswithc");
    }
    /* trimming */
    {
        int s = 0, e = al;
        lstr_t l;

        while (s < al && m_space(a[s])) {
            s++;
        }
        while (e > 0 && m_space(a[e - 1])) {
            e--;
        }
        l = lstr_ltrim(la);
        PT_CHECK(t, l.len == al - s && l.s == (char *)a + s, "lstr_ltrim");
        l = lstr_rtrim(la);
        PT_CHECK(t, l.len == e && l.s == (char *)a, "lstr_rtrim");
        l = lstr_trim(la);
        PT_CHECK(t, l.len == (e > s ? e - s : 0), "lstr_trim");
        PT_CHECK(t, !l.len || l.s == (char *)a + s, "lstr_trim");
    }
    /* distance */
    if (al < 38 && bl < 38) {
        int d = m_osa(a, al, b, bl);
        int max = P(30) ? -1 : (int)U(d + 3);
        int e = max >= 0 && d > max ? -1 : d;
        int r = lstr_dlevenshtein(la, lb, max);

        PT_CHECK(t, r == e, "lstr_dlevenshtein(max %d): %d instead of %d",
                 max, r, e);
        r = lstr_dlevenshtein(lb, la, max);
        PT_CHECK(t, r == e, "lstr_dlevenshtein swapped");
    }
    /* copies */
    {
        lstr_t l, l2 = LSTR_NULL, l3;
        bool heap = pt_bool(t);

#define SAME(l_, p_, n_, what)  \
        PT_CHECK(t, (l_).len == (n_) && !memcmp((l_).s, (p_), (n_))          \
                 && !(l_).s[n_], what)

        l = heap ? lstr_dup(la) : t_lstr_dup(la);
        SAME(l, a, al, "lstr_dup");
        lstr_wipe(&l);
        l = heap ? lstr_dups((char *)a, al) : t_lstr_dups((char *)a, al);
        SAME(l, a, al, "lstr_dups");
        lstr_transfer(&l2, &l);
        SAME(l2, a, al, "lstr_transfer");
        lstr_copy(&l2, lb);
        SAME(l2, b, bl, "lstr_copy");
        t_lstr_copy(&l2, la);
        SAME(l2, a, al, "t_lstr_copy");
        lstr_copys(&l2, (char *)b, bl);
        SAME(l2, b, bl, "lstr_copys");
        lstr_copyc(&l2, la);
        PT_CHECK(t, l2.s == (char *)a && l2.len == al, "lstr_copyc");
        l3 = l2;
        lstr_persists(&l3);
        SAME(l3, a, al, "lstr_persists");
        PT_CHECK(t, l3.s != l2.s, "lstr_persists did not copy");
        lstr_wipe(&l3);
        PT_CHECK(t, l3.s == NULL && l3.len == 0, "lstr_wipe");
        {
            char *z = lstr_dupz(la);

            PT_CHECK(t, !memcmp(z, a, al) && !z[al], "lstr_dupz");
            p_delete(&z);
        }

        l = heap ? lstr_cat(la, lb) : t_lstr_cat(la, lb);
        PT_CHECK(t, l.len == al + bl && !memcmp(l.s, a, al)
                 && !memcmp(l.s + al, b, bl) && !l.s[l.len], "lstr_cat");
        lstr_wipe(&l);
        l = heap ? lstr_cat3(la, lb, la) : t_lstr_cat3(la, lb, la);
        PT_CHECK(t, l.len == al + bl + al && !memcmp(l.s, a, al)
                 && !memcmp(l.s + al, b, bl)
                 && !memcmp(l.s + al + bl, a, al) && !l.s[l.len],
                 "lstr_cat3");
        lstr_wipe(&l);

        l = heap ? lstr_dup_ascii_reversed(la)
                 : t_lstr_dup_ascii_reversed(la);
        PT_CHECK(t, l.len == al && !l.s[al], "lstr_dup_ascii_reversed");
        for (int i = 0; i < al; i++) {
            PT_CHECK(t, (unsigned char)l.s[i] == a[al - 1 - i],
                     "lstr_dup_ascii_reversed");
        }
        lstr_ascii_reverse(&l);
        SAME(l, a, al, "lstr_ascii_reverse");
        lstr_wipe(&l);
        l = t_lstr_ascii_reverse(la);
        for (int i = 0; i < al; i++) {
            PT_CHECK(t, (unsigned char)l.s[i] == a[al - 1 - i],
                     "t_lstr_ascii_reverse");
        }
        l = t_lstr_ascii_tolower(la);
        l2 = t_lstr_ascii_toupper(la);
        for (int i = 0; i < al; i++) {
            PT_CHECK(t, (unsigned char)l.s[i] == m_lower(a[i]),
                     "t_lstr_ascii_tolower");
            PT_CHECK(t, (unsigned char)l2.s[i] == m_upper(a[i]),
                     "t_lstr_ascii_toupper");
        }
        /* ctype */
        {
            unsigned char set[6];
            int sn = 1 + U(6);
            ctype_desc_t d;
            bool all = true;

            for (int i = 0; i < sn; i++) {
                set[i] = al && P(80) ? a[U(al)] : U(256);
            }
            ctype_desc_build2(&d, (char *)set, sn);
            for (int i = 0; i < al; i++) {
                all = all && in_set(set, sn, a[i]);
            }
            PT_CHECK(t, lstr_match_ctype(la, &d) == all, "lstr_match_ctype");
        }
        /* xor and obfuscation */
        {
            unsigned char *o = dupx(a, al);
            uint64_t key = pt_bits(t, 64);

            if (bl) {
                lstr_xor(la, lb, LSTR_INIT_V((char *)o, al));
                for (int i = 0; i < al; i++) {
                    PT_CHECK(t, o[i] == (a[i] ^ b[i % bl]), "lstr_xor");
                }
            }
            lstr_obfuscate(la, key, LSTR_INIT_V((char *)o, al));
            lstr_unobfuscate(LSTR_INIT_V((char *)o, al), key,
                             LSTR_INIT_V((char *)o, al));
            PT_CHECK(t, !memcmp(o, a, al), "lstr_obfuscate is not undone");
            (free)(o);
        }
        /* hexadecimal */
        l = t_lstr_hexencode(la);
        PT_CHECK(t, l.len == 2 * al, "t_lstr_hexencode");
        for (int i = 0; i < al; i++) {
            PT_CHECK(t, (l.s[2 * i] | 32) == ("0123456789abcdef"[a[i] >> 4] | 32)
                     && (l.s[2 * i + 1] | 32)
                        == ("0123456789abcdef"[a[i] & 15] | 32),
                     "t_lstr_hexencode: `%.*s'", LSTR_FMT_ARG(l));
        }
        l2 = t_lstr_hexdecode(l);
        SAME(l2, a, al, "t_lstr_hexdecode");
        {
            SB_1k(sb);

            for (int i = 0; i < l.len; i++) {
                while (P(20)) {
                    sb_addc(&sb, " :-\n"[U(4)]);
                }
                sb_addc(&sb, l.s[i]);
            }
            l2 = t_lstr_human_hexdecode(LSTR_SB_V(&sb));
            SAME(l2, a, al, "t_lstr_human_hexdecode");
        }
    }
    (free)(a);
    (free)(b);
}

/* }}} */
/* {{{ ps */

static void run_ps(pt_t *t)
{
    pstream_t ps, out;
    int s = 0, e;             /* model: [s, e) of tx */
    unsigned char *a;
    int n_ops = 0;

    gen_text(t, 60, P(80) ? 1 : 0);
    a = dupx(tx, txlen);
    e = txlen;
    ps = ps_init(a, e);
    if (e) {
        pt_nontrivial(t);
    }
    if (pt_verbose(t)) {
        pt_note_hex(t, "text", a, e);
    }
    do {
        int len = e - s;
        int n = P(70) ? (int)U(len + 1) : (int)U(80);
        int c = len && P(70) ? a[s + U(len)] : U(256);
        int r, k;
        const char *op = "?";
        int f = -1, l = -1;         /* first and last c */
        unsigned char needle[4];
        int nl = 1 + U(3), at;
        unsigned char set[4];
        int sn = 1 + U(4);
        ctype_desc_t d;
        int os = s, oe = e;

        for (int i = s; i < e; i++) {
            if (a[i] == c) {
                if (f < 0) {
                    f = i;
                }
                l = i;
            }
        }
        for (int i = 0; i < nl; i++) {
            needle[i] = "abAB \t\n"[U(7)];
        }
        if (len >= nl && P(70)) {
            memcpy(needle, a + s + U(len - nl + 1), nl);
        }
        at = m_find(a + s, len, needle, nl);
        for (int i = 0; i < sn; i++) {
            set[i] = len && P(80) ? a[s + U(len)] : U(256);
        }
        ctype_desc_build2(&d, (char *)set, sn);

#define RES(cond, what)  \
        PT_CHECK(t, cond, "%s on %d bytes (n %d, char %d)", what, len, n, c)
#define OUT(from, to)  \
        PT_CHECK(t, out.b == a + (from) && out.b_end == a + (to),            \
                 "%s: wrong part", op)

        k = U(40);
        switch (k) {
          case 0:
            op = "ps_skip"; r = ps_skip(&ps, n);
            RES(r == (n <= len ? 0 : -1), op);
            if (!r) s += n;
            break;
          case 1:
            op = "ps_shrink"; r = ps_shrink(&ps, n);
            RES(r == (n <= len ? 0 : -1), op);
            if (!r) e -= n;
            break;
          case 2:
            op = "ps_clip"; r = ps_clip(&ps, n);
            RES(r == (n <= len ? 0 : -1), op);
            if (!r) e = s + n;
            break;
          case 3:
            op = "ps_clip_atchr"; r = ps_clip_atchr(&ps, c);
            RES(r == (f >= 0 ? 0 : -1), op);
            if (!r) e = f;
            break;
          case 4:
            op = "ps_clip_afterchr"; r = ps_clip_afterchr(&ps, c);
            RES(r == (f >= 0 ? 0 : -1), op);
            if (!r) e = f + 1;
            break;
          case 5:
            op = "ps_clip_atlastchr"; r = ps_clip_atlastchr(&ps, c);
            RES(r == (f >= 0 ? 0 : -1), op);
            if (!r) e = l;
            break;
          case 6:
            op = "ps_clip_afterlastchr"; r = ps_clip_afterlastchr(&ps, c);
            RES(r == (f >= 0 ? 0 : -1), op);
            if (!r) e = l + 1;
            break;
          case 7:
            op = "ps_skip_uptochr"; r = ps_skip_uptochr(&ps, c);
            RES(r == (f >= 0 ? 0 : -1), op);
            if (!r) s = f;
            break;
          case 8:
            op = "ps_skip_afterchr"; r = ps_skip_afterchr(&ps, c);
            RES(r == (f >= 0 ? 0 : -1), op);
            if (!r) s = f + 1;
            break;
          case 9:
            op = "ps_skip_afterlastchr"; r = ps_skip_afterlastchr(&ps, c);
            RES(r == (f >= 0 ? 0 : -1), op);
            if (!r) s = l + 1;
            break;
          case 10: case 11: {
            bool st;

            if (len && P(60)) {
                nl = nl <= len ? nl : len;
                memcpy(needle, a + s, nl);
            }
            if (k == 11) {
                int p = U(nl);
                needle[p] = P(50) ? m_upper(needle[p]) : m_lower(needle[p]);
            }
            st = len >= nl;
            for (int i = 0; i < nl && st; i++) {
                st = k == 10 ? needle[i] == a[s + i]
                             : m_lower(needle[i]) == m_lower(a[s + i]);
            }
            if (k == 10) {
                op = "ps_skipdata"; r = ps_skipdata(&ps, needle, nl);
            } else {
                op = "ps_skipcasedata";
                r = ps_skipcasedata(&ps, (char *)needle, nl);
            }
            RES(r == (st ? 0 : -1), op);
            if (!r) s += nl;
            break;
          }
          case 12:
            op = "ps_skip_upto_data"; r = ps_skip_upto_data(&ps, needle, nl);
            RES(r == (at >= 0 ? 0 : -1), op);
            if (!r) s += at;
            break;
          case 13:
            op = "ps_skip_after_data";
            r = ps_skip_after_data(&ps, needle, nl);
            RES(r == (at >= 0 ? 0 : -1), op);
            if (!r) s += at + nl;
            break;
          case 14:
            op = "ps_get_ps"; r = ps_get_ps(&ps, n, &out);
            RES(r == (n <= len ? 0 : -1), op);
            if (!r) { OUT(s, s + n); s += n; }
            break;
          case 15: {
            const void *p = ps_get_data(&ps, n);

            op = "ps_get_data";
            RES(p == (n <= len ? a + s : NULL), op);
            if (p) s += n;
            break;
          }
          case 16:
            op = "ps_get_ps_chr"; r = ps_get_ps_chr(&ps, c, &out);
            RES(r == (f >= 0 ? 0 : -1), op);
            if (!r) { OUT(s, f); s = f; }
            break;
          case 17:
            op = "ps_get_ps_chr_and_skip";
            r = ps_get_ps_chr_and_skip(&ps, c, &out);
            RES(r == (f >= 0 ? 0 : -1), op);
            if (!r) { OUT(s, f); s = f + 1; }
            break;
          case 18:
            op = "ps_get_ps_lastchr"; r = ps_get_ps_lastchr(&ps, c, &out);
            RES(r == (f >= 0 ? 0 : -1), op);
            if (!r) { OUT(s, l); s = l; }
            break;
          case 19:
            op = "ps_get_ps_lastchr_and_skip";
            r = ps_get_ps_lastchr_and_skip(&ps, c, &out);
            RES(r == (f >= 0 ? 0 : -1), op);
            if (!r) { OUT(s, l); s = l + 1; }
            break;
          case 20:
            op = "ps_get_ps_upto_data";
            r = ps_get_ps_upto_data(&ps, needle, nl, &out);
            RES(r == (at >= 0 ? 0 : -1), op);
            if (!r) { OUT(s, s + at); s += at; }
            break;
          case 21:
            op = "ps_get_ps_upto_data_and_skip";
            r = ps_get_ps_upto_data_and_skip(&ps, needle, nl, &out);
            RES(r == (at >= 0 ? 0 : -1), op);
            if (!r) { OUT(s, s + at); s += at + nl; }
            break;
          case 22:
            op = "ps_skipc"; r = ps_skipc(&ps, c);
            RES(r == (len && a[s] == c ? 0 : -1), op);
            if (!r) s++;
            break;
          case 23:
            op = "ps_shrinkc"; r = ps_shrinkc(&ps, c);
            RES(r == (len && a[e - 1] == c ? 0 : -1), op);
            if (!r) e--;
            break;
          case 24:
            op = "ps_getc"; r = ps_getc(&ps);
            RES(r == (len ? a[s] : EOF), op);
            if (len) s++;
            break;
          case 25:
            op = "ps_peekc"; r = ps_peekc(ps);
            RES(r == (len ? a[s] : EOF), op);
            break;
          case 26: case 27: case 28: case 29: {
            int w = 0;
            bool want = k == 26 || k == 28;

            while (s + w < e && in_set(set, sn, a[s + w]) == want) {
                w++;
            }
            if (k == 26) {
                op = "ps_skip_span"; r = ps_skip_span(&ps, &d);
                RES(r == w, op);
            } else
            if (k == 27) {
                op = "ps_skip_cspan"; r = ps_skip_cspan(&ps, &d);
                RES(r == w, op);
            } else {
                op = k == 28 ? "ps_get_span" : "ps_get_cspan";
                out = k == 28 ? ps_get_span(&ps, &d) : ps_get_cspan(&ps, &d);
                OUT(s, s + w);
            }
            s += w;
            break;
          }
          case 30: {
            int w = 0, v;

            op = "ps_get_tok";
            while (s + w < e && !in_set(set, sn, a[s + w])) {
                w++;
            }
            v = w;
            while (s + v < e && in_set(set, sn, a[s + v])) {
                v++;
            }
            out = ps_get_tok(&ps, &d);
            OUT(s, s + w);
            s += v;
            break;
          }
          case 31: case 32: case 33: {
            int b = 0, q = 0, w;

            if (k != 32) {
                while (s + b < e && m_space(a[s + b])) {
                    b++;
                }
            }
            if (k != 31) {
                while (s + b < e - q && m_space(a[e - q - 1])) {
                    q++;
                }
            }
            op = k == 31 ? "ps_ltrim" : k == 32 ? "ps_rtrim" : "ps_trim";
            w = k == 31 ? ps_ltrim(&ps) : k == 32 ? ps_rtrim(&ps)
              : ps_trim(&ps);
            RES(w == b + q, op);
            s += b;
            e -= q;
            break;
          }
          case 34: {
            const char *p;
            int z = -1, gl = -5;

            op = "ps_gets";
            for (int i = s; i < e; i++) {
                if (!a[i]) {
                    z = i;
                    break;
                }
            }
            p = ps_gets(&ps, &gl);
            if (z < 0) {
                RES(!p, op);
            } else {
                RES(p == (char *)a + s && gl == z - s, op);
                s = z + 1;
            }
            break;
          }
          case 35: {
            bool any = false;

            op = "ps_has_char_in_ctype";
            for (int i = s; i < e; i++) {
                any = any || in_set(set, sn, a[i]);
            }
            RES(ps_has_char_in_ctype(&ps, &d) == any, op);
            break;
          }
          case 36: {
            /* comparisons */
            bool st = len >= nl && !memcmp(a + s, needle, nl);
            bool en = len >= nl && !memcmp(a + e - nl, needle, nl);
            pstream_t p2 = ps_init(needle, nl);
            int cm = sgn(memcmp(a + s, needle, len < nl ? len : nl))
                  ?: sgn(len - nl);
            bool ci = len == nl;

            for (int i = 0; i < nl && ci; i++) {
                ci = m_lower(a[s + i]) == m_lower(needle[i]);
            }
            op = "comparisons";
            RES(ps_startswith(&ps, needle, nl) == st, "ps_startswith");
            RES(ps_endswith(&ps, needle, nl) == en, "ps_endswith");
            RES(ps_is_equal(ps, p2) == !cm, "ps_is_equal");
            RES(ps_memequal(&ps, needle, nl) == !cm, "ps_memequal");
            RES(ps_memcaseequal(&ps, (char *)needle, nl) == ci,
                "ps_memcaseequal");
            RES(sgn(ps_cmp(ps, p2)) == cm, "ps_cmp");
            break;
          }
          case 37: {
            size_t al = 1 << U(4);
            int bl = U(12);
            int rl = (bl + al - 1) & ~(al - 1);
            const void *p;

            op = "ps_get_block";
            p = ps_get_block(&ps, bl, al);
            RES(p == (rl <= len ? a + s : NULL), op);
            if (p) s += rl;
            break;
          }
          case 38: {
            size_t al = 1 << U(4);
            uintptr_t q = ((uintptr_t)(a + s) + al - 1) & ~(al - 1);
            bool ok = q <= (uintptr_t)(a + e);

            op = "ps_align";
            r = ps_align(&ps, al);
            RES(r == (ok ? 0 : -1), op);
            if (ok) s = q - (uintptr_t)a;
            RES(!ok || ps_aligned(&ps, al), "ps_aligned");
            break;
          }
          default: {
            uint16_t h = 0x1234, eh = 0;
            int hl = U(6);
            bool ok = hl <= 4 && hl <= len;

            op = "ps_hex16";
            for (int i = 0; i < hl && ok; i++) {
                int x = a[s + i];

                ok = (x >= '0' && x <= '9') || (x >= 'a' && x <= 'f')
                  || (x >= 'A' && x <= 'F');
                eh = eh * 16 + (x <= '9' ? x - '0' : (x | 32) - 'a' + 10);
            }
            r = ps_hex16(&ps, hl, &h);
            RES(r == (ok ? 0 : -1), op);
            if (ok) {
                RES(h == eh, op);
                s += hl;
            }
            break;
          }
        }
        if (pt_verbose(t)) {
            pt_note(t, "%s: [%d, %d) -> [%d, %d)", op, os, oe, s, e);
        }
        PT_CHECK(t, ps.b == a + s && ps.b_end == a + e,
                 "%s: the stream is at [%d, %d) instead of [%d, %d)", op,
                 (int)(ps.b - a), (int)(ps.b_end - a), s, e);
        PT_CHECK(t, ps_len(&ps) == (size_t)(e - s)
                 && ps_done(&ps) == (e == s) && ps_has(&ps, e - s)
                 && !ps_has(&ps, e - s + 1), "%s: ps_len, ps_has", op);
        n_ops++;
    } while (n_ops < 40 && pt_more(t, 8));
    (free)(a);
}

static void run_copyv(pt_t *t)
{
    struct iovec iov[5];
    unsigned char *mem[5];
    int sz[5];
    size_t n = U(6), n0 = n;
    pstream_t ps;
    int done = 0, flags = pt_bool(t) ? MSG_TRUNC : 0, f0 = flags;
    bool with = pt_bool(t);
    int r, room = 0, used = 0;

    gen_text(t, 60, 0);
    if (txlen) {
        pt_nontrivial(t);
    }
    ps = ps_init(tx, txlen);
    for (size_t i = 0; i < n; i++) {
        sz[i] = pt_size(t, 30);
        mem[i] = (malloc)(sz[i] ? sz[i] : 1);
        iov[i] = MAKE_IOVEC(mem[i], sz[i]);
        room += sz[i];
    }
    r = ps_copyv(&ps, iov, &n, with ? &flags : NULL);
    done = room < txlen ? room : txlen;
    PT_CHECK(t, ps.b == tx + done && n <= n0, "ps_copyv: %d bytes instead of "
             "%d", (int)(ps.b - tx), done);
    for (size_t i = 0; i < n; i++) {
        PT_CHECK(t, (int)iov[i].iov_len <= sz[i]
                 && !memcmp(mem[i], tx + used, iov[i].iov_len),
                 "ps_copyv: wrong block %zu", i);
        used += iov[i].iov_len;
    }
    PT_CHECK(t, used == done, "ps_copyv: blocks hold %d bytes instead of %d",
             used, done);
    if (with) {
        PT_CHECK(t, !(flags & MSG_TRUNC) == (done == txlen),
                 "ps_copyv: MSG_TRUNC");
        PT_CHECK(t, r == (f0 & MSG_TRUNC ? txlen : done)
                 || (done == txlen && r == txlen), "ps_copyv: result");
    } else {
        PT_CHECK(t, r == done, "ps_copyv: result");
    }
    for (size_t i = 0; i < n0; i++) {
        (free)(mem[i]);
    }
}

/* }}} */
/* {{{ C strings */

static char *zdup(const unsigned char *p, int n)
{
    char *r = (malloc)(n + 1);

    for (int i = 0; i < n; i++) {
        r[i] = p[i] ?: 1;
    }
    r[n] = 0;
    return r;
}

static void run_cstr(pt_t *t)
{
    char *a, *b;
    int al, bl, i, e;
    const char *pp = NULL;

    gen_text(t, 30, U(3));
    al = txlen;
    a = zdup(tx, al);
    if (P(60)) {
        int o = U(al + 1);

        bl = U(al - o + 1);
        if (P(40)) {
            o = 0;
        }
        b = zdup((unsigned char *)a + o, bl);
        if (bl && P(30)) {
            int p = U(bl);

            b[p] = m_lower(b[p]) == b[p] ? m_upper(b[p]) : m_lower(b[p]);
        }
    } else {
        gen_text(t, 5, U(3));
        bl = txlen;
        b = zdup(tx, bl);
    }
    if (al) {
        pt_nontrivial(t);
    }
    if (pt_verbose(t)) {
        pt_note_hex(t, "a", a, al);
        pt_note_hex(t, "b", b, bl);
    }

    for (i = 0; m_space(a[i]); i++) {
    }
    PT_CHECK(t, skipspaces(a) == a + i, "skipspaces");
    for (i = 0; a[i] == ' ' || a[i] == '\t'; i++) {
    }
    PT_CHECK(t, skipblanks(a) == a + i, "skipblanks");
    for (i = 0; a[i] && !m_space(a[i]); i++) {
    }
    PT_CHECK(t, strnextspace(a) == a + i, "strnextspace");

    e = bl <= al && !memcmp(a, b, bl);
    PT_CHECK(t, strstart(a, b, &pp) == e && (!e || pp == a + bl), "strstart");
    e = bl <= al;
    for (i = 0; i < bl && e; i++) {
        e = m_lower((unsigned char)a[i]) == m_lower((unsigned char)b[i]);
    }
    pp = NULL;
    PT_CHECK(t, stristart(a, b, &pp) == e && (!e || pp == a + bl),
             "stristart");
    e = -1;
    for (i = 0; i + bl <= al && e < 0; i++) {
        int j;

        for (j = 0; j < bl; j++) {
            if (m_lower((unsigned char)a[i + j])
            !=  m_lower((unsigned char)b[j]))
            {
                break;
            }
        }
        if (j == bl) {
            e = i;
        }
    }
    PT_CHECK(t, stristr(a, b) == (e < 0 ? NULL : a + e), "stristr");

    /* words */
    {
        int sep = ", ;"[U(3)];
        char tab[200], w[8], *ex;
        int tl = 0, wl, n = U(6);
        bool found = false;

        wl = 1 + U(4);
        for (i = 0; i < wl; i++) {
            w[i] = 'a' + U(2);
        }
        w[wl] = 0;
        for (i = 0; i < n; i++) {
            int l = 1 + U(4);
            int st = tl;

            for (int j = 0; j < l; j++) {
                tab[tl++] = 'a' + U(2);
            }
            if (l == wl && !memcmp(tab + st, w, l)) {
                found = true;
            }
            if (i < n - 1 || P(30)) {
                tab[tl++] = sep;
            }
        }
        tab[tl] = 0;
        ex = (malloc)(tl + 1);
        memcpy(ex, tab, tl + 1);
        if (pt_verbose(t)) {
            pt_note(t, "word `%s' in `%s'", w, tab);
        }
        PT_CHECK(t, strfind(ex, w, sep) == found, "strfind of `%s' in `%s'",
                 w, tab);
        (free)(ex);
    }
    /* counters */
    {
        char *c, *m;
        bool hex = pt_bool(t);
        int pre = U(4), dg = 1 + U(6), l = pre + dg, r, er = 1;

        c = (malloc)(l + 1);
        m = (malloc)(l + 1);
        for (i = 0; i < pre; i++) {
            c[i] = "x-Z:"[U(4)];
        }
        for (; i < l; i++) {
            c[i] = P(50) ? (hex ? 'F' : '9')
                         : hex ? "0123456789ABCDEF"[U(16)] : '0' + U(10);
        }
        c[l] = 0;
        memcpy(m, c, l + 1);
        for (i = l - 1; i >= pre; i--) {
            const char *ds = "0123456789ABCDEF";
            int v = strchr(ds, m[i]) - ds;

            if (v + 1 < (hex ? 16 : 10)) {
                m[i] = ds[v + 1];
                er = 0;
                break;
            }
            m[i] = '0';
        }
        r = hex ? buffer_increment_hex(c, pt_bool(t) ? -1 : l)
                : buffer_increment(c, pt_bool(t) ? -1 : l);
        PT_CHECK(t, r == er && !memcmp(c, m, l + 1),
                 "buffer_increment: `%s' instead of `%s'", c, m);
        (free)(c);
        (free)(m);
    }
    /* in place */
    {
        char *c = zdup((unsigned char *)a, al), *end;
        int x = al ? (unsigned char)a[U(al)] : 'q', y = 1 + U(255), n = 0;

        for (i = 0; i < al; i++) {
            n += (unsigned char)a[i] == x;
        }
        PT_CHECK(t, str_replace(x, y, c) == n, "str_replace: count");
        for (i = 0; i < al; i++) {
            PT_CHECK(t, (unsigned char)c[i]
                     == ((unsigned char)a[i] == x ? y : (unsigned char)a[i]),
                     "str_replace");
        }
        memcpy(c, a, al + 1);
        end = strrtrim(c);
        for (n = al; n && m_space((unsigned char)a[n - 1]); n--) {
        }
        PT_CHECK(t, end == c + n && !*end && !memcmp(c, a, n), "strrtrim");
        (free)(c);
    }
    /* bounded copies */
    {
        int sz = U(40);
        char *d = (malloc)(sz ? sz : 1);
        size_t r;
        int l = U(al + 1);
        int k = l < sz - 1 ? l : sz - 1;

        r = pstrcpymem(d, sz, a, l);
        PT_CHECK(t, r == (size_t)l, "pstrcpymem: result");
        PT_CHECK(t, !sz || (!memcmp(d, a, k) && !d[k]), "pstrcpymem");
        r = pstrcpy(d, sz, a);
        k = al < sz - 1 ? al : sz - 1;
        PT_CHECK(t, r == (size_t)al, "pstrcpy: result");
        PT_CHECK(t, !sz || (!memcmp(d, a, k) && !d[k]), "pstrcpy");
        if (sz) {
            int k2 = k + bl < sz - 1 ? k + bl : sz - 1;

            r = pstrcat(d, sz, b);
            PT_CHECK(t, r == (size_t)(k + bl), "pstrcat: result");
            PT_CHECK(t, !memcmp(d, a, k) && !memcmp(d + k, b, k2 - k)
                     && !d[k2], "pstrcat");
        }
        (free)(d);
    }
    (free)(a);
    (free)(b);
}

/* }}} */
/* {{{ reading */

static void run_io(pt_t *t)
{
    t_scope;
    sb_t sb;
    static buf_t m;
    int what = U(5);
    char stk[64];
    int fd;
    char path[PATH_MAX];
    int n0;

    m.len = 0;
    b_need(&m, 1);
    switch (U(3)) {
      case 0:
        sb_init(&sb);
        break;
      case 1:
        stk[0] = 0;
        sb_init_full(&sb, stk, 0, sizeof(stk), &mem_pool_static);
        break;
      default:
        t_sb_init(&sb, 32);
        break;
    }
    gen_text(t, 50, 1);
    sb_add(&sb, tx, txlen);
    b_add(&m, tx, txlen);
    if (txlen && pt_bool(t)) {
        int k = U(txlen);

        sb_skip(&sb, k);
        b_splice(&m, 0, k, NULL, 0);
    }
    n0 = m.len;

    (snprintf)(path, sizeof(path), "%s/io", pt_tmpdir());
    gen_text(t, P(80) ? 300 : 30000, P(80) ? 1 : 0);
    if (txlen) {
        pt_nontrivial(t);
    }
    if (what == 4) {
        for (int i = 0; i < txlen; i++) {
            if (!tx[i]) {
                tx[i] = '0';
            }
        }
    }
    fd = open(path, O_CREAT | O_TRUNC | O_WRONLY, 0600);
    if (fd < 0 || write(fd, tx, txlen) != txlen) {
        abort();
    }
    close(fd);

    switch (what) {
      case 0: {
        int r = sb_read_file(&sb, path);

        PT_CHECK(t, r == txlen, "sb_read_file: %d instead of %d", r, txlen);
        b_add(&m, tx, txlen);
        break;
      }
      case 1: {
        /* a directory: cannot be read */
        int r;

        fd = open(pt_tmpdir(), O_RDONLY);
        r = pt_bool(t) ? sb_read_fd(&sb, fd) : sb_read(&sb, fd, U(5000));
        PT_CHECK(t, r < 0, "read of a directory succeeded");
        close(fd);
        break;
      }
      case 2: {
        lstr_t l = LSTR_NULL;
        int r = lstr_init_from_file(&l, path, PROT_READ, MAP_SHARED);

        PT_CHECK(t, r == 0 && l.len == txlen && !memcmp(l.s, tx, txlen),
                 "lstr_init_from_file: %d, %d bytes instead of %d", r, l.len,
                 txlen);
        lstr_wipe(&l);
        break;
      }
      case 3: case 4: {
        /* lines; with a seekable file, zeros are kept */
        FILE *f = fopen(path, "r");
        int pos = 0, r;

        if (what == 4) {
            /* through a pipe */
            int p[2];
            int left = txlen < 60000 ? txlen : 60000;

            txlen = left;
            fclose(f);
            if (pipe(p) < 0 || write(p[1], tx, left) != left) {
                abort();
            }
            close(p[1]);
            f = fdopen(p[0], "r");
        }
        while (pos < txlen) {
            int l = 0, want;

            while (pos + l < txlen && tx[pos + l] != '\n') {
                l++;
            }
            want = l + 1;
            r = sb_getline(&sb, f);
            PT_CHECK(t, r == want, "sb_getline: %d instead of %d at %d", r,
                     want, pos);
            b_add(&m, tx + pos, l);
            b_add(&m, "\n", 1);
            sb_ok(t, &sb, &m, "sb_getline");
            pos += want;
        }
        r = sb_getline(&sb, f);
        PT_CHECK(t, r == 0, "sb_getline: %d at the end", r);
        fclose(f);
        break;
      }
    }
    sb_ok(t, &sb, &m, "read");
    if (what == 0 && pt_bool(t)) {
        char p2[PATH_MAX];
        lstr_t l = LSTR_NULL;

        (snprintf)(p2, sizeof(p2), "%s/out", pt_tmpdir());
        PT_CHECK(t, sb_write_file(&sb, p2) == m.len, "sb_write_file");
        PT_CHECK(t, sb_append_to_file(&sb, p2) == m.len, "sb_append_to_file");
        PT_CHECK(t, lstr_init_from_file(&l, p2, PROT_READ, MAP_SHARED) == 0
                 && l.len == 2 * m.len && !memcmp(l.s, m.d, m.len)
                 && !memcmp(l.s + m.len, m.d, m.len), "sb_write_file: "
                 "content");
        lstr_wipe(&l);
        unlink(p2);
    }
    (void)n0;
    unlink(path);
    sb_wipe(&sb);
}

/* }}} */

void pt_setup(void)
{
    e_set_verbosity(-1);
}

const pt_target_t pt_targets[] = {
    { "sb",    run_sb,    250000, 4000000, 20 },
    { "sbnum", run_sbnum, 250000, 4000000, 10 },
    { "lstr",  run_lstr,  250000, 4000000, 20 },
    { "ps",    run_ps,    300000, 5000000, 20 },
    { "copyv", run_copyv, 100000, 1000000, 0 },
    { "cstr",  run_cstr,  250000, 4000000, 20 },
    { "io",    run_io,    60000, 1000000, 0 },
};
const int pt_targets_len = 7;
