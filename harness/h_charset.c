/* UTF-8, collation, and character set conversions, against definitions. */
#include <lib-common/core.h>
#include "pt.h"
#include "charset_tab.h"

const char pt_rule[] =
    "strings of valid and damaged UTF-8 sequences; utf8: decoding, lengths, "
    "case; cmp: comparisons, prefixes and suffixes of related strings, "
    "against collation keys; like: SQL patterns against a table-driven "
    "matcher; conv: Latin-1, Latin-9, UCS-2; gsm: GSM 03.38, packed septets, "
    "CIMD. non-trivial: at least 3 characters, one of them not ASCII";

#define U(n)       pt_u(t, (n) - 1)
#define P(n)       pt_p(t, (n), 100)

void pt_setup(void)
{
    e_set_verbosity(-1);
}

/* {{{ model */

typedef struct str_t {
    unsigned char *d;
    int len;
    int n;              /* characters */
    int c[256];         /* code points, invalid bytes as themselves */
    int w[256];         /* bytes */
    bool bad[256];
    int n_bad;
    bool wide;          /* one is not ASCII */
} str_t;

/* decodes the character at s: returns its length or 0 if invalid */
static int m_dec(const unsigned char *s, int len, int *c)
{
    int n, v;

    if (!len) {
        return 0;
    }
    if (s[0] < 0x80) {
        *c = s[0];
        return 1;
    }
    if (s[0] < 0xc0 || s[0] >= 0xf8) {
        return 0;
    }
    n = s[0] >= 0xf0 ? 4 : s[0] >= 0xe0 ? 3 : 2;
    if (len < n) {
        return 0;
    }
    v = s[0] & (0x7f >> n);
    for (int i = 1; i < n; i++) {
        if ((s[i] & 0xc0) != 0x80) {
            return 0;
        }
        v = v << 6 | (s[i] & 0x3f);
    }
    *c = v;
    return n;
}

static int m_enc(unsigned char *d, int c)
{
    if (c < 0x80) {
        d[0] = c;
        return 1;
    }
    if (c < 0x800) {
        d[0] = 0xc0 | c >> 6;
        d[1] = 0x80 | (c & 63);
        return 2;
    }
    if (c < 0x10000) {
        d[0] = 0xe0 | c >> 12;
        d[1] = 0x80 | (c >> 6 & 63);
        d[2] = 0x80 | (c & 63);
        return 3;
    }
    d[0] = 0xf0 | c >> 18;
    d[1] = 0x80 | (c >> 12 & 63);
    d[2] = 0x80 | (c >> 6 & 63);
    d[3] = 0x80 | (c & 63);
    return 4;
}

static void m_parse(str_t *s)
{
    int pos = 0;

    s->n = s->n_bad = 0;
    s->wide = false;
    while (pos < s->len) {
        int c, w = m_dec(s->d + pos, s->len - pos, &c);

        s->bad[s->n] = !w;
        if (!w) {
            s->n_bad++;
            c = s->d[pos];
            w = 1;
        }
        s->c[s->n] = c;
        s->w[s->n++] = w;
        s->wide |= c >= 0x80;
        pos += w;
    }
}

/* gives the string an exactly sized block, so that ASan sees its ends */
static void m_fix(str_t *s, const unsigned char *buf, int len)
{
    s->d = (malloc)(len ? len : 1);
    memcpy(s->d, buf, len);
    s->len = len;
    m_parse(s);
}

static int gen_uc(pt_t *t)
{
    static const int pool[] = {
        0xe9, 0xc9, 'e', 'E', 0x153, 0x152, 0xe6, 0xc6, 0xdf, 's', 'S', 'o',
        'O', 'a', 'A', 0x132, 0x133, 'i', 'j', 0x1c4, 0x1c5, 0x1c6, 'd', 'z',
        0x1fd, 0x1dd, 0x18e, ' ', ' ', 0x1ff, 0x200, 0x20ac, 0xffff, 0x10000,
        0x1f600, 0x10ffff, 0x7f, 0x80, 0xff, 0x100, 0x7ff, 0x800, '_', '%',
        '\\', 0, 0xb5, 0x391, 0xd7ff, 0xfffd,
    };

    switch (U(5)) {
      case 0:
        return U(128);
      case 1:
        return U(512);
      case 2:
        return pt_uchar(t);
      default:
        return pt_pick(t, pool);
    }
}

static int gen_buf(pt_t *t, unsigned char *buf, int max_chars, bool valid)
{
    int len = 0, n = pt_size(t, max_chars);

    for (int i = 0; i < n; i++) {
        if (!valid && P(12)) {
            switch (U(4)) {
              case 0: /* stray or illegal byte */
                buf[len++] = 0x80 + U(128);
                break;
              case 1: { /* truncated sequence */
                int w = m_enc(buf + len, gen_uc(t));

                len += w > 1 ? 1 + U(w - 1) : 1;
                break;
              }
              case 2: /* overlong or beyond Unicode, as decoded */
                buf[len++] = 0xc0 + U(2);
                buf[len++] = 0x80 + U(64);
                break;
              default:
                buf[len++] = 0xf0 + U(8);
                buf[len++] = 0x80 + U(64);
                buf[len++] = 0x80 + U(64);
                buf[len++] = 0x80 + U(64);
                break;
            }
        } else {
            len += m_enc(buf + len, gen_uc(t));
        }
    }
    return len;
}

static void gen_str(pt_t *t, str_t *s, int max_chars, bool valid)
{
    unsigned char buf[1024];

    m_fix(s, buf, gen_buf(t, buf, max_chars, valid));
}

static void note_str(pt_t *t, const char *name, const str_t *s)
{
    if (pt_verbose(t)) {
        pt_note_hex(t, name, s->d, s->len);
    }
}

/* characters beyond the table are only equal to themselves when comparing,
 * and come after all others */
#define LARGE  0x1000000

/* appends the collation elements of a character */
static int key_large;
static int m_key(int *key, int c, bool ci)
{
    unsigned v;

    if (c >= 512) {
        key[0] = c + key_large;
        return 1;
    }
    v = ci ? T_ci[c] : T_cs[c];
    key[0] = v & 0xffff;
    if (v >> 16) {
        key[1] = v >> 16;
        return 2;
    }
    return 1;
}
static int m_keys(int *key, const str_t *s, int from, int to, bool ci)
{
    int k = 0;

    for (int i = from; i < to; i++) {
        k += m_key(key + k, s->c[i], ci);
    }
    return k;
}

static void m_nontrivial(pt_t *t, const str_t *s)
{
    if (s->n >= 3 && s->wide) {
        pt_nontrivial(t);
    }
}

/* }}} */
/* {{{ utf8 */

static void run_utf8(pt_t *t)
{
    t_scope;
    str_t s;
    lstr_t l, r;
    const char *p, *q;
    int off = 0, first_bad = -1, k;
    pstream_t ps;

    gen_str(t, &s, 40, P(30));
    note_str(t, "string", &s);
    m_nontrivial(t, &s);
    l = LSTR_INIT_V((char *)s.d, s.len);

    /* decoding, character by character */
    ps = ps_initlstr(&l);
    for (int i = 0, pos = 0; i < s.n; pos += s.w[i++]) {
        int exp = s.bad[i] ? -1 : s.c[i];
        int c;

        q = NULL;
        p = (const char *)s.d + pos;
        c = utf8_ngetc(p, s.len - pos, &q);
        PT_CHECK(t, c == exp, "utf8_ngetc: %x instead of %x", c, exp);
        PT_CHECK(t, c < 0 || q == p + s.w[i], "utf8_ngetc: width");
        off = pos;
        c = utf8_ngetc_at((char *)s.d, s.len, &off);
        PT_CHECK(t, c == exp, "utf8_ngetc_at: %x instead of %x", c, exp);
        PT_CHECK(t, off == pos + (c < 0 ? 0 : s.w[i]), "utf8_ngetc_at");
        k = utf8_charlen(p, s.len - pos);
        PT_CHECK(t, k == (s.bad[i] ? 0 : s.w[i]), "utf8_charlen: %d", k);
        c = ps_peekuc(ps);
        PT_CHECK(t, c == exp, "ps_peekuc");
        c = ps_getuc(&ps);
        PT_CHECK(t, c == exp && ps.b == s.d + pos + (c < 0 ? 0 : s.w[i]),
                 "ps_getuc");
        ps.b = s.d + pos + s.w[i];
        if (s.bad[i] && first_bad < 0) {
            first_bad = pos;
        }
        if (!s.bad[i]) {
            char buf[8];
            unsigned char e[4];
            int w = m_enc(e, s.c[i]);
            SB_1k(sb);

            memset(buf, 0x55, 8);
            k = __pstrputuc(buf, s.c[i]);
            PT_CHECK(t, k == w && !memcmp(buf, e, w) && buf[w] == 0x55,
                     "__pstrputuc(%x)", s.c[i]);
            sb_adduc(&sb, s.c[i]);
            PT_CHECK(t, sb.len == w && !memcmp(sb.data, e, w) && !sb.data[w],
                     "sb_adduc(%x)", s.c[i]);
        }
    }
    off = s.len;
    PT_CHECK(t, ps_getuc(&ps) < 0, "ps_getuc at the end");
    PT_CHECK(t, utf8_ngetc_at((char *)s.d, s.len, &off) < 0 && off == s.len,
             "utf8_ngetc_at at the end");

    p = utf8_skip_valid((char *)s.d, (char *)s.d + s.len);
    PT_CHECK(t, p == (char *)s.d + (first_bad < 0 ? s.len : first_bad),
             "utf8_skip_valid");
    PT_CHECK(t, utf8_strnlen((char *)s.d, s.len)
             == (s.n_bad ? -1 : s.n), "utf8_strnlen");
    PT_CHECK(t, lstr_utf8_strlen(l) == (s.n_bad ? -1 : s.n),
             "lstr_utf8_strlen");

    /* truncation */
    {
        int n = (int)U(s.n + 4) - 1, pos = 0;
        bool bad = false;

        r = lstr_utf8_truncate(l, n);
        for (int i = 0; i < n && i < s.n; i++) {
            bad |= s.bad[i];
            pos += s.w[i];
        }
        if (bad) {
            PT_CHECK(t, !r.s, "lstr_utf8_truncate of an invalid string");
        } else {
            PT_CHECK(t, r.s == l.s && r.len == pos, "lstr_utf8_truncate");
        }
    }
    /* reverse */
    {
        bool heap = pt_bool(t);

        r = heap ? lstr_dup_utf8_reversed(l) : t_lstr_dup_utf8_reversed(l);
        if (s.n_bad) {
            PT_CHECK(t, !r.s, "reversed an invalid string");
        } else {
            int pos = 0;

            PT_CHECK(t, r.s && r.len == s.len && !r.s[r.len],
                     "lstr_dup_utf8_reversed: length or trailing zero");
            for (int i = 0; i < s.n; i++) {
                PT_CHECK(t, !memcmp(r.s + s.len - pos - s.w[i], s.d + pos,
                                    s.w[i]), "lstr_dup_utf8_reversed");
                pos += s.w[i];
            }
        }
        if (heap) {
            lstr_wipe(&r);
        }
    }
    /* case, normalisation: appended to what was there */
    for (int mode = 0; mode < 4; mode++) {
        unsigned char exp[2048];
        int n = 0, res, room = pt_bool(t) ? 0 : U(60), pre;
        bool large = false;
        SB(sb, 64);

        pre = U(4);
        sb_add(&sb, "pre", pre);
        for (int i = 0; room && i < 60 - room; i++) {
            sb_addc(&sb, '-');
        }
        pre = sb.len;
        for (int i = 0; i < s.n; i++) {
            int key[2], m = 1;
            int c = s.c[i];

            large |= c > 0xffff;
            switch (mode) {
              case 0:
                key[0] = c < 512 ? (int)T_lower[c] : c;
                PT_CHECK(t, unicode_tolower(c) == key[0],
                         "unicode_tolower(%x)", c);
                break;
              case 1:
                key[0] = c < 512 ? (int)T_upper[c] : c;
                PT_CHECK(t, unicode_toupper(c) == key[0],
                         "unicode_toupper(%x)", c);
                break;
              default:
                m = m_key(key, c, mode == 3);
                break;
            }
            for (int j = 0; j < m; j++) {
                n += m_enc(exp + n, key[j]);
            }
        }
        switch (mode) {
          case 0:
            res = sb_add_utf8_tolower(&sb, l.s, l.len);
            break;
          case 1:
            res = sb_add_utf8_toupper(&sb, l.s, l.len);
            break;
          default:
            res = sb_normalize_utf8(&sb, l.s, l.len, mode == 3);
            break;
        }
        if (mode < 2 && large && res < 0) {
            /* characters beyond U+FFFF may be refused */
            PT_CHECK(t, sb.len == pre && !sb.data[pre],
                     "refused and changed (mode %d)", mode);
        } else {
            PT_CHECK(t, res == 0, "mode %d: refused", mode);
            PT_CHECK(t, sb.len == pre + n
                     && !memcmp(sb.data + pre, exp, n) && !sb.data[sb.len],
                     "mode %d: wrong text", mode);
        }
    }
    (free)(s.d);
}

/* }}} */
/* {{{ cmp */

/* derives a related string */
static void gen_related(pt_t *t, str_t *d, const str_t *s)
{
    unsigned char buf[2048];
    int len = 0, from = 0, to = s->n;

    if (P(25)) {
        from = U(s->n + 1);
    }
    if (P(35)) {
        to = from + U(s->n - from + 1);
    }
    for (int i = from; i < to; i++) {
        int c = s->c[i];

        if (s->bad[i]) {
            buf[len++] = c;
            continue;
        }
        switch (pt_p(t, 40, 100) ? 1 + U(5) : 0) {
          case 1:
            if (c < 512) {
                c = T_lower[c];
            }
            break;
          case 2:
            if (c < 512) {
                c = T_upper[c];
            }
            break;
          case 3: case 4: { /* replaced by its collation */
            int key[2], n = m_key(key, c, pt_bool(t));

            for (int j = 0; j < n; j++) {
                len += m_enc(buf + len, key[j]);
            }
            continue;
          }
          case 5:
            if (P(30)) {
                c = gen_uc(t);
            }
            break;
        }
        len += m_enc(buf + len, c);
    }
    while (P(20) && len < 1900) {
        len += m_enc(buf + len, P(60) ? ' ' : gen_uc(t));
    }
    m_fix(d, buf, len);
}

static int cmp_keys(const int *a, int na, const int *b, int nb)
{
    for (int i = 0; i < na && i < nb; i++) {
        if (a[i] != b[i]) {
            return a[i] < b[i] ? -1 : 1;
        }
    }
    return na < nb ? -1 : na > nb;
}

static int sign(int x)
{
    return (x > 0) - (x < 0);
}

static void run_cmp(pt_t *t)
{
    str_t s1, s2;
    lstr_t l1, l2;
    int k1[1024], k2[1024];

    gen_str(t, &s1, 12, P(70));
    if (P(80)) {
        gen_related(t, &s2, &s1);
    } else {
        gen_str(t, &s2, 12, P(70));
    }
    if (pt_bool(t)) {
        str_t x = s1;

        s1 = s2;
        s2 = x;
    }
    if (s2.n > 250 || s1.n > 250) {
        pt_discard(t);
        return;
    }
    note_str(t, "s1", &s1);
    note_str(t, "s2", &s2);
    m_nontrivial(t, &s1);
    m_nontrivial(t, &s2);
    l1 = LSTR_INIT_V((char *)s1.d, s1.len);
    l2 = LSTR_INIT_V((char *)s2.d, s2.len);

    for (int ci = 0; ci < 2; ci++) {
        int n1, n2, exp, r;
        bool starts = false, ends, b;

        key_large = LARGE;
        n1 = m_keys(k1, &s1, 0, s1.n, ci);
        n2 = m_keys(k2, &s2, 0, s2.n, ci);
        exp = cmp_keys(k1, n1, k2, n2);
        r = ci ? utf8_stricmp(l1.s, l1.len, l2.s, l2.len, false)
               : utf8_strcmp(l1.s, l1.len, l2.s, l2.len, false);
        PT_CHECK(t, r == exp, "comparison (ci %d): %d instead of %d", ci, r,
                 exp);
        r = ci ? lstr_utf8_icmp(l1, l2) : lstr_utf8_cmp(l1, l2);
        PT_CHECK(t, r == exp, "lstr comparison (ci %d)", ci);
        b = ci ? lstr_utf8_iequal(l1, l2) : lstr_utf8_equal(l1, l2);
        PT_CHECK(t, b == !exp, "lstr equality (ci %d)", ci);

        /* the prefix is made of whole characters */
        for (int i = 0; i <= s1.n && !starts; i++) {
            int n = m_keys(k1, &s1, 0, i, ci);

            starts = !cmp_keys(k1, n, k2, n2);
        }
        b = ci ? lstr_utf8_istartswith(l1, l2) : lstr_utf8_startswith(l1, l2);
        PT_CHECK(t, b == starts, "startswith (ci %d): %d", ci, b);

        key_large = 0;
        n1 = m_keys(k1, &s1, 0, s1.n, ci);
        n2 = m_keys(k2, &s2, 0, s2.n, ci);
        ends = n2 <= n1 && !memcmp(k1 + n1 - n2, k2, n2 * sizeof(int));
        b = ci ? lstr_utf8_iendswith(l1, l2) : lstr_utf8_endswith(l1, l2);
        PT_CHECK(t, b == ends, "endswith (ci %d): %d", ci, b);

        /* trailing spaces ignored */
        {
            int e1 = s1.n, e2 = s2.n;

            key_large = LARGE;
            while (e1 && s1.c[e1 - 1] == ' ' && !s1.bad[e1 - 1]) {
                e1--;
            }
            while (e2 && s2.c[e2 - 1] == ' ' && !s2.bad[e2 - 1]) {
                e2--;
            }
            n1 = m_keys(k1, &s1, 0, e1, ci);
            n2 = m_keys(k2, &s2, 0, e2, ci);
            r = ci ? utf8_stricmp(l1.s, l1.len, l2.s, l2.len, true)
                   : utf8_strcmp(l1.s, l1.len, l2.s, l2.len, true);
            b = ci ? utf8_striequal(l1.s, l1.len, l2.s, l2.len, true)
                   : utf8_strequal(l1.s, l1.len, l2.s, l2.len, true);
            exp = cmp_keys(k1, n1, k2, n2);
            PT_CHECK(t, b == !exp && !r == !exp,
                     "equality without trailing spaces (ci %d): %d", ci, b);
            r = sign(r) + sign(ci
                ? utf8_stricmp(l2.s, l2.len, l1.s, l1.len, true)
                : utf8_strcmp(l2.s, l2.len, l1.s, l1.len, true));
            PT_CHECK(t, r == 0, "comparison is not antisymmetric");
        }
        key_large = 0;
    }
    (free)(s1.d);
    (free)(s2.d);
}

/* }}} */
/* {{{ like */

enum { TK_ONE = -1, TK_ANY = -2 };

/* does the pattern tok[i..n) match the characters s[j..) */
static bool m_like(const int *tok, int n, const str_t *s)
{
    static signed char memo[80][80];
    /* memo[i][j]: tokens from i match characters from j */

    for (int i = n; i >= 0; i--) {
        for (int j = s->n; j >= 0; j--) {
            bool r = false;

            if (i == n) {
                r = j == s->n;
            } else
            if (tok[i] == TK_ANY) {
                r = memo[i + 1][j] || (j < s->n && memo[i][j + 1]);
            } else
            if (tok[i] == TK_ONE) {
                r = j < s->n && memo[i + 1][j + 1];
            } else {
                /* smallest runs of literals and characters with the same
                 * collation */
                int k1[200], k2[200], n1 = 0, n2 = 0, a = i, b = j;

                for (;;) {
                    if (n1 <= n2 && (n1 < n2 || n1 == 0)) {
                        if (a == n || tok[a] < 0) {
                            break;
                        }
                        n1 += m_key(k1 + n1, tok[a++], true);
                    } else {
                        if (b == s->n) {
                            break;
                        }
                        n2 += m_key(k2 + n2, s->c[b++], true);
                    }
                    if (memcmp(k1, k2,
                               (n1 < n2 ? n1 : n2) * sizeof(int)))
                    {
                        break;
                    }
                    if (n1 && n1 == n2) {
                        r = memo[a][b];
                        break;
                    }
                }
            }
            memo[i][j] = r;
        }
    }
    return memo[0][0];
}

static bool outside(int c)
{
    return c < 512 && (T_ci[c] & 0xffff) >= 512;
}

static void run_like(pt_t *t)
{
    str_t s, pat;
    unsigned char buf[1024];
    int tok[80], n = 0, len = 0, n_any = 0;
    bool r, exp;

    /* the few letters whose capital is beyond the table only match
     * themselves, or their capital after %: left out */
    do {
        gen_str(t, &s, 14, true);
        for (int i = 0; i < s.n; i++) {
            if (outside(s.c[i])) {
                memset(s.d, 'q', s.len);
                m_parse(&s);
            }
        }
    } while (0);
    /* pattern: from the string, with holes */
    for (int i = 0; i < s.n || P(20); ) {
        int c = i < s.n ? s.c[i] : gen_uc(t);
        int key[2], m = 1;

        if (n > 60) {
            break;
        }
        switch (pt_p(t, 50, 100) ? 1 + U(9) : 0) {
          case 1: case 2:
            tok[n++] = TK_ONE;
            i++;
            continue;
          case 3: case 4:
            if (n_any < 5) {
                n_any++;
                tok[n++] = TK_ANY;
            }
            i += U(4);
            continue;
          case 5:
            tok[n++] = c < 512 ? (int)T_lower[c] : c;
            i++;
            continue;
          case 6:
            tok[n++] = c < 512 ? (int)T_upper[c] : c;
            i++;
            continue;
          case 7: case 8:
            m = m_key(key, c, true);
            for (int j = 0; j < m; j++) {
                tok[n++] = key[j];
            }
            i++;
            continue;
          case 9:
            tok[n++] = gen_uc(t);
            i += pt_bool(t);
            continue;
          default:
            tok[n++] = c;
            i++;
            continue;
        }
    }
    for (int i = 0; i < n; i++) {
        if (tok[i] == TK_ONE) {
            buf[len++] = '_';
        } else
        if (tok[i] == TK_ANY) {
            buf[len++] = '%';
        } else {
            if (outside(tok[i])) {
                tok[i] = 'q';
            }
            if (tok[i] == '_' || tok[i] == '%' || tok[i] == '\\') {
                buf[len++] = '\\';
            }
            len += m_enc(buf + len, tok[i]);
        }
    }
    m_fix(&pat, buf, len);
    note_str(t, "string", &s);
    note_str(t, "pattern", &pat);
    if (s.n >= 3 && s.wide && n > 1) {
        pt_nontrivial(t);
    }
    exp = m_like(tok, n, &s);
    r = lstr_utf8_is_ilike(LSTR_INIT_V((char *)s.d, s.len),
                           LSTR_INIT_V((char *)pat.d, pat.len));
    pt_label(t, exp ? "match" : "no match");
    PT_CHECK(t, r == exp, "lstr_utf8_is_ilike: %d instead of %d", r, exp);
    (free)(s.d);
    (free)(pat.d);
}

/* }}} */
/* {{{ conv */

static const int cp1252[32] = {
    0x20ac, 0x81, 0x201a, 0x192, 0x201e, 0x2026, 0x2020, 0x2021,
    0x2c6, 0x2030, 0x160, 0x2039, 0x152, 0x8d, 0x17d, 0x8f,
    0x90, 0x2018, 0x2019, 0x201c, 0x201d, 0x2022, 0x2013, 0x2014,
    0x2dc, 0x2122, 0x161, 0x203a, 0x153, 0x9d, 0x17e, 0x178,
};

static int m_latin(int c, bool nine)
{
    if (c < 0xa0) {
        return cp1252[c - 0x80];
    }
    if (nine) {
        switch (c) {
          case 0xa4: return 0x20ac;
          case 0xa6: return 0x160;
          case 0xa8: return 0x161;
          case 0xb4: return 0x17d;
          case 0xb8: return 0x17e;
          case 0xbc: return 0x152;
          case 0xbd: return 0x153;
          case 0xbe: return 0x178;
        }
    }
    return c;
}

static void m_hex(unsigned char *d, int v)
{
    for (int i = 0; i < 4; i++) {
        d[i] = "0123456789ABCDEF"[v >> (12 - 4 * i) & 15];
    }
}

/* the result of a conversion appended to sb of which the first pre bytes were
 * there before */
#define CONV_OK(what, res, ok, exp, n)                                       \
    do {                                                                     \
        PT_CHECK(t, !memcmp(sb.data, pre, pre_len), "%s: damaged", what);    \
        if (!(ok)) {                                                         \
            PT_CHECK(t, (res) < 0, "%s: accepted", what);                    \
            PT_CHECK(t, sb.len == pre_len && !sb.data[pre_len],              \
                     "%s: refused, and changed", what);                      \
        } else {                                                             \
            PT_CHECK(t, (res) >= 0, "%s: refused", what);                    \
            PT_CHECK(t, sb.len == pre_len + (n)                              \
                     && !memcmp(sb.data + pre_len, exp, n)                   \
                     && !sb.data[sb.len], "%s: wrong text", what);           \
        }                                                                    \
    } while (0)

static char pre[64];
static int pre_len;

static void gen_pre(pt_t *t, sb_t *sb)
{
    pre_len = U(60);
    for (int i = 0; i < pre_len; i++) {
        pre[i] = 'a' + i % 26;
    }
    sb_add(sb, pre, pre_len);
}

static void run_conv(pt_t *t)
{
    str_t s;
    unsigned char exp[2048];
    int n = 0, res, kind = U(9);
    bool ok = true;
    SB(sb, 64);

    gen_str(t, &s, 40, P(50));
    note_str(t, "string", &s);
    m_nontrivial(t, &s);
    gen_pre(t, &sb);
    switch (kind) {
      case 0: case 1:
        pt_label(t, kind ? "from Latin-9" : "from Latin-1");
        for (int i = 0, pos = 0; i < s.n; pos += s.w[i++]) {
            if (s.bad[i]) {
                n += m_enc(exp + n, m_latin(s.c[i], kind));
            } else {
                memcpy(exp + n, s.d + pos, s.w[i]);
                n += s.w[i];
            }
        }
        if (kind) {
            sb_conv_from_latin9(&sb, s.d, s.len);
        } else {
            sb_conv_from_latin1(&sb, s.d, s.len);
        }
        CONV_OK("from Latin", 0, true, exp, n);
        break;
      case 2: {
        int rep = U(3) ? (pt_bool(t) ? '?' : 0) : -1;

        pt_label(t, "to Latin-1");
        for (int i = 0; i < s.n; i++) {
            if (s.bad[i] || (s.c[i] > 255 && rep < 0)) {
                ok = false;
            }
            if (s.c[i] < 256) {
                exp[n++] = s.c[i];
            } else
            if (rep > 0) {
                exp[n++] = rep;
            }
        }
        res = sb_conv_to_latin1(&sb, s.d, s.len, rep);
        CONV_OK("sb_conv_to_latin1", res, ok, exp, n);
        break;
      }
      case 3: case 4: case 5:
        pt_label(t, "to UCS-2");
        for (int i = 0; i < s.n; i++) {
            int c = s.c[i];

            ok &= c <= 0xffff;
            if (kind == 3) {
                exp[n++] = c;
                exp[n++] = c >> 8;
            } else
            if (kind == 4) {
                exp[n++] = c >> 8;
                exp[n++] = c;
            } else {
                m_hex(exp + n, c & 0xffff);
                n += 4;
            }
        }
        res = kind == 3 ? sb_conv_to_ucs2le(&sb, s.d, s.len)
            : kind == 4 ? sb_conv_to_ucs2be(&sb, s.d, s.len)
            : sb_conv_to_ucs2be_hex(&sb, s.d, s.len);
        CONV_OK("to UCS-2", res, ok, exp, n);
        break;
      default: { /* from hexadecimal UCS-2, of any length, maybe damaged */
        bool be = pt_bool(t);
        unsigned char in[1024], *x;
        int il = 0;

        pt_label(t, "from UCS-2");
        for (int i = 0; i < s.n; i++) {
            int c = s.c[i] & 0xffff;

            m_hex(in + il, be ? c : (c >> 8 | (c & 0xff) << 8));
            if (pt_bool(t)) {
                for (int j = 0; j < 4; j++) {
                    in[il + j] = in[il + j] >= 'A' ? in[il + j] + 32
                                                   : in[il + j];
                }
            }
            il += 4;
            n += m_enc(exp + n, c);
        }
        if (P(20) && il) {
            in[U(il)] = "gG/:@`\0\xff -"[U(10)];
            ok = false;
        }
        if (P(30) && il) {
            il -= 1 + U(3);
            ok = false;
        }
        x = (malloc)(il ? il : 1);
        memcpy(x, in, il);
        res = be ? sb_conv_from_ucs2be_hex(&sb, x, il)
                 : sb_conv_from_ucs2le_hex(&sb, x, il);
        CONV_OK("from UCS-2", res, ok, exp, n);
        (free)(x);
        break;
      }
    }
    (free)(s.d);
}

/* }}} */
/* {{{ gsm */

/* 3GPP TS 23.038, 6.2.1 */
static const int gsm_tab[128] = {
    '@', 0xa3, '$', 0xa5, 0xe8, 0xe9, 0xf9, 0xec,
    0xf2, 0xc7, '\n', 0xd8, 0xf8, '\r', 0xc5, 0xe5,
    0x394, '_', 0x3a6, 0x393, 0x39b, 0x3a9, 0x3a0, 0x3a8,
    0x3a3, 0x398, 0x39e, -1, 0xc6, 0xe6, 0xdf, 0xc9,
    ' ', '!', '"', '#', 0xa4, '%', '&', '\'',
    '(', ')', '*', '+', ',', '-', '.', '/',
    '0', '1', '2', '3', '4', '5', '6', '7', '8', '9',
    ':', ';', '<', '=', '>', '?',
    0xa1, 'A', 'B', 'C', 'D', 'E', 'F', 'G', 'H', 'I', 'J', 'K', 'L', 'M',
    'N', 'O', 'P', 'Q', 'R', 'S', 'T', 'U', 'V', 'W', 'X', 'Y', 'Z',
    0xc4, 0xd6, 0xd1, 0xdc, 0xa7,
    0xbf, 'a', 'b', 'c', 'd', 'e', 'f', 'g', 'h', 'i', 'j', 'k', 'l', 'm',
    'n', 'o', 'p', 'q', 'r', 's', 't', 'u', 'v', 'w', 'x', 'y', 'z',
    0xe4, 0xf6, 0xf1, 0xfc, 0xe0,
};
static const struct { int g, u; } gsm_ext[] = {
    { 0x0a, 0x0c }, { 0x14, '^' }, { 0x28, '{' }, { 0x29, '}' },
    { 0x2f, '\\' }, { 0x3c, '[' }, { 0x3d, '~' }, { 0x3e, ']' },
    { 0x40, '|' }, { 0x65, 0x20ac },
};

/* septets of a character of the alphabet: -1 if it has none */
static int m_gsm(int c, bool ext)
{
    for (int i = 0; i < 128; i++) {
        if (gsm_tab[i] == c && c >= 0) {
            return i;
        }
    }
    for (int i = 0; ext && i < countof(gsm_ext); i++) {
        if (gsm_ext[i].u == c) {
            return 0x1b00 | gsm_ext[i].g;
        }
    }
    return -1;
}
static int m_ungsm(int g, bool ext)
{
    if (ext) {
        for (int i = 0; i < countof(gsm_ext); i++) {
            if (gsm_ext[i].g == g) {
                return gsm_ext[i].u;
            }
        }
        return -1;
    }
    return gsm_tab[g];
}

static int gen_gsm_uc(pt_t *t, bool ext)
{
    int c;

    if (ext && P(25)) {
        return gsm_ext[U(countof(gsm_ext))].u;
    }
    c = gsm_tab[U(128)];
    return c < 0 ? 'x' : c;
}

static void run_gsm(pt_t *t)
{
    unsigned char u8[2048], g[2048];
    int n = pt_size(t, 60), ul = 0, gl = 0, unk = 0;
    int c[64], kind = U(7);
    bool ext = pt_bool(t);
    bool alpha = P(75);          /* only characters of the alphabet */
    unsigned char *x;
    int res;
    SB(sb, 64);

    if (kind >= 5) {
        goto decode;
    }
    if (kind < 3) {
        ext = true;
    }
    for (int i = 0; i < n; i++) {
        int v;

        c[i] = alpha || P(80) ? gen_gsm_uc(t, ext) : 1 + gen_uc(t);
        ul += m_enc(u8 + ul, c[i]);
        v = m_gsm(c[i], ext);
        if (v < 0) {
            /* not in the alphabet: replaced as the library likes, by one or
             * two septets, the same everywhere */
            int r = unicode_to_gsm7(c[i], -1,
                                    ext ? GSM_EXTENSION_PLAN
                                        : GSM_DEFAULT_PLAN);

            PT_CHECK(t, r < 0x8000 && !(r > 0 && (r & 0x8080)),
                     "unicode_to_gsm7(%x): %x", c[i], r);
            PT_CHECK(t, ext || r <= 0x7f, "two septets in the default plan");
            if (ext) {
                PT_CHECK(t, gsm7_charlen(c[i]) == (r < 0 ? -1 : 1 + (r > 255)),
                         "gsm7_charlen(%x)", c[i]);
            }
            if (r < 0) {
                unk++;
                r = '.';
            }
            v = r;
        } else {
            int r = unicode_to_gsm7(c[i], -1, ext ? GSM_EXTENSION_PLAN
                                                  : GSM_DEFAULT_PLAN);

            PT_CHECK(t, r == v, "unicode_to_gsm7(%x): %x instead of %x", c[i],
                     r, v);
            PT_CHECK(t, gsm7_charlen(c[i]) == 1 + (v > 255),
                     "gsm7_charlen(%x)", c[i]);
        }
        if (v > 255) {
            g[gl++] = v >> 8;
        }
        g[gl++] = v & 0xff;
    }
    x = (malloc)(ul + 1);
    memcpy(x, u8, ul);
    x[ul] = '\0';
    if (pt_verbose(t)) {
        pt_note_hex(t, "UTF-8", x, ul);
        pt_note(t, "kind %d, extension %d", kind, ext);
    }
    if (n >= 3) {
        pt_nontrivial(t);
    }
    PT_CHECK(t, sb_conv_to_gsm_isok(u8, ul, ext ? GSM_EXTENSION_PLAN
                                                : GSM_DEFAULT_PLAN) == !unk,
             "sb_conv_to_gsm_isok");
    gen_pre(t, &sb);
    if (kind == 0) {
        pt_label(t, "8-bit GSM");
        sb_conv_to_gsm(&sb, x, ul);
        CONV_OK("sb_conv_to_gsm", 0, true, g, gl);
        if (alpha) {
            SB_1k(back);

            res = sb_conv_from_gsm(&back, g, gl);
            PT_CHECK(t, !res && back.len == ul && !memcmp(back.data, u8, ul),
                     "sb_conv_from_gsm");
        }
    } else
    if (kind == 1) {
        unsigned char h[4096];
        SB_1k(back);

        pt_label(t, "hexadecimal GSM");
        for (int i = 0; i < gl; i++) {
            h[2 * i] = "0123456789ABCDEF"[g[i] >> 4];
            h[2 * i + 1] = "0123456789ABCDEF"[g[i] & 15];
        }
        sb_conv_to_gsm_hex(&sb, x, ul);
        CONV_OK("sb_conv_to_gsm_hex", 0, true, h, 2 * gl);
        if (alpha) {
            res = sb_conv_from_gsm_hex(&back, h, 2 * gl);
            PT_CHECK(t, !res && back.len == ul && !memcmp(back.data, u8, ul),
                     "sb_conv_from_gsm_hex");
        }
    } else
    if (kind == 2) {
        SB_1k(cimd);

        /* CIMD: everything but \f */
        pt_label(t, "CIMD");
        sb_conv_to_cimd(&cimd, x, ul);
        if (alpha && !memchr(u8, '\f', ul)) {
            res = sb_conv_from_gsm_plan(&sb, cimd.data, cimd.len,
                                        GSM_CIMD_PLAN);
            PT_CHECK(t, res == 0, "CIMD: %d invalid characters", res);
            CONV_OK("CIMD", 0, true, u8, ul);
        }
    } else {
        /* packed septets after some octets of header */
        unsigned char bits[2048];
        int start = pre_len - U(MIN(pre_len, 20) + 1);
        int udh = pre_len - start;
        int fill = (udh * 8 + 6) / 7;      /* septets of the header */
        int septets = fill + gl, bytes = (septets * 7 + 7) / 8;
        bool zero = memchr(x, 0, ul) != NULL;
        int max = -1, unknown = P(80) ? '.' : -1;

        pt_label(t, "packed GSM");
        if (zero) {
            pt_discard(t);
            (free)(x);
            return;
        }
        if (pt_verbose(t)) {
            pt_note(t, "header of %d octets, %d septets", udh, gl);
        }
        memset(bits, 0, sizeof(bits));
        memcpy(bits, pre + start, udh);
        for (int i = 0; i < gl * 7; i++) {
            if (g[i / 7] >> (i % 7) & 1) {
                int b = fill * 7 + i;

                bits[b / 8] |= 1 << (b % 8);
            }
        }
        if (!udh && P(40)) {
            max = bytes + (int)U(5) - 2;
            max = max < 0 ? 0 : max;
        }
        res = sb_conv_to_gsm7(&sb, start, (char *)x, unknown,
                              ext ? GSM_EXTENSION_PLAN : GSM_DEFAULT_PLAN,
                              max);
        if ((unknown < 0 && unk) || (max >= 0 && max < bytes)) {
            PT_CHECK(t, res < 0, "sb_conv_to_gsm7: %d octets, max %d: "
                     "accepted", bytes, max);
        } else {
            PT_CHECK(t, res == septets, "sb_conv_to_gsm7: %d instead of %d "
                     "septets", res, septets);
            PT_CHECK(t, sb.len == start + bytes
                     && !memcmp(sb.data, pre, start)
                     && !memcmp(sb.data + start, bits, bytes)
                     && !sb.data[sb.len], "sb_conv_to_gsm7: wrong octets");
        }
        if (alpha) {
            unsigned char *y = (malloc)(bytes ? bytes : 1);
            SB_1k(back);

            memcpy(y, bits, bytes);
            res = sb_conv_from_gsm7(&back, y, septets, udh);
            PT_CHECK(t, !res && back.len == ul && !memcmp(back.data, u8, ul),
                     "sb_conv_from_gsm7: %d", res);
            (free)(y);
        }
    }
    (free)(x);
    return;

  decode: {
    /* any bytes */
    unsigned char exp[2048], h[256];
    int el = 0, bad = 0;
    int plan = ext ? GSM_EXTENSION_PLAN : GSM_DEFAULT_PLAN;
    bool herr = false;
    int mode = U(3);

    gl = n;
    for (int i = 0; i < gl; i++) {
        g[i] = P(20) ? 0x1b : P(8) ? U(256) : U(128);
        if (mode == 2) {
            g[i] &= 0x7f;
        }
    }
    x = (malloc)(gl ? gl : 1);
    memcpy(x, g, gl);
    gen_pre(t, &sb);
    if (n >= 3) {
        pt_nontrivial(t);
    }
    if (pt_verbose(t)) {
        pt_note_hex(t, "bytes", x, gl);
        pt_note(t, "extension %d, mode %d", ext, mode);
    }
    pt_label(t, "any bytes");
    if (mode) {
        ext = true;
    }
    for (int i = 0; i < gl; i++) {
        int v;

        if (g[i] & 0x80) {
            bad++;
            herr = true;
            v = '.';
        } else
        if (g[i] == 0x1b) {
            if (!ext || i + 1 == gl) {
                bad++;
                herr = true;
                v = '.';
                if (mode == 2) {
                    break;
                }
            } else
            if (g[++i] & 0x80) {
                bad++;
                herr = true;
                v = '.';
            } else {
                v = m_ungsm(g[i], true);
            }
        } else {
            v = m_ungsm(g[i], false);
        }
        el += m_enc(exp + el, v < 0 ? '.' : v);
    }
    if (mode == 0) {
        res = sb_conv_from_gsm_plan(&sb, x, gl, plan);
        PT_CHECK(t, res == bad, "sb_conv_from_gsm_plan: %d invalid instead of"
                 " %d", res, bad);
        CONV_OK("sb_conv_from_gsm_plan", res, true, exp, el);
    } else
    if (mode == 1) {
        unsigned char *y;
        int hl = 2 * gl;

        for (int i = 0; i < gl; i++) {
            h[2 * i] = "0123456789ABCDEF"[g[i] >> 4];
            h[2 * i + 1] = "0123456789abcdef"[g[i] & 15];
        }
        if (hl && P(10)) {
            hl--;
            herr = true;
        }
        if (hl && P(10)) {
            h[U(hl)] = "gz /"[U(4)];
            herr = true;
        }
        y = (malloc)(hl ? hl : 1);
        memcpy(y, h, hl);
        res = sb_conv_from_gsm_hex(&sb, y, hl);
        CONV_OK("sb_conv_from_gsm_hex", res, !herr, exp, el);
        (free)(y);
    } else {
        unsigned char *y;
        int yl = (gl * 7 + 7) / 8;

        y = (malloc)(yl ? yl : 1);
        memset(y, 0, yl);
        for (int i = 0; i < gl * 7; i++) {
            if (g[i / 7] >> (i % 7) & 1) {
                y[i / 8] |= 1 << (i % 8);
            }
        }
        res = sb_conv_from_gsm7(&sb, y, gl, 0);
        PT_CHECK(t, (res < 0) == (bad > 0), "sb_conv_from_gsm7: %d, %d", res,
                 bad);
        CONV_OK("sb_conv_from_gsm7", 0, true, exp, el);
        (free)(y);
    }
    (free)(x);
  }
}

/* }}} */

const pt_target_t pt_targets[] = {
    { "utf8", run_utf8, 150000, 3000000, 10 },
    { "cmp",  run_cmp,  200000, 4000000, 20 },
    { "like", run_like, 200000, 4000000, 20 },
    { "conv", run_conv, 150000, 3000000, 10 },
    { "gsm",  run_gsm,  150000, 3000000, 20 },
};
const int pt_targets_len = 5;
