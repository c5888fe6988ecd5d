/* Text encoders and decoders of sb_t and pstream_t, against independent
 * models of each format. */
#include <lib-common/core.h>
#include <lib-common/container-qvector.h>
#include "pt.h"

const char pt_rule[] =
    "enc: arbitrary bytes (biased to the metacharacters of each format) through "
    "base64 (both alphabets, any width, any split of the incremental form), "
    "hex, URL, quoted-printable, XML, C escapes, environment expansion, CSV, "
    "separator splitting, punycode and IDNA; encoded text is read by an "
    "independent decoder, and arbitrary or slightly damaged encoded text is "
    "decoded and compared with a model, with content already in the buffer. "
    "non-trivial: the text held at least one character that the format must "
    "escape or one escape to decode";

/* {{{ model buffer */

typedef struct mb_t { uint8_t *b; int n, cap; } mb_t;
static mb_t M, E;
static void mb_c(mb_t *m, int c)
{
    if (m->n + 1 > m->cap) {
        m->cap = m->cap * 2 + 64;
        m->b = (realloc)(m->b, m->cap);
    }
    m->b[m->n++] = c;
}
static void mb_m(mb_t *m, const void *p, int n)
{
    for (int i = 0; i < n; i++) {
        mb_c(m, ((const uint8_t *)p)[i]);
    }
}
static void mb_s(mb_t *m, const char *s) { mb_m(m, s, strlen(s)); }
static void mb_uc(mb_t *m, uint32_t c)
{
    if (c < 0x80) {
        mb_c(m, c);
    } else
    if (c < 0x800) {
        mb_c(m, 0xc0 | (c >> 6));
        mb_c(m, 0x80 | (c & 0x3f));
    } else
    if (c < 0x10000) {
        mb_c(m, 0xe0 | (c >> 12));
        mb_c(m, 0x80 | ((c >> 6) & 0x3f));
        mb_c(m, 0x80 | (c & 0x3f));
    } else {
        mb_c(m, 0xf0 | (c >> 18));
        mb_c(m, 0x80 | ((c >> 12) & 0x3f));
        mb_c(m, 0x80 | ((c >> 6) & 0x3f));
        mb_c(m, 0x80 | (c & 0x3f));
    }
}

/* }}} */
/* {{{ buffers under test */

/* data in an exactly sized heap block, so that reads past its end show */
typedef struct in_t { uint8_t *p; int n; } in_t;
static in_t in_new(const void *p, int n)
{
    in_t in = { (malloc)(n), n };
    if (n) {
        memcpy(in.p, p, n);
    }
    return in;
}
static void in_wipe(in_t *in) { (free)(in->p); in->p = NULL; }

static char pfx[32];
static int  pfx_len;

/* buffer with a prefix already there */
static void sb_begin(pt_t *t, sb_t *sb)
{
    pfx_len = pt_p(t, 1, 3) ? 0 : pt_u(t, 20);
    for (int i = 0; i < pfx_len; i++) {
        pfx[i] = 'A' + i;
    }
    sb_init(sb);
    if (pt_p(t, 1, 4)) {
        sb_grow(sb, pt_u(t, 300));
    }
    if (pfx_len) {
        sb_add(sb, pfx, pfx_len);
    }
}
static void sb_is(pt_t *t, const sb_t *sb, const void *exp, int n,
                  const char *what)
{
    PT_CHECK(t, sb->len >= pfx_len && !memcmp(sb->data, pfx, pfx_len),
             "%s: the content already in the buffer changed", what);
    PT_CHECK(t, sb->data[sb->len] == '\0', "%s: not terminated", what);
    if (sb->len - pfx_len != n || (n && memcmp(sb->data + pfx_len, exp, n))) {
        pt_note_hex(t, "got", sb->data + pfx_len, sb->len - pfx_len);
        pt_note_hex(t, "expected", exp, n);
        PT_FAIL(t, "%s: wrong result (%d bytes, expected %d)", what,
                sb->len - pfx_len, n);
    }
}
static void sb_kept(pt_t *t, const sb_t *sb, const char *what)
{
    sb_is(t, sb, "", 0, what);
}

/* arbitrary bytes, biased to those of `alpha` */
static void gen_text(pt_t *t, mb_t *m, const char *alpha, int avg)
{
    int nalpha = strlen(alpha);

    m->n = 0;
    if (pt_p(t, 1, 40)) {
        /* long */
        int len = pt_size(t, 5000);
        uint64_t s = pt_u(t, UINT32_MAX);
        int mode = pt_u(t, 2);

        for (int i = 0; i < len; i++) {
            uint64_t r = pt_splitmix(&s);
            mb_c(m, mode == 0 ? r & 0xff
                  : mode == 1 && (r & 0x700) ? 'a' + (r & 0xff) % 26
                  : (uint8_t)alpha[(r & 0xff) % nalpha]);
        }
        return;
    }
    while (pt_more(t, avg)) {
        switch (pt_u(t, 5)) {
          case 0:
            mb_c(m, 'a' + pt_u(t, 25));
            break;
          case 1: case 2:
            mb_c(m, alpha[pt_u(t, nalpha - 1)]);
            break;
          case 3:
            mb_c(m, pt_u(t, 255));
            break;
          case 4:
            for (int i = 1 + pt_u(t, 90), c = 'a' + pt_u(t, 25); i-- > 0; ) {
                mb_c(m, c);
            }
            break;
          case 5:
            mb_uc(m, pt_uchar(t));
            break;
        }
    }
}

/* damage some text */
static void mutate(pt_t *t, mb_t *m, const char *alpha)
{
    int nalpha = strlen(alpha);

    for (int i = pt_u(t, 3); i > 0 && m->n; i--) {
        int pos = pt_u(t, m->n - 1);

        switch (pt_u(t, 3)) {
          case 0: m->b[pos] = alpha[pt_u(t, nalpha - 1)]; break;
          case 1: m->b[pos] = pt_u(t, 255); break;
          case 2: memmove(m->b + pos, m->b + pos + 1, m->n - pos - 1);
                  m->n--;
                  break;
          case 3: m->n = pos; break;
        }
    }
}

static int xdig(int c)
{
    return c >= '0' && c <= '9' ? c - '0'
         : c >= 'a' && c <= 'f' ? c - 'a' + 10
         : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1;
}
static bool is_sp(int c)
{
    return c == ' ' || (c >= '\t' && c <= '\r');
}

/* }}} */
/* {{{ base64 */

static char b64c(int v, bool url)
{
    return v < 26 ? 'A' + v : v < 52 ? 'a' + v - 26 : v < 62 ? '0' + v - 52
         : v == 62 ? (url ? '-' : '+') : (url ? '_' : '/');
}
static int b64v(int c, bool url)
{
    for (int v = 0; v < 64; v++) {
        if (b64c(v, url) == c) {
            return v;
        }
    }
    return -1;
}
static void m_b64(mb_t *out, const uint8_t *p, int n, bool url)
{
    out->n = 0;
    for (int i = 0; i < n; i += 3) {
        uint32_t v = p[i] << 16 | (i + 1 < n ? p[i + 1] << 8 : 0)
                   | (i + 2 < n ? p[i + 2] : 0);
        mb_c(out, b64c(v >> 18, url));
        mb_c(out, b64c((v >> 12) & 63, url));
        mb_c(out, i + 1 < n ? b64c((v >> 6) & 63, url) : '=');
        mb_c(out, i + 2 < n ? b64c(v & 63, url) : '=');
    }
}
static int m_unb64(mb_t *out, const uint8_t *p, int n, bool url)
{
    uint8_t s[n + 1];
    int k = 0, data, pad = 0;

    out->n = 0;
    for (int i = 0; i < n; i++) {
        if (!is_sp(p[i])) {
            s[k++] = p[i];
        }
    }
    if (k % 4) {
        return -1;
    }
    data = k;
    while (data > 0 && pad < 2 && s[data - 1] == '=') {
        data--;
        pad++;
    }
    for (int i = 0; i < data; i++) {
        if (b64v(s[i], url) < 0) {
            return -1;
        }
        s[i] = b64v(s[i], url);
    }
    for (int i = data; i < k; i++) {
        s[i] = 0;
    }
    for (int i = 0; i < k; i += 4) {
        uint32_t v = s[i] << 18 | s[i + 1] << 12 | s[i + 2] << 6 | s[i + 3];
        mb_c(out, v >> 16);
        mb_c(out, v >> 8);
        mb_c(out, v);
    }
    out->n -= pad;
    return 0;
}

static void run_b64(pt_t *t)
{
    bool url = pt_bool(t);
    const char *alpha = "+/-_=AZaz09 \r\n\t\v\f\x80\xff";
    sb_t sb, sb2;
    in_t in;

    if (pt_p(t, 2, 3)) {
        int width = pt_p(t, 1, 3) ? -1 : pt_p(t, 1, 3) ? 0 : pt_u(t, 100);
        int per_line = width < 0 ? INT_MAX : width == 0 ? 76
                     : width < 4 ? 4 : width & ~3;
        int pos, k, col;
        sb_b64_ctx_t ctx;

        gen_text(t, &M, alpha, 8);
        pt_note_hex(t, "data", M.b, M.n);
        pt_note(t, "width %d url %d", width, url);
        if (M.n > 3) {
            pt_nontrivial(t);
        }
        in = in_new(M.b, M.n);
        sb_begin(t, &sb);
        (url ? sb_add_b64url : sb_add_b64)(&sb, in.p, in.n, width);
        m_b64(&E, M.b, M.n, url);
        /* same characters in the same order, cut in lines */
        PT_CHECK(t, sb.len >= pfx_len && !memcmp(sb.data, pfx, pfx_len),
                 "the content already in the buffer changed");
        PT_CHECK(t, sb.data[sb.len] == '\0', "not terminated");
        col = k = 0;
        for (pos = pfx_len; pos < sb.len; pos++) {
            if (sb.data[pos] == '\r') {
                PT_CHECK(t, width >= 0, "line break with an unlimited width");
                PT_CHECK(t, pos + 1 < sb.len && sb.data[pos + 1] == '\n',
                         "lone CR");
                PT_CHECK(t, col == per_line || (k == E.n && col > 0
                                                && col <= per_line),
                         "line of %d characters", col);
                col = 0;
                pos++;
                continue;
            }
            PT_CHECK(t, k < E.n && (uint8_t)sb.data[pos] == E.b[k],
                     "wrong character at %d (%d)", pos, k);
            k++;
            col++;
            PT_CHECK(t, col <= per_line, "line longer than %d", per_line);
        }
        PT_CHECK(t, k == E.n, "%d characters, expected %d", k, E.n);
        if (width < 0) {
            sb_is(t, &sb, E.b, E.n, "one line");
        }
        /* incremental */
        sb_init(&sb2);
        sb_add(&sb2, pfx, pfx_len);
        if (url) {
            sb_add_b64url_start(&sb2, pt_bool(t) ? in.n : 0, width, &ctx);
        } else {
            sb_add_b64_start(&sb2, pt_bool(t) ? in.n : 0, width, &ctx);
        }
        for (pos = 0; pos < in.n; ) {
            int n = pt_p(t, 1, 8) ? 0 : 1 + pt_size(t, in.n - pos - 1);
            in_t part = in_new(in.p + pos, n);

            pt_note(t, "update with %d bytes", n);
            (url ? sb_add_b64url_update : sb_add_b64_update)(&sb2, part.p, n,
                                                             &ctx);
            in_wipe(&part);
            pos += n;
        }
        (url ? sb_add_b64url_finish : sb_add_b64_finish)(&sb2, &ctx);
        PT_CHECK(t, sb.len == sb2.len && !memcmp(sb.data, sb2.data, sb.len),
                 "the incremental encoding differs");
        sb_wipe(&sb2);
        /* and back */
        in_wipe(&in);
        in = in_new(sb.data + pfx_len, sb.len - pfx_len);
        sb_wipe(&sb);
        sb_begin(t, &sb);
        PT_CHECK(t, !(url ? sb_add_unb64url : sb_add_unb64)(&sb, in.p, in.n),
                 "refused its own output");
        sb_is(t, &sb, M.b, M.n, "decoded back");
        mb_t m = M;
        M = E;
        E = m;
        M.n = 0;
        mb_m(&M, in.p, in.n);
        in_wipe(&in);
        sb_wipe(&sb);
        mutate(t, &M, alpha);
    } else {
        gen_text(t, &M, "ABCDabcd0123=+/-_ \r\n", 10);
    }
    /* arbitrary text */
    {
        int exp, got;
        pt_note_hex(t, "text", M.b, M.n);
        in = in_new(M.b, M.n);
        sb_begin(t, &sb);
        exp = m_unb64(&E, M.b, M.n, url);
        got = (url ? sb_add_unb64url : sb_add_unb64)(&sb, in.p, in.n);
        PT_CHECK(t, (got < 0) == (exp < 0), "decoding returned %d, expected %d",
                 got, exp);
        if (exp < 0) {
            pt_label(t, "refused");
            sb_kept(t, &sb, "refused text");
        } else {
            if (M.n) {
                pt_nontrivial(t);
            }
            sb_is(t, &sb, E.b, E.n, "decoded text");
        }
        in_wipe(&in);
        sb_wipe(&sb);
    }
}

/* }}} */
/* {{{ hex */

static void run_hex(pt_t *t)
{
    sb_t sb;
    in_t in;
    bool ok = true;
    uint8_t *buf;
    int r, size;

    gen_text(t, &M, "09afAF\x80\xff", 8);
    pt_note_hex(t, "data", M.b, M.n);
    in = in_new(M.b, M.n);
    sb_begin(t, &sb);
    sb_add_hex(&sb, in.p, in.n);
    E.n = 0;
    for (int i = 0; i < M.n; i++) {
        mb_c(&E, "0123456789ABCDEF"[M.b[i] >> 4]);
        mb_c(&E, "0123456789ABCDEF"[M.b[i] & 15]);
    }
    sb_is(t, &sb, E.b, E.n, "hex");
    in_wipe(&in);
    sb_wipe(&sb);
    if (pt_bool(t)) {
        /* mixed case, damage */
        for (int i = 0; i < E.n && i < 64; i++) {
            if (pt_bool(t)) {
                E.b[i] = tolower(E.b[i]);
            }
        }
        mutate(t, &E, "0aAgG/:@`xX -+");
    } else {
        pt_nontrivial(t);
    }
    pt_note_hex(t, "text", E.b, E.n);
    M.n = 0;
    ok = E.n % 2 == 0;
    for (int i = 0; ok && i < E.n; i += 2) {
        if (xdig(E.b[i]) < 0 || xdig(E.b[i + 1]) < 0) {
            ok = false;
        }
        mb_c(&M, xdig(E.b[i]) << 4 | xdig(E.b[i + 1]));
    }
    in = in_new(E.b, E.n);
    sb_begin(t, &sb);
    r = sb_add_unhex(&sb, in.p, in.n);
    PT_CHECK(t, (r >= 0) == ok, "unhex returned %d, expected %d", r, ok);
    if (ok) {
        sb_is(t, &sb, M.b, M.n, "unhex");
    } else {
        pt_label(t, "refused");
        sb_kept(t, &sb, "refused hex");
    }
    sb_wipe(&sb);
    /* to a buffer */
    size = ok ? M.n : E.n / 2;
    buf = (malloc)(size + 8);
    memset(buf, 0xee, size + 8);
    r = strconv_hexdecode(buf, size, (char *)in.p, in.n);
    PT_CHECK(t, ok ? r == M.n : r < 0, "strconv_hexdecode: %d", r);
    if (ok) {
        PT_CHECK(t, !M.n || !memcmp(buf, M.b, M.n), "strconv_hexdecode data");
    }
    for (int i = size; i < size + 8; i++) {
        PT_CHECK(t, buf[i] == 0xee, "strconv_hexdecode wrote past the buffer");
    }
    (free)(buf);
    if (ok) {
        t_scope;
        lstr_t l = t_lstr_hexdecode(LSTR_INIT_V((char *)in.p, in.n));
        PT_CHECK(t, l.s && l.len == M.n && (!M.n || !memcmp(l.s, M.b, M.n)),
                 "t_lstr_hexdecode");
    } else {
        t_scope;
        PT_CHECK(t, !t_lstr_hexdecode(LSTR_INIT_V((char *)in.p, in.n)).s,
                 "t_lstr_hexdecode took bad hex");
    }
    in_wipe(&in);
}

/* }}} */
/* {{{ URL */

static void run_url(pt_t *t)
{
    sb_t sb;
    in_t in;

    gen_text(t, &M, "%%%%%2540aAfF /?&=+-._~\x80\xff", 10);
    pt_note_hex(t, "data", M.b, M.n);
    /* encode: only unreserved characters; decodes back */
    {
        int k = 0;

        in = in_new(M.b, M.n);
        sb_begin(t, &sb);
        sb_add_urlencode(&sb, in.p, in.n);
        E.n = 0;
        PT_CHECK(t, !memcmp(sb.data, pfx, pfx_len), "prefix");
        for (k = pfx_len; k < sb.len; k++) {
            int c = (uint8_t)sb.data[k];
            if (c == '%') {
                PT_CHECK(t, k + 2 < sb.len && xdig(sb.data[k + 1]) >= 0
                         && xdig(sb.data[k + 2]) >= 0, "bad escape");
                mb_c(&E, xdig(sb.data[k + 1]) << 4 | xdig(sb.data[k + 2]));
                k += 2;
                pt_nontrivial(t);
            } else {
                PT_CHECK(t, (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z')
                         || (c >= 'A' && c <= 'Z')
                         || (c && strchr("-._~/", c)),
                         "character %02x not escaped", c);
                mb_c(&E, c);
            }
        }
        PT_CHECK(t, E.n == M.n && (!M.n || !memcmp(E.b, M.b, M.n)),
                 "the encoded text does not decode to the input");
        in_wipe(&in);
        sb_wipe(&sb);
    }
    /* decode arbitrary text */
    E.n = 0;
    for (int i = 0; i < M.n; i++) {
        if (M.b[i] == '%' && i + 2 < M.n && xdig(M.b[i + 1]) >= 0
        &&  xdig(M.b[i + 2]) >= 0)
        {
            pt_nontrivial(t);
            mb_c(&E, xdig(M.b[i + 1]) << 4 | xdig(M.b[i + 2]));
            i += 2;
        } else {
            mb_c(&E, M.b[i]);
        }
    }
    in = in_new(M.b, M.n);
    sb_begin(t, &sb);
    sb_add_urldecode(&sb, in.p, in.n);
    sb_is(t, &sb, E.b, E.n, "URL decoding");
    sb_wipe(&sb);
    /* in place */
    sb_init(&sb);
    sb_add(&sb, in.p, in.n);
    sb_urldecode(&sb);
    pfx_len = 0;
    sb_is(t, &sb, E.b, E.n, "URL decoding in place");
    sb_wipe(&sb);
    in_wipe(&in);
}

/* }}} */
/* {{{ quoted printable */

static void m_unqpe(mb_t *out, const uint8_t *p, int n)
{
    out->n = 0;
    for (int i = 0; i < n && p[i]; i++) {
        if (p[i] == '=' && i + 2 < n && p[i + 1] == '\r' && p[i + 2] == '\n') {
            i += 2;
        } else
        if (p[i] == '=' && i + 2 < n && xdig(p[i + 1]) >= 0
        &&  xdig(p[i + 2]) >= 0)
        {
            mb_c(out, xdig(p[i + 1]) << 4 | xdig(p[i + 2]));
            i += 2;
        } else
        if (p[i] == '\r' && i + 1 < n && p[i + 1] == '\n') {
            mb_c(out, '\n');
            i++;
        } else {
            mb_c(out, p[i]);
        }
    }
}

static void run_qp(pt_t *t)
{
    sb_t sb;
    in_t in;

    gen_text(t, &M, "==\r\n\r\n  \t\t..0aAF4\x00\x7f\x80", 12);
    for (int i = pt_p(t, 1, 3) ? pt_u(t, 5) : 0; i > 0; i--) {
        mb_s(&M, pt_bool(t) ? " \r\n" : "\r\n.");
        for (int j = pt_u(t, 80); j > 0; j--) {
            mb_c(&M, '.');
        }
    }
    pt_note_hex(t, "data", M.b, M.n);
    {
        int col = 0;

        in = in_new(M.b, M.n);
        sb_begin(t, &sb);
        sb_add_qpe(&sb, in.p, in.n);
        PT_CHECK(t, !memcmp(sb.data, pfx, pfx_len), "prefix");
        for (int k = pfx_len; k < sb.len; k++) {
            int c = (uint8_t)sb.data[k];

            if (c == '\r' && k + 1 < sb.len && sb.data[k + 1] == '\n') {
                if (col && k > pfx_len) {
                    PT_CHECK(t, sb.data[k - 1] != ' ' && sb.data[k - 1] != '\t',
                             "blank at the end of a line");
                }
                PT_CHECK(t, col <= 76, "line of %d characters", col);
                col = 0;
                k++;
                continue;
            }
            PT_CHECK(t, c == '\t' || (c >= ' ' && c < 0x7f),
                     "character %02x not encoded", c);
            if (c == '.') {
                PT_CHECK(t, col, "line starting with a dot");
            }
            if (c == '=') {
                pt_nontrivial(t);
                PT_CHECK(t, k + 2 < sb.len, "escape cut");
                PT_CHECK(t, (sb.data[k + 1] == '\r' && sb.data[k + 2] == '\n')
                         || (xdig(sb.data[k + 1]) >= 0
                             && xdig(sb.data[k + 2]) >= 0), "bad escape");
            }
            col++;
        }
        PT_CHECK(t, col == 0, "last line not finished");
        /* model decoding, with CRLF kept */
        E.n = 0;
        for (int k = pfx_len; k < sb.len; k++) {
            if (sb.data[k] == '=') {
                if (sb.data[k + 1] != '\r') {
                    mb_c(&E, xdig(sb.data[k + 1]) << 4 | xdig(sb.data[k + 2]));
                }
                k += 2;
            } else {
                mb_c(&E, sb.data[k]);
            }
        }
        if (M.n != E.n || (M.n && memcmp(M.b, E.b, M.n))) {
            pt_note_hex(t, "encoded", sb.data, sb.len);
            pt_note_hex(t, "decoded", E.b, E.n);
            PT_FAIL(t, "the encoded text does not decode to the input");
        }
        in_wipe(&in);
        if (pt_bool(t)) {
            M.n = 0;
            mb_m(&M, sb.data + pfx_len, sb.len - pfx_len);
            if (pt_bool(t)) {
                mutate(t, &M, "=\r\nA0 ");
            }
        }
        sb_wipe(&sb);
    }
    pt_note_hex(t, "text", M.b, M.n);
    in = in_new(M.b, M.n);
    m_unqpe(&E, M.b, M.n);
    sb_begin(t, &sb);
    sb_add_unqpe(&sb, in.p, in.n);
    sb_is(t, &sb, E.b, E.n, "quoted-printable decoding");
    sb_wipe(&sb);
    in_wipe(&in);
}

/* }}} */
/* {{{ XML */

/* -1: error, 0: ok, 1: not specified */
static int m_xmlun(mb_t *out, const uint8_t *p, int n)
{
    int i = 0;
    int ret = 0;

    out->n = 0;
    while (i < n) {
        int j;

        if (p[i] == '<') {
            if (i + 4 <= n && !memcmp(p + i, "<!--", 4)) {
                for (j = i + 4; j + 3 <= n && memcmp(p + j, "-->", 3); j++) {
                }
                if (j + 3 > n) {
                    return -1;
                }
                i = j + 3;
                continue;
            }
            if (i + 9 <= n && !memcmp(p + i, "<![CDATA[", 9)) {
                for (j = i + 9; j + 3 <= n && memcmp(p + j, "]]>", 3); j++) {
                }
                if (j + 3 > n) {
                    return -1;
                }
                mb_m(out, p + i + 9, j - i - 9);
                i = j + 3;
                continue;
            }
            return -1;
        }
        if (p[i] != '&') {
            mb_c(out, p[i++]);
            continue;
        }
        for (j = i + 1; j < n && p[j] != ';'; j++) {
        }
        if (j == n) {
            return -1;
        }
        if (j > i + 1 && p[i + 1] == '#') {
            bool hex = p[i + 2] == 'x';
            int64_t v = 0;
            int k = i + 2 + hex;

            if (k == j) {
                return -1;
            }
            /* leading zeroes: not specified */
            if (j - k > (hex ? 6 : 7)) {
                ret = 1;
            }
            for (; k < j; k++) {
                int d = xdig(p[k]);

                if (d < 0 || (!hex && d > 9)) {
                    return -1;
                }
                v = v * (hex ? 16 : 10) + d;
                v = v > 0x7fffffff ? 0x7fffffff : v;
            }
            if (v > 0x10ffff) {
                return -1;
            }
            if (v == 0 || (v >= 0xd800 && v < 0xe000)) {
                ret = 1;
            }
            mb_uc(out, v);
        } else {
            static const char *names[] = { "lt", "gt", "amp", "apos", "quot" };
            int k;

            for (k = 0; k < 5; k++) {
                if ((int)strlen(names[k]) == j - i - 1
                &&  !memcmp(names[k], p + i + 1, j - i - 1))
                {
                    mb_c(out, "<>&'\""[k]);
                    break;
                }
            }
            if (k == 5) {
                return -1;
            }
        }
        i = j + 1;
    }
    return ret;
}

static void run_xml(pt_t *t)
{
    sb_t sb;
    in_t in;
    int exp, got;

    if (pt_bool(t)) {
        gen_text(t, &M, "<>&'\"\r\n\t\x01\x1f\x7f]-", 8);
        pt_note_hex(t, "data", M.b, M.n);
        in = in_new(M.b, M.n);
        sb_begin(t, &sb);
        sb_add_xmlescape(&sb, in.p, in.n);
        PT_CHECK(t, !memcmp(sb.data, pfx, pfx_len), "prefix");
        for (int i = pfx_len; i < sb.len; i++) {
            PT_CHECK(t, !strchr("<>'\"", sb.data[i]) && sb.data[i],
                     "%c not escaped", sb.data[i]);
            PT_CHECK(t, (uint8_t)sb.data[i] >= ' ' || strchr("\t\r\n", sb.data[i]),
                     "character not allowed in XML");
        }
        got = m_xmlun(&E, (uint8_t *)sb.data + pfx_len, sb.len - pfx_len);
        PT_CHECK(t, got == 0, "the escaped text is not well-formed");
        {
            int k = 0;
            for (int i = 0; i < M.n; i++) {
                if (M.b[i] >= ' ' || M.b[i] == '\t' || M.b[i] == '\n'
                ||  M.b[i] == '\r')
                {
                    PT_CHECK(t, k < E.n && E.b[k] == M.b[i],
                             "byte %d not found back", i);
                    k++;
                }
            }
            PT_CHECK(t, k == E.n, "additional characters");
        }
        M.n = 0;
        mb_m(&M, sb.data + pfx_len, sb.len - pfx_len);
        in_wipe(&in);
        sb_wipe(&sb);
        if (M.n) {
            pt_nontrivial(t);
        }
    } else {
        M.n = 0;
        while (pt_more(t, 4)) {
            char buf[64];
            static const uint32_t v[] = {
                1, 0x41, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xffff,
                0x10000, 0xfffff, 999999, 1000000, 0x100000, 0x10ffff,
                0x110000, 0x200000, 9999999, 0xffffff, 0x7fffffff,
                0xffffffff, 0,
            };
            static const char *parts[] = {
                "&", "&#", "&#;", "&#x;", "&#-5;", "&#+5;", "&# 5;", "&#x-1;",
                "&#5a;", "&#xfg;", "&#X41;", "&;", "&lt", "&lt;", "&gt;",
                "&amp;", "&apos;", "&quot;", "&nbsp;", "&ltt;", "&l;", "<",
                "<!", "<!--", "-->", "--", "-", "<!-->", "<!--->", "<![CDATA[",
                "]]>", "]]", "]", ">", "<a>", "a", "bcd", ";", "é",
                "<!-- x -->", "<![CDATA[<&>]]>",
            };
            switch (pt_u(t, 3)) {
              case 0:
                (snprintf)(buf, sizeof(buf), pt_bool(t) ? "&#%u;" : "&#x%x;",
                           pt_pick(t, v));
                mb_s(&M, buf);
                break;
              case 1:
                (snprintf)(buf, sizeof(buf), pt_bool(t) ? "&#%u;" : "&#x%X;",
                           pt_uchar(t));
                mb_s(&M, buf);
                break;
              default:
                mb_s(&M, pt_pick(t, parts));
                break;
            }
        }
    }
    if (pt_bool(t)) {
        mutate(t, &M, "&#;x<>-![]09aF");
    }
    pt_note_hex(t, "text", M.b, M.n);
    in = in_new(M.b, M.n);
    sb_begin(t, &sb);
    exp = m_xmlun(&E, M.b, M.n);
    got = sb_add_xmlunescape(&sb, in.p, in.n);
    if (exp != 1) {
        PT_CHECK(t, (got < 0) == (exp < 0), "unescape returned %d, expected %d",
                 got, exp);
    }
    if (got < 0) {
        pt_label(t, "refused");
        sb_kept(t, &sb, "refused XML");
    } else
    if (exp == 0) {
        sb_is(t, &sb, E.b, E.n, "unescaped XML");
        pt_nontrivial(t);
    }
    in_wipe(&in);
    sb_wipe(&sb);
}

/* }}} */
/* {{{ C escapes, slashes */

static void run_cesc(pt_t *t)
{
    sb_t sb;
    in_t in;

    gen_text(t, &M, "\\\\\\\\\\\\xu01234567nrtabef\"'vF89", 14);
    pt_note_hex(t, "text", M.b, M.n);
    in = in_new(M.b, M.n);
    E.n = 0;
    for (int i = 0; i < M.n; ) {
        static const char from[] = "abetnvfr\\\"'", to[] = "\a\b\e\t\n\v\f\r\\\"'";
        const char *f;
        int c = M.b[i];
        int rest = M.n - i;

        if (c != '\\' || rest < 2) {
            mb_c(&E, c);
            i++;
            continue;
        }
        c = M.b[i + 1];
        if (c && (f = strchr(from, c))) {
            mb_c(&E, to[f - from]);
            i += 2;
            pt_nontrivial(t);
        } else
        if (c >= '0' && c <= '7') {
            int v = 0, k = 0;
            for (k = 0; k < 3 && i + 1 + k < M.n; k++) {
                int d = M.b[i + 1 + k] - '0';
                if (d < 0 || d > 7 || v * 8 + d > 255) {
                    break;
                }
                v = v * 8 + d;
            }
            mb_c(&E, v);
            i += 1 + k;
            pt_nontrivial(t);
        } else
        if (c == 'x' && rest >= 4 && xdig(M.b[i + 2]) >= 0
        &&  xdig(M.b[i + 3]) >= 0)
        {
            mb_c(&E, xdig(M.b[i + 2]) << 4 | xdig(M.b[i + 3]));
            i += 4;
        } else
        if (c == 'u' && rest >= 6 && xdig(M.b[i + 2]) >= 0
        &&  xdig(M.b[i + 3]) >= 0 && xdig(M.b[i + 4]) >= 0
        &&  xdig(M.b[i + 5]) >= 0)
        {
            mb_uc(&E, xdig(M.b[i + 2]) << 12 | xdig(M.b[i + 3]) << 8
                  | xdig(M.b[i + 4]) << 4 | xdig(M.b[i + 5]));
            i += 6;
            pt_label(t, "\\u");
        } else {
            mb_c(&E, '\\');
            i++;
        }
    }
    sb_begin(t, &sb);
    sb_add_unquoted(&sb, in.p, in.n);
    sb_is(t, &sb, E.b, E.n, "unquoted");
    sb_wipe(&sb);

    {   /* slashes with a chosen table; back */
        static const char *tabs[][2] = {
            { "\n\t\"", "nt\"" }, { "\\\n", "\\n" }, { "\x01\xff", "1z" },
            { "", "" }, { "abcdef", "bcdefa" },
        };
        int k = pt_u(t, countof(tabs) - 1);
        const char *from = tabs[k][0], *to = tabs[k][1];
        in_t in2;

        E.n = 0;
        for (int i = 0; i < M.n; i++) {
            const char *f = M.b[i] ? strchr(from, M.b[i]) : NULL;
            if (f) {
                mb_c(&E, '\\');
                mb_c(&E, to[f - from]);
            } else
            if (M.b[i] == '\\') {
                mb_s(&E, "\\\\");
            } else {
                mb_c(&E, M.b[i]);
            }
        }
        sb_begin(t, &sb);
        sb_add_slashes(&sb, in.p, in.n, from, to);
        sb_is(t, &sb, E.b, E.n, "slashes");
        sb_wipe(&sb);
        in2 = in_new(E.b, E.n);
        sb_begin(t, &sb);
        sb_add_unslashes(&sb, in2.p, in2.n, to, from);
        sb_is(t, &sb, M.b, M.n, "slashes removed");
        sb_wipe(&sb);
        in_wipe(&in2);
        /* arbitrary text without its slashes */
        E.n = 0;
        for (int i = 0; i < M.n; i++) {
            const char *f;
            if (M.b[i] != '\\' || i + 1 == M.n) {
                mb_c(&E, M.b[i]);
            } else
            if (M.b[i + 1] && (f = strchr(to, M.b[i + 1]))) {
                mb_c(&E, from[f - to]);
                i++;
            } else
            if (M.b[i + 1] == '\\') {
                mb_c(&E, '\\');
                i++;
            } else {
                mb_c(&E, '\\');
            }
        }
        sb_begin(t, &sb);
        sb_add_unslashes(&sb, in.p, in.n, to, from);
        sb_is(t, &sb, E.b, E.n, "unslashes");
        sb_wipe(&sb);
    }
    in_wipe(&in);
}

/* }}} */
/* {{{ environment */

static void run_env(pt_t *t)
{
    sb_t sb;
    in_t in;
    bool ok = true;
    int got;

    M.n = 0;
    while (pt_more(t, 5)) {
        static const char *parts[] = {
            "$", "${", "}", "\\", "\\\\", "VT_A", "VT_B", "VT_E", "VT_NO", "$VT_A",
            "${VT_A}", "${VT_B}", "$VT_B", "${}", "\\$", "\\$VT_A", "-", "x",
            "_", ".", " ", "$VT_E", "${VT_E}", "$VT_A$VT_B", "\\\\$VT_A",
        };
        mb_s(&M, pt_pick(t, parts));
    }
    pt_note(t, "%.*s", M.n, M.b);
    E.n = 0;
    for (int i = 0; i < M.n && ok; ) {
        int c = M.b[i];

        if (c == '\\' && i + 1 < M.n && (M.b[i + 1] == '\\'
                                         || M.b[i + 1] == '$'))
        {
            mb_c(&E, M.b[i + 1]);
            i += 2;
        } else
        if (c == '$') {
            char name[512];
            int j = i + 1, k = 0;
            const char *v;

            if (j < M.n && M.b[j] == '{') {
                for (j++; j < M.n && M.b[j] != '}'; j++) {
                    name[k++] = M.b[j];
                    if (k > 500) {
                        pt_discard(t);
                        return;
                    }
                }
                if (j == M.n) {
                    ok = false;
                    break;
                }
                j++;
            } else {
                while (j < M.n && (isalnum(M.b[j]) || M.b[j] == '_')) {
                    name[k++] = M.b[j++];
                    if (k > 500) {
                        pt_discard(t);
                        return;
                    }
                }
            }
            name[k] = '\0';
            v = k ? (getenv)(name) : NULL;
            if (!v) {
                ok = false;
                break;
            }
            mb_s(&E, v);
            i = j;
            pt_nontrivial(t);
        } else {
            mb_c(&E, c);
            i++;
        }
    }
    in = in_new(M.b, M.n);
    sb_begin(t, &sb);
    got = sb_add_expandenv(&sb, in.p, in.n);
    PT_CHECK(t, (got >= 0) == ok, "returned %d, expected %s", got,
             ok ? "success" : "failure");
    if (ok) {
        sb_is(t, &sb, E.b, E.n, "expanded");
    } else {
        pt_label(t, "refused");
        sb_kept(t, &sb, "refused expansion");
    }
    sb_wipe(&sb);
    in_wipe(&in);
}

/* }}} */
/* {{{ CSV, splits */

static void gen_field(pt_t *t, mb_t *m, int sep)
{
    m->n = 0;
    while (pt_more(t, 3)) {
        switch (pt_u(t, 6)) {
          case 0: mb_c(m, '"'); break;
          case 1: mb_c(m, sep); break;
          case 2: mb_c(m, '\r'); break;
          case 3: mb_c(m, '\n'); break;
          case 4: mb_c(m, pt_u(t, 255)); break;
          default: mb_c(m, 'a' + pt_u(t, 25)); break;
        }
    }
}

static void run_csv(pt_t *t)
{
    static const char seps[] = ",;\t|: ";
    int sep = pt_pick(t, seps);
    int nrec = 1 + pt_u(t, 3), nf[4];
    static mb_t fields[4][6];
    sb_t sb;
    in_t in;
    pstream_t ps;
    qv_t(lstr) v;
    bool last_eol;

    sep = sep ?: ',';
    sb_init(&sb);
    last_eol = pt_bool(t);
    for (int i = 0; i < nrec; i++) {
        nf[i] = 1 + pt_u(t, 5);
        for (int j = 0; j < nf[i]; j++) {
            gen_field(t, &fields[i][j], sep);
            pt_note_hex(t, "field", fields[i][j].b, fields[i][j].n);
            if (j) {
                sb_addc(&sb, sep);
            }
            if (fields[i][j].n) {
                in = in_new(fields[i][j].b, fields[i][j].n);
                pfx_len = sb.len;
                sb_add_csvescape(&sb, sep, in.p, in.n);
                in_wipe(&in);
                if (sb.len - pfx_len != fields[i][j].n) {
                    pt_nontrivial(t);
                }
            }
        }
        if (i + 1 < nrec || last_eol) {
            sb_adds(&sb, pt_bool(t) ? "\r\n" : "\n");
        }
        pt_note(t, "record with %d fields", nf[i]);
    }
    in = in_new(sb.data, sb.len);
    pt_note_hex(t, "csv", sb.data, sb.len);
    ps = ps_init(in.p, in.n);
    for (int i = 0; i < nrec; i++) {
        t_scope;
        bool heap = pt_bool(t);
        pstream_t line;
        const char *start = ps.s;
        int r;

        if (heap) {
            qv_init(&v);
        } else {
            t_qv_init(&v, 2);
        }
        if (ps_done(&ps)) {
            /* last record made of one empty field, without end of line */
            PT_CHECK(t, i == nrec - 1 && nf[i] == 1 && !fields[i][0].n,
                     "record %d missing", i);
            qv_wipe(&v);
            break;
        }
        r = ps_get_csv_line(heap ? NULL : t_pool(), &ps, sep, '"', &v,
                            pt_bool(t) ? &line : NULL);
        PT_CHECK(t, r >= 0, "record %d refused", i);
        PT_CHECK(t, v.len == nf[i], "record %d: %d fields, expected %d", i,
                 v.len, nf[i]);
        PT_CHECK(t, ps.s > start, "no progress");
        for (int j = 0; j < nf[i]; j++) {
            PT_CHECK(t, v.tab[j].len == fields[i][j].n
                     && (!v.tab[j].len || !memcmp(v.tab[j].s, fields[i][j].b,
                                                  v.tab[j].len)),
                     "record %d: field %d differs", i, j);
        }
        if (heap) {
            qv_deep_wipe(&v, lstr_wipe);
        } else {
            qv_wipe(&v);
        }
    }
    PT_CHECK(t, ps_done(&ps), "%d bytes left", (int)ps_len(&ps));
    in_wipe(&in);
    sb_wipe(&sb);
}

static void run_csvraw(pt_t *t)
{
    pstream_t ps, line;
    in_t in;
    int rounds = 0;

    /* arbitrary text: terminates, progresses, stays inside */
    gen_text(t, &M, "\"\",,\r\n\r\n", 8);
    pt_note_hex(t, "text", M.b, M.n);
    in = in_new(M.b, M.n);
    ps = ps_init(in.p, in.n);
    while (!ps_done(&ps)) {
        t_scope;
        qv_t(lstr) v;
        const char *start = ps.s;
        int r;

        t_qv_init(&v, 2);
        r = ps_get_csv_line(t_pool(), &ps, ',', '"', &v, &line);
        PT_CHECK(t, ps.s >= start && ps.s <= ps.s_end
                 && ps.s_end == (char *)in.p + in.n, "stream out of its data");
        if (r < 0) {
            pt_label(t, "refused");
            break;
        }
        /* the line is what was read without its end */
        PT_CHECK(t, line.s == start && line.s_end <= ps.s
                 && ps.s - line.s_end <= 2, "wrong line");
        for (const char *p = line.s_end; p < ps.s; p++) {
            PT_CHECK(t, *p == '\r' || *p == '\n', "the line is cut too early");
        }
        {   /* without quotes, the record is a plain split */
            bool quoted = memchr(line.s, '"', ps_len(&line)) != NULL;
            int n = 1;

            for (const char *p = line.s; p < line.s_end; p++) {
                n += *p == ',';
            }
            PT_CHECK(t, quoted ? v.len <= n && v.len >= 1 : v.len == n,
                     "%d fields, %d expected", v.len, n);
            if (!quoted) {
                const char *p = line.s;
                for (int i = 0; i < n; i++) {
                    const char *e = memchr(p, ',', line.s_end - p);
                    e = e ?: line.s_end;
                    PT_CHECK(t, v.tab[i].len == e - p
                             && (e == p || !memcmp(v.tab[i].s, p, e - p)),
                             "field %d differs", i);
                    p = e + 1;
                }
            } else {
                pt_nontrivial(t);
            }
        }
        qv_wipe(&v);
        PT_CHECK(t, rounds++ < M.n + 1, "too many records");
    }
    in_wipe(&in);
}

static void run_split(pt_t *t)
{
    ctype_desc_t d;
    unsigned flags = pt_bool(t) ? PS_SPLIT_SKIP_EMPTY : 0;
    in_t in;
    static mb_t exp[600];
    int n = 0;
    char esc = pt_p(t, 1, 4) ? '\0' : '\\';
    bool escaped = pt_bool(t);
    bool heap = pt_bool(t);
    t_scope;
    qv_t(lstr) v;

    M.n = 0;
    while (pt_more(t, 12) && M.n < 500) {
        static const char alpha[] = ",,,;;\\\\\\abc";
        mb_c(&M, alpha[pt_u(t, sizeof(alpha) - 2)]);
    }
    pt_note(t, "%.*s flags %u escaped %d esc %d", M.n, M.b, flags, escaped, esc);
    ctype_desc_build(&d, ",;");
#define IS_SEP(c) ((c) == ',' || (c) == ';')
    for (int i = 0; i < countof(exp); i++) {
        exp[i].n = 0;
    }
    {
        bool any = false;
        int i = 0;

        for (i = 0; i < M.n; i++) {
            int c = M.b[i];

            if (escaped && esc && c == esc) {
                if (i + 1 < M.n && (IS_SEP(M.b[i + 1]) || M.b[i + 1] == esc)) {
                    c = M.b[++i];
                    pt_nontrivial(t);
                }
                mb_c(&exp[n], c);
                continue;
            }
            if (IS_SEP(c)) {
                any = true;
                if (!flags || exp[n].n) {
                    n++;
                }
                continue;
            }
            mb_c(&exp[n], c);
        }
        if (escaped) {
            /* the last field is always there, unless empty and skipped */
            if (!flags || exp[n].n) {
                n++;
            }
        } else {
            if (exp[n].n) {
                n++;
            }
            if (any) {
                pt_nontrivial(t);
            }
        }
    }
    in = in_new(M.b, M.n);
    qv_init(&v);
    if (escaped) {
        ps_split_escaped(heap ? NULL : t_pool(), ps_init(in.p, in.n), &d, esc,
                         flags, &v);
    } else {
        heap = false;
        ps_split(ps_init(in.p, in.n), &d, flags, &v);
    }
    PT_CHECK(t, v.len == n, "%d parts, expected %d", v.len, n);
    for (int i = 0; i < n; i++) {
        PT_CHECK(t, v.tab[i].len == exp[i].n
                 && (!exp[i].n || !memcmp(v.tab[i].s, exp[i].b, exp[i].n)),
                 "part %d: %.*s, expected %.*s", i, v.tab[i].len, v.tab[i].s,
                 exp[i].n, exp[i].b);
    }
    if (heap) {
        qv_deep_wipe(&v, lstr_wipe);
    } else {
        qv_wipe(&v);
    }
    in_wipe(&in);
}

/* }}} */
/* {{{ punycode, IDNA */

static int puny_adapt(uint64_t delta, uint64_t np, bool first)
{
    int k = 0;
    delta = first ? delta / 700 : delta / 2;
    delta += delta / np;
    while (delta > 455) {
        delta /= 35;
        k += 36;
    }
    return k + (36 * delta) / (delta + 38);
}

/* RFC 3492, 6.2; returns the number of code points, -1 if malformed */
static int puny_decode(const char *s, int len, uint32_t *out, int max)
{
    int b = 0, n = 0, pos;
    uint64_t cp = 0x80, i = 0;
    int bias = 72;

    for (int j = 0; j < len; j++) {
        if (s[j] == '-') {
            b = j;
        }
    }
    for (int j = 0; j < b; j++) {
        if ((uint8_t)s[j] >= 0x80 || n >= max) {
            return -1;
        }
        out[n++] = s[j];
    }
    pos = b > 0 ? b + 1 : 0;
    while (pos < len) {
        uint64_t oldi = i, w = 1;

        for (int k = 36; ; k += 36) {
            int c, d, tt;
            if (pos >= len) {
                return -1;
            }
            c = s[pos++];
            d = c >= 'a' && c <= 'z' ? c - 'a' : c >= 'A' && c <= 'Z' ? c - 'A'
              : c >= '0' && c <= '9' ? c - '0' + 26 : -1;
            if (d < 0) {
                return -1;
            }
            i += d * w;
            if (i > UINT32_MAX) {
                return -1;
            }
            tt = k <= bias ? 1 : k >= bias + 26 ? 26 : k - bias;
            if (d < tt) {
                break;
            }
            w *= 36 - tt;
            if (w > UINT32_MAX) {
                return -1;
            }
        }
        if (n >= max) {
            return -1;
        }
        bias = puny_adapt(i - oldi, n + 1, oldi == 0);
        cp += i / (n + 1);
        i %= n + 1;
        if (cp > 0x10ffff) {
            return -1;
        }
        memmove(out + i + 1, out + i, (n - i) * sizeof(*out));
        out[i++] = cp;
        n++;
    }
    return n;
}

static uint32_t cps[20000], dec[20000];

static void run_puny(pt_t *t)
{
    int n = 0, r, d;
    sb_t sb;
    bool non_ascii = false, str = pt_bool(t);

    if (pt_p(t, 1, 12)) {
        /* long texts of basic characters: large deltas */
        n = pt_size(t, 9000);
        for (int i = 0; i < n; i++) {
            cps[i] = 'a' + i % 26;
        }
        pt_label(t, "long");
    }
    while (pt_more(t, 6) && n < countof(cps) - 1) {
        cps[n++] = pt_p(t, 1, 6) ? 0x10ffff - pt_u(t, 300)
                 : pt_p(t, 1, 6) ? 0x80 + pt_u(t, 3) : pt_uchar(t);
    }
    if (!n) {
        return;
    }
    M.n = 0;
    for (int i = 0; i < n; i++) {
        non_ascii |= cps[i] >= 0x80;
        mb_uc(&M, cps[i]);
        if (i < 50 || i > n - 50) {
            pt_note(t, "U+%04X", cps[i]);
        }
    }
    sb_begin(t, &sb);
    if (str) {
        in_t in = in_new(M.b, M.n);
        r = sb_add_punycode_str(&sb, (char *)in.p, in.n);
        in_wipe(&in);
    } else {
        r = sb_add_punycode_vec(&sb, cps, n);
    }
    if (r < 0) {
        /* only when the RFC's 32 bits are not enough */
        PT_CHECK(t, n > 1000, "refused");
        pt_label(t, "overflow");
        sb_wipe(&sb);
        return;
    }
    if (non_ascii) {
        pt_nontrivial(t);
    }
    d = puny_decode(sb.data + pfx_len, sb.len - pfx_len, dec, countof(dec));
    PT_CHECK(t, d == n, "decodes to %d code points, expected %d (%.100s)", d, n,
             sb.data + pfx_len);
    for (int i = 0; i < n; i++) {
        PT_CHECK(t, dec[i] == cps[i], "code point %d: U+%04X, expected U+%04X",
                 i, dec[i], cps[i]);
    }
    sb_wipe(&sb);
}

static uint32_t idna_chr(pt_t *t)
{
    switch (pt_u(t, 9)) {
      case 0: return 'A' + pt_u(t, 25);
      case 1: return '0' + pt_u(t, 9);
      case 2: return '-';
      case 3: return 0xc0 + pt_u(t, 0x1e);    /* latin 1 capitals */
      case 4: return 0xe0 + pt_u(t, 0x1e);
      case 5: return 0x430 + pt_u(t, 0x1f);
      case 6: return 0x4e00 + pt_u(t, 0x51a5);
      case 7: return pt_p(t, 1, 6) ? 0xad : pt_p(t, 1, 6) ? 0x200b : 'x';
      default: return 'a' + pt_u(t, 25);
    }
}
static uint32_t idna_low(uint32_t c)
{
    return (c >= 'A' && c <= 'Z') || (c >= 0xc0 && c <= 0xde && c != 0xd7)
        ? c + 32 : c;
}

static void run_idna(pt_t *t)
{
    unsigned flags = pt_u(t, 7);
    int nl = pt_p(t, 1, 10) ? 1 : 2 + pt_u(t, 2);
    bool ok = nl >= 2;
    sb_t sb;
    int r;
    in_t in;
    const char *p;
    static uint32_t lab[4][200];
    static mb_t raw[4];
    int ln[4];
    bool asc[4];

    M.n = 0;
    for (int i = 0; i < nl; i++) {
        static const uint32_t dots[] = { '.', 0x3002, 0xff0e, 0xff61 };
        int n = pt_p(t, 1, 30) ? 0
              : pt_p(t, 1, 8) ? 40 + pt_u(t, 30) : 1 + pt_u(t, 8);
        bool ascii_only = pt_p(t, 1, 3);
        bool std3 = flags & IDNA_USE_STD3_ASCII_RULES;

        if (i) {
            mb_uc(&M, pt_p(t, 1, 4) ? pt_pick(t, dots) : '.');
        }
        ln[i] = 0;
        raw[i].n = 0;
        asc[i] = true;
        for (int j = 0; j < n; j++) {
            uint32_t c = idna_chr(t);

            if (ascii_only && c >= 0x80) {
                c = 'z';
            }
            if (pt_p(t, 1, 100)) {
                c = "_ !@*"[pt_u(t, 4)];
                ok &= !std3;
            }
            if (pt_p(t, 1, 150) && !ascii_only) {
                static const uint32_t bad[] = {
                    0x80, 0xa0, 0x2028, 0xe000, 0xfffd, 0x1fffe, 0x10fffd,
                };
                c = pt_pick(t, bad);
                ok = false;
            }
            mb_uc(&M, c);
            mb_uc(&raw[i], c);
            if (c >= 0x80) {
                asc[i] = false;
            }
            if (c != 0xad && c != 0x200b) {
                lab[i][ln[i]++] = c;
            }
        }
        if (!ln[i]) {
            ok = false;
        } else
        if (std3 && (lab[i][0] == '-' || lab[i][ln[i] - 1] == '-')) {
            ok = false;
        }
    }
    pt_note(t, "%.*s flags %u", M.n, M.b, flags);
    /* expected labels */
    for (int i = 0; ok && i < nl; i++) {
        bool na = false;

        if (asc[i]) {
            if (ln[i] > 63) {
                ok = false;
            }
            continue;
        }
        for (int j = 0; j < ln[i]; j++) {
            lab[i][j] = idna_low(lab[i][j]);
            na |= lab[i][j] >= 0x80;
        }
        if (!na) {
            ok &= ln[i] <= 63;
        } else
        if (ln[i] >= 4 && lab[i][0] == 'x' && lab[i][1] == 'n'
        &&  lab[i][2] == '-' && lab[i][3] == '-')
        {
            ok = false;
        }
    }
    in = in_new(M.b, M.n);
    sb_begin(t, &sb);
    r = sb_add_idna_domain_name(&sb, (char *)in.p, in.n, flags);
    in_wipe(&in);
    if (!ok) {
        PT_CHECK(t, r < 0, "invalid name accepted");
        pt_label(t, "refused");
        sb_wipe(&sb);
        return;
    }
    if (r < 0) {
        /* a label too long once encoded: encode it alone to know */
        bool too_long = false;
        for (int i = 0; i < nl; i++) {
            if (!asc[i]) {
                sb_t sb2;
                sb_init(&sb2);
                sb_add_punycode_vec(&sb2, lab[i], ln[i]);
                too_long |= sb2.len + 4 > 63;
                sb_wipe(&sb2);
            }
        }
        PT_CHECK(t, too_long, "valid name refused");
        pt_label(t, "too long");
        sb_wipe(&sb);
        return;
    }
    PT_CHECK(t, r == nl, "%d labels, expected %d", r, nl);
    pt_nontrivial(t);
    p = sb.data + pfx_len;
    for (int i = 0; i < nl; i++) {
        const char *e = strchr(p, '.');
        bool na = false;
        int n;

        PT_CHECK(t, (e != NULL) == (i + 1 < nl), "wrong number of labels");
        e = e ?: p + strlen(p);
        PT_CHECK(t, e - p >= 1 && e - p <= 63, "label of %d characters",
                 (int)(e - p));
        if (asc[i]) {
            PT_CHECK(t, e - p == ln[i], "label length");
            for (int j = 0; j < ln[i]; j++) {
                uint32_t c = lab[i][j];
                if (flags & IDNA_ASCII_TOLOWER) {
                    c = idna_low(c);
                }
                PT_CHECK(t, c == (uint8_t)p[j], "ASCII label %d differs", i);
            }
            p = e + 1;
            continue;
        }
        for (int j = 0; j < ln[i]; j++) {
            na |= lab[i][j] >= 0x80;
        }
        if (na) {
            PT_CHECK(t, e - p > 4 && !memcmp(p, "xn--", 4), "no ACE prefix");
            n = puny_decode(p + 4, e - p - 4, dec, countof(dec));
        } else {
            n = e - p;
            for (int j = 0; j < n; j++) {
                dec[j] = (uint8_t)p[j];
            }
        }
        PT_CHECK(t, n == ln[i], "label %d: %d characters, expected %d", i, n,
                 ln[i]);
        for (int j = 0; j < n; j++) {
            PT_CHECK(t, dec[j] == lab[i][j], "label %d differs: U+%04X, "
                     "expected U+%04X", i, dec[j], lab[i][j]);
        }
        p = e + 1;
    }
    sb_wipe(&sb);
}

/* }}} */

void pt_setup(void)
{
    setenv("VT_A", "alpha", 1);
    setenv("VT_B", "b$\\{}", 1);
    setenv("VT_E", "", 1);
    unsetenv("VT_NO");
    unsetenv("VT");
}

const pt_target_t pt_targets[] = {
    { "b64",    run_b64,    150000, 3000000, 0 },
    { "hex",    run_hex,    100000, 1500000, 0 },
    { "url",    run_url,    150000, 2000000, 0 },
    { "qp",     run_qp,     150000, 2500000, 0 },
    { "xml",    run_xml,    200000, 3000000, 20 },
    { "cesc",   run_cesc,   150000, 2000000, 0 },
    { "env",    run_env,    100000, 1500000, 0 },
    { "csv",    run_csv,    150000, 2500000, 0 },
    { "csvraw", run_csvraw, 100000, 2000000, 10 },
    { "split",  run_split,  100000, 2000000, 0 },
    { "puny",   run_puny,   100000, 1500000, 0 },
    { "idna",   run_idna,   100000, 2000000, 0 },
};
const int pt_targets_len = countof(pt_targets);
