/* HTTP/1 server and client, against a reference reader and writer. */
#include <lib-common/core.h>
#include <lib-common/el.h>
#include <lib-common/http.h>
#include <lib-common/unix.h>
#include <lib-common/container-qvector.h>
#include <sys/socket.h>
#include <zlib.h>
#include "pt.h"

const char pt_rule[] =
    "srv: pipelined requests (bodies with a length, chunked, compressed; any "
    "segmentation; answers in any order and form; early end of connection) "
    "against the requests meant and a reference reader of answers; any, "
    "anyc: damaged request and answer streams, the outcome must not depend on how the stream "
    "is cut; cli: pipelined queries and answers of a reference server in "
    "any form and segmentation, cut at any point. non-trivial: at least two "
    "messages, one with a body, delivered in at least three segments";

#define U(n)       pt_u(t, (n) - 1)
#define P(n)       pt_p(t, (n), 100)

void pt_setup(void)
{
    e_set_verbosity(-1);
}

static void child_init(void)
{
    MODULE_REQUIRE(http);
    e_set_verbosity(-1);
}

static pt_t *cur;

/* {{{ byte buffers of the reference */

typedef struct buf_t {
    char *d;
    int len;
    int size;
} buf_t;

static buf_t *bufs[4096];
static int bufs_n;

static void b_add(buf_t *b, const void *d, int len)
{
    if (!b->size) {
        if (bufs_n == countof(bufs)) {
            abort();
        }
        bufs[bufs_n++] = b;
    }
    if (b->len + len + 1 > b->size) {
        b->size = (b->len + len) * 2 + 64;
        b->d = (realloc)(b->d, b->size);
    }
    if (len) {
        memcpy(b->d + b->len, d, len);
    }
    b->len += len;
    b->d[b->len] = '\0';
}

static void b_adds(buf_t *b, const char *s)
{
    b_add(b, s, strlen(s));
}

__attribute__((format(printf, 2, 3)))
static void b_addf(buf_t *b, const char *fmt, ...)
{
    char tmp[1024];
    va_list ap;

    va_start(ap, fmt);
    (vsnprintf)(tmp, sizeof(tmp), fmt, ap);
    va_end(ap);
    b_adds(b, tmp);
}

static bool b_eq(const buf_t *a, const buf_t *b)
{
    return a->len == b->len && (!a->len || !memcmp(a->d, b->d, a->len));
}

static void b_free_all(void)
{
    while (bufs_n) {
        buf_t *b = bufs[--bufs_n];

        (free)(b->d);
        p_clear(b, 1);
    }
}

/* words separated by single spaces */
static void b_squeeze(buf_t *out, const char *s, int len)
{
    bool sp = true;

    for (int i = 0; i < len; i++) {
        if (strchr(" \t\r\n", s[i]) && s[i]) {
            sp = true;
        } else {
            if (sp && out->len) {
                b_add(out, " ", 1);
            }
            sp = false;
            b_add(out, s + i, 1);
        }
    }
}

static void gen_body(pt_t *t, buf_t *b, bool small)
{
    int len = U(10) ? pt_size(t, 60) : small ? pt_size(t, 2000)
        : pt_size(t, 30000);
    int kind = U(3);
    int c = pt_uchar(t);

    b_add(b, "", 0);
    if (!U(40) && !small) {
        /* compresses a lot */
        len = 60000 + pt_size(t, 400000);
        kind = 2;
    }
    for (int i = 0; i < len; i++) {
        char ch = kind == 0 ? (char)pt_uchar(t)
                : kind == 1 ? "\r\n0a:"[U(5)] : (char)c;

        if (len > 4000 && kind < 2) {
            ch = (i * 7 + i / 256 * c) & 0xff;
        }
        b_add(b, &ch, 1);
    }
}

static void zip(const buf_t *in, buf_t *out, bool gzip)
{
    z_stream s;
    uint8_t tmp[4096];
    int rc;

    memset(&s, 0, sizeof(s));
    if (deflateInit2(&s, 6, Z_DEFLATED, 15 + (gzip ? 16 : 0), 8, 0) != Z_OK) {
        abort();
    }
    s.next_in = (Bytef *)in->d;
    s.avail_in = in->len;
    do {
        s.next_out = tmp;
        s.avail_out = sizeof(tmp);
        rc = deflate(&s, Z_FINISH);
        b_add(out, tmp, sizeof(tmp) - s.avail_out);
    } while (rc != Z_STREAM_END);
    deflateEnd(&s);
}

static void put_chunked(pt_t *t, buf_t *o, const buf_t *body)
{
    int pos = 0;

    while (pos < body->len) {
        int n = P(50) ? 1 + U(body->len - pos) : 1 + U(20);

        if (n > body->len - pos) {
            n = body->len - pos;
        }
        switch (U(6)) {
          case 0:
            b_addf(o, "%X\r\n", n);
            break;
          case 1:
            b_addf(o, "%08x;name=v\r\n", n);
            break;
          case 2:
            b_addf(o, " %x ; x\r\n", n);
            break;
          default:
            b_addf(o, "%x\r\n", n);
            break;
        }
        b_add(o, body->d + pos, n);
        b_adds(o, "\r\n");
        pos += n;
    }
    b_adds(o, P(80) ? "0\r\n" : "000;last\r\n");
    while (P(15)) {
        b_adds(o, "X-Trailer: v\r\n");
    }
    b_adds(o, "\r\n");
}

static void gen_token(pt_t *t, buf_t *b, int min)
{
    int len = min + U(8);

    while (len--) {
        b_add(b, "abcdefghijklmnopqrstuvwxyz0123456789_-"
              + U(38), 1);
    }
}

/* }}} */
/* {{{ model of messages */

typedef struct hdr_t {
    buf_t k;
    buf_t v;
} hdr_t;

typedef struct msg_t {
    int method;
    int code;
    bool v10;
    buf_t path;         /* decoded */
    buf_t vars;
    buf_t host;
    hdr_t h[8];
    int nh;
    buf_t body;
    bool close;
    bool expect;
    bool has_body;
    int clen;           /* value of Content-Length, or -1 */
    int start, end;     /* in the stream */

    /* plan */
    int when;           /* 0: at once, 1: once read, 2: any time, 3: later */
    int form;           /* of the answer */
    int max;            /* for httpd_bufferize, or -1 */
    buf_t answer;
    int acode;
    int sent;           /* bytes of the answer already given */

    /* history */
    int n_cb;
    int n_done;
    int n_wipe;
    buf_t got;
    httpd_query_t *q;
    bool started;
    bool answered;
    bool rejected;
    int n_hdrs;
    int n_100;
    int status;
    httpc_query_t cq;
} msg_t;

static const struct {
    const char *s;
    int m;
    bool body;
} methods[] = {
    { "GET", HTTP_METHOD_GET, false },
    { "POST", HTTP_METHOD_POST, true },
    { "PUT", HTTP_METHOD_PUT, true },
    { "DELETE", HTTP_METHOD_DELETE, false },
    { "PATCH", HTTP_METHOD_PATCH, true },
    { "OPTIONS", HTTP_METHOD_OPTIONS, false },
};

static msg_t ms[8];
static int n_ms;
static buf_t in_stream, out_stream;
static bool cb_echo;
static buf_t trace;
static int live_queries;

/* headers common to both sides; returns the body as sent */
static void put_headers(pt_t *t, msg_t *m, buf_t *o, bool body, bool cdelim)
{
    static buf_t zbody[8];
    const buf_t *raw = &m->body;
    bool chunked = false, zipped = false;
    const char *enc = NULL;
    int n = U(4);
    int at_len = U(n + 1);

    if (body) {
        gen_body(t, &m->body, false);
        if (P(25)) {
            buf_t *z = &zbody[m - ms];

            zipped = true;
            enc = P(50) ? "gzip" : P(50) ? "deflate" : "x-gzip";
            zip(&m->body, z, strcmp(enc, "deflate") != 0);
            raw = z;
        }
        chunked = !cdelim && P(50);
    }
    m->clen = -1;
    for (int i = 0; i <= n; i++) {
        if (i == at_len) {
            static const char *names[] = {
                "Content-Length", "content-length", "CONTENT-LENGTH",
            };

            if (zipped) {
                b_addf(o, "Content-Encoding: %s\r\n", enc);
            }
            if (chunked) {
                b_adds(o, P(50) ? "Transfer-Encoding: chunked\r\n"
                       : "transfer-encoding:Chunked  \r\n");
                b_adds(&m->h[m->nh].k, "transfer-encoding");
                b_adds(&m->h[m->nh++].v, "chunked");
            } else
            if (body && !cdelim) {
                char tmp[16];

                (snprintf)(tmp, sizeof(tmp), "%d", raw->len);
                b_addf(o, "%s: %s\r\n", names[U(3)], tmp);
                b_adds(&m->h[m->nh].k, "content-length");
                b_adds(&m->h[m->nh++].v, tmp);
                m->clen = raw->len;
            }
            if (m->close) {
                const char *v = P(50) ? "close" : "foo, Close";

                b_addf(o, "Connection: %s\r\n", v);
                b_adds(&m->h[m->nh].k, "connection");
                b_adds(&m->h[m->nh++].v, v);
            }
            if (m->expect) {
                b_adds(o, "Expect: 100-continue\r\n");
                b_adds(&m->h[m->nh].k, "expect");
                b_adds(&m->h[m->nh++].v, "100-continue");
            }
        }
        if (i < n) {
            hdr_t *h = &m->h[m->nh++];

            b_adds(&h->k, "x-");
            gen_token(t, &h->k, 1);
            b_add(&h->v, "", 0);
            b_add(o, h->k.d, h->k.len);
            b_adds(o, ":");
            b_adds(o, P(80) ? " " : P(50) ? "" : " \t ");
            for (int w = U(4); w-- > 0; ) {
                buf_t *tok = &h->v;
                int from;

                if (tok->len) {
                    b_adds(o, P(85) ? " " : P(50) ? "\r\n " : "\r\n\t");
                    b_adds(tok, " ");
                }
                from = tok->len;
                gen_token(t, tok, 1);
                if (P(20)) {
                    b_add(tok, &"\x80\"%:;,/\\"[U(8)], 1);
                }
                b_add(o, tok->d + from, tok->len - from);
            }
            b_adds(o, "\r\n");
        }
    }
    b_adds(o, "\r\n");
    if (body) {
        if (chunked) {
            put_chunked(t, o, raw);
        } else {
            b_add(o, raw->d, raw->len);
        }
    }
}

static void gen_path(pt_t *t, msg_t *m, buf_t *o)
{
    static char comps[16][16];
    int n = U(5), depth = 0;
    bool slash;

    for (int i = 0; i < n; i++) {
        b_adds(o, P(90) ? "/" : "//");
        if (P(12)) {
            b_adds(o, "..");
            if (depth) {
                depth--;
            }
            continue;
        }
        if (P(8) && i < n - 1) {
            b_adds(o, ".");
            continue;
        }
        {
            static const char *std[] = { "a", "b", "c" };
            buf_t tok = { NULL, 0, 0 };
            char *c = comps[depth++];

            if (P(70)) {
                (snprintf)(c, 16, "%s", std[U(3)]);
                b_adds(o, c);
            } else {
                int len = 1 + U(6);

                for (int j = 0; j < len; j++) {
                    int ch = "abcd?+ %#&=\x80\xff~"[U(14)];

                    c[j] = ch;
                    if (ch == ' ' && P(50)) {
                        b_adds(o, "+");
                    } else
                    if (strchr("?+ %#", ch) || P(20)) {
                        b_addf(o, P(50) ? "%%%02X" : "%%%02x", ch & 0xff);
                    } else {
                        char cc = ch;

                        b_add(o, &cc, 1);
                    }
                }
                c[len] = '\0';
            }
            (void)tok;
        }
    }
    /* what ends the path decides about a trailing slash */
    slash = !n || (o->len && (o->d[o->len - 1] == '/'));
    if (o->len >= 3 && !memcmp(o->d + o->len - 3, "/..", 3)) {
        slash = true;
    }
    if (P(30) || !n) {
        b_adds(o, "/");
        slash = true;
    }
    for (int i = 0; i < depth; i++) {
        b_addf(&m->path, "/%s", comps[i]);
    }
    if (!depth || slash) {
        b_adds(&m->path, "/");
    }
    b_add(&m->vars, "", 0);
    if (P(30)) {
        b_adds(o, "?");
        for (int i = U(10); i-- > 0; ) {
            b_add(&m->vars, &"ab=&?%/1+"[U(9)], 1);
        }
        b_add(o, m->vars.d, m->vars.len);
    }
}

static void gen_request(pt_t *t, msg_t *m, buf_t *o, bool last)
{
    int k = U(countof(methods));
    bool body = methods[k].body || P(15);

    m->start = o->len;
    while (P(8)) {
        b_adds(o, "\r\n");
    }
    m->method = methods[k].m;
    m->v10 = last && P(10);
    m->close = m->v10 || (last ? P(25) : P(3));
    m->expect = !m->v10 && body && P(10);
    m->has_body = body;
    b_addf(o, "%s ", methods[k].s);
    b_add(&m->host, "", 0);
    if (P(10)) {
        b_addf(o, P(50) ? "http://" : "https://");
        gen_token(t, &m->host, 1);
        b_add(o, m->host.d, m->host.len);
    }
    {
        buf_t *raw = o;
        int from = o->len;
        buf_t tmp = { NULL, 0, 0 };

        tmp.size = 1;           /* not registered */
        tmp.d = (malloc)(1);
        gen_path(t, m, &tmp);
        b_add(raw, tmp.d, tmp.len);
        (free)(tmp.d);
        (void)from;
    }
    b_addf(o, " HTTP/1.%d\r\n", !m->v10);
    if (P(70)) {
        bool set = !m->host.len;
        buf_t h = { (malloc)(1), 0, 1 };

        gen_token(t, &h, 1);
        b_addf(o, "%s: %s\r\n", P(50) ? "Host" : "host", h.d);
        if (set) {
            b_add(&m->host, h.d, h.len);
        }
        (free)(h.d);
    }
    put_headers(t, m, o, body, false);
    m->end = o->len;
}

/* }}} */
/* {{{ reading of a message by the reference */

typedef struct rd_t {
    int code;
    int minor;
    char line[1024];
    hdr_t h[64];
    int nh;
    buf_t body;
    bool close;
    int used;
} rd_t;

static rd_t rd;

static const char *rd_get(const char *name)
{
    for (int i = 0; i < rd.nh; i++) {
        if (!strcasecmp(rd.h[i].k.d, name)) {
            return rd.h[i].v.d;
        }
    }
    return NULL;
}

/* reads a message at the start of b: 1 if complete, 0 if more is needed, -1
 * if it is wrong. */
static int rd_msg(const char *d, int len, bool eof, bool request)
{
    const char *end = d + len;
    const char *p = d, *eol;
    const char *v;

    rd.nh = 0;
    rd.close = false;
    rd.body.len = 0;
    b_add(&rd.body, "", 0);
    for (int line = 0;; line++) {
        int n;

        eol = memmem(p, end - p, "\r\n", 2);
        if (!eol) {
            return 0;
        }
        n = eol - p;
        if (!line) {
            if (n >= (int)sizeof(rd.line)) {
                return -1;
            }
            memcpy(rd.line, p, n);
            rd.line[n] = '\0';
            rd.code = 0;
            if (!request) {
                if (sscanf(rd.line, "HTTP/1.%d %d ", &rd.minor, &rd.code) != 2
                ||  rd.code < 100 || rd.code > 599)
                {
                    return -1;
                }
            }
        } else
        if (!n) {
            p = eol + 2;
            break;
        } else {
            const char *colon = memchr(p, ':', n);
            hdr_t *h = &rd.h[rd.nh];

            if (!colon || colon == p || rd.nh == countof(rd.h)) {
                return -1;
            }
            h->k.len = h->v.len = 0;
            b_add(&h->k, p, colon - p);
            b_add(&h->v, "", 0);
            colon++;
            while (colon < eol && *colon == ' ') {
                colon++;
            }
            b_add(&h->v, colon, eol - colon);
            rd.nh++;
        }
        p = eol + 2;
    }
    if ((v = rd_get("connection")) && strcasestr(v, "close")) {
        rd.close = true;
    }
    if (rd.code / 100 == 1 || rd.code == 204) {
        if (rd_get("content-length") || rd_get("transfer-encoding")) {
            return -1;
        }
        rd.used = p - d;
        return 1;
    }
    if ((v = rd_get("transfer-encoding"))) {
        if (strcmp(v, "chunked") || rd_get("content-length")) {
            return -1;
        }
        for (;;) {
            char *q;
            long n;

            eol = memmem(p, end - p, "\r\n", 2);
            if (!eol) {
                return 0;
            }
            if (!isxdigit(*p)) {
                return -1;
            }
            n = strtol(p, &q, 16);
            if (q != eol) {
                return -1;
            }
            p = eol + 2;
            if (end - p < n + 2) {
                return 0;
            }
            b_add(&rd.body, p, n);
            p += n;
            if (memcmp(p, "\r\n", 2)) {
                return -1;
            }
            p += 2;
            if (!n) {
                break;
            }
        }
    } else
    if ((v = rd_get("content-length"))) {
        char *q;
        long n = strtol(v, &q, 10);

        if (n < 0 || *q) {
            return -1;
        }
        if (end - p < n) {
            return 0;
        }
        b_add(&rd.body, p, n);
        p += n;
    } else
    if (!request) {
        if (!rd.close) {
            return -1;
        }
        if (!eof) {
            return 0;
        }
        b_add(&rd.body, p, end - p);
        p = end;
    }
    rd.used = p - d;
    return 1;
}

/* }}} */
/* {{{ the server */

static const char *trig_paths[] = { "", "a", "a/b", "/c//a/" };
static const char *trig_prefix[] = { "", "/a", "/a/b", "/c/a" };
static httpd_cfg_t *scfg;
static httpd_trigger_t trigs[4];
static int with_trigs;

static msg_t *msg_of(const httpd_query_t *q)
{
    return q->priv;
}

static void srv_on_wipe(httpd_query_t *q)
{
    msg_t *m = msg_of(q);

    live_queries--;
    if (m) {
        m->n_wipe++;
        m->q = NULL;
    }
}

/* gives a part of the answer, all of it if full */
static void srv_answer(pt_t *t, msg_t *m, bool full)
{
    httpd_query_t *q = m->q;
    outbuf_t *ob;

    if (m->form == 3) {
        m->answered = true;
        m->q = NULL;
        httpd_reject_(q, m->acode, "%s", "no");
        return;
    }
    if (m->form == 4) {
        m->answered = true;
        m->q = NULL;
        httpd_reply_202accepted(q);
        return;
    }
    if (!m->started) {
        m->started = true;
        ob = httpd_reply_hdrs_start(q, m->acode, P(20));
        ob_adds(ob, "X-Answer: yes\r\n");
        if (m->form == 0) {
            httpd_reply_hdrs_done(q, m->answer.len, P(50));
        } else {
            httpd_reply_hdrs_done(q, -1, m->form == 2);
        }
    }
    ob = httpd_get_ob(q);
    if (m->form != 2) {
        int mid = m->answer.len / 2;

        ob_add(ob, m->answer.d, mid);
        ob_add(ob, m->answer.d + mid, m->answer.len - mid);
        m->sent = m->answer.len;
    } else {
        do {
            int left = m->answer.len - m->sent;
            int n = full && P(50) ? left : left ? U(left + 1) : 0;

            if (full && !n && left) {
                n = 1 + U(left);
            }

            httpd_reply_chunk_start(q, ob);
            ob_add(ob, m->answer.d + m->sent, n);
            m->sent += n;
            httpd_reply_chunk_done(q, ob);
        } while (full && m->sent < m->answer.len);
    }
    if (m->sent == m->answer.len && (full || m->form != 2 || P(50))) {
        m->answered = true;
        m->q = NULL;
        httpd_reply_done(q);
    }
}

static void srv_on_data(httpd_query_t *q, pstream_t ps)
{
    msg_t *m = msg_of(q);

    b_add(&m->got, ps.s, ps_len(&ps));
}

static void srv_on_done(httpd_query_t *q)
{
    msg_t *m = msg_of(q);

    m->n_done++;
    if (m->max >= 0) {
        b_add(&m->got, q->payload.data, q->payload.len);
    }
    if (m->when == 1) {
        srv_answer(cur, m, true);
    }
}

static bool hdrs_are(const http_qhdr_t *h, int n, const msg_t *m)
{
    if (n != m->nh) {
        return false;
    }
    for (int i = 0; i < n; i++) {
        buf_t tmp = { (malloc)(1), 0, 1 };
        bool ok;

        b_squeeze(&tmp, h[i].val.s, ps_len(&h[i].val));
        b_add(&tmp, "", 0);
        ok = ps_len(&h[i].key) == (size_t)m->h[i].k.len
            && !strncasecmp(h[i].key.s, m->h[i].k.d, m->h[i].k.len)
            && !strcasecmp(tmp.d, m->h[i].v.d);
        (free)(tmp.d);
        if (!ok) {
            return false;
        }
    }
    return true;
}

static void srv_cb(httpd_trigger_t *trig, httpd_query_t *q,
                   const httpd_qinfo_t *info)
{
    pt_t *t = cur;
    msg_t *m = NULL;
    int idx = 0;

    live_queries++;
    if (cb_echo) {
        abort();
    }
    while (idx < n_ms && ms[idx].n_cb) {
        idx++;
    }
    PT_CHECK(t, idx < n_ms, "a request that was not sent");
    m = &ms[idx];
    m->n_cb++;
    m->q = q;
    q->priv = m;
    pt_note(t, "request %d starts", idx);
    PT_CHECK(t, (int)info->method == m->method, "request %d: method", idx);
    PT_CHECK(t, info->http_version == (m->v10 ? HTTP_1_0 : HTTP_1_1),
             "request %d: version", idx);
    {
        int best = -1;

        for (int i = 0; i < countof(trig_prefix); i++) {
            int l = strlen(trig_prefix[i]);

            if ((with_trigs & (1 << i))
            &&  m->path.len >= l && !memcmp(m->path.d, trig_prefix[i], l)
            &&  (m->path.len == l || m->path.d[l] == '/')
            &&  (best < 0 || l > (int)strlen(trig_prefix[best])))
            {
                best = i;
            }
        }
        PT_CHECK(t, best >= 0 && trig == &trigs[best],
                 "request %d (%s): handler of %s instead of %s", idx,
                 m->path.d, trig_prefix[trig - trigs],
                 best < 0 ? "none" : trig_prefix[best]);
        best = strlen(trig_prefix[best]);
        PT_CHECK(t, ps_memequal(&info->prefix, m->path.d, best),
                 "request %d: prefix", idx);
        PT_CHECK(t, ps_memequal(&info->query, m->path.d + best,
                                m->path.len - best),
                 "request %d: path `%.*s` instead of `%s`", idx,
                 (int)ps_len(&info->query), info->query.s,
                 m->path.d + best);
    }
    PT_CHECK(t, ps_len(&info->vars) == (size_t)m->vars.len
             && !memcmp(info->vars.s ?: "", m->vars.d, m->vars.len),
             "request %d: variables", idx);
    PT_CHECK(t, ps_len(&info->host) == (size_t)m->host.len
             && !memcmp(info->host.s ?: "", m->host.d, m->host.len),
             "request %d: host", idx);
    PT_CHECK(t, hdrs_are(info->hdrs, info->hdrs_len, m),
             "request %d: headers", idx);
    {
        httpd_qinfo_t *dup = httpd_qinfo_dup(info);

        PT_CHECK(t, hdrs_are(dup->hdrs, dup->hdrs_len, m)
                 && ps_len(&dup->query) == ps_len(&info->query)
                 && !memcmp(dup->query.s, info->query.s,
                            ps_len(&info->query))
                 && ps_len(&dup->vars) == ps_len(&info->vars)
                 && ps_len(&dup->host) == ps_len(&info->host)
                 && !memcmp(dup->host.s ?: "", info->host.s ?: "",
                            ps_len(&info->host)),
                 "request %d: wrong copy of the information", idx);
        httpd_qinfo_delete(&dup);
    }
    q->on_done = &srv_on_done;
    if (m->max >= 0) {
        httpd_bufferize(q, m->max);
        if (m->clen > m->max) {
            m->rejected = true;
            m->q = NULL;
            return;
        }
    } else {
        q->on_data = &srv_on_data;
    }
    if (m->when == 0) {
        srv_answer(t, m, true);
    }
}

/* called when the other side does not read */
static void (*on_blocked)(void);

static void srv_reset(void)
{
    n_ms = 0;
    b_free_all();
    p_clear(ms, countof(ms));
    p_clear(&in_stream, 1);
    p_clear(&out_stream, 1);
    p_clear(&trace, 1);
    p_clear(&rd, 1);
    live_queries = 0;
    cb_echo = false;
    on_blocked = NULL;
}

static void srv_cfg(pt_t *t, void (*cb)(httpd_trigger_t *, httpd_query_t *,
                                        const httpd_qinfo_t *))
{
    scfg = httpd_cfg_new();
    scfg->noact_delay = 100000000;
    scfg->header_line_max = 1 << 29;
    scfg->header_size_max = 1 << 29;
    scfg->on_data_threshold = P(50) ? 1 + U(20) : P(50) ? 1 + U(5000)
        : 16 << 10;
    scfg->pipeline_depth = P(50) ? 1 + U(3) : 32;
    scfg->outbuf_max_size = P(30) ? 1 + U(200) : 1 << 20;
    scfg->max_queries = P(15) ? 1 + U(4) : 1024;
    with_trigs = 1 | U(16);
    for (int i = 0; i < countof(trigs); i++) {
        p_clear(&trigs[i], 1);
        trigs[i].refcnt = 1 << 20;
        trigs[i].cb = cb;
        trigs[i].on_query_wipe = &srv_on_wipe;
        if (with_trigs & (1 << i)) {
            for (int k = 0; k < countof(methods); k++) {
                httpd_trigger_register_flags(&scfg->roots[methods[k].m],
                                             trig_paths[i], &trigs[i], true);
            }
        }
    }
}

static int n_disconnect;
static httpd_t *the_httpd;

static void srv_on_disconnect(httpd_t *w)
{
    n_disconnect++;
    the_httpd = NULL;
}

static httpd_t *srv_spawn(int fd)
{
    httpd_t *w = httpd_spawn(fd, scfg);

    n_disconnect = 0;
    the_httpd = w;
    w->on_disconnect = &srv_on_disconnect;
    return w;
}

static int peer = -1;
static bool peer_eof;

static void peer_read(void)
{
    char tmp[65536];

    while (peer >= 0 && !peer_eof) {
        ssize_t n = recv(peer, tmp, sizeof(tmp), MSG_DONTWAIT);

        if (n > 0) {
            b_add(&out_stream, tmp, n);
            continue;
        }
        if (n == 0 || (errno != EAGAIN && errno != EINTR)) {
            peer_eof = true;
        }
        break;
    }
}

static void step(void)
{
    el_loop_timeout(0);
    peer_read();
}

/* lets the other side read what was written, and answer */
static void settle(void)
{
    int n = 6 + in_stream.len / 2000;

    while (n--) {
        step();
    }
}

static void peer_write(const char *d, int len)
{
    for (int spin = 0; len && !peer_eof && spin < 300; spin++) {
        ssize_t n = send(peer, d, len, MSG_DONTWAIT | MSG_NOSIGNAL);

        if (n > 0) {
            d += n;
            len -= n;
            spin = 0;
        } else
        if (errno != EAGAIN && errno != EINTR) {
            break;
        }
        step();
        if (spin > 20 && on_blocked) {
            (*on_blocked)();
        }
    }
}

static void sockets(int fd[2])
{
    if (socketpair(AF_UNIX, SOCK_STREAM, 0, fd) < 0) {
        abort();
    }
    fd_set_features(fd[0], O_NONBLOCK);
    peer = fd[1];
    peer_eof = false;
}

static void srv_on_blocked(void)
{
    for (int i = 0; i < n_ms; i++) {
        if (ms[i].q && (ms[i].when == 2
                        || (ms[i].when == 3 && ms[i].n_done)))
        {
            srv_answer(cur, &ms[i], true);
        }
    }
}

static void run_srv(pt_t *t)
{
    int fd[2];
    int pos = 0, segs = 0, n_exp;
    bool early, closing = false, bodies = false;
    int cut;

    cur = t;
    srv_reset();
    b_add(&in_stream, "", 0);
    b_add(&out_stream, "", 0);
    n_ms = 1 + U(6);
    srv_cfg(t, &srv_cb);
    for (int i = 0; i < n_ms; i++) {
        msg_t *m = &ms[i];

        gen_request(t, m, &in_stream, i == n_ms - 1);
        m->when = U(4);
        m->form = U(10) < 8 ? U(3) : 3 + U(2);
        m->max = (m->when & 1) && P(40) ? m->body.len + U(40) - 10 : -1;
        if (m->max < -1) {
            m->max = 0;
        }
        m->acode = m->form == 4 ? 202 : m->form == 3 ? 400 + U(5)
            : (int []){ 200, 201, 404, 500 }[U(4)];
        if (m->form < 3) {
            gen_body(t, &m->answer, true);
        }
        bodies |= m->has_body;
    }
    pt_note_hex(t, "stream", in_stream.d, MIN(in_stream.len, 2000));
    pt_note(t, "threshold %u depth %u max %u outbuf %u",
            scfg->on_data_threshold, scfg->pipeline_depth, scfg->max_queries,
            scfg->outbuf_max_size);
    early = P(15);
    cut = early ? U(in_stream.len + 1) : in_stream.len;

    sockets(fd);
    srv_spawn(fd[0]);
    on_blocked = &srv_on_blocked;

    while (pos < cut) {
        int n = P(40) ? 1 + U(4) : P(50) ? 1 + U(200) : 1 + U(cut - pos);

        if (n > cut - pos) {
            n = cut - pos;
        }
        if (in_stream.len > 20000 && n < 1000) {
            n = 1 + U(cut - pos);
        }
        peer_write(in_stream.d + pos, n);
        pos += n;
        segs++;
        step();
        if (P(30)) {
            int i = U(n_ms);

            if (ms[i].q && (ms[i].when == 2
                            || (ms[i].when == 3 && ms[i].n_done)))
            {
                srv_answer(t, &ms[i], P(70));
            }
        }
    }
    if (early) {
        close(peer);
        peer = -1;
        pt_label(t, "early-end");
    }
    settle();
    /* all that remains is answered, in any order */
    for (int round = 0; round < 200; round++) {
        bool pending = false;

        step();
        for (int k = U(n_ms), i = 0; i < n_ms; i++) {
            msg_t *m = &ms[(i + k) % n_ms];

            if (m->q && (m->n_done
                         || ((early || round > 100 || m->when == 2)
                             && m->max < 0))
            &&  (m->when >= 2 || early))
            {
                if (!m->n_done) {
                    /* answered before its end */
                    m->when = 2;
                }
                srv_answer(t, m, P(70) || round > 20);
                pending = true;
            }
        }
        if (!pending && round > 22) {
            int seen = 0;

            settle();
            for (int i = 0; i < n_ms; i++) {
                seen += ms[i].q != NULL && ms[i].when >= 2;
            }
            if (!seen) {
                break;
            }
        }
    }
    settle();

    for (int k = 0; k < n_ms; k++) {
        pt_note(t, "request %d: seen %d done %d answered %d "
                "(sent %d of %d) when %d form %d, wiped %d", k,
                ms[k].n_cb, ms[k].n_done, ms[k].answered,
                ms[k].sent, ms[k].answer.len, ms[k].when,
                ms[k].form, ms[k].n_wipe);
    }
    if (the_httpd) {
        pt_note(t, "server: state %d, %d queries, %d done, ob %d, ibuf %d",
                the_httpd->state, the_httpd->queries,
                the_httpd->queries_done, the_httpd->ob.length,
                the_httpd->ibuf.len);
    }
    /* what was expected */
    n_exp = 0;
    {
        int at = 0;
        bool stop = false;

        for (int i = 0; i < n_ms && !stop; i++) {
            msg_t *m = &ms[i];
            bool big;

            if (m->end > cut) {
                break;
            }
            n_exp++;
            stop = m->close || n_exp == (int)scfg->max_queries;
            closing |= stop;
            if (early && (!m->n_cb || !m->n_done)) {
                /* the server may have been waiting for an answer to go */
                break;
            }
            PT_CHECK(t, m->n_cb == 1, "request %d was not seen", i);
            big = m->max >= 0 && (m->clen > m->max || m->body.len > m->max);
            if (!m->has_body) {
                big = false;
            }
            if (m->rejected || (big && m->when != 0 && !m->answered)) {
                m->acode = 413;
                m->form = 3;
            } else
            if (big) {
                /* answered before the body was known to be too large, or
                 * refused before that */
                m->rejected = true;
            }
            if (!big && (m->when == 1 || m->when == 3)) {
                PT_CHECK(t, m->n_done == 1, "request %d: %d ends", i,
                         m->n_done);
                PT_CHECK(t, m->got.len == m->body.len
                         && !memcmp(m->got.d ?: "", m->body.d ?: "",
                                    m->body.len),
                         "request %d: another body (%d bytes instead of %d)",
                         i, m->got.len, m->body.len);
            } else {
                PT_CHECK(t, m->n_done <= 1, "request %d ends twice", i);
            }
            if (early) {
                continue;
            }
            PT_CHECK(t, m->answered || big, "request %d not answered", i);

            /* the answers, in the order of the requests */
            for (bool cont = false;; cont = true) {
                int res = rd_msg(out_stream.d + at, out_stream.len - at,
                                 peer_eof, false);

                if (res <= 0) {
                    pt_note_hex(t, "answers", out_stream.d + at,
                                MIN(out_stream.len - at, 1000));
                }
                PT_CHECK(t, res > 0, "answer %d is %s", i,
                         res ? "invalid" : "incomplete");
                at += rd.used;
                if (rd.code == 100) {
                    PT_CHECK(t, m->expect && !cont, "unexpected 100");
                    m->n_100++;
                    continue;
                }
                break;
            }
            if (m->expect && m->when != 0 && !m->rejected
            &&  m->acode != 413)
            {
                PT_CHECK(t, m->n_100 == 1, "request %d: no 100", i);
            }
            PT_CHECK(t, rd.minor == !m->v10, "answer %d: version", i);
            if (m->rejected && rd.code == 413) {
                continue;
            }
            PT_CHECK(t, rd.code == m->acode, "answer %d: code %d instead of "
                     "%d", i, rd.code, m->acode);
            if (m->form < 3) {
                const char *x = rd_get("x-answer");

                PT_CHECK(t, x && !strcmp(x, "yes"), "answer %d: header", i);
                PT_CHECK(t, b_eq(&rd.body, &m->answer),
                         "answer %d: another body (%d bytes instead of %d)",
                         i, rd.body.len, m->answer.len);
            } else
            if (m->form == 4) {
                PT_CHECK(t, !rd.body.len, "answer %d: body", i);
            }
        }
        if (!early) {
            PT_CHECK(t, at == out_stream.len, "%d bytes after the answers",
                     out_stream.len - at);
            if (closing) {
                PT_CHECK(t, peer_eof, "the connection is not closed");
            }
        }
        for (int i = n_exp; i < n_ms; i++) {
            if (closing) {
                PT_CHECK(t, !ms[i].n_cb, "request after the close");
            }
        }
    }
    if (!early && !closing) {
        PT_CHECK(t, !peer_eof, "the connection is closed");
    }
    if (peer >= 0) {
        close(peer);
        peer = -1;
    }
    settle();
    PT_CHECK(t, n_disconnect == 1, "%d disconnections", n_disconnect);
    PT_CHECK(t, live_queries == 0, "%d queries are leaked", live_queries);
    for (int i = 0; i < n_ms; i++) {
        PT_CHECK(t, ms[i].n_wipe == ms[i].n_cb, "request %d wiped %d times",
                 i, ms[i].n_wipe);
    }
    PT_CHECK(t, scfg->nb_conns == 0, "%u connections", scfg->nb_conns);
    httpd_cfg_delete(&scfg);
    if (n_exp >= 2 && bodies && segs >= 3) {
        pt_nontrivial(t);
    }
}

/* }}} */
/* {{{ any stream */

static buf_t echo_bodies[64];
static int echo_n;

static void echo_on_data(httpd_query_t *q, pstream_t ps)
{
    b_add(&echo_bodies[(intptr_t)q->priv - 1], ps.s, ps_len(&ps));
}

static void echo_on_done(httpd_query_t *q)
{
    buf_t *b = &echo_bodies[(intptr_t)q->priv - 1];
    uint32_t h = 0;
    outbuf_t *ob;

    for (int i = 0; i < b->len; i++) {
        h = h * 31 + (unsigned char)b->d[i];
    }
    b_addf(&trace, "done %d: %d bytes %08x\n", (int)(intptr_t)q->priv,
           b->len, h);
    ob = httpd_reply_hdrs_start(q, 200, false);
    httpd_reply_hdrs_done(q, -1, false);
    ob_addf(ob, "%d %08x", b->len, h);
    httpd_reply_done(q);
}

static void echo_on_wipe(httpd_query_t *q)
{
    /* not for the queries refused before the handler was called */
    if (q->priv) {
        live_queries--;
    }
}

static void echo_cb(httpd_trigger_t *trig, httpd_query_t *q,
                    const httpd_qinfo_t *i)
{
    if (echo_n >= countof(echo_bodies)) {
        httpd_reject(q, FORBIDDEN, "too many");
        return;
    }
    live_queries++;
    q->priv = (void *)(intptr_t)++echo_n;
    b_addf(&trace, "query %d trigger %d method %d version %x\n", echo_n,
           (int)(trig - trigs), i->method, i->http_version);
    b_add(&trace, i->host.s, ps_len(&i->host));
    b_adds(&trace, "|");
    b_add(&trace, i->prefix.s, ps_len(&i->prefix));
    b_adds(&trace, "|");
    b_add(&trace, i->query.s, ps_len(&i->query));
    b_adds(&trace, "|");
    b_add(&trace, i->vars.s, ps_len(&i->vars));
    for (int k = 0; k < i->hdrs_len; k++) {
        b_addf(&trace, "\n%d:", i->hdrs[k].wkhdr);
        b_add(&trace, i->hdrs[k].key.s, ps_len(&i->hdrs[k].key));
        b_adds(&trace, "=");
        b_add(&trace, i->hdrs[k].val.s, ps_len(&i->hdrs[k].val));
    }
    b_addf(&trace, "\nenc %d\n", httpd_qinfo_accept_enc_get(i));
    {
        t_scope;
        pstream_t user, pw, vars = i->vars;
        lstr_t k, v;

        if (t_httpd_qinfo_get_basic_auth(i, &user, &pw) >= 0) {
            b_add(&trace, user.s, ps_len(&user));
            b_adds(&trace, ":");
            b_add(&trace, pw.s, ps_len(&pw));
        }
        while (!ps_done(&vars) && t_ps_get_http_var(&vars, &k, &v) >= 0) {
            b_add(&trace, k.s, k.len);
            b_adds(&trace, "->");
            b_add(&trace, v.s, v.len);
        }
    }
    b_adds(&trace, "\n");
    q->on_data = &echo_on_data;
    q->on_done = &echo_on_done;
}

/* one delivery; the result goes to res */
static void deliver(pt_t *t, bool whole, buf_t *res)
{
    int fd[2];
    int pos = 0;

    p_clear(echo_bodies, countof(echo_bodies));
    echo_n = 0;
    trace.len = 0;
    out_stream.len = 0;
    sockets(fd);
    srv_spawn(fd[0]);
    while (pos < in_stream.len) {
        int n = whole ? in_stream.len - pos
            : P(40) ? 1 + U(4) : P(50) ? 1 + U(200)
            : 1 + U(in_stream.len - pos);

        if (n > in_stream.len - pos) {
            n = in_stream.len - pos;
        }
        if (in_stream.len > 20000 && n < 1000) {
            n = in_stream.len - pos < 1000 ? in_stream.len - pos : 1000;
        }
        peer_write(in_stream.d + pos, n);
        pos += n;
        step();
    }
    settle();
    b_add(res, trace.d ?: "", trace.len);
    b_adds(res, "\n--\n");
    /* without dates */
    for (int i = 0; i < out_stream.len; ) {
        char *eol = memchr(out_stream.d + i, '\n', out_stream.len - i);
        int n = eol ? eol + 1 - (out_stream.d + i) : out_stream.len - i;

        if (strncmp(out_stream.d + i, "Date: ", 6)) {
            b_add(res, out_stream.d + i, n);
        }
        i += n;
    }
    b_adds(res, peer_eof ? "\n-- closed\n" : "\n-- open\n");
    close(peer);
    peer = -1;
    for (int i = 0; i < 4; i++) {
        step();
    }
    PT_CHECK(t, n_disconnect == 1, "%d disconnections", n_disconnect);
    PT_CHECK(t, live_queries == 0, "%d queries are leaked", live_queries);
}

static void damage(pt_t *t)
{
    static const char *bits[] = {
        "\r\n", "\r\n\r\n", "\r", "\n", " ", ":", "0\r\n\r\n", "%", "%0",
        "Content-Length: -5\r\n", "Content-Length: 99999999999\r\n",
        "Content-Length: 5x\r\n", "Content-Length: 3\r\n",
        "Transfer-Encoding: chunked\r\n", "Transfer-Encoding: foo\r\n",
        "Content-Encoding: gzip\r\n", "HTTP/1.1 200 OK\r\n", "HTTP/1.1 100 a\r\n\r\n",
        "HTTP/1.1\r\n", "HTTP/1.1 20", "ffffffff\r\n", "7fffffff\r\n",
        "100000000\r\n", "7ffffffffffffffff\r\n", "-1\r\n", "\xff",
        "Expect: 100-continue\r\n", "Connection: close\r\n",
        "Authorization: Basic YTpi\r\n", "Authorization: Basic !\r\n",
        "Accept-Encoding: gzip;q=0.5, *;q=0\r\n", "?a=b&c=%41", "\t",
        "Accept-Encoding: gzip, deflate;q=0\r\n",
    };

    for (int n = U(4); n-- > 0; ) {
        /* mostly in headers and chunk sizes */
        int at = U(in_stream.len + 1);
        buf_t *b = &in_stream;

        if (P(60)) {
            char *nl = memchr(b->d + at, '\n', b->len - at);

            at = nl ? nl + 1 - b->d : at;
        }
        switch (U(4)) {
          case 0:
            if (at < b->len) {
                b->d[at] ^= 1 << U(8);
            }
            break;
          case 1:
            if (at < b->len) {
                int k = 1 + U(MIN(b->len - at, 6));

                memmove(b->d + at, b->d + at + k, b->len - at - k);
                b->len -= k;
            }
            break;
          default: {
            const char *s = bits[U(countof(bits))];
            int l = strlen(s);

            b_add(b, s, l);
            memmove(b->d + at + l, b->d + at, b->len - l - at);
            memcpy(b->d + at, s, l);
            break;
          }
        }
    }
}

/* errors in compressed bodies may be seen before other errors, or before the
 * whole body is there: the same queries must be seen */
static bool same_queries(const buf_t *a, const buf_t *b)
{
    const char *ea = strstr(a->d, "\n--\n"), *eb = strstr(b->d, "\n--\n");

    return (strstr(a->d, "Invalid compressed data")
            || strstr(b->d, "Invalid compressed data"))
        && ea - a->d == eb - b->d && !memcmp(a->d, b->d, ea - a->d);
}

static void run_any(pt_t *t)
{
    static buf_t r1, r2, r3;

    cur = t;
    srv_reset();
    p_clear(&r1, 1);
    p_clear(&r2, 1);
    p_clear(&r3, 1);
    b_add(&in_stream, "", 0);
    b_add(&out_stream, "", 0);
    n_ms = 1 + U(3);
    srv_cfg(t, &echo_cb);
    for (int i = 0; i < countof(trigs); i++) {
        trigs[i].on_query_wipe = &echo_on_wipe;
    }
    for (int i = 0; i < n_ms; i++) {
        gen_request(t, &ms[i], &in_stream, i == n_ms - 1);
    }
    if (in_stream.len > 30000) {
        pt_discard(t);
        in_stream.len = 30000;
    }
    damage(t);
    pt_note_hex(t, "stream", in_stream.d, MIN(in_stream.len, 2000));
    pt_note(t, "threshold %u", scfg->on_data_threshold);
    deliver(t, true, &r1);
    for (int k = 0; k < 2; k++) {
        r2.len = 0;
        if (P(50)) {
            scfg->on_data_threshold = 1 + U(100);
        }
        deliver(t, false, &r2);
        if (!b_eq(&r1, &r2)) {
            pt_note(t, "-- at once:\n%s\n-- by pieces:\n%s", r1.d, r2.d);
        }
        if (same_queries(&r1, &r2)) {
            pt_label(t, "bad zip");
            break;
        }
        PT_CHECK(t, b_eq(&r1, &r2), "the outcome depends on the segments");
    }
    if (strstr(r1.d, "done")) {
        pt_nontrivial(t);
    }
    pt_label(t, strstr(r1.d, "HTTP/1.1 4") || strstr(r1.d, "HTTP/1.1 5")
             ? "refused" : "accepted");
    httpd_cfg_delete(&scfg);
}

/* }}} */
/* {{{ the client */

static int cli_on_hdrs(httpc_query_t *q)
{
    msg_t *m = container_of(q, msg_t, cq);
    pt_t *t = cur;

    m->n_hdrs++;
    PT_CHECK(t, q->qinfo && (int)q->qinfo->code == m->code,
             "answer %d: code", (int)(m - ms));
    PT_CHECK(t, hdrs_are(q->qinfo->hdrs, q->qinfo->hdrs_len, m),
             "answer %d: headers", (int)(m - ms));
    PT_CHECK(t, ps_strequal(&q->qinfo->reason, "Some Reason"),
             "answer %d: reason", (int)(m - ms));
    return 0;
}

static int cli_on_any_hdrs(httpc_query_t *q)
{
    msg_t *m = container_of(q, msg_t, cq);

    m->n_hdrs++;
    return 0;
}

static int cli_on_data(httpc_query_t *q, pstream_t ps)
{
    msg_t *m = container_of(q, msg_t, cq);

    b_add(&m->got, ps.s, ps_len(&ps));
    return 0;
}

static void cli_on_done(httpc_query_t *q, httpc_status_t status)
{
    msg_t *m = container_of(q, msg_t, cq);

    m->n_done++;
    m->status = status;
    if (m->max >= 0) {
        b_add(&m->got, q->payload.data, q->payload.len);
    }
}

static void cli_body(pt_t *t, msg_t *m)
{
    outbuf_t *ob = httpc_get_ob(&m->cq);

    if (m->form == 2) {
        while (m->sent < m->answer.len) {
            int n = 1 + U(m->answer.len - m->sent);

            httpc_query_chunk_start(&m->cq, ob);
            ob_add(ob, m->answer.d + m->sent, n);
            httpc_query_chunk_done(&m->cq, ob);
            m->sent += n;
        }
    } else {
        ob_add(ob, m->answer.d, m->answer.len);
    }
    httpc_query_done(&m->cq);
}

static void cli_on_100(httpc_query_t *q)
{
    msg_t *m = container_of(q, msg_t, cq);

    m->n_100++;
    cli_body(cur, m);
}

static void run_cli(pt_t *t)
{
    static buf_t uri[8];
    httpc_cfg_t *cfg;
    httpc_t *w;
    int fd[2];
    bool early, last_open = false;
    int cut, pos = 0, at = 0, segs = 0, closer = -1;

    cur = t;
    srv_reset();
    p_clear(uri, countof(uri));
    b_add(&in_stream, "", 0);
    b_add(&out_stream, "", 0);
    n_ms = 1 + U(5);

    cfg = httpc_cfg_new();
    cfg->noact_delay = 100000000;
    cfg->header_line_max = 1 << 29;
    cfg->header_size_max = 1 << 29;
    cfg->pipeline_depth = 16;
    cfg->max_queries = P(20) ? (unsigned)n_ms : 1000;
    cfg->on_data_threshold = P(50) ? 1 + U(20) : P(50) ? 1 + U(5000)
        : 16 << 10;
    sockets(fd);
    w = httpc_spawn(fd[0], cfg, NULL);
    obj_retain(w);

    /* the answers that the reference will give */
    for (int i = 0; i < n_ms; i++) {
        msg_t *m = &ms[i];
        bool last = i == n_ms - 1;
        bool open = last && P(15);

        m->method = U(countof(methods));
        m->form = U(3);
        m->has_body = methods[m->method].body;
        gen_body(t, &m->answer, true);
        if (!m->has_body) {
            m->answer.len = 0;
            m->form = 0;
        }
        m->expect = n_ms == 1 && m->has_body && P(30);
        if (m->expect && m->form == 1) {
            /* the headers leave before the body is known */
            m->form = 2;
        }
        m->max = P(15) ? 1 << 28 : -1;
        m->start = in_stream.len;
        while (P(7) && !m->expect) {
            b_adds(&in_stream, P(50) ? "HTTP/1.1 100 Continue\r\n\r\n"
                   : "HTTP/1.1 102 Processing\r\nX-a: b\r\n\r\n");
        }
        if (m->expect) {
            b_adds(&in_stream, "HTTP/1.1 100 Continue\r\n\r\n");
        }
        m->v10 = P(5);
        m->code = (int []){ 200, 201, 404, 500, 204 }[U(5)];
        m->close = m->expect ? false : open ? P(50) : last ? P(20) : P(4);
        b_addf(&in_stream, "HTTP/1.%d %d Some Reason\r\n", !m->v10, m->code);
        {
            bool exp = m->expect;

            m->expect = false;
            if (m->code == 204) {
                open = false;
            }
            put_headers(t, m, &in_stream, m->code != 204, open);
            m->expect = exp;
        }
        m->end = in_stream.len;
        last_open |= open;
    }
    pt_note_hex(t, "answers", in_stream.d, MIN(in_stream.len, 2000));
    pt_note(t, "threshold %u", cfg->on_data_threshold);

    for (int i = 0; i < n_ms; i++) {
        msg_t *m = &ms[i];
        httpc_query_t *q = &m->cq;

        httpc_query_init(q);
        q->on_hdrs = &cli_on_hdrs;
        q->on_done = &cli_on_done;
        q->on_100cont = &cli_on_100;
        if (m->max >= 0) {
            httpc_bufferize(q, m->max);
        } else {
            q->on_data = &cli_on_data;
        }
        b_adds(&uri[i], "/");
        for (int k = U(10); k-- > 0; ) {
            b_add(&uri[i], &"abc/?&=%+1 \xe9"[U(12)], 1);
        }
        httpc_query_attach(q, w);
        httpc_query_start(q, methods[m->method].m, LSTR("host"),
                          LSTR_DATA_V(uri[i].d, uri[i].len));
        httpc_query_hdrs_adds(q, "X-Test: yes");
        q->expect100cont = m->expect;
        httpc_query_hdrs_done(q, m->form == 0 ? m->answer.len : -1,
                              m->form == 2);
        if (!m->expect) {
            cli_body(t, m);
        }
        if (P(30)) {
            step();
        }
    }
    step();

    early = P(20);
    cut = early ? U(in_stream.len + 1) : in_stream.len;
    if (early) {
        pt_label(t, "early-end");
    }
    while (pos < cut) {
        int n = P(40) ? 1 + U(4) : P(50) ? 1 + U(200) : 1 + U(cut - pos);

        if (n > cut - pos) {
            n = cut - pos;
        }
        if (in_stream.len > 20000 && n < 1000) {
            n = 1 + U(cut - pos);
        }
        peer_write(in_stream.d + pos, n);
        pos += n;
        segs++;
        step();
    }
    settle();
    if (early || last_open) {
        shutdown(peer, SHUT_WR);
        settle();
    }

    for (int i = 0; i < n_ms && closer < 0; i++) {
        if (ms[i].close) {
            closer = i;
        }
    }
    /* queries, as a reference server reads them */
    for (int i = 0; i < n_ms; i++) {
        msg_t *m = &ms[i];
        int res;
        char line[256];
        buf_t enc = { (malloc)(1), 0, 1 };
        const char *x;

        if (closer >= 0 && i > closer) {
            (free)(enc.d);
            break;
        }
        res = rd_msg(out_stream.d + at, out_stream.len - at, true, true);
        if (early && res == 0) {
            /* the connection may have been closed before it was sent */
            (free)(enc.d);
            break;
        }
        PT_CHECK(t, res > 0, "query %d is %s", i,
                 res ? "invalid" : "incomplete");
        at += rd.used;
        PT_CHECK(t, (x = rd_get("x-test")) && !strcmp(x, "yes"),
                 "query %d: header", i);
        PT_CHECK(t, (x = rd_get("host")) && !strcmp(x, "host"),
                 "query %d: host", i);
        if (m->expect) {
            PT_CHECK(t, (x = rd_get("expect")) && !strcmp(x, "100-continue"),
                     "query %d: no Expect", i);
        }
        PT_CHECK(t, b_eq(&rd.body, &m->answer),
                 "query %d: another body (%d bytes instead of %d)", i,
                 rd.body.len, m->answer.len);
        /* the address, decoded */
        {
            const char *p = rd.line;
            int l = strlen(methods[m->method].s);

            PT_CHECK(t, !strncmp(p, methods[m->method].s, l) && p[l] == ' ',
                     "query %d: method", i);
            for (p += l + 1; *p && *p != ' '; p++) {
                char c = *p;

                if (c == '%' && isxdigit(p[1]) && isxdigit(p[2])) {
                    char hex[3] = { p[1], p[2], 0 };

                    c = strtol(hex, NULL, 16);
                    p += 2;
                }
                b_add(&enc, &c, 1);
            }
            PT_CHECK(t, !strcmp(p, " HTTP/1.1"), "query %d: `%s`", i,
                     rd.line);
            PT_CHECK(t, b_eq(&enc, &uri[i]), "query %d: address `%s`", i,
                     rd.line);
        }
        (void)line;
        (free)(enc.d);
    }

    for (int i = 0; i < n_ms; i++) {
        msg_t *m = &ms[i];
        bool open = last_open && i == n_ms - 1;
        bool full = m->end <= cut && (closer < 0 || i <= closer);
        bool seen_hdrs;

        if (!early && !full && closer < 0) {
            abort();
        }
        seen_hdrs = m->n_hdrs > 0;
        PT_CHECK(t, m->n_hdrs <= 1 && m->n_done <= 1, "answer %d twice", i);
        if (full) {
            PT_CHECK(t, m->n_hdrs == 1, "answer %d: not seen", i);
            PT_CHECK(t, m->n_done == 1, "answer %d: %d ends", i, m->n_done);
            PT_CHECK(t, m->status == HTTPC_STATUS_OK, "answer %d: status %d",
                     i, m->status);
            PT_CHECK(t, b_eq(&m->got, &m->body),
                     "answer %d: another body (%d bytes instead of %d)", i,
                     m->got.len, m->body.len);
        } else
        if (early || closer >= 0) {
            if (m->n_done) {
                if (!(open && seen_hdrs)) {
                    PT_CHECK(t, m->status != HTTPC_STATUS_OK,
                             "truncated answer %d is accepted", i);
                }
            } else {
                PT_CHECK(t, !early, "query %d never ends", i);
            }
            PT_CHECK(t, m->got.len <= m->body.len
                     && !memcmp(m->got.d ?: "", m->body.d ?: "", m->got.len),
                     "answer %d: not the start of the body", i);
        }
        if (m->expect && m->end <= cut) {
            PT_CHECK(t, m->n_100 == 1, "100 seen %d times", m->n_100);
        }
    }
    close(peer);
    peer = -1;
    settle();
    for (int i = 0; i < n_ms; i++) {
        PT_CHECK(t, ms[i].n_done == 1, "query %d ended %d times", i,
                 ms[i].n_done);
        httpc_query_wipe(&ms[i].cq);
    }
    PT_CHECK(t, w->refcnt == 1 && !w->ev, "the connection is leaked");
    obj_release(&w);
    httpc_cfg_delete(&cfg);
    if (n_ms >= 2 && segs >= 3) {
        pt_nontrivial(t);
    }
}

/* one delivery of damaged answers; the result goes to res */
static void cli_deliver(pt_t *t, httpc_cfg_t *cfg, bool whole, buf_t *res)
{
    httpc_t *w;
    int fd[2];
    int pos = 0;

    out_stream.len = 0;
    sockets(fd);
    w = httpc_spawn(fd[0], cfg, NULL);
    obj_retain(w);
    for (int i = 0; i < n_ms; i++) {
        msg_t *m = &ms[i];
        httpc_query_t *q = &m->cq;

        m->n_done = m->n_hdrs = 0;
        m->got.len = 0;
        m->max = -1;
        httpc_query_init(q);
        q->on_hdrs = &cli_on_any_hdrs;
        q->on_data = &cli_on_data;
        q->on_done = &cli_on_done;
        httpc_query_attach(q, w);
        httpc_query_start(q, HTTP_METHOD_GET, LSTR("host"), LSTR("/"));
        httpc_query_hdrs_done(q, 0, false);
        httpc_query_done(q);
    }
    step();
    while (pos < in_stream.len) {
        int n = whole ? in_stream.len - pos
            : P(40) ? 1 + U(4) : P(50) ? 1 + U(200)
            : 1 + U(in_stream.len - pos);

        if (n > in_stream.len - pos) {
            n = in_stream.len - pos;
        }
        if (in_stream.len > 20000 && n < 1000) {
            n = in_stream.len - pos < 1000 ? in_stream.len - pos : 1000;
        }
        peer_write(in_stream.d + pos, n);
        pos += n;
        step();
    }
    settle();
    for (int i = 0; i < n_ms; i++) {
        msg_t *m = &ms[i];
        bool ok = m->n_done && m->status == HTTPC_STATUS_OK;

        PT_CHECK(t, m->n_done <= 1 && m->n_hdrs <= 1, "answer %d twice", i);
        b_addf(res, "answer %d: %s\n", i, ok ? "OK" : "not OK");
        if (ok) {
            b_add(res, m->got.d ?: "", m->got.len);
        }
    }
    close(peer);
    peer = -1;
    settle();
    for (int i = 0; i < n_ms; i++) {
        PT_CHECK(t, ms[i].n_done == 1, "query %d ended %d times", i,
                 ms[i].n_done);
        httpc_query_wipe(&ms[i].cq);
    }
    PT_CHECK(t, w->refcnt == 1 && !w->ev, "the connection is leaked");
    obj_release(&w);
}

static void run_anyc(pt_t *t)
{
    static buf_t r1, r2;
    httpc_cfg_t *cfg;

    cur = t;
    srv_reset();
    p_clear(&r1, 1);
    p_clear(&r2, 1);
    b_add(&in_stream, "", 0);
    b_add(&out_stream, "", 0);
    n_ms = 1 + U(3);
    cfg = httpc_cfg_new();
    cfg->noact_delay = 100000000;
    cfg->header_line_max = 1 << 29;
    cfg->header_size_max = 1 << 29;
    cfg->pipeline_depth = 16;
    cfg->max_queries = 1000;
    cfg->on_data_threshold = P(50) ? 1 + U(20) : P(50) ? 1 + U(5000)
        : 16 << 10;
    for (int i = 0; i < n_ms; i++) {
        msg_t *m = &ms[i];

        m->code = (int []){ 200, 201, 404, 500, 204 }[U(5)];
        m->close = P(5);
        b_addf(&in_stream, "HTTP/1.%d %d Some Reason\r\n", !P(5), m->code);
        put_headers(t, m, &in_stream, m->code != 204, false);
    }
    if (in_stream.len > 30000) {
        in_stream.len = 30000;
    }
    damage(t);
    pt_note_hex(t, "stream", in_stream.d, MIN(in_stream.len, 2000));
    pt_note(t, "threshold %u", cfg->on_data_threshold);
    cli_deliver(t, cfg, true, &r1);
    for (int k = 0; k < 2; k++) {
        r2.len = 0;
        if (P(50)) {
            cfg->on_data_threshold = 1 + U(100);
        }
        cli_deliver(t, cfg, false, &r2);
        if (!b_eq(&r1, &r2)) {
            pt_note(t, "-- at once:\n%s\n-- by pieces:\n%s", r1.d, r2.d);
        }
        PT_CHECK(t, b_eq(&r1, &r2), "the outcome depends on the segments");
    }
    if (strstr(r1.d, ": OK")) {
        pt_nontrivial(t);
    }
    pt_label(t, strstr(r1.d, "not OK") ? "refused" : "accepted");
    httpc_cfg_delete(&cfg);
}

/* }}} */

const pt_target_t pt_targets[] = {
    { "srv", run_srv, 60000, 4000000, .child_init = child_init },
    { "any", run_any, 60000, 4000000, .child_init = child_init },
    { "anyc", run_anyc, 60000, 4000000, .child_init = child_init },
    { "cli", run_cli, 60000, 4000000, .child_init = child_init },
};
const int pt_targets_len = countof(pt_targets);
