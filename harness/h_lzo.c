/* LZO and zlib compression. */
#include <lib-common/core.h>
#include <lib-common/qlzo.h>
#include <lib-common/zlib-wrapper.h>
#include "pt.h"

const char pt_rule[] =
    "lzo: data built of literal runs and of copies whose lengths and "
    "distances are drawn around each limit of the format, compressed with a "
    "dirty dictionary, decompressed by both decoders and by an independent "
    "decoder, into exact, larger and too small buffers; lzo_bad: the same, "
    "cut or corrupted, given to the safe decoder; zlib: gzip and deflate "
    "streams, whole and appended to a buffer. non-trivial: the compressed "
    "stream holds at least one match (lzo), at least 100 bytes (zlib)";

static uint8_t data[400000];
static size_t  dlen;

static size_t around(pt_t *t, size_t max)
{
    static const uint32_t lim[] = {
        1, 2, 3, 4, 8, 9, 15, 16, 18, 33, 34, 238, 239, 255, 256, 264, 273,
        289, 510, 0x400, 0x800, 0x801, 0x4000, 0xbfff, 0xc000, 528, 543, 765,
        65535, 65536,
    };
    size_t v;

    if (pt_p(t, 1, 3)) {
        v = pt_u(t, 40);
    } else {
        v = pt_pick(t, lim) + pt_u(t, 6) - 3;
        if ((ssize_t)v < 0) {
            v = 1;
        }
    }
    return v < max ? v : max;
}

static void gen(pt_t *t)
{
    size_t cap = pt_p(t, 1, 4) ? 150000 : pt_p(t, 1, 3) ? 20000 : 600;

    dlen = 0;
    while (pt_more(t, 10)) {
        size_t n;

        switch (pt_u(t, 4)) {
          case 0:  /* literals */
            n = around(t, cap - dlen);
            pt_fill(t, data + dlen, n);
            dlen += n;
            break;
          case 1:  /* a few different bytes */
            n = around(t, cap - dlen);
            {
                uint64_t s = pt_u(t, UINT32_MAX);
                uint8_t m = pt_bool(t) ? 1 : 3;
                for (size_t i = 0; i < n; i++) {
                    data[dlen + i] = 'a' + (pt_splitmix(&s) & m);
                }
            }
            dlen += n;
            break;
          default:  /* a copy */
            if (dlen) {
                size_t back = 1 + around(t, dlen - 1);
                n = around(t, cap - dlen);
                for (size_t i = 0; i < n; i++) {
                    data[dlen + i] = data[dlen + i - back];
                }
                dlen += n;
            }
            break;
        }
    }
}

/* Decoder written from the description of LZO1X. -1: bad stream. */
static int matches;
static uint8_t refo[400000];
static ssize_t ref_decode(const uint8_t *in, size_t ilen, size_t max)
{
    size_t ip = 0, op = 0;
    int state = 0;   /* literals copied by the previous instruction */

#define NEED(n)  do { if (ip + (n) > ilen) return -1; } while (0)
#define LIT(n) \
    do { size_t n_ = (n); NEED(n_); if (op + n_ > max) return -1; \
         memcpy(refo + op, in + ip, n_); ip += n_; op += n_; } while (0)
#define MATCH(d, l) \
    do { size_t d_ = (d), l_ = (l); matches++; \
         if (d_ > op || op + l_ > max) return -1; \
         while (l_--) { refo[op] = refo[op - d_]; op++; } } while (0)
    NEED(1);
    if (in[0] > 17) {
        size_t n = in[ip++] - 17;
        LIT(n);
        state = n < 4 ? n : 4;
    }
    for (;;) {
        uint8_t c, d;
        size_t l, dist;
        bool h;

        NEED(1);
        c = in[ip++];
        if (c >= 64) {
            NEED(1);
            d = in[ip++];
            l = c >= 128 ? 5 + ((c >> 5) & 3) : 3 + ((c >> 5) & 1);
            MATCH((d << 3) + ((c >> 2) & 7) + 1, l);
            state = c & 3;
        } else if (c >= 16) {
            size_t mask = c >= 32 ? 31 : 7;

            h = c < 32 && (c & 8);
            l = c & mask;
            if (!l) {
                for (;;) {
                    NEED(1);
                    if (in[ip]) {
                        break;
                    }
                    l += 255;
                    ip++;
                }
                l += mask + in[ip++];
            }
            l += 2;
            NEED(2);
            dist = (in[ip] | in[ip + 1] << 8) >> 2;
            state = in[ip] & 3;
            ip += 2;
            if (c >= 32) {
                dist += 1;
            } else {
                dist += 16384 + (h << 14);
                if (dist == 16384) {
                    return ip == ilen ? (ssize_t)op : -1;
                }
            }
            MATCH(dist, l);
        } else if (state == 0) {
            l = c;
            if (!l) {
                for (;;) {
                    NEED(1);
                    if (in[ip]) {
                        break;
                    }
                    l += 255;
                    ip++;
                }
                l += 15 + in[ip++];
            }
            LIT(l + 3);
            state = 4;
            continue;
        } else {
            NEED(1);
            d = in[ip++];
            if (state == 4) {
                MATCH((d << 2) + (c >> 2) + 2049, 3);
            } else {
                MATCH((d << 2) + (c >> 2) + 1, 2);
            }
            state = c & 3;
        }
        LIT(state);
    }
}

static uint8_t *cbuf;
static size_t clen;

static void compress_(pt_t *t)
{
    static uint8_t dict[LZO_BUF_MEM_SIZE];
    uint8_t *in = (malloc)(dlen ?: 1);
    size_t cap = lzo_cbuf_size(dlen);
    uint8_t *out = (malloc)(cap);

    if (pt_bool(t)) {
        memset(dict, pt_u(t, 255), sizeof(dict));
    } /* else: what the previous case left */
    memcpy(in, data, dlen);
    clen = qlzo1x_compress(out, cap, ps_init(in, dlen), dict);
    PT_CHECK(t, clen <= cap, "%zu bytes compressed into %zu, more than the "
             "announced %zu", dlen, clen, cap);
    PT_CHECK(t, !memcmp(in, data, dlen), "the source changed");
    (free)(in);
    cbuf = (malloc)(clen + LZO_INPUT_PADDING);
    memcpy(cbuf, out, clen);
    for (int i = 0; i < LZO_INPUT_PADDING; i++) {
        cbuf[clen + i] = 17 * i + 1;
    }
    (free)(out);
}

static void run_lzo(pt_t *t)
{
    ssize_t r;
    size_t ol;
    uint8_t *out, *exact;

    gen(t);
    compress_(t);
    pt_note(t, "%zu bytes -> %zu", dlen, clen);
    pt_note_hex(t, "data", data, dlen < 200 ? dlen : 200);
    pt_note_hex(t, "compressed", cbuf, clen < 200 ? clen : 200);
    matches = 0;
    r = ref_decode(cbuf, clen, sizeof(refo));
    PT_CHECK(t, r == (ssize_t)dlen && !memcmp(refo, data, dlen),
             "the compressed stream does not stand for the data "
             "(independent decoder: %zd of %zu bytes)", r, dlen);
    if (matches) {
        pt_nontrivial(t);
    }
    exact = (malloc)(clen);
    memcpy(exact, cbuf, clen);
    ol = pt_bool(t) ? dlen : dlen + pt_u(t, 50);
    out = (malloc)(ol ?: 1);
    memset(out, 0xA5, ol);
    r = qlzo1x_decompress(out, ol, ps_init(cbuf, clen));
    PT_CHECK(t, r == (ssize_t)dlen && !memcmp(out, data, dlen),
             "decompression gives %zd bytes for %zu", r, dlen);
    memset(out, 0xA5, ol);
    r = qlzo1x_decompress_safe(out, ol, ps_init(exact, clen));
    PT_CHECK(t, r == (ssize_t)dlen && !memcmp(out, data, dlen),
             "safe decompression gives %zd bytes for %zu", r, dlen);
    (free)(out);
    if (dlen) {
        ol = pt_bool(t) ? dlen - 1 : pt_u(t, dlen - 1);
        out = (malloc)(ol ?: 1);
        r = qlzo1x_decompress(out, ol, ps_init(cbuf, clen));
        PT_CHECK(t, r < 0, "%zu bytes decompressed into %zu: %zd", dlen, ol,
                 r);
        r = qlzo1x_decompress_safe(out, ol, ps_init(exact, clen));
        PT_CHECK(t, r < 0, "%zu bytes safely decompressed into %zu: %zd",
                 dlen, ol, r);
        (free)(out);
    }
    (free)(exact);
    (free)(cbuf);
}

static void run_bad(pt_t *t)
{
    ssize_t r;
    size_t ol, n;
    uint8_t *out, *exact;

    gen(t);
    compress_(t);
    n = clen;
    if (pt_bool(t)) {
        n = pt_u(t, clen - 1);
    }
    exact = (malloc)(n ?: 1);
    memcpy(exact, cbuf, n);
    if (n == clen || pt_bool(t)) {
        while (n && pt_more(t, 2)) {
            exact[pt_u(t, n - 1)] = pt_u(t, 255);
        }
    }
    pt_note_hex(t, "stream", exact, n < 300 ? n : 300);
    ol = pt_bool(t) ? dlen : pt_u(t, 2 * dlen + 10);
    out = (malloc)(ol ?: 1);
    r = qlzo1x_decompress_safe(out, ol, ps_init(exact, n));
    PT_CHECK(t, r <= (ssize_t)ol, "%zd bytes written in %zu", r, ol);
    if (n < clen && !memcmp(exact, cbuf, n)) {
        PT_CHECK(t, r < 0, "a cut stream gives %zd bytes", r);
    }
    if (r >= 0) {
        ssize_t r2;

        /* the decoders agree on it */
        uint8_t *pad = (malloc)(n + LZO_INPUT_PADDING);
        uint8_t *out2 = (malloc)(ol ?: 1);
        memcpy(pad, exact, n);
        memset(pad + n, 0, LZO_INPUT_PADDING);
        r2 = qlzo1x_decompress(out2, ol, ps_init(pad, n));
        PT_CHECK(t, r == r2 && !memcmp(out, out2, r), "the decoders disagree "
                 "(%zd, %zd)", r, r2);
        (free)(pad);
        (free)(out2);
        pt_label(t, "still valid");
    } else {
        pt_label(t, "refused");
    }
    pt_nontrivial(t);
    (free)(out);
    (free)(exact);
    (free)(cbuf);
}

static void run_zlib(pt_t *t)
{
    int level = pt_range(t, -1, 9);
    bool gz = pt_bool(t);
    size_t pre = pt_u(t, 20);
    SB_1k(sb);
    z_stream z;
    uint8_t *out;
    ssize_t r;
    int e;

    gen(t);
    if (pt_p(t, 1, 3) && dlen > 10) {
        uint64_t s = pt_u(t, UINT32_MAX);
        for (size_t i = 0; i < dlen; i++) {
            data[i] = pt_splitmix(&s);
        }
    }
    if (dlen >= 100) {
        pt_nontrivial(t);
    }
    pt_note(t, "%zu bytes, level %d, %s after %zu bytes", dlen, level,
            gz ? "gzip" : "deflate", pre);
    for (size_t i = 0; i < pre; i++) {
        sb_addc(&sb, 'p');
    }
    if (pt_p(t, 1, 10)) {
        r = sb_add_compressed(&sb, data, dlen, 10 + (int)pt_u(t, 3), gz);
        PT_CHECK(t, r < 0 && sb.len == (int)pre, "bad level accepted");
    }
    r = sb_add_compressed(&sb, data, dlen, level, gz);
    PT_CHECK(t, r > 0 && r == sb.len - (ssize_t)pre, "%zd bytes added, %d in "
             "the buffer", r, sb.len);
    PT_CHECK(t, sb.data[sb.len] == 0, "terminator");
    for (size_t i = 0; i < pre; i++) {
        PT_CHECK(t, sb.data[i] == 'p', "the prefix changed");
    }
    p_clear(&z, 1);
    e = inflateInit2(&z, MAX_WBITS + (gz ? 16 : 0));
    PT_CHECK(t, e == Z_OK, "inflateInit2");
    out = (malloc)(dlen + 1);
    z.next_in = (Bytef *)sb.data + pre;
    z.avail_in = r;
    z.next_out = out;
    z.avail_out = dlen + 1;
    e = inflate(&z, Z_FINISH);
    PT_CHECK(t, e == Z_STREAM_END && z.total_out == dlen && z.avail_in == 0
             && !memcmp(out, data, dlen), "inflate: %d, %lu of %zu bytes, %u "
             "left", e, z.total_out, dlen, z.avail_in);
    inflateEnd(&z);
    (free)(out);
    sb_wipe(&sb);
}

void pt_setup(void)
{
}

const pt_target_t pt_targets[] = {
    { "lzo", run_lzo, 120000, 2000000, 20 },
    { "lzo_bad", run_bad, 100000, 1500000, 20 },
    { "zlib", run_zlib, 12000, 200000, 10 },
};
const int pt_targets_len = 3;
