/* HPACK (RFC 7541), against a reference codec written from the RFC. */
#include <lib-common/core.h>
#include <lib-common/net/hpack.h>
#include <lib-common/net/hpack-priv.h>
#include "pt.h"
#include "hpack_tab.h"

const char pt_rule[] =
    "huff: strings and bit sequences through the Huffman coder; int: "
    "integers of every prefix and their damaged codings; enc: histories of "
    "header lists, flags and table size updates given to the encoder and "
    "decoded by a reference decoder; dec: header blocks of a reference "
    "encoder (any representation) given to the decoder; bad: damaged blocks, "
    "the verdict and the headers must be those of the reference. "
    "non-trivial: a dynamic table entry is used, evicted or a coding refused";

#define U(n)       pt_u(t, (n) - 1)
#define P(n)       pt_p(t, (n), 100)

void pt_setup(void)
{
    e_set_verbosity(-1);
}

/* {{{ reference */

typedef struct bs_t {
    unsigned char *d;
    int len;
} bs_t;

/* memory of a case, released when the next one starts */
static void *arena[8192];
static int arena_n;

static void m_reset(void)
{
    while (arena_n) {
        (free)(arena[--arena_n]);
    }
}

static void *m_alloc(int len)
{
    void *p = (malloc)(len ? len : 1);

    if (arena_n == countof(arena)) {
        abort();
    }
    arena[arena_n++] = p;
    return p;
}

static bs_t m_dup(const void *d, int len)
{
    bs_t s = { m_alloc(len), len };

    memcpy(s.d, d, len);
    return s;
}

static bool m_eq(bs_t a, bs_t b)
{
    return a.len == b.len && !memcmp(a.d, b.d, a.len);
}

typedef struct out_t {
    unsigned char *d;
    int len;
    int size;
} out_t;

static void o_byte(out_t *o, int b)
{
    if (o->len == o->size) {
        o->size = o->size * 2 + 64;
        o->d = (realloc)(o->d, o->size);
    }
    o->d[o->len++] = b;
}

static void o_bytes(out_t *o, const void *d, int len)
{
    for (int i = 0; i < len; i++) {
        o_byte(o, ((const unsigned char *)d)[i]);
    }
}

static void m_huff_enc(bs_t s, out_t *o)
{
    unsigned acc = 0;
    int n = 0;

    for (int i = 0; i < s.len; i++) {
        int bits = rfc_huff[s.d[i]].bits;

        while (bits--) {
            acc = acc << 1 | ((rfc_huff[s.d[i]].code >> bits) & 1);
            if (++n == 8) {
                o_byte(o, acc & 0xff);
                n = 0;
                acc = 0;
            }
        }
    }
    if (n) {
        o_byte(o, (acc << (8 - n) | ((1 << (8 - n)) - 1)) & 0xff);
    }
}

/* -1 if invalid */
static int m_huff_dec(const unsigned char *d, int len, out_t *o)
{
    unsigned code = 0;
    int bits = 0;

    for (int i = 0; i < len * 8; i++) {
        code = code << 1 | ((d[i / 8] >> (7 - i % 8)) & 1);
        bits++;
        if (bits < 5) {
            continue;
        }
        if (bits > 30) {
            return -1;
        }
        for (int s = 0; s < 257; s++) {
            if (rfc_huff[s].bits == bits && rfc_huff[s].code == code) {
                if (s == 256) {
                    return -1;
                }
                o_byte(o, s);
                bits = 0;
                code = 0;
                break;
            }
        }
    }
    if (bits > 7 || code != (1u << bits) - 1) {
        return -1;
    }
    return 0;
}

static void m_int_enc(out_t *o, int prefix, int mask, uint64_t v, int extra)
{
    unsigned max = (1u << prefix) - 1;

    if (v < max) {
        o_byte(o, mask | v);
        return;
    }
    o_byte(o, mask | max);
    v -= max;
    while (v >= 128 || extra > 0) {
        if (v < 128) {
            extra--;
        }
        o_byte(o, 0x80 | (v & 0x7f));
        v >>= 7;
    }
    o_byte(o, v);
}

static int m_int_dec(const unsigned char *d, int len, int *pos, int prefix,
                     uint32_t *out)
{
    unsigned max = (1u << prefix) - 1;
    uint64_t v;
    int sh = 0;

    if (*pos >= len) {
        return -1;
    }
    v = d[(*pos)++] & max;
    if (v < max) {
        *out = v;
        return 0;
    }
    for (int i = 0; i < 7; i++) {
        int b;

        if (*pos >= len) {
            return -1;
        }
        b = d[(*pos)++];
        v += (uint64_t)(b & 0x7f) << sh;
        sh += 7;
        if (b < 128) {
            if (v > UINT32_MAX) {
                return -1;
            }
            *out = v;
            return 0;
        }
    }
    return -1;
}

typedef struct hdr_t {
    bs_t k;
    bs_t v;
    int rep;            /* 0x80 indexed, 0x40, 0x10, 0x00 literal */
    int idx;
    bool kz, vz;        /* Huffman */
    int kid, vid;       /* identifiers given to the encoder */
} hdr_t;

typedef struct dyn_t {
    hdr_t e[2048];      /* e[0] is the newest */
    int n;
    uint32_t size;
    uint32_t limit;
    uint32_t max;
    int evicted;
} dyn_t;

static void m_fit(dyn_t *m, uint32_t room)
{
    while (m->n && (uint64_t)m->size + room > m->limit) {
        m->n--;
        m->size -= 32 + m->e[m->n].k.len + m->e[m->n].v.len;
        m->evicted++;
    }
}

static void m_add(dyn_t *m, hdr_t h)
{
    uint32_t sz = 32 + h.k.len + h.v.len;

    m_fit(m, sz);
    if (sz > m->limit) {
        return;
    }
    if (m->n == countof(m->e)) {
        abort();
    }
    memmove(m->e + 1, m->e, m->n * sizeof(m->e[0]));
    m->e[0] = h;
    m->n++;
    m->size += sz;
}

static int m_str_dec(const unsigned char *d, int len, int *pos, bs_t *s,
                     bool *z)
{
    uint32_t n;

    if (*pos >= len) {
        return -1;
    }
    *z = d[*pos] >= 0x80;
    if (m_int_dec(d, len, pos, 7, &n) < 0 || n > (uint32_t)(len - *pos)) {
        return -1;
    }
    if (*z) {
        out_t o = { NULL, 0, 0 };
        int res = m_huff_dec(d + *pos, n, &o);

        *s = m_dup(o.d ? (void *)o.d : "", o.len);
        (free)(o.d);
        if (res < 0) {
            return -1;
        }
    } else {
        *s = m_dup(d + *pos, n);
    }
    *pos += n;
    return 0;
}

static int m_dts_dec(dyn_t *m, const unsigned char *d, int len, int *pos)
{
    uint32_t v;

    if (*pos >= len || (d[*pos] & 0xe0) != 0x20) {
        return 0;
    }
    if (m_int_dec(d, len, pos, 5, &v) < 0 || v > m->max) {
        return -1;
    }
    m->limit = v;
    m_fit(m, 0);
    return 1;
}

/* next header of a block */
static int m_hdr_dec(dyn_t *m, const unsigned char *d, int len, int *pos,
                     hdr_t *h)
{
    int b = d[*pos];
    uint32_t idx;
    int prefix;

    p_clear(h, 1);
    h->rep = b >= 0x80 ? 0x80 : b >= 0x40 ? 0x40 : b & 0xf0;
    if (h->rep == 0x20 || h->rep == 0x30) {
        return -1;
    }
    prefix = h->rep == 0x80 ? 7 : h->rep == 0x40 ? 6 : 4;
    if (m_int_dec(d, len, pos, prefix, &idx) < 0) {
        return -1;
    }
    h->idx = idx > 1 << 30 ? 1 << 30 : idx;
    if (!idx) {
        if (h->rep == 0x80 || m_str_dec(d, len, pos, &h->k, &h->kz) < 0) {
            return -1;
        }
    } else
    if (idx <= 61) {
        h->k = m_dup(rfc_static[idx].k, strlen(rfc_static[idx].k));
        h->v = m_dup(rfc_static[idx].v, strlen(rfc_static[idx].v));
    } else
    if (idx - 62 < (uint32_t)m->n) {
        h->k = m->e[idx - 62].k;
        h->v = m->e[idx - 62].v;
    } else {
        return -1;
    }
    if (h->rep != 0x80 && m_str_dec(d, len, pos, &h->v, &h->vz) < 0) {
        return -1;
    }
    if (h->rep == 0x40) {
        m_add(m, *h);
    }
    return 0;
}

/* }}} */
/* {{{ generation */

static bs_t gen_str(pt_t *t, bool key)
{
    int len;
    bs_t s;

    switch (U(8)) {
      case 0: {
        int i = 1 + U(61);
        const char *p = key ? rfc_static[i].k : rfc_static[i].v;

        s = m_dup(p, strlen(p));
        if (P(20) && s.len) {
            s.d[U(s.len)] ^= 1 << U(6);
        }
        return s;
      }
      case 1:
        len = pt_size(t, 400);
        break;
      default:
        len = pt_size(t, 24);
        break;
    }
    s.len = len;
    s.d = m_alloc(len);
    switch (U(3)) {
      case 0:
        pt_fill(t, s.d, len);
        break;
      case 1:
        for (int i = 0; i < len; i++) {
            s.d[i] = "0123456789abcdefghijklmnopqrstuvwxyzABCDEFGH-_ /"[U(48)];
        }
        break;
      default:
        memset(s.d, pt_uchar(t), len);
        break;
    }
    return s;
}

/* }}} */
/* {{{ huff, int */

static void run_huff(pt_t *t)
{
    bs_t s;
    out_t o = { NULL, 0, 0 }, r = { NULL, 0, 0 };
    byte *dst;
    int len;

    m_reset();
    s = gen_str(t, U(2));
    m_huff_enc(s, &o);
    pt_note_hex(t, "string", s.d, s.len);
    len = hpack_get_huffman_len(LSTR_DATA_V((char *)s.d, s.len));
    PT_CHECK(t, len == o.len, "Huffman length %d instead of %d", len, o.len);
    PT_CHECK(t, len <= (int)hpack_get_huffman_len_estimate(
                    LSTR_DATA_V((char *)s.d, s.len)), "estimate too small");
    dst = m_alloc(o.len);
    len = hpack_encode_huffman(LSTR_DATA_V((char *)s.d, s.len), dst, o.len);
    PT_CHECK(t, len == o.len && !memcmp(dst, o.d ?: dst, len),
             "wrong Huffman coding");
    if (o.len) {
        /* no more than what is asked for */
        int part = U(o.len + 1);
        byte *p = m_alloc(part);

        len = hpack_encode_huffman(LSTR_DATA_V((char *)s.d, s.len), p, part);
        PT_CHECK(t, len == part && !memcmp(p, o.d, part),
                 "wrong partial Huffman coding");
    }

    if (P(60) && o.len) {
        pt_label(t, "damaged");
        switch (U(4)) {
          case 0:
            o.d[U(o.len)] ^= 1 << U(8);
            break;
          case 1:
            o.len -= 1 + U(MIN(o.len, 3));
            break;
          case 2:
            for (int n = 1 + U(5); n--; ) {
                o_byte(&o, 0xff);
            }
            break;
          default:
            pt_fill(t, o.d, o.len);
            break;
        }
    }
    {
        int res = m_huff_dec(o.d, o.len, &r);
        bs_t in = m_dup(o.d ?: (void *)"", o.len);

        dst = m_alloc(o.len * 2);
        len = hpack_decode_huffman(LSTR_DATA_V((char *)in.d, in.len), dst);
        pt_note_hex(t, "coding", in.d, in.len);
        PT_CHECK(t, (len < 0) == (res < 0),
                 "the coding is %s", len < 0 ? "refused" : "accepted");
        if (res >= 0) {
            PT_CHECK(t, len == r.len && !memcmp(dst, r.d ?: dst, len),
                     "wrong decoded string");
        }
        if (o.len > 2) {
            pt_nontrivial(t);
        }
    }
    (free)(o.d);
    (free)(r.d);
}

static void run_int(pt_t *t)
{
    int prefix = 1 + U(8);
    uint32_t v = pt_bits(t, 32), w = 0, x = 0;
    out_t o = { NULL, 0, 0 };
    byte buf[8];
    int len, pos = 0, res;
    pstream_t ps;
    bs_t in;

    m_reset();
    if (P(20)) {
        v = (1u << prefix) - 2 + U(4);
    }
    pt_note(t, "value %u prefix %d", v, prefix);
    m_int_enc(&o, prefix, 0, v, 0);
    len = hpack_encode_int(v, prefix, buf);
    PT_CHECK(t, len == o.len && !memcmp(buf, o.d, len), "wrong coding");
    o.len = 0;
    if (P(50)) {
        m_int_enc(&o, prefix, (U(256) << prefix) & 0xff, v, U(8));
    } else
    if (P(50)) {
        m_int_enc(&o, prefix, 0, (uint64_t)UINT32_MAX + U(300) - 150, U(3));
    } else {
        m_int_enc(&o, prefix, 0, pt_bits(t, 60), 0);
    }
    if (P(20)) {
        o.len -= 1 + U(o.len);
    }
    if (P(30)) {
        o_byte(&o, pt_uchar(t));
    }
    in = m_dup(o.d, o.len);
    pt_note_hex(t, "coding", in.d, in.len);
    res = m_int_dec(o.d, o.len, &pos, prefix, &w);
    ps = ps_init(in.d, in.len);
    len = hpack_decode_int(&ps, prefix, &x);
    PT_CHECK(t, (res < 0) == (len < 0), "integer %s",
             len < 0 ? "refused" : "accepted");
    if (res >= 0) {
        PT_CHECK(t, w == x && ps.b == in.d + pos, "%u instead of %u (%d)",
                 x, w, (int)(ps.b - in.d));
    }
    if (pos > 1) {
        pt_nontrivial(t);
    }
    (free)(o.d);
}

/* }}} */
/* {{{ enc */

static bool key_is(bs_t got, bs_t want, bool lower, bool any)
{
    if (got.len != want.len) {
        return false;
    }
    for (int i = 0; i < got.len; i++) {
        int c = want.d[i];
        int lc = c >= 'A' && c <= 'Z' ? c + 32 : c;

        if (any ? got.d[i] != c && got.d[i] != lc
            : got.d[i] != (lower ? lc : c))
        {
            return false;
        }
    }
    return true;
}

static void run_enc(pt_t *t)
{
    static dyn_t m;
    hpack_enc_dtbl_t enc;
    bs_t keys[8], vals[8];
    bs_t dkeys[8];              /* keys in their only spelling */
    int nk = 1 + U(8), nv = 1 + U(8);
    uint32_t settings = P(70) ? U(400) : pt_bits(t, 13);
    bool used = false;
    uint16_t key_ids[8], val_ids[8];
    int base = P(50) ? U(65500) : 0;

    m_reset();
    p_clear(&m, 1);
    m.max = m.limit = settings;
    hpack_enc_dtbl_init(&enc);
    hpack_enc_dtbl_init_settings(&enc, settings);
    pt_note(t, "settings %u", settings);
    for (int i = 0; i < nk; i++) {
        keys[i] = gen_str(t, true);
        dkeys[i] = m_dup(keys[i].d, keys[i].len);
        for (int j = 0; j < dkeys[i].len; j++) {
            if (dkeys[i].d[j] >= 'A' && dkeys[i].d[j] <= 'Z') {
                dkeys[i].d[j] += 32;
            }
        }
        key_ids[i] = base + i + 1;
    }
    for (int i = 0; i < nv; i++) {
        vals[i] = gen_str(t, false);
        val_ids[i] = base + 1 + i;
    }
    while (pt_more(t, 30)) {
        /* one header, maybe after an update of the size */
        out_t blk = { NULL, 0, 0 };
        int ki = U(nk), vi = U(nv);
        bool own_val = P(80);
        bs_t v = own_val ? vals[vi] : gen_str(t, false);
        uint16_t kid = P(80) ? key_ids[ki] : 0;
        uint16_t vid = own_val && P(75) ? val_ids[vi] : 0;
        unsigned flags = 0;
        bs_t k = keys[ki];
        int room, len, pos = 0, res;
        byte *dst;
        hdr_t h;
        bool add, full, key_match;

        if (P(15)) {
            byte ubuf[HPACK_BUFLEN_INT];
            uint32_t sz;

            /* new settings may be larger or smaller */
            if (P(20)) {
                enc.tbl_size_max = m.max = P(50) ? U(400) : pt_bits(t, 13);
            }
            sz = P(50) ? m.max : U(m.max + 1);
            if (m.limit > m.max || P(50)) {
                pt_note(t, "update %u", sz);
                len = hpack_encoder_write_dts_update(&enc, sz, ubuf);
                PT_CHECK(t, len > 0 && len <= HPACK_BUFLEN_INT, "length");
                o_bytes(&blk, ubuf, len);
                len = 0;
                while ((res = m_dts_dec(&m, blk.d, blk.len, &len)) > 0) {
                }
                PT_CHECK(t, !res && len == blk.len && m.limit == sz,
                         "wrong size update");
                PT_CHECK(t, enc.tbl_size == m.size
                         && hpack_enc_dtbl_get_count(&enc) == m.n,
                         "table after the update: %u bytes, %d entries "
                         "instead of %u, %d", enc.tbl_size,
                         hpack_enc_dtbl_get_count(&enc), m.size, m.n);
            }
            (free)(blk.d);
        }
        if (m.limit > m.max) {
            continue;
        }
        for (int i = 0; i < 11; i++) {
            if (P(i == 6 ? 60 : 15)) {
                flags |= 1u << i;
            }
        }
        if (!(flags & HPACK_FLG_LWR_KEY)) {
            /* otherwise identifiers would mix two spellings */
            k = dkeys[ki];
        }
        room = hpack_buflen_to_write_hdr(LSTR_DATA_V((char *)k.d, k.len),
                                         LSTR_DATA_V((char *)v.d, v.len),
                                         flags);
        dst = m_alloc(room);
        /* what the tables hold */
        full = key_match = false;
        if (!(flags & HPACK_FLG_SKIP_STBL)) {
            for (int i = 1; i <= 61; i++) {
                const char *sk = rfc_static[i].k, *sv = rfc_static[i].v;

                if ((int)strlen(sk) == k.len
                &&  !strncasecmp(sk, (char *)k.d, k.len))
                {
                    key_match = true;
                    full |= (int)strlen(sv) == v.len
                         && !memcmp(sv, v.d, v.len);
                }
            }
        }
        if (kid && !(flags & HPACK_FLG_SKIP_DTBL)) {
            for (int i = 0; i < m.n; i++) {
                if (m.e[i].kid == kid) {
                    key_match = true;
                    full |= vid && m.e[i].vid == vid;
                }
            }
        }
        if (flags & HPACK_FLG_SKIP_VAL) {
            full = false;
        }
        len = hpack_encoder_write_hdr(&enc,
                                      LSTR_DATA_V((char *)k.d, k.len),
                                      LSTR_DATA_V((char *)v.d, v.len),
                                      kid, vid, flags, dst);
        pt_note_hex(t, "key", k.d, k.len);
        pt_note_hex(t, "val", v.d, v.len);
        pt_note(t, "ids %d %d flags %x", kid, vid, flags);
        pt_note_hex(t, "out", dst, len);
        PT_CHECK(t, len > 0 && len <= room, "%d bytes for %d", len, room);
        res = m_hdr_dec(&m, dst, len, &pos, &h);
        PT_CHECK(t, res >= 0, "a peer cannot decode the header");
        PT_CHECK(t, pos == len, "%d bytes, a peer reads %d", len, pos);
        PT_CHECK(t, key_is(h.k, k, flags & HPACK_FLG_LWR_KEY, h.idx),
                 "a peer gets another key");
        PT_CHECK(t, m_eq(h.v, v), "a peer gets another value");
        PT_CHECK(t, enc.tbl_size == m.size
                 && hpack_enc_dtbl_get_count(&enc) == m.n,
                 "table: %u bytes, %d entries instead of %u, %d",
                 enc.tbl_size, hpack_enc_dtbl_get_count(&enc), m.size, m.n);
        PT_CHECK(t, m.size <= m.limit, "table too large");
        if (h.rep == 0x40 && m.n) {
            m.e[0].kid = kid;
            m.e[0].vid = vid;
        }
        PT_CHECK(t, (h.rep == 0x80) == full,
                 full ? "the header of the table is not used"
                 : "a header of the table is used");
        PT_CHECK(t, !!h.idx == (key_match || full), "key of the table");

        /* flags */
        if (h.idx && h.idx <= 61) {
            PT_CHECK(t, !(flags & HPACK_FLG_SKIP_STBL),
                     "the static table is used");
        }
        if (h.idx > 61) {
            PT_CHECK(t, !(flags & HPACK_FLG_SKIP_DTBL) && kid,
                     "the dynamic table is used");
            pt_label(t, h.rep == 0x80 ? "dyn-full" : "dyn-key");
            used = true;
        }
        if (h.rep == 0x80) {
            PT_CHECK(t, !(flags & HPACK_FLG_SKIP_VAL), "value looked for");
        } else {
            add = (flags & HPACK_FLG_ADD_DTBL)
                || (kid && !(flags & (HPACK_FLG_NVRADD_DTBL
                                      | HPACK_FLG_NOADD_DTBL)));
            PT_CHECK(t, (h.rep == 0x40) == add, "representation %x", h.rep);
            if (!add) {
                PT_CHECK(t, (h.rep == 0x10)
                         == !!(flags & HPACK_FLG_NVRADD_DTBL),
                         "representation %x", h.rep);
            }
            if (flags & HPACK_FLG_NOZIP_VAL) {
                PT_CHECK(t, !h.vz, "zipped value");
            } else
            if ((flags & HPACK_FLG_ZIP_VAL) && v.len) {
                PT_CHECK(t, h.vz, "value not zipped");
            }
            if (!h.idx) {
                if (flags & HPACK_FLG_NOZIP_KEY) {
                    PT_CHECK(t, !h.kz, "zipped key");
                } else
                if ((flags & HPACK_FLG_ZIP_KEY) && k.len) {
                    PT_CHECK(t, h.kz, "key not zipped");
                }
            }
        }
    }
    if (used || m.evicted) {
        pt_nontrivial(t);
    }
    if (m.evicted) {
        pt_label(t, "evicted");
    }
    hpack_enc_dtbl_wipe(&enc);
}

/* }}} */
/* {{{ dec, bad */

static void put_str(pt_t *t, out_t *o, bs_t s)
{
    int extra = P(10) ? U(3) : 0;

    if (P(50)) {
        out_t z = { NULL, 0, 0 };

        m_huff_enc(s, &z);
        m_int_enc(o, 7, 0x80, z.len, extra);
        o_bytes(o, z.d, z.len);
        (free)(z.d);
    } else {
        m_int_enc(o, 7, 0, s.len, extra);
        o_bytes(o, s.d, s.len);
    }
}

/* a block of any valid representations for the table m, which follows */
static void gen_block(pt_t *t, dyn_t *m, out_t *o, bool *used)
{
    hdr_t h;

    while (P(12)) {
        m_int_enc(o, 5, 0x20, U(m->max + 1), P(10) ? U(3) : 0);
    }
    /* the reference decoder applies them */
    {
        int pos = 0;

        while (m_dts_dec(m, o->d, o->len, &pos) > 0) {
        }
    }
    while (pt_more(t, 5)) {
        int start = o->len;
        int idx = 0;
        int extra = P(10) ? U(3) : 0;
        static const int reps[] = { 0x80, 0x40, 0x40, 0x40, 0x10, 0x00 };
        int rep = reps[U(6)];

        switch (U(4)) {
          case 0:
            idx = 1 + U(61);
            break;
          case 1:
          case 2:
            if (m->n) {
                idx = 62 + (P(50) ? U(m->n) : U(MIN(m->n, 3)));
                *used = true;
            }
            break;
          default:
            break;
        }
        if (rep == 0x80 && !idx) {
            idx = 1 + U(61);
        }
        m_int_enc(o, rep == 0x80 ? 7 : rep == 0x40 ? 6 : 4, rep, idx, extra);
        if (rep != 0x80) {
            if (!idx) {
                put_str(t, o, gen_str(t, true));
            }
            put_str(t, o, gen_str(t, false));
        }
        if (m_hdr_dec(m, o->d, o->len, &start, &h) < 0 || start != o->len) {
            abort();
        }
    }
}

/* decodes a block like http.c does */
static void check_block(pt_t *t, dyn_t *m, hpack_dec_dtbl_t *dec,
                        const out_t *o, bool *failed)
{
    bs_t blk = m_dup(o->d ?: (void *)"", o->len);
    pstream_t in = ps_init(blk.d, blk.len);
    int pos = 0, res, got;
    hdr_t h;

    pt_note_hex(t, "block", blk.d, blk.len);
    for (;;) {
        res = m_dts_dec(m, blk.d, blk.len, &pos);
        got = hpack_decoder_read_dts_update(dec, &in);
        PT_CHECK(t, res == got, "size update: %d instead of %d", got, res);
        if (res < 0) {
            *failed = true;
            return;
        }
        if (!res) {
            break;
        }
        PT_CHECK(t, in.b == blk.d + pos, "position");
        PT_CHECK(t, dec->tbl_size_limit == m->limit, "limit");
    }
    while (!ps_done(&in)) {
        hpack_xhdr_t x;
        int room, keylen = -1;
        byte *dst = NULL;

        res = m_hdr_dec(m, blk.d, blk.len, &pos, &h);
        room = hpack_decoder_extract_hdr(dec, &in, &x);
        got = -1;
        if (room >= 0) {
            dst = m_alloc(room + 4);
            got = hpack_decoder_write_hdr(dec, &x, dst, &keylen);
            PT_CHECK(t, got <= room + 4, "too many bytes");
        }
        PT_CHECK(t, (res < 0) == (got < 0), "header at %d %s", pos,
                 got < 0 ? "refused" : "accepted");
        if (res < 0) {
            *failed = true;
            return;
        }
        PT_CHECK(t, in.b == blk.d + pos, "position");
        PT_CHECK(t, got == h.k.len + h.v.len + 4 && keylen == h.k.len
                 && !memcmp(dst, h.k.d, h.k.len)
                 && !memcmp(dst + keylen, ": ", 2)
                 && !memcmp(dst + keylen + 2, h.v.d, h.v.len)
                 && !memcmp(dst + got - 2, "\r\n", 2),
                 "another header (%d bytes, key %d, instead of %d, %d)", got,
                 keylen, h.k.len + h.v.len + 4, h.k.len);
        PT_CHECK(t, dec->tbl_size == m->size
                 && hpack_dec_dtbl_get_count(dec) == m->n,
                 "table: %u bytes, %d entries instead of %u, %d",
                 dec->tbl_size, hpack_dec_dtbl_get_count(dec), m->size, m->n);
        /* all entries can still be read */
        for (int i = 0; i < m->n; i++) {
            hpack_dec_dtbl_entry_t *e = hpack_dec_dtbl_get_ent(dec, i);

            PT_CHECK(t, e->key.len == m->e[i].k.len
                     && !memcmp(e->key.s, m->e[i].k.d, e->key.len)
                     && e->val.len == m->e[i].v.len
                     && !memcmp(e->val.s, m->e[i].v.d, e->val.len),
                     "entry %d of the table is another one", i);
        }
    }
    PT_CHECK(t, pos == blk.len, "trailing bytes");
}

static void do_dec(pt_t *t, bool bad)
{
    static dyn_t g, m;
    hpack_dec_dtbl_t dec;
    uint32_t settings = P(70) ? U(400) : pt_bits(t, 13);
    bool failed = false, used = false;

    m_reset();
    p_clear(&g, 1);
    g.max = g.limit = settings;
    hpack_dec_dtbl_init(&dec);
    hpack_dec_dtbl_init_settings(&dec, settings);
    m = g;
    pt_note(t, "settings %u", settings);
    while (!failed && pt_more(t, bad ? 3 : 6)) {
        out_t o = { NULL, 0, 0 };

        gen_block(t, &g, &o, &used);
        if (bad && P(60)) {
            for (int n = 1 + U(2); n--; ) {
                int at = o.len ? U(o.len) : 0;

                switch (U(5)) {
                  case 0:
                    if (o.len) {
                        o.d[at] ^= 1 << U(8);
                    }
                    break;
                  case 1:
                    if (o.len) {
                        o.d[at] = pt_uchar(t);
                    }
                    break;
                  case 2:
                    if (o.len) {
                        o.len = at;
                    }
                    break;
                  case 3:
                    if (o.len) {
                        memmove(o.d + at, o.d + at + 1, o.len - at - 1);
                        o.len--;
                    }
                    break;
                  default:
                    m_int_enc(&o, 1 + U(8), pt_uchar(t), pt_bits(t, 33), 0);
                    break;
                }
            }
        }
        check_block(t, &m, &dec, &o, &failed);
        if (bad) {
            /* the generator goes on from what was decoded */
            g = m;
        }
        (free)(o.d);
    }
    PT_CHECK(t, bad || !failed, "a valid block is refused");
    if (used || m.evicted || failed) {
        pt_nontrivial(t);
    }
    pt_label(t, failed ? "refused" : m.evicted ? "evicted" : "plain");
    hpack_dec_dtbl_wipe(&dec);
}

static void run_dec(pt_t *t)
{
    do_dec(t, false);
}

static void run_bad(pt_t *t)
{
    do_dec(t, true);
}

/* }}} */

const pt_target_t pt_targets[] = {
    { "huff", run_huff, 40000, 4000000 },
    { "int", run_int, 40000, 4000000 },
    { "enc", run_enc, 40000, 4000000 },
    { "dec", run_dec, 25000, 2500000 },
    { "bad", run_bad, 40000, 4000000 },
};
const int pt_targets_len = countof(pt_targets);
