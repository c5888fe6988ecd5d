/* IOP binary format: conformance with the documented wire format, round
 * trips, foreign encodings (C01), hostile bytes (C02). */
#include "iopm.h"
#include <lib-common/thr.h>
#include "viop/vt.iop.h"

#ifdef VERIF_C02
const char pt_rule[] =
    "IOP binary decoder on hostile bytes: encodings of generated values with "
    "mutations (bit flips, length/count/tag edits, truncations, splices, "
    "nested repeats), token soups and random bytes, decoded from a buffer of "
    "exactly that size; accepted values are walked entirely and re-encoded; "
    "non-trivial: at least 4 bytes and the input differs from a plain "
    "encoding";
#else
const char pt_rule[] =
    "IOP binary: values generated from the type descriptors (every field "
    "kind, inheritance, recursion, references, defaults, long tags) encoded "
    "by the library and by an independent encoder of the documented wire "
    "format, and decoded back, also from other legal encodings; non-trivial: "
    "the value has at least 4 set fields";
#endif



void pt_setup(void)
{
    vt_setup();
}

static void child_init(void)
{
}
static void child_init_thr(void)
{
    MODULE_REQUIRE(thr);
}

static const iop_struct_t *pick_type(pt_t *t)
{
    return vt_types[pt_u(t, vt_types_len - 1)];
}

static int unpack(const iop_struct_t *d, void **out, const void *p, size_t len, unsigned flags)
{
    if (st_is_class(d)) {
        *out = NULL;
        return iop_bunpack_ptr_flags(t_pool(), d, out, ps_init(p, len), flags);
    }
    *out = mp_imalloc(t_pool(), d->size, 8, MEM_RAW);
    memset(*out, 0xa5, d->size);
    return iop_bunpack_flags(t_pool(), d, *out, ps_init(p, len), flags);
}

static void cmp_bytes(pt_t *t, const char *what, const uint8_t *a, size_t al,
                      const uint8_t *b, size_t bl)
{
    if (al == bl && (!al || !memcmp(a, b, al))) return;
    pt_note_hex(t, "library  ", a, al);
    pt_note_hex(t, "reference", b, bl);
    for (size_t i = 0; i < MIN(al, bl); i++) {
        if (a[i] != b[i]) {
            PT_FAIL(t, "%s: encoding differs from the documented format at byte %zu "
                    "(%02x, expected %02x)", what, i, a[i], b[i]);
        }
    }
    PT_FAIL(t, "%s: encoding of %zu bytes, the documented format gives %zu", what, al, bl);
}

/* exact-size copy, so that the sanitizer sees reads past the end */
static uint8_t *exact(const void *p, size_t n)
{
    return ar_dup(p, n ?: 0);
}

static void do_pack(pt_t *t, const iop_struct_t *d, mst_t *m, unsigned flags)
{
    t_scope;
    void *c = m_to_c(m), *out;
    bb_t ref = { 0 };
    qv_t(i32) szs;
    uint8_t *buf;
    int len;

    m_encode(&ref, m, flags);
    qv_init(&szs);
    len = iop_bpack_size_flags(d, c, flags, &szs);
    PT_CHECK(t, len >= 0, "iop_bpack_size_flags failed on a valid value");
    buf = malloc(len + !len);
    memset(buf, 0xee, len);
    PT_CHECK(t, (size_t)len == ref.len,
             "iop_bpack_size_flags(%x) = %d, the documented format takes %zu bytes",
             flags, len, ref.len);
    iop_bpack(buf, d, c, szs.tab);
    qv_wipe(&szs);
    cmp_bytes(t, "iop_bpack", buf, len, ref.p, ref.len);

    {
        lstr_t s = t_iop_bpack_struct_flags(d, c, flags);
        cmp_bytes(t, "t_iop_bpack_struct_flags", (uint8_t *)s.s, s.len, ref.p, ref.len);
    }

    /* decode */
    for (int copy = 0; copy < 2; copy++) {
        t_scope;
        uint8_t *in = malloc(len + !len);

        memcpy(in, buf, len);
        if (unpack(d, &out, in, len, copy ? IOP_UNPACK_COPY_STRINGS : 0) < 0)
            PT_FAIL(t, "cannot unpack what was packed: %*pM", LSTR_FMT_ARG(iop_get_err_lstr()));
        if (copy) {
            memset(in, 0xdd, len);
            free(in);
            in = NULL;
        }
        if (!(flags & IOP_BPACK_SKIP_PRIVATE))
            m_check_c(t, m, out, "unpacked value");
        else
            c_walk(d, out, &(size_t){ 0 });
        if (in) free(in);
    }
    free(buf);
}

static mgen_t mkgen(pt_t *t)
{
    mgen_t g = { .t = t, .budget = 1 + pt_u(t, 60), .big = 40 };
    return g;
}

static void run_pack(pt_t *t)
{
    mgen_t g = mkgen(t);
    const iop_struct_t *d;
    mst_t *m;
    unsigned flags;

    ar_reset();
    d = pick_type(t);
    flags = pt_u(t, 3);
    flags = (flags & 1 ? IOP_BPACK_SKIP_DEFVAL : 0) | (flags & 2 ? IOP_BPACK_STRICT : 0);
    if (pt_p(t, 1, 4)) flags |= IOP_BPACK_SKIP_PRIVATE;
    if (pt_p(t, 1, 3)) flags |= IOP_BPACK_MONOTHREAD;
    m = mgen(&g, d);
    m_note(t, "value", m);
    if (g.violated) flags &= ~IOP_BPACK_STRICT;
    if (m_count(m) >= 5) pt_nontrivial(t);
    do_pack(t, d, m, flags);
}

/* a private field rejects the message with FORBID_PRIVATE, and only then */
static bool has_priv(const mst_t *m)
{
    const iop_struct_t *lv[16];
    int nl = st_levels(m->desc, lv), k = 0;

    for (int l = 0; l < nl; l++) {
        for (int i = 0; i < lv[l]->fields_len; i++, k++) {
            const iop_field_t *f = &lv[l]->fields[i];
            if (m->f[k].n && field_is_private(lv[l], f)) return true;
            if (f->type == IOP_T_STRUCT || f->type == IOP_T_UNION) {
                for (int j = 0; j < m->f[k].n; j++)
                    if (has_priv(m->f[k].v[j].st)) return true;
            }
        }
    }
    return false;
}

static void run_priv(pt_t *t)
{
    t_scope;
    static const iop_struct_t *const types[] = { &vt__priv__s, &vt__def__s, &vt__all__s };
    mgen_t g = mkgen(t);
    const iop_struct_t *d = pt_pick(t, types);
    unsigned flags = pt_bool(t) ? IOP_BPACK_SKIP_PRIVATE : 0;
    mst_t *m;
    lstr_t s;
    void *out;
    int res;
    bool priv;

    ar_reset();
    m = mgen(&g, d);
    m_note(t, "value", m);
    pt_nontrivial(t);
    s = t_iop_bpack_struct_flags(d, m_to_c(m), flags);
    priv = !flags && has_priv(m);
    res = unpack(d, &out, exact(s.s, s.len), s.len, IOP_UNPACK_FORBID_PRIVATE);
    PT_CHECK(t, (res < 0) == priv, "FORBID_PRIVATE: unpack %s, private fields %s in the message",
             res < 0 ? "failed" : "succeeded", priv ? "are" : "are not");
}

/* other encodings of the same value */
static void run_loose(pt_t *t)
{
    t_scope;
    mgen_t g = mkgen(t);
    const iop_struct_t *d;
    mst_t *m;
    bb_t b = { 0 };
    int feats = 0;
    void *out;

    ar_reset();
    d = pick_type(t);
    m = mgen(&g, d);
    m_note(t, "value", m);
    m_encode_loose(t, &b, m, &feats);
    pt_note_hex(t, "encoding", b.p, b.len);
    if (feats) pt_nontrivial(t);
    if (feats & 1) pt_label(t, "unknown tag");
    if (feats & 2) pt_label(t, "omitted default");
    if (feats & 4) pt_label(t, "omitted struct");
    if (feats & 8) pt_label(t, "repeat");
    if (feats & 16) pt_label(t, "array to scalar");
    if (feats & 32) pt_label(t, "trailing unknown tag");
    if (unpack(d, &out, exact(b.p, b.len), b.len, pt_bool(t) ? IOP_UNPACK_COPY_STRINGS : 0) < 0)
        PT_FAIL(t, "legal encoding refused: %*pM", LSTR_FMT_ARG(iop_get_err_lstr()));
    m_check_c(t, m, out, "value decoded from another legal encoding");
}

/* several unions one after the other */
static void run_multi(pt_t *t)
{
    t_scope;
    static const iop_struct_t *const types[] = {
        &vt__un__s, &vt__un_in__s, &vt__un_tiny__s, &vt__un_void__s,
    };
    mgen_t g = mkgen(t);
    const iop_struct_t *d = pt_pick(t, types);
    mst_t *ms[8];
    size_t ends[8];
    bb_t b = { 0 };
    int n = 1 + pt_u(t, 7);
    pstream_t ps, ps2;
    uint8_t *in;

    ar_reset();
    for (int i = 0; i < n; i++) {
        lstr_t s;

        g.budget = 12;
        ms[i] = mgen(&g, d);
        m_note(t, "value", ms[i]);
        s = t_iop_bpack_struct(d, m_to_c(ms[i]));
        bb_add(&b, s.s, s.len);
        ends[i] = b.len;
    }
    if (n > 1) pt_nontrivial(t);
    in = exact(b.p, b.len);
    ps = ps2 = ps_init(in, b.len);
    for (int i = 0; i < n; i++) {
        size_t start = i ? ends[i - 1] : 0;
        void *out = mp_imalloc(t_pool(), d->size, 8, MEM_RAW);
        ssize_t l = iop_get_field_len(ps);

        PT_CHECK(t, l == (ssize_t)(ends[i] - start),
                 "iop_get_field_len = %zd, the union takes %zu bytes", l, ends[i] - start);
        PT_CHECK(t, iop_bunpack_multi_flags(t_pool(), d, out, &ps, 0) >= 0,
                 "iop_bunpack_multi failed on value %d", i);
        PT_CHECK(t, ps.b == in + ends[i], "iop_bunpack_multi stopped at %zd, expected %zu",
                 ps.b - in, ends[i]);
        m_check_c(t, ms[i], out, "iop_bunpack_multi");
        PT_CHECK(t, iop_bskip(d, &ps2) >= 0, "iop_bskip failed on value %d", i);
        PT_CHECK(t, ps2.b == in + ends[i], "iop_bskip stopped at %zd, expected %zu",
                 ps2.b - in, ends[i]);
    }
}

/* large arrays, packed by several threads */
static void run_thr(pt_t *t)
{
    mgen_t g = mkgen(t);
    static const iop_struct_t *const types[] = {
        &vt__rep__s, &vt__node__s, &vt__objs__s, &vt__all__s,
    };
    const iop_struct_t *d = pt_pick(t, types);
    mst_t *m;
    int k = 0, done = 0;
    const iop_struct_t *lv[16];
    int nl;

    ar_reset();
    iop_bpack_set_threaded_threshold(2 + pt_size(t, 60));
    m = mgen(&g, d);
    /* blow the arrays of structures up by repeating their elements */
    if (d == &vt__all__s) {
        mst_t *r = m->f[3].v[0].st;     /* rep */
        d = r->desc;
        m = r;
    }
    nl = st_levels(m->desc, lv);
    for (int l = 0; l < nl; l++) {
        for (int i = 0; i < lv[l]->fields_len; i++, k++) {
            const iop_field_t *f = &lv[l]->fields[i];
            mfld_t *o = &m->f[k];
            int n;
            mval_t *v;

            if (f->repeat != IOP_R_REPEATED || !o->n
            ||  (f->type != IOP_T_STRUCT && f->type != IOP_T_UNION))
                continue;
            n = pt_bool(t) ? o->n + pt_u(t, 150) : (int)pt_u(t, 1500);
            if (m_count(m) > 20000) n = o->n;
            if (n < o->n) n = o->n;
            v = ar_alloc(n * sizeof(*v));
            for (int j = 0; j < n; j++) v[j] = o->v[j % o->n];
            if (n > 60) done = 1;
            o->v = v;
            o->n = n;
        }
    }
    if (done) pt_nontrivial(t);
    m_note(t, "value", m);
    do_pack(t, d, m, pt_bool(t) ? IOP_BPACK_SKIP_DEFVAL : 0);
}

/* {{{ hostile bytes */

static int nest_g;

static void check_hostile(pt_t *t, const iop_struct_t *d, const uint8_t *p, size_t len)
{
    t_scope;
    uint8_t *in = malloc(len + !len);
    unsigned flags = pt_u(t, 7);
    const char *err;
    void *out, *out2;
    size_t nb = 0;
    lstr_t s, s2;

    flags = (flags & 1 ? IOP_UNPACK_COPY_STRINGS : 0) | (flags & 2 ? IOP_UNPACK_FORBID_PRIVATE : 0);
    memcpy(in, p, len);
    pt_note(t, "type %.*s flags %x", d->fullname.len, d->fullname.s, flags);
    pt_note_hex(t, "bytes", p, len);
    if (d->is_union) {
        pstream_t ps = ps_init(in, len), ps0 = ps;
        void *o = mp_imalloc(t_pool(), d->size, 8, MEM_RAW);
        pstream_t sk = ps;
        int r = iop_bunpack_multi_flags(t_pool(), d, o, &ps, flags);
        int rs = iop_bskip(d, &sk);
        ssize_t l = iop_get_field_len(ps0);

        PT_CHECK(t, sk.b <= in + len, "iop_bskip went past the end");
        if (r >= 0) {
            PT_CHECK(t, ps.b <= in + len && ps.b >= in, "iop_bunpack_multi went past the end");
            PT_CHECK(t, rs >= 0 && sk.b == ps.b, "iop_bskip disagrees with iop_bunpack_multi");
            PT_CHECK(t, l == ps.b - in, "iop_get_field_len = %zd, %zd bytes were unpacked",
                     l, ps.b - in);
        } else {
            PT_CHECK(t, ps.b == in, "iop_bunpack_multi failed but consumed %zd bytes", ps.b - in);
        }
    }
    if (unpack(d, &out, in, len, flags) < 0) {
        pt_label(t, "refused");
        free(in);
        return;
    }
    pt_label(t, "accepted");
    if ((err = c_walk(d, out, &nb)))
        PT_FAIL(t, "accepted value is malformed: %s", err);
    s = t_iop_bpack_struct(d, out);
    if (unpack(d, &out2, exact(s.s, s.len), s.len, 0) < 0)
        PT_FAIL(t, "accepted value does not survive a round trip");
    s2 = t_iop_bpack_struct(d, out2);
    PT_CHECK(t, lstr_equal(s, s2), "encoding of an accepted value is not stable");
    free(in);
}

static void mutate(pt_t *t, bb_t *b)
{
    int n = 1 + pt_u(t, 4);

    while (n--) {
        size_t pos = b->len ? pt_u(t, b->len - 1) : 0;

        switch (pt_u(t, 9)) {
          case 0:
            if (b->len) b->p[pos] ^= 1 << pt_u(t, 7);
            break;
          case 1:
            if (b->len) b->p[pos] = pt_bits(t, 8);
            break;
          case 2:
            b->len = pos;
            break;
          case 3: {
            static const uint8_t v[] = { 0, 1, 0x7f, 0x80, 0xff, 0x20, 0xe0, 0xe1, 0x1e, 0x1f };
            if (b->len) b->p[pos] = pt_pick(t, v);
          } break;
          case 4:   /* insert */
          case 5: {
            uint8_t x[16];
            int k = 1 + pt_u(t, 15);
            pt_bytes(t, x, k);
            bb_add(b, x, k);
            memmove(b->p + pos + k, b->p + pos, b->len - k - pos);
            memcpy(b->p + pos, x, k);
          } break;
          case 6: { /* delete */
            size_t k = b->len ? pt_size(t, MIN(b->len - pos, (size_t)16)) : 0;
            memmove(b->p + pos, b->p + pos + k, b->len - pos - k);
            b->len -= k;
          } break;
          case 7: { /* 32-bit value */
            static const uint32_t v[] = {
                0, 1, 0x7fffffff, 0x80000000, 0xffffffff, 0x10000000, 0x10000001,
                0x20000000, 0x20000001, 0x40000001, 0x08000001, 0x0aaaaaab, 0x15555556,
            };
            uint32_t w = pt_p(t, 1, 3) ? pt_bits(t, 32) : pt_pick(t, v);
            for (int i = 0; i < 4 && pos + i < b->len; i++) b->p[pos + i] = w >> (8 * i);
          } break;
          case 8: { /* duplicate a slice */
            size_t k = b->len ? pt_size(t, MIN(b->len - pos, (size_t)64)) : 0;
            uint8_t *x = exact(b->p + pos, k);
            bb_add(b, x, k);
          } break;
          default: { /* plant a repeat header */
            uint8_t x[6] = { 0xe0 | pt_u(t, 30) };
            static const uint32_t v[] = { 1, 2, 0x10000001, 0x20000001, 0x40000001, 0xffffffff };
            uint32_t w = pt_pick(t, v);
            for (int i = 0; i < 4; i++) x[1 + i] = w >> (8 * i);
            bb_add(b, x, 5);
            memmove(b->p + pos + 5, b->p + pos, b->len - 5 - pos);
            memcpy(b->p + pos, x, 5);
          } break;
        }
    }
}

static const iop_struct_t *pick_any(pt_t *t)
{
    int k = pt_u(t, vt_types_len + vt_cons_types_len - 1);
    return k < vt_types_len ? vt_types[k] : vt_cons_types[k - vt_types_len];
}

static void run_mutate(pt_t *t)
{
    mgen_t g = mkgen(t);
    const iop_struct_t *d;
    bb_t b = { 0 };
    int feats = 0;

    ar_reset();
    d = pick_any(t);
    g.big = 0;
    g.budget = 1 + pt_u(t, 30);
    if (pt_bool(t)) {
        m_encode(&b, mgen(&g, d), 0);
    } else {
        m_encode_loose(t, &b, mgen(&g, d), &feats);
    }
    if (b.len > 3000) b.len = 3000;
    mutate(t, &b);
    if (b.len >= 4) pt_nontrivial(t);
    check_hostile(t, d, b.p, b.len);
}

/* soups of wire tokens, biased towards the tags of the type */
static void soup(pt_t *t, const iop_struct_t *d, bb_t *b, int depth)
{
    int last = 0;

    if (st_is_class(d) && !pt_p(t, 1, 10)) {
        const iop_struct_t *subs[32];
        int n = vt_subclasses(d, subs, 32);

        d = subs[pt_u(t, n - 1)];
        e_int_pub(b, 0, d->class_attrs->class_id);
    }
  level:
    for (int i = 0; i < d->fields_len; i++) {
        const iop_field_t *f = &d->fields[i];
        uint32_t tag = f->tag, n = 1;
        int wt;

        if (d->is_union) {
            i = pt_u(t, d->fields_len - 1);
            f = &d->fields[i];
            tag = f->tag;
        } else
        if (pt_p(t, 1, f->repeat == IOP_R_REQUIRED ? 20 : 2)) {
            continue;
        }
        if (pt_p(t, 1, 20)) tag = pt_bits(t, 16);
        if (pt_p(t, 1, 8) || (f->repeat == IOP_R_REPEATED && pt_p(t, 1, 2))) {
            static const uint32_t v[] = { 0x10000001, 0x20000001, 0x40000001, 0xffffffff, 0x8000001 };
            e_tag_pub(b, tag, 7);
            n = pt_p(t, 1, 6) ? 0 : 1 + pt_u(t, 4);
            bb_le(b, pt_p(t, 1, 10) ? pt_pick(t, v) : n, 4);
            if (pt_p(t, 1, 10)) {   /* repeats in repeats */
                int k = pt_u(t, nest_g);
                while (k--) { bb_c(b, 0xe0); bb_le(b, 1 + pt_u(t, 1), 4); }
            }
            tag = 0;
        }
        while (n--) {
            switch (f->type) {
              case IOP_T_STRING: case IOP_T_DATA: case IOP_T_XML: case IOP_T_VOID:
                wt = pt_u(t, 2); break;
              case IOP_T_STRUCT: case IOP_T_UNION: wt = pt_p(t, 1, 5) ? 0 : 8; break;
              case IOP_T_DOUBLE: wt = 3; break;
              default: wt = 3 + pt_u(t, 3); break;
            }
            if (pt_p(t, 1, 15)) wt = pt_u(t, 7);
            switch (wt) {
              case 8: {
                bb_t s = { 0 };
                if (depth < 4) soup(t, f->u1.st_desc, &s, depth + 1);
                e_blk_pub(b, tag, s.len);
                bb_add(b, s.p, s.len);
              } break;
              case 0: case 1: case 2: {
                uint8_t x[24];
                int k = pt_u(t, 12), kk = k;
                if (pt_p(t, 1, 20)) kk = pt_bits(t, 32);
                pt_bytes(t, x, k);
                e_tag_pub(b, tag, wt);
                bb_le(b, kk, 1 << wt);
                bb_add(b, x, k);
              } break;
              case 3: e_tag_pub(b, tag, 3); bb_le(b, pt_sbits(t, 64), 8); break;
              case 4: e_tag_pub(b, tag, 4); bb_le(b, pt_sbits(t, 8), 1); break;
              case 5: e_tag_pub(b, tag, 5); bb_le(b, pt_sbits(t, 16), 2); break;
              case 6: e_tag_pub(b, tag, 6); bb_le(b, pt_sbits(t, 32), 4); break;
              default: e_tag_pub(b, tag, 7); bb_le(b, pt_bits(t, 32), 4); break;
            }
        }
        if (d->is_union && !pt_p(t, 1, 20)) return;
        (void)last;
    }
    if (st_is_class(d) && d->class_attrs->parent && !pt_p(t, 1, 20)) {
        d = d->class_attrs->parent;
        if (!pt_p(t, 1, 20)) e_int_pub(b, 0, d->class_attrs->class_id);
        goto level;
    }
}

static void run_soup(pt_t *t)
{
    const iop_struct_t *d;
    bb_t b = { 0 };

    ar_reset();
    d = pick_any(t);
    nest_g = 4;
    if (pt_p(t, 1, 30)) nest_g = 3000;
    soup(t, d, &b, 0);
    if (b.len >= 4) pt_nontrivial(t);
    check_hostile(t, d, b.p, b.len);
}

static void run_random(pt_t *t)
{
    const iop_struct_t *d;
    uint8_t buf[200];
    int len;

    ar_reset();
    d = pick_any(t);
    len = pt_size(t, sizeof(buf));
    pt_bytes(t, buf, len);
    if (len >= 4) pt_nontrivial(t);
    check_hostile(t, d, buf, len);
}

/* unknown field whose value nests REPEAT headers very deep */
static void run_deep(pt_t *t)
{
    bb_t b = { 0 };
    uint32_t n = pt_size(t, 400000);
    uint8_t hdr[5] = { 0xe0, 1, 0, 0, 0 };

    ar_reset();
    e_tag_pub(&b, 20000, 7);
    bb_le(&b, 1, 4);
    for (uint32_t i = 0; i < n; i++) bb_add(&b, hdr, 5);
    e_int_pub(&b, 0, 3);
    if (n > 1000) pt_nontrivial(t);
    check_hostile(t, &vt__all_opt__s, b.p, b.len);
}

/* }}} */

#ifdef VERIF_C02
const pt_target_t pt_targets[] = {
    { "mutate", run_mutate, 1500000, 50000000, 50, .child_init = child_init },
    { "soup", run_soup, 1000000, 40000000, 40, .child_init = child_init },
    { "random", run_random, 300000, 10000000, 60, .child_init = child_init },
    { "deep", run_deep, 400, 4000, 0, .child_init = child_init },
};
#else
const pt_target_t pt_targets[] = {
    { "pack", run_pack, 800000, 30000000, 20, .child_init = child_init },
    { "loose", run_loose, 800000, 30000000, 20, .child_init = child_init },
    { "multi", run_multi, 150000, 5000000, 10, .child_init = child_init },
    { "private", run_priv, 60000, 2000000, 10, .child_init = child_init },
    { "threads", run_thr, 6000, 200000, 0, .child_init = child_init_thr },
};
#endif
const int pt_targets_len = countof(pt_targets);
