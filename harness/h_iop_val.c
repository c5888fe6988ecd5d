/* IOP values in memory: equality, order, hash, copies (C06); paths, sorts,
 * filters, walks (C08). */
#include "iopm.h"
#include <math.h>
#include <lib-common/hash.h>
#include <lib-common/container-qvector.h>
#include "viop/vt.iop.h"

#define U(n)  pt_u(t, (n) - 1)
#define P(n)  pt_p(t, (n), 100)

#ifdef VERIF_C08
const char pt_rule[] =
    "IOP values (every kind of field, unions, classes, references) and field "
    "paths (subfields, indexes from both ends, wildcards, casts, lengths, "
    "class names) drawn from the type descriptors; paths, sorts, filters, "
    "walks and accessors are compared with an evaluation of the same request "
    "on a model of the value; non-trivial: the path or walk meets at least "
    "one present value, or the vector has at least two elements";
#else
const char pt_rule[] =
    "IOP values generated from the type descriptors, in pairs or triples that "
    "are equal, differ by one edit, or are unrelated: equality, first "
    "difference, order and hash compared with the model, and copies of every "
    "kind compared with their source; non-trivial: the value has at least 4 "
    "set fields";
#endif

static const iop_struct_t *const more_types[] = {
    &vt__deep__s, &vt__deep__s, &vt__prune__s,
};

void pt_setup(void)
{
    e_set_verbosity(-1);
    vt_setup();
}
static void child_init(void)
{
}

static const iop_struct_t *pick_type(pt_t *t)
{
    int k = U(vt_types_len + countof(more_types));

    return k < vt_types_len ? vt_types[k] : more_types[k - vt_types_len];
}

static bool is_st(const iop_field_t *f)
{
    return f->type == IOP_T_STRUCT || f->type == IOP_T_UNION;
}

static bool is_str(const iop_field_t *f)
{
    return f->type == IOP_T_STRING || f->type == IOP_T_DATA || f->type == IOP_T_XML;
}

/* {{{ copies and edits of models */

static mst_t *m_clone(const mst_t *m)
{
    const iop_struct_t *lv[16];
    int nl = st_levels(m->desc, lv), k = 0;
    mst_t *r = ar_dup(m, sizeof(*m));

    r->f = ar_dup(m->f, m->nf * sizeof(mfld_t));
    for (int l = 0; l < nl; l++) {
        for (int i = 0; i < lv[l]->fields_len; i++, k++) {
            mfld_t *o = &r->f[k];

            if (!o->n || !o->v) continue;
            o->v = ar_dup(o->v, o->n * sizeof(mval_t));
            if (is_st(&lv[l]->fields[i])) {
                for (int j = 0; j < o->n; j++) o->v[j].st = m_clone(o->v[j].st);
            } else if (is_str(&lv[l]->fields[i])) {
                for (int j = 0; j < o->n; j++) o->v[j].s = ar_dup(o->v[j].s, o->v[j].len);
            }
        }
    }
    return r;
}

static void edit_scalar(pt_t *t, const iop_field_t *f, mval_t *v, bool utf8)
{
    switch (f->type) {
      case IOP_T_STRING: case IOP_T_DATA: case IOP_T_XML: {
        bool ascii = true;
        uint8_t *s = ar_alloc(v->len + 2);

        if (v->len) memcpy(s, v->s, v->len);
        for (int i = 0; i < v->len; i++) ascii &= s[i] < 0x80;
        if (v->len && (!utf8 || ascii) && P(60)) {
            int i = U(v->len);

            s[i] ^= P(50) ? 0x20 : 1 << U(7);
            if (!s[i] && utf8) s[i] = 'x';
            v->s = s;
        } else if (v->len && (!utf8 || ascii) && P(40)) {
            v->s = s;
            v->len--;
        } else {
            s[v->len] = 'a' + U(3);
            v->s = s;
            v->len++;
        }
        break;
      }
      case IOP_T_DOUBLE: {
        static const double tab[] = { 0, 1, -1, 1.5, 1e300, -1e-300 };
        v->d = P(50) ? v->d + 1 : P(50) ? -v->d : tab[U(countof(tab))];
        if (!isfinite(v->d)) v->d = 3;
        break;
      }
      case IOP_T_BOOL: v->u = !v->u; break;
      case IOP_T_ENUM: v->i = f->u1.en_desc->values[U(f->u1.en_desc->enum_len)]; break;
      case IOP_T_VOID: break;
      default: {
        int bits = 8 * val_size(f), sh = 64 - bits;

        if (P(50)) v->u += P(50) ? 1 : -1; else v->u ^= 1ull << U(bits);
        if (f->type == IOP_T_I8 || f->type == IOP_T_I16 || f->type == IOP_T_I32
        ||  f->type == IOP_T_I64)
            v->i = (int64_t)(v->u << sh) >> sh;
        else
            v->u = v->u << sh >> sh;
      }
    }
}

static mval_t blank(const iop_field_t *f)
{
    mval_t v;

    memset(&v, 0, sizeof(v));
    if (f->type == IOP_T_STRING || f->type == IOP_T_DATA || f->type == IOP_T_XML)
        v.s = ar_alloc(1);
    return v;
}

/* one edit at a random place of `m`, in place */
static void m_edit(mgen_t *g, mst_t *m)
{
    pt_t *t = g->t;
    const iop_struct_t *lv[16];
    int nl = st_levels(m->desc, lv), k = 0, want;
    const iop_field_t *f = NULL;
    mfld_t *o;

    if (!m->nf) return;
    want = m->desc->is_union ? m->sel : (int)U(m->nf);
    for (int l = 0; l < nl && !f; l++) {
        for (int i = 0; i < lv[l]->fields_len; i++, k++) {
            if (k == want) { f = &lv[l]->fields[i]; break; }
        }
    }
    o = &m->f[want];
    if (m->desc->is_union && P(25)) {
        *m = *mgen(g, m->desc);
        return;
    }
    if (f->repeat == IOP_R_REPEATED && P(50)) {
        switch (U(4)) {
          case 0:
            if (o->n) o->n--;
            return;
          case 1: case 2: {
            mval_t *v = ar_alloc((o->n + 1) * sizeof(mval_t));

            if (o->n) memcpy(v, o->v, o->n * sizeof(mval_t));
            if (is_st(f)) v[o->n].st = mgen(g, f->u1.st_desc);
            else v[o->n] = blank(f);
            o->v = v;
            o->n++;
            return;
          }
          default:
            if (o->n > 1) {
                int a = U(o->n), b = U(o->n);
                SWAP(mval_t, o->v[a], o->v[b]);
            }
            return;
        }
    }
    if (f->repeat == IOP_R_OPTIONAL && P(o->n ? 30 : 80)) {
        if (o->n) {
            o->n = 0;
        } else {
            o->n = 1;
            o->v = ar_alloc(sizeof(mval_t));
            if (is_st(f)) o->v->st = mgen(g, f->u1.st_desc);
            else *o->v = blank(f);
        }
        return;
    }
    if (!o->n) return;
    want = U(o->n);
    if (is_st(f)) {
        if (st_is_class(f->u1.st_desc) && P(20)) {
            o->v[want].st = mgen(g, f->u1.st_desc);
        } else {
            m_edit(g, o->v[want].st);
        }
    } else {
        edit_scalar(t, f, &o->v[want], g->utf8);
    }
}

/* }}} */
#ifndef VERIF_C08
/* {{{ hash */

static void cap(void *ctx, const void *p, ssize_t len)
{
    bb_add(ctx, p, len < 0 ? (ssize_t)strlen(p) : len);
}

static void h_le(bb_t *b, uint64_t v, int n) { bb_le(b, v, n); }

static void h_ref(bb_t *b, const mst_t *m, unsigned flags)
{
    const iop_struct_t *lv[16];
    int nl = st_levels(m->desc, lv), k = 0;

    if (st_is_class(m->desc) && !(flags & IOP_HASH_DONT_INCLUDE_CLASS_ID))
        h_le(b, m->desc->class_attrs->class_id, 2);
    for (int l = 0; l < nl; l++) {
        for (int i = 0; i < lv[l]->fields_len; i++, k++) {
            const iop_field_t *f = &lv[l]->fields[i];
            const mfld_t *o = &m->f[k];
            bool opt = f->repeat == IOP_R_OPTIONAL;

            if (m->desc->is_union && i != m->sel) continue;
            if ((opt || f->repeat == IOP_R_REPEATED) && !o->n
            &&  (flags & IOP_HASH_SKIP_MISSING))
                continue;
            if (f->repeat == IOP_R_DEFVAL && (flags & IOP_HASH_SKIP_DEFAULT)
            &&  field_is_defval(f, &o->v[0]))
                continue;
            h_le(b, f->tag, 2);
            bb_add(b, f->name.s, f->name.len);
            if (f->repeat == IOP_R_REPEATED) h_le(b, o->n, 4);
            for (int j = 0; j < o->n; j++) {
                const mval_t *v = &o->v[j];

                switch (f->type) {
                  case IOP_T_STRUCT: case IOP_T_UNION: h_ref(b, v->st, flags); break;
                  case IOP_T_STRING: case IOP_T_DATA: case IOP_T_XML:
                    h_le(b, v->len, 4);
                    bb_add(b, v->s, v->len);
                    break;
                  case IOP_T_VOID: if (opt) bb_c(b, 1); break;
                  case IOP_T_BOOL:
                    if (opt) bb_c(b, v->u & 1); else h_le(b, v->u & 1, 8);
                    break;
                  case IOP_T_ENUM: h_le(b, (int64_t)(int32_t)v->i, 8); break;
                  default: h_le(b, v->u, 8); break;
                }
            }
        }
    }
}

static void t_hash(pt_t *t)
{
    t_scope;
    mgen_t g = { .t = t, .budget = 20 + U(60), .big = 10, .known_enums = P(50) };
    const iop_struct_t *d = pick_type(t);
    unsigned flags = U(16) & ~IOP_HASH_SHALLOW_DEFAULT;
    mst_t *m;
    void *c;
    bb_t got = { 0 }, ref = { 0 };
    uint8_t h1[64], h2[64];
    lstr_t key;

    ar_reset();
    m = mgen(&g, d);
    c = m_to_c(m);
    m_note(t, "value", m);
    pt_note(t, "flags %x", flags);
    if (m_count(m) >= 4) pt_nontrivial(t);
    iop_hash(d, c, &cap, &got, flags);
    h_ref(&ref, m, flags);
    if (got.len != ref.len || (got.len && memcmp(got.p, ref.p, got.len))) {
        pt_note_hex(t, "hashed  ", got.p, got.len);
        pt_note_hex(t, "expected", ref.p, ref.len);
        PT_FAIL(t, "hashed content is not that of the value (%zu bytes, expected %zu)",
                got.len, ref.len);
    }
    iop_hash_sha256(d, c, h1, flags);
    sha2(ref.p, ref.len, h2, false);
    PT_CHECK(t, !memcmp(h1, h2, 32), "iop_hash_sha256 is not the sha256 of the content");
    iop_hash_md5(d, c, h1, flags);
    md5(ref.p, ref.len, h2);
    PT_CHECK(t, !memcmp(h1, h2, 16), "iop_hash_md5 is not the md5 of the content");
    key = LSTR_INIT_V("kkeeyy", 6);
    iop_hmac_sha1(d, c, key, h1, flags);
    sha1_hmac(key.s, key.len, ref.p, ref.len, h2);
    PT_CHECK(t, !memcmp(h1, h2, 20), "iop_hmac_sha1 is not the hmac of the content");
}

/* }}} */
/* {{{ equality and order */

static int s_icmp(const mval_t *a, const mval_t *b)
{
    return lstr_utf8_icmp(LSTR_INIT_V((char *)a->s, a->len), LSTR_INIT_V((char *)b->s, b->len));
}

/* equal but for the case of the strings (and the sign of zero)? */
static bool m_iequal(const mst_t *a, const mst_t *b)
{
    const iop_struct_t *lv[16];
    int nl, k = 0;

    if (a->desc != b->desc || (a->desc->is_union && a->sel != b->sel)) return false;
    nl = st_levels(a->desc, lv);
    for (int l = 0; l < nl; l++) {
        for (int i = 0; i < lv[l]->fields_len; i++, k++) {
            const iop_field_t *f = &lv[l]->fields[i];

            if (a->desc->is_union && i != a->sel) continue;
            if (a->f[k].n != b->f[k].n) return false;
            for (int j = 0; j < a->f[k].n; j++) {
                const mval_t *v = &a->f[k].v[j], *w = &b->f[k].v[j];

                if (is_st(f)) {
                    if (!m_iequal(v->st, w->st)) return false;
                } else if (f->type == IOP_T_STRING || f->type == IOP_T_XML) {
                    if (s_icmp(v, w)) return false;
                } else if (f->type == IOP_T_DOUBLE) {
                    if (v->d != w->d) return false;
                } else if (!scalar_eq(f->type, v, w)) {
                    return false;
                }
            }
        }
    }
    return true;
}

static int sgn(int x) { return (x > 0) - (x < 0); }

static void t_eq(pt_t *t)
{
    t_scope;
    bool order = P(60);
    mgen_t g = { .t = t, .budget = 15 + U(50), .utf8 = order, .finite = order,
                 .known_enums = P(50), .big = 40 };
    const iop_struct_t *d = pick_type(t);
    mst_t *m[3];
    void *c[3];
    int cmp[3][3];
    SB_1k(diff);

    ar_reset();
    m[0] = mgen(&g, d);
    for (int i = 1; i < 3; i++) {
        if (P(85)) {
            m[i] = m_clone(m[U(i)]);
            if (P(75)) {
                mgen_t g2 = g;

                g2.budget = 8;
                m_edit(&g2, m[i]);
                if (P(20)) m_edit(&g2, m[i]);
            }
        } else {
            mgen_t g2 = g;

            g2.budget = 15;
            m[i] = mgen(&g2, d);
        }
    }
    if (m_count(m[0]) >= 4) pt_nontrivial(t);
    for (int i = 0; i < 3; i++) {
        c[i] = m_to_c(m[i]);
        m_note(t, "value", m[i]);
    }
    for (int i = 0; i < 3; i++) {
        for (int j = 0; j < 3; j++) {
            bool exp = i == j || m_equal(m[i], m[j]);
            bb_t h1 = { 0 }, h2 = { 0 };
            int r;

            PT_CHECK(t, iop_equals_desc(d, c[i], c[j]) == exp,
                     "iop_equals of values %d and %d says %d", i, j, !exp);
            sb_reset(&diff);
            r = iop_first_diff_desc(d, c[i], c[j], &diff);
            {
                PT_CHECK(t, (r < 0) == exp, "iop_first_diff of values %d and %d says %s: %.*s",
                         i, j, r < 0 ? "equal" : "different", diff.len, diff.data);
                PT_CHECK(t, r < 0 || diff.len > 0, "difference without a description");
            }
            if (i < j) {
                iop_hash(d, c[i], &cap, &h1, 0);
                iop_hash(d, c[j], &cap, &h2, 0);
                r = h1.len == h2.len && !memcmp(h1.p, h2.p, h1.len);
                PT_CHECK(t, r || !exp, "hashed contents of equal values %d and %d differ", i, j);
            }
            if (order) {
                cmp[i][j] = sgn(iop_cmp_desc(d, c[i], c[j]));
                PT_CHECK(t, !exp || cmp[i][j] == 0, "values %d and %d are equal, compared as %d",
                         i, j, cmp[i][j]);
                PT_CHECK(t, cmp[i][j] || m_iequal(m[i], m[j]),
                         "values %d and %d differ, compared as equal", i, j);
            }
        }
        PT_CHECK(t, !iop_equals_desc(d, c[i], NULL) || !d->size, "value equal to no value");
        PT_CHECK(t, !iop_equals_desc(d, NULL, c[i]) || !d->size, "no value equal to a value");
    }
    if (!order) return;
    for (int i = 0; i < 3; i++) {
        for (int j = 0; j < 3; j++) {
            PT_CHECK(t, cmp[i][j] == -cmp[j][i], "order of values %d and %d: %d and %d", i, j,
                     cmp[i][j], cmp[j][i]);
            for (int k = 0; k < 3; k++) {
                PT_CHECK(t, !(cmp[i][j] <= 0 && cmp[j][k] <= 0) || cmp[i][k] <= 0,
                         "order not transitive (%d %d %d)", i, j, k);
            }
        }
    }
    if (d->size) {
        const void *v[3] = { c[0], c[1], c[2] };

        iop_xpsort_desc(d, v, 3);
        for (int i = 0; i < 2; i++)
            PT_CHECK(t, iop_cmp_desc(d, v[i], v[i + 1]) <= 0, "iop_xpsort: not sorted");
        PT_CHECK(t, (v[0] == c[0]) + (v[1] == c[0]) + (v[2] == c[0]) == 1
                 && (v[0] == c[1]) + (v[1] == c[1]) + (v[2] == c[1]) == 1,
                 "iop_xpsort: lost a value");
    }
}

/* }}} */
/* {{{ copies */

static void scribble(const iop_struct_t *desc, void *c)
{
    const iop_struct_t *lv[16];
    int nl, sel = -1;

    if (st_is_class(desc)) desc = *(const iop_struct_t **)c;
    nl = st_levels(desc, lv);
    if (desc->is_union) {
        int tag = union_get_tag(desc, c);
        for (int i = 0; i < desc->fields_len; i++) if (desc->fields[i].tag == tag) sel = i;
    }
    for (int l = 0; l < nl; l++) {
        for (int i = 0; i < lv[l]->fields_len; i++) {
            const iop_field_t *f = &lv[l]->fields[i];
            char *p = (char *)c + f->data_offs;
            int n = 1, sz = val_size(f);

            if (desc->is_union && i != sel) continue;
            if (f->type == IOP_T_VOID) continue;
            if (f->repeat == IOP_R_REPEATED) {
                n = ((lstr_t *)p)->len;
                p = ((lstr_t *)p)->v;
            } else if (is_st(f) && (f->repeat == IOP_R_OPTIONAL || field_is_ref(f))) {
                p = *(char **)p;
                if (!p) continue;
            }
            for (int j = 0; j < n; j++) {
                char *e = p + (size_t)j * sz;

                if (is_st(f)) {
                    if (field_is_class(f) && f->repeat != IOP_R_OPTIONAL) e = *(char **)e;
                    scribble(f->u1.st_desc, e);
                } else if (f->type == IOP_T_STRING || f->type == IOP_T_DATA || f->type == IOP_T_XML) {
                    lstr_t *s = (lstr_t *)e;

                    if (f->repeat == IOP_R_DEFVAL && s->s == f->u1.defval_data) continue;
                    if (s->len) memset(s->v, '!', s->len);
                } else {
                    memset(e, 1, sz);
                }
            }
        }
    }
}

static void t_copy(pt_t *t)
{
    t_scope;
    mgen_t g = { .t = t, .budget = 20 + U(60), .big = 8 };
    const iop_struct_t *d = pick_type(t);
    mst_t *m, *m0;
    void *c, *r = NULL, *old = NULL;
    size_t sz = 0;
    int kind = U(8);
    size_t nb = 0;
    const char *w;

    ar_reset();
    m = mgen(&g, d);
    g.budget = 20;
    m0 = mgen(&g, d);
    c = m_to_c(m_clone(m));
    m_note(t, "value", m);
    pt_note(t, "kind %d", kind);
    if (m_count(m) >= 4) pt_nontrivial(t);
    switch (kind) {
      case 0:
        r = mp_iop_dup_desc_flags_sz(NULL, d, c, 0, &sz);
        break;
      case 1:
        r = mp_iop_dup_desc_flags_sz(t_pool(), d, c, 0, &sz);
        break;
      case 2:
        r = mp_iop_dup_desc_flags_sz(t_pool(), d, c, IOP_COPY_MULTIPLE_ALLOC, NULL);
        break;
      case 3: /* over an earlier copy */
        old = mp_iop_dup_desc_flags_sz(NULL, d, m_to_c(m0), 0, NULL);
        r = old;
        mp_iop_copy_desc_flags_sz(NULL, d, &r, c, 0, &sz);
        break;
      case 4:
        r = mp_iop_dup_desc_flags_sz(t_pool(), d, m_to_c(m0), 0, NULL);
        mp_iop_copy_desc_flags_sz(t_pool(), d, &r, c, 0, &sz);
        break;
      case 5: case 6: /* in place */
        if (st_is_class(d)) {
            r = mp_iop_dup_desc_flags_sz(t_pool(), m->desc, c, IOP_COPY_SHALLOW, NULL);
        } else {
            r = ar_alloc(d->size);
        }
        mp_iop_copy_desc_flags_sz(t_pool(), d, &r, c, IOP_COPY_NO_REALLOC
                                  | (kind == 6 ? IOP_COPY_MULTIPLE_ALLOC : 0), NULL);
        break;
      case 7:
        r = mp_iop_dup_desc_flags_sz(NULL, d, c, IOP_COPY_SHALLOW, &sz);
        break;
    }
    PT_CHECK(t, r && r != c, "no copy");
    m_check_c(t, m, c, "source after the copy");
    m_check_c(t, m, r, "copy");
    w = c_walk(d, r, &nb);
    PT_CHECK(t, !w, "copy: %s", w);
    PT_CHECK(t, iop_equals_desc(d, c, r), "the copy is not equal to its source");
    if (kind != 7) {
        /* nothing is shared */
        scribble(d, c);
        m_check_c(t, m, r, "copy after its source is overwritten");
        /* and the copy may be overwritten */
        scribble(d, r);
    }
    if (kind == 0 || kind == 3 || kind == 7) {
        void *none = NULL;

        if (kind == 3) {
            mp_iop_copy_desc_flags_sz(NULL, d, &r, NULL, 0, NULL);
            PT_CHECK(t, !r, "copy of no value");
        }
        p_delete(&r);
        IGNORE(none);
    }
    PT_CHECK(t, !mp_iop_dup_desc_flags_sz(t_pool(), d, NULL, 0, NULL), "copy of no value");
}

/* }}} */
const pt_target_t pt_targets[] = {
    { "eq", t_eq, 200000, 3000000, 0, 200, child_init },
    { "copy", t_copy, 150000, 2000000, 0, 200, child_init },
    { "hash", t_hash, 100000, 1500000, 0, 200, child_init },
};
const int pt_targets_len = 3;
#endif
#ifdef VERIF_C08
#include "iop_path.inc.c"
#endif
