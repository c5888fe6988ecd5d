#include "iopm.h"
#include <math.h>
#include "viop/vt.iop.h"

/* {{{ arena */

typedef struct ar_t { struct ar_t *next; } ar_t;
static ar_t *ar_g;

void *ar_alloc(size_t n)
{
    ar_t *a = malloc(sizeof(ar_t *) * 2 + n + !n);

    a->next = ar_g;
    ar_g = a;
    memset((char *)a + sizeof(ar_t *) * 2, 0, n + !n);
    return (char *)a + sizeof(ar_t *) * 2;
}
void *ar_dup(const void *p, size_t n)
{
    void *r = ar_alloc(n);
    if (n) memcpy(r, p, n);
    return r;
}
void ar_reset(void)
{
    while (ar_g) {
        ar_t *n = ar_g->next;
        free(ar_g);
        ar_g = n;
    }
}

void bb_add(bb_t *b, const void *p, size_t n)
{
    if (b->len + n > b->sz) {
        size_t sz = MAX(b->sz * 2, b->len + n + 64);
        uint8_t *q = ar_alloc(sz);
        if (b->len) memcpy(q, b->p, b->len);
        b->p = q;
        b->sz = sz;
    }
    if (n) memcpy(b->p + b->len, p, n);
    b->len += n;
}
void bb_le(bb_t *b, uint64_t v, int n)
{
    for (int i = 0; i < n; i++) bb_c(b, (uint8_t)(v >> (8 * i)));
}
void bb_s(bb_t *b, const char *s) { bb_add(b, s, strlen(s)); }
void bb_f(bb_t *b, const char *fmt, ...)
{
    char buf[512];
    va_list ap;
    int n;

    va_start(ap, fmt);
    n = (vsnprintf)(buf, sizeof(buf), fmt, ap);
    va_end(ap);
    bb_add(b, buf, MIN(n, (int)sizeof(buf) - 1));
}

/* }}} */
/* {{{ descriptors */

const iop_struct_t *const vt_types[] = {
    &vt__small__s, &vt__all_opt__s, &vt__un__s, &vt__un_in__s,
    &vt__un_tiny__s, &vt__scal__s, &vt__opt__s, &vt__def__s, &vt__rep__s,
    &vt__tags__s, &vt__sparse__s, &vt__node__s, &vt__objs__s, &vt__priv__s,
    &vt__base__s, &vt__opt_root__s, &vt__all__s, &vt__empty__s,
    &vt__kid_a__s,
};
const int vt_types_len = countof(vt_types);
const iop_struct_t *const vt_cons_types[] = {
    &vt__cons__s, &vt__cons_num__s, &vt__cons_str__s, &vt__cons_arr__s,
    &vt__cons_enum__s, &vt__cons_un__s, &vt__cons_base__s,
};
const int vt_cons_types_len = countof(vt_cons_types);

static const iop_struct_t *const classes[] = {
    &vt__base__s, &vt__kid_a__s, &vt__kid_a_a__s, &vt__kid_empty__s,
    &vt__kid_empty_sub__s, &vt__kid_abs__s, &vt__kid_abs_impl__s,
    &vt__opt_root__s, &vt__opt_kid__s, &vt__opt_grand__s,
    &vt__cons_base__s, &vt__cons_kid__s, &vt__cons_abs__s,
    &vt__cons_abs_impl__s,
};

void vt_setup(void)
{
    IOP_REGISTER_PACKAGES(&vt__pkg);
}

bool st_is_class(const iop_struct_t *st)
{
    return (st->flags >> IOP_STRUCT_IS_CLASS) & 1;
}
bool field_is_class(const iop_field_t *f)
{
    return f->type == IOP_T_STRUCT && st_is_class(f->u1.st_desc);
}
bool field_is_ref(const iop_field_t *f)
{
    return (f->flags >> IOP_FIELD_IS_REFERENCE) & 1;
}
bool field_is_private(const iop_struct_t *st, const iop_field_t *f)
{
    if (!((st->flags >> IOP_STRUCT_EXTENDED) & 1) || !st->fields_attrs)
        return false;
    return (st->fields_attrs[f - st->fields].flags >> IOP_FIELD_PRIVATE) & 1;
}

int vt_subclasses(const iop_struct_t *desc, const iop_struct_t **out, int max)
{
    int n = 0;

    for (int i = 0; i < countof(classes); i++) {
        const iop_struct_t *p = classes[i];

        if (p->class_attrs->is_abstract) continue;
        while (p && p != desc) p = p->class_attrs->parent;
        if (p && n < max) out[n++] = classes[i];
    }
    return n;
}

int st_levels(const iop_struct_t *desc, const iop_struct_t **lv)
{
    int n = 0;

    lv[n++] = desc;
    if (st_is_class(desc)) {
        while ((desc = desc->class_attrs->parent)) lv[n++] = desc;
    }
    return n;
}

mval_t field_defval(const iop_field_t *f)
{
    mval_t v = { .u = 0 };

    switch (f->type) {
      case IOP_T_ENUM: v.i = f->u0.defval_enum; break;
      case IOP_T_DOUBLE: v.d = f->u1.defval_d; break;
      case IOP_T_STRING: case IOP_T_DATA: case IOP_T_XML:
        v.len = f->u0.defval_len;
        v.s = ar_alloc(v.len + 1);
        memcpy(v.s, f->u1.defval_data, v.len);
        break;
      case IOP_T_I8: v.i = (int8_t)f->u1.defval_u64; break;
      case IOP_T_I16: v.i = (int16_t)f->u1.defval_u64; break;
      case IOP_T_I32: v.i = (int32_t)f->u1.defval_u64; break;
      case IOP_T_BOOL: v.u = f->u1.defval_u64 != 0; break;
      default: v.u = f->u1.defval_u64; break;
    }
    return v;
}

/* }}} */
/* {{{ constraints, written by hand from vt.iop */

enum { HAS_MIN = 1, HAS_MAX = 2, NZ = 4, NE = 8 };
typedef struct cons_t {
    const char *st, *f;
    unsigned fl;
    double mind, maxd;          /* doubles */
    __int128 min, max;          /* integers */
    int minl, maxl;             /* -1: none */
    int mino, maxo;
    const char *pat;
    const char *allow, *disallow;
} cons_t;

#define C0  .minl = -1, .maxl = -1, .mino = -1, .maxo = -1
#define CN(s, f_, lo, hi, ...)  { "vt." s, f_, C0, .fl = HAS_MIN | HAS_MAX, \
                                  .min = lo, .max = hi, .mind = lo, .maxd = hi, ##__VA_ARGS__ }
#define LO  (-((__int128)1 << 100))
#define HI  ((__int128)1 << 100)
static const cons_t cons_g[] = {
    CN("ConsNum", "i8", -5, 100),
    { "vt.ConsNum", "u8", C0, .fl = HAS_MIN | HAS_MAX | NZ, .min = LO, .max = 200 },
    { "vt.ConsNum", "i16", C0, .fl = HAS_MIN | HAS_MAX, .min = -3000, .max = HI },
    CN("ConsNum", "u16", 2, 40000),
    { "vt.ConsNum", "i32", C0, .fl = HAS_MIN | HAS_MAX | NZ, .min = -100000, .max = 70000 },
    { "vt.ConsNum", "u32", C0, .fl = HAS_MIN | HAS_MAX, .min = 3000000000ll, .max = HI },
    CN("ConsNum", "i64", -5000000000ll, 6000000000ll),
    { "vt.ConsNum", "u64", C0, .fl = HAS_MIN | HAS_MAX | NZ, .min = LO, .max = 10000000000000000000ull },
    { "vt.ConsNum", "d", C0, .fl = HAS_MIN | HAS_MAX, .mind = -2.5, .maxd = 1e9 },
    { "vt.ConsNum", "dz", C0, .fl = HAS_MIN | HAS_MAX | NZ, .mind = -INFINITY, .maxd = INFINITY },
    { "vt.ConsNum", "ds", C0, .fl = HAS_MIN | HAS_MAX, .mind = 1.5, .maxd = INFINITY },
    CN("ConsNum", "dig", 5, 42), CN("ConsNum", "digo", 7, 21), CN("ConsNum", "digs", 5, 42),
#define S0  .mino = -1, .maxo = -1
    { "vt.ConsStr", "s", .minl = 2, .maxl = 8, S0 },
    { "vt.ConsStr", "ne", .minl = 1, .maxl = -1, S0 },
    { "vt.ConsStr", "pat", .minl = -1, .maxl = -1, S0, .pat = "[a-z]*" },
    { "vt.ConsStr", "len3", .minl = 3, .maxl = 3, S0 },
    { "vt.ConsStr", "tab", .minl = 1, .maxl = -1, S0, .pat = "[^x]*" },
    { "vt.ConsStr", "data", .minl = -1, .maxl = 5, S0 },
    { "vt.ConsStr", "nes", .minl = 1, .maxl = -1, S0 },
    { "vt.ConsStr", "w", .minl = 2, .maxl = 6, S0 },
    { "vt.ConsStr", "ws", .minl = 2, .maxl = 4, S0 },
#define A0  .minl = -1, .maxl = -1
    { "vt.ConsArr", "one", A0, .mino = 1, .maxo = -1 },
    { "vt.ConsArr", "s", A0, .mino = 2, .maxo = 4 },
    { "vt.ConsArr", "b", A0, .mino = -1, .maxo = 3, .fl = HAS_MIN | HAS_MAX, .min = 0, .max = HI },
    { "vt.ConsArr", "nums", A0, .mino = -1, .maxo = 2 },
    { "vt.ConsArr", "tab", A0, .mino = 1, .maxo = 4 },
    { "vt.ConsArr", "tab2", A0, .mino = 2, .maxo = 4 },
    { "vt.ConsArr", "objs", A0, .mino = -1, .maxo = 3 },
    { "vt.ConsEnum", "al", C0, .allow = " A B NEG " },
    { "vt.ConsEnum", "dis", C0, .disallow = " C " },
    { "vt.ConsEnum", "als", C0, .allow = " S0 S3 " },
    { "vt.ConsEnum", "un", C0, .allow = " i s st " },
    { "vt.ConsEnum", "undis", C0, .disallow = " d data " },
    { "vt.ConsEnum", "unr", C0, .allow = " i v " },
    { "vt.ConsEnum", "unref", C0, .allow = " i s " },
    { "vt.ConsEnum", "tiny", C0, .disallow = " b " },
    { "vt.ConsUn", "u8", C0, .fl = HAS_MIN | HAS_MAX | NZ, .min = LO, .max = 100 },
    { "vt.ConsUn", "s", .minl = 1, .maxl = 10, S0, .pat = "[^\\[\\]]*" },
    { "vt.ConsUn", "d", C0, .fl = HAS_MIN | HAS_MAX, .mind = -3, .maxd = 3 },
    { "vt.ConsBase", "pos", C0, .fl = HAS_MIN | HAS_MAX, .min = 1, .max = HI },
    { "vt.ConsKid", "name", .minl = 1, .maxl = -1, S0 },
    { "vt.ConsKid", "uns", A0, .mino = -1, .maxo = 2 },
    { "vt.ConsAbs", "x", C0, .fl = HAS_MIN | HAS_MAX, .min = LO, .max = 10 },
    CN("ConsAbsImpl", "y", 5, 42),
};

static const cons_t *cons_find(const iop_struct_t *st, const iop_field_t *f)
{
    for (int i = 0; i < countof(cons_g); i++) {
        if (strlen(cons_g[i].st) == (size_t)st->fullname.len
        &&  !memcmp(cons_g[i].st, st->fullname.s, st->fullname.len)
        &&  strlen(cons_g[i].f) == (size_t)f->name.len
        &&  !memcmp(cons_g[i].f, f->name.s, f->name.len))
            return &cons_g[i];
    }
    return NULL;
}

static bool pat_ok(const char *pat, const uint8_t *s, int len)
{
    if (!pat) return true;
    for (int i = 0; i < len; i++) {
        if (!strcmp(pat, "[a-z]*")) {
            if (s[i] < 'a' || s[i] > 'z') return false;
        } else
        if (!strcmp(pat, "[^x]*")) {
            if (s[i] == 'x') return false;
        } else {
            if (s[i] == '[' || s[i] == ']') return false;
        }
    }
    return true;
}

static bool enum_strict(const iop_enum_t *e)
{
    return (e->flags >> IOP_ENUM_STRICT) & 1;
}

static const lstr_t *enum_name(const iop_enum_t *e, int v)
{
    for (int i = 0; i < e->enum_len; i++) {
        if (e->values[i] == v) return &e->names[i];
    }
    return NULL;
}

static bool in_list(const char *list, lstr_t name)
{
    char buf[64];

    (snprintf)(buf, sizeof(buf), " %.*s ", name.len, name.s);
    return strstr(list, buf) != NULL;
}

/* does one value respect the constraints of its field? */
static bool val_ok(const cons_t *c, const iop_field_t *f, const mval_t *v)
{
    if (f->type == IOP_T_ENUM && enum_strict(f->u1.en_desc)
    &&  !enum_name(f->u1.en_desc, v->i))
        return false;
    if (!c) return true;
    switch (f->type) {
      case IOP_T_DOUBLE:
        if ((c->fl & HAS_MIN) && (v->d < c->mind || v->d > c->maxd)) return false;
        if ((c->fl & NZ) && v->d == 0) return false;
        return true;
      case IOP_T_STRING: case IOP_T_DATA: case IOP_T_XML:
        if (c->minl >= 0 && v->len < c->minl) return false;
        if (c->maxl >= 0 && v->len > c->maxl) return false;
        return pat_ok(c->pat, v->s, v->len);
      case IOP_T_ENUM: {
        const lstr_t *n = enum_name(f->u1.en_desc, v->i);
        if (!n) return true;
        if (c->allow && !in_list(c->allow, *n)) return false;
        return !(c->disallow && in_list(c->disallow, *n));
      }
      case IOP_T_UNION: {
        lstr_t n = v->st->desc->fields[v->st->sel].name;
        if (c->allow && !in_list(c->allow, n)) return false;
        return !(c->disallow && in_list(c->disallow, n));
      }
      case IOP_T_STRUCT: case IOP_T_BOOL: case IOP_T_VOID:
        return true;
      default: {
        __int128 x = f->type == IOP_T_U64 ? (__int128)v->u : (__int128)v->i;
        if ((c->fl & HAS_MIN) && (x < c->min || x > c->max)) return false;
        return !((c->fl & NZ) && x == 0);
      }
    }
}

/* }}} */
/* {{{ generator */

static void gen_string(mgen_t *g, mval_t *v, const iop_field_t *f,
                       const cons_t *c, bool want_ok)
{
    pt_t *t = g->t;
    int max = g->big && pt_p(t, 1, g->big) ? 70000 : 12;
    int len, minl = 0;
    bb_t b = { 0 };

    if (f->type == IOP_T_XML && g->simple_xml) {
        static const char *frag[] = {
            "", "<a/>", "text", "<a>b</a>", "<x y=\"1\"><z>é</z></x>t",
            "<b><c/></b><d>1 2</d>", "a &amp; b",
        };
        const char *s = pt_pick(t, frag);
        v->len = strlen(s);
        v->s = ar_dup(s, v->len + 1);
        return;
    }
    if (want_ok && c && c->maxl >= 0) max = c->maxl;
    if (want_ok && c && c->minl >= 0) minl = c->minl;
    if (max < minl) max = minl + 8;
    len = minl + pt_size(t, max - minl);
    if (!want_ok && c && (c->maxl >= 0 || c->minl > 0) && pt_p(t, 2, 3)) {
        /* just out of the bounds */
        len = c->maxl >= 0 && (c->minl <= 0 || pt_bool(t)) ? c->maxl + 1 : c->minl - 1;
    }
    if (f->type == IOP_T_DATA || !g->utf8) {
        if (len > 64) {
            uint8_t *p = ar_alloc(len);
            pt_fill(t, p, len);
            bb_add(&b, p, len);
        } else {
            uint8_t p[64];
            pt_bytes(t, p, len);
            bb_add(&b, p, len);
        }
        if (want_ok && c && c->pat) {
            for (size_t i = 0; i < b.len; i++) b.p[i] = 'a' + b.p[i] % 20;
        }
    } else {
        while ((int)b.len < len) {
            uint32_t ch = pt_uchar(t);

            if (len > 100) {
                uint8_t fill[97];
                memset(fill, want_ok && c && c->pat ? 'b' : 'a' + (int)(ch % 26), sizeof(fill));
                bb_add(&b, fill, MIN((int)sizeof(fill), len - (int)b.len));
                continue;
            }
            if (ch % 16 == 9 && !(c && want_ok && (c->pat || c->maxl >= 0))) {
                static const char *const snip[] = { "]]>", "&amp;", "<!--", "\\u00e9", "\\\"", "/*", "//", "%s", "'",
                    ": ", " #", "- ", "null", "]]&gt;", "\n", "\n ", "\t", "<a>" };
                bb_s(&b, snip[ch / 16 % countof(snip)]);
                continue;
            }
            if (g->xmlchars && ((ch < 0x20 && ch != '\n' && ch != '\t') || ch == 0xfffe
                                || ch == 0xffff || ch == 0x7f))
                ch = 'x';
            if (want_ok && c && c->pat) {
                uint8_t o = ch;
                ch = pat_ok(c->pat, &o, 1) && ch < 0x80 ? ch : 'b';
            }
            if (ch < 0x80) {
                bb_c(&b, ch);
            } else if (ch < 0x800) {
                bb_c(&b, 0xc0 | (ch >> 6)); bb_c(&b, 0x80 | (ch & 63));
            } else if (ch < 0x10000) {
                bb_c(&b, 0xe0 | (ch >> 12)); bb_c(&b, 0x80 | ((ch >> 6) & 63));
                bb_c(&b, 0x80 | (ch & 63));
            } else {
                bb_c(&b, 0xf0 | (ch >> 18)); bb_c(&b, 0x80 | ((ch >> 12) & 63));
                bb_c(&b, 0x80 | ((ch >> 6) & 63)); bb_c(&b, 0x80 | (ch & 63));
            }
        }
        if (want_ok && c && c->maxl >= 0 && (int)b.len > c->maxl) {
            b.len = 0;
            while ((int)b.len < len) bb_c(&b, 'a' + b.len);
        }
    }
    bb_c(&b, 0);
    v->len = b.len - 1;
    v->s = ar_dup(b.p, b.len);
}

static int type_bits(int type)
{
    return 8 << (type / 2);
}

static void gen_scalar(mgen_t *g, mval_t *v, const iop_field_t *f,
                       const cons_t *c, bool want_ok)
{
    pt_t *t = g->t;

    switch (f->type) {
      case IOP_T_I8: case IOP_T_I16: case IOP_T_I32: case IOP_T_I64:
        v->i = pt_sbits(t, type_bits(f->type));
        break;
      case IOP_T_U8: case IOP_T_U16: case IOP_T_U32: case IOP_T_U64:
        v->u = pt_bits(t, type_bits(f->type));
        break;
      case IOP_T_BOOL: v->u = pt_bool(t); return;
      case IOP_T_ENUM: {
        const iop_enum_t *e = f->u1.en_desc;
        bool decl = want_ok ? (g->known_enums || enum_strict(e) || c || !pt_p(t, 1, 4))
                            : !enum_strict(e) || pt_bool(t);
        if (decl || (c && (c->allow || c->disallow))) {
            int n = e->enum_len;
            v->i = e->values[pt_u(t, n - 1)];
        } else {
            v->i = pt_sbits(t, 32);
        }
      } break;
      case IOP_T_DOUBLE: v->d = pt_double(t, g->finite); break;
      case IOP_T_STRING: case IOP_T_DATA: case IOP_T_XML:
        gen_string(g, v, f, c, want_ok);
        return;
      default:
        return;
    }
    if (c && !want_ok && (c->fl & HAS_MIN) && pt_p(t, 2, 3)) {
        /* just out of the bounds */
        bool lo = pt_bool(t);

        if (f->type == IOP_T_DOUBLE) {
            double x = lo ? nextafter(c->mind, -INFINITY) : nextafter(c->maxd, INFINITY);

            if (isfinite(x)) v->d = x;
        } else if (f->type != IOP_T_ENUM) {
            int bits = type_bits(f->type);
            bool sgn = f->type == IOP_T_I8 || f->type == IOP_T_I16 || f->type == IOP_T_I32
                    || f->type == IOP_T_I64;
            __int128 x = lo ? c->min - 1 : c->max + 1;
            __int128 tmin = sgn ? -((__int128)1 << (bits - 1)) : 0;
            __int128 tmax = ((__int128)1 << (bits - sgn)) - 1;

            if (x >= tmin && x <= tmax) v->i = x;
        }
    }
    if (c && !want_ok && (c->fl & NZ) && pt_p(t, 1, 3)) {
        if (f->type == IOP_T_DOUBLE) v->d = 0; else if (f->type != IOP_T_ENUM) v->i = 0;
    }
    if (!c || !want_ok) return;
    /* move into the domain */
    if (f->type == IOP_T_ENUM) {
        const iop_enum_t *e = f->u1.en_desc;
        int k = pt_u(t, e->enum_len - 1);
        for (int i = 0; !val_ok(c, f, v) && i < e->enum_len; i++)
            v->i = e->values[(k + i) % e->enum_len];
    } else
    if (f->type == IOP_T_DOUBLE) {
        if (!(c->fl & HAS_MIN)) return;
        if (isnan(v->d)) v->d = 2;
        if (v->d < c->mind) v->d = pt_bool(t) ? c->mind : c->mind + 0.5;
        if (v->d > c->maxd) v->d = pt_bool(t) ? c->maxd : c->maxd - 0.5;
        if ((c->fl & NZ) && v->d == 0) v->d = 4;
    } else
    if (c->fl & HAS_MIN) {
        __int128 x = f->type == IOP_T_U64 ? (__int128)v->u : (__int128)v->i;
        if (x < c->min || x > c->max) {
            bool lo = c->min > LO && (c->max == HI || pt_bool(t));
            x = lo ? c->min + pt_u(t, 2) : c->max - pt_u(t, 2);
        }
        if ((c->fl & NZ) && x == 0) x = 1;
        v->i = x;
    }
}

static void gen_fields(mgen_t *g, mst_t *m, const iop_struct_t *desc, mfld_t *out,
                       int depth);

static mst_t *mgen_(mgen_t *g, const iop_struct_t *desc, int depth,
                    const cons_t *c, bool want_ok)
{
    mst_t *m = ar_alloc(sizeof(*m));
    const iop_struct_t *lv[16];
    int nl, nf = 0;

    if (st_is_class(desc)) {
        const iop_struct_t *subs[32];
        int n = vt_subclasses(desc, subs, 32);

        desc = subs[g->budget <= 0 && subs[0] == desc ? 0 : pt_u(g->t, n - 1)];
    }
    m->desc = desc;
    nl = st_levels(desc, lv);
    if (desc->is_union) {
        int nfd = desc->fields_len;
        int sel = pt_u(g->t, nfd - 1);

        if (g->budget <= 0) sel = 0;
        if (c) {
            for (int i = 0; i < nfd; i++) {
                mst_t tmp = { .desc = desc, .sel = (sel + i) % nfd };
                mval_t v = { .st = &tmp };
                iop_field_t f = { .type = IOP_T_UNION };
                if (val_ok(c, &f, &v) == want_ok) {
                    sel = tmp.sel;
                    break;
                }
            }
        }
        m->sel = sel;
        m->nf = desc->fields_len;
        m->f = ar_alloc(m->nf * sizeof(mfld_t));
        gen_fields(g, m, desc, m->f, depth);
        return m;
    }
    for (int i = 0; i < nl; i++) nf += lv[i]->fields_len;
    m->nf = nf;
    m->f = ar_alloc(nf * sizeof(mfld_t));
    nf = 0;
    for (int i = 0; i < nl; i++) {
        gen_fields(g, m, lv[i], m->f + nf, depth);
        nf += lv[i]->fields_len;
    }
    return m;
}

static void gen_fields(mgen_t *g, mst_t *m, const iop_struct_t *desc, mfld_t *out,
                       int depth)
{
    pt_t *t = g->t;

    for (int i = 0; i < desc->fields_len; i++) {
        const iop_field_t *f = &desc->fields[i];
        const cons_t *c = cons_find(desc, f);
        mfld_t *o = &out[i];
        bool ok = true, poor = g->budget <= 0 || depth > 6;
        int n = 1;

        if (desc->is_union && i != m->sel) continue;
        if (g->viol && (c || (f->type == IOP_T_ENUM && enum_strict(f->u1.en_desc)))
        &&  !g->violated && pt_p(t, 1, g->viol))
            ok = false;
        if (f->type == IOP_T_VOID) {
            o->n = f->repeat == IOP_R_OPTIONAL ? pt_bool(t) : desc->is_union;
            o->v = ar_alloc(sizeof(mval_t));
            continue;
        }
        switch (f->repeat) {
          case IOP_R_REQUIRED: break;
          case IOP_R_DEFVAL:
            if ((g->no_priv && field_is_private(desc, f))
            ||  (ok && !pt_p(t, 2, 3)))
            {
                o->n = 1;
                o->v = ar_alloc(sizeof(mval_t));
                *o->v = field_defval(f);
                continue;
            }
            break;
          case IOP_R_OPTIONAL:
            if (g->no_priv && field_is_private(desc, f)) continue;
            if (ok && (poor || !pt_p(t, 1, 2))) continue;
            break;
          case IOP_R_REPEATED: {
            int mino = c && c->mino >= 0 ? c->mino : 0;
            int maxo = c && c->maxo >= 0 ? c->maxo : mino + 5;

            if (g->no_priv && field_is_private(desc, f)) continue;
            if (!ok && (c && (c->mino >= 0 || c->maxo >= 0)) && pt_bool(t)) {
                if (c->maxo < 0 || (c->mino > 0 && pt_bool(t))) {
                    n = pt_u(t, c->mino - 1);
                } else {
                    n = c->maxo + 1 + pt_u(t, 1);
                }
                g->violated = true;
                (snprintf)(g->vwhere, sizeof(g->vwhere), "%.*s.%.*s: %d values",
                           desc->fullname.len, desc->fullname.s, f->name.len, f->name.s, n);
                ok = true;
            } else {
                n = mino;
                while (n < maxo && !poor && pt_more(t, 2)) n++;
                if (!c && !poor && f->type < IOP_T_STRING && pt_p(t, 1, 12))
                    n += pt_u(t, 300);
            }
            if (!n) continue;
          } break;
        }
        if (n > 20) {
            /* many scalars, out of one choice */
            uint64_t s = pt_u(t, UINT64_MAX);
            o->n = n;
            o->v = ar_alloc(n * sizeof(mval_t));
            for (int k = 0; k < n; k++) {
                uint64_t r = pt_splitmix(&s) >> (pt_splitmix(&s) % 64);
                switch (f->type) {
                  case IOP_T_I8: o->v[k].i = (int8_t)r; break;
                  case IOP_T_U8: o->v[k].u = (uint8_t)r; break;
                  case IOP_T_I16: o->v[k].i = (int16_t)r; break;
                  case IOP_T_U16: o->v[k].u = (uint16_t)r; break;
                  case IOP_T_I32: o->v[k].i = (int32_t)r; break;
                  case IOP_T_U32: o->v[k].u = (uint32_t)r; break;
                  case IOP_T_BOOL: o->v[k].u = r & 1; break;
                  case IOP_T_ENUM:
                    o->v[k].i = f->u1.en_desc->values[r % f->u1.en_desc->enum_len]; break;
                  case IOP_T_DOUBLE: o->v[k].d = (double)(int64_t)r / 16; break;
                  default: o->v[k].u = r; break;
                }
            }
            g->budget -= 10;
            continue;
        }
        o->n = n;
        o->v = ar_alloc(n * sizeof(mval_t));
        for (int k = 0; k < n; k++) {
            bool kok = ok || k != n - 1;

            g->budget--;
            if (f->type == IOP_T_STRUCT || f->type == IOP_T_UNION) {
                o->v[k].st = mgen_(g, f->u1.st_desc, depth + 1, c, kok);
            } else {
                gen_scalar(g, &o->v[k], f, c, kok);
            }
            if (!val_ok(c, f, &o->v[k])
            &&  !(f->repeat == IOP_R_DEFVAL && field_is_defval(f, &o->v[k])))
            {
                g->violated = true;
                (snprintf)(g->vwhere, sizeof(g->vwhere), "%.*s.%.*s[%d]",
                           desc->fullname.len, desc->fullname.s, f->name.len, f->name.s, k);
            }
        }
    }
}

mst_t *mgen(mgen_t *g, const iop_struct_t *desc)
{
    g->violated = false;
    return mgen_(g, desc, 0, NULL, true);
}

int m_count(const mst_t *m)
{
    int res = 1, k = 0;
    const iop_struct_t *lv[16];
    int nl = st_levels(m->desc, lv);

    for (int l = 0; l < nl; l++) {
        for (int i = 0; i < lv[l]->fields_len; i++, k++) {
            res += m->f[k].n;
            if (lv[l]->fields[i].type == IOP_T_STRUCT || lv[l]->fields[i].type == IOP_T_UNION) {
                for (int j = 0; j < m->f[k].n; j++) res += m_count(m->f[k].v[j].st);
            }
        }
    }
    return res;
}

/* }}} */
/* {{{ C values */

void put_scalar(int type, void *p, const mval_t *v)
{
    switch (type) {
      case IOP_T_I8: case IOP_T_U8: *(uint8_t *)p = v->u; break;
      case IOP_T_BOOL: *(bool *)p = v->u & 1; break;
      case IOP_T_I16: case IOP_T_U16: *(uint16_t *)p = v->u; break;
      case IOP_T_I32: case IOP_T_U32: case IOP_T_ENUM: *(uint32_t *)p = v->u; break;
      case IOP_T_I64: case IOP_T_U64: *(uint64_t *)p = v->u; break;
      case IOP_T_DOUBLE: *(double *)p = v->d; break;
      case IOP_T_STRING: case IOP_T_DATA: case IOP_T_XML:
        *(lstr_t *)p = LSTR_INIT_V((char *)v->s, v->len);
        break;
    }
}

int val_size(const iop_field_t *f)
{
    switch (f->type) {
      case IOP_T_I8: case IOP_T_U8: case IOP_T_BOOL: return 1;
      case IOP_T_I16: case IOP_T_U16: return 2;
      case IOP_T_I32: case IOP_T_U32: case IOP_T_ENUM: return 4;
      case IOP_T_I64: case IOP_T_U64: case IOP_T_DOUBLE: return 8;
      case IOP_T_STRING: case IOP_T_DATA: case IOP_T_XML: return sizeof(lstr_t);
      case IOP_T_STRUCT: case IOP_T_UNION:
        return field_is_class(f) ? (int)sizeof(void *) : f->u1.st_desc->size;
      default: return 0;
    }
}

static void set_has(const iop_field_t *f, void *p, bool has)
{
    switch (f->type) {
      case IOP_T_I8: case IOP_T_U8: ((opt_u8_t *)p)->has_field = has; break;
      case IOP_T_BOOL: ((opt_bool_t *)p)->has_field = has; break;
      case IOP_T_I16: case IOP_T_U16: ((opt_u16_t *)p)->has_field = has; break;
      case IOP_T_I32: case IOP_T_U32: case IOP_T_ENUM: ((opt_u32_t *)p)->has_field = has; break;
      case IOP_T_I64: case IOP_T_U64: ((opt_u64_t *)p)->has_field = has; break;
      case IOP_T_DOUBLE: ((opt_double_t *)p)->has_field = has; break;
      case IOP_T_VOID: *(bool *)p = has; break;
      default: break;
    }
}

static bool get_has(const iop_field_t *f, const void *p)
{
    switch (f->type) {
      case IOP_T_I8: case IOP_T_U8: return ((opt_u8_t *)p)->has_field;
      case IOP_T_BOOL: return ((opt_bool_t *)p)->has_field;
      case IOP_T_I16: case IOP_T_U16: return ((opt_u16_t *)p)->has_field;
      case IOP_T_I32: case IOP_T_U32: case IOP_T_ENUM: return ((opt_u32_t *)p)->has_field;
      case IOP_T_I64: case IOP_T_U64: return ((opt_u64_t *)p)->has_field;
      case IOP_T_DOUBLE: return ((opt_double_t *)p)->has_field;
      case IOP_T_VOID: return *(bool *)p;
      case IOP_T_STRING: case IOP_T_DATA: case IOP_T_XML: return ((lstr_t *)p)->s != NULL;
      default: return *(void **)p != NULL;
    }
}

static int union_offs(const iop_struct_t *d)
{
    for (int i = 0; i < d->fields_len; i++) {
        if (d->fields[i].data_offs) return d->fields[i].data_offs;
    }
    return d->size;
}
static void union_put_tag(const iop_struct_t *d, void *p, int tag)
{
    switch (union_offs(d)) {
      case 1: *(uint8_t *)p = tag; break;
      case 2: *(uint16_t *)p = tag; break;
      default: *(uint32_t *)p = tag; break;
    }
}
int union_get_tag(const iop_struct_t *d, const void *p)
{
    return union_offs(d) == 1 ? *(const uint8_t *)p : *(const uint16_t *)p;
}

static void m_fill_c(const mst_t *m, void *c);

static void m_fill_c(const mst_t *m, void *c)
{
    const iop_struct_t *lv[16];
    int nl = st_levels(m->desc, lv), k = 0;

    if (st_is_class(m->desc)) *(const iop_struct_t **)c = m->desc;
    if (m->desc->is_union)
        union_put_tag(m->desc, c, m->desc->fields[m->sel].tag);
    for (int l = 0; l < nl; l++) {
        for (int i = 0; i < lv[l]->fields_len; i++, k++) {
            const iop_field_t *f = &lv[l]->fields[i];
            const mfld_t *o = &m->f[k];
            char *p = (char *)c + f->data_offs;
            bool st = f->type == IOP_T_STRUCT || f->type == IOP_T_UNION;

            if (m->desc->is_union && i != m->sel) continue;
            if (f->type == IOP_T_VOID) {
                if (f->repeat == IOP_R_OPTIONAL) *(bool *)p = o->n;
                continue;
            }
            if (f->repeat == IOP_R_REPEATED) {
                int sz = val_size(f);
                char *tab = o->n ? ar_alloc(o->n * sz) : NULL;

                for (int j = 0; j < o->n; j++) {
                    if (field_is_class(f)) {
                        ((void **)tab)[j] = m_to_c(o->v[j].st);
                    } else if (st) {
                        m_fill_c(o->v[j].st, tab + j * sz);
                    } else {
                        put_scalar(f->type, tab + j * sz, &o->v[j]);
                    }
                }
                *(lstr_t *)p = LSTR_INIT_V(tab, o->n);
                continue;
            }
            if (!o->n) continue;
            if (st) {
                if (f->repeat == IOP_R_OPTIONAL || field_is_ref(f) || field_is_class(f)) {
                    *(void **)p = m_to_c(o->v[0].st);
                } else {
                    m_fill_c(o->v[0].st, p);
                }
            } else {
                put_scalar(f->type, p, &o->v[0]);
                if (f->repeat == IOP_R_OPTIONAL) set_has(f, p, true);
            }
        }
    }
}

void *m_to_c(const mst_t *m)
{
    void *c = ar_alloc(m->desc->size);

    m_fill_c(m, c);
    return c;
}

void get_scalar(int type, const void *p, mval_t *v)
{
    v->u = 0;
    switch (type) {
      case IOP_T_I8: v->i = *(const int8_t *)p; break;
      case IOP_T_U8: v->u = *(const uint8_t *)p; break;
      case IOP_T_BOOL: v->u = *(const uint8_t *)p; break;
      case IOP_T_I16: v->i = *(const int16_t *)p; break;
      case IOP_T_U16: v->u = *(const uint16_t *)p; break;
      case IOP_T_ENUM:
      case IOP_T_I32: v->i = *(const int32_t *)p; break;
      case IOP_T_U32: v->u = *(const uint32_t *)p; break;
      case IOP_T_I64: case IOP_T_U64: memcpy(&v->u, p, 8); break;
      case IOP_T_DOUBLE: memcpy(&v->d, p, 8); break;
      case IOP_T_STRING: case IOP_T_DATA: case IOP_T_XML:
        v->s = (uint8_t *)((const lstr_t *)p)->s;
        v->len = ((const lstr_t *)p)->len;
        break;
    }
}

bool scalar_eq(int type, const mval_t *a, const mval_t *b)
{
    switch (type) {
      case IOP_T_STRING: case IOP_T_DATA: case IOP_T_XML:
        return a->len == b->len && (!a->len || !memcmp(a->s, b->s, a->len));
      case IOP_T_DOUBLE:
        return !memcmp(&a->d, &b->d, 8);
      case IOP_T_ENUM: case IOP_T_I32:
        return (int32_t)a->i == (int32_t)b->i;
      case IOP_T_VOID:
        return true;
      default:
        return a->u == b->u;
    }
}

bool field_is_defval(const iop_field_t *f, const mval_t *v)
{
    mval_t d = field_defval(f);

    return scalar_eq(f->type, v, &d);
}

bool m_equal(const mst_t *a, const mst_t *b)
{
    const iop_struct_t *lv[16];
    int nl, k = 0;

    if (a->desc != b->desc || (a->desc->is_union && a->sel != b->sel)) return false;
    nl = st_levels(a->desc, lv);
    for (int l = 0; l < nl; l++) {
        for (int i = 0; i < lv[l]->fields_len; i++, k++) {
            const iop_field_t *f = &lv[l]->fields[i];

            if (a->desc->is_union && i != a->sel) continue;
            if (a->f[k].n != b->f[k].n) return false;
            for (int j = 0; j < a->f[k].n; j++) {
                if (f->type == IOP_T_STRUCT || f->type == IOP_T_UNION) {
                    if (!m_equal(a->f[k].v[j].st, b->f[k].v[j].st)) return false;
                } else if (!scalar_eq(f->type, &a->f[k].v[j], &b->f[k].v[j])) {
                    return false;
                }
            }
        }
    }
    return true;
}

static char dbuf[400];
static const char *diff(const iop_struct_t *d, const iop_field_t *f, const char *what, ...)
{
    va_list ap;
    int n = (snprintf)(dbuf, sizeof(dbuf), "%.*s.%.*s: ", d->fullname.len,
                       d->fullname.s, f ? f->name.len : 0, f ? f->name.s : "");
    va_start(ap, what);
    (vsnprintf)(dbuf + n, sizeof(dbuf) - n, what, ap);
    va_end(ap);
    return dbuf;
}

const char *m_diff_c(const mst_t *m, const void *c)
{
    const iop_struct_t *lv[16];
    int nl = st_levels(m->desc, lv), k = 0;

    if (st_is_class(m->desc)) {
        const iop_struct_t *r = *(const iop_struct_t *const *)c;
        if (r != m->desc)
            return diff(m->desc, NULL, "class is %p %.*s", r, r ? r->fullname.len : 0,
                        r ? r->fullname.s : "");
    }
    if (m->desc->is_union && union_get_tag(m->desc, c) != m->desc->fields[m->sel].tag)
        return diff(m->desc, &m->desc->fields[m->sel], "selected tag is %d",
                    union_get_tag(m->desc, c));
    for (int l = 0; l < nl; l++) {
        for (int i = 0; i < lv[l]->fields_len; i++, k++) {
            const iop_field_t *f = &lv[l]->fields[i];
            const mfld_t *o = &m->f[k];
            const char *p = (const char *)c + f->data_offs;
            bool st = f->type == IOP_T_STRUCT || f->type == IOP_T_UNION;
            const char *r;
            mval_t v;

            if (m->desc->is_union && i != m->sel) continue;
            if (f->type == IOP_T_VOID) {
                if (f->repeat == IOP_R_OPTIONAL && *(const uint8_t *)p != o->n)
                    return diff(lv[l], f, "void presence %d, expected %d", *p, o->n);
                continue;
            }
            if (f->repeat == IOP_R_REPEATED) {
                lstr_t arr = *(const lstr_t *)p;
                int sz = val_size(f);

                if (arr.len != o->n)
                    return diff(lv[l], f, "%d values, expected %d", arr.len, o->n);
                for (int j = 0; j < o->n; j++) {
                    if (st) {
                        const void *e = field_is_class(f) ? ((void **)arr.v)[j]
                                                          : (char *)arr.v + j * sz;
                        if ((r = m_diff_c(o->v[j].st, e))) return r;
                    } else {
                        get_scalar(f->type, (char *)arr.v + j * sz, &v);
                        if (!scalar_eq(f->type, &v, &o->v[j]))
                            return diff(lv[l], f, "value %d: %llx, expected %llx (len %d/%d)", j,
                                        (unsigned long long)v.u, (unsigned long long)o->v[j].u,
                                        v.len, o->v[j].len);
                    }
                }
                continue;
            }
            if (f->repeat == IOP_R_OPTIONAL) {
                if (get_has(f, p) != (o->n > 0))
                    return diff(lv[l], f, "presence %d, expected %d", get_has(f, p), o->n);
                if (!o->n) continue;
            }
            if (st) {
                const void *e = p;
                if (f->repeat == IOP_R_OPTIONAL || field_is_ref(f) || field_is_class(f)) {
                    e = *(void *const *)p;
                    if (!e) return diff(lv[l], f, "null pointer");
                }
                if ((r = m_diff_c(o->v[0].st, e))) return r;
            } else {
                get_scalar(f->type, p, &v);
                if (!scalar_eq(f->type, &v, &o->v[0]))
                    return diff(lv[l], f, "%llx, expected %llx (length %d, expected %d)",
                                (unsigned long long)v.u, (unsigned long long)o->v[0].u,
                                v.len, o->v[0].len);
            }
        }
    }
    return NULL;
}

void m_check_c(pt_t *t, const mst_t *m, const void *c, const char *what)
{
    const char *d = m_diff_c(m, c);

    PT_CHECK(t, !d, "%s: %s", what, d);
}

const char *c_walk(const iop_struct_t *desc, const void *c, size_t *nb)
{
    const iop_struct_t *lv[16];
    int nl, k = 0, sel = -1;

    if (!c) return diff(desc, NULL, "null value");
    if (st_is_class(desc)) {
        const iop_struct_t *r = *(const iop_struct_t *const *)c, *q;
        bool found = false;

        for (int i = 0; i < countof(classes); i++) found |= classes[i] == r;
        if (!found) return diff(desc, NULL, "class pointer %p", r);
        for (q = r; q && q != desc; q = q->class_attrs->parent);
        if (!q) return diff(desc, NULL, "%.*s is not a child", r->fullname.len, r->fullname.s);
        if (r->class_attrs->is_abstract) return diff(desc, NULL, "abstract class");
        desc = r;
    }
    nl = st_levels(desc, lv);
    if (desc->is_union) {
        int tag = union_get_tag(desc, c);
        for (int i = 0; i < desc->fields_len; i++) if (desc->fields[i].tag == tag) sel = i;
        if (sel < 0) return diff(desc, NULL, "union tag %d", tag);
    }
    for (int l = 0; l < nl; l++) {
        for (int i = 0; i < lv[l]->fields_len; i++, k++) {
            const iop_field_t *f = &lv[l]->fields[i];
            const char *p = (const char *)c + f->data_offs, *r;
            bool st = f->type == IOP_T_STRUCT || f->type == IOP_T_UNION;
            int n = 1, sz = val_size(f);

            if (desc->is_union && i != sel) continue;
            if (f->type == IOP_T_VOID) continue;
            if (f->repeat == IOP_R_REPEATED) {
                n = ((const lstr_t *)p)->len;
                p = ((const lstr_t *)p)->v;
                if (n < 0) return diff(lv[l], f, "array of length %d", n);
            } else
            if (f->repeat == IOP_R_OPTIONAL) {
                if (!get_has(f, p)) continue;
                if (st) p = *(char *const *)p;
            } else
            if (field_is_ref(f)) {
                p = *(char *const *)p;
            }
            for (int j = 0; j < n; j++) {
                const char *e = p + (size_t)j * sz;

                ++*nb;
                if (st) {
                    if (field_is_class(f) && f->repeat != IOP_R_OPTIONAL) e = *(char *const *)e;
                    if ((r = c_walk(f->u1.st_desc, e, nb))) return r;
                } else {
                    mval_t v;
                    get_scalar(f->type, e, &v);
                    if (f->type == IOP_T_BOOL && v.u > 1)
                        return diff(lv[l], f, "boolean holding %d", (int)v.u);
                    if (f->type == IOP_T_STRING || f->type == IOP_T_DATA || f->type == IOP_T_XML) {
                        volatile uint8_t x = 0;
                        if (v.len < 0) return diff(lv[l], f, "string of length %d", v.len);
                        for (int b = 0; b < v.len; b++) x += v.s[b];
                        *nb += v.len / 16;
                    }
                }
            }
        }
    }
    return NULL;
}

static mst_t *m_of_c(const iop_struct_t *desc, const void *c)
{
    mst_t *m = ar_alloc(sizeof(*m));
    const iop_struct_t *lv[16];
    int nl, k = 0;

    if (st_is_class(desc)) desc = *(const iop_struct_t *const *)c;
    m->desc = desc;
    nl = st_levels(desc, lv);
    for (int l = 0; l < nl; l++) m->nf += lv[l]->fields_len;
    m->f = ar_alloc(m->nf * sizeof(mfld_t));
    if (desc->is_union) {
        int tag = union_get_tag(desc, c);
        for (int i = 0; i < desc->fields_len; i++) if (desc->fields[i].tag == tag) m->sel = i;
    }
    for (int l = 0; l < nl; l++) {
        for (int i = 0; i < lv[l]->fields_len; i++, k++) {
            const iop_field_t *f = &lv[l]->fields[i];
            const char *p = (const char *)c + f->data_offs;
            bool st = f->type == IOP_T_STRUCT || f->type == IOP_T_UNION;
            mfld_t *o = &m->f[k];
            int sz = val_size(f);

            if (desc->is_union && i != m->sel) continue;
            o->n = 1;
            if (f->type == IOP_T_VOID) {
                o->n = f->repeat == IOP_R_OPTIONAL ? *p : desc->is_union;
                o->v = ar_alloc(sizeof(mval_t));
                continue;
            }
            if (f->repeat == IOP_R_REPEATED) {
                o->n = ((const lstr_t *)p)->len;
                p = ((const lstr_t *)p)->v;
            } else
            if (f->repeat == IOP_R_OPTIONAL) {
                if (!get_has(f, p)) { o->n = 0; continue; }
                if (st) p = *(char *const *)p;
            } else
            if (field_is_ref(f)) {
                p = *(char *const *)p;
            }
            o->v = ar_alloc(o->n * sizeof(mval_t));
            for (int j = 0; j < o->n; j++) {
                const char *e = p + (size_t)j * sz;
                if (st) {
                    if (field_is_class(f) && f->repeat != IOP_R_OPTIONAL) e = *(char *const *)e;
                    o->v[j].st = m_of_c(f->u1.st_desc, e);
                } else {
                    get_scalar(f->type, e, &o->v[j]);
                    if (f->type >= IOP_T_STRING && f->type != IOP_T_STRUCT) {
                        o->v[j].s = ar_dup(o->v[j].s, o->v[j].len + 0);
                    }
                }
            }
        }
    }
    return m;
}
void m_read_c(const iop_struct_t *desc, const void *c, mst_t **out)
{
    *out = m_of_c(desc, c);
}

/* }}} */
/* {{{ reference encoder */

enum { BLK1, BLK2, BLK4, QUAD, INT1, INT2, INT4, REPEAT };

static void e_tag(bb_t *b, int tag, int wt)
{
    if (tag < 30) {
        bb_c(b, wt << 5 | tag);
    } else if (tag < 256) {
        bb_c(b, wt << 5 | 30); bb_c(b, tag);
    } else {
        bb_c(b, wt << 5 | 31); bb_le(b, tag, 2);
    }
}
static void e_int(bb_t *b, int tag, int64_t v)
{
    if (v == (int8_t)v)       { e_tag(b, tag, INT1); bb_le(b, v, 1); }
    else if (v == (int16_t)v) { e_tag(b, tag, INT2); bb_le(b, v, 2); }
    else if (v == (int32_t)v) { e_tag(b, tag, INT4); bb_le(b, v, 4); }
    else                      { e_tag(b, tag, QUAD); bb_le(b, v, 8); }
}
static void e_blk(bb_t *b, int tag, size_t len)
{
    if (len < 256)        { e_tag(b, tag, BLK1); bb_le(b, len, 1); }
    else if (len < 65536) { e_tag(b, tag, BLK2); bb_le(b, len, 2); }
    else                  { e_tag(b, tag, BLK4); bb_le(b, len, 4); }
}

static void e_val(bb_t *b, const iop_field_t *f, int tag, const mval_t *v, unsigned flags)
{
    switch (f->type) {
      case IOP_T_DOUBLE:
        e_tag(b, tag, QUAD);
        bb_le(b, v->u, 8);
        break;
      case IOP_T_STRING: case IOP_T_DATA: case IOP_T_XML:
        e_blk(b, tag, v->len + 1);
        bb_add(b, v->s, v->len);
        bb_c(b, 0);
        break;
      case IOP_T_STRUCT: case IOP_T_UNION: {
        bb_t sub = { 0 };
        m_encode(&sub, v->st, flags);
        e_blk(b, tag, sub.len);
        bb_add(b, sub.p, sub.len);
      } break;
      case IOP_T_VOID:
        e_blk(b, tag, 0);
        break;
      default:
        e_int(b, tag, v->i);
        break;
    }
}

void e_tag_pub(bb_t *b, int tag, int wt) { e_tag(b, tag, wt); }
void e_int_pub(bb_t *b, int tag, int64_t v) { e_int(b, tag, v); }
void e_blk_pub(bb_t *b, int tag, size_t len) { e_blk(b, tag, len); }

static bool small_type(int type)
{
    return type == IOP_T_I8 || type == IOP_T_U8 || type == IOP_T_I16
        || type == IOP_T_U16 || type == IOP_T_BOOL;
}

static void e_fields(bb_t *b, const mst_t *m, const iop_struct_t *d, const mfld_t *o,
                     unsigned flags)
{
    for (int i = 0; i < d->fields_len; i++, o++) {
        const iop_field_t *f = &d->fields[i];

        if (d->is_union && i != m->sel) continue;
        if (!o->n) continue;
        if ((flags & IOP_BPACK_SKIP_PRIVATE) && field_is_private(d, f)) continue;
        if (f->repeat == IOP_R_DEFVAL && (flags & IOP_BPACK_SKIP_DEFVAL)
        &&  field_is_defval(f, &o->v[0]))
            continue;
        if (f->type == IOP_T_VOID && f->repeat == IOP_R_REQUIRED && !d->is_union) continue;
        if (o->n > 1) {
            if (small_type(f->type)) {
                int sz = f->type == IOP_T_I16 || f->type == IOP_T_U16 ? 2 : 1;
                e_blk(b, f->tag, o->n * sz);
                for (int j = 0; j < o->n; j++) bb_le(b, o->v[j].u, sz);
            } else {
                e_tag(b, f->tag, REPEAT);
                bb_le(b, o->n, 4);
                for (int j = 0; j < o->n; j++) e_val(b, f, 0, &o->v[j], flags);
            }
        } else {
            e_val(b, f, f->tag, &o->v[0], flags);
        }
    }
}

void m_encode(bb_t *out, const mst_t *m, unsigned flags)
{
    const iop_struct_t *lv[16];
    int nl = st_levels(m->desc, lv);
    const mfld_t *o = m->f;

    for (int l = 0; l < nl; l++) {
        bb_t b = { 0 };

        e_fields(&b, m, lv[l], o, flags);
        o += lv[l]->fields_len;
        if (st_is_class(m->desc) && (!l || b.len))
            e_int(out, 0, lv[l]->class_attrs->class_id);
        bb_add(out, b.p, b.len);
    }
}

/* {{{ loose encoder */

static void l_int(pt_t *t, bb_t *b, int tag, int64_t v, bool quad_ok)
{
    int w = v == (int8_t)v ? 0 : v == (int16_t)v ? 1 : v == (int32_t)v ? 2 : 3;

    if (pt_p(t, 1, 5)) { int w2 = pt_u(t, quad_ok ? 3 : 2); if (w2 > w) w = w2; }
    switch (w) {
      case 0: e_tag(b, tag, INT1); bb_le(b, v, 1); break;
      case 1: e_tag(b, tag, INT2); bb_le(b, v, 2); break;
      case 2: e_tag(b, tag, INT4); bb_le(b, v, 4); break;
      default: e_tag(b, tag, QUAD); bb_le(b, v, 8); break;
    }
}
static void l_blk(pt_t *t, bb_t *b, int tag, size_t len)
{
    int w = len < 256 ? 0 : len < 65536 ? 1 : 2;

    if (pt_p(t, 1, 5)) { int w2 = pt_u(t, 2); if (w2 > w) w = w2; }
    e_tag(b, tag, BLK1 + w);
    bb_le(b, len, 1 << w);
}
static void l_unknown(pt_t *t, bb_t *b, int tag)
{
    static const uint8_t junk[40];
    int n;

    switch (pt_u(t, 6)) {
      case 0: n = pt_u(t, 40); l_blk(t, b, tag, n); bb_add(b, junk, n); break;
      case 1: e_tag(b, tag, INT1); bb_le(b, pt_bits(t, 8), 1); break;
      case 2: e_tag(b, tag, INT2); bb_le(b, pt_bits(t, 16), 2); break;
      case 3: e_tag(b, tag, INT4); bb_le(b, pt_bits(t, 32), 4); break;
      case 4: e_tag(b, tag, QUAD); bb_le(b, pt_bits(t, 64), 8); break;
      default:
        e_tag(b, tag, REPEAT);
        n = 1 + pt_u(t, 3);
        bb_le(b, n, 4);
        while (n--) {
            int l;
            switch (pt_u(t, 2)) {
              case 0: l = pt_u(t, 30); l_blk(t, b, 0, l); bb_add(b, junk, l); break;
              case 1: l_int(t, b, 0, pt_sbits(t, 64), true); break;
              default: e_tag(b, 0, QUAD); bb_le(b, pt_bits(t, 64), 8); break;
            }
        }
        break;
    }
}

static bool m_is_absentable(const mst_t *m)
{
    /* would decoding an empty block give this value? */
    const iop_struct_t *lv[16];
    int nl, k = 0;

    if (m->desc->is_union) return false;
    nl = st_levels(m->desc, lv);
    for (int l = 0; l < nl; l++) {
        for (int i = 0; i < lv[l]->fields_len; i++, k++) {
            const iop_field_t *f = &lv[l]->fields[i];
            if (f->type == IOP_T_VOID && f->repeat == IOP_R_REQUIRED) continue;
            switch (f->repeat) {
              case IOP_R_REQUIRED:
                if (f->type != IOP_T_STRUCT) return false;
                if (field_is_class(f)
                && (m->f[k].v[0].st->desc != f->u1.st_desc
                    || f->u1.st_desc->class_attrs->is_abstract)) return false;
                if (!m_is_absentable(m->f[k].v[0].st)) return false;
                break;
              case IOP_R_DEFVAL:
                if (!field_is_defval(f, &m->f[k].v[0])) return false;
                break;
              default:
                if (m->f[k].n) return false;
                if (f->repeat == IOP_R_REPEATED
                &&  ((f->flags >> IOP_FIELD_NO_EMPTY_ARRAY) & 1)) return false;
                break;
            }
        }
    }
    return true;
}

static void l_val(pt_t *t, bb_t *b, const iop_field_t *f, int tag, const mval_t *v, int *feats)
{
    switch (f->type) {
      case IOP_T_DOUBLE: case IOP_T_VOID:
        e_val(b, f, tag, v, 0);
        break;
      case IOP_T_STRING: case IOP_T_DATA: case IOP_T_XML:
        l_blk(t, b, tag, v->len + 1);
        bb_add(b, v->s, v->len);
        bb_c(b, 0);
        break;
      case IOP_T_STRUCT: case IOP_T_UNION: {
        bb_t sub = { 0 };
        m_encode_loose(t, &sub, v->st, feats);
        l_blk(t, b, tag, sub.len);
        bb_add(b, sub.p, sub.len);
      } break;
      default:
        l_int(t, b, tag, v->i, true);
        break;
    }
}

static void l_fields(pt_t *t, bb_t *b, const mst_t *m, const iop_struct_t *d,
                     const mfld_t *o, int *feats)
{
    int prev = 0;

    for (int i = 0; i < d->fields_len; i++, o++) {
        const iop_field_t *f = &d->fields[i];

        if (d->is_union && i != m->sel) continue;
        if (!d->is_union && f->tag > prev + 1 && pt_p(t, 1, 4)) {
            /* a tag that this version of the type does not know */
            int lo = prev + 1 + pt_u(t, f->tag - prev - 2);
            *feats |= 1;
            l_unknown(t, b, lo);
            if (lo + 1 < f->tag && pt_bool(t))
                l_unknown(t, b, lo + 1);
        }
        prev = f->tag;
        if (!o->n) continue;
        if (f->repeat == IOP_R_DEFVAL && field_is_defval(f, &o->v[0]) && pt_bool(t)) {
            *feats |= 2;
            continue;
        }
        if (f->type == IOP_T_VOID && f->repeat == IOP_R_REQUIRED && !d->is_union) continue;
        if (f->repeat == IOP_R_REQUIRED && f->type == IOP_T_STRUCT && !d->is_union
        &&  (!field_is_class(f) || (o->v[0].st->desc == f->u1.st_desc))
        &&  m_is_absentable(o->v[0].st) && pt_bool(t))
        {
            *feats |= 4;
            continue;
        }
        if (f->repeat == IOP_R_REPEATED && small_type(f->type)) {
            if (o->n > 1 || pt_bool(t)) {
                int sz = f->type == IOP_T_I16 || f->type == IOP_T_U16 ? 2 : 1;
                if (pt_p(t, 1, 4)) {
                    goto repeat;
                }
                l_blk(t, b, f->tag, o->n * sz);
                for (int j = 0; j < o->n; j++) bb_le(b, o->v[j].u, sz);
                continue;
            }
        }
        if (f->repeat == IOP_R_REPEATED && (o->n > 1 || pt_p(t, 1, 4))) {
          repeat:
            *feats |= 8;
            e_tag(b, f->tag, REPEAT);
            bb_le(b, o->n, 4);
            for (int j = 0; j < o->n; j++) l_val(t, b, f, 0, &o->v[j], feats);
            continue;
        }
        if (f->repeat != IOP_R_REPEATED && !d->is_union && pt_p(t, 1, 10)) {
            /* the field used to be an array: the last value counts */
            int n = 1 + pt_u(t, 2);

            *feats |= 16;
            e_tag(b, f->tag, REPEAT);
            bb_le(b, n, 4);
            while (--n > 0) {
                mval_t v = { .i = 1 };
                if (f->type == IOP_T_STRUCT || f->type == IOP_T_UNION
                ||  f->type >= IOP_T_STRING) {
                    l_blk(t, b, 0, 3);
                    bb_add(b, "ab", 3);
                } else {
                    e_val(b, f, 0, &v, 0);
                }
            }
            l_val(t, b, f, 0, &o->v[0], feats);
            continue;
        }
        l_val(t, b, f, f->tag, &o->v[0], feats);
    }
    if (!d->is_union && prev < 60000 && pt_p(t, 1, 6)) {
        int k = 1 + pt_u(t, 1);

        *feats |= 32;
        while (k--) {
            prev += 1 + pt_bits(t, 9);
            l_unknown(t, b, prev);
        }
    }
}

void m_encode_loose(pt_t *t, bb_t *out, const mst_t *m, int *feats)
{
    const iop_struct_t *lv[16];
    int nl = st_levels(m->desc, lv);
    const mfld_t *o = m->f;

    for (int l = 0; l < nl; l++) {
        bb_t b = { 0 };

        l_fields(t, &b, m, lv[l], o, feats);
        o += lv[l]->fields_len;
        if (st_is_class(m->desc) && (!l || b.len || pt_p(t, 1, 3)))
            l_int(t, out, 0, lv[l]->class_attrs->class_id, false);
        bb_add(out, b.p, b.len);
    }
}

/* }}} */
/* }}} */
/* {{{ printing */

static void p_str(bb_t *b, const mval_t *v)
{
    bb_c(b, '"');
    for (int i = 0; i < v->len && i < 40; i++) {
        uint8_t c = v->s[i];
        if (c < 0x20 || c >= 0x7f || c == '"') bb_f(b, "\\x%02x", c); else bb_c(b, c);
    }
    bb_f(b, v->len > 40 ? "...\"(%d)" : "\"", v->len);
}

void m_print(bb_t *b, const mst_t *m)
{
    const iop_struct_t *lv[16];
    int nl = st_levels(m->desc, lv), k = 0;

    bb_f(b, "%.*s{", m->desc->fullname.len, m->desc->fullname.s);
    for (int l = 0; l < nl; l++) {
        for (int i = 0; i < lv[l]->fields_len; i++, k++) {
            const iop_field_t *f = &lv[l]->fields[i];
            const mfld_t *o = &m->f[k];

            if ((m->desc->is_union && i != m->sel) || !o->n) continue;
            bb_f(b, " %.*s=", f->name.len, f->name.s);
            if (f->repeat == IOP_R_REPEATED) bb_c(b, '[');
            for (int j = 0; j < o->n && j < 8; j++) {
                if (j) bb_c(b, ' ');
                switch (f->type) {
                  case IOP_T_STRUCT: case IOP_T_UNION: m_print(b, o->v[j].st); break;
                  case IOP_T_STRING: case IOP_T_DATA: case IOP_T_XML: p_str(b, &o->v[j]); break;
                  case IOP_T_DOUBLE: bb_f(b, "%.17g", o->v[j].d); break;
                  case IOP_T_U64: bb_f(b, "%llu", (unsigned long long)o->v[j].u); break;
                  case IOP_T_VOID: bb_s(b, "void"); break;
                  default: bb_f(b, "%lld", (long long)o->v[j].i); break;
                }
            }
            if (o->n > 8) bb_f(b, " ...%d", o->n);
            if (f->repeat == IOP_R_REPEATED) bb_c(b, ']');
        }
    }
    bb_c(b, '}');
}

void m_note(pt_t *t, const char *what, const mst_t *m)
{
    bb_t b = { 0 };

    if (!pt_verbose(t)) return;
    m_print(&b, m);
    pt_note(t, "%s %.*s", what, (int)MIN(b.len, (size_t)1500), b.p);
}

/* }}} */
