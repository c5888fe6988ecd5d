/* IOP JSON: strict output, round trips, the extended syntax, hostile text,
 * files (C03). */
#include "iopm.h"
#include <math.h>
#include <lib-common/iop-json.h>
#include <lib-common/unix.h>
#include "viop/vt.iop.h"

const char pt_rule[] =
    "IOP JSON: values generated from the type descriptors, packed with random "
    "flags, checked member by member with an independent strict JSON parser "
    "and unpacked back; the same values written with a random choice of the "
    "extended syntaxes and unpacked; mutated and random text from buffers of "
    "exactly that size; files with includes; non-trivial: the value has at "
    "least 4 set fields, or the text at least 6 bytes";

void pt_setup(void)
{
    vt_setup();
}

/* {{{ strict JSON parser */

enum { J_NULL, J_BOOL, J_NUM, J_STR, J_ARR, J_OBJ };
typedef struct jv_t jv_t;
struct jv_t {
    int type;
    bool b;
    uint8_t *s;         /* string, or text of the number */
    int len;
    int n;
    jv_t **v;           /* arrays, objects */
    jv_t **k;           /* objects */
};
typedef struct jp_t { const uint8_t *p, *e; const char *err; } jp_t;

static void jp_ws(jp_t *p)
{
    while (p->p < p->e && strchr(" \t\r\n", *p->p)) p->p++;
}
static jv_t *jp_err(jp_t *p, const char *e)
{
    if (!p->err) p->err = e;
    return NULL;
}
static int hex4(jp_t *p)
{
    int v = 0;

    if (p->e - p->p < 4) return -1;
    for (int i = 0; i < 4; i++) {
        int c = *p->p++;
        if (c >= '0' && c <= '9') c -= '0';
        else if (c >= 'a' && c <= 'f') c -= 'a' - 10;
        else if (c >= 'A' && c <= 'F') c -= 'A' - 10;
        else return -1;
        v = v * 16 + c;
    }
    return v;
}
static void put_utf8(bb_t *b, uint32_t ch)
{
    if (ch < 0x80) {
        bb_c(b, ch);
    } else if (ch < 0x800) {
        bb_c(b, 0xc0 | (ch >> 6)); bb_c(b, 0x80 | (ch & 63));
    } else if (ch < 0x10000) {
        bb_c(b, 0xe0 | (ch >> 12)); bb_c(b, 0x80 | ((ch >> 6) & 63));
        bb_c(b, 0x80 | (ch & 63));
    } else {
        bb_c(b, 0xf0 | (ch >> 18)); bb_c(b, 0x80 | ((ch >> 12) & 63));
        bb_c(b, 0x80 | ((ch >> 6) & 63)); bb_c(b, 0x80 | (ch & 63));
    }
}
static int jp_str(jp_t *p, jv_t *v)
{
    bb_t b = { 0 };

    p->p++;
    for (;;) {
        int c;

        if (p->p >= p->e) { jp_err(p, "unclosed string"); return -1; }
        c = *p->p++;
        if (c == '"') break;
        if (c < 0x20) { jp_err(p, "control character in a string"); return -1; }
        if (c == '\\') {
            if (p->p >= p->e) { jp_err(p, "truncated escape"); return -1; }
            c = *p->p++;
            switch (c) {
              case '"': case '\\': case '/': bb_c(&b, c); break;
              case 'b': bb_c(&b, '\b'); break;
              case 'f': bb_c(&b, '\f'); break;
              case 'n': bb_c(&b, '\n'); break;
              case 'r': bb_c(&b, '\r'); break;
              case 't': bb_c(&b, '\t'); break;
              case 'u': {
                int u = hex4(p);
                if (u < 0) { jp_err(p, "bad \\u escape"); return -1; }
                if (u >= 0xd800 && u < 0xdc00) {
                    int l;
                    if (p->e - p->p < 6 || p->p[0] != '\\' || p->p[1] != 'u') {
                        jp_err(p, "lone surrogate"); return -1;
                    }
                    p->p += 2;
                    l = hex4(p);
                    if (l < 0xdc00 || l > 0xdfff) { jp_err(p, "lone surrogate"); return -1; }
                    u = 0x10000 + ((u - 0xd800) << 10) + (l - 0xdc00);
                } else if (u >= 0xdc00 && u < 0xe000) {
                    jp_err(p, "lone surrogate"); return -1;
                }
                put_utf8(&b, u);
              } break;
              default: jp_err(p, "unknown escape"); return -1;
            }
        } else {
            bb_c(&b, c);
        }
    }
    v->type = J_STR;
    v->len = b.len;
    bb_c(&b, 0);
    v->s = b.p;
    return 0;
}
static jv_t *jp_val(jp_t *p, int depth)
{
    jv_t *v = ar_alloc(sizeof(*v));
    jv_t *tab[4096], *keys[4096];

    jp_ws(p);
    if (p->p >= p->e) return jp_err(p, "truncated");
    if (depth > 40) return jp_err(p, "too deep");
    switch (*p->p) {
      case '{':
        v->type = J_OBJ;
        p->p++;
        jp_ws(p);
        if (p->p < p->e && *p->p == '}') { p->p++; return v; }
        for (;;) {
            jv_t *k = ar_alloc(sizeof(*k));

            jp_ws(p);
            if (p->p >= p->e || *p->p != '"') return jp_err(p, "member name expected");
            if (jp_str(p, k) < 0) return NULL;
            jp_ws(p);
            if (p->p >= p->e || *p->p != ':') return jp_err(p, "colon expected");
            p->p++;
            if (v->n >= 4096) return jp_err(p, "harness limit");
            keys[v->n] = k;
            if (!(tab[v->n] = jp_val(p, depth + 1))) return NULL;
            v->n++;
            jp_ws(p);
            if (p->p < p->e && *p->p == ',') { p->p++; continue; }
            if (p->p < p->e && *p->p == '}') { p->p++; break; }
            return jp_err(p, "comma or closing brace expected");
        }
        v->v = ar_dup(tab, v->n * sizeof(*tab));
        v->k = ar_dup(keys, v->n * sizeof(*keys));
        return v;
      case '[':
        v->type = J_ARR;
        p->p++;
        jp_ws(p);
        if (p->p < p->e && *p->p == ']') { p->p++; return v; }
        for (;;) {
            if (v->n >= 4096) return jp_err(p, "harness limit");
            if (!(tab[v->n] = jp_val(p, depth + 1))) return NULL;
            v->n++;
            jp_ws(p);
            if (p->p < p->e && *p->p == ',') { p->p++; continue; }
            if (p->p < p->e && *p->p == ']') { p->p++; break; }
            return jp_err(p, "comma or closing bracket expected");
        }
        v->v = ar_dup(tab, v->n * sizeof(*tab));
        return v;
      case '"':
        return jp_str(p, v) < 0 ? NULL : v;
      case '-': case '0' ... '9': {
        const uint8_t *s = p->p;

        v->type = J_NUM;
        if (*p->p == '-') p->p++;
        if (p->p >= p->e || !isdigit(*p->p)) return jp_err(p, "bad number");
        if (*p->p == '0') p->p++;
        else while (p->p < p->e && isdigit(*p->p)) p->p++;
        if (p->p < p->e && *p->p == '.') {
            p->p++;
            if (p->p >= p->e || !isdigit(*p->p)) return jp_err(p, "bad number");
            while (p->p < p->e && isdigit(*p->p)) p->p++;
        }
        if (p->p < p->e && (*p->p == 'e' || *p->p == 'E')) {
            p->p++;
            if (p->p < p->e && (*p->p == '+' || *p->p == '-')) p->p++;
            if (p->p >= p->e || !isdigit(*p->p)) return jp_err(p, "bad number");
            while (p->p < p->e && isdigit(*p->p)) p->p++;
        }
        v->len = p->p - s;
        v->s = ar_alloc(v->len + 1);
        memcpy(v->s, s, v->len);
        return v;
      }
      default:
        if (p->e - p->p >= 4 && !memcmp(p->p, "null", 4)) { p->p += 4; return v; }
        if (p->e - p->p >= 4 && !memcmp(p->p, "true", 4)) {
            p->p += 4; v->type = J_BOOL; v->b = true; return v;
        }
        if (p->e - p->p >= 5 && !memcmp(p->p, "false", 5)) {
            p->p += 5; v->type = J_BOOL; return v;
        }
        return jp_err(p, "unexpected character");
    }
}

/* }}} */
/* {{{ expected document */

static bool is_null_d(double d) { return isnan(d) || isinf(d); }

/* class of the field, as declared */
static bool skipped(const mst_t *m, const iop_struct_t *lv, const iop_field_t *f,
                    const mfld_t *o, unsigned flags);

static bool st_empty(const mst_t *m, unsigned flags)
{
    const iop_struct_t *lv[16];
    int nl = st_levels(m->desc, lv), k = 0;

    for (int l = 0; l < nl; l++) {
        for (int i = 0; i < lv[l]->fields_len; i++, k++) {
            if (!skipped(m, lv[l], &lv[l]->fields[i], &m->f[k], flags)) return false;
        }
    }
    return true;
}

static bool skipped(const mst_t *m, const iop_struct_t *lv, const iop_field_t *f,
                    const mfld_t *o, unsigned flags)
{
    if ((flags & IOP_JPACK_SKIP_PRIVATE) && field_is_private(lv, f)) return true;
    if (f->repeat == IOP_R_REPEATED) return !o->n && (flags & IOP_JPACK_SKIP_EMPTY_ARRAYS);
    if (f->type == IOP_T_VOID && f->repeat == IOP_R_REQUIRED && !lv->is_union) return true;
    if (!o->n) return true;
    if (f->repeat == IOP_R_DEFVAL && (flags & IOP_JPACK_SKIP_DEFAULT)
    &&  field_is_defval(f, &o->v[0]))
        return true;
    if (f->repeat == IOP_R_REQUIRED && f->type == IOP_T_STRUCT && !lv->is_union
    &&  (flags & IOP_JPACK_SKIP_EMPTY_STRUCTS)
    &&  (!field_is_class(f) || o->v[0].st->desc == f->u1.st_desc))
        return st_empty(o->v[0].st, flags);
    return false;
}

static const int8_t *b64rev(void)
{
    static int8_t r[256];
    const char *a = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";

    if (!r['B']) {
        memset(r, -1, sizeof(r));
        for (int i = 0; i < 64; i++) r[(uint8_t)a[i]] = i;
    }
    return r;
}
static int b64dec(const uint8_t *s, int len, bb_t *out)
{
    const int8_t *r = b64rev();

    if (len % 4) return -1;
    for (int i = 0; i < len; i += 4) {
        int n = s[i + 3] != '=' ? 3 : s[i + 2] != '=' ? 2 : 1;
        uint32_t v = 0;

        if (n < 3 && i + 4 < len) return -1;
        for (int j = 0; j < 4; j++) {
            int x = s[i + j] == '=' && j > n ? 0 : r[s[i + j]];
            if (x < 0) return -1;
            v = v << 6 | x;
        }
        for (int j = 0; j < n; j++) bb_c(out, v >> (16 - 8 * j));
    }
    return 0;
}

static void j_check_st(pt_t *t, const jv_t *j, const mst_t *m, const iop_struct_t *decl,
                       unsigned flags);

static void j_check_val(pt_t *t, const jv_t *j, const iop_field_t *f, const mval_t *v,
                        unsigned flags)
{
    const char *fn = f->name.s;

    switch (f->type) {
      case IOP_T_I8: case IOP_T_I16: case IOP_T_I32: case IOP_T_I64:
      case IOP_T_U8: case IOP_T_U16: case IOP_T_U32: case IOP_T_U64: {
        char buf[32];
        bool sg = f->type % 2 == IOP_T_I8 % 2;
        bool big = sg ? v->i >= 1ll << 53 || v->i <= -(1ll << 53) : v->u >= 1ull << 53;

        (snprintf)(buf, sizeof(buf), sg ? "%lld" : "%llu", (long long)v->i);
        PT_CHECK(t, j->type == (big && !(flags & IOP_JPACK_UNSAFE_INTEGERS) ? J_STR : J_NUM),
                 "%s: integer %s packed with the wrong JSON type", fn, buf);
        PT_CHECK(t, !strcmp((char *)j->s, buf), "%s: integer %s packed as %s", fn, buf, j->s);
      } break;
      case IOP_T_ENUM: {
        const iop_enum_t *e = f->u1.en_desc;
        const lstr_t *name = NULL;

        for (int i = 0; i < e->enum_len; i++) if (e->values[i] == v->i) name = &e->names[i];
        if (name) {
            PT_CHECK(t, j->type == J_STR && j->len == name->len && !memcmp(j->s, name->s, name->len),
                     "%s: enum %s packed as %s", fn, name->s, j->s ?: (uint8_t *)"?");
        } else {
            PT_CHECK(t, (j->type == J_STR || j->type == J_NUM)
                     && ((int64_t)(strtoull)((char *)j->s, NULL, 10) == v->i
                         || (strtoll)((char *)j->s, NULL, 10) == v->i),
                     "%s: unknown enum %d packed as %s", fn, (int)v->i, j->s ?: (uint8_t *)"?");
        }
      } break;
      case IOP_T_BOOL:
        PT_CHECK(t, j->type == J_BOOL && j->b == (v->u != 0), "%s: wrong boolean", fn);
        break;
      case IOP_T_DOUBLE:
        if (is_null_d(v->d)) {
            PT_CHECK(t, j->type == J_NULL, "%s: non-finite double not packed as null", fn);
        } else {
            PT_CHECK(t, j->type == J_NUM && (strtod)((char *)j->s, NULL) == v->d,
                     "%s: double %.17g packed as %s", fn, v->d, j->s ?: (uint8_t *)"?");
        }
        break;
      case IOP_T_STRING: case IOP_T_XML:
        PT_CHECK(t, j->type == J_STR, "%s: string packed with another type", fn);
        if (j->len != v->len || memcmp(j->s, v->s, v->len)) {
            pt_note_hex(t, "value", v->s, v->len);
            pt_note_hex(t, "json ", j->s, j->len);
            PT_FAIL(t, "%s: wrong string", fn);
        }
        break;
      case IOP_T_DATA: {
        bb_t b = { 0 };

        PT_CHECK(t, j->type == J_STR, "%s: data packed with another type", fn);
        if (flags & IOP_JPACK_SHORTEN_DATA) {
            if (v->len > 18) break;
        }
        PT_CHECK(t, b64dec(j->s, j->len, &b) >= 0, "%s: not base64: %s", fn, j->s);
        PT_CHECK(t, (int)b.len == v->len && (!v->len || !memcmp(b.p, v->s, v->len)),
                 "%s: wrong data", fn);
      } break;
      case IOP_T_VOID:
        PT_CHECK(t, j->type == J_NULL, "%s: void not packed as null", fn);
        break;
      case IOP_T_UNION: case IOP_T_STRUCT:
        j_check_st(t, j, v->st, f->u1.st_desc, flags);
        break;
    }
}

static void j_check_st(pt_t *t, const jv_t *j, const mst_t *m, const iop_struct_t *decl,
                       unsigned flags)
{
    const iop_struct_t *lv[16];
    int nl = st_levels(m->desc, lv), k = 0, seen = 0;

    PT_CHECK(t, j->type == J_OBJ, "%s: not an object", m->desc->fullname.s);
    if (st_is_class(m->desc)) {
        bool cls = false;
        bool want = !(flags & IOP_JPACK_SKIP_CLASS_NAMES)
            && !((flags & IOP_JPACK_SKIP_OPTIONAL_CLASS_NAMES) && decl == m->desc);

        for (int i = 0; i < j->n; i++) {
            if (strcmp((char *)j->k[i]->s, "_class")) continue;
            PT_CHECK(t, !cls, "two _class members");
            cls = true;
            seen++;
            PT_CHECK(t, j->v[i]->type == J_STR
                     && !strcmp((char *)j->v[i]->s, m->desc->fullname.s),
                     "wrong class name");
        }
        PT_CHECK(t, cls == want, "%s: _class member %s", m->desc->fullname.s,
                 cls ? "written" : "missing");
    }
    for (int l = 0; l < nl; l++) {
        for (int i = 0; i < lv[l]->fields_len; i++, k++) {
            const iop_field_t *f = &lv[l]->fields[i];
            const mfld_t *o = &m->f[k];
            const jv_t *jm = NULL;
            bool skip;

            for (int x = 0; x < j->n; x++) {
                if (strcmp((char *)j->k[x]->s, f->name.s)) continue;
                PT_CHECK(t, !jm, "member %s written twice", f->name.s);
                jm = j->v[x];
            }
            skip = m->desc->is_union ? i != m->sel : skipped(m, lv[l], f, o, flags);
            PT_CHECK(t, (jm != NULL) == !skip, "%s.%s: member %s", m->desc->fullname.s,
                     f->name.s, jm ? "written" : "missing");
            if (!jm) continue;
            seen++;
            if (f->repeat == IOP_R_REPEATED) {
                PT_CHECK(t, jm->type == J_ARR && jm->n == o->n, "%s: array of %d elements, "
                         "expected %d", f->name.s, jm->n, o->n);
                for (int x = 0; x < o->n; x++) j_check_val(t, jm->v[x], f, &o->v[x], flags);
            } else {
                j_check_val(t, jm, f, &o->v[0], flags);
            }
        }
    }
    PT_CHECK(t, seen == j->n, "%s: %d members, expected %d", m->desc->fullname.s, j->n, seen);
}

/* }}} */
/* {{{ helpers */

/* -0 is written as the integer -0 */
static void fix_zero(mst_t *m)
{
    const iop_struct_t *lv[16];
    int nl = st_levels(m->desc, lv), k = 0;

    for (int l = 0; l < nl; l++) {
        for (int i = 0; i < lv[l]->fields_len; i++, k++) {
            const iop_field_t *f = &lv[l]->fields[i];
            for (int j = 0; j < m->f[k].n; j++) {
                mval_t *v = &m->f[k].v[j];
                if (f->type == IOP_T_DOUBLE && v->d == 0) v->d = 0;
                if (f->type == IOP_T_STRUCT || f->type == IOP_T_UNION) fix_zero(v->st);
            }
        }
    }
}
static bool has_nonfinite(const mst_t *m)
{
    const iop_struct_t *lv[16];
    int nl = st_levels(m->desc, lv), k = 0;

    for (int l = 0; l < nl; l++) {
        for (int i = 0; i < lv[l]->fields_len; i++, k++) {
            const iop_field_t *f = &lv[l]->fields[i];
            for (int j = 0; j < m->f[k].n; j++) {
                mval_t *v = &m->f[k].v[j];
                if (f->type == IOP_T_DOUBLE && is_null_d(v->d)) return true;
                if ((f->type == IOP_T_STRUCT || f->type == IOP_T_UNION)
                &&  has_nonfinite(v->st)) return true;
            }
        }
    }
    return false;
}

static mgen_t mkgen(pt_t *t)
{
    mgen_t g = { .t = t, .budget = 1 + pt_u(t, 60), .big = 40, .utf8 = true, .finite = true };
    return g;
}

static int junpack(const iop_struct_t *d, void **out, pstream_t *ps, unsigned flags, sb_t *err)
{
    *out = NULL;
    if (st_is_class(d) || 0) {
        return t_iop_junpack_ptr_ps(ps, d, out, flags, err);
    }
    *out = mp_imalloc(t_pool(), d->size, 8, MEM_RAW);
    memset(*out, 0xa5, d->size);
    return t_iop_junpack_ps(ps, d, *out, flags, err);
}

/* from a buffer of exactly this size */
static int junpack_exact(pt_t *t, const iop_struct_t *d, void **out, const void *p, size_t len,
                         unsigned flags, sb_t *err)
{
    uint8_t *in = malloc(len + !len);
    pstream_t ps = ps_init(in, len);
    int r;

    memcpy(in, p, len);
    r = junpack(d, out, &ps, flags, err);
    memset(in, 0xdd, len);
    free(in);
    return r;
}

static unsigned gen_flags(pt_t *t)
{
    switch (pt_u(t, 3)) {
      case 0: return 0;
      case 1: return IOP_JPACK_MINIMAL;
      default: return pt_u(t, 0x7ff);
    }
}

/* }}} */

/* an output that takes what it wants of what it is given */
typedef struct slow_t { sb_t *sb; uint64_t seed; int fail_at; bool failed; } slow_t;
static int slow_write(void *priv, const void *buf, int len)
{
    slow_t *w = priv;
    uint64_t r = pt_splitmix(&w->seed);
    int n;

    if (r % 5 == 0) { errno = r & 64 ? EINTR : EAGAIN; return -1; }
    n = r % 5 == 1 ? len : 1 + (r >> 8) % len;
    if (w->fail_at >= 0 && w->sb->len + n > w->fail_at) { w->failed = true; errno = EIO; return -1; }
    sb_add(w->sb, buf, n);
    return n;
}

static void run_pack(pt_t *t)
{
    t_scope;
    mgen_t g = mkgen(t);
    const iop_struct_t *d;
    unsigned flags, lossy;
    bool nonfin;
    mst_t *m;
    void *c, *out;
    SB_8k(sb);
    SB_1k(err);
    jp_t p;
    jv_t *j;
    int r;

    ar_reset();
    d = vt_types[pt_u(t, vt_types_len - 1)];
    flags = gen_flags(t);
    nonfin = pt_p(t, 1, 10);
    g.finite = !nonfin;
    m = mgen(&g, d);
    fix_zero(m);
    m_note(t, "value", m);
    pt_note(t, "flags %x", flags);
    if (m_count(m) >= 5) pt_nontrivial(t);
    c = m_to_c(m);
    r = iop_sb_jpack(&sb, d, c, flags);
    PT_CHECK(t, r >= 0, "iop_sb_jpack failed");
    PT_CHECK(t, r == sb.len, "iop_jpack returned %d, wrote %d bytes", r, sb.len);
    PT_CHECK(t, (sb.len && sb.data[sb.len - 1] == '\n') == !(flags & IOP_JPACK_NO_TRAILING_EOL),
             "wrong trailing end of line");
    if (pt_verbose(t)) pt_note(t, "json %.*s", MIN(sb.len, 1500), sb.data);
    p = (jp_t){ (uint8_t *)sb.data, (uint8_t *)sb.data + sb.len, NULL };
    j = jp_val(&p, 0);
    if (!j) {
        if (p.err && !strcmp(p.err, "harness limit")) return;
        PT_FAIL(t, "not strict JSON: %s at byte %zd of: %.*s", p.err,
                p.p - (uint8_t *)sb.data, MIN(sb.len, 1000), sb.data);
    }
    jp_ws(&p);
    PT_CHECK(t, p.p == p.e, "text after the JSON value");
    j_check_st(t, j, m, d, flags);
    if (flags & IOP_JPACK_NO_WHITESPACES) {
        bool q = false;
        int n = sb.len - !(flags & IOP_JPACK_NO_TRAILING_EOL);
        for (int i = 0; i < n; i++) {
            if (sb.data[i] == '\\' && q) { i++; continue; }
            if (sb.data[i] == '"') q = !q;
            /* "\n" may follow the closing brace of a nested union: the end of
             * line mark of the outer value is repeated there */
            PT_CHECK(t, q || !isspace((unsigned char)sb.data[i])
                     || (d->is_union && sb.data[i] == '\n'
                         && i && sb.data[i - 1] == '}'), "whitespace in compact JSON");
        }
    }
    if (pt_bool(t)) {
        SB_8k(sb2);
        sb_addf(&sb2, "%*pS", IOP_ST_DESC_FMT_ARG_FLAGS(d, c, flags));
        PT_CHECK(t, sb2.len == sb.len && !memcmp(sb.data, sb2.data, sb.len),
                 "%%*pS differs from iop_jpack");
    }
    if (pt_p(t, 1, 3) && sb.len < 20000) {
        SB_8k(sb2);
        slow_t w = { .sb = &sb2, .seed = pt_u(t, UINT32_MAX), .fail_at = pt_p(t, 1, 4) ? (int)pt_u(t, sb.len) : -1 };

        r = iop_jpack(d, c, slow_write, &w, flags);
        if (w.failed) {
            PT_CHECK(t, r < 0, "a write error is not reported");
            PT_CHECK(t, sb2.len <= sb.len && !memcmp(sb.data, sb2.data, sb2.len), "output differs before the error");
        } else {
            PT_CHECK(t, r == sb.len && sb2.len == sb.len && !memcmp(sb.data, sb2.data, sb.len),
                     "output differs through a callback that writes less than asked");
        }
    }
    lossy = IOP_JPACK_SKIP_PRIVATE | IOP_JPACK_SKIP_CLASS_NAMES | IOP_JPACK_SHORTEN_DATA;
    if ((flags & lossy) || (nonfin && has_nonfinite(m))) return;
    if (junpack_exact(t, d, &out, sb.data, sb.len, pt_bool(t) ? IOP_UNPACK_IGNORE_UNKNOWN : 0,
                      &err) < 0)
        PT_FAIL(t, "cannot unpack what was packed: %s", err.data);
    m_check_c(t, m, out, "value unpacked from its JSON");
}

/* {{{ extended syntax */

typedef struct jw_t {
    pt_t *t;
    bb_t b;
    unsigned feats;
    bool unk;           /* IGNORE_UNKNOWN */
    bool ccase;
    int lvl;
    bool fancy;         /* otherwise, close to strict JSON */
} jw_t;

#define FEAT(w, n)  ((w)->feats |= 1u << (n))

static void w_ws(jw_t *w, bool after_num)
{
    static const char *plain[] = { " ", "\n", "\t", "  ", "\r\n" };
    static const char *com[] = {
        "# comm\n", " #\n", "// c { } \" \n", "/* ** / ' \" */", "/*\n\n*/", "/**/", "//\n",
        "/***/",
    };

    if (!w->fancy) return;
    while (pt_p(w->t, 1, 4)) {
        if (!after_num && pt_p(w->t, 1, 3)) {
            FEAT(w, 0);
            bb_c(&w->b, ' ');
            bb_s(&w->b, pt_pick(w->t, com));
        } else {
            bb_s(&w->b, pt_pick(w->t, plain));
        }
    }
}

static void w_str(jw_t *w, const uint8_t *s, int len)
{
    char q = w->fancy && pt_bool(w->t) ? '\'' : '"';

    bb_c(&w->b, q);
    for (int i = 0; i < len; i++) {
        uint8_t c = s[i];
        int mode = w->fancy && len < 200 ? pt_u(w->t, 5) : 0;

        if (mode == 5) {        /* raw byte */
            FEAT(w, 1);
            bb_f(&w->b, "\\x%02x", c);
        } else
        if (mode == 4 && c < 0300) {
            bb_f(&w->b, "\\%03o", c);
        } else
        if ((mode == 3 || mode == 2) && c >= 0xe0 && c < 0xf0 && i + 2 < len) {
            int u = (c & 15) << 12 | (s[i + 1] & 63) << 6 | (s[i + 2] & 63);
            FEAT(w, 2);
            bb_f(&w->b, mode == 3 ? "\\u%04x" : "\\u%04X", u);
            i += 2;
        } else
        if ((mode == 3 || mode == 2) && c >= 0xc0 && c < 0xe0 && i + 1 < len) {
            bb_f(&w->b, "\\u%04x", (c & 31) << 6 | (s[i + 1] & 63));
            i++;
        } else
        if ((mode == 3 || mode == 2) && c >= 0xf0 && i + 3 < len) {
            uint32_t u = (c & 7) << 18 | (s[i + 1] & 63) << 12 | (s[i + 2] & 63) << 6
                       | (s[i + 3] & 63);
            FEAT(w, 3);
            u -= 0x10000;
            bb_f(&w->b, "\\u%04x\\u%04x", 0xd800 + (u >> 10), 0xdc00 + (u & 0x3ff));
            i += 3;
        } else
        if (c == '\n' || c == '\r' || c == '\t' || c == '\b' || c == '\f') {
            static const char e[] = { ['\n'] = 'n', ['\r'] = 'r', ['\t'] = 't',
                ['\b'] = 'b', ['\f'] = 'f' };
            bb_c(&w->b, '\\');
            bb_c(&w->b, e[c]);
        } else
        if (c == '\\' || c == q) {
            bb_c(&w->b, '\\');
            bb_c(&w->b, c);
        } else
        if (c == '/' && mode == 1) {
            bb_s(&w->b, "\\/");
        } else
        if (c < 0x20) {
            bb_f(&w->b, "\\u%04x", c);
        } else {
            bb_c(&w->b, c);
        }
    }
    bb_c(&w->b, q);
}

static void w_b64(jw_t *w, const uint8_t *s, int len)
{
    const char *a = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";

    bb_c(&w->b, '"');
    for (int i = 0; i < len; i += 3) {
        int n = MIN(len - i, 3);
        uint32_t v = s[i] << 16 | (n > 1 ? s[i + 1] << 8 : 0) | (n > 2 ? s[i + 2] : 0);
        for (int j = 0; j < 4; j++)
            bb_c(&w->b, j > n ? '=' : a[(v >> (18 - 6 * j)) & 63]);
    }
    bb_c(&w->b, '"');
}

static bool w_name(jw_t *w, lstr_t name)
{
    bb_t b = { 0 };

    if (w->ccase) {
        for (int i = 0; i < name.len; i++) {
            if (isupper((unsigned char)name.s[i])) {
                bb_c(&b, '_');
                bb_c(&b, tolower((unsigned char)name.s[i]));
            } else {
                bb_c(&b, name.s[i]);
            }
        }
    } else {
        bb_add(&b, name.s, name.len);
    }
    switch (w->fancy ? pt_u(w->t, 2) : 0) {
      case 0:
        bb_c(&w->b, '"'); bb_add(&w->b, b.p, b.len); bb_c(&w->b, '"');
        w_ws(w, false);
        return true;
      case 1:
        bb_c(&w->b, '\''); bb_add(&w->b, b.p, b.len); bb_c(&w->b, '\'');
        return true;
      default:
        FEAT(w, 4);
        bb_add(&w->b, b.p, b.len);
        return false;
    }
}
static void w_colon(jw_t *w)
{
    bb_c(&w->b, w->fancy && pt_bool(w->t) ? '=' : ':');
    w_ws(w, false);
}
static void w_sep(jw_t *w) { bb_c(&w->b, w->fancy && pt_bool(w->t) ? ';' : ','); }

static void w_st(jw_t *w, const mst_t *m, const iop_struct_t *decl, bool ext);

/* true when the value ends with a number */
static bool w_int(jw_t *w, int64_t i, bool is_signed)
{
    pt_t *t = w->t;
    bool neg = is_signed && i < 0;
    unsigned long long a = neg ? -(unsigned long long)i : (unsigned long long)i;

    switch (w->fancy ? pt_u(t, 9) : 0) {
      case 1: bb_f(&w->b, "%s0x%llx", neg ? "-" : "", a); FEAT(w, 5); return true;
      case 2: bb_f(&w->b, "%s0%llo", neg ? "-" : "", a); FEAT(w, 5); return true;
      case 3: bb_f(&w->b, "\"%s%llu\"", neg ? "-" : "", a); FEAT(w, 6); return false;
      case 4: bb_f(&w->b, "'%s0x%llX'", neg ? "-" : "", a); FEAT(w, 6); return false;
      case 5:
        if (i == 0 || i == 1) {
            static const char *b[2][2] = { { "false", "no" }, { "true", "yes" } };
            bb_s(&w->b, b[i][pt_bool(t)]);
            return false;
        }
        goto plain;
      case 6:
        if (i > ' ' && i < 0x7f && i != '\'' && i != '"' && i != '\\') {
            bb_f(&w->b, pt_bool(t) ? "c'%c'" : "c\"%c\"", (int)i);
            FEAT(w, 7);
            return false;
        }
        if (i == '\n') { bb_s(&w->b, "c'\\n'"); return false; }
        if (i > 0 && i < 256) { bb_f(&w->b, "c'\\x%02x'", (int)i); return false; }
        if (i >= 0 && i < 65536) { bb_f(&w->b, "c\"\\u%04x\"", (int)i); return false; }
        goto plain;
      case 7:
        if (a && !(a & 1023) && !neg) { bb_f(&w->b, "%lluK", a >> 10); FEAT(w, 8); return true; }
        if (a && !(a % 60) && !neg) { bb_f(&w->b, "%llum", a / 60); FEAT(w, 8); return true; }
        goto plain;
      case 8:
        if ((i >= 0 || neg) && i >= -1000000000 && i <= 1000000000) {
            int x = pt_range(t, -1000, 1000);
            FEAT(w, 9);
            switch (pt_u(t, 3)) {
              case 0: bb_f(&w->b, "(%lld) + (%d)", (long long)(i - x), x); break;
              case 1: bb_f(&w->b, "((%lld)-(%d))", (long long)(i + x), x); break;
              case 2:
                if (i >= 0) {
                    bb_f(&w->b, "%lld << %d | %lld", (long long)(i >> 4), 4, (long long)(i & 15));
                } else {
                    bb_f(&w->b, "(%lld) * 3 + %d", (long long)(i / 3), 0);
                    if (i % 3) bb_f(&w->b, " + (%d)", (int)(i % 3));
                }
                break;
              default: bb_f(&w->b, "0 + %s", ""); bb_f(&w->b, "(%lld)", (long long)i); break;
            }
            return true;
        }
        goto plain;
      default:
      plain:
        bb_f(&w->b, "%s%llu", neg ? "-" : "", a);
        return true;
    }
}

static bool w_val(jw_t *w, const iop_field_t *f, const mval_t *v)
{
    pt_t *t = w->t;

    switch (f->type) {
      case IOP_T_I8: case IOP_T_I16: case IOP_T_I32: case IOP_T_I64:
        return w_int(w, v->i, true);
      case IOP_T_U8: case IOP_T_U16: case IOP_T_U32: case IOP_T_U64:
        return w_int(w, v->i, false);
      case IOP_T_BOOL: {
        static const char *b[2][4] = { { "false", "no", "0", "\"false\"" },
            { "true", "yes", "1", "\"true\"" } };
        int k = w->fancy ? pt_u(t, 3) : 0;
        bb_s(&w->b, b[v->u != 0][k]);
        return k == 2;
      }
      case IOP_T_ENUM: {
        const iop_enum_t *e = f->u1.en_desc;
        const lstr_t *name = NULL;

        for (int i = 0; i < e->enum_len; i++) if (e->values[i] == v->i) name = &e->names[i];
        if (name && (!w->fancy || !pt_p(t, 1, 4))) {
            if (w->fancy && v->i == 1 && e == &vt__en__e && pt_bool(t)) {
                FEAT(w, 10);
                bb_s(&w->b, pt_bool(t) ? "\"B_BIS\"" : "'B_TER'");
                return true;
            }
            bb_f(&w->b, "\"%s\"", name->s);
            return true;        /* expressions are allowed after enums */
        }
        FEAT(w, 11);
        if (w->fancy && v->i >= 0 && pt_bool(t)) bb_f(&w->b, "\"%d\"", (int)v->i);
        else bb_f(&w->b, "%d", (int)v->i);
        return true;
      }
      case IOP_T_DOUBLE: {
        int k = w->fancy ? pt_u(t, 3) : 0;

        if (k == 1 && v->d == (int)v->d) {
            bb_f(&w->b, "%d", (int)v->d);
        } else if (k == 2) {
            bb_f(&w->b, "\"%.17g\"", v->d);
            return false;
        } else if (k == 3) {
            bb_f(&w->b, "%.17e", v->d);
        } else {
            bb_f(&w->b, "%.17g", v->d);
        }
        return true;
      }
      case IOP_T_STRING: case IOP_T_XML:
        w_str(w, v->s, v->len);
        return false;
      case IOP_T_DATA:
        w_b64(w, v->s, v->len);
        return false;
      case IOP_T_VOID: {
        static const char *any[] = { "null", "nil", "true", "\"x\"", "{}", "[]", "3", "{ a: 1 }" };
        const char *s = w->fancy ? pt_pick(t, any) : "null";
        bb_s(&w->b, s);
        return *s == '3';
      }
      default:
        w_st(w, v->st, f->u1.st_desc, false);
        return false;
    }
}

static void w_junk(jw_t *w, int depth)
{
    static const char *scal[] = { "null", "true", "no", "\"st\\\"r\"", "'x'", "{}", "[]",
        "c'x'", "[1,2;]", "{a:1,}", ".u: 3", "{ u.v.w: [ {} ] }", "@k 3 { l: 'u' }" };
    static const char *nums[] = { "1", "-2", "1.5e3", "(1 + 2)", "0x10" };
    int n;

    switch (pt_u(w->t, depth < 3 ? 3 : 1)) {
      case 0: bb_s(&w->b, pt_pick(w->t, scal)); break;
      case 1: bb_s(&w->b, pt_pick(w->t, nums)); break;
      case 2:
        bb_c(&w->b, '{');
        n = pt_u(w->t, 3);
        for (int i = 0; i < n; i++) {
            bb_f(&w->b, "%sm%d : ", i ? ", " : "", i);
            w_junk(w, depth + 1);
        }
        bb_c(&w->b, '}');
        break;
      default:
        bb_c(&w->b, '[');
        n = pt_u(w->t, 3);
        for (int i = 0; i < n; i++) {
            if (i) bb_c(&w->b, ',');
            bb_c(&w->b, '{');
            bb_s(&w->b, "k: ");
            w_junk(w, depth + 1);
            bb_c(&w->b, '}');
        }
        bb_c(&w->b, ']');
        break;
    }
}

static void w_member(jw_t *w, const iop_field_t *f, const mfld_t *o)
{
    pt_t *t = w->t;
    bool num = false;

    w_name(w, f->name);
    if (f->repeat == IOP_R_REPEATED) {
        w_colon(w);
        if (o->n == 1 && w->fancy && pt_p(t, 1, 3)) {
            FEAT(w, 12);
            num = w_val(w, f, &o->v[0]);
        } else {
            bb_c(&w->b, '[');
            w_ws(w, false);
            for (int j = 0; j < o->n; j++) {
                bool n;
                if (f->type == IOP_T_UNION && w->fancy && pt_p(t, 1, 3)) {
                    FEAT(w, 13);
                    w_st(w, o->v[j].st, f->u1.st_desc, true);
                    n = true;
                } else {
                    n = w_val(w, f, &o->v[j]);
                }
                w_ws(w, n);
                if (j + 1 < o->n) {
                    w_sep(w);
                    w_ws(w, false);
                } else if (w->fancy && pt_p(t, 1, 4)) {
                    FEAT(w, 14);
                    w_sep(w);
                    w_ws(w, false);
                }
            }
            bb_c(&w->b, ']');
        }
        w_ws(w, num);
        return;
    }
    if (!o->n) {                /* absent optional */
        w_colon(w);
        bb_s(&w->b, pt_bool(t) ? "null" : "nil");
        FEAT(w, 15);
        bb_c(&w->b, ' ');
        w_ws(w, false);
        return;
    }
    if (f->type == IOP_T_UNION && w->fancy && pt_p(t, 1, 2)) {
        FEAT(w, 13);
        w_st(w, o->v[0].st, f->u1.st_desc, true);
        w_ws(w, true);
        return;
    }
    w_colon(w);
    num = w_val(w, f, &o->v[0]);
    w_ws(w, num);
}

static void w_class(jw_t *w, const mst_t *m)
{
    bb_s(&w->b, w->fancy && pt_bool(w->t) ? "'_class'" : "\"_class\"");
    w_ws(w, false);
    w_colon(w);
    bb_f(&w->b, "\"%s\"", m->desc->fullname.s);
    w_ws(w, false);
}

static void w_st(jw_t *w, const mst_t *m, const iop_struct_t *decl, bool ext)
{
    pt_t *t = w->t;
    const iop_struct_t *lv[16];
    int nl = st_levels(m->desc, lv), k = 0, n = 0, pre = -1;
    struct { const iop_field_t *f; const mfld_t *o; int kind; } items[256];
    bool first = true;

    if (m->desc->is_union) {
        const iop_field_t *f = &m->desc->fields[m->sel];
        const mfld_t *o = &m->f[m->sel];

        if (ext) {
            bb_c(&w->b, '.');
            w_member(w, f, o);
            return;
        }
        bb_c(&w->b, '{');
        w_ws(w, false);
        w_member(w, f, o);
        bb_c(&w->b, '}');
        return;
    }
    for (int l = 0; l < nl; l++) {
        for (int i = 0; i < lv[l]->fields_len; i++, k++) {
            const iop_field_t *f = &lv[l]->fields[i];
            const mfld_t *o = &m->f[k];

            if (f->type == IOP_T_VOID && f->repeat == IOP_R_REQUIRED) continue;
            if (!o->n) {
                if (!w->fancy || f->type == IOP_T_VOID || !pt_p(t, 1, 4)) continue;
            }
            if (f->repeat == IOP_R_DEFVAL && w->fancy && field_is_defval(f, &o->v[0])
            &&  pt_bool(t))
            {
                FEAT(w, 16);
                continue;
            }
            items[n].f = f;
            items[n].o = o;
            items[n++].kind = 0;
        }
    }
    if (st_is_class(m->desc) && (decl != m->desc || pt_bool(t))) {
        items[n].f = NULL;
        items[n++].kind = 1;
    }
    if (w->unk) {
        int u = pt_u(t, 2);
        while (u--) {
            items[n].f = NULL;
            items[n++].kind = 2 + u;
        }
    }
    if (w->fancy) {             /* any order */
        for (int i = n - 1; i > 0; i--) {
            int x = pt_u(t, i);
            SWAP(typeof(items[0]), items[i], items[x]);
        }
        if (n && pt_p(t, 1, 4)) {
            /* prefix syntax */
            for (int i = 0; i < n && pre < 0; i++) {
                const iop_field_t *f = items[i].f;
                if (items[i].kind == 1) pre = i;
                else if (f && f->repeat != IOP_R_REPEATED && f->type != IOP_T_STRUCT
                         && f->type != IOP_T_UNION && f->type != IOP_T_VOID && items[i].o->n)
                    pre = i;
            }
        }
    }
    if (pre >= 0) {
        bool num = false;
        FEAT(w, 17);
        bb_c(&w->b, '@');
        if (items[pre].kind == 1) {
            bb_f(&w->b, "\"_class\" \"%s\"", m->desc->fullname.s);
        } else {
            w_name(w, items[pre].f->name);
            bb_c(&w->b, ' ');
            num = w_val(w, items[pre].f, &items[pre].o->v[0]);
            bb_c(&w->b, ' ');
        }
        w_ws(w, num);
    }
    bb_c(&w->b, '{');
    w_ws(w, false);
    for (int i = 0; i < n; i++) {
        if (i == pre) continue;
        if (!first) {
            w_sep(w);
            w_ws(w, false);
        }
        first = false;
        switch (items[i].kind) {
          case 0: w_member(w, items[i].f, items[i].o); break;
          case 1: w_class(w, m); break;
          default:
            FEAT(w, 18);
            bb_f(&w->b, "unknownZz%d : ", items[i].kind);
            w_junk(w, 0);
            bb_c(&w->b, ' ');
            break;
        }
    }
    if (!first && w->fancy && pt_p(t, 1, 4)) {
        w_sep(w);
        w_ws(w, false);
    }
    bb_c(&w->b, '}');
}

static const char *feat_names[] = {
    "comment", "hex escape", "unicode escape", "surrogate pair", "bare name",
    "hex/octal int", "quoted int", "char int", "suffixed int", "expression",
    "enum alias", "enum as int", "single value array", "union dot syntax",
    "trailing comma", "null optional", "omitted default", "prefix syntax", "unknown member",
};

static unsigned gen_loose(pt_t *t, jw_t *w)
{
    unsigned flags = 0;

    w->t = t;
    w->fancy = !pt_p(t, 1, 8);
    w->unk = pt_p(t, 1, 3);
    w->ccase = pt_p(t, 1, 4);
    if (w->unk) flags |= IOP_UNPACK_IGNORE_UNKNOWN;
    if (w->ccase) flags |= IOP_UNPACK_USE_C_CASE;
    return flags;
}

static void run_syntax(pt_t *t)
{
    t_scope;
    mgen_t g = mkgen(t);
    const iop_struct_t *d;
    mst_t *m;
    jw_t w = { 0 };
    unsigned flags;
    void *out;
    SB_1k(err);

    ar_reset();
    d = vt_types[pt_u(t, vt_types_len - 1)];
    flags = gen_loose(t, &w);
    m = mgen(&g, d);
    fix_zero(m);
    m_note(t, "value", m);
    w_ws(&w, false);
    w_st(&w, m, d, false);
    w_ws(&w, false);
    if (pt_verbose(t)) pt_note(t, "flags %x json %.*s", flags, (int)MIN(w.b.len, (size_t)1500), w.b.p);
    for (int i = 0; i < countof(feat_names); i++) if (w.feats & (1u << i)) pt_label(t, feat_names[i]);
    if (w.feats) pt_nontrivial(t);
    if (junpack_exact(t, d, &out, w.b.p, w.b.len, flags, &err) < 0)
        PT_FAIL(t, "legal text refused: %s", err.data);
    m_check_c(t, m, out, "value unpacked from JSON");
}

/* several values in one stream */
static void run_seq(pt_t *t)
{
    t_scope;
    mgen_t g = mkgen(t);
    const iop_struct_t *d;
    mst_t *ms[6];
    jw_t w = { 0 };
    iop_json_lex_t ll;
    unsigned flags;
    size_t ends[6];
    int n = 1 + pt_u(t, 5);
    uint8_t *in;
    pstream_t ps;

    ar_reset();
    d = vt_types[pt_u(t, vt_types_len - 1)];
    flags = gen_loose(t, &w);
    for (int i = 0; i < n; i++) {
        g.budget = 12;
        ms[i] = mgen(&g, d);
        fix_zero(ms[i]);
        w_st(&w, ms[i], d, false);
        ends[i] = w.b.len;
        switch (pt_u(t, 3)) {
          case 0: bb_c(&w.b, ','); break;
          case 1: bb_c(&w.b, '\n'); break;
          case 2: bb_s(&w.b, " ; # x\n"); break;
          default: break;
        }
    }
    if (n > 1) pt_nontrivial(t);
    if (pt_verbose(t)) pt_note(t, "flags %x json %.*s", flags, (int)MIN(w.b.len, (size_t)1500), w.b.p);
    in = ar_dup(w.b.p, w.b.len);
    ps = ps_init(in, w.b.len);
    iop_jlex_init(t_pool(), &ll);
    iop_jlex_attach(&ll, &ps);
    iop_jlex_set_flags(&ll, flags);
    for (int i = 0; i < n; i++) {
        void *out = NULL;
        int r = iop_junpack_ptr(&ll, d, &out, false);

        if (r <= 0) {
            SB_1k(err);
            iop_jlex_write_error(&ll, &err);
            PT_FAIL(t, "value %d of %d refused (%d): %s", i, n, r, err.data);
        }
        m_check_c(t, ms[i], out, "value of a sequence");
        PT_CHECK(t, (size_t)(ps.b - in) >= ends[i]
                 && (size_t)(ps.b - in) <= (i + 1 < n ? ends[i] + 8 : w.b.len),
                 "position %zd after value %d, which ends at %zu", ps.b - in, i, ends[i]);
    }
    {
        void *out = NULL;
        PT_CHECK(t, iop_junpack_ptr(&ll, d, &out, false) == 0, "no end of stream");
    }
    iop_jlex_wipe(&ll);
}

/* }}} */
/* {{{ range and type errors: exactly one member is made wrong */

static void run_range(pt_t *t)
{
    t_scope;
    static const struct { const char *name; int bits; bool sg; } fs[] = {
        { "i8", 8, true }, { "u8", 8, false }, { "i16", 16, true }, { "u16", 16, false },
        { "i32", 32, true }, { "u32", 32, false }, { "i64", 64, true }, { "u64", 64, false },
        { "e", 32, true }, { "b", 1, false }, { "d", 0, true },
    };
    int k = pt_u(t, countof(fs) - 1);
    __int128 v, lo, hi;
    bool neg = pt_bool(t), quoted, ok;
    char num[64], js[256];
    void *out;
    unsigned long long mag = pt_bits(t, 64);
    const char *p;

    ar_reset();
    /* aim at the bounds */
    if (fs[k].bits && pt_bool(t)) {
        mag = (1ull << (fs[k].bits - (neg || fs[k].sg))) + pt_range(t, -2, 2);
    }
    v = neg ? -(__int128)mag : (__int128)mag;
    if (v < -((__int128)1 << 63)) v = -((__int128)1 << 63);
    neg = v < 0;
    mag = neg ? -v : v;
    if (fs[k].bits == 0) { lo = -((__int128)1 << 100); hi = -lo; }
    else if (fs[k].sg) { lo = -((__int128)1 << (fs[k].bits - 1)); hi = -lo - 1; }
    else { lo = 0; hi = ((__int128)1 << fs[k].bits) - 1; }
    ok = v >= lo && v <= hi;
    quoted = pt_bool(t) && fs[k].bits != 1;
    (snprintf)(num, sizeof(num), "%s%llu", neg ? "-" : "", mag);
    (snprintf)(js, sizeof(js), quoted ? "{\"%s\":\"%s\"}" : "{\"%s\":%s}", fs[k].name, num);
    if (!strcmp(fs[k].name, "e") && !ok && !neg && mag >= (1ull << 63)) {
        /* how negative unknown values are written */
        pt_discard(t);
        return;
    }
    pt_note(t, "%s", js);
    pt_nontrivial(t);
    if (junpack_exact(t, &vt__opt__s, &out, js, strlen(js), 0, NULL) < 0) {
        PT_CHECK(t, !ok, "integer in the range of its field refused: %s", js);
        return;
    }
    PT_CHECK(t, ok, "integer out of the range of its field accepted: %s", js);
    {
        vt__opt__t *o = out;
        __int128 got = 0;

        p = fs[k].name;
        if (!strcmp(p, "i8")) got = OPT_VAL(o->i8);
        else if (!strcmp(p, "u8")) got = OPT_VAL(o->u8);
        else if (!strcmp(p, "i16")) got = OPT_VAL(o->i16);
        else if (!strcmp(p, "u16")) got = OPT_VAL(o->u16);
        else if (!strcmp(p, "i32")) got = OPT_VAL(o->i32);
        else if (!strcmp(p, "u32")) got = OPT_VAL(o->u32);
        else if (!strcmp(p, "i64")) got = OPT_VAL(o->i64);
        else if (!strcmp(p, "u64")) got = OPT_VAL(o->u64);
        else if (!strcmp(p, "e")) got = OPT_VAL(o->e);
        else if (!strcmp(p, "b")) got = OPT_VAL(o->b);
        else {
            PT_CHECK(t, OPT_VAL(o->d) == (double)v, "%s read as %.17g", js, OPT_VAL(o->d));
            return;
        }
        PT_CHECK(t, got == v, "%s read as another number (%lld)", js, (long long)got);
    }
}

/* duplicated, missing, unknown, wrong class members are refused */
static void run_refuse(pt_t *t)
{
    t_scope;
    mgen_t g = mkgen(t);
    const iop_struct_t *d;
    mst_t *m;
    jw_t w = { .t = t };
    void *out;
    int kind = pt_u(t, 5);
    const char *why;

    ar_reset();
    g.budget = 10;
    switch (kind) {
      case 0: {                 /* a missing required member */
        static const char *bad[] = { "{\"i\":3}", "{\"s\":\"x\"}", "{}", "{i:3, }", "{s='a';}" };
        const char *s = pt_pick(t, bad);
        why = "missing member";
        d = &vt__small__s;
        bb_s(&w.b, s);
      } break;
      case 1:
        why = "unknown member";
        d = pt_bool(t) ? &vt__def__s : &vt__rep__s;
        m = mgen(&g, d);
        w_st(&w, m, d, false);
        w.b.len--;
        bb_s(&w.b, d == &vt__def__s ? ",\"nope\":1}" : ",\"nope\":1}");
        break;
      case 2: {
        static const char *const dup[] = { "{\"i\":3,\"s\":\"x\",\"i\":3}",
            "{\"s\":\"x\",s:\"x\",\"i\":3}", "@i 3 {\"i\":3,\"s\":\"x\"}" };
        const char *s = pt_pick(t, dup);
        why = "duplicated member";
        d = &vt__small__s;
        bb_s(&w.b, s);
      } break;
      case 3: {
        static const char *const cl[] = {
            "{\"_class\":\"vt.OptRoot\",\"id\":1}", "{\"_class\":\"vt.Nope\",\"id\":1}",
            "{\"_class\":\"vt.KidAbs\",\"id\":1,\"abs\":2}", "{\"_class\":3,\"id\":1}",
            "{\"id\":1,\"_class\":\"vt.Small\"}", "{\"_class\":\"vt.KidAA\",\"id\":1}",
        };
        const char *s = pt_pick(t, cl);
        why = "wrong class";
        d = &vt__base__s;
        bb_s(&w.b, s);
      } break;
      case 4: {                 /* trailing text */
        why = "trailing text";
        d = vt_types[pt_u(t, vt_types_len - 1)];
        m = mgen(&g, d);
        w_st(&w, m, d, false);
        bb_s(&w.b, pt_bool(t) ? " x" : " {}");
      } break;
      default: {                /* every strict prefix */
        size_t n;
        why = "truncated text";
        d = vt_types[pt_u(t, vt_types_len - 1)];
        m = mgen(&g, d);
        w_st(&w, m, d, false);
        n = pt_u(t, w.b.len - 1);
        w.b.len = n;
      } break;
    }
    pt_nontrivial(t);
    pt_label(t, why);
    if (pt_verbose(t)) pt_note(t, "%s: %.*s", why, (int)MIN(w.b.len, (size_t)1500), w.b.p);
    PT_CHECK(t, junpack_exact(t, d, &out, w.b.p, w.b.len, 0, NULL) < 0, "%s accepted", why);
}

static bool has_priv(const mst_t *m)
{
    const iop_struct_t *lv[16];
    int nl = st_levels(m->desc, lv), k = 0;

    for (int l = 0; l < nl; l++) {
        for (int i = 0; i < lv[l]->fields_len; i++, k++) {
            const iop_field_t *f = &lv[l]->fields[i];
            if ((m->f[k].n || f->repeat == IOP_R_REPEATED) && field_is_private(lv[l], f)) return true;
            if (f->type == IOP_T_STRUCT || f->type == IOP_T_UNION) {
                for (int j = 0; j < m->f[k].n; j++)
                    if (has_priv(m->f[k].v[j].st)) return true;
            }
        }
    }
    return false;
}

static void run_priv(pt_t *t)
{
    t_scope;
    static const iop_struct_t *const types[] = { &vt__priv__s, &vt__def__s, &vt__all__s };
    mgen_t g = mkgen(t);
    const iop_struct_t *d = pt_pick(t, types);
    unsigned flags = pt_bool(t) ? IOP_JPACK_SKIP_PRIVATE : 0;
    mst_t *m;
    void *out;
    SB_8k(sb);
    bool priv;
    int r;

    ar_reset();
    m = mgen(&g, d);
    m_note(t, "value", m);
    pt_nontrivial(t);
    priv = !flags && has_priv(m);
    iop_sb_jpack(&sb, d, m_to_c(m), flags);
    r = junpack_exact(t, d, &out, sb.data, sb.len, IOP_UNPACK_FORBID_PRIVATE, NULL);
    PT_CHECK(t, (r < 0) == priv, "FORBID_PRIVATE: unpack %s, private members %s",
             r < 0 ? "failed" : "succeeded", priv ? "written" : "not written");
}

/* }}} */
/* {{{ hostile text */

/* strings that are not strict UTF-8 are read loosely (broken sequences as
 * latin1, overlong ones as their value): they settle after one round trip */
static bool bad_utf8(const uint8_t *s, int len)
{
    for (int i = 0; i < len; ) {
        int c = s[i], n = c < 0x80 ? 0 : c < 0xc2 ? -1 : c < 0xe0 ? 1 : c < 0xf0 ? 2 : c < 0xf5 ? 3 : -1;

        if (n < 0 || i + n >= len) return true;
        for (int j = 1; j <= n; j++) if ((s[i + j] & 0xc0) != 0x80) return true;
        if ((c == 0xe0 && s[i + 1] < 0xa0) || (c == 0xed && s[i + 1] > 0x9f)
        ||  (c == 0xf0 && s[i + 1] < 0x90) || (c == 0xf4 && s[i + 1] > 0x8f)) return true;
        i += n + 1;
    }
    return false;
}
static bool has_bad_utf8(const mst_t *m)
{
    const iop_struct_t *lv[16];
    int nl = st_levels(m->desc, lv), k = 0;

    for (int l = 0; l < nl; l++) {
        for (int i = 0; i < lv[l]->fields_len; i++, k++) {
            const iop_field_t *f = &lv[l]->fields[i];
            for (int j = 0; j < m->f[k].n; j++) {
                mval_t *v = &m->f[k].v[j];
                if ((f->type == IOP_T_STRING || f->type == IOP_T_XML) && bad_utf8(v->s, v->len)) return true;
                if ((f->type == IOP_T_STRUCT || f->type == IOP_T_UNION) && has_bad_utf8(v->st)) return true;
            }
        }
    }
    return false;
}

static void check_hostile(pt_t *t, const iop_struct_t *d, const uint8_t *p, size_t len)
{
    t_scope;
    unsigned flags = pt_u(t, 15) & ~IOP_UNPACK_COPY_STRINGS;
    const char *e;
    void *out, *out2;
    size_t nb = 0;
    mst_t *m;
    SB_1k(err);
    SB_8k(sb);
    SB_8k(sb2);

    if (pt_verbose(t)) {
        pt_note(t, "type %s flags %x", d->fullname.s, flags);
        pt_note_hex(t, "text", p, len);
    }
    if (junpack_exact(t, d, &out, p, len, flags, &err) < 0) {
        pt_label(t, "refused");
        PT_CHECK(t, err.len, "refused without an error message");
        return;
    }
    pt_label(t, "accepted");
    if ((e = c_walk(d, out, &nb)))
        PT_FAIL(t, "accepted value is malformed: %s", e);
    m_read_c(d, out, &m);
    if (has_nonfinite(m)) return;
    iop_sb_jpack(&sb, d, out, 0);
    sb_reset(&err);
    if (junpack_exact(t, d, &out2, sb.data, sb.len, 0, &err) < 0)
        PT_FAIL(t, "accepted value does not survive a round trip: %s\n%s",
                err.data, sb.data);
    iop_sb_jpack(&sb2, d, out2, 0);
    if (strstr(sb.data, "-0") || has_bad_utf8(m)) {
        /* the sign of -0.0 is lost by the first round trip */
        sb_setsb(&sb, &sb2);
        if (junpack_exact(t, d, &out2, sb.data, sb.len, 0, &err) < 0)
            PT_FAIL(t, "accepted value does not survive a round trip: %s\n%s",
                    err.data, sb.data);
        sb_reset(&sb2);
        iop_sb_jpack(&sb2, d, out2, 0);
    }
    PT_CHECK(t, sb.len == sb2.len && !memcmp(sb.data, sb2.data, sb.len),
             "packing an accepted value is not stable:\n%s\n%s",
             sb.data, sb2.data);
}

static const char *const toks[] = {
    "{", "}", "[", "]", ":", ",", ";", "=", ".", "@", "\"", "'", "\\", "\n", " ", "#", "//", "/*",
    "*/", "/", "null", "true", "false", "nil", "yes", "no", "c'", "c\"", "c", "\\u", "\\x", "\\0",
    "\"_class\"", "@include(", "@include('x')", "(", ")", "-", "+", "~", "<<", ">>", "<", "**", "*",
    "%", "^", "&", "|", "0", "1", "-1", "0x", "0x1", "1e", "1e5", "1e400", "1e-320", ".5", "1.",
    "9223372036854775808", "18446744073709551615", "18446744073709551616", "-9223372036854775808",
    "100", "64", "1K", "3w", "5G", "\"A\"", "\"B_BIS\"", "\"vt.KidA\"", "i", "s", "d", "e", "b", "un",
    "v", "st", "next", "kids", "obj", "ref", "id", "data", "tab", "\"x\"", "\"QUJD\"", "\"=\"",
    "\xc3\xa9", "\xf0\x9f\x98\x80", "\xff", "\\ud83d", "\\ude00", "c'\\u12", "c'\\x4", "c'\\12", "c'\\",
    "inf", "nan", "\"nan\"", "_",
};

static void mutate_txt(pt_t *t, bb_t *b)
{
    int n = 1 + pt_u(t, 3);

    while (n--) {
        size_t pos = b->len ? pt_u(t, b->len - 1) : 0;

        switch (pt_u(t, 7)) {
          case 0: if (b->len) b->p[pos] ^= 1 << pt_u(t, 7); break;
          case 1: b->len = pos; break;
          case 2: case 3: case 4: {     /* insert a token */
            const char *s = pt_pick(t, toks);
            int k = strlen(s);
            bb_add(b, s, k);
            memmove(b->p + pos + k, b->p + pos, b->len - k - pos);
            memcpy(b->p + pos, s, k);
          } break;
          case 5: {                     /* delete */
            size_t k = 1 + pt_u(t, 7);
            if (b->len) {
                k = pos + k > b->len ? b->len - pos : k;
                memmove(b->p + pos, b->p + pos + k, b->len - pos - k);
                b->len -= k;
            }
          } break;
          case 6: {                     /* duplicate a part */
            size_t k = 1 + pt_u(t, 40);
            uint8_t tmp[64];
            if (b->len) {
                k = pos + k > b->len ? b->len - pos : k;
                memcpy(tmp, b->p + pos, k);
                bb_add(b, tmp, k);
                memmove(b->p + pos + k, b->p + pos, b->len - k - pos);
                memcpy(b->p + pos, tmp, k);
            }
          } break;
          default: if (b->len) b->p[pos] = pt_bits(t, 8); break;
        }
    }
}

static void run_mutate(pt_t *t)
{
    mgen_t g = mkgen(t);
    const iop_struct_t *d;
    mst_t *m;
    jw_t w = { 0 };

    ar_reset();
    g.big = 0;
    g.budget = 1 + pt_u(t, 20);
    d = vt_types[pt_u(t, vt_types_len - 1)];
    gen_loose(t, &w);
    m = mgen(&g, d);
    w_st(&w, m, d, false);
    mutate_txt(t, &w.b);
    if (w.b.len >= 6) pt_nontrivial(t);
    check_hostile(t, d, w.b.p, w.b.len);
}

static void run_soup(pt_t *t)
{
    static const iop_struct_t *const types[] = {
        &vt__opt__s, &vt__un__s, &vt__node__s, &vt__base__s, &vt__all_opt__s, &vt__small__s,
    };
    const iop_struct_t *d = pt_pick(t, types);
    bb_t b = { 0 };

    ar_reset();
    if (pt_bool(t)) bb_c(&b, '{');
    if (pt_p(t, 1, 3)) {
        /* a truncated number, char or string at the very end of the buffer */
        static const char *const heads[] = { "{\"i\":", "{\"d\":", "{\"e\":", "{\"s\":", "{\"un\":{\"ub\":" };
        b.len = 0;
        bb_s(&b, pt_pick(t, heads));
    }
    while (pt_more(t, 8)) bb_s(&b, pt_pick(t, toks));
    if (b.len >= 6) pt_nontrivial(t);
    check_hostile(t, d, b.p, b.len);
}

/* }}} */
/* {{{ files */

static void add_paths(pt_t *t, const mst_t *m, bb_t *pfx, qv_t(iop_json_subfile) *subs, int depth)
{
    const iop_struct_t *lv[16];
    int nl = st_levels(m->desc, lv), k = 0;

    for (int l = 0; l < nl; l++) {
        for (int i = 0; i < lv[l]->fields_len; i++, k++) {
            const iop_field_t *f = &lv[l]->fields[i];
            const mfld_t *o = &m->f[k];

            if (m->desc->is_union && i != m->sel) continue;
            for (int j = 0; j < o->n; j++) {
                bb_t p = { 0 };
                bool st = f->type == IOP_T_STRUCT || f->type == IOP_T_UNION;

                bb_add(&p, pfx->p, pfx->len);
                if (p.len) bb_c(&p, '.');
                bb_add(&p, f->name.s, f->name.len);
                if (f->repeat == IOP_R_REPEATED) bb_f(&p, "[%d]", j);
                if ((st || f->type == IOP_T_STRING || f->type == IOP_T_DATA || f->type == IOP_T_XML)
                &&  subs->len < 12 && pt_p(t, 1, 4))
                {
                    iop_json_subfile__t s;
                    bb_t fp = { 0 };

                    p_clear(&s, 1);
                    if (pt_p(t, 1, 3)) bb_f(&fp, "dir%d/", (int)pt_u(t, 2));
                    if (pt_p(t, 1, 4)) bb_f(&fp, "sub%d/", (int)pt_u(t, 1));
                    bb_f(&fp, "f%d.json", subs->len);
                    s.file_path = LSTR_DATA_V(ar_dup(fp.p, fp.len), fp.len);
                    s.iop_path = LSTR_DATA_V(ar_dup(p.p, p.len), p.len);
                    qv_append(subs, s);
                }
                if (st) add_paths(t, o->v[j].st, &p, subs, depth + 1);
            }
        }
    }
}

static void run_file(pt_t *t)
{
    t_scope;
    mgen_t g = mkgen(t);
    static const iop_struct_t *const types[] = {
        &vt__scal__s, &vt__opt__s, &vt__rep__s, &vt__node__s, &vt__objs__s, &vt__all__s,
        &vt__base__s, &vt__un__s, &vt__def__s,
    };
    const iop_struct_t *d = pt_pick(t, types);
    char dir[PATH_MAX], path[PATH_MAX];
    mst_t *m;
    qv_t(iop_json_subfile) subs, subs2;
    bb_t pfx = { 0 };
    static int seq;
    unsigned flags;
    void *out = NULL;
    int r;
    SB_1k(err);

    ar_reset();
    t_qv_init(&subs, 8);
    t_qv_init(&subs2, 8);
    g.big = 0;
    g.budget = 1 + pt_u(t, 25);
    m = mgen(&g, d);
    fix_zero(m);
    m_note(t, "value", m);
    flags = pt_bool(t) ? 0 : IOP_JPACK_NO_WHITESPACES;
    add_paths(t, m, &pfx, &subs, 0);
    tab_for_each_ptr(s, &subs) {
        pt_note(t, "%.*s -> %.*s", s->iop_path.len, s->iop_path.s, s->file_path.len, s->file_path.s);
    }
    if (subs.len) pt_nontrivial(t);
    (snprintf)(dir, sizeof(dir), "%s/j%d", pt_tmpdir(), seq++);
    mkdir(dir, 0755);
    (snprintf)(path, sizeof(path), "%s/main.json", dir);
    r = __iop_jpack_file(path, FILE_WRONLY | FILE_CREATE | FILE_TRUNC, 0644, d, m_to_c(m), flags,
                         subs.len ? &subs : NULL, &err);
    PT_CHECK(t, r >= 0, "cannot pack to a file: %s", err.data);
    sb_reset(&err);
    if (st_is_class(d)) {
        r = t_iop_junpack_ptr_file(path, d, &out, 0, &subs2, &err);
    } else {
        out = mp_imalloc(t_pool(), d->size, 8, MEM_RAW);
        r = t_iop_junpack_file(path, d, out, 0, &subs2, &err);
    }
    PT_CHECK(t, r >= 0, "cannot unpack the packed file: %s", err.data);
    m_check_c(t, m, out, "value unpacked from files");
    PT_CHECK(t, subs.len == subs2.len, "%d included files, %d were written", subs2.len, subs.len);
    tab_for_each_ptr(s, &subs) {
        bool found = false;
        tab_for_each_ptr(s2, &subs2) {
            if (lstr_equal(s->iop_path, s2->iop_path) && lstr_equal(s->file_path, s2->file_path))
                found = true;
        }
        PT_CHECK(t, found, "include %.*s of %.*s not reported by the unpacker",
                 s->file_path.len, s->file_path.s, s->iop_path.len, s->iop_path.s);
    }
    rmdir_r(dir, false);
}

/* }}} */

const pt_target_t pt_targets[] = {
    { "pack", run_pack, 150000, 3000000, 30 },
    { "syntax", run_syntax, 150000, 3000000, 30 },
    { "seq", run_seq, 10000, 400000, 10 },
    { "range", run_range, 20000, 200000, 0 },
    { "refuse", run_refuse, 12000, 300000, 0 },
    { "private", run_priv, 6000, 100000, 0 },
    { "mutate", run_mutate, 200000, 5000000, 50 },
    { "soup", run_soup, 200000, 5000000, 60 },
    { "file", run_file, 4000, 100000, 0 },
};
const int pt_targets_len = countof(pt_targets);
