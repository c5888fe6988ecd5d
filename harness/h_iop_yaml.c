/* IOP <-> YAML: round trips with every packing flag, documents written by the
 * harness in many spellings, includes, presentation, refusals, mutations. */
#include <lib-common/core.h>
#include <lib-common/iop.h>
#include <lib-common/yaml.h>
#include <lib-common/iop-json.h>
#include <lib-common/iop-yaml.h>
#include <math.h>
#include <sys/stat.h>
#include <viop/vt.iop.h>
#include "iopm.h"
#include "pt.h"

const char pt_rule[] =
    "IOP YAML: random values of every type packed with every flag and unpacked "
    "again (memory and file), with and without a presentation; random "
    "documents for a value written by the harness (block and flow collections, "
    "plain and quoted scalars, escapes, comments, blank lines, merge keys, "
    "includes in other files, omitted defaults, scalars for one-element arrays); "
    "one defect per document that must be refused; mutated documents; "
    "non-trivial: at least 5 values, or a variant spelling, or a mutated document";

static mgen_t mkgen(pt_t *t)
{
    return (mgen_t){ .t = t, .budget = 5 + pt_u(t, 40), .utf8 = true,
        .finite = !pt_p(t, 1, 8), .simple_xml = true, .big = 40 };
}

/* payloads of NaN have no textual form */
static void fix_nan(mst_t *m)
{
    const iop_struct_t *lv[16];
    int nl = st_levels(m->desc, lv), k = 0;

    for (int l = 0; l < nl; l++) {
        for (int i = 0; i < lv[l]->fields_len; i++, k++) {
            const iop_field_t *f = &lv[l]->fields[i];
            for (int j = 0; j < m->f[k].n; j++) {
                mval_t *v = &m->f[k].v[j];
                if (f->type == IOP_T_DOUBLE && isnan(v->d)) v->d = NAN;
                if (f->type == IOP_T_STRUCT || f->type == IOP_T_UNION) fix_nan(v->st);
            }
        }
    }
}

static const char *const words[] = { "null", "Null", "NULL", "~", "true", "True", "FALSE", "false", ".inf", "-.inf", ".NaN",
    "12", "-12", "1.5", "0x10", "1e5", "-", "- a", "a: b", "a:", "[a]", "{a: 1}", "!tag", "# c", "a # c", "<<", "&a", "*a",
    "$(x)", "$", "a$(b", "\\", "%", "@", "`", "'a'", "\"", "|", ">", "?", "? a", "...", "---", "1_000", "010", "+5", " a", "a ",
    "inf", "nan", "infinity", "0x1p3", "5k", "3M", "yes", "no", "1.", ".5", "0", "-0", "4.9e-324", "1e999", "=", ",", "a,b", "a]", "-a" };

/* strings and binary values that look like something else */
static void tricky(pt_t *t, mst_t *m)
{
    const iop_struct_t *lv[16];
    int nl = st_levels(m->desc, lv), k = 0;

    for (int l = 0; l < nl; l++) {
        for (int i = 0; i < lv[l]->fields_len; i++, k++) {
            const iop_field_t *f = &lv[l]->fields[i];
            for (int j = 0; j < m->f[k].n; j++) {
                mval_t *v = &m->f[k].v[j];
                if (f->type == IOP_T_STRING && pt_p(t, 1, 4)) {
                    v->s = (uint8_t *)pt_pick(t, words);
                    v->len = strlen((char *)v->s);
                }
                if (f->type == IOP_T_DATA && pt_p(t, 1, 4)) {
                    static const struct { const char *p; int len; } d[] = {
                        { "\xd7\x6d\xf8", 3 }, /* 1234 */ { "\xd7\xb7\xb4", 3 }, /* 1e20 */
                        { "\xb6\xbb\x9e", 3 }, /* true */ { "\x35\x05\x0b", 3 }, /* NULL */
                        { "\xd4\xd1\x44", 3 }, /* 1NFE */ { "\xd3\x4d\x34\xd3\x4d\x34", 6 }, /* 00000000 */
                        { "\xfb\xff\xfe", 3 }, /* +//+ */ { "", 0 }, { "\0", 1 },
                        { "\x22\x77\xde", 3 }, /* Infe */ { "\x9e\xe9\x65", 3 }, /* null */
                    };
                    int n = pt_u(t, countof(d) - 1);
                    v->s = (uint8_t *)d[n].p;
                    v->len = d[n].len;
                }
                if (f->type == IOP_T_STRUCT || f->type == IOP_T_UNION) tricky(t, v->st);
            }
        }
    }
}

static const char *enum_name(const iop_enum_t *e, int v)
{
    for (int i = 0; i < e->enum_len; i++) if (e->values[i] == v) return e->names[i].s;
    return NULL;
}

static void b64(bb_t *b, const uint8_t *s, int len)
{
    const char *a = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";

    for (int i = 0; i < len; i += 3) {
        int n = MIN(len - i, 3);
        uint32_t v = s[i] << 16 | (n > 1 ? s[i + 1] << 8 : 0) | (n > 2 ? s[i + 2] : 0);
        for (int j = 0; j < 4; j++)
            bb_c(b, j > n ? '=' : a[(v >> (18 - 6 * j)) & 63]);
    }
}

static int yunpack(const iop_struct_t *d, void **out, const void *p, size_t len, unsigned flags,
                   yaml__document_presentation__t **pres, char *err, int errsz)
{
    uint8_t *in = malloc(len + !len);
    pstream_t ps;
    SB_1k(e);
    int r;

    memcpy(in, p, len);
    ps = ps_init(in, len);
    *out = NULL;
    if (len & 1) {
        r = t_iop_yunpack_ptr_ps(&ps, d, out, flags, pres, &e);
    } else if (st_is_class(d)) {
        r = t_iop_yunpack_ps(&ps, d, out, flags, pres, &e);
    } else {
        *out = mp_imalloc(t_pool(), d->size, 8, MEM_RAW);
        memset(*out, 0xa5, d->size);
        r = t_iop_yunpack_ps(&ps, d, *out, flags, pres, &e);
    }
    (snprintf)(err, errsz, "%s", e.data);
    memset(in, 0xdd, len);      /* nothing may point there any more */
    free(in);
    return r;
}

/* {{{ pack and unpack */

static void run_pack(pt_t *t)
{
    t_scope;
    mgen_t g = mkgen(t);
    const iop_struct_t *d;
    static const unsigned fl[] = { IOP_JPACK_SKIP_DEFAULT, IOP_JPACK_SKIP_EMPTY_ARRAYS, IOP_JPACK_SKIP_EMPTY_STRUCTS,
        IOP_JPACK_SKIP_OPTIONAL_CLASS_NAMES };
    unsigned flags = 0;
    mst_t *m;
    void *c, *out;
    SB_8k(sb);
    char err[512], path[PATH_MAX];
    int mode = pt_u(t, 2);

    ar_reset();
    for (int i = 0; i < countof(fl); i++) if (pt_bool(t)) flags |= fl[i];
    d = pt_p(t, 1, 6) ? &vt__cons_str__s : vt_types[pt_u(t, vt_types_len - 1)];
    m = mgen(&g, d);
    fix_nan(m);
    if (d != &vt__cons_str__s) tricky(t, m);
    m_note(t, "value", m);
    pt_note(t, "flags %x mode %d", flags, mode);
    if (m_count(m) >= 5) pt_nontrivial(t);
    c = m_to_c(m);
    if (mode == 2) {
        SB_1k(e);
        yaml__document_presentation__t *pres = NULL;

        (snprintf)(path, sizeof(path), "%s/v.yml", pt_tmpdir());
        PT_CHECK(t, (iop_ypack_file)(path, 0600, d, c, NULL, &e) >= 0, "iop_ypack_file: %s", e.data);
        if (pt_verbose(t)) {
            sb_read_file(&sb, path);
            pt_note(t, "yaml %s", sb.data);
        }
        out = NULL;
        if (t_iop_yunpack_ptr_file(path, d, &out, 0, pt_bool(t) ? &pres : NULL, &e) < 0)
            PT_FAIL(t, "cannot unpack the file written: %s", e.data);
        unlink(path);
        m_check_c(t, m, out, "value unpacked from its YAML file");
        return;
    }
    sb_adds(&sb, "@@");
    if (mode) t_iop_sb_ypack_with_flags(&sb, d, c, NULL, flags);
    else t_iop_sb_ypack(&sb, d, c, NULL);
    PT_CHECK(t, sb.len >= 2 && !memcmp(sb.data, "@@", 2), "the buffer was overwritten");
    PT_CHECK(t, (int)strlen(sb.data) == sb.len, "NUL bytes in the document");
    if (pt_verbose(t)) pt_note(t, "yaml %s", sb.data + 2);
    if (yunpack(d, &out, sb.data + 2, sb.len - 2, pt_bool(t) ? IOP_UNPACK_IGNORE_UNKNOWN : 0, NULL, err, sizeof(err)) < 0)
        PT_FAIL(t, "cannot unpack what was packed: %s", err);
    m_check_c(t, m, out, "value unpacked from its YAML");
}

/* }}} */
/* {{{ documents written by the harness */

enum { F_NONE, F_MISSING, F_UNKNOWN, F_DUP, F_RANGE, F_JUNK, F_CLASS, F_B64, F_UNION2, F_UNION0, F_TAB, F_INDENT, F_COLON,
       F_QUOTE, F_SEQ, F_SEQSEQ, F_OBJ, F_TAG, F_MAX };
static const char *fault_names[] = { "none", "missing mandatory field", "unknown key", "duplicated key",
    "integer out of range", "value of another type", "wrong class", "invalid base64", "two members in a union",
    "no member in a union", "tab as indentation", "misaligned key", "missing colon", "unclosed string",
    "sequence in a non-array field", "sequence of sequences", "object into an array", "tag on a scalar" };

enum { Y_COMMENT, Y_FLOW, Y_QUOTED, Y_ESC, Y_PLAIN, Y_MERGE, Y_OMIT, Y_NULL, Y_SCALAR_ARRAY, Y_INDENT, Y_UNK, Y_INCLUDE, Y_BLANK,
       Y_INTS, Y_FEATS };
static const char *feat_names[] = { "comment", "flow collection", "quoted string", "escapes", "plain scalar", "merge key",
    "omitted default", "null", "scalar for array", "indentation", "unknown key", "include", "blank line", "integer for a double" };

typedef struct yw_t {
    pt_t *t;
    bb_t b;
    bool unk;
    unsigned feats;
    int fault;
    bool hit;
    bool includes;
    const char *dir;
    int nfiles;
    int ncomments;
    bool no_merge;
    bool no_comments;
} yw_t;
#define FEAT(w, n)  ((w)->feats |= 1u << (n))
#define FAULT(w, k)  ((w)->fault == (k) && !(w)->hit && pt_p((w)->t, 1, 3) && ((w)->hit = true))

static void y_indent(yw_t *w, int ind) { for (int i = 0; i < ind; i++) bb_c(&w->b, ' '); }

/* end of line, then maybe comment and blank lines */
static void y_eol(yw_t *w)
{
    pt_t *t = w->t;

    if (!w->no_comments && pt_p(t, 1, 8)) {
        bb_f(&w->b, "%s# c%d: x", pt_bool(t) ? " " : "   ", w->ncomments++);
        FEAT(w, Y_COMMENT);
    } else if (pt_p(t, 1, 10)) bb_s(&w->b, "  ");
    bb_c(&w->b, '\n');
    while (pt_p(t, 1, 10)) {
        switch (pt_u(t, 2)) {
          case 0: bb_c(&w->b, '\n'); FEAT(w, Y_BLANK); break;
          case 1: bb_s(&w->b, "   \n"); FEAT(w, Y_BLANK); break;
          default:
            if (w->no_comments) break;
            y_indent(w, pt_u(t, 6)); bb_f(&w->b, "# c%d - a: [\n", w->ncomments++); FEAT(w, Y_COMMENT); break;
        }
    }
}

static void y_uc(yw_t *w, uint32_t c)
{
    if (c >= 0x10000) bb_f(&w->b, "\\u%04x\\u%04X", 0xd800 + ((c - 0x10000) >> 10), 0xdc00 + ((c - 0x10000) & 0x3ff));
    else bb_f(&w->b, "\\u%04x", c);
}

static void y_quoted(yw_t *w, const uint8_t *s, int len)
{
    bool esc = pt_bool(w->t);

    FEAT(w, Y_QUOTED);
    bb_c(&w->b, '"');
    for (int i = 0; i < len; ) {
        uint32_t c = s[i];
        int n = c < 0x80 ? 1 : c < 0xe0 ? 2 : c < 0xf0 ? 3 : 4;

        if (i + n > len) n = 1;
        if (n == 2) c = (c & 31) << 6 | (s[i + 1] & 63);
        else if (n == 3) c = (c & 15) << 12 | (s[i + 1] & 63) << 6 | (s[i + 2] & 63);
        else if (n == 4) c = (c & 7) << 18 | (s[i + 1] & 63) << 12 | (s[i + 2] & 63) << 6 | (s[i + 3] & 63);
        i += n;
        if (c == '$' && i < len && s[i] == '(') { bb_s(&w->b, "\\$("); i++; continue; }
        if (esc && pt_p(w->t, 1, 5)) {
            FEAT(w, Y_ESC);
            if (c < 0x80 && pt_bool(w->t)) bb_f(&w->b, pt_bool(w->t) ? "\\x%02x" : "\\%03o", c);
            else y_uc(w, c);
            continue;
        }
        switch (c) {
          case '"': bb_s(&w->b, "\\\""); break;
          case '\\': bb_s(&w->b, "\\\\"); break;
          case '\n': bb_s(&w->b, "\\n"); break;
          case '\r': bb_s(&w->b, "\\r"); break;
          case '\t': bb_s(&w->b, "\\t"); break;
          default: bb_add(&w->b, s + i - n, n); break;
        }
    }
    bb_c(&w->b, '"');
}

static bool iword(const uint8_t *s, int len, const char *w)
{
    return (int)strlen(w) == len && !strncasecmp((const char *)s, w, len);
}

/* can be written plain by a conservative reading of YAML */
static bool plain_ok(const uint8_t *s, int len)
{
    if (!len || !((s[0] | 32) >= 'a' && (s[0] | 32) <= 'z') || s[len - 1] == ' ') return false;
    for (int i = 0; i < len; i++) {
        bool al = (s[i] | 32) >= 'a' && (s[i] | 32) <= 'z';
        if (!al && !(s[i] >= '0' && s[i] <= '9') && !(s[i] && strchr(" _-./()+*", s[i])) && s[i] < 0x80) return false;
    }
    /* a trailing non-ASCII blank is a matter of taste */
    return s[len - 1] < 0x80 && !iword(s, len, "null");
}

/* these scalars keep their text in a string field */
static bool keeps_text(const uint8_t *s, int len)
{
    bool dot = false;

    if (iword(s, len, "true") || iword(s, len, "false")) return true;
    if (!len || len > 15) return false;
    for (int i = 0; i < len; i++) {
        if (s[i] == '.' && i && !dot) { dot = true; continue; }
        if (s[i] < '0' || s[i] > '9') return false;
    }
    return true;
}

static void y_int(yw_t *w, const iop_field_t *f, const mval_t *v)
{
    bool sgn = f->type != IOP_T_U64 && f->type != IOP_T_U8 && f->type != IOP_T_U16 && f->type != IOP_T_U32;
    bool neg = sgn && v->i < 0;
    unsigned long long a = neg ? -(unsigned long long)v->i : (unsigned long long)v->u;

    if (FAULT(w, F_RANGE)) {
        static const char *const out[][4] = {
            [IOP_T_I8] = { "128", "-129", "256", "9223372036854775808" },
            [IOP_T_U8] = { "256", "-1", "4294967296", "18446744073709551616" },
            [IOP_T_I16] = { "32768", "-32769", "65536", "9223372036854775807" },
            [IOP_T_U16] = { "65536", "-1", "4294967296", "18446744073709551615" },
            [IOP_T_I32] = { "2147483648", "-2147483649", "4294967296", "-9223372036854775809" },
            [IOP_T_ENUM] = { "2147483648", "-2147483649", "4294967296", "-9223372036854775809" },
            [IOP_T_U32] = { "4294967296", "-1", "18446744073709551616", "-4294967295" },
            [IOP_T_I64] = { "9223372036854775808", "-9223372036854775809", "18446744073709551615", "99999999999999999999" },
            [IOP_T_U64] = { "18446744073709551616", "-1", "99999999999999999999", "-18446744073709551615" },
        };
        bb_s(&w->b, out[f->type][pt_u(w->t, 3)]);
        return;
    }
    bb_f(&w->b, "%s%llu", neg ? "-" : "", a);
}

static void y_null(yw_t *w)
{
    static const char *const n[] = { "~", "null", "NULL", "Null" };
    FEAT(w, Y_NULL);
    bb_s(&w->b, pt_pick(w->t, n));
}

static const char *const junk_num[] = { "abc", "1.5", "true", "\"12\"", "[1, [2]]", "{a: 1}", "~", "12abc", "0x", ".inf", "1 2", "--1" };

static void y_scalar(yw_t *w, const iop_field_t *f, const mval_t *v, bool flow)
{
    pt_t *t = w->t;

    if (!flow && f->type != IOP_T_VOID && FAULT(w, F_TAG)) bb_s(&w->b, "!vt.Small ");
    switch (f->type) {
      case IOP_T_I8: case IOP_T_I16: case IOP_T_I32: case IOP_T_I64:
      case IOP_T_U8: case IOP_T_U16: case IOP_T_U32: case IOP_T_U64:
        if (FAULT(w, F_JUNK)) bb_s(&w->b, pt_pick(t, junk_num));
        else y_int(w, f, v);
        break;
      case IOP_T_ENUM: {
        const char *en = enum_name(f->u1.en_desc, v->i);
        if (FAULT(w, F_JUNK)) { static const char *const j[] = { "\"\"", "NOPE", "A B", "AA", "1.5", "true", "~", "{a: 1}" }; bb_s(&w->b, pt_pick(t, j)); }
        else if (en && pt_bool(t) && w->fault != F_RANGE) {
            if (pt_p(t, 1, 3)) y_quoted(w, (const uint8_t *)en, strlen(en));
            else bb_s(&w->b, en);
        } else y_int(w, f, v);
      } break;
      case IOP_T_BOOL:
        if (FAULT(w, F_JUNK)) { static const char *const j[] = { "1", "0", "tru", "\"true\"", "yes", "~", "{a: true}" }; bb_s(&w->b, pt_pick(t, j)); }
        else { static const char *const b[2][4] = { { "false", "False", "FALSE", "fAlse" }, { "true", "True", "TRUE", "truE" } };
            bb_s(&w->b, b[v->u != 0][pt_u(t, 3)]); }
        break;
      case IOP_T_DOUBLE:
        if (FAULT(w, F_JUNK)) { static const char *const j[] = { "e", "1.5x", "1 2", "\"1.5\"", "true", "~", "[[1.5]]" }; bb_s(&w->b, pt_pick(t, j)); }
        else if (isinf(v->d)) bb_f(&w->b, "%s%s", v->d < 0 ? "-" : "", pt_bool(t) ? ".inf" : pt_bool(t) ? ".Inf" : ".INF");
        else if (isnan(v->d)) bb_s(&w->b, pt_bool(t) ? ".NaN" : ".nan");
        else if (v->d == (double)(int32_t)v->d && !signbit(v->d) && pt_bool(t)) { bb_f(&w->b, "%d", (int)v->d); FEAT(w, Y_INTS); }
        else bb_f(&w->b, v->d && pt_bool(t) ? "%.17g" : "%.17e", v->d);
        break;
      case IOP_T_STRING: case IOP_T_XML:
        if (FAULT(w, F_JUNK)) { bb_s(&w->b, pt_bool(t) ? "{a: b}" : "[[a]]"); break; }
        if (!flow && FAULT(w, F_QUOTE)) { bb_s(&w->b, "\"abc"); break; }
        if (f->type == IOP_T_STRING && keeps_text(v->s, v->len) && pt_bool(t)) { bb_add(&w->b, v->s, v->len); FEAT(w, Y_PLAIN); break; }
        if (plain_ok(v->s, v->len) && !iword(v->s, v->len, "true") && !iword(v->s, v->len, "false")
        &&  !iword(v->s, v->len, "inf") && !iword(v->s, v->len, "nan") && !iword(v->s, v->len, "infinity")
        &&  pt_p(t, 2, 3)) { bb_add(&w->b, v->s, v->len); FEAT(w, Y_PLAIN); break; }
        y_quoted(w, v->s, v->len);
        break;
      case IOP_T_DATA:
        if (!flow && FAULT(w, F_B64)) { static const char *const j[] = { "!bin A", "!bin A===", "!bin QUI=QUI", "!bin QU*I", "!bin \"QU=I\"", "!bin [QUI=]" }; bb_s(&w->b, pt_pick(t, j)); break; }
        if (flow) {
            y_quoted(w, v->s, v->len);     /* only reached for ASCII */
        } else {
            bb_s(&w->b, "!bin ");
            if (pt_bool(t)) { bb_c(&w->b, '"'); b64(&w->b, v->s, v->len); bb_c(&w->b, '"'); break; }
            /* plain when it cannot be taken for anything else */
            if (v->len > 1 && v->s[0] < 0x80 && (v->s[0] >> 2) < 52 && (v->len % 3 || v->len > 6)) b64(&w->b, v->s, v->len);
            else { bb_c(&w->b, '"'); b64(&w->b, v->s, v->len); bb_c(&w->b, '"'); }
        }
        break;
      case IOP_T_VOID:
        if (pt_bool(t)) y_null(w);
        else bb_s(&w->b, pt_bool(t) ? "12" : "{}");
        break;
      default: PT_FAIL(t, "harness: %d", f->type);
    }
}

static bool is_st(const iop_field_t *f) { return f->type == IOP_T_STRUCT || f->type == IOP_T_UNION; }

/* has no need for a tag, so that it may be written in flow style */
static bool flow_ok(const mst_t *m)
{
    const iop_struct_t *lv[16];
    int nl = st_levels(m->desc, lv), k = 0;

    for (int l = 0; l < nl; l++) {
        for (int i = 0; i < lv[l]->fields_len; i++, k++) {
            const iop_field_t *f = &lv[l]->fields[i];
            for (int j = 0; j < m->f[k].n; j++) {
                const mval_t *v = &m->f[k].v[j];
                if (f->type == IOP_T_DATA) for (int z = 0; z < v->len; z++) if (v->s[z] >= 0x80) return false;
                if (field_is_class(f) && v->st->desc != f->u1.st_desc) return false;
                if (is_st(f) && !flow_ok(v->st)) return false;
            }
        }
    }
    return true;
}

static bool scalar_flow_ok(const iop_field_t *f, const mval_t *v)
{
    if (f->type == IOP_T_DATA) for (int z = 0; z < v->len; z++) if (v->s[z] >= 0x80) return false;
    if (field_is_class(f) && v->st->desc != f->u1.st_desc) return false;
    return !is_st(f) || flow_ok(v->st);
}

/* fields to write, in a random order */
typedef struct fw_t { const iop_field_t *f; const mfld_t *o; } fw_t;
static int y_fields(yw_t *w, const mst_t *m, fw_t *fw)
{
    pt_t *t = w->t;
    const iop_struct_t *lv[16];
    int nl = st_levels(m->desc, lv), k = 0, n = 0;

    if (m->desc->is_union) {
        fw[0] = (fw_t){ &m->desc->fields[m->sel], &m->f[m->sel] };
        return FAULT(w, F_UNION0) ? 0 : 1;
    }
    for (int l = 0; l < nl; l++) {
        for (int i = 0; i < lv[l]->fields_len; i++, k++) {
            const iop_field_t *f = &lv[l]->fields[i];
            const mfld_t *o = &m->f[k];

            if (f->type == IOP_T_VOID && f->repeat == IOP_R_REQUIRED) {
                if (pt_bool(t)) continue;
            } else if (!o->n && (f->repeat != IOP_R_REPEATED || !pt_p(t, 1, 3))) continue;
            if (f->repeat == IOP_R_DEFVAL && o->n && field_is_defval(f, &o->v[0]) && pt_bool(t)) { FEAT(w, Y_OMIT); continue; }
            if (f->repeat == IOP_R_REQUIRED && !is_st(f) && f->type != IOP_T_VOID && FAULT(w, F_MISSING)) continue;
            fw[n++] = (fw_t){ f, o };
        }
    }
    for (int i = n - 1; i > 0; i--) {
        int j = pt_p(t, 1, 3) ? pt_u(t, i) : i;
        fw_t tmp = fw[i];
        fw[i] = fw[j]; fw[j] = tmp;
    }
    return n;
}

static void y_fws(yw_t *w)   /* blanks in flow context */
{
    switch (pt_u(w->t, 7)) {
      case 0: bb_s(&w->b, "  "); break;
      case 1: bb_s(&w->b, "\n "); break;
      case 2: if (!w->no_comments) { bb_f(&w->b, " # c%d }\n  ", w->ncomments++); FEAT(w, Y_COMMENT); } break;
      default: bb_c(&w->b, ' '); break;
    }
}

static const char *const unk_block[] = { "zz: 1", "zz: {a: [1, 2], b: \"}\"}", "zz: []", "zz:", "zz: \"a: b\"" };

static void y_flow_val(yw_t *w, const iop_field_t *f, const mval_t *v);
static void y_flow_field(yw_t *w, const iop_field_t *f, const mfld_t *o)
{
    bb_f(&w->b, "%s:", f->name.s);
    y_fws(w);
    if (f->repeat == IOP_R_REPEATED) {
        if (o->n == 1 && !is_st(f) && w->fault != F_JUNK && pt_p(w->t, 1, 4)) { FEAT(w, Y_SCALAR_ARRAY); y_flow_val(w, f, &o->v[0]); return; }
        bb_c(&w->b, '[');
        for (int j = 0; j < o->n; j++) {
            if (j) bb_c(&w->b, ',');
            y_fws(w);
            y_flow_val(w, f, &o->v[j]);
        }
        if (o->n && pt_p(w->t, 1, 6)) bb_c(&w->b, ',');
        y_fws(w);
        bb_c(&w->b, ']');
    } else if (o->n) y_flow_val(w, f, &o->v[0]);
    else y_null(w);
}

static void y_flow_st(yw_t *w, const mst_t *m)
{
    fw_t fw[64];
    int n = y_fields(w, m, fw);

    FEAT(w, Y_FLOW);
    bb_c(&w->b, '{');
    for (int i = 0; i < n; i++) {
        if (i) bb_c(&w->b, ',');
        y_fws(w);
        y_flow_field(w, fw[i].f, fw[i].o);
        if (FAULT(w, F_DUP)) { bb_s(&w->b, ", "); y_flow_field(w, fw[i].f, fw[i].o); }
    }
    if (m->desc->is_union) {
        if (n && FAULT(w, F_UNION2)) bb_s(&w->b, ", other: 1");
    } else {
        if (w->unk && pt_p(w->t, 1, 6)) { bb_f(&w->b, "%s zz: [{a: b}]", n ? "," : ""); n++; FEAT(w, Y_UNK); }
        if (FAULT(w, F_UNKNOWN)) { bb_f(&w->b, "%s nope: 1", n ? "," : ""); n++; }
    }
    if (n && pt_p(w->t, 1, 6)) bb_c(&w->b, ',');
    y_fws(w);
    bb_c(&w->b, '}');
}

static void y_flow_val(yw_t *w, const iop_field_t *f, const mval_t *v)
{
    if (is_st(f)) {
        if (f->repeat != IOP_R_REPEATED && FAULT(w, F_SEQ)) { bb_c(&w->b, '['); y_flow_st(w, v->st); bb_c(&w->b, ']'); }
        else y_flow_st(w, v->st);
    } else if (f->repeat != IOP_R_REPEATED && f->type != IOP_T_VOID && FAULT(w, F_SEQ)) {
        bb_c(&w->b, '['); y_scalar(w, f, v, true); bb_c(&w->b, ']');
    } else if (f->repeat == IOP_R_REPEATED && FAULT(w, F_SEQSEQ)) {
        bb_s(&w->b, "[["); y_scalar(w, f, v, true); bb_s(&w->b, "]]");
    } else y_scalar(w, f, v, true);
}

static void y_block_st(yw_t *w, const mst_t *m, int ind);
static bool y_has_block(yw_t *w, const mst_t *m) { return !flow_ok(m) || pt_p(w->t, 2, 3); }

/* writes the object in a file of its own; false if it cannot be */
static bool y_include(yw_t *w, const iop_struct_t *d, const mst_t *m)
{
    yw_t sub = { .t = w->t, .unk = w->unk, .dir = w->dir, .no_comments = w->no_comments };
    char path[PATH_MAX];
    FILE *fp;

    if (!w->includes || w->nfiles > 4 || !pt_p(w->t, 1, 4)) return false;
    (snprintf)(path, sizeof(path), "%s/inc%d.yml", w->dir, w->nfiles);
    if (st_is_class(d)) bb_f(&sub.b, "!%s\n", m->desc->fullname.s);
    y_block_st(&sub, m, 0);
    fp = fopen(path, "w");
    fwrite(sub.b.p, 1, sub.b.len, fp);
    fclose(fp);
    if (pt_verbose(w->t)) pt_note(w->t, "inc%d.yml:\n%.*s", w->nfiles, (int)sub.b.len, sub.b.p);
    bb_f(&w->b, " !include:inc%d.yml", w->nfiles++);
    w->feats |= sub.feats;
    FEAT(w, Y_INCLUDE);
    return true;
}

/* after "key:" or "-": a struct value */
static void y_block_val_st(yw_t *w, const iop_field_t *f, const mval_t *v, int ind, bool dash)
{
    pt_t *t = w->t;
    bool tag = false;

    if (y_include(w, f->u1.st_desc, v->st)) return;
    if (field_is_class(f)) {
        if (FAULT(w, F_CLASS)) {
            static const char *const bad[] = { "vt.Nope", "vt.Small", "vt.ConsKid", "vt.KidAbs", "4a" };
            bb_f(&w->b, " !%s", pt_pick(t, bad));
            tag = true;
        } else if (v->st->desc != f->u1.st_desc || pt_bool(t)) {
            bb_f(&w->b, " !%s", v->st->desc->fullname.s);
            tag = true;
        }
    } else if (pt_p(t, 1, 8)) {
        bb_f(&w->b, " !%s", v->st->desc->fullname.s);
        tag = true;
    }
    if (y_has_block(w, v->st)) {
        /* an empty object cannot be written in block style */
        int n = v->st->desc->is_union;

        if (!n) {
            const iop_struct_t *lv[16];
            int nl = st_levels(v->st->desc, lv), k = 0;
            for (int l = 0; l < nl; l++) for (int i = 0; i < lv[l]->fields_len; i++, k++) n += v->st->f[k].n;
        }
        if (n) {
            int ni = ind + (pt_p(t, 1, 4) ? 1 + pt_u(t, 5) : 2);
            if (dash && ni < ind + 2) ni = ind + 2;
            if (ni != ind + 2) FEAT(w, Y_INDENT);
            if (dash && !tag && pt_p(t, 3, 4)) {
                y_indent(w, ni - ind - 1);
            } else {
                y_eol(w);
                y_indent(w, ni);
            }
            y_block_st(w, v->st, ni);
            return;
        }
    }
    bb_c(&w->b, ' ');
    y_flow_st(w, v->st);
}

/* after "key:" */
static void y_block_field(yw_t *w, const iop_field_t *f, const mfld_t *o, int ind)
{
    pt_t *t = w->t;

    if (f->repeat == IOP_R_REPEATED) {
        bool flow = true;

        for (int j = 0; j < o->n; j++) flow &= scalar_flow_ok(f, &o->v[j]);
        if (o->n && is_st(f) && flow_ok(o->v[0].st) && FAULT(w, F_OBJ)) { bb_c(&w->b, ' '); y_flow_st(w, o->v[0].st); return; }
        if (o->n == 1 && !is_st(f) && w->fault != F_JUNK && pt_p(t, 1, 4)) {
            FEAT(w, Y_SCALAR_ARRAY);
            bb_c(&w->b, ' ');
            y_scalar(w, f, &o->v[0], false);
            return;
        }
        if (!o->n) {
            switch (pt_u(t, 2)) {
              case 0: bb_s(&w->b, " []"); break;
              case 1: bb_c(&w->b, ' '); y_null(w); break;
              default: break;
            }
            return;
        }
        if (flow && pt_p(t, 1, 3)) {
            bb_s(&w->b, " [");
            FEAT(w, Y_FLOW);
            for (int j = 0; j < o->n; j++) {
                if (j) bb_c(&w->b, ',');
                y_fws(w);
                y_flow_val(w, f, &o->v[j]);
            }
            bb_c(&w->b, ']');
            return;
        }
        {
            int ni = ind + pt_u(t, 2);

            for (int j = 0; j < o->n; j++) {
                y_eol(w);
                y_indent(w, ni);
                bb_c(&w->b, '-');
                if (is_st(f)) {
                    if (flow_ok(o->v[j].st) && FAULT(w, F_SEQSEQ)) { bb_s(&w->b, " - "); y_flow_st(w, o->v[j].st); }
                    else y_block_val_st(w, f, &o->v[j], ni, true);
                } else {
                    bb_s(&w->b, pt_p(t, 1, 6) ? "   " : " ");
                    if (FAULT(w, F_SEQSEQ)) bb_s(&w->b, "- ");
                    y_scalar(w, f, &o->v[j], false);
                }
            }
        }
        return;
    }
    if (!o->n) { bb_c(&w->b, ' '); y_null(w); return; }  /* void */
    if (is_st(f)) {
        if (FAULT(w, F_SEQ)) { bb_s(&w->b, " [{}]"); return; }
        y_block_val_st(w, f, &o->v[0], ind, false);
        return;
    }
    if (pt_p(t, 1, 8) && ind < 20) {
        /* on the next line */
        y_eol(w);
        y_indent(w, ind + 1 + pt_u(t, 3));
        FEAT(w, Y_INDENT);
    } else bb_s(&w->b, pt_p(t, 1, 6) ? "   " : " ");
    if (f->type != IOP_T_VOID && scalar_flow_ok(f, &o->v[0]) && FAULT(w, F_SEQ)) { bb_c(&w->b, '['); y_scalar(w, f, &o->v[0], true); bb_c(&w->b, ']'); return; }
    y_scalar(w, f, &o->v[0], false);
}

/* the cursor is at column `ind`; ends with an end of line */
static void y_block_st(yw_t *w, const mst_t *m, int ind)
{
    pt_t *t = w->t;
    fw_t fw[64];
    int n = y_fields(w, m, fw), first = 0;
    bool wrote = false;

    if (!n) {
        /* every field is omitted */
        bb_s(&w->b, "{}");
        return;
    }
    if (!w->no_merge && !w->fault && n > 1 && pt_p(t, 1, 8)) {
        /* a merge key carries the first fields, and maybe wrong values for
         * the others, which are overridden afterwards */
        bool flow = true;
        int k = 1 + pt_u(t, n - 2), ni = ind + 2;

        for (int i = 0; i < k; i++) for (int j = 0; j < fw[i].o->n; j++) flow &= scalar_flow_ok(fw[i].f, &fw[i].o->v[j]);
        FEAT(w, Y_MERGE);
        bb_s(&w->b, "<<:");
        for (int i = 0; i < k; i++) {
            y_eol(w);
            y_indent(w, ni);
            bb_f(&w->b, "%s:", fw[i].f->name.s);
            y_block_field(w, fw[i].f, fw[i].o, ni);
        }
        if (pt_bool(t)) {
            y_eol(w);
            y_indent(w, ni);
            bb_f(&w->b, "%s: {over: ridden}", fw[k].f->name.s);
        }
        (void)flow;
        first = k;
        wrote = true;
    }
    for (int i = first; i < n; i++) {
        if (wrote) {
            y_eol(w);
            if (i && FAULT(w, F_TAB)) bb_c(&w->b, '\t');
            y_indent(w, ind);
            if (i && FAULT(w, F_INDENT)) y_indent(w, 23);
        }
        wrote = true;
        if (FAULT(w, F_COLON)) {
            static const char *const bad[] = { "4i: 1", "a b: 1", "i 1", "\"i\": 1", ": 1" };
            bb_s(&w->b, pt_pick(t, bad));
            y_eol(w);
            y_indent(w, ind);
        }
        bb_f(&w->b, "%s:", fw[i].f->name.s);
        y_block_field(w, fw[i].f, fw[i].o, ind);
        if (FAULT(w, F_DUP)) {
            y_eol(w);
            y_indent(w, ind);
            bb_f(&w->b, "%s:", fw[i].f->name.s);
            y_block_field(w, fw[i].f, fw[i].o, ind);
        }
        if (w->unk && !m->desc->is_union && pt_p(t, 1, 8)) {
            y_eol(w);
            y_indent(w, ind);
            bb_f(&w->b, "z%d", i);
            bb_s(&w->b, pt_pick(t, unk_block));
            FEAT(w, Y_UNK);
        }
        if (!m->desc->is_union && FAULT(w, F_UNKNOWN)) {
            y_eol(w);
            y_indent(w, ind);
            bb_s(&w->b, pt_bool(t) ? "nope: 1" : "nope:");
        }
        if (m->desc->is_union && FAULT(w, F_UNION2)) {
            y_eol(w);
            y_indent(w, ind);
            bb_s(&w->b, pt_bool(t) ? "nope: 1" : "i: 1");
        }
    }
}

static void y_doc(yw_t *w, const iop_struct_t *d, const mst_t *m)
{
    if (pt_p(w->t, 1, 6)) y_eol(w);
    if (st_is_class(d)) {
        bb_f(&w->b, "!%s", m->desc->fullname.s);
        y_eol(w);
    }
    if (flow_ok(m) && pt_p(w->t, 1, 6)) y_flow_st(w, m);
    else {
        int ind = pt_p(w->t, 1, 10) ? pt_u(w->t, 3) : 0;
        y_indent(w, ind);
        y_block_st(w, m, ind);
    }
    if (pt_p(w->t, 3, 4)) y_eol(w);
}

static void labels(yw_t *w)
{
    for (int i = 0; i < Y_FEATS; i++) if (w->feats & (1u << i)) pt_label(w->t, feat_names[i]);
}

static void run_syntax(pt_t *t)
{
    t_scope;
    mgen_t g = mkgen(t);
    yw_t w = { .t = t, .dir = pt_tmpdir() };
    const iop_struct_t *d;
    mst_t *m;
    void *out = NULL;
    char err[512];
    yaml__document_presentation__t *pres = NULL;
    bool with_pres;
    int r;

    ar_reset();
    w.unk = pt_p(t, 1, 4);
    w.includes = pt_p(t, 1, 8);
    d = vt_types[pt_u(t, vt_types_len - 1)];
    m = mgen(&g, d);
    fix_nan(m);
    tricky(t, m);
    m_note(t, "value", m);
    y_doc(&w, d, m);
    with_pres = pt_p(t, 1, 3);
    if (pt_verbose(t)) pt_note(t, "yaml\n%.*s", (int)MIN(w.b.len, (size_t)3000), w.b.p);
    labels(&w);
    if (w.feats) pt_nontrivial(t);
    if (w.includes) {
        char path[PATH_MAX];
        SB_1k(e);
        FILE *fp;

        (snprintf)(path, sizeof(path), "%s/main.yml", w.dir);
        fp = fopen(path, "w");
        fwrite(w.b.p, 1, w.b.len, fp);
        fclose(fp);
        r = t_iop_yunpack_ptr_file(path, d, &out, w.unk ? IOP_UNPACK_IGNORE_UNKNOWN : 0, with_pres ? &pres : NULL, &e);
        (snprintf)(err, sizeof(err), "%s", e.data);
    } else {
        r = yunpack(d, &out, w.b.p, w.b.len, w.unk ? IOP_UNPACK_IGNORE_UNKNOWN : 0, with_pres ? &pres : NULL, err, sizeof(err));
    }
    PT_CHECK(t, r >= 0, "legal document refused: %s", err);
    m_check_c(t, m, out, "value unpacked from YAML");
}

static void run_refuse(pt_t *t)
{
    t_scope;
    mgen_t g = mkgen(t);
    yw_t w = { .t = t };
    const iop_struct_t *d;
    mst_t *m;
    void *out;
    char err[512];

    ar_reset();
    w.fault = pt_range(t, 1, F_MAX - 1);
    d = vt_types[pt_u(t, vt_types_len - 1)];
    m = mgen(&g, d);
    fix_nan(m);
    y_doc(&w, d, m);
    if (!w.hit) return;
    pt_nontrivial(t);
    pt_label(t, fault_names[w.fault]);
    if (pt_verbose(t)) pt_note(t, "%s:\n%.*s", fault_names[w.fault], (int)MIN(w.b.len, (size_t)2000), w.b.p);
    PT_CHECK(t, yunpack(d, &out, w.b.p, w.b.len, 0, NULL, err, sizeof(err)) < 0, "%s accepted", fault_names[w.fault]);
    PT_CHECK(t, err[0], "refused without a message");
}

/* }}} */
/* {{{ presentation: unpack with it, repack with it */

static int count_sub(const char *hay, const char *needle)
{
    int n = 0;
    for (const char *p = hay; (p = strstr(p, needle)); p++) n++;
    return n;
}

static void run_pres(pt_t *t)
{
    t_scope;
    mgen_t g = mkgen(t);
    yw_t w = { .t = t, .no_merge = pt_bool(t) };
    const iop_struct_t *d;
    mst_t *m;
    void *out, *out2;
    char err[512];
    yaml__document_presentation__t *pres = NULL, *pres2 = NULL;
    SB_8k(sb);
    SB_8k(sb2);

    ar_reset();
    g.big = 0;
    d = vt_types[pt_u(t, vt_types_len - 1)];
    m = mgen(&g, d);
    fix_nan(m);
    tricky(t, m);
    y_doc(&w, d, m);
    if (pt_verbose(t)) pt_note(t, "yaml\n%.*s", (int)MIN(w.b.len, (size_t)3000), w.b.p);
    labels(&w);
    if (w.feats) pt_nontrivial(t);
    if (yunpack(d, &out, w.b.p, w.b.len, 0, &pres, err, sizeof(err)) < 0) PT_FAIL(t, "legal document refused: %s", err);
    m_check_c(t, m, out, "value unpacked from YAML, with its presentation");
    PT_CHECK(t, pres, "no presentation");
    /* flags 0: all the fields are in the document, but fields absent from
     * the original document appear too */
    t_iop_sb_ypack_with_flags(&sb, d, out, pres, pt_bool(t) ? 0 : IOP_JPACK_SKIP_DEFAULT);
    if (pt_verbose(t)) pt_note(t, "repacked\n%s", sb.data);
    if (yunpack(d, &out2, sb.data, sb.len, 0, &pres2, err, sizeof(err)) < 0)
        PT_FAIL(t, "document repacked with its presentation refused: %s", err);
    m_check_c(t, m, out2, "value repacked with its presentation");
}

/* }}} */
/* {{{ private */

static bool has_priv(const mst_t *m)
{
    const iop_struct_t *lv[16];
    int nl = st_levels(m->desc, lv), k = 0;

    for (int l = 0; l < nl; l++) {
        for (int i = 0; i < lv[l]->fields_len; i++, k++) {
            const iop_field_t *f = &lv[l]->fields[i];
            if (field_is_private(lv[l], f) && m->f[k].n
            &&  !(f->repeat == IOP_R_DEFVAL && field_is_defval(f, &m->f[k].v[0]))) return true;
            for (int j = 0; j < m->f[k].n; j++) {
                if ((f->type == IOP_T_STRUCT || f->type == IOP_T_UNION) && has_priv(m->f[k].v[j].st)) return true;
            }
        }
    }
    return false;
}

static void run_private(pt_t *t)
{
    t_scope;
    mgen_t g = mkgen(t);
    const iop_struct_t *d = pt_bool(t) ? &vt__priv__s : pt_bool(t) ? &vt__def__s : &vt__all__s;
    mst_t *m;
    void *c, *out;
    SB_8k(sb);
    char err[512];
    bool skip = pt_bool(t), hp;
    int r;

    ar_reset();
    m = mgen(&g, d);
    fix_nan(m);
    m_note(t, "value", m);
    c = m_to_c(m);
    t_iop_sb_ypack_with_flags(&sb, d, c, NULL, IOP_JPACK_SKIP_DEFAULT | IOP_JPACK_SKIP_EMPTY_ARRAYS
                              | (skip ? IOP_JPACK_SKIP_PRIVATE : 0));
    pt_nontrivial(t);
    if (pt_verbose(t)) pt_note(t, "yaml\n%s", sb.data);
    r = yunpack(d, &out, sb.data, sb.len, IOP_UNPACK_FORBID_PRIVATE, NULL, err, sizeof(err));
    hp = !skip && has_priv(m);
    pt_label(t, hp ? "has private" : "no private");
    if (hp) PT_CHECK(t, r < 0, "private fields accepted with IOP_UNPACK_FORBID_PRIVATE");
    else PT_CHECK(t, r >= 0, "document without private fields refused: %s", err);
}

/* }}} */
/* {{{ hostile */

static const char *const toks[] = { ":", ": ", "- ", "-", "\n", "\n  ", "\n- ", "  ", "\t", "#", " # c\n", "\"", "\\", "\\x4", "\\u12", "\\$(", "$(a)", "$(",
    "[", "]", "{", "}", ",", "!", "!bin ", "!vt.KidA ", "!vt.KidB\n", "!include:x ", "!includeraw:x ", "<<: ", "<<:\n", "~", "null", "true", ".inf", "-.inf", ".nan",
    "0", "-1", "18446744073709551616", "1e999", "i: 1\n", "s: x\n", "a: b", "&a", "*a", "|", ">", "\xff", "\xc3\xa9", "[]", "{}", "[[", "zz: ", "variables:\n  a: 1\n" };

static bool bad_utf8(const uint8_t *s, int len)
{
    for (int i = 0; i < len; ) {
        int c = s[i], n = c < 0x80 ? 0 : c < 0xc2 ? -1 : c < 0xe0 ? 1 : c < 0xf0 ? 2 : c < 0xf5 ? 3 : -1;

        if (n < 0 || i + n >= len) return true;
        for (int j = 1; j <= n; j++) if ((s[i + j] & 0xc0) != 0x80) return true;
        if ((c == 0xe0 && s[i + 1] < 0xa0) || (c == 0xed && s[i + 1] > 0x9f)
        ||  (c == 0xf0 && s[i + 1] < 0x90) || (c == 0xf4 && s[i + 1] > 0x8f)) return true;
        i += n + 1;
    }
    return false;
}
static bool has_nan(const mst_t *m)
{
    const iop_struct_t *lv[16];
    int nl = st_levels(m->desc, lv), k = 0;

    for (int l = 0; l < nl; l++) {
        for (int i = 0; i < lv[l]->fields_len; i++, k++) {
            const iop_field_t *f = &lv[l]->fields[i];
            for (int j = 0; j < m->f[k].n; j++) {
                const mval_t *v = &m->f[k].v[j];
                if (f->type == IOP_T_DOUBLE && isnan(v->d)) return true;
                if (f->type == IOP_T_STRING || f->type == IOP_T_XML) {
                    /* not UTF-8: taken for latin1 when packed */
                    if (bad_utf8(v->s, v->len) || memchr(v->s, 0, v->len)) return true;
                }
                if (is_st(f) && has_nan(v->st)) return true;
            }
        }
    }
    return false;
}

static void run_mutate(pt_t *t)
{
    t_scope;
    mgen_t g = mkgen(t);
    yw_t w = { .t = t };
    const iop_struct_t *d;
    mst_t *m;
    void *out, *out2;
    char err[512];
    int n = 1 + pt_u(t, 3), r;
    size_t nb;
    const char *e;
    SB_8k(sb);
    unsigned flags = (pt_bool(t) ? IOP_UNPACK_IGNORE_UNKNOWN : 0) | (pt_p(t, 1, 4) ? IOP_UNPACK_FORBID_PRIVATE : 0);
    yaml__document_presentation__t *pres = NULL;
    bool with_pres = pt_p(t, 1, 3);

    ar_reset();
    g.big = 0;
    g.budget = 1 + pt_u(t, 15);
    w.unk = pt_p(t, 1, 4);
    d = vt_types[pt_u(t, vt_types_len - 1)];
    m = mgen(&g, d);
    y_doc(&w, d, m);
    while (n--) {
        bb_t *b = &w.b;
        size_t pos = pt_u(t, b->len - 1), k;

        switch (pt_u(t, 7)) {
          case 0: b->p[pos] ^= 1 << pt_u(t, 7); break;
          case 1: if (pos) b->len = pos; break;
          case 2: case 3: case 4: {
            const char *s = pt_pick(t, toks);
            k = strlen(s);
            if (pt_bool(t)) while (pos && b->p[pos] != '\n' && b->p[pos] != ':') pos--;
            bb_add(b, s, k);
            memmove(b->p + pos + k, b->p + pos, b->len - k - pos);
            memcpy(b->p + pos, s, k);
          } break;
          case 5: case 6: {
            /* remove up to the next line */
            size_t end = pos + 1;
            while (pos && b->p[pos] != '\n') pos--;
            while (end < b->len && b->p[end] != '\n') end++;
            memmove(b->p + pos, b->p + end, b->len - end);
            b->len -= end - pos;
            if (!b->len) bb_c(b, 'x');
          } break;
          default: b->p[pos] = pt_bits(t, 8); break;
        }
    }
    pt_nontrivial(t);
    if (pt_verbose(t)) {
        pt_note(t, "type %s flags %x", d->fullname.s, flags);
        pt_note_hex(t, "text", w.b.p, w.b.len);
        pt_note(t, "%.*s", (int)w.b.len, w.b.p);
    }
    r = yunpack(d, &out, w.b.p, w.b.len, flags, with_pres ? &pres : NULL, err, sizeof(err));
    if (r < 0) {
        pt_label(t, "refused");
        PT_CHECK(t, err[0], "refused without a message");
        return;
    }
    pt_label(t, "accepted");
    if ((e = c_walk(d, out, &nb))) PT_FAIL(t, "accepted value is malformed: %s", e);
    m_read_c(d, out, &m);
    if (has_nan(m)) return;
    t_iop_sb_ypack_with_flags(&sb, d, out, pres, 0);
    if (yunpack(d, &out2, sb.data, sb.len, 0, NULL, err, sizeof(err)) < 0)
        PT_FAIL(t, "accepted value does not survive a round trip: %s\n%s", err, sb.data);
    m_check_c(t, m, out2, "accepted value, packed and unpacked");
}

/* }}} */

void pt_setup(void)
{
    vt_setup();
    MODULE_REQUIRE(iop_yaml);
}

const pt_target_t pt_targets[] = {
    { "pack", run_pack, 250000, 3000000, 10 },
    { "syntax", run_syntax, 250000, 3000000, 10 },
    { "refuse", run_refuse, 200000, 2000000, 0 },
    { "pres", run_pres, 150000, 1000000, 10 },
    { "private", run_private, 20000, 200000, 0 },
    { "mutate", run_mutate, 300000, 4000000, 30 },
};
const int pt_targets_len = countof(pt_targets);
