/* IOP <-> XML: packing against libxml2's own tree, round trips, loose
 * spellings, refusals, mutated documents. */
#include <lib-common/core.h>
#include <lib-common/iop.h>
#include <lib-common/xmlr.h>
#include <libxml/parser.h>
#include <libxml/tree.h>
#include <math.h>
#include <viop/vt.iop.h>
#include "iopm.h"
#include "pt.h"

const char pt_rule[] =
    "IOP XML: random values of every type packed with every flag, the document "
    "parsed by libxml2's tree parser and compared with the value, unpacked and "
    "compared again; random documents for a value (blanks, comments, prefixes, "
    "attributes, character references, CDATA, other integer notations, omitted "
    "defaults, unknown elements, parts); one defect per document that must be "
    "refused; mutated documents; non-trivial: at least 5 values, or a variant "
    "spelling, or a mutated document";

#define XSI  "http://www.w3.org/2001/XMLSchema-instance"
#define XSD  "http://www.w3.org/2001/XMLSchema"
static const char root_open[] =
    "<root xmlns:n=\"urn:n\" xmlns:xsi=\"" XSI "\" xmlns:xsd=\"" XSD "\"";

static mgen_t mkgen(pt_t *t)
{
    return (mgen_t){ .t = t, .budget = 5 + pt_u(t, 40), .utf8 = true, .xmlchars = true,
        .finite = !pt_p(t, 1, 8), .simple_xml = true, .big = 40 };
}

/* Blank strings are dropped by the reader (XML_PARSE_NOBLANKS is part of the
 * documented options), and XML has no way to carry them: make them non blank.
 * Same thing for mandatory elements with only blanks in XML fields. */
static void fix_blank(mval_t *v)
{
    int i;

    for (i = 0; i < v->len; i++) {
        if (v->s[i] != ' ' && v->s[i] != '\t' && v->s[i] != '\n' && v->s[i] != '\r') return;
    }
    if (v->len) v->s[0] = 'b';
}
static void fix_st(mst_t *m)
{
    const iop_struct_t *lv[16];
    int nl = st_levels(m->desc, lv), k = 0;

    for (int l = 0; l < nl; l++) {
        for (int i = 0; i < lv[l]->fields_len; i++, k++) {
            const iop_field_t *f = &lv[l]->fields[i];
            for (int j = 0; j < m->f[k].n; j++) {
                mval_t *v = &m->f[k].v[j];
                if (f->type == IOP_T_STRING || f->type == IOP_T_XML) fix_blank(v);
                /* the payload of a NaN has no textual form */
                if (f->type == IOP_T_DOUBLE && isnan(v->d)) v->d = NAN;
                if (f->type == IOP_T_STRUCT || f->type == IOP_T_UNION) fix_st(v->st);
            }
        }
    }
}

/* {{{ the tree of libxml2 against the model */

static xmlNodePtr next_el(pt_t *t, xmlNodePtr n)
{
    for (; n; n = n->next) {
        if (n->type == XML_ELEMENT_NODE) return n;
        if (n->type == XML_TEXT_NODE) PT_FAIL(t, "text between elements: %s", (char *)n->content);
    }
    return NULL;
}

static const char *enum_name(const iop_enum_t *e, int v)
{
    for (int i = 0; i < e->enum_len; i++) if (e->values[i] == v) return e->names[i].s;
    return NULL;
}

static void b64(bb_t *b, const uint8_t *s, int len)
{
    const char *a = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";

    for (int i = 0; i < len; i += 3) {
        int n = MIN(len - i, 3);
        uint32_t v = s[i] << 16 | (n > 1 ? s[i + 1] << 8 : 0) | (n > 2 ? s[i + 2] : 0);
        for (int j = 0; j < 4; j++)
            bb_c(b, j > n ? '=' : a[(v >> (18 - 6 * j)) & 63]);
    }
}

static void x_check_st(pt_t *t, xmlNodePtr first, const mst_t *m, unsigned flags);

static void x_check_val(pt_t *t, xmlNodePtr n, const iop_field_t *f, const mval_t *v, unsigned flags)
{
    char *txt = NULL, exp[64];
    xmlChar *type = xmlGetNsProp(n, (xmlChar *)"type", (xmlChar *)XSI);
    static const char *const types[] = {
        [IOP_T_I8] = "xsd:byte", [IOP_T_U8] = "xsd:unsignedByte", [IOP_T_I16] = "xsd:short",
        [IOP_T_U16] = "xsd:unsignedShort", [IOP_T_I32] = "xsd:int", [IOP_T_U32] = "xsd:unsignedInt",
        [IOP_T_I64] = "xsd:long", [IOP_T_U64] = "xsd:unsignedLong", [IOP_T_ENUM] = "xsd:int",
        [IOP_T_BOOL] = "xsd:boolean", [IOP_T_DOUBLE] = "xsd:double", [IOP_T_STRING] = "xsd:string",
        [IOP_T_DATA] = "xsd:base64Binary",
    };

    if (field_is_class(f)) {
        char want[200];
        (snprintf)(want, sizeof(want), "n:%s", v->st->desc->fullname.s);
        PT_CHECK(t, type && !strcmp((char *)type, want), "%s: wrong class attribute %s, expected %s",
                 f->name.s, (char *)type, want);
    } else if (f->type <= IOP_T_XML && f->type != IOP_T_XML && f->type != IOP_T_UNION
               && f->type != IOP_T_STRUCT && f->type != IOP_T_VOID) {
        bool want = (flags & IOP_XPACK_VERBOSE)
                 && !(f->type == IOP_T_ENUM && (flags & IOP_XPACK_LITERAL_ENUMS));
        PT_CHECK(t, want == !!type, "%s: type attribute %s", f->name.s, type ? "present" : "absent");
        if (type) PT_CHECK(t, !strcmp((char *)type, types[f->type]), "%s: type attribute %s", f->name.s, (char *)type);
    }
    xmlFree(type);
    switch (f->type) {
      case IOP_T_STRUCT: case IOP_T_UNION:
        x_check_st(t, n->children, v->st, flags);
        return;
      case IOP_T_VOID:
        PT_CHECK(t, !n->children, "void element with a content");
        return;
      case IOP_T_XML: {
        xmlBufferPtr b = xmlBufferCreate();
        for (xmlNodePtr c = n->children; c; c = c->next) xmlNodeDump(b, n->doc, c, 0, 0);
        PT_CHECK(t, (int)xmlBufferLength(b) == v->len && !memcmp(xmlBufferContent(b), v->s, v->len),
                 "%s: xml content is %s", f->name.s, (char *)xmlBufferContent(b));
        xmlBufferFree(b);
        return;
      }
      default: break;
    }
    for (xmlNodePtr c = n->children; c; c = c->next) {
        PT_CHECK(t, c->type == XML_TEXT_NODE, "%s: child of type %d", f->name.s, c->type);
    }
    txt = (char *)xmlNodeGetContent(n);
    switch (f->type) {
      case IOP_T_STRING:
        PT_CHECK(t, (int)strlen(txt) == v->len && !memcmp(txt, v->s, v->len), "%s: string is %s", f->name.s, txt);
        break;
      case IOP_T_DATA: {
        bb_t b = { 0 };
        b64(&b, v->s, v->len);
        PT_CHECK(t, strlen(txt) == b.len && !memcmp(txt, b.p, b.len), "%s: data is %s", f->name.s, txt);
      } break;
      case IOP_T_DOUBLE:
        if (isnan(v->d)) break;
        if (isinf(v->d)) PT_CHECK(t, !strcmp(txt, v->d < 0 ? "-INF" : "INF"), "%s: %s", f->name.s, txt);
        else PT_CHECK(t, (strtod)(txt, NULL) == v->d, "%s: double is %s, expected %.17g", f->name.s, txt, v->d);
        break;
      case IOP_T_ENUM:
        if ((flags & IOP_XPACK_LITERAL_ENUMS) && enum_name(f->u1.en_desc, v->i)) {
            PT_CHECK(t, !strcmp(txt, enum_name(f->u1.en_desc, v->i)), "%s: enum is %s", f->name.s, txt);
            break;
        }
        /* FALLTHROUGH */
      default:
        if (f->type == IOP_T_U64) (snprintf)(exp, sizeof(exp), "%llu", (long long)v->u);
        else (snprintf)(exp, sizeof(exp), "%lld", (long long)v->i);
        PT_CHECK(t, !strcmp(txt, exp), "%s: %s, expected %s", f->name.s, txt, exp);
        break;
    }
    xmlFree(txt);
}

static void x_check_st(pt_t *t, xmlNodePtr n, const mst_t *m, unsigned flags)
{
    const iop_struct_t *lv[16];
    int nl = st_levels(m->desc, lv), base[17], k = 0;

    n = next_el(t, n);
    for (int l = 0; l < nl; l++) { base[l] = k; k += lv[l]->fields_len; }
    for (int l = nl; l-- > 0; ) {       /* master first */
        for (int i = 0; i < lv[l]->fields_len; i++) {
            const iop_field_t *f = &lv[l]->fields[i];
            const mfld_t *o = &m->f[base[l] + i];

            if (m->desc->is_union && i != m->sel) continue;
            if (!m->desc->is_union && f->type == IOP_T_VOID && f->repeat == IOP_R_REQUIRED) continue;
            if ((flags & IOP_XPACK_SKIP_PRIVATE) && field_is_private(lv[l], f)) continue;
            for (int j = 0; j < o->n; j++) {
                PT_CHECK(t, n, "missing element %s", f->name.s);
                PT_CHECK(t, !strcmp((char *)n->name, f->name.s), "element %s, expected %s", (char *)n->name, f->name.s);
                x_check_val(t, n, f, &o->v[j], flags);
                n = next_el(t, n->next);
            }
        }
    }
    PT_CHECK(t, !n, "unexpected element %s", (char *)n->name);
}

/* }}} */

static int xunpack(const iop_struct_t *d, void **out, const void *p, size_t len, unsigned flags,
                   qm_t(part) *parts, char *err, int errsz)
{
    uint8_t *in = malloc(len + !len);
    xml_reader_t xr = NULL;
    int r;

    memcpy(in, p, len);
    *out = NULL;
    err[0] = 0;
    if ((r = xmlr_setup(&xr, in, len)) < 0) {
        (snprintf)(err, errsz, "not loaded");
    } else {
        if (st_is_class(d)) {
            r = parts ? iop_xunpack_ptr_parts(xr, t_pool(), d, out, flags, parts)
                      : iop_xunpack_ptr_flags(xr, t_pool(), d, out, flags);
        } else {
            *out = mp_imalloc(t_pool(), d->size, 8, MEM_RAW);
            memset(*out, 0xa5, d->size);
            r = parts ? iop_xunpack_parts(xr, t_pool(), d, *out, flags, parts)
                      : iop_xunpack_flags(xr, t_pool(), d, *out, flags);
        }
        if (r < 0) (snprintf)(err, errsz, "%s", xmlr_get_err() ?: "(no message)");
        else if (xmlTextReaderRead(xr) != 0 || xmlTextReaderReadState(xr) != XML_TEXTREADER_MODE_EOF) {
            /* the rest of the document is for the caller: it is malformed if
             * the reader fails now */
            r = 1;
        }
    }
    if (xr) xmlFreeTextReader(xr);
    xmlr_clear_err();
    memset(in, 0xdd, len);
    free(in);
    return r;
}

static void run_pack(pt_t *t)
{
    t_scope;
    mgen_t g = mkgen(t);
    const iop_struct_t *d;
    unsigned flags = pt_u(t, 7);
    mst_t *m;
    void *c, *out;
    SB_8k(sb);
    char err[512];
    xmlDocPtr doc;
    int hdr;

    ar_reset();
    d = pt_p(t, 1, 6) ? &vt__cons_str__s : vt_types[pt_u(t, vt_types_len - 1)];
    m = mgen(&g, d);
    fix_st(m);
    m_note(t, "value", m);
    pt_note(t, "flags %x", flags);
    if (m_count(m) >= 5) pt_nontrivial(t);
    c = m_to_c(m);
    sb_adds(&sb, root_open);
    if (st_is_class(d)) sb_addf(&sb, " xsi:type=\"n:%s\"", m->desc->fullname.s);
    sb_adds(&sb, ">");
    hdr = sb.len;
    iop_xpack_flags(&sb, d, c, flags);
    PT_CHECK(t, sb.len >= hdr && !memcmp(sb.data, root_open, strlen(root_open)), "the buffer was overwritten");
    sb_adds(&sb, "</root>");
    if (pt_verbose(t)) pt_note(t, "xml %.*s", MIN(sb.len, 1500), sb.data);
    doc = xmlReadMemory(sb.data, sb.len, NULL, NULL, XML_PARSE_NONET | XML_PARSE_NOCDATA | XML_PARSE_NOERROR | XML_PARSE_NOWARNING);
    PT_CHECK(t, doc, "not well-formed XML");
    x_check_st(t, xmlDocGetRootElement(doc)->children, m, flags);
    xmlFreeDoc(doc);
    if (flags & IOP_XPACK_SKIP_PRIVATE) return;
    if (xunpack(d, &out, sb.data, sb.len, pt_bool(t) ? IOP_UNPACK_IGNORE_UNKNOWN : 0, NULL, err, sizeof(err)) != 0)
        PT_FAIL(t, "cannot unpack what was packed: %s", err);
    m_check_c(t, m, out, "value unpacked from its XML");
}

/* {{{ documents written by the harness */

enum { F_NONE, F_MISSING, F_UNKNOWN, F_DUP, F_RANGE, F_JUNK, F_CLASS, F_B64, F_ORDER, F_UNION, F_TEXT, F_MAX };
static const char *fault_names[] = { "none", "missing mandatory element", "unknown element", "duplicated element",
    "integer out of range", "value of another type", "wrong class", "invalid base64", "elements in the wrong order",
    "two members in a union", "no member in a union" };

typedef struct xw_t {
    pt_t *t;
    bb_t b;
    bool fancy, unk;
    unsigned feats;
    int fault;
    bool hit;
    qm_t(part) *parts;
    int nparts;
} xw_t;
#define FEAT(w, n)  ((w)->feats |= 1u << (n))
#define FAULT(w, k)  ((w)->fault == (k) && !(w)->hit && pt_p((w)->t, 1, 3) && ((w)->hit = true))

static void w_ws(xw_t *w)
{
    if (!w->fancy) return;
    switch (pt_u(w->t, 9)) {
      case 0: bb_s(&w->b, " "); break;
      case 1: bb_s(&w->b, "\n\t"); break;
      case 2: bb_s(&w->b, "<!-- c <x> -->"); FEAT(w, 0); break;
      case 3: bb_s(&w->b, " <?pi some data?>\r\n"); FEAT(w, 0); break;
      default: break;
    }
}

static void w_uc(xw_t *w, bool hex, uint32_t c) { bb_f(&w->b, hex ? "&#x%x;" : "&#%u;", c); }

static void w_text(xw_t *w, const uint8_t *s, int len)
{
    bool cdata = false, blanks = false;

    /* a piece of text made of blanks only is dropped by the reader's options:
     * no section starts in a text that has blanks */
    for (int i = 0; i < len; i++) blanks |= s[i] <= ' ';
    for (int i = 0; i < len; ) {
        uint32_t c = s[i];
        int n = c < 0x80 ? 1 : c < 0xe0 ? 2 : c < 0xf0 ? 3 : 4;
        int k;

        if (n == 2) c = (c & 31) << 6 | (s[i + 1] & 63);
        else if (n == 3) c = (c & 15) << 12 | (s[i + 1] & 63) << 6 | (s[i + 2] & 63);
        else if (n == 4) c = (c & 7) << 18 | (s[i + 1] & 63) << 12 | (s[i + 2] & 63) << 6 | (s[i + 3] & 63);
        k = w->fancy ? pt_u(w->t, 11) : 0;
        if (cdata) {
            if (k == 1 || c == ']' || c == '>') { bb_s(&w->b, "]]>"); cdata = false; }
            else { bb_add(&w->b, s + i, n); i += n; continue; }
        }
        if (k == 2) { w_uc(w, true, c); FEAT(w, 1); }
        else if (k == 3) { w_uc(w, false, c); FEAT(w, 1); }
        else if (k == 4 && !blanks && c != ']' && c != '>') { bb_s(&w->b, "<![CDATA["); cdata = true; FEAT(w, 2); continue; }
        else if (c == '<') bb_s(&w->b, "&lt;");
        else if (c == '&') bb_s(&w->b, "&amp;");
        else if (c == '>') bb_s(&w->b, "&gt;");
        else if (c == '"' && k & 1) bb_s(&w->b, "&quot;");
        else if (c == '\'' && k & 1) bb_s(&w->b, "&apos;");
        else bb_add(&w->b, s + i, n);
        i += n;
    }
    if (cdata) bb_s(&w->b, "]]>");
}

static void w_st(xw_t *w, const mst_t *m);

static void w_int(xw_t *w, const iop_field_t *f, const mval_t *v)
{
    bool sgn = f->type != IOP_T_U64 && f->type != IOP_T_U8 && f->type != IOP_T_U16 && f->type != IOP_T_U32;
    bool neg = sgn && v->i < 0;
    unsigned long long a = neg ? -(unsigned long long)v->i : (unsigned long long)v->u;

    if (FAULT(w, F_RANGE)) {
        static const char *const out[][4] = {
            [IOP_T_I8] = { "128", "-129", "256", "9223372036854775808" },
            [IOP_T_U8] = { "256", "-1", "4294967296", "18446744073709551616" },
            [IOP_T_I16] = { "32768", "-32769", "65536", "9223372036854775807" },
            [IOP_T_U16] = { "65536", "-1", "4294967296", "18446744073709551615" },
            [IOP_T_I32] = { "2147483648", "-2147483649", "4294967296", "-9223372036854775809" },
            [IOP_T_ENUM] = { "2147483648", "-2147483649", "4294967296", "-9223372036854775809" },
            [IOP_T_U32] = { "4294967296", "-1", "18446744073709551616", "-4294967295" },
            [IOP_T_I64] = { "9223372036854775808", "-9223372036854775809", "18446744073709551615", "99999999999999999999" },
            [IOP_T_U64] = { "18446744073709551616", "-1", "99999999999999999999", "-18446744073709551615" },
        };
        bb_s(&w->b, out[f->type][pt_u(w->t, 3)]);
        return;
    }
    if (w->fancy && pt_p(w->t, 1, 6)) bb_s(&w->b, pt_bool(w->t) ? " " : "\n\t ");
    switch (w->fancy ? pt_u(w->t, 5) : 0) {
      case 1: FEAT(w, 3); bb_f(&w->b, "%s0x%llx", neg ? "-" : "", a); break;
      case 2: FEAT(w, 3); bb_f(&w->b, "%s0%llo", neg ? "-" : "", a); break;
      case 3: FEAT(w, 3); bb_f(&w->b, "%s%llu", neg ? "-" : "+", a); break;
      default: bb_f(&w->b, "%s%llu", neg ? "-" : "", a); break;
    }
    if (w->fancy && pt_p(w->t, 1, 6)) bb_s(&w->b, " \n");
}

static void w_el(xw_t *w, const iop_field_t *f, const mval_t *v)
{
    pt_t *t = w->t;
    const char *pfx = "", *name = f->name.s;
    bool part = false;
    char cid[32];

    if (w->fancy && pt_p(t, 1, 6)) { pfx = "n:"; FEAT(w, 4); }
    bb_f(&w->b, "<%s%s", pfx, name);
    if (field_is_class(f)) {
        if (FAULT(w, F_CLASS)) {
            static const char *const bad[] = { "n:vt.Nope", "n:vt.Small", "n:", "n:vt.ConsKid", "n:vt.KidAbs" };
            bb_f(&w->b, " xsi:type=\"%s\"", pt_pick(t, bad));
        } else if (v->st->desc != f->u1.st_desc || pt_bool(t)) {
            bb_f(&w->b, " xsi:type=\"%s%s\"", pt_bool(t) ? "n:" : "zz:", v->st->desc->fullname.s);
        }
    } else if (w->fancy && pt_p(t, 1, 6)) {
        bb_s(&w->b, pt_bool(t) ? " xsi:type=\"xsd:any\"" : " foo=\"b&lt;r\" n:x='1'");
        FEAT(w, 5);
    }
    if (w->parts && v->len && f->type == IOP_T_DATA && pt_p(t, 1, 3)) {
        /* binary parts, referred to by their id */
        lstr_t *k;
        part = true;
        FEAT(w, 6);
        (snprintf)(cid, sizeof(cid), "p%d@x", w->nparts++);
        k = ar_alloc(sizeof(*k));
        *k = LSTR_INIT_V(ar_dup(cid, strlen(cid) + 1), strlen(cid));
        qm_add(part, w->parts, k, LSTR_INIT_V((char *)v->s, v->len));
        if (pt_bool(t)) {
            bb_f(&w->b, " href=\"cid:%s\"/>", cid);
            return;
        }
        bb_f(&w->b, "><n:Include href=\"cid:%s\"/></%s%s>", cid, pfx, name);
        return;
    }
    if (w->fancy && (f->type == IOP_T_STRING || f->type == IOP_T_DATA || f->type == IOP_T_VOID
                     || f->type == IOP_T_XML) && !v->len && pt_bool(t)) {
        if (f->type != IOP_T_XML) {
            bb_s(&w->b, "/>");
            FEAT(w, 7);
            return;
        }
    }
    bb_c(&w->b, '>');
    switch (f->type) {
      case IOP_T_I8: case IOP_T_I16: case IOP_T_I32: case IOP_T_I64:
      case IOP_T_U8: case IOP_T_U16: case IOP_T_U32: case IOP_T_U64:
        if (FAULT(w, F_JUNK)) { static const char *const j[] = { "", "x", "1x", "1.5", "0x", "1 2", "<a>1</a>", "--1", "1<b/>" }; bb_s(&w->b, pt_pick(t, j)); }
        else w_int(w, f, v);
        break;
      case IOP_T_ENUM: {
        const char *en = enum_name(f->u1.en_desc, v->i);
        if (FAULT(w, F_JUNK)) { static const char *const j[] = { "", "NOPE", "A B", "AA" }; bb_s(&w->b, pt_pick(t, j)); }
        else if (en && pt_bool(t) && w->fault != F_RANGE) bb_s(&w->b, en);
        else w_int(w, f, v);
      } break;
      case IOP_T_BOOL:
        if (FAULT(w, F_JUNK)) { static const char *const j[] = { "", "2", "tru", "truee", "10", "yes", "0 1" }; bb_s(&w->b, pt_pick(t, j)); }
        else { static const char *const b[2][3] = { { "0", "false", " false " }, { "1", "true", "\n1" } };
            bb_s(&w->b, b[v->u != 0][w->fancy ? pt_u(t, 2) : 0]); }
        break;
      case IOP_T_DOUBLE:
        if (FAULT(w, F_JUNK)) { static const char *const j[] = { "", "e", "1.5x", "1 2", ".", "1e" }; bb_s(&w->b, pt_pick(t, j)); }
        else if (isinf(v->d)) bb_s(&w->b, v->d < 0 ? "-INF" : "INF");
        else if (isnan(v->d)) bb_s(&w->b, "NaN");
        else bb_f(&w->b, w->fancy && pt_bool(t) ? " %.17e " : "%.17g", v->d);
        break;
      case IOP_T_STRING:
        w_text(w, v->s, v->len);
        break;
      case IOP_T_XML:
        bb_add(&w->b, v->s, v->len);
        break;
      case IOP_T_DATA:
        if (FAULT(w, F_B64)) { static const char *const j[] = { "A", "A===", "QUI=QUI", "QU*I", "QU=I" }; bb_s(&w->b, pt_pick(t, j)); }
        else b64(&w->b, v->s, v->len);
        break;
      case IOP_T_VOID: break;
      default:
        w_st(w, v->st);
        break;
    }
    bb_f(&w->b, "</%s%s>", pfx, name);
}

static void w_junk(xw_t *w)
{
    static const char *const j[] = { "<zz/>", "<zz>text</zz>", "<zz><i>3</i><zy a='1'/></zz>", "<zz a=\"b\"></zz>",
        "<zz>a<b>c</b>d</zz><zz/>", "<n:zz><zz><zz/></zz></n:zz>" };
    FEAT(w, 8);
    bb_s(&w->b, pt_pick(w->t, j));
}

static void w_st(xw_t *w, const mst_t *m)
{
    pt_t *t = w->t;
    const iop_struct_t *lv[16];
    int nl = st_levels(m->desc, lv), base[17], k = 0;
    size_t prev_at = 0, prev_end = 0;
    const iop_field_t *prev = NULL;

    w_ws(w);
    if (m->desc->is_union) {
        const iop_field_t *f = &m->desc->fields[m->sel];
        if (FAULT(w, F_TEXT)) return;
        w_el(w, f, &m->f[m->sel].v[0]);
        w_ws(w);
        if (f->type != IOP_T_VOID && FAULT(w, F_UNION)) w_el(w, f, &m->f[m->sel].v[0]);
        return;
    }
    for (int l = 0; l < nl; l++) { base[l] = k; k += lv[l]->fields_len; }
    for (int l = nl; l-- > 0; ) {       /* master first */
        for (int i = 0; i < lv[l]->fields_len; i++) {
            const iop_field_t *f = &lv[l]->fields[i];
            const mfld_t *o = &m->f[base[l] + i];

            if (f->type == IOP_T_VOID && f->repeat == IOP_R_REQUIRED) continue;
            if (!o->n) continue;
            if (f->repeat == IOP_R_DEFVAL && w->fancy && field_is_defval(f, &o->v[0]) && pt_bool(t)) {
                FEAT(w, 9);
                continue;
            }
            if (w->unk && pt_p(t, 1, 6)) w_junk(w);
            if (FAULT(w, F_UNKNOWN)) bb_s(&w->b, pt_bool(t) ? "<nope/>" : "<nope>1</nope>");
            if (f->repeat == IOP_R_REQUIRED && f->type != IOP_T_STRUCT && FAULT(w, F_MISSING)) continue;
            {
                size_t at = w->b.len;
                for (int j = 0; j < o->n; j++) {
                    w_el(w, f, &o->v[j]);
                    w_ws(w);
                }
                if (f->repeat != IOP_R_REPEATED && f->type != IOP_T_VOID && FAULT(w, F_DUP)) w_el(w, f, &o->v[0]);
                if (prev && FAULT(w, F_ORDER)) {
                    /* swaps this field and the previous one */
                    size_t n1 = prev_end - prev_at, n2 = w->b.len - at;
                    uint8_t *tmp = ar_dup(w->b.p + prev_at, w->b.len - prev_at);
                    memcpy(w->b.p + prev_at, tmp + (at - prev_at), n2);
                    memcpy(w->b.p + prev_at + n2, tmp + n1, at - prev_end);
                    memcpy(w->b.p + prev_at + n2 + (at - prev_end), tmp, n1);
                }
                prev = f; prev_at = at; prev_end = w->b.len;
            }
        }
    }
    if (w->unk && pt_p(t, 1, 6)) w_junk(w);
}

static void w_doc(xw_t *w, const iop_struct_t *d, const mst_t *m)
{
    if (w->fancy && pt_p(w->t, 1, 4)) {
        bb_s(&w->b, "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n");
        if (pt_bool(w->t)) bb_s(&w->b, "<!-- intro -->");
    }
    bb_s(&w->b, root_open);
    if (st_is_class(d)) bb_f(&w->b, " xsi:type=\"n:%s\"", m->desc->fullname.s);
    bb_c(&w->b, '>');
    w_st(w, m);
    bb_s(&w->b, "</root>");
}

static const char *feat_names[] = { "comment", "character reference", "CDATA", "integer notation", "prefix",
    "attribute", "part", "empty element", "unknown element", "omitted default" };

static void run_syntax(pt_t *t)
{
    t_scope;
    mgen_t g = mkgen(t);
    xw_t w = { .t = t, .fancy = true };
    qm_t(part) parts;
    const iop_struct_t *d;
    mst_t *m;
    void *out;
    char err[512];
    int r;

    ar_reset();
    t_qm_init(part, &parts, 16);
    w.unk = pt_p(t, 1, 3);
    if (pt_p(t, 1, 3)) w.parts = &parts;
    d = vt_types[pt_u(t, vt_types_len - 1)];
    m = mgen(&g, d);
    fix_st(m);
    m_note(t, "value", m);
    w_doc(&w, d, m);
    if (pt_verbose(t)) pt_note(t, "xml %.*s", (int)MIN(w.b.len, (size_t)2000), w.b.p);
    for (int i = 0; i < countof(feat_names); i++) if (w.feats & (1u << i)) pt_label(t, feat_names[i]);
    if (w.feats) pt_nontrivial(t);
    r = xunpack(d, &out, w.b.p, w.b.len, w.unk ? IOP_UNPACK_IGNORE_UNKNOWN : 0, w.parts, err, sizeof(err));
    PT_CHECK(t, r == 0, "legal document refused: %s", err);
    m_check_c(t, m, out, "value unpacked from XML");
    qm_wipe(part, &parts);
}

static void run_refuse(pt_t *t)
{
    t_scope;
    mgen_t g = mkgen(t);
    xw_t w = { .t = t };
    const iop_struct_t *d;
    mst_t *m;
    void *out;
    char err[512];

    ar_reset();
    w.fault = pt_range(t, 1, F_MAX - 1);
    w.fancy = pt_bool(t);
    d = vt_types[pt_u(t, vt_types_len - 1)];
    m = mgen(&g, d);
    fix_st(m);
    w_doc(&w, d, m);
    if (!w.hit) return;
    pt_nontrivial(t);
    pt_label(t, fault_names[w.fault]);
    if (pt_verbose(t)) pt_note(t, "%s: %.*s", fault_names[w.fault], (int)MIN(w.b.len, (size_t)2000), w.b.p);
    PT_CHECK(t, xunpack(d, &out, w.b.p, w.b.len, 0, NULL, err, sizeof(err)) < 0, "%s accepted", fault_names[w.fault]);
}

/* FORBID_PRIVATE refuses a document iff it carries a private field */
static bool has_priv(const mst_t *m, bool omit_def)
{
    const iop_struct_t *lv[16];
    int nl = st_levels(m->desc, lv), k = 0;

    for (int l = 0; l < nl; l++) {
        for (int i = 0; i < lv[l]->fields_len; i++, k++) {
            const iop_field_t *f = &lv[l]->fields[i];
            for (int j = 0; j < m->f[k].n; j++) {
                if (field_is_private(lv[l], f)) return true;
                if ((f->type == IOP_T_STRUCT || f->type == IOP_T_UNION) && has_priv(m->f[k].v[j].st, omit_def)) return true;
            }
        }
    }
    return false;
}

static void run_private(pt_t *t)
{
    t_scope;
    mgen_t g = mkgen(t);
    const iop_struct_t *d = pt_bool(t) ? &vt__priv__s : pt_bool(t) ? &vt__def__s : &vt__all__s;
    mst_t *m;
    void *c, *out;
    SB_8k(sb);
    SB_8k(sb2);
    char err[512];
    bool skip = pt_bool(t), hp;
    int r;

    ar_reset();
    m = mgen(&g, d);
    fix_st(m);
    m_note(t, "value", m);
    c = m_to_c(m);
    sb_adds(&sb, root_open); sb_adds(&sb, ">");
    iop_xpack_flags(&sb, d, c, skip ? IOP_XPACK_SKIP_PRIVATE : 0);
    sb_adds(&sb, "</root>");
    pt_nontrivial(t);
    if (pt_verbose(t)) pt_note(t, "xml %.*s", MIN(sb.len, 1500), sb.data);
    r = xunpack(d, &out, sb.data, sb.len, IOP_UNPACK_FORBID_PRIVATE, NULL, err, sizeof(err));
    hp = !skip && has_priv(m, false);
    pt_label(t, hp ? "has private" : "no private");
    if (hp) PT_CHECK(t, r < 0, "private fields accepted with IOP_UNPACK_FORBID_PRIVATE");
    else PT_CHECK(t, r == 0, "document without private fields refused: %s", err);
}

/* }}} */
/* {{{ hostile */

static bool has_nan(const mst_t *m)
{
    const iop_struct_t *lv[16];
    int nl = st_levels(m->desc, lv), k = 0;

    for (int l = 0; l < nl; l++) {
        for (int i = 0; i < lv[l]->fields_len; i++, k++) {
            const iop_field_t *f = &lv[l]->fields[i];
            for (int j = 0; j < m->f[k].n; j++) {
                if (f->type == IOP_T_XML) return true;  /* re-serialised by libxml2 */
                if (f->type == IOP_T_DOUBLE && isnan(m->f[k].v[j].d)) return true;
                if ((f->type == IOP_T_STRUCT || f->type == IOP_T_UNION) && has_nan(m->f[k].v[j].st)) return true;
            }
        }
    }
    return false;
}

static const char *const toks[] = { "<", ">", "/>", "</", "&", "&amp;", "&#0;", "&#65;", "&lt;", "<!--", "-->", "<?x", "?>",
    "<![CDATA[", "]]>", "<!DOCTYPE a [<!ENTITY e \"x\">]>", "&e;", "<i>", "</i>", "<i>3</i>", "<s>", "</s>", "<v/>", "<v>", "</v>",
    "<un>", "</un>", "</root>", "<root>", "<zz/>", "<n:i>", " xsi:type=\"n:vt.KidA\"", " href=\"cid:x\"", "\"", "'", "=", "\n", "  ", "0",
    "-1", "99999999999999999999", "INF", "true", "QUI=", "\xc3\xa9", "\xff", "<st>", "</st>", "<kids>", "</kids>", "<a/>", "text",
    "<!-- c -->", "<?pi x?>", "<b>1</b>", "<![CDATA[x]]>", "&undefined;", "xmlns=\"u\"" };

static void run_mutate(pt_t *t)
{
    t_scope;
    mgen_t g = mkgen(t);
    xw_t w = { .t = t };
    const iop_struct_t *d;
    mst_t *m;
    void *out, *out2;
    char err[512];
    int n = 1 + pt_u(t, 3), r;
    size_t nb;
    const char *e;
    SB_8k(sb);
    unsigned flags = (pt_bool(t) ? IOP_UNPACK_IGNORE_UNKNOWN : 0) | (pt_p(t, 1, 4) ? IOP_UNPACK_FORBID_PRIVATE : 0);

    ar_reset();
    g.big = 0;
    g.budget = 1 + pt_u(t, 15);
    w.fancy = pt_bool(t);
    w.unk = pt_p(t, 1, 4);
    d = vt_types[pt_u(t, vt_types_len - 1)];
    m = mgen(&g, d);
    w_doc(&w, d, m);
    while (n--) {
        bb_t *b = &w.b;
        size_t pos = pt_u(t, b->len - 1), k;

        switch (pt_u(t, 7)) {
          case 0: b->p[pos] ^= 1 << pt_u(t, 7); break;
          case 1: if (pos) b->len = pos; break;
          case 2: case 3: case 4: {
            const char *s = pt_pick(t, toks);
            k = strlen(s);
            /* mostly next to a tag */
            if (pt_bool(t)) while (pos && b->p[pos] != '<') pos--;
            bb_add(b, s, k);
            memmove(b->p + pos + k, b->p + pos, b->len - k - pos);
            memcpy(b->p + pos, s, k);
          } break;
          case 5: case 6: {
            /* remove up to the next tag */
            size_t end = pos + 1;
            while (pos && b->p[pos] != '<') pos--;
            while (end < b->len && b->p[end] != '<') end++;
            memmove(b->p + pos, b->p + end, b->len - end);
            b->len -= end - pos;
            if (!b->len) bb_c(b, 'x');
          } break;
          default: b->p[pos] = pt_bits(t, 8); break;
        }
    }
    pt_nontrivial(t);
    if (pt_verbose(t)) {
        pt_note(t, "type %s flags %x", d->fullname.s, flags);
        pt_note_hex(t, "text", w.b.p, w.b.len);
    }
    r = xunpack(d, &out, w.b.p, w.b.len, flags, NULL, err, sizeof(err));
    if (r < 0) { pt_label(t, "refused"); return; }
    pt_label(t, "accepted");
    if ((e = c_walk(d, out, &nb))) PT_FAIL(t, "accepted value is malformed: %s", e);
    m_read_c(d, out, &m);
    if (has_nan(m)) return;
    sb_adds(&sb, root_open);
    if (st_is_class(d)) sb_addf(&sb, " xsi:type=\"n:%s\"", m->desc->fullname.s);
    sb_adds(&sb, ">");
    iop_xpack_flags(&sb, d, out, 0);
    sb_adds(&sb, "</root>");
    if (xunpack(d, &out2, sb.data, sb.len, 0, NULL, err, sizeof(err)) != 0) {
        PT_FAIL(t, "accepted value does not survive a round trip: %s\n%s", err, sb.data);
    }
    fix_st(m);  /* no-op for the values the reader can yield */
    m_check_c(t, m, out2, "accepted value, packed and unpacked");
}

/* }}} */

void pt_setup(void)
{
    vt_setup();
    xmlInitParser();
}

const pt_target_t pt_targets[] = {
    { "pack", run_pack, 200000, 3000000, 10 },
    { "syntax", run_syntax, 200000, 3000000, 10 },
    { "refuse", run_refuse, 200000, 2000000, 0 },
    { "private", run_private, 20000, 200000, 0 },
    { "mutate", run_mutate, 300000, 4000000, 30 },
};
const int pt_targets_len = countof(pt_targets);
