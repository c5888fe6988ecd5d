/* C07: constraints of IOP types */
#include "iopm.h"
#include <lib-common/iop-json.h>
#include <lib-common/iop-yaml.h>
#include <lib-common/xmlr.h>
#include "viop/vt.iop.h"
#include <math.h>

const char pt_rule[] =
    "values of constrained types, with at most one violation (just out of a "
    "bound, forbidden selection, length or number of values, unknown value of "
    "a strict enum, abstract class), checked in memory and after a trip "
    "through each encoding; non-trivial: a violation, or at least 8 values";

#define U(n) pt_u(t, (n) - 1)
#define P(n) pt_p(t, (n), 100)

void pt_setup(void)
{
    e_set_verbosity(-1);
    vt_setup();
}

static void child_init(void)
{
    MODULE_REQUIRE(iop_yaml);
}

static const iop_struct_t *pick(pt_t *t)
{
    return vt_cons_types[U(vt_cons_types_len)];
}

static mst_t *gen(pt_t *t, mgen_t *g, bool text)
{
    const iop_struct_t *d = pick(t);
    mst_t *m;

    *g = (mgen_t){ .t = t, .budget = 1 + U(60), .viol = P(75) ? 2 + (int)U(12) : 0 };
    if (text) {
        g->utf8 = g->xmlchars = g->finite = g->simple_xml = true;
    }
    m = mgen(g, d);
    m_note(t, "value", m);
    if (g->violated) {
        pt_note(t, "violation: %s", g->vwhere);
        pt_label(t, "violated");
    }
    if (g->violated || m_count(m) >= 8) pt_nontrivial(t);
    return m;
}

/* the declared type: the root of the hierarchy for objects */
static const iop_struct_t *root_of(const iop_struct_t *d)
{
    if (st_is_class(d)) {
        while (d->class_attrs->parent) d = d->class_attrs->parent;
    }
    return d;
}

static void check_err(pt_t *t, const mgen_t *g)
{
    const char *e = iop_get_err();
    char ty[64], fl[64];

    PT_CHECK(t, e && *e, "no message for a violation");
    if (sscanf(g->vwhere, "%60[^.].%60[A-Za-z0-9_.]", ty, fl) == 2) {
        /* vt.Type.field */
        const char *f = strrchr(fl, '.');
        char full[140];

        if (!f) return;
        (snprintf)(full, sizeof(full), "%s.%.*s", ty, (int)(f - fl), fl);
        PT_CHECK(t, strstr(e, f + 1), "message does not tell the field: %s", e);
        PT_CHECK(t, strstr(e, full), "message does not tell the type: %s", e);
    }
}

static void run_mem(pt_t *t)
{
    t_scope;
    mgen_t g;
    mst_t *m;
    void *c;
    const iop_struct_t *d;
    int r;

    ar_reset();
    m = gen(t, &g, false);
    c = m_to_c(m);
    d = root_of(m->desc);
    iop_clear_err();
    r = iop_check_constraints_desc(d, c);
    PT_CHECK(t, (r < 0) == g.violated, "iop_check_constraints returned %d (%s)", r,
             iop_get_err() ?: "no error");
    if (r < 0) check_err(t, &g);
    m_check_c(t, m, c, "checked value");

    /* field by field, at the top level */
    {
        const iop_struct_t *lv[16];
        int nl = st_levels(m->desc, lv), k = 0;
        bool bad = false;

        for (int l = 0; l < nl; l++) {
            for (int i = 0; i < lv[l]->fields_len; i++, k++) {
                const iop_field_t *f = &lv[l]->fields[i];
                const void *vals;
                int n;
                bool ptrs;

                if (m->desc->is_union && i != m->sel) continue;
                if (f->repeat == IOP_R_DEFVAL && field_is_defval(f, m->f[k].v)) continue;
                if (f->type == IOP_T_VOID) continue;
                iop_get_field_values_const(f, c, &vals, &n, &ptrs);
                if (!n) {
                    /* absent, or an empty array */
                    bad |= f->repeat == IOP_R_REPEATED
                        && (f->flags >> IOP_FIELD_NO_EMPTY_ARRAY & 1);
                    continue;
                }
                if ((f->repeat == IOP_R_REQUIRED || f->repeat == IOP_R_DEFVAL)
                &&  (field_is_class(f) || field_is_ref(f)))
                    vals = (const char *)c + f->data_offs;
                r = iop_field_check_constraints(lv[l], f, vals, n, true);
                bad |= r < 0;
            }
        }
        PT_CHECK(t, bad == g.violated, "field by field: %d", bad);
    }

    /* an abstract class */
    if (m->desc == &vt__cons_abs_impl__s && P(50)) {
        *(const iop_struct_t **)c = &vt__cons_abs__s;
        PT_CHECK(t, iop_check_constraints_desc(d, c) < 0, "object of an abstract class accepted");
    }
}

static int bunpack(const iop_struct_t *d, void **out, const void *p, size_t len, unsigned flags)
{
    if (st_is_class(d)) {
        *out = NULL;
        return iop_bunpack_ptr_flags(t_pool(), d, out, ps_init(p, len), flags);
    }
    *out = mp_imalloc(t_pool(), d->size, 8, MEM_RAW);
    return iop_bunpack_flags(t_pool(), d, *out, ps_init(p, len), flags);
}

static void run_bin(pt_t *t)
{
    t_scope;
    mgen_t g;
    mst_t *m;
    void *c, *out;
    const iop_struct_t *d;
    bb_t b = { 0 };
    int r;
    unsigned flags = P(50) ? IOP_BPACK_SKIP_DEFVAL : 0;

    ar_reset();
    m = gen(t, &g, false);
    c = m_to_c(m);
    d = root_of(m->desc);
    {
        qv_t(i32) szs;

        t_qv_init(&szs, 256);
        r = iop_bpack_size_flags(d, c, flags | IOP_BPACK_STRICT, &szs);
        PT_CHECK(t, (r < 0) == g.violated, "strict packing returned %d", r);
        if (r < 0) {
            lstr_t s = t_iop_bpack_struct_flags(d, c, flags | IOP_BPACK_STRICT);

            check_err(t, &g);
            PT_CHECK(t, !s.s, "strict packing of a wrong value");
        }
    }
    {
        lstr_t s = t_iop_bpack_struct_flags(d, c, flags);

        PT_CHECK(t, s.s, "cannot pack");
        r = bunpack(d, &out, s.s, s.len, 0);
        PT_CHECK(t, (r < 0) == g.violated, "unpacking returned %d (%s)", r,
                 r < 0 ? iop_get_err() ?: "no error" : "");
        if (r >= 0) m_check_c(t, m, out, "unpacked value");
    }
    {
        int feats = 0;

        m_encode_loose(t, &b, m, &feats);
        r = bunpack(d, &out, ar_dup(b.p, b.len), b.len, P(50) ? IOP_UNPACK_COPY_STRINGS : 0);
        PT_CHECK(t, (r < 0) == g.violated, "unpacking of another encoding returned %d (%s)", r,
                 r < 0 ? iop_get_err() ?: "no error" : "");
        if (r >= 0) m_check_c(t, m, out, "unpacked value (other encoding)");
    }
}

static void run_json(pt_t *t)
{
    t_scope;
    mgen_t g;
    mst_t *m;
    void *c, *out = NULL;
    const iop_struct_t *d;
    unsigned flags = 0;
    int r;
    pstream_t ps;
    SB_1k(sb);
    SB_1k(err);

    ar_reset();
    if (P(30)) flags |= IOP_JPACK_NO_WHITESPACES;
    if (P(30)) flags |= IOP_JPACK_SKIP_DEFAULT;
    if (P(30)) flags |= IOP_JPACK_SKIP_EMPTY_ARRAYS;
    m = gen(t, &g, true);
    c = m_to_c(m);
    d = root_of(m->desc);
    r = iop_sb_jpack(&sb, d, c, flags);
    PT_CHECK(t, r >= 0, "cannot pack in JSON");
    pt_note(t, "%.*s", sb.len, sb.data);
    ps = ps_initsb(&sb);
    r = t_iop_junpack_ptr_ps(&ps, d, &out, 0, &err);
    PT_CHECK(t, (r < 0) == g.violated, "JSON unpacking returned %d (%.*s)", r, err.len, err.data);
    if (r < 0) PT_CHECK(t, err.len, "no message");
}

static void run_yaml(pt_t *t)
{
    t_scope;
    mgen_t g;
    mst_t *m;
    void *c, *out = NULL;
    const iop_struct_t *d;
    int r;
    pstream_t ps;
    SB_1k(sb);
    SB_1k(err);

    ar_reset();
    m = gen(t, &g, true);
    c = m_to_c(m);
    d = root_of(m->desc);
    if (P(50)) t_iop_sb_ypack_with_flags(&sb, d, c, NULL, P(50) ? IOP_JPACK_SKIP_DEFAULT : 0);
    else t_iop_sb_ypack(&sb, d, c, NULL);
    pt_note(t, "%.*s", sb.len, sb.data);
    ps = ps_initsb(&sb);
    r = t_iop_yunpack_ptr_ps(&ps, d, &out, 0, NULL, &err);
    PT_CHECK(t, (r < 0) == g.violated, "YAML unpacking returned %d (%.*s)", r, err.len, err.data);
    if (r < 0) PT_CHECK(t, err.len, "no message");
}

/* strings of blanks are read as empty ones in XML */
static bool has_blanks(const mst_t *m)
{
    const iop_struct_t *lv[16];
    int nl = st_levels(m->desc, lv), k = 0;

    for (int l = 0; l < nl; l++) {
        for (int i = 0; i < lv[l]->fields_len; i++, k++) {
            const iop_field_t *f = &lv[l]->fields[i];

            for (int j = 0; j < m->f[k].n; j++) {
                const mval_t *v = &m->f[k].v[j];

                if (f->type == IOP_T_STRUCT || f->type == IOP_T_UNION) {
                    if (has_blanks(v->st)) return true;
                } else if (f->type == IOP_T_STRING && v->len) {
                    int n = 0;

                    while (n < v->len && strchr(" \t\r\n", v->s[n]) && v->s[n]) n++;
                    if (n == v->len) return true;
                }
            }
        }
    }
    return false;
}

static void run_xml(pt_t *t)
{
    t_scope;
    mgen_t g;
    mst_t *m;
    void *c, *out = NULL;
    const iop_struct_t *d;
    xml_reader_t xr = NULL;
    int r;
    SB_1k(sb);

    ar_reset();
    m = gen(t, &g, true);
    c = m_to_c(m);
    d = root_of(m->desc);
    if (has_blanks(m)) return;
    sb_adds(&sb, "<root xmlns:xsi=\"http://www.w3.org/2001/XMLSchema-instance\"");
    if (st_is_class(d)) sb_addf(&sb, " xsi:type=\"n:%*pM\"", LSTR_FMT_ARG(m->desc->fullname));
    sb_adds(&sb, ">");
    iop_xpack_flags(&sb, d, c, P(50) ? IOP_XPACK_LITERAL_ENUMS : 0);
    sb_adds(&sb, "</root>");
    pt_note(t, "%.*s", sb.len, sb.data);
    PT_CHECK(t, xmlr_setup(&xr, sb.data, sb.len) >= 0, "document not loaded");
    r = iop_xunpack_ptr_flags(xr, t_pool(), d, &out, 0);
    PT_CHECK(t, (r < 0) == g.violated, "XML unpacking returned %d (%s)", r,
             r < 0 ? xmlr_get_err() ?: "no error" : "");
    if (r < 0) PT_CHECK(t, xmlr_get_err(), "no message");
    xmlFreeTextReader(xr);
    xmlr_clear_err();
}

const pt_target_t pt_targets[] = {
    { "mem", run_mem, 150000, 3000000, 0, 200, child_init },
    { "bin", run_bin, 150000, 3000000, 0, 200, child_init },
    { "json", run_json, 80000, 1500000, 0, 200, child_init },
    { "yaml", run_yaml, 60000, 1000000, 0, 200, child_init },
    { "xml", run_xml, 60000, 1000000, 0, 200, child_init },
};
const int pt_targets_len = 5;
