/* YAML documents split over several files: includes, overrides, variables and
 * merge keys, and repacking of (possibly modified) data with the presentation
 * of the original document. */
#include <lib-common/core.h>
#include <lib-common/iop.h>
#include <lib-common/yaml.h>
#include <lib-common/iop-yaml.h>
#include <math.h>
#include <dirent.h>
#include <sys/stat.h>
#include "pt.h"

const char pt_rule[] =
    "YAML documents made of 1 to 5 files in two directories, with !include, "
    "!includeraw, overrides, variables (whole values and inside strings), merge "
    "keys, comments, tags, flow and block collections; the parsed data is "
    "compared with the harness's own evaluation; the data, unmodified or with "
    "random edits, is packed with the presentation of the document and parsed "
    "again; non-trivial: at least one include, variable, override or merge key "
    "took part in the document that was accepted";

#define U(n) pt_u(t, (n) - 1)
#define P(n) pt_p(t, (n), 100)

enum { SCA, SEQ, OBJ, TPL, VAR, INC, RAW };
typedef struct node_t node_t;
struct node_t {
    uint8_t kind, st, flow, merge_seq, quoted;
    const char *tag;
    /* scalar */
    uint64_t u; int64_t i; double d; bool b;
    const char *s; int len;
    const char *src;          /* source text of a plain scalar */
    /* collections */
    int n; node_t **c; const char **k;
    int nm; node_t **m;       /* merge key elements */
    /* templates: parts, var index or -1 */
    int np; int pv[8]; const char *ps[8]; int pl[8];
    int file;                 /* includes */
    node_t *binds, *ov;
};

static char arena[8 << 20];
static size_t apos;
static void *al(size_t n)
{
    n = (n + 15) & ~15UL;
    if (apos + n > sizeof(arena)) abort();
    void *p = arena + apos;
    (memset)(p, 0, n);
    apos += n;
    return p;
}
static node_t *mk(int kind) { node_t *n = al(sizeof(node_t)); n->kind = kind; return n; }
static const char *adup(const char *s, int len) { char *r = al(len + 1); (memcpy)(r, s, len); return r; }
static void push(node_t *p, const char *k, node_t *c)
{
    node_t **nc = al(sizeof(*nc) * (p->n + 1));
    const char **nk = al(sizeof(*nk) * (p->n + 1));
    if (p->n) { (memcpy)(nc, p->c, sizeof(*nc) * p->n); (memcpy)(nk, p->k, sizeof(*nk) * p->n); }
    nc[p->n] = c; nk[p->n] = k;
    p->c = nc; p->k = nk; p->n++;
}
static node_t *dup_node(const node_t *s)
{
    node_t *n = mk(s->kind);
    *n = *s;
    n->n = 0; n->c = NULL; n->k = NULL;
    for (int i = 0; i < s->n; i++) push(n, s->k[i], dup_node(s->c[i]));
    return n;
}

static const char *const vnames[] = { "v", "w", "x1", "y-z", "foo_b", "V" };
#define NV 6
static const char *const keys[] = { "a", "b", "c", "d", "e", "k-1", "Key", "a_b", "b2" };
#define NK 9
static const char *const tags[] = { "foo", "t:b.c", "Bar1" };

typedef struct { pt_t *t; int nf, raw_n; node_t *root[6]; const char *path[6]; const char *raw[2]; int rawlen[2];
                 int budget; int cur; bool use_var, loops, canon; int n_inc, n_ov, n_var, n_mk, n_bind; } doc_t;
static const char *const rawpaths[2] = { "raw.bin", "sub/r-2" };

/* ---- generation */
static node_t *g_scalar(doc_t *D)
{
    pt_t *t = D->t;
    node_t *n = mk(SCA);
    char b[64];
    switch (U(9)) {
      case 0: n->st = YAML_SCALAR_UINT; n->u = pt_p(t, 1, 6) ? pt_bits(t, 64) : U(20);
        (snprintf)(b, 64, "%llu", (unsigned long long)n->u); break;
      case 1: n->st = YAML_SCALAR_INT; n->i = -1 - (int64_t)(pt_p(t, 1, 6) ? pt_bits(t, 63) : U(20));
        (snprintf)(b, 64, "%lld", (long long)n->i); break;
      case 2: { static const char *const ds[] = { "1.5", "-0.25", "1e3", "2.50", ".inf", "-.INF", ".nan", "1e-7" };
        static const double dv[] = { 1.5, -0.25, 1e3, 2.5, INFINITY, -INFINITY, NAN, 1e-7 };
        int i = U(8);
        if (D->canon && i > 1) i = 0;
        n->st = YAML_SCALAR_DOUBLE; n->d = dv[i]; (strcpy)(b, ds[i]); } break;
      case 3: n->st = YAML_SCALAR_BOOL; n->b = pt_bool(t); (strcpy)(b, n->b ? (pt_bool(t) || D->canon ? "true" : "True") : "false"); break;
      case 4: n->st = YAML_SCALAR_NULL; (strcpy)(b, pt_bool(t) || D->canon ? "~" : pt_bool(t) ? "null" : ""); break;
      case 5: case 6: {
        static const char *const w[] = { "str", "hello world", "a-b", "x$y", "12a", "$", "a.b/c", "$5", "f", "(v)", "*x", "&" };
        n->st = YAML_SCALAR_STRING; (strcpy)(b, w[U(12)]);
        n->s = adup(b, strlen(b)); n->len = strlen(b); } break;
      default: {
        static const char *const w[] = { "", "str", "$(v)", "a $(w) b", "\"q\"", "x\ny", "12", "~", "true", "\\", " pad ", "#", "a: b", "- a", "$", "$(", "$($(v)", "[", "\xc3\xa9", "\t" };
        n->st = YAML_SCALAR_STRING; n->quoted = 1;
        n->s = w[U(20)]; n->len = strlen(n->s); return n; }
    }
    n->src = adup(b, strlen(b));
    return n;
}
static node_t *g_tpl(doc_t *D)
{
    pt_t *t = D->t;
    D->n_var++;
    if (P(40)) { node_t *n = mk(VAR); n->pv[0] = U(NV); return n; }
    static const char *const pl[] = { "a", "b c", "/", "x$", "(", "-", "$$", "12" };
    static const char *const ql[] = { "a", " ", "$(v)", "$(w", "\"", "\\", "$", "\n", "$(", "x)" };
    node_t *n = mk(TPL);
    n->quoted = pt_bool(t);
    n->np = 1 + U(5);
    bool hasv = false;
    for (int i = 0; i < n->np; i++) {
        if (P(50) || (i == n->np - 1 && !hasv)) { n->pv[i] = U(NV); hasv = true; }
        else {
            n->pv[i] = -1;
            n->ps[i] = n->quoted ? ql[U(10)] : pl[U(8)];
            if (!n->quoted && i == 0) n->ps[i] = P(40) ? "$1" : P(30) ? "$ x" : "z";
            if (!n->quoted && i == n->np - 1) n->ps[i] = "z";
            n->pl[i] = strlen(n->ps[i]);
        }
    }
    /* literal text that would join the next part into a variable reference is
     * written escaped; plain text cannot be */
    if (!n->quoted) {
        if (n->np == 1) { n->kind = VAR; n->pv[0] = n->pv[0]; return n; }
        for (int i = 0; i + 1 < n->np; i++) {
            if (n->pv[i] < 0 && n->pv[i + 1] < 0 && n->ps[i][n->pl[i] - 1] == '$' && n->ps[i + 1][0] == '(') { n->ps[i] = "z"; n->pl[i] = 1; }
        }
    }
    return n;
}
static node_t *g_node(doc_t *D, int depth, bool flow, bool tag_ok);
static node_t *g_obj(doc_t *D, int depth, bool flow, bool tag_ok, int max)
{
    pt_t *t = D->t;
    node_t *n = mk(OBJ);
    uint32_t used = 0;
    int cnt = U(max + 1);
    n->flow = flow;
    for (int i = 0; i < cnt; i++) {
        int k = U(NK);
        if (used >> k & 1) continue;
        used |= 1u << k;
        push(n, keys[k], g_node(D, depth + 1, flow, tag_ok));
    }
    return n;
}
static node_t *g_inc(doc_t *D, int depth)
{
    pt_t *t = D->t;
    node_t *n = mk(INC);
    int lo = D->cur + 1;
    if (D->loops && P(20)) { n->file = U(D->nf + 1); }   /* nf: missing file */
    else if (lo >= D->nf) return g_scalar(D);
    else n->file = lo + U(D->nf - lo);
    D->n_inc++;
    if (D->use_var && P(55)) {
        /* prefer the variables the file really leaves unbound: decided by the
         * caller (fill_binds) */
        n->binds = mk(OBJ);
    }
    return n;
}
static node_t *g_node(doc_t *D, int depth, bool flow, bool tag_ok)
{
    pt_t *t = D->t;
    node_t *n;
    if (D->budget-- <= 0 || depth > 5) return g_scalar(D);
    int c = U(100);
    if (c < 28) n = g_scalar(D);
    else if (c < 40) {
        n = mk(SEQ);
        n->flow = flow || P(25);
        int cnt = U(4);
        for (int i = 0; i < cnt; i++) push(n, NULL, g_node(D, depth + 1, n->flow, tag_ok));
    } else if (c < 62) {
        bool fl = flow || P(20);
        n = g_obj(D, depth, fl, tag_ok, 4);
        if (!fl && depth < 4 && P(20)) {
            n->nm = 1 + U(3);
            n->merge_seq = n->nm > 1 || pt_bool(t);
            n->m = al(sizeof(*n->m) * n->nm);
            for (int i = 0; i < n->nm; i++) {
                n->m[i] = P(25) ? g_inc(D, depth + 1) : P(97) ? g_obj(D, depth + 1, P(30), tag_ok, 4) : g_scalar(D);
                if (n->m[i]->kind == OBJ && !n->m[i]->n) n->m[i]->flow = 1;
            }
            D->n_mk++;
        }
    } else if (c < 80 && !flow) n = g_inc(D, depth);
    else if (c < 97 && !flow && D->use_var) n = g_tpl(D);
    else if (c < 99 && !flow) { n = mk(RAW); n->file = U(2); D->n_inc++; }
    else n = g_scalar(D);
    if (tag_ok && !flow && P(6) && (n->kind == OBJ || n->kind == SEQ || (n->kind == SCA && n->st != YAML_SCALAR_NULL)))
        n->tag = tags[U(3)];
    return n;
}

/* ---- evaluation */
static bool ev_err, ev_ambig;
static bool ev_hidvar;   /* an override replaced a value with variables of an outer file */
static int ev_depth;
static int ev_stack[16];
static node_t *eval(doc_t *D, const node_t *s, uint32_t *mask);
static node_t *eval_file(doc_t *D, int f, uint32_t *mask)
{
    for (int i = 0; i < ev_depth; i++) if (ev_stack[i] == f) { ev_err = true; return mk(SCA); }
    if (f >= D->nf || !D->root[f]) { ev_err = true; return mk(SCA); }
    ev_stack[ev_depth++] = f;
    node_t *r = eval(D, D->root[f], mask);
    ev_depth--;
    return r;
}
static int key_pos(const node_t *o, const char *k)
{
    for (int i = 0; i < o->n; i++) if (!(strcmp)(o->k[i], k)) return i;
    return -1;
}
static uint32_t node_vars(const node_t *n)
{
    uint32_t m = 0;
    if (n->kind == VAR) return 1u << n->pv[0];
    if (n->kind == TPL) { for (int i = 0; i < n->np; i++) if (n->pv[i] >= 0) m |= 1u << n->pv[i]; return m; }
    for (int i = 0; i < n->n; i++) m |= node_vars(n->c[i]);
    return m;
}
static node_t *tpl_join(node_t *n)
{
    char b[1024]; int l = 0;
    for (int i = 0; i < n->np; i++) if (n->pv[i] >= 0) return n;
    for (int i = 0; i < n->np; i++) { (memcpy)(b + l, n->ps[i], n->pl[i]); l += n->pl[i]; }
    node_t *r = mk(SCA);
    r->st = YAML_SCALAR_STRING; r->s = adup(b, l); r->len = l; r->tag = n->tag; r->quoted = 1;
    return r;
}
static node_t *subst(node_t *n, const node_t *binds, const int *bv)
{
    if (n->kind == VAR) {
        for (int i = 0; i < binds->n; i++) if (bv[i] == n->pv[0]) return dup_node(binds->c[i]);
        return n;
    }
    if (n->kind == TPL) {
        bool done = false;
        for (int p = 0; p < n->np; p++) {
            if (n->pv[p] < 0) continue;
            for (int i = 0; i < binds->n; i++) {
                if (bv[i] != n->pv[p]) continue;
                const node_t *v = binds->c[i];
                if (v->kind != SCA) { ev_err = true; return n; }
                /* their text in a string is not specified */
                if (v->st == YAML_SCALAR_BYTES || v->tag) { ev_ambig = true; return n; }
                n->pv[p] = -1;
                if (v->st == YAML_SCALAR_STRING) { n->ps[p] = v->s; n->pl[p] = v->len; }
                else { n->ps[p] = v->src; n->pl[p] = strlen(v->src); }
                done = true;
                break;
            }
        }
        return done ? tpl_join(n) : n;
    }
    for (int i = 0; i < n->n; i++) n->c[i] = subst(n->c[i], binds, bv);
    return n;
}
static void merge(node_t **dst, const node_t *ov)
{
    node_t *d = *dst;
    int dk = d->kind == TPL || d->kind == VAR ? SCA : d->kind, ok = ov->kind == TPL || ov->kind == VAR ? SCA : ov->kind;
    bool null = d->kind == SCA && d->st == YAML_SCALAR_NULL;
    if (dk != ok && !null) { ev_err = true; return; }
    if (d->kind == TPL || d->kind == VAR) ev_hidvar = true;
    if (dk == SCA) { *dst = dup_node(ov); return; }
    if (dk == SEQ) { for (int i = 0; i < ov->n; i++) push(d, NULL, dup_node(ov->c[i])); return; }
    for (int i = 0; i < ov->n; i++) {
        int p = key_pos(d, ov->k[i]);
        if (p < 0) push(d, ov->k[i], dup_node(ov->c[i]));
        else merge(&d->c[p], ov->c[i]);
    }
}
static node_t *eval(doc_t *D, const node_t *s, uint32_t *mask)
{
    node_t *n;
    switch (s->kind) {
      case SCA: return dup_node(s);
      case TPL: case VAR: *mask |= node_vars(s); return dup_node(s);
      case SEQ: case OBJ:
        n = mk(s->kind); n->tag = s->tag;
        for (int i = 0; i < s->nm; i++) {
            node_t *e1 = eval(D, s->m[i], mask);
            bool list = e1->kind == SEQ && !s->merge_seq;
            for (int x = 0; x < (list ? e1->n : 1); x++) {
                node_t *e = list ? e1->c[x] : e1;
                if (e->kind != OBJ || e->tag) { ev_err = true; continue; }
                for (int j = 0; j < e->n; j++) {
                    int p = key_pos(n, e->k[j]);
                    if (p < 0) push(n, e->k[j], e->c[j]); else { if (node_vars(n->c[p])) ev_hidvar = true; n->c[p] = e->c[j]; }
                }
            }
        }
        for (int i = 0; i < s->n; i++) {
            node_t *e = eval(D, s->c[i], mask);
            int p = s->kind == OBJ && s->nm ? key_pos(n, s->k[i]) : -1;
            if (p < 0) push(n, s->k[i], e); else { if (node_vars(n->c[p])) ev_hidvar = true; n->c[p] = e; }
        }
        return n;
      case RAW:
        n = mk(SCA); n->st = YAML_SCALAR_BYTES; n->s = D->raw[s->file]; n->len = D->rawlen[s->file];
        return n;
      case INC: {
        uint32_t m2 = 0;
        node_t *b = s->binds ? eval(D, s->binds, mask) : NULL;
        node_t *o = s->ov ? eval(D, s->ov, mask) : NULL;
        n = eval_file(D, s->file, &m2);
        if (ev_err) return n;
        if (b) {
            int bv[NV + 2];
            for (int i = 0; i < b->n; i++) {
                bv[i] = -1;
                for (int j = 0; j < NV; j++) if (!(strcmp)(vnames[j], b->k[i])) bv[i] = j;
                if (bv[i] < 0 || !(m2 >> bv[i] & 1)) { ev_err = true; return n; }
                m2 &= ~(1u << bv[i]);
            }
            n = subst(n, b, bv);
        }
        if (o && !ev_err && !(b && !o->n)) merge(&n, o);
        *mask |= m2;
        return n;
      }
    }
    abort();
}

/* fill the variable bindings and the overrides of the includes of a file, once
 * the files it includes are complete */
static void g_override(doc_t *D, const node_t *v, node_t *out, int depth)
{
    pt_t *t = D->t;
    uint32_t used = 0;
    int cnt = 1 + U(3);
    for (int i = 0; i < cnt; i++) {
        const char *k; node_t *c = NULL;
        if (v && v->kind == OBJ && v->n && P(75)) {
            int p = U(v->n);
            k = v->k[p];
            const node_t *x = v->c[p];
            if (key_pos(out, k) >= 0) continue;
            if (x->kind == OBJ && depth < 3 && P(90)) { c = mk(OBJ); g_override(D, x, c, depth + 1); }
            else if (x->kind == SEQ && P(92)) {
                c = mk(SEQ);
                int m = U(3);
                for (int j = 0; j < m; j++) push(c, NULL, g_node(D, 4, false, false));
            }
            else if (x->kind != OBJ && x->kind != SEQ && P(92)) c = x->kind == SCA && x->st == YAML_SCALAR_NULL && pt_bool(t) ? g_node(D, 3, false, false) : D->use_var && P(15) ? g_tpl(D) : g_scalar(D);
            else c = g_node(D, 4, false, false);
        } else {
            int q = U(NK);
            if (used >> q & 1) continue;
            used |= 1u << q;
            k = keys[q];
            if (key_pos(out, k) >= 0) continue;
            c = g_node(D, 3, false, false);
        }
        push(out, k, c);
    }
}
static void fill(doc_t *D, node_t *s)
{
    pt_t *t = D->t;
    for (int i = 0; i < s->n; i++) fill(D, s->c[i]);
    for (int i = 0; i < s->nm; i++) fill(D, s->m[i]);
    if (s->kind != INC) return;
    node_t *b = s->binds;
    s->binds = NULL;
    if (s->file >= D->nf || s->file <= D->cur) return;
    uint32_t m2 = 0;
    ev_err = false; ev_depth = 0;
    node_t *v = eval_file(D, s->file, &m2);
    if (ev_err) return;
    if (b && (m2 || P(3))) {
        uint32_t tplv = 0;
        (void)tplv;
        for (int j = 0; j < NV; j++) {
            if (!(m2 >> j & 1) ? !P(1) : !P(85)) continue;
            node_t *x = P(75) ? g_scalar(D) : P(40) ? g_tpl(D) : g_node(D, 4, false, false);
            push(b, vnames[j], x);
        }
        if (b->n) { s->binds = b; D->n_bind++; }
    }
    if (P(35)) {
        node_t *o = mk(OBJ);
        g_override(D, v, o, 0);
        if (o->n) { s->ov = o; D->n_ov++; }
    }
    if (s->binds) fill(D, s->binds);
    if (s->ov) fill(D, s->ov);
}

/* ---- writing */
typedef struct { sb_t b; doc_t *D; int file; bool cmt; } w_t;
static void w_ind(w_t *w, int n) { for (int i = 0; i < n; i++) sb_addc(&w->b, ' '); }
static void w_nl(w_t *w)
{
    pt_t *t = w->D->t;
    if (w->cmt && P(12)) sb_adds(&w->b, pt_bool(t) ? " # c" : " # a: $(b)");
    sb_addc(&w->b, '\n');
    if (w->cmt && P(6)) sb_addc(&w->b, '\n');
    if (w->cmt && P(6)) { w_ind(w, U(4)); sb_adds(&w->b, "# - x\n"); }
}
static void w_q(w_t *w, const char *s, int len, bool next_paren)
{
    for (int i = 0; i < len; i++) {
        if (s[i] == '"' || s[i] == '\\') { sb_addc(&w->b, '\\'); sb_addc(&w->b, s[i]); }
        else if (s[i] == '\n') sb_adds(&w->b, "\\n");
        else if (s[i] == '\t') sb_adds(&w->b, "\\t");
        else if (s[i] == '$' && (i + 1 < len ? s[i + 1] == '(' : next_paren)) sb_adds(&w->b, "\\$");
        else sb_addc(&w->b, s[i]);
    }
}
static void w_scalar(w_t *w, const node_t *n)
{
    if (n->kind == VAR) { sb_addf(&w->b, "$(%s)", vnames[n->pv[0]]); return; }
    if (n->kind == TPL) {
        if (n->quoted) sb_addc(&w->b, '"');
        for (int i = 0; i < n->np; i++) {
            if (n->pv[i] >= 0) { sb_addf(&w->b, "$(%s)", vnames[n->pv[i]]); continue; }
            if (!n->quoted) { sb_add(&w->b, n->ps[i], n->pl[i]); continue; }
            w_q(w, n->ps[i], n->pl[i], i + 1 < n->np && n->pv[i + 1] < 0 && n->ps[i + 1][0] == '(');
        }
        if (n->quoted) sb_addc(&w->b, '"');
        return;
    }
    if (n->quoted) { sb_addc(&w->b, '"'); w_q(w, n->s, n->len, false); sb_addc(&w->b, '"'); }
    else sb_adds(&w->b, n->src);
}
static void w_flow(w_t *w, const node_t *n)
{
    if (n->kind == SEQ || n->kind == OBJ) {
        sb_adds(&w->b, n->kind == SEQ ? "[ " : "{ ");
        for (int i = 0; i < n->n; i++) {
            if (i) sb_adds(&w->b, ", ");
            if (n->kind == OBJ) sb_addf(&w->b, "%s: ", n->k[i]);
            w_flow(w, n->c[i]);
        }
        sb_adds(&w->b, n->kind == SEQ ? " ]" : " }");
        return;
    }
    if (n->kind == SCA && n->st == YAML_SCALAR_NULL) sb_adds(&w->b, "~"); else w_scalar(w, n);
}
static void w_path(w_t *w, const char *to, bool raw)
{
    const char *from = w->D->path[w->file];
    sb_adds(&w->b, raw ? "!includeraw:" : "!include:");
    if (!(strncmp)(from, "sub/", 4)) {
        if (!(strncmp)(to, "sub/", 4)) sb_adds(&w->b, to + 4);
        else sb_addf(&w->b, "../%s", to);
    } else sb_adds(&w->b, to);
}
static void w_val(w_t *w, const node_t *n, int ind, int where);
static void w_fields(w_t *w, const node_t *n, int ind, bool first_inline)
{
    bool first = true;
    if (n->nm) {
        if (!first_inline) w_ind(w, ind);
        first = false;
        sb_adds(&w->b, "<<:");
        if (n->merge_seq) {
            node_t s = { .kind = SEQ, .n = n->nm, .c = n->m };
            w_val(w, &s, ind, 1);
        } else w_val(w, n->m[0], ind, 1);
    }
    for (int i = 0; i < n->n; i++) {
        if (!first || !first_inline) w_ind(w, ind);
        first = false;
        sb_addf(&w->b, "%s:", n->k[i]);
        w_val(w, n->c[i], ind, 1);
    }
}
/* where: 0 root, 1 after "key:", 2 after "-" */
static void w_val(w_t *w, const node_t *n, int ind, int where)
{
    pt_t *t = w->D->t;
    int sub = where == 0 ? 0 : ind + (where == 2 ? 2 : 1 + U(4));
    const char *sp = where ? " " : "";
    if (n->tag) { sb_addf(&w->b, "%s!%s", sp, n->tag); sp = " "; }
    switch (n->kind) {
      case SCA: case TPL: case VAR:
        if (n->kind == SCA && !n->quoted && !n->src[0]) { w_nl(w); return; }
        sb_adds(&w->b, sp);
        w_scalar(w, n);
        w_nl(w);
        return;
      case SEQ:
        if (!n->n || n->flow) { sb_adds(&w->b, sp); w_flow(w, n); w_nl(w); return; }
        if (where || n->tag) w_nl(w);
        if (where == 1 && !n->tag && pt_p(t, 1, 4)) sub = ind;
        for (int i = 0; i < n->n; i++) {
            w_ind(w, sub);
            sb_addc(&w->b, '-');
            w_val(w, n->c[i], sub, 2);
        }
        return;
      case OBJ:
        if ((!n->n && !n->nm) || n->flow) { sb_adds(&w->b, sp); w_flow(w, n); w_nl(w); return; }
        if (where == 2 && !n->tag && pt_bool(t)) { sb_addc(&w->b, ' '); w_fields(w, n, sub, true); return; }
        if (where || n->tag) w_nl(w);
        w_fields(w, n, sub, false);
        return;
      case RAW:
        sb_adds(&w->b, sp);
        w_path(w, rawpaths[n->file], true);
        w_nl(w);
        return;
      case INC: {
        sb_adds(&w->b, sp);
        w_path(w, n->file >= w->D->nf ? "missing.yml" : w->D->path[n->file], false);
        w_nl(w);
        if (n->binds) {
            w_ind(w, sub);
            sb_adds(&w->b, "variables:");
            w_val(w, n->binds, sub, 1);
        }
        if (n->ov) w_fields(w, n->ov, sub, false);
        return;
      }
    }
}

/* ---- comparing */
/* an integral double is written without a point, and read as an integer */
static bool lax, weak;
static bool same(const yaml_data_t *d, const node_t *n, sb_t *why)
{
    if (d->tag.s ? !n->tag || !lstr_equal(d->tag, LSTR(n->tag)) : !!n->tag) {
        if (!(n->kind == SCA && n->st == YAML_SCALAR_BYTES)) { sb_setf(why, "tag"); return false; }
    }
    switch (n->kind) {
      case SEQ:
        if (d->type != YAML_DATA_SEQ) { sb_setf(why, "not a sequence"); return false; }
        if (d->seq->datas.len != n->n) { sb_setf(why, "%d elements instead of %d", d->seq->datas.len, n->n); return false; }
        for (int i = 0; i < n->n; i++) if (!same(&d->seq->datas.tab[i], n->c[i], why)) { sb_prependf(why, "[%d]", i); return false; }
        return true;
      case OBJ:
        if (d->type != YAML_DATA_OBJ) { sb_setf(why, ": not an object"); return false; }
        if (d->obj->fields.len != n->n) { sb_setf(why, ": %d fields instead of %d", d->obj->fields.len, n->n); return false; }
        for (int i = 0; i < n->n; i++) {
            yaml_key_data_t *kd = &d->obj->fields.tab[i];
            /* the order of the keys depends on the presentation */
            if (lax) tab_for_each_ptr(o, &d->obj->fields) if (lstr_equal(o->key, LSTR(n->k[i]))) kd = o;
            if (!lstr_equal(kd->key, LSTR(n->k[i]))) { sb_setf(why, ": key %d is %.*s instead of %s", i, kd->key.len, kd->key.s, n->k[i]); return false; }
            if (!same(&kd->data, n->c[i], why)) { sb_prependf(why, ".%s", n->k[i]); return false; }
        }
        return true;
      case TPL: case VAR:
        if (d->type != YAML_DATA_SCALAR || d->scalar.type != YAML_SCALAR_STRING) { sb_setf(why, ": not an unbound string"); return false; }
        { SB_1k(x);
          if (n->kind == VAR) sb_addf(&x, "$(%s)", vnames[n->pv[0]]);
          else for (int i = 0; i < n->np; i++) { if (n->pv[i] >= 0) sb_addf(&x, "$(%s)", vnames[n->pv[i]]); else sb_add(&x, n->ps[i], n->pl[i]); }
          if (!lstr_equal(d->scalar.s, LSTR_SB_V(&x))) { sb_setf(why, ": unbound string differs"); return false; } }
        return true;
    }
    if (lax && n->st == YAML_SCALAR_STRING && d->type == YAML_DATA_SCALAR && d->scalar.type != YAML_SCALAR_STRING
    &&  d->scalar.type != YAML_SCALAR_NULL && d->scalar.type != YAML_SCALAR_BYTES) {
        /* strings are not quoted when they look like a number or a boolean:
         * the type comes from the reader, the text has to be kept */
        if (lstr_endswith(yaml_span_to_lstr(&d->span), LSTR_INIT_V(n->s, n->len))) return true;
    }
    if (lax && n->st == YAML_SCALAR_DOUBLE && d->type == YAML_DATA_SCALAR && d->scalar.type == YAML_SCALAR_UINT && (double)d->scalar.u == n->d) return true;
    if (lax && n->st == YAML_SCALAR_DOUBLE && d->type == YAML_DATA_SCALAR && d->scalar.type == YAML_SCALAR_INT && (double)d->scalar.i == n->d) return true;
    if (weak && n->kind == SCA && d->type == YAML_DATA_SCALAR) {
        /* the values of a variable are compared by their text: scalars of
         * different types with the same text can share a variable */
        char b[512] = "", c[512] = "";
        switch (n->st) {
          case YAML_SCALAR_UINT: (snprintf)(b, sizeof(b), "%llu", (unsigned long long)n->u); break;
          case YAML_SCALAR_INT: (snprintf)(b, sizeof(b), "%lld", (long long)n->i); break;
          case YAML_SCALAR_BOOL: (strcpy)(b, n->b ? "true" : "false"); break;
          case YAML_SCALAR_NULL: (strcpy)(b, "~"); break;
          case YAML_SCALAR_DOUBLE: if (isnan(n->d)) (strcpy)(b, ".NaN"); else if (isinf(n->d)) (strcpy)(b, n->d > 0 ? ".Inf" : "-.Inf"); else (snprintf)(b, sizeof(b), "%.17g", n->d); break;
          default: (snprintf)(b, sizeof(b), "%.*s", n->len, n->s);
        }
        switch (d->scalar.type) {
          case YAML_SCALAR_UINT: (snprintf)(c, sizeof(c), "%llu", (unsigned long long)d->scalar.u); break;
          case YAML_SCALAR_INT: (snprintf)(c, sizeof(c), "%lld", (long long)d->scalar.i); break;
          case YAML_SCALAR_BOOL: (strcpy)(c, d->scalar.b ? "true" : "false"); break;
          case YAML_SCALAR_NULL: (strcpy)(c, "~"); break;
          case YAML_SCALAR_DOUBLE: if (isnan(d->scalar.d)) (strcpy)(c, ".NaN"); else if (isinf(d->scalar.d)) (strcpy)(c, d->scalar.d > 0 ? ".Inf" : "-.Inf"); else (snprintf)(c, sizeof(c), "%.17g", d->scalar.d); break;
          default: (snprintf)(c, sizeof(c), "%.*s", d->scalar.s.len, d->scalar.s.s);
        }
        if (d->scalar.type != n->st && !(strcmp)(b, c)) return true;
    }
    /* a string in place of a raw include stays a raw include */
    if (lax && n->st == YAML_SCALAR_STRING && d->type == YAML_DATA_SCALAR && d->scalar.type == YAML_SCALAR_BYTES)
        return d->scalar.s.len == n->len && !(memcmp)(d->scalar.s.s, n->s, n->len);
    if (d->type != YAML_DATA_SCALAR || d->scalar.type != n->st) { sb_setf(why, ": scalar of type %d expected", n->st); return false; }
    bool ok = true;
    switch (n->st) {
      case YAML_SCALAR_UINT: ok = d->scalar.u == n->u; break;
      case YAML_SCALAR_INT: ok = d->scalar.i == n->i; break;
      case YAML_SCALAR_BOOL: ok = d->scalar.b == n->b; break;
      case YAML_SCALAR_DOUBLE: ok = isnan(n->d) ? isnan(d->scalar.d) : d->scalar.d == n->d; break;
      case YAML_SCALAR_NULL: break;
      default: ok = d->scalar.s.len == n->len && !(memcmp)(d->scalar.s.s, n->s, n->len);
    }
    if (!ok) sb_setf(why, ": value");
    return ok;
}
static void t_build(const node_t *n, yaml_data_t *d)
{
    p_clear(d, 1);
    switch (n->kind) {
      case SEQ:
        t_yaml_data_new_seq(d, n->n);
        for (int i = 0; i < n->n; i++) { yaml_data_t x; t_build(n->c[i], &x); yaml_seq_add_data(d, x); }
        break;
      case OBJ:
        t_yaml_data_new_obj(d, n->n);
        for (int i = 0; i < n->n; i++) { yaml_data_t x; t_build(n->c[i], &x); yaml_obj_add_field(d, LSTR(n->k[i]), x); }
        break;
      default:
        switch (n->st) {
          case YAML_SCALAR_UINT: yaml_data_set_uint(d, n->u); break;
          case YAML_SCALAR_INT: yaml_data_set_int(d, n->i); break;
          case YAML_SCALAR_BOOL: yaml_data_set_bool(d, n->b); break;
          case YAML_SCALAR_DOUBLE: yaml_data_set_double(d, n->d); break;
          case YAML_SCALAR_NULL: yaml_data_set_null(d); break;
          case YAML_SCALAR_BYTES: yaml_data_set_bytes(d, LSTR_INIT_V(n->s, n->len)); break;
          default: yaml_data_set_string(d, LSTR_INIT_V(n->s, n->len)); break;
        }
    }
    if (n->tag) d->tag = LSTR(n->tag);
}

/* ---- random edits of the data */
static node_t *plain_value(doc_t *D, int depth)
{
    pt_t *t = D->t;
    node_t *n;
    int c = U(10);
    if (c < 6 || depth > 3) return g_scalar(D);
    n = mk(c < 8 ? SEQ : OBJ);
    int cnt = U(4);
    for (int i = 0; i < cnt; i++) {
        const char *k = keys[U(NK)];
        if (n->kind == OBJ && key_pos(n, k) >= 0) continue;
        push(n, k, plain_value(D, depth + 1));
    }
    return n;
}
static void edit(doc_t *D, node_t **pn)
{
    pt_t *t = D->t;
    node_t *n = *pn;
    if (n->n && P(75)) { edit(D, &n->c[U(n->n)]); return; }
    int c = U(8);
    if (c == 7 && n->kind != SCA) c = 6;
    switch (c) {
      case 0: *pn = plain_value(D, 0); break;
      case 1: case 2:
        if (n->n) {                 /* remove */
            int i = U(n->n);
            node_t *r = mk(n->kind); r->tag = n->tag;
            for (int j = 0; j < n->n; j++) if (j != i) push(r, n->k[j], n->c[j]);
            *pn = r;
        } else *pn = g_scalar(D);
        break;
      case 3: case 4:
        if (n->kind == SEQ || n->kind == OBJ) {   /* insert */
            const char *k = keys[U(NK)];
            int at = U(n->n + 1);
            if (n->kind == OBJ && key_pos(n, k) >= 0) break;
            node_t *r = mk(n->kind); r->tag = n->tag;
            for (int j = 0; j <= n->n; j++) {
                if (j == at) push(r, k, plain_value(D, 1));
                if (j < n->n) push(r, n->k[j], n->c[j]);
            }
            *pn = r;
        } else *pn = g_scalar(D);
        break;
      case 5:
        if (n->n > 1) {             /* swap */
            int i = U(n->n), j = U(n->n);
            SWAP(node_t *, n->c[i], n->c[j]);
            SWAP(const char *, n->k[i], n->k[j]);
        } else *pn = g_scalar(D);
        break;
      case 6:
        if (n->kind == OBJ || n->kind == SEQ || (n->kind == SCA && !D->n_bind && n->st != YAML_SCALAR_NULL && n->st != YAML_SCALAR_BYTES)) {
            node_t *r = mk(0);
            *r = *n;
            r->tag = n->tag ? NULL : tags[U(3)];
            *pn = r;
        }
        break;
      default:
        if (n->kind == SCA && n->st == YAML_SCALAR_STRING) {
            char b[128]; int l = 0;
            if (n->len > 40) break;
            if (pt_bool(t)) b[l++] = 'Z';
            (memcpy)(b + l, n->s, n->len); l += n->len;
            if (pt_bool(t)) b[l++] = '9';
            node_t *r = mk(0); *r = *n; r->s = adup(b, l); r->len = l; *pn = r;
        } else *pn = g_scalar(D);
    }
}

/* ---- targets */
static char dir[PATH_MAX], out[PATH_MAX];
static void wipe(const char *p)
{
    DIR *d = opendir(p);
    if (!d) return;
    struct dirent *e;
    while ((e = readdir(d))) {
        char q[PATH_MAX];
        if (e->d_name[0] == '.' && (!e->d_name[1] || e->d_name[1] == '.')) continue;
        (snprintf)(q, sizeof(q), "%s/%s", p, e->d_name);
        struct stat st;
        if (lstat(q, &st) == 0 && S_ISDIR(st.st_mode)) { wipe(q); rmdir(q); } else unlink(q);
    }
    closedir(d);
}
static void put(const char *rel, const char *s, int len)
{
    char q[PATH_MAX];
    (snprintf)(q, sizeof(q), "%s/%s", dir, rel);
    FILE *f = fopen(q, "w");
    fwrite(s, 1, len, f);
    fclose(f);
}
static void show(pt_t *t, const char *p, const char *rel)
{
    char q[PATH_MAX], b[20000];
    DIR *d = opendir(p);
    struct dirent *e;
    if (!pt_verbose(t) || !d) return;
    while ((e = readdir(d))) {
        if (e->d_name[0] == '.') continue;
        (snprintf)(q, sizeof(q), "%s/%s", p, e->d_name);
        FILE *f = fopen(q, "r");
        struct stat st;
        if (stat(q, &st) == 0 && S_ISDIR(st.st_mode)) { if (f) fclose(f); show(t, q, e->d_name); continue; }
        if (!f) continue;
        int l = fread(b, 1, sizeof(b) - 1, f);
        b[l] = 0;
        fclose(f);
        pt_note(t, "--- %s%s%s\n%s", rel, *rel ? "/" : "", e->d_name, b);
    }
    closedir(d);
}
static void gen(doc_t *D, pt_t *t, bool use_var, bool loops, bool canon)
{
    static const char *const ps[6] = { "f0.yml", "f1.yml", "sub/f2.yml", "f3.yml", "sub/f4.yml", "f5.yml" };
    apos = 0;
    p_clear(D, 1);
    D->t = t; D->use_var = use_var; D->loops = loops; D->canon = canon && use_var;
    D->nf = 1 + U(5);
    D->raw[0] = "a\n\x00\xff"; D->rawlen[0] = 4;
    D->raw[1] = "x: $(v)\n"; D->rawlen[1] = 8;
    for (int f = D->nf - 1; f >= 0; f--) {
        D->path[f] = ps[f];
        D->cur = f;
        D->budget = 2 + U(14);
        D->root[f] = P(70) ? g_obj(D, 0, false, true, 5) : g_node(D, 0, false, true);
        fill(D, D->root[f]);
    }
    snprintf(dir, sizeof(dir), "%s/in", pt_tmpdir());
    snprintf(out, sizeof(out), "%s/out", pt_tmpdir());
    wipe(dir); wipe(out); rmdir(out);
    mkdir(dir, 0755);
    { char q[PATH_MAX]; (snprintf)(q, sizeof(q), "%s/sub", dir); mkdir(q, 0755); }
    for (int f = 0; f < D->nf; f++) {
        w_t w = { .D = D, .file = f, .cmt = P(40) };
        sb_init(&w.b);
        w_val(&w, D->root[f], 0, 0);
        if (!w.b.len) sb_adds(&w.b, "\n");
        put(D->path[f], w.b.data, w.b.len);
        if (pt_verbose(t)) pt_note(t, "--- %s\n%s", D->path[f], w.b.data);
        sb_wipe(&w.b);
    }
    put(rawpaths[0], D->raw[0], D->rawlen[0]);
    put(rawpaths[1], D->raw[1], D->rawlen[1]);
}
static int t_parse(const char *d, unsigned flags, yaml_parse_t **env, yaml_data_t *data, sb_t *err)
{
    *env = t_yaml_parse_new(flags);
    sb_reset(err);
    if (t_yaml_parse_attach_file(*env, "f0.yml", d, err) < 0) return -1;
    return t_yaml_parse(*env, data, err);
}
static bool interesting(doc_t *D) { return D->n_inc || D->n_ov || D->n_var || D->n_mk; }

static void run_parse(pt_t *t)
{
    t_scope;
    doc_t D;
    gen(&D, t, P(65), P(15), false);
    uint32_t mask = 0;
    ev_err = ev_ambig = ev_hidvar = false; ev_depth = 0;
    node_t *m = eval_file(&D, 0, &mask);
    if (ev_ambig) { pt_discard(t); return; }
    uint32_t left = ev_err ? 0 : node_vars(m);
    bool unb = P(25), pres = P(30);
    SB_1k(err); SB_1k(why);
    yaml_parse_t *env;
    yaml_data_t data;
    int r = t_parse(dir, (unb ? YAML_PARSE_ALLOW_UNBOUND_VARIABLES : 0) | (pres ? YAML_PARSE_GEN_PRES_DATA : 0), &env, &data, &err);
    if (pt_verbose(t)) pt_note(t, "parse: %d %.*s; model error %d mask %x left %x", r, err.len, err.data, ev_err, mask, left);
    bool must_fail = ev_err || (!unb && left);
    bool may_fail = must_fail || (!unb && mask);
    if (r < 0) {
        PT_CHECK(t, may_fail, "a valid document was refused: %.*s", err.len, err.data);
        PT_CHECK(t, err.len > 0, "no message with the refusal");
    } else {
        PT_CHECK(t, !must_fail, "a document that cannot be evaluated was accepted (%s)", ev_err ? "error" : "unbound variables");
        PT_CHECK(t, same(&data, m, &why), "parsed data differs from the document's meaning: %.*s", why.len, why.data);
        if (interesting(&D)) pt_nontrivial(t);
        if (D.n_ov) pt_label(t, "override");
        if (D.n_bind) pt_label(t, "bindings");
        if (D.n_mk) pt_label(t, "merge key");
    }
    if (must_fail) pt_label(t, "refused");
    yaml_parse_delete(&env);
}

static void run_repack(pt_t *t)
{
    t_scope;
    doc_t D;
    gen(&D, t, P(55), false, true);
    uint32_t mask = 0;
    ev_err = ev_ambig = ev_hidvar = false; ev_depth = 0;
    node_t *m = eval_file(&D, 0, &mask);
    if (ev_err || ev_ambig || mask) { pt_discard(t); return; }
    SB_1k(err); SB_1k(why);
    yaml_parse_t *env, *env2;
    yaml_data_t data, data2;
    lax = weak = false;
    int r = t_parse(dir, YAML_PARSE_GEN_PRES_DATA, &env, &data, &err);
    PT_CHECK(t, r >= 0, "a valid document was refused: %.*s", err.len, err.data);
    PT_CHECK(t, same(&data, m, &why), "parsed data differs: %.*s", why.len, why.data);
    yaml__document_presentation__t pres;
    t_yaml_data_get_presentation(&data, &pres);
    yaml_pack_env_t *pe = t_yaml_pack_env_new();
    int how = U(4);
    node_t *want = m;
#ifndef NO_EDIT
    /* overrides of list elements are recorded by index: an edit that moves
     * them is not expected to keep the split */
    if (how < 3 && !D.n_ov && P(50)) {
        int k = 1 + U(3);
        D.use_var = false;
        want = dup_node(m);
        for (int i = 0; i < k; i++) edit(&D, &want);
        pt_label(t, "edited");
    }
#endif
    yaml_data_t src;
    if (want == m && pt_bool(t)) src = data; else t_build(want, &src);
    t_yaml_pack_env_set_presentation(pe, &pres);
    SB_1k(txt);
    switch (how) {
      case 0: case 1: {     /* recreate the files */
        PT_CHECK(t, t_yaml_pack_env_set_outdir(pe, out, &err) >= 0, "outdir: %.*s", err.len, err.data);
        r = t_yaml_pack_file(pe, "f0.yml", &src, &err);
        PT_CHECK(t, r >= 0, "packing failed: %.*s", err.len, err.data);
        show(t, out, "out");
        r = t_parse(out, 0, &env2, &data2, &err);
        break;
      }
      case 2:               /* one document */
        PT_CHECK(t, t_yaml_pack_sb(pe, &src, &txt, &err) >= 0, "packing failed");
        if (pt_verbose(t)) pt_note(t, "packed:\n%.*s", txt.len, txt.data);
        env2 = t_yaml_parse_new(0);
        yaml_parse_attach_ps(env2, ps_initsb(&txt));
        r = t_yaml_parse(env2, &data2, &err);
        break;
      default:              /* same document, files untouched */
        yaml_pack_env_set_flags(pe, YAML_PACK_NO_SUBFILES);
        PT_CHECK(t, t_yaml_pack_sb(pe, &src, &txt, &err) >= 0, "packing failed");
        if (pt_verbose(t)) pt_note(t, "packed:\n%.*s", txt.len, txt.data);
        put("f0.yml", txt.data, txt.len);
        r = t_parse(dir, 0, &env2, &data2, &err);
        break;
    }
    /* with NO_SUBFILES, settings of an include that are hidden in its data */
    bool hidden = how == 3 && ((D.n_ov > 0) + (D.n_bind > 0) + (D.n_mk > 0) > 1 || D.n_ov > 1);
    if (r < 0 && ev_hidvar && pt_known(t, "override-hides-unbound-variable")) return;
    if (r < 0 && D.n_ov && D.n_bind && (strstr)(err.data, "type") && pt_known(t, "shared-variable-retyped")) return;
    if (r < 0 && hidden && pt_known(t, "nosubfiles-hidden-settings")) return;
    PT_CHECK(t, r >= 0, "the packed document is refused: %.*s", err.len, err.data);
    lax = true; weak = D.n_bind > 0;
    if (r >= 0 && !same(&data2, want, &why)) {
        if (ev_hidvar && pt_known(t, "override-hides-unbound-variable")) return;
        if (hidden && pt_known(t, "nosubfiles-hidden-settings")) return;
    }
    PT_CHECK(t, same(&data2, want, &why), "the packed document has another meaning: %.*s", why.len, why.data);
    if (interesting(&D)) pt_nontrivial(t);
    if (D.n_ov) pt_label(t, "override");
    if (D.n_bind) pt_label(t, "bindings");
    if (D.n_mk) pt_label(t, "merge key");
    yaml_parse_delete(&env2);
    yaml_parse_delete(&env);
}

void pt_setup(void) { e_set_verbosity(-1); }
static void child(void) { MODULE_REQUIRE(yaml); }
const pt_target_t pt_targets[] = {
    { .name = "parse", .run = run_parse, .quick = 20000, .thorough = 400000, .child_init = child },
    { .name = "repack", .run = run_repack, .quick = 20000, .thorough = 400000, .child_init = child },
};
const int pt_targets_len = countof(pt_targets);
