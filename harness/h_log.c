/* C35: loggers; C34: command lines (VERIF_OPTIONS) */
#include <lib-common/core.h>
#include <lib-common/log.h>
#include <lib-common/log-iop.h>
#include <lib-common/parseopt.h>
#include "pt.h"

const char pt_rule[] =
    "levels: a history of creations, wipes, changes of level (recursive, "
    "silent, inherited, ahead of the creation), messages (whole or by chunks) "
    "and nested captures over a tree of loggers, against a model of the tree; "
    "non-trivial: a level was set and at least one message was kept and one "
    "was not. text: names, trace specifications. options: generated command "
    "lines against a model; non-trivial: at least one option takes a value.";

#define U(n) pt_u(t, (n) - 1)
#define P(n) pt_p(t, (n), 100)
#define N 12

typedef struct { int level; lstr_t name; char msg[200]; bool silent; int line; } rec_t;
typedef struct { bool use; int filter; rec_t *r; int n; } buf_t;

static struct {
    pt_t *t;
    logger_t l[N];
    bool decl[N], reg[N], lazy[N];
    int parent[N];
    int def[N];
    unsigned defflags[N];
    int defined[N];
    unsigned flags[N];
    bool pend[N]; int plevel[N]; unsigned pflags[N];
    int rdefined; unsigned rflags; int rdef;
    char full[N][128];
    char name[N][16];
    rec_t got[64]; int ngot;
    buf_t bufs[8]; int nbufs;
    rec_t store[8][64];
    int kept, dropped, set;
} G;

static __attr_printf__(2, 0) void handler(const log_ctx_t *ctx, const char *fmt, va_list va)
{
    if (G.ngot >= 64) return;
    rec_t *r = &G.got[G.ngot++];
    r->level = ctx->level; r->name = ctx->logger_name; r->silent = ctx->is_silent; r->line = ctx->line;
    vsnprintf(r->msg, sizeof(r->msg), fmt, va);
}

static int eff(int i, bool *forced)
{
    bool pf;
    if (i < 0) { *forced = G.rflags & LOG_RECURSIVE; return G.rdefined >= 0 ? G.rdefined : G.rdef; }
    int pl = eff(G.parent[i], &pf);
    if (G.defined[i] >= 0) { *forced = G.flags[i] & LOG_RECURSIVE; return G.defined[i]; }
    if (pf) { *forced = true; return pl; }
    *forced = G.flags[i] & LOG_RECURSIVE;
    if (G.defined[i] == LOG_INHERITS || G.def[i] == LOG_INHERITS) return pl;
    return G.def[i];
}
static int lvl(int i) { bool f; int r = eff(i, &f); return r < LOG_CRIT ? LOG_CRIT : r; }
static void reg(int i)
{
    if (i < 0 || G.reg[i]) return;
    reg(G.parent[i]);
    G.reg[i] = true;
    if (G.pend[i]) { G.defined[i] = G.plevel[i]; G.flags[i] = G.pflags[i]; G.pend[i] = false; }
}

static logger_t *lg(int i) { return i < 0 ? logger_get_root() : &G.l[i]; }
static const char *fname(int i) { return i < 0 ? "" : G.full[i]; }

static void expect_msg(int i, int level, const char *msg, int line)
{
    pt_t *t = G.t;
    bool want = level <= lvl(i);
    bool both = false, handled = want;
    if (want && G.nbufs) {
        buf_t *b = &G.bufs[G.nbufs - 1];
        if (level <= b->filter) {
            handled = b->use;
            if (b->n < 64) {
                rec_t *r = &b->r[b->n++];
                r->level = level; r->name = LSTR(fname(i)); (snprintf)(r->msg, sizeof(r->msg), "%s", msg);
                r->silent = i < 0 ? !!(G.rflags & LOG_SILENT) : !!(G.flags[i] & LOG_SILENT);
            }
        } else { handled = false; both = b->use; }
    }
    if (want) G.kept++; else G.dropped++;
    if (both && G.ngot == 1) handled = true;
    PT_CHECK(t, G.ngot == handled, "logger %s (level %d): the handler got %d messages at level %d", fname(i), lvl(i), G.ngot, level);
    if (G.ngot) {
        rec_t *r = &G.got[0];
        PT_CHECK(t, r->level == level, "message handled at level %d, not %d", r->level, level);
        PT_CHECK(t, lstr_equal(r->name, LSTR(fname(i))), "message of %s handled for %.*s", fname(i), r->name.len, r->name.s);
        PT_CHECK(t, !(strcmp)(r->msg, msg), "message %s handled as %s", msg, r->msg);
        PT_CHECK(t, r->silent == !!((i < 0 ? G.rflags : G.flags[i]) & LOG_SILENT), "logger %s: silent %d", fname(i), r->silent);
    }
    G.ngot = 0;
}

static int pick_live(pt_t *t)
{
    int c[N + 1], n = 0;
    for (int i = 0; i < N; i++) if (G.decl[i]) c[n++] = i;
    c[n++] = -1;
    return c[U(n)];
}

static void check_all(pt_t *t)
{
    for (int i = -1; i < N; i++) {
        if (i >= 0 && (!G.decl[i] || !G.reg[i])) continue;
        int got = logger_get_level(lg(i));
        PT_CHECK(t, got == lvl(i), "level of `%s` is %d, not %d", fname(i), got, lvl(i));
        PT_CHECK(t, logger_get_by_name(LSTR(fname(i))) == lg(i), "`%s` not found by its name", fname(i));
        if (i >= 0) PT_CHECK(t, lstr_equal(G.l[i].full_name, LSTR(G.full[i])), "wrong full name %.*s", G.l[i].full_name.len, G.l[i].full_name.s);
    }
}

static void step(pt_t *t)
{
    switch (U(12)) {
      case 0: case 1: {               /* create */
        int i = U(N);
        if (G.decl[i]) break;
        int p = -1;
        for (int k = 0; k < 3; k++) { int c = pick_live(t); if (c >= 0 && c < i) { p = c; break; } }
        /* the name, hence what is set ahead, goes with the parent */
        char nf[128];
        (snprintf)(nf, sizeof(nf), "%s%s%s", fname(p), p >= 0 ? "/" : "", G.name[i]);
        if (strlen(nf) > 100) break;
        G.parent[i] = p;
        if ((strcmp)(nf, G.full[i])) {
            if (G.pend[i]) { logger_reset_level(LSTR(G.full[i])); G.pend[i] = false; }
            (strcpy)(G.full[i], nf);
        }
        G.def[i] = P(45) ? LOG_INHERITS : (int)pt_range(t, LOG_EMERG, LOG_TRACE + 2);
        G.defflags[i] = P(20) ? LOG_SILENT : 0;
        G.defined[i] = LOG_UNDEFINED; G.flags[i] = G.defflags[i];
        G.lazy[i] = P(40);
        G.decl[i] = true; G.reg[i] = false;
        if (pt_verbose(t)) pt_note(t, "%s %s, default %d, flags %x", G.lazy[i] ? "declare" : "create", G.full[i], G.def[i], G.defflags[i]);
        if (G.lazy[i]) {
            logger_t l = { .is_static = true, .parent = p < 0 ? NULL : lg(p), .name = LSTR(G.name[i]), .level = LOG_UNDEFINED,
                           .defined_level = LOG_UNDEFINED, .default_level = G.def[i], .level_flags = G.defflags[i], .default_level_flags = G.defflags[i] };
            G.l[i] = l;
        } else {
            logger_init(lg(i), p < 0 ? NULL : lg(p), LSTR(G.name[i]), G.def[i], G.defflags[i]);
            reg(i);
        }
        break;
      }
      case 2: {                       /* wipe */
        int i = U(N);
        if (!G.decl[i] || !G.reg[i] || G.nbufs) break;
        for (int k = 0; k < N; k++) if (G.decl[k] && G.parent[k] == i) return;
        if (pt_verbose(t)) pt_note(t, "wipe %s", G.full[i]);
        logger_wipe(lg(i));
        G.decl[i] = G.reg[i] = false;
        break;
      }
      case 3: case 4: case 5: {       /* level */
        int i = P(80) ? pick_live(t) : (int)U(N);
        bool reset = P(25);
        unsigned fl = (P(35) ? LOG_RECURSIVE : 0) | (P(15) ? LOG_SILENT : 0);
        int level = reset ? LOG_UNDEFINED : P(12) && i >= 0 ? LOG_INHERITS : (int)pt_range(t, LOG_EMERG, LOG_TRACE + 2);
        if (level < 0) fl &= ~LOG_RECURSIVE;
        if (reset) fl = 0;
        bool known = i < 0 || (G.decl[i] && G.reg[i]);
        int old;
        { bool f; old = known ? eff(i, &f) : LOG_UNDEFINED; }
        if (pt_verbose(t)) pt_note(t, "set level of `%s` to %d flags %x", fname(i), level, fl);
        int r = reset ? logger_reset_level(LSTR(fname(i))) : logger_set_level(LSTR(fname(i)), level, fl);
        PT_CHECK(t, r == old, "the previous level of `%s` is %d, not %d", fname(i), old, r);
        if (i < 0) { G.rdefined = level; G.rflags = fl; }
        else if (known) { G.defined[i] = level; G.flags[i] = reset ? G.defflags[i] : fl; }
        else { G.pend[i] = !reset; G.plevel[i] = level; G.pflags[i] = fl; }
        G.set++;
        break;
      }
      case 6: case 7: {               /* a message */
        int i = pick_live(t);
        char msg[64];
        int line, r, level = (int)pt_range(t, LOG_ERR, LOG_TRACE + 2);
        (snprintf)(msg, sizeof(msg), "%c%d", pt_bool(t) ? 'a' : '%', (int)U(100));
        reg(i);
        if (pt_verbose(t)) pt_note(t, "log %s at %d on `%s`", msg, level, fname(i));
        switch (U(8)) {
          default: line = __LINE__; r = logger_log(lg(i), level, "%s", msg); break;
          case 1: level = LOG_ERR; line = __LINE__; r = logger_error(lg(i), "%s", msg); break;
          case 2: level = LOG_WARNING; line = __LINE__; r = logger_warning(lg(i), "%s", msg); break;
          case 3: level = LOG_NOTICE; line = __LINE__; r = logger_notice(lg(i), "%s", msg); break;
          case 4: level = LOG_INFO; line = __LINE__; r = logger_info(lg(i), "%s", msg); break;
          case 5: level = LOG_DEBUG; line = __LINE__; r = logger_debug(lg(i), "%s", msg); break;
          case 6: level = LOG_TRACE; line = __LINE__; r = logger_trace(lg(i), 0, "%s", msg); break;
        }
        PT_CHECK(t, r == (level <= LOG_WARNING ? -1 : 0), "log at level %d returned %d", level, r);
        PT_CHECK(t, logger_has_level(lg(i), level) == (level <= lvl(i)), "wrong logger_has_level");
        expect_msg(i, level, msg, line);
        break;
      }
      case 8: {                       /* a message by chunks */
        int i = pick_live(t), level = (int)pt_range(t, LOG_ERR, LOG_DEBUG);
        char all[256]; int n = 0, k = U(5);
        reg(i);
        __logger_log_start(lg(i), level,);
        for (int j = 0; j < k; j++) {
            char c[40]; int m = 0, len = U(8);
            for (int x = 0; x < len; x++) c[m++] = P(15) ? '\n' : 'a' + U(26);
            c[m] = 0;
            (memcpy)(all + n, c, m); n += m;
            logger_cont("%s", c);
        }
        logger_end(lg(i));
        all[n] = 0;
        /* one message per line; the handler got them together: check them one by one */
        rec_t got[64]; int ng = G.ngot, used = 0;
        (memcpy)(got, G.got, sizeof(got[0]) * ng);
        G.ngot = 0;
        char *p = all;
        for (;;) {
            char *e = (strchr)(p, '\n');
            if (e) *e = 0;
            G.ngot = 0;
            if (used < ng) { G.got[0] = got[used]; G.ngot = 1; used++; }
            expect_msg(i, level, p, -1);
            if (!e) break;
            p = e + 1;
        }
        PT_CHECK(t, used == ng, "%d messages for the chunks, not %d", ng, used);
        break;
      }
      case 9:                         /* capture */
        if (G.nbufs < 8) {
            bool use = pt_bool(t);
            int f = P(50) ? INT32_MAX : (int)pt_range(t, LOG_ERR, LOG_TRACE);
            if (pt_verbose(t)) pt_note(t, "start capture, handler %d, level %d", use, f);
            if (f == INT32_MAX) log_start_buffering(use); else log_start_buffering_filter(use, f);
            buf_t *b = &G.bufs[G.nbufs];
            b->use = use && (!G.nbufs || G.bufs[G.nbufs - 1].use); b->filter = f; b->n = 0; b->r = G.store[G.nbufs];
            G.nbufs++;
            pt_label(t, "capture");
        }
        break;
      case 10:
        if (G.nbufs) {
            const qv_t(log_buffer) *v = log_stop_buffering();
            buf_t *b = &G.bufs[--G.nbufs];
            if (pt_verbose(t)) pt_note(t, "stop capture");
            PT_CHECK(t, v && (v->len == b->n || b->n == 64), "captured %d messages, not %d", v ? v->len : -1, b->n);
            for (int k = 0; v && k < b->n && k < v->len; k++) {
                rec_t *r = &b->r[k];
                PT_CHECK(t, v->tab[k].ctx.level == r->level && lstr_equal(v->tab[k].msg, LSTR(r->msg)) && lstr_equal(v->tab[k].ctx.logger_name, r->name) && v->tab[k].ctx.is_silent == r->silent,
                         "captured message %d is %.*s", k, v->tab[k].msg.len, v->tab[k].msg.s);
            }
        }
        break;
      default: {                      /* configurations */
        t_scope;
        qv_t(logger_conf) confs;
        t_qv_init(&confs, 64);
        int pi = pick_live(t);
        const char *prefix = pi < 0 ? "" : fname(pi);
        logger_get_all_configurations(LSTR(prefix), &confs);
        /* refreshes what it walks: only the registered ones */
        uint32_t seen = 0;
        tab_for_each_ptr(c, &confs) {
            if (!c->full_name.len || c->full_name.s[0] != 'q') continue;
            int i;
            for (i = 0; i < N; i++) if (G.reg[i] && lstr_equal(c->full_name, LSTR(G.full[i]))) break;
            PT_CHECK(t, i < N && !(seen >> i & 1), "configuration of an unknown logger %.*s", c->full_name.len, c->full_name.s);
            if (i == N) return;
            seen |= 1u << i;
            bool f; int e = eff(i, &f);
            bool pf = false;
            if (G.defined[i] < 0) eff(G.parent[i], &pf);
            IGNORE(e);
            PT_CHECK(t, c->level == lvl(i), "configuration of %s: level %d, not %d", G.full[i], c->level, lvl(i));
            PT_CHECK(t, c->force_all == pf, "configuration of %s: forced %d", G.full[i], c->force_all);
            PT_CHECK(t, c->is_silent == !!(G.flags[i] & LOG_SILENT), "configuration of %s: silent %d", G.full[i], c->is_silent);
        }
        for (int i = 0; i < N; i++) {
            if (G.reg[i]) PT_CHECK(t, (seen >> i & 1) == !(strncmp)(G.full[i], prefix, strlen(prefix)), "configurations with prefix %s and logger %s", prefix, G.full[i]);
        }
        break;
      }
    }
}

__attr_unused__ static void run_levels(pt_t *t)
{
    p_clear(&G, 1);
    G.t = t;
    logger_reset_level(LSTR_EMPTY_V);
    G.rdefined = LOG_UNDEFINED; G.rdef = logger_get_level(logger_get_root());
    for (int i = 0; i < N; i++) {
        /* names that are prefixes of others */
        (snprintf)(G.name[i], 16, i % 3 ? "q%d" : "q%d-b", i % 4 + (i / 4) * 10);
        G.parent[i] = -1;
        (strcpy)(G.full[i], G.name[i]);
    }
    log_handler_f *old = log_set_handler(&handler);
    int n = 0;
    while (n++ < 60 && pt_more(t, 25)) {
        step(t);
        if (P(60)) check_all(t);
    }
    check_all(t);
    while (G.nbufs--) log_stop_buffering();
    log_set_handler(old);
    for (int i = 0; i < N; i++) if (G.pend[i]) logger_reset_level(LSTR(G.full[i]));
    for (int i = N - 1; i >= 0; i--) if (G.decl[i] && G.reg[i]) logger_wipe(lg(i));
    e_set_verbosity(-1);
    if (G.kept && G.dropped && G.set) pt_nontrivial(t);
}

/* ---- names and specifications */
__attr_unused__ static void run_text(pt_t *t)
{
    t_scope;
    if (pt_bool(t)) {
        char b[40]; int n = 0, k = U(30);
        for (int i = 0; i < k; i++) {
            static const char *const w[] = { "a", "B", "7", "/", "!", " ", "\t", "-", "_", "\xc3\xa9", "\xc3\x89", "\x01", "\x7f", ".", "\xe2\x82\xac" };
            const char *s = w[U(15)];
            if (n + strlen(s) >= sizeof(b)) break;
            (memcpy)(b + n, s, strlen(s)); n += strlen(s);
        }
        lstr_t r = t_logger_sanitize_name(LSTR_INIT_V(b, n));
        if (r.s) {
            PT_CHECK(t, r.len > 0, "empty name");
            for (int i = 0; i < r.len; i++) {
                unsigned char c = r.s[i];
                PT_CHECK(t, c > 0x20 && c < 0x7f && c != '/' && c != '!', "character %02x in a name", c);
            }
            PT_CHECK(t, isalnum((unsigned char)r.s[0]), "name that starts with %c", r.s[0]);
            PT_CHECK(t, lstr_equal(r, t_logger_sanitize_name(r)), "sanitizing twice differs");
        }
        /* ascii characters that are allowed are all kept, in order */
        char want[40]; int m = 0; bool ascii = true;
        for (int i = 0; i < n; i++) {
            unsigned char c = b[i];
            if (c >= 0x80) { ascii = false; break; }
            if (c > 0x20 && c < 0x7f && c != '/' && c != '!') want[m++] = c;
        }
        if (ascii) {
            if (!m || !isalnum((unsigned char)want[0])) PT_CHECK(t, !r.s, "%.*s accepted", n, b);
            else {
                PT_CHECK(t, r.s && r.len == m, "%.*s gives %.*s", n, b, r.len, r.s);
                for (int i = 0; i < m && i < r.len; i++) PT_CHECK(t, (tolower)(r.s[i]) == (tolower)((unsigned char)want[i]), "%.*s gives %.*s", n, b, r.len, r.s);
            }
        }
        pt_nontrivial(t);
        return;
    }
    /* <path>@<func>+<name>:<level> */
    struct { const char *e[4]; } sp[6];
    int n = U(6), len = 0;
    char b[400];
    static const char *const w[] = { "a", "b*.c", "x/y", "fn_1", "*", "z?" };
    static const char *const lv[] = { "0", "1", "3", "12" };
    for (int k = U(3); k > 0; k--) b[len++] = ' ';
    for (int i = 0; i < n; i++) {
        for (int k = 0; k < 3; k++) sp[i].e[k] = P(45) ? w[U(6)] : NULL;
        sp[i].e[3] = P(50) ? lv[U(4)] : NULL;
        if (!sp[i].e[0] && !sp[i].e[1] && !sp[i].e[2] && !sp[i].e[3]) sp[i].e[3] = "2";
        if (sp[i].e[0]) len += (sprintf)(b + len, "%s", sp[i].e[0]);
        if (sp[i].e[1]) len += (sprintf)(b + len, "@%s", sp[i].e[1]);
        if (sp[i].e[2]) len += (sprintf)(b + len, "+%s", sp[i].e[2]);
        if (sp[i].e[3]) len += (sprintf)(b + len, ":%s", sp[i].e[3]);
        int sep = i < n - 1 ? 1 + U(3) : U(2);
        while (sep-- > 0) b[len++] = P(80) ? ' ' : '\t';
    }
    b[len] = 0;
    if (pt_verbose(t)) pt_note(t, "specs '%s'", b);
    char *heap = (malloc)(len + 1);
    (memcpy)(heap, b, len + 1);
    qv_t(spec) out;
    qv_init(&out);
    log_parse_specs(heap, &out);
    PT_CHECK(t, out.len == n, "'%s': %d specifications, not %d", b, out.len, n);
    for (int i = 0; i < n && i < out.len; i++) {
        const char *got[3] = { out.tab[i].path, out.tab[i].func, out.tab[i].name };
        for (int k = 0; k < 3; k++) {
            PT_CHECK(t, !got[k] == !sp[i].e[k] && (!got[k] || !(strcmp)(got[k], sp[i].e[k])), "'%s': part %d of specification %d is %s", b, k, i, got[k] ?: "none");
        }
        PT_CHECK(t, out.tab[i].level == (sp[i].e[3] ? LOG_TRACE + (atoi)(sp[i].e[3]) : INT_MAX), "'%s': level %d in specification %d", b, out.tab[i].level, i);
    }
    qv_wipe(&out);
    (free)(heap);
    if (n) pt_nontrivial(t);
}

/* ---- command lines */
typedef struct { enum popt_kind kind; int shrt; const char *lng; int size; union { int64_t i; uint64_t u; const char *s; char c; } init, want; uint64_t store; } opt_t;

static bool num_ok(const char *s, bool uns, int size, uint64_t *out)
{
    /* decimal, leading spaces and one sign */
    while (*s == ' ') s++;
    bool neg = false;
    if (*s == '-') { neg = true; s++; } else if (*s == '+') s++;
    if (neg && uns) return false;
    unsigned __int128 v = 0;
    if (!*s) return false;
    for (; *s; s++) { if (*s < '0' || *s > '9') return false; v = v * 10 + (*s - '0'); if (v > ((unsigned __int128)1 << 70)) v = (unsigned __int128)1 << 70; }
    unsigned __int128 one = 1;
    unsigned __int128 max = uns ? (one << (8 * size)) - 1 : neg ? one << (8 * size - 1) : (one << (8 * size - 1)) - 1;
    if (v > max) return false;
    *out = neg ? -(uint64_t)v : (uint64_t)v;
    return true;
}

__attr_unused__ static void run_options(pt_t *t)
{
    static const char *const lngs[] = { "foo", "foo-bar", "fo", "n", "no", "bar", "no_x", "x", "verbose", "f" };
    opt_t o[8];
    popt_t po[12];
    int n = 1 + U(8), np = 0;
    uint32_t used = 0; char us[128] = { 0 };
    for (int i = 0; i < n; i++) {
        opt_t *q = &o[i];
        p_clear(q, 1);
        static const enum popt_kind ks[] = { OPTION_FLAG, OPTION_INT, OPTION_UINT, OPTION_STR, OPTION_CHAR };
        q->kind = ks[U(5)];
        static const int sz[] = { 1, 2, 4, 8 };
        q->size = q->kind == OPTION_FLAG || q->kind == OPTION_INT || q->kind == OPTION_UINT ? sz[U(4)] : 8;
        int c = "abcxyzVn"[U(8)];
        if (P(75) && !us[c]) { us[c] = 1; q->shrt = c; }
        int k = U(10);
        if (!(used >> k & 1) && (P(80) || !q->shrt)) { used |= 1u << k; q->lng = lngs[k]; }
        static const char *const strs[] = { NULL, "", "dflt" };
        switch (q->kind) {
          case OPTION_STR: q->init.s = strs[U(3)]; (memcpy)(&q->store, &q->init.s, sizeof(char *)); break;
          case OPTION_CHAR: q->init.c = 'a' + U(3); *(char *)&q->store = q->init.c; break;
          case OPTION_FLAG: q->init.u = P(20); break;
          default: q->init.u = pt_bits(t, 8 * q->size); if (pt_bool(t)) q->init.u &= 0x3f; break;
        }
        if (q->kind != OPTION_STR && q->kind != OPTION_CHAR) (memcpy)(&q->store, &q->init.u, q->size);
        q->want = q->init;
        if (P(15)) { po[np++] = (popt_t)OPT_GROUP("group"); }
        po[np++] = (popt_t){ q->kind, q->shrt, q->lng, &q->store, 0, "help", q->kind == OPTION_STR || q->kind == OPTION_CHAR ? 0 : q->size };
        if (np >= 10) { n = i + 1; break; }
    }
    po[np++] = (popt_t)OPT_END();
    int flags = (P(25) ? POPT_STOP_AT_NONARG : 0) | (P(25) ? POPT_IGNORE_UNKNOWN_OPTS : 0);
    /* the command line */
    char *argv[32]; char mem[32][32]; int argc = 0;
    bool err = false, stop = false, unspec = false, val = false;
    const char *left[32]; int nleft = 0;
    int items = U(9);
    static const char *const vals[] = { "0", "5", "-1", "127", "128", "-128", "-129", "255", "256", "32767", "32768", "65535", "65536", "2147483647", "2147483648", "-2147483648", "4294967295", "4294967296",
        "9223372036854775807", "-9223372036854775808", "9223372036854775808", "18446744073709551615", "18446744073709551616", "+7", " 8", "12a", "a", "x", "-", "--", "-x", "foo", "=", "0x10", "007", "", "", " ", "ab" };
#define ARG(...) ((snprintf)(mem[argc], 32, __VA_ARGS__), argv[argc] = mem[argc], argc++)
    for (int it = 0; it < items && argc < 26; it++) {
        int what = U(10);
        if (what < 2 || !n) {
            static const char *const w[] = { "arg", "", "-", "a b", "5", "file" };
            ARG("%s", w[U(6)]);
            if (!err) left[nleft++] = argv[argc - 1];
            if (flags & POPT_STOP_AT_NONARG) stop = true;
        } else if (what == 2 && P(40)) {
            ARG("--");
            if (stop && !err) left[nleft++] = argv[argc - 1];
            else if (!err) {
                /* the marker goes away, and all that follows is left */
                stop = true;
            }
        } else {
            opt_t *q = &o[U(n)];
            bool lng = q->lng && (!q->shrt || pt_bool(t));
            if (!q->lng && !q->shrt) continue;
            const char *v = vals[U(countof(vals))];
            bool need = q->kind != OPTION_FLAG, unset = false, bad = false;
            int first = argc;
            if (lng) {
                unset = P(25);
                bool eq = pt_bool(t);
                if (unset) { bad = eq && P(20); ARG(bad ? "--no-%s=%s" : "--no-%s", q->lng, v); }
                else if (!need) { bad = P(10); ARG(bad ? "--%s=%s" : "--%s", q->lng, v); }
                else if (eq) ARG("--%s=%s", q->lng, v);
                else { ARG("--%s", q->lng); ARG("%s", v); }
            } else {
                if (!need) ARG("-%c", q->shrt);
                else if (*v && pt_bool(t)) ARG("-%c%s", q->shrt, v);
                else { ARG("-%c", q->shrt); ARG("%s", v); }
            }
            if (stop) { if (!err) for (int k = first; k < argc; k++) left[nleft++] = argv[k]; continue; }
            if (err) continue;
            if (bad) { err = true; continue; }
            if (unset) { q->want = q->init; if (q->kind == OPTION_FLAG) q->want.u = 0; continue; }
            val |= need;
            switch (q->kind) {
              case OPTION_FLAG: q->want.u = 1; break;
              case OPTION_STR: q->want.s = v; break;
              case OPTION_CHAR: if (strlen(v) != 1) err = true; else q->want.c = v[0]; break;
              default: {
                uint64_t x;
                if (!num_ok(v, q->kind == OPTION_UINT, q->size, &x)) err = true;
                else q->want.u = x;
              }
            }
        }
    }
    /* something at the end */
    int end = stop ? 9 : U(10);
    if (!err && end == 0) {             /* a value is missing */
        opt_t *q = &o[U(n)];
        if (q->kind != OPTION_FLAG && (q->shrt || q->lng)) {
            if (q->lng) ARG("--%s", q->lng); else ARG("-%c", q->shrt);
            err = true;
        }
    } else if (!err && end == 1) {      /* unknown */
        const char *u = pt_bool(t) ? "--unknown=5" : P(50) ? "-Q" : "-Qa";
        ARG("%s", u);
        if (flags & POPT_IGNORE_UNKNOWN_OPTS) left[nleft++] = argv[argc - 1]; else err = true;
    } else if (!err && end == 2) {      /* flags together, then one that takes a value */
        char c[32]; int k = 1; c[0] = '-';
        for (int i = 0; i < n; i++) if (o[i].kind == OPTION_FLAG && o[i].shrt) { c[k++] = o[i].shrt; o[i].want.u = 1; }
        for (int i = 0; i < n; i++) if (o[i].kind == OPTION_STR && o[i].shrt) { c[k++] = o[i].shrt; o[i].want.s = "v-1"; (strcpy)(c + k, "v-1"); k += 3; break; }
        c[k] = 0;
        if (k > 1) { ARG("%s", c); pt_label(t, "flags together"); }
    }
    IGNORE(unspec);
    argv[argc] = NULL;
    char *orig[33]; (memcpy)(orig, argv, sizeof(argv[0]) * (argc + 1));
    if (pt_verbose(t)) {
        for (int i = 0; i < n; i++) pt_note(t, "option kind %d -%c --%s size %d", o[i].kind, o[i].shrt ?: '?', o[i].lng ?: "?", o[i].size);
        for (int i = 0; i < argc; i++) pt_note(t, "argv[%d] = '%s'", i, argv[i]);
    }
    errno = P(30) ? ERANGE : P(30) ? EINVAL : 0;
    int r = parseopt(argc, argv, po, flags);
    if (err) { PT_CHECK(t, r < 0, "a wrong command line is accepted"); pt_nontrivial(t); return; }
    PT_CHECK(t, r == nleft, "%d arguments left, not %d", r, nleft);
    for (int i = 0; i < r && i < nleft; i++) PT_CHECK(t, argv[i] == left[i], "argument left %d is '%s', not '%s'", i, argv[i], left[i]);
    for (int i = 0; i < n; i++) {
        opt_t *q = &o[i];
        switch (q->kind) {
          case OPTION_STR: { const char *s; (memcpy)(&s, &q->store, sizeof(s)); PT_CHECK(t, !s == !q->want.s && (!s || !(strcmp)(s, q->want.s)), "option %d is '%s', not '%s'", i, s ?: "null", q->want.s ?: "null"); } break;
          case OPTION_CHAR: PT_CHECK(t, *(char *)&q->store == q->want.c && !(q->store >> 8), "option %d is '%c'", i, *(char *)&q->store); break;
          default: {
            uint64_t m = q->size == 8 ? UINT64_MAX : ((uint64_t)1 << (8 * q->size)) - 1;
            PT_CHECK(t, q->store == (q->want.u & m), "option %d is %llx, not %llx", i, (long long)q->store, (long long)(q->want.u & m));
          }
        }
    }
    if (val) pt_nontrivial(t);
    /* single values */
    const char *v = vals[U(countof(vals))];
    uint64_t x;
    int iv = 77; unsigned uv = 77;
    r = parseopt_geti(v, "P", &iv);
    PT_CHECK(t, (r >= 0) == num_ok(v, false, 4, &x) && iv == (r >= 0 ? (int)x : 77), "parseopt_geti('%s') = %d, %d", v, r, iv);
    r = parseopt_getu(v, "P", &uv);
    PT_CHECK(t, (r >= 0) == num_ok(v, true, 4, &x) && uv == (r >= 0 ? (unsigned)x : 77), "parseopt_getu('%s') = %d, %u", v, r, uv);
}

void pt_setup(void) { e_set_verbosity(-1); }
__attr_unused__ static void child(void) { e_set_verbosity(-1); logger_set_level(LSTR_EMPTY_V, 0, 0); }
#ifdef VERIF_OPTIONS
const pt_target_t pt_targets[] = {
    { .name = "options", .run = run_options, .quick = 600000, .thorough = 10000000, .child_init = child },
};
#else
const pt_target_t pt_targets[] = {
    { .name = "levels", .run = run_levels, .quick = 300000, .thorough = 5000000 },
    { .name = "text", .run = run_text, .quick = 300000, .thorough = 1000000 },
};
#endif
const int pt_targets_len = countof(pt_targets);
