/* C30: modules */
#include <lib-common/core.h>
#include <lib-common/unix.h>
#include <lib-common/el.h>
#include <sys/wait.h>
#include "pt.h"
#undef fork

const char pt_rule[] =
    "a generated graph of modules (dependencies in any order, repeated, "
    "diamonds, constructors that require other modules, destructors that "
    "fail) goes through a history of requires, releases, method runs and "
    "forks; every constructor, destructor and method call is compared with a "
    "model by reference counts. Non-trivial: at least two loaded modules one "
    "of which depends on the other.";

#define U(n) pt_u(t, (n) - 1)
#define P(n) pt_p(t, (n), 100)
#define N 10

static struct {
    pt_t *t;
    int n;
    module_t *mod[N];
    uint32_t deps[N];            /* direct */
    uint32_t all[N];             /* transitive */
    uint32_t ctor_req[N];        /* required by the constructor, released by the destructor */
    bool early_rel[N];
    uint32_t fail_shut;
    uint32_t impl[4];
    /* model */
    int manual[N];
    uint32_t loaded, busy;
    int arg[N];
    bool provided[N];
    /* trace of calls */
    int meth[256], nmeth;
    uint32_t expect_arg;
    void *expect_ptr;
    bool method_in_ctor;
    bool quiet;
    int nreq;
} G;

static uint32_t closure(void)
{
    uint32_t r = 0;
    for (int i = 0; i < G.n; i++) if (G.manual[i]) r |= 1u << i | G.all[i];
    return r;
}

static void check_states(const char *when)
{
    for (int i = 0; i < G.n; i++) {
        bool l = G.loaded >> i & 1;
        PT_CHECK(G.t, module_is_loaded(G.mod[i]) == l, "%s: module %d is %sloaded", when, i, l ? "not " : "");
        if (!(G.busy >> i & 1)) {
            PT_CHECK(G.t, !module_is_initializing(G.mod[i]) && !module_is_shutting_down(G.mod[i]), "%s: module %d is in transition", when, i);
        }
    }
}
static void run_methods(int which);

static int ctor(int i, void *arg)
{
    if (pt_verbose(G.t)) pt_note(G.t, "  ctor %d", i);
    PT_CHECK(G.t, !(G.loaded >> i & 1), "module %d initialized twice", i);
    PT_CHECK(G.t, !(G.busy >> i & 1), "module %d initialized recursively", i);
    PT_CHECK(G.t, (G.loaded & G.all[i]) == G.all[i], "module %d initialized before its dependencies (%x of %x)", i, G.loaded & G.all[i], G.all[i]);
    PT_CHECK(G.t, module_is_initializing(G.mod[i]), "module %d is not initializing in its constructor", i);
    PT_CHECK(G.t, !module_is_loaded(G.mod[i]), "module %d is loaded in its constructor", i);
    PT_CHECK(G.t, arg == (G.provided[i] ? &G.arg[i] : NULL), "module %d: wrong argument", i);
    G.busy |= 1u << i;
    if (G.method_in_ctor) run_methods(i % 4);
    for (int j = 0; j < i; j++) {
        if (!(G.ctor_req[i] >> j & 1)) continue;
        G.manual[j]++;
        module_require(G.mod[j]);
        PT_CHECK(G.t, module_is_loaded(G.mod[j]), "module %d not loaded once required", j);
    }
    G.busy &= ~(1u << i);
    G.loaded |= 1u << i;
    return 0;
}
static void model_release(int j)
{
    G.manual[j]--;
}
static int dtor(int i)
{
    if (pt_verbose(G.t)) pt_note(G.t, "  dtor %d", i);
    PT_CHECK(G.t, G.loaded >> i & 1, "module %d shut down while not loaded", i);
    for (int k = 0; k < G.n; k++) {
        if (G.loaded >> k & 1) PT_CHECK(G.t, !(G.deps[k] >> i & 1), "module %d shut down before %d that depends on it", i, k);
    }
    PT_CHECK(G.t, G.quiet || !G.manual[i], "module %d shut down while required", i);
    PT_CHECK(G.t, (G.loaded & G.all[i]) == G.all[i], "dependencies of module %d shut down before it", i);
    PT_CHECK(G.t, module_is_shutting_down(G.mod[i]), "module %d is not shutting down in its destructor", i);
    PT_CHECK(G.t, !module_is_loaded(G.mod[i]), "module %d is loaded in its destructor", i);
    G.loaded &= ~(1u << i);
    G.busy |= 1u << i;
    for (int j = 0; j < i; j++) {
        if (!(G.ctor_req[i] >> j & 1)) continue;
        model_release(j);
        module_release(G.mod[j]);
    }
    return G.fail_shut >> i & 1 ? -1 : 0;
}

static void meth_called(int m, int i)
{
    PT_CHECK(G.t, G.nmeth < 256, "too many calls");
    if (G.nmeth < 256) G.meth[G.nmeth++] = m * 16 + i;
}
#define MOD(i) \
    static int ctor##i(void *a) { return ctor(i, a); } \
    static int dtor##i(void) { return dtor(i); } \
    static void mv##i(void) { meth_called(0, i); } \
    static void mi##i(int v) { PT_CHECK(G.t, (uint32_t)v == G.expect_arg, "wrong method argument"); meth_called(1, i); } \
    static void mp##i(void *v) { PT_CHECK(G.t, v == G.expect_ptr, "wrong method argument"); meth_called(2, i); } \
    static void mg##i(data_t v) { PT_CHECK(G.t, v.ptr == G.expect_ptr, "wrong method argument"); meth_called(3, i); } \
    static void fp##i(void) { meth_called(4, i); } \
    static void fo##i(int pid) { meth_called(5, i); } \
    static void fc##i(void) { meth_called(6, i); }
MOD(0) MOD(1) MOD(2) MOD(3) MOD(4) MOD(5) MOD(6) MOD(7) MOD(8) MOD(9)
#define ALL(p) { p##0, p##1, p##2, p##3, p##4, p##5, p##6, p##7, p##8, p##9 }
static int (*const ctors[N])(void *) = ALL(ctor);
static int (*const dtors[N])(void) = ALL(dtor);
static void (*const mvs[N])(void) = ALL(mv);
static void (*const mis[N])(int) = ALL(mi);
static void (*const mps[N])(void *) = ALL(mp);
static void (*const mgs[N])(data_t) = ALL(mg);
static void (*const fps[N])(void) = ALL(fp);
static void (*const fos[N])(int) = ALL(fo);
static void (*const fcs[N])(void) = ALL(fc);

static MODULE_METHOD(VOID, DEPS_BEFORE, vm_v);
static MODULE_METHOD(INT, DEPS_AFTER, vm_i);
static MODULE_METHOD(PTR, DEPS_AFTER, vm_p);
static MODULE_METHOD(GENERIC, DEPS_BEFORE, vm_g);

/* calls of method m recorded since start: exactly the loaded implementers,
 * in an order that respects the dependencies */
static void check_calls(int m, uint32_t want, bool deps_before, int from)
{
    uint32_t seen = 0;
    for (int k = from; k < G.nmeth; k++) {
        if (G.meth[k] / 16 != m) continue;
        int i = G.meth[k] % 16;
        PT_CHECK(G.t, !(seen >> i & 1), "method %d called twice for module %d", m, i);
        for (int j = 0; j < G.n; j++) {
            if (j == i || !(want >> j & 1)) continue;
            bool j_dep = G.all[i] >> j & 1, i_dep = G.all[j] >> i & 1;
            bool before = deps_before ? j_dep : i_dep;
            bool after = deps_before ? i_dep : j_dep;
            if (before) PT_CHECK(G.t, seen >> j & 1, "method %d called for module %d before %d", m, i, j);
            if (after) PT_CHECK(G.t, !(seen >> j & 1), "method %d called for module %d after %d", m, i, j);
        }
        seen |= 1u << i;
    }
    PT_CHECK(G.t, seen == want, "method %d called for modules %x, not %x", m, seen, want);
}
static uint32_t impl_fork;

static void run_methods(int which)
{
    int from = G.nmeth;
    static int obj[4];
    if (from > 128) from = G.nmeth = 0;
    G.expect_arg = 0x1234567 + which; G.expect_ptr = &obj[which];
    switch (which) {
      case 0: MODULE_METHOD_RUN_VOID(vm_v); check_calls(0, G.impl[0] & G.loaded, true, from); break;
      case 1: MODULE_METHOD_RUN_INT(vm_i, G.expect_arg); check_calls(1, G.impl[1] & G.loaded, false, from); break;
      case 2: MODULE_METHOD_RUN_PTR(vm_p, G.expect_ptr); check_calls(2, G.impl[2] & G.loaded, false, from); break;
      default: MODULE_METHOD_RUN(vm_g, ((data_t){ .ptr = G.expect_ptr })); check_calls(3, G.impl[3] & G.loaded, true, from); break;
    }
}

static int serial;
static void setup_graph(pt_t *t)
{
    uint32_t order[N];
    p_clear(&G, 1);
    G.t = t;
    G.n = 1 + U(N);
    serial++;
    for (int i = 0; i < G.n; i++) {
        char nm[32];
        (snprintf)(nm, 32, "m%d-%d", serial, i);
        G.mod[i] = module_register(LSTR(nm));
        order[i] = i;
    }
    for (int i = 0; i < G.n; i++) {
        for (int j = 0; j < i; j++) {
            if (P(30)) G.deps[i] |= 1u << j;
        }
        G.all[i] = G.deps[i];
        for (int j = 0; j < i; j++) if (G.deps[i] >> j & 1) G.all[i] |= G.all[j];
        for (int j = 0; j < i; j++) if (P(7)) G.ctor_req[i] |= 1u << j;
        if (P(6)) G.fail_shut |= 1u << i;
        G.provided[i] = P(30);
    }
    for (int m = 0; m < 4; m++) for (int i = 0; i < G.n; i++) if (P(60)) G.impl[m] |= 1u << i;
    impl_fork = G.impl[0];
    G.method_in_ctor = P(30);
    /* declare in any order, as constructors of the program do */
    for (int i = G.n - 1; i > 0; i--) { int j = U(i + 1); SWAP(uint32_t, order[i], order[j]); }
    for (int k = 0; k < G.n; k++) {
        int i = order[k];
        int first = -1;
        for (int j = 0; j < i; j++) if (G.deps[i] >> j & 1 && P(30)) { first = j; break; }
        module_implement(G.mod[i], ctors[i], dtors[i], first >= 0 ? G.mod[first] : NULL);
        bool down = pt_bool(t);
        for (int jj = 0; jj < i; jj++) {
            int j = down ? i - 1 - jj : jj;
            if (!(G.deps[i] >> j & 1)) continue;
            if (j != first) module_add_dep(G.mod[i], G.mod[j]);
            if (P(5)) module_add_dep(G.mod[i], G.mod[j]);
        }
        if (G.provided[i]) module_provide(G.mod[i], &G.arg[i]);
        PT_CHECK(t, module_get_arg(G.mod[i]) == (G.provided[i] ? &G.arg[i] : NULL), "wrong argument kept");
        if (G.impl[0] >> i & 1) {
            module_implement_method_void(G.mod[i], &vm_v_method, mvs[i]);
            module_implement_method_void(G.mod[i], &at_fork_prepare_method, fps[i]);
            module_implement_method_int(G.mod[i], &at_fork_on_parent_method, fos[i]);
            module_implement_method_void(G.mod[i], &at_fork_on_child_method, fcs[i]);
        }
        if (G.impl[1] >> i & 1) module_implement_method_int(G.mod[i], &vm_i_method, mis[i]);
        if (G.impl[2] >> i & 1) module_implement_method_ptr(G.mod[i], &vm_p_method, mps[i]);
        if (G.impl[3] >> i & 1) module_implement_method_generic(G.mod[i], &vm_g_method, mgs[i]);
        if (pt_verbose(t)) pt_note(t, "module %d: deps %x, constructor requires %x, fails to shut down: %d, methods %d%d%d%d", i, G.deps[i], G.ctor_req[i], G.fail_shut >> i & 1,
                                   G.impl[0] >> i & 1, G.impl[1] >> i & 1, G.impl[2] >> i & 1, G.impl[3] >> i & 1);
    }
}

static void one_fork(pt_t *t)
{
    int p[2];
    if (pipe(p) < 0) return;
    G.nmeth = 0;
    pid_t pid = fork();
    if (pid == 0) {
        char c = 0;
        uint32_t seen = 0;
        /* the checks of the child are made by hand: it must not report */
        for (int k = 0; k < G.nmeth; k++) {
            if (G.meth[k] / 16 == 5) c = 1;
            if (G.meth[k] / 16 != 6) continue;
            int i = G.meth[k] % 16;
            if (seen >> i & 1) c = 2;
            if ((G.all[i] & G.loaded & impl_fork) & ~seen) c = 3;
            seen |= 1u << i;
        }
        if (seen != (impl_fork & G.loaded)) c = 4;
        IGNORE(write(p[1], &c, 1));
        _exit(0);
    }
    close(p[1]);
    if (pid > 0) {
        char c = 9;
        IGNORE(read(p[0], &c, 1));
        waitpid(pid, NULL, 0);
        PT_CHECK(t, c == 0, "fork: wrong calls in the child (%d)", c);
        check_calls(4, impl_fork & G.loaded, false, 0);
        check_calls(5, impl_fork & G.loaded, true, 0);
        check_calls(6, 0, true, 0);
    }
    close(p[0]);
    pt_label(t, "fork");
}

static void history(pt_t *t, bool with_fork)
{
    int steps = 0;
    while (steps++ < 40 && pt_more(t, 14)) {
        int i = U(G.n);
        switch (U(10)) {
          case 0: case 1: case 2: case 3:
            if (pt_verbose(t)) pt_note(t, "require %d", i);
            G.manual[i]++; G.nreq++;
            module_require(G.mod[i]);
            break;
          case 4: case 5: case 6: {
            /* only what the test required */
            int own = G.manual[i];
            for (int k = 0; k < G.n; k++) if (G.loaded >> k & 1 && G.ctor_req[k] >> i & 1) own--;
            if (own <= 0) break;
            if (pt_verbose(t)) pt_note(t, "release %d", i);
            model_release(i);
            module_release(G.mod[i]);
            break;
          }
          case 7: case 8: if (pt_verbose(t)) pt_note(t, "method"); run_methods(U(4)); break;
          default: if (with_fork && P(30)) one_fork(t); break;
        }
        G.busy = 0;
        /* loaded is what constructors and destructors recorded: it must be
         * the modules that are required, and those they need */
        PT_CHECK(t, G.loaded == closure(), "loaded modules are %x, not %x", G.loaded, closure());
        check_states("after a step");
        for (int k = 0; k < G.n; k++) if ((G.loaded >> k & 1) && G.deps[k]) pt_nontrivial(t);
    }
}

static void run_history(pt_t *t)
{
    t_scope;
    setup_graph(t);
    /* collisions */
    {
        module_t *tab[N]; int n = 0; uint32_t set = 0, below = 0;
        for (int i = 0; i < G.n; i++) if (P(30)) { tab[n++] = G.mod[i]; set |= 1u << i; below |= G.all[i]; }
        lstr_t col = LSTR_NULL;
        int r = module_check_no_dependencies(tab, n, &col);
        PT_CHECK(t, (r < 0) == !!(set & below), "module_check_no_dependencies says %d", r);
        if (r < 0) {
            bool found = false;
            for (int i = 0; i < G.n; i++) if ((set & below) >> i & 1 && lstr_equal(col, LSTR(module_get_name(G.mod[i])))) found = true;
            PT_CHECK(t, found, "wrong collision %.*s", col.len, col.s);
        }
        lstr_wipe(&col);
    }
    history(t, true);
    if (P(20)) {
        SB_1k(a); SB_1k(b);
        module_debug_dump_hierarchy(&a, &b);
        for (int i = 0; i < G.n; i++) {
            char l[64];
            (snprintf)(l, sizeof(l), "\nm%d-%d;%d\n", serial, i, (int)(G.loaded >> i & 1));
            PT_CHECK(t, (strstr)(a.data, l), "module %d is not in the dump", i);
            for (int j = 0; j < G.n; j++) {
                (snprintf)(l, sizeof(l), "\nm%d-%d;m%d-%d\n", serial, i, serial, j);
                PT_CHECK(t, !!(strstr)(b.data, l) == !!(G.deps[i] >> j & 1), "wrong dependencies in the dump");
            }
        }
    }
    /* release everything */
    for (int i = 0; i < G.n; i++) {
        for (;;) {
            int own = G.manual[i];
            for (int k = 0; k < G.n; k++) if (G.loaded >> k & 1 && G.ctor_req[k] >> i & 1) own--;
            if (own <= 0) break;
            model_release(i);
            module_release(G.mod[i]);
        }
    }
    PT_CHECK(t, !G.loaded, "modules %x are still loaded once everything is released", G.loaded);
    check_states("at the end");
    run_methods(U(4));
}

static void run_exit(pt_t *t)
{
    setup_graph(t);
    /* forced releases do not know which module required another */
    p_clear(G.ctor_req, N);
    history(t, false);
    G.quiet = true;
    module_destroy_all();
    PT_CHECK(t, !G.loaded, "modules %x are still loaded after the end of the program", G.loaded);
}

void pt_setup(void) { e_set_verbosity(-1); }
const pt_target_t pt_targets[] = {
    { .name = "history", .run = run_history, .quick = 30000, .thorough = 400000, .batch = 60 },
    { .name = "exit", .run = run_exit, .quick = 3000, .thorough = 40000, .batch = 1 },
};
const int pt_targets_len = countof(pt_targets);
