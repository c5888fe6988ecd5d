/* The paged store: histories of allocations, snapshots and crashes. */
#include <lib-common/core.h>
#include <lib-common/container-qvector.h>
#include <lib-common/qps.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <dirent.h>
#include "pt.h"
#undef fork

const char pt_rule[] =
    "store: up to 5 lives of a process on one store: page and handle "
    "allocations, reallocations, frees, writes, garbage collections, "
    "snapshots (work goes on during them), ended by a close, an exit, or a "
    "stop at any file-system call of the creation, the opening or the "
    "snapshot, with or without the loss of what was not synchronised; each "
    "life starts by checking the whole content against the last snapshot. "
    "non-trivial: at least two lives with a snapshot of 8 or more objects";

/* {{{ script (generated by the parent) and shared state */

enum {
    OP_MAP, OP_REMAP, OP_UNMAP, OP_WPAGE, OP_ALLOC, OP_REALLOC, OP_FREE,
    OP_WHANDLE, OP_SNAP, OP_WAIT, OP_GC, OP_CHECK,
};
typedef struct op_t {
    uint8_t  op;
    uint32_t a, b;
} op_t;

enum { END_CLOSE, END_EXIT, END_SNAP_CRASH, END_SNAP_ORPHAN, END_OPEN_CRASH };
static const char * const end_s[] = {
    "close", "exit", "stop in a snapshot", "exit during a snapshot",
    "stop in the opening",
};
typedef struct life_t {
    int  from, to;             /* operations */
    int  end;
    int  crash_at;             /* number of the file-system call */
    bool powerloss;
} life_t;

#define MAXOPS   400
#define MAXLIVES 5
static op_t   ops[MAXOPS];
static int    nops;
static life_t lives[MAXLIVES];
static int    nlives;

typedef struct obj_t {
    bool     is_pg;
    uint32_t id;
    uint32_t size;            /* pages or bytes */
    uint32_t seed;
} obj_t;
#define MAXOBJ  120
typedef struct model_t {
    uint32_t seq;
    uint32_t dlen;
    int      n;
    obj_t    o[MAXOBJ];
} model_t;

static struct shm_t {
    model_t committed, pending;
    bool    has_pending;
    bool    created;
    /* crash injection */
    int     armed;            /* 0: no, 1: main process, 2: snapshot process */
    bool    snap_wait;        /* the snapshot process waits to be orphan */
    bool    powerloss;
    int     countdown;
    int     calls;
    bool    crashed;
    pid_t   main_pid;
    char    msg[600];
    uint32_t seeds;
} *S;

/* }}} */
/* {{{ stops in file-system calls */

#define MAXF 64
static struct { int fd; ino_t ino; bool dirty; } files[MAXF];
static int nfiles;
static struct { char src[64], dst[64]; bool link; } dirops[MAXF];
static int ndirops;
static int dfd_g = -1;

static bool armed(void)
{
    return S && S->armed && (S->armed == 1) == (getpid() == S->main_pid);
}

static void crash(void)
{
    S->crashed = true;
    if (getpid() != S->main_pid) {
        kill(S->main_pid, SIGKILL);
    }
    if (S->powerloss) {
        for (int i = ndirops - 1; i >= 0; i--) {
            if (strcmp(dirops[i].dst, "meta.qps")) {
                if (dirops[i].link) {
                    (unlinkat)(dfd_g, dirops[i].dst, 0);
                } else {
                    syscall(SYS_renameat2, dfd_g, dirops[i].dst, dfd_g,
                            dirops[i].src, 0);
                }
            }
        }
        for (int i = 0; i < nfiles; i++) {
            if (files[i].dirty) {
                syscall(SYS_ftruncate, files[i].fd, 0L);
            }
        }
    }
    _exit(0);
}

static bool step(void)
{
    if (!armed()) {
        return false;
    }
    S->calls++;
    return S->countdown-- == 0;
}
#define STEP()  do { if (step()) crash(); } while (0)

static ino_t ino_of(int fd)
{
    struct stat st;
    return fstat(fd, &st) ? 0 : st.st_ino;
}

int __real_openat(int, const char *, int, ...);
int __wrap_openat(int dfd, const char *p, int flags, int mode)
{
    int fd;

    STEP();
    fd = __real_openat(dfd, p, flags, mode);
    if (fd >= 0 && (flags & O_CREAT) && armed() && nfiles < MAXF
    &&  !strstr(p, "lock"))
    {
        files[nfiles].fd = dup(fd);
        files[nfiles].ino = ino_of(fd);
        files[nfiles].dirty = true;
        nfiles++;
        dfd_g = dfd;
    }
    return fd;
}
int __real_fdatasync(int);
int __wrap_fdatasync(int fd)
{
    STEP();
    if (armed()) {
        ino_t ino = ino_of(fd);
        if (fd == dfd_g) {
            ndirops = 0;
        }
        for (int i = 0; i < nfiles; i++) {
            if (files[i].ino == ino) {
                files[i].dirty = false;
            }
        }
        STEP();
        return 0;    /* no need to wait for the disk */
    }
    return 0;
}
int __wrap_fsync(int fd)
{
    return __wrap_fdatasync(fd);
}
int __real_renameat(int, const char *, int, const char *);
int __wrap_renameat(int d1, const char *a, int d2, const char *b)
{
    int r;

    STEP();
    r = __real_renameat(d1, a, d2, b);
    if (armed() && ndirops < MAXF) {
        dfd_g = d1;
        (snprintf)(dirops[ndirops].src, 64, "%s", a);
        (snprintf)(dirops[ndirops].dst, 64, "%s", b);
        dirops[ndirops++].link = false;
    }
    STEP();
    return r;
}
int __real_linkat(int, const char *, int, const char *, int);
int __wrap_linkat(int d1, const char *a, int d2, const char *b, int fl)
{
    int r;

    STEP();
    r = __real_linkat(d1, a, d2, b, fl);
    if (armed() && ndirops < MAXF) {
        dfd_g = d1;
        (snprintf)(dirops[ndirops].dst, 64, "%s", b);
        dirops[ndirops++].link = true;
    }
    return r;
}
int __real_unlinkat(int, const char *, int);
int __wrap_unlinkat(int d, const char *p, int fl)
{
    STEP();
    return __real_unlinkat(d, p, fl);
}
ssize_t __real_pwrite(int, const void *, size_t, off_t);
ssize_t __wrap_pwrite(int fd, const void *b, size_t n, off_t o)
{
    if (step()) {
        if (n > 1) {
            __real_pwrite(fd, b, n / 2, o);
        }
        crash();
    }
    return __real_pwrite(fd, b, n, o);
}
ssize_t __wrap_pwrite64(int fd, const void *b, size_t n, off_t o)
{
    return __wrap_pwrite(fd, b, n, o);
}
ssize_t __real_writev(int, const struct iovec *, int);
ssize_t __wrap_writev(int fd, const struct iovec *v, int n)
{
    if (step()) {
        struct iovec w = v[0];
        w.iov_len /= 2;
        __real_writev(fd, &w, 1);
        crash();
    }
    return __real_writev(fd, v, n);
}
int __real_ftruncate(int, off_t);
int __wrap_ftruncate(int fd, off_t n)
{
    STEP();
    return __real_ftruncate(fd, n);
}
int __wrap_ftruncate64(int fd, off_t n)
{
    return __wrap_ftruncate(fd, n);
}

/* }}} */
/* {{{ one life */

static qps_t *Q;
static model_t M;
static pt_t *T;
static char dir_g[PATH_MAX];

#define CFAIL(...) \
    do {                                                                     \
        (snprintf)(S->msg, sizeof(S->msg), __VA_ARGS__);                     \
        _exit(99);                                                           \
    } while (0)
#define CCHECK(c, ...)  do { if (!(c)) CFAIL(__VA_ARGS__); } while (0)

static inline uint64_t pat(uint32_t seed, uint32_t i)
{
    uint64_t x = (uint64_t)seed * 0x9e3779b97f4a7c15ull + i;
    return seed % 3 == 0 ? seed : x * 0xff51afd7ed558ccdull;
}
static size_t o_size(const obj_t *o)
{
    return o->is_pg ? o->size * QPS_PAGE_SIZE : o->size;
}
static void o_fill(const obj_t *o, uint8_t *p, size_t from)
{
    size_t n = o_size(o);

    for (size_t i = from; i < n; i++) {
        p[i] = pat(o->seed, i / 8) >> (i % 8 * 8);
    }
}
static void o_cmp(const obj_t *o, const uint8_t *p, size_t n, const char *what)
{
    size_t i = 0;

    for (; i + 8 <= n; i += 8) {
        uint64_t x;
        memcpy(&x, p + i, 8);
        if (x != pat(o->seed, i / 8)) {
            break;
        }
    }
    for (; i < n; i++) {
        CCHECK(p[i] == (uint8_t)(pat(o->seed, i / 8) >> (i % 8 * 8)),
               "%s: byte %zu of the %s %u of size %u changed", what, i,
               o->is_pg ? "block of pages" : "object", o->id, o->size);
    }
}

static const uint8_t *o_ptr(const obj_t *o)
{
    return o->is_pg ? qps_pg_deref(Q, o->id) : qps_handle_deref(Q, o->id);
}

static void check_content(const char *what)
{
    for (int i = 0; i < M.n; i++) {
        o_cmp(&M.o[i], o_ptr(&M.o[i]), o_size(&M.o[i]), what);
    }
}

static void check_store(const char *what)
{
    qps_roots_t roots;

    check_content(what);
    CCHECK(__qps_check_maps(Q, false) >= 0, "%s: inconsistent maps", what);
    qps_roots_init(&roots);
    for (int i = 0; i < M.n; i++) {
        if (M.o[i].is_pg) {
            qv_append(&roots.pages, M.o[i].id);
        } else {
            qv_append(&roots.handles, M.o[i].id);
        }
    }
    CCHECK(qps_check_leaks(Q, &roots) >= 0, "%s: leaks", what);
    qps_roots_wipe(&roots);
    for (int i = 0; i < M.n; i++) {
        const uint8_t *p = o_ptr(&M.o[i]);
        size_t n = o_size(&M.o[i]);

        for (int j = 0; j < i; j++) {
            const uint8_t *q = o_ptr(&M.o[j]);
            CCHECK(p + n <= q || q + o_size(&M.o[j]) <= p,
                   "%s: objects overlap", what);
        }
        if (M.o[i].is_pg) {
            CCHECK(qps_pg_sizeof(Q, M.o[i].id) >= M.o[i].size, "%s: page size",
                   what);
        } else {
            CCHECK(qps_sizeof(Q, p) >= M.o[i].size, "%s: size of an object",
                   what);
        }
    }
}

static void mkdata(uint32_t seq, uint8_t *d, uint32_t dlen)
{
    for (uint32_t i = 0; i < dlen; i++) {
        d[i] = seq % 2 ? pat(seq * 3 + 1, i / 8) >> (i % 8 * 8) : i / 50;
    }
}

static int pick(bool pg, uint32_t r)
{
    int c[MAXOBJ], n = 0;

    for (int i = 0; i < M.n; i++) {
        if (M.o[i].is_pg == pg) {
            c[n++] = i;
        }
    }
    return n ? c[r % n] : -1;
}

static void life_snapshot(uint32_t dlen)
{
    static uint8_t data[70000];
    uint32_t seq = M.seq + 1;

    mkdata(seq, data + 8, dlen);
    memcpy(data, &seq, 4);
    memcpy(data + 4, &dlen, 4);
    S->pending = M;
    S->pending.seq = seq;
    S->pending.dlen = dlen;
    S->has_pending = true;
    M.seq = seq;
    qps_snapshot(Q, data, dlen + 8, ^(uint32_t gen) { });
}
static void life_wait(void)
{
    qps_snapshot_wait(Q);
    CCHECK(!Q->snapshotting, "still snapshotting");
    if (S->has_pending) {
        S->committed = S->pending;
        S->has_pending = false;
    }
}

static void run_op(const op_t *op)
{
    int k;
    obj_t *o;
    uint8_t *p;
    uint32_t old;

    switch (op->op) {
      case OP_MAP:
        if (M.n >= MAXOBJ) {
            break;
        }
        o = &M.o[M.n++];
        *o = (obj_t){ true, qps_pg_map(Q, op->a), op->a, S->seeds++ };
        CCHECK(o->id, "map");
        p = qps_pg_deref(Q, o->id);
        o_fill(o, p, 0);
        break;
      case OP_REMAP:
        if ((k = pick(true, op->b)) >= 0) {
            o = &M.o[k];
            old = o->size < op->a ? o->size : op->a;
            o->id = qps_pg_remap(Q, o->id, op->a);
            p = qps_pg_deref(Q, o->id);
            o_cmp(o, p, old * QPS_PAGE_SIZE, "remap");
            o->size = op->a;
            o_fill(o, p, old * QPS_PAGE_SIZE);
        }
        break;
      case OP_UNMAP:
        if ((k = pick(true, op->b)) >= 0) {
            qps_pg_unmap(Q, M.o[k].id);
            M.o[k] = M.o[--M.n];
        }
        break;
      case OP_WPAGE:
        if ((k = pick(true, op->b)) >= 0) {
            o = &M.o[k];
            o->seed = S->seeds++;
            p = qps_pg_deref(Q, o->id);
            if (op->a & 1) {
                qps_pg_zero(Q, o->id, o->size);
                for (uint32_t i = 0; i < o->size * QPS_PAGE_SIZE; i += 8) {
                    CCHECK(*(uint64_t *)(p + i) == 0, "pg_zero");
                }
            }
            o_fill(o, p, 0);
        }
        break;
      case OP_ALLOC:
        if (M.n >= MAXOBJ) {
            break;
        }
        o = &M.o[M.n++];
        *o = (obj_t){ false, 0, op->a, S->seeds++ };
        p = qps_alloc(Q, &o->id, op->a);
        CCHECK(p && o->id && p == qps_handle_deref(Q, o->id), "alloc");
        o_fill(o, p, 0);
        break;
      case OP_REALLOC:
        if ((k = pick(false, op->b)) >= 0) {
            o = &M.o[k];
            old = o->size < op->a ? o->size : op->a;
            p = qps_realloc(Q, o->id, op->a);
            CCHECK(p && p == qps_handle_deref(Q, o->id), "realloc");
            p = qps_handle_w_deref(Q, o->id);
            o_cmp(o, p, old, "realloc");
            o->size = op->a;
            o_fill(o, p, old);
        }
        break;
      case OP_FREE:
        if ((k = pick(false, op->b)) >= 0) {
            qps_free(Q, M.o[k].id);
            M.o[k] = M.o[--M.n];
        }
        break;
      case OP_WHANDLE:
        if ((k = pick(false, op->b)) >= 0) {
            o = &M.o[k];
            p = qps_handle_w_deref(Q, o->id);
            o_cmp(o, p, o->size, "write access");
            o->seed = S->seeds++;
            if (op->a & 1) {
                qps_zero(Q, p, o->size);
                for (uint32_t i = 0; i < o->size; i++) {
                    CCHECK(!p[i], "zero");
                }
            }
            o_fill(o, p, 0);
        }
        break;
      case OP_SNAP:
        life_wait();
        life_snapshot(op->a);
        break;
      case OP_WAIT:
        life_wait();
        break;
      case OP_GC:
        if (!Q->snapshotting) {
            qps_gc_run(Q);
            check_content("after a garbage collection");
        }
        break;
      case OP_CHECK:
        if (!Q->snapshotting) {
            check_store("in the life");
        } else {
            check_content("in the life");
        }
        break;
    }
}

__attribute__((noreturn))
static void life(const life_t *l)
{
    S->main_pid = getpid();
    if (pt_verbose(T)) {
        /* keep the messages */
    } else {
        freopen("/dev/null", "w", stderr);
    }
    MODULE_REQUIRE(qps);
    S->crashed = false;
    S->calls = 0;
    if (l->end == END_OPEN_CRASH) {
        S->armed = 1;
        S->countdown = l->crash_at;
        S->powerloss = l->powerloss;
    }
    if (!qps_exists(dir_g)) {
        uint8_t data[8] = { 0 };

        CCHECK(!S->created, "the store is lost");
        Q = qps_create(dir_g, "vt", 0755, data, 8);
        CCHECK(Q, "the store cannot be created");
        S->created = true;
        p_clear(&S->committed, 1);
        M = S->committed;
    } else {
        static uint8_t data[70000];
        SB_1k(priv);
        uint32_t seq = 0, dlen = 0;

        Q = qps_open(dir_g, "vt", &priv);
        CCHECK(Q, "the store cannot be opened");
        S->created = true;
        if (priv.len >= 8) {
            memcpy(&seq, priv.data, 4);
            memcpy(&dlen, priv.data + 4, 4);
        }
        CCHECK(priv.len == (int)dlen + 8, "private data: %d bytes", priv.len);
        if (S->has_pending && seq == S->pending.seq) {
            S->committed = S->pending;
        }
        S->has_pending = false;
        CCHECK(seq == S->committed.seq, "snapshot %u found instead of %u", seq,
               S->committed.seq);
        M = S->committed;
        CCHECK(dlen == M.dlen, "length of the private data");
        if (seq) {
            mkdata(seq, data, dlen);
            CCHECK(!memcmp(data, priv.data + 8, dlen), "private data");
        }
        check_store("after the opening");
    }
    S->armed = 0;

    for (int i = l->from; i < l->to; i++) {
        run_op(&ops[i]);
    }
    check_content("at the end of the life");
    switch (l->end) {
      case END_OPEN_CRASH:
      case END_EXIT:
        if (Q->snapshotting) {
            life_wait();
        }
        _exit(0);
      case END_CLOSE:
        life_wait();
        check_store("before the close");
        qps_close(&Q);
        CCHECK(!Q, "close");
        MODULE_RELEASE(qps);
        _exit(0);
      case END_SNAP_CRASH:
        life_wait();
        S->armed = 2;
        S->countdown = l->crash_at;
        S->powerloss = l->powerloss;
        life_snapshot(100);
        S->armed = 2;
        life_wait();
        S->armed = 0;
        check_content("after the last snapshot");
        _exit(0);
      case END_SNAP_ORPHAN:
        life_wait();
        life_snapshot(10);
        kill(getpid(), SIGKILL);
        _exit(0);
    }
    _exit(0);
}

/* }}} */

static uint32_t gen_pages(pt_t *t)
{
    return pt_p(t, 1, 8) ? 1 + pt_u(t, 60) : 1 + pt_u(t, 5);
}
static uint32_t gen_bytes(pt_t *t)
{
    switch (pt_u(t, 7)) {
      case 0: return 1 + pt_u(t, 30);
      case 1: return 65500 + pt_u(t, 80);
      case 2: return 4000 + pt_u(t, 300);
      case 3: return 1 + pt_u(t, 90000);
      case 4: return 8 * (1 + pt_u(t, 100));
      default: return 1 + pt_u(t, 1000);
    }
}

static void clean_dir(void)
{
    char cmd[PATH_MAX + 64];
    (snprintf)(cmd, sizeof(cmd), "rm -rf '%s'/qps-*", pt_tmpdir());
    if (system(cmd)) {
        abort();
    }
}

static void run_store(pt_t *t)
{
    static const char * const op_s[] = {
        "map", "remap", "unmap", "write pages", "alloc", "realloc", "free",
        "write object", "snapshot", "wait", "gc", "check",
    };
    int snaps = 0, big = 0;

    T = t;
    nops = 0;
    nlives = 0;
    do {
        life_t *l = &lives[nlives++];

        l->from = nops;
        while (nops < MAXOPS - 1 && pt_more(t, 25)) {
            op_t *o = &ops[nops++];

            o->b = pt_u(t, 1000);
            switch (pt_u(t, 15)) {
              case 0: case 1: o->op = OP_MAP; o->a = gen_pages(t); break;
              case 2: o->op = OP_REMAP; o->a = gen_pages(t); break;
              case 3: o->op = OP_UNMAP; break;
              case 4: o->op = OP_WPAGE; o->a = pt_u(t, 3); break;
              case 5: case 6: case 7:
                o->op = OP_ALLOC; o->a = gen_bytes(t); break;
              case 8: o->op = OP_REALLOC; o->a = gen_bytes(t); break;
              case 9: o->op = OP_FREE; break;
              case 10: o->op = OP_WHANDLE; o->a = pt_u(t, 3); break;
              case 11: case 12:
                o->op = OP_SNAP;
                o->a = pt_p(t, 1, 4) ? pt_u(t, 60000) : pt_u(t, 50);
                snaps++;
                break;
              case 13: o->op = OP_WAIT; break;
              case 14: o->op = OP_GC; break;
              case 15: o->op = OP_CHECK; break;
            }
        }
        l->to = nops;
        l->end = pt_u(t, 4);
        l->crash_at = pt_u(t, l->end == END_OPEN_CRASH ? 25 : 45);
        l->powerloss = pt_bool(t);
    } while (nlives < MAXLIVES && pt_p(t, 4, 5));

    if (!S) {
        S = mmap(NULL, sizeof(*S), PROT_READ | PROT_WRITE,
                 MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        prctl(PR_SET_CHILD_SUBREAPER, 1, 0, 0, 0);
    }
    memset(S, 0, sizeof(*S));
    S->seeds = 1;
    clean_dir();
    (snprintf)(dir_g, sizeof(dir_g), "%s/qps-%d", pt_tmpdir(), getpid());
    mkdir(dir_g, 0755);

    for (int i = 0; i <= nlives; i++) {
        /* a last life only checks the content */
        static const life_t last = { .end = END_CLOSE };
        const life_t *l = i < nlives ? &lives[i] : &last;
        int st, status = -1;
        pid_t pid, p;

        pt_note(t, "life %d%s", i, i < nlives ? "" : " (checks only)");
        for (int j = l->from; j < l->to; j++) {
            pt_note(t, "  %s %u [%u]", op_s[ops[j].op], ops[j].a, ops[j].b);
        }
        pt_note(t, "  end: %s (call %d%s)", end_s[l->end], l->crash_at,
                l->powerloss ? ", power loss" : "");
        fflush(NULL);
        S->armed = 0;
        pid = fork();
        if (pid == 0) {
            life(l);
        }
        /* its orphans too */
        while ((p = waitpid(-1, &st, 0)) > 0 || errno == EINTR) {
            if (p == pid) {
                status = st;
            }
        }
        if (S->msg[0]) {
            PT_FAIL(t, "life %d: %s", i, S->msg);
        }
        if (S->crashed) {
            pt_label(t, "stopped in a file-system call");
            if (S->powerloss) {
                pt_label(t, "stopped with power loss");
            }
            continue;
        }
        if (l->end == END_SNAP_ORPHAN && WIFSIGNALED(status)
        &&  WTERMSIG(status) == SIGKILL)
        {
            pt_label(t, "orphan snapshot");
            continue;
        }
        PT_CHECK(t, WIFEXITED(status) && WEXITSTATUS(status) == 0,
                 "life %d ended with status %x", i, status);
        if (S->committed.n >= 8) {
            big++;
        }
    }
    if (big >= 2) {
        pt_nontrivial(t);
    }
}

void pt_setup(void)
{
}

const pt_target_t pt_targets[] = {
    { "store", run_store, 1500, 30000, 10, 50, NULL, 60 },
};
const int pt_targets_len = countof(pt_targets);
