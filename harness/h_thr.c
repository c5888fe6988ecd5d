/* Threads, jobs, queues and event counts, under a deterministic scheduler.
 *
 * The sources of the job library and its lock-free queues are compiled here
 * with their atomic operations replaced by macros that call a scheduling point
 * before and after the operation. All threads are real ones, but only the one
 * that holds the baton runs; who gets it next, and for how long, comes from
 * the tape. futex(2), the clock and the wake-up of the event loop are modelled
 * on that scheduler, so that a schedule is a replayable input, and a lost
 * wake-up a deadlock that is seen at once.
 */
#include <stdatomic.h>
#include <semaphore.h>
#include <pthread.h>
#include <lib-common/core.h>
#include <lib-common/el.h>
#include <lib-common/datetime.h>
#include <lib-common/unix.h>
#include "pt.h"

const char pt_rule[] =
    "jobs: a program of jobs (plain, on serial queues, on the main queue, in "
    "groups that are waited for or notified, with thread data, nested, with "
    "synchronous calls) ran under a generated schedule; non-trivial when at "
    "least 3 jobs ran and 5 preemptions happened. mpsc, spsc, evc, td: "
    "producers, consumers and waiters over the lock-free structures under a "
    "generated schedule; non-trivial with at least 3 preemptions.";

#define U(n)  pt_u(t, (n) - 1)
#define P(n)  pt_p(t, (n), 100)

/* {{{ Scheduler */

#define MAXT 96
enum { S_FREE, S_RUN, S_BLOCK, S_DONE };
static struct {
    pt_t *t;
    bool on;
    int n, cur, left;
    int quantum;
    int victim;                       /* a thread that is stalled, */
    long victim_until;                /* up to that step */
    bool starve;
    long steps, switches, draws, idle, last_progress;
    long progress;
    uint64_t now;                     /* microseconds */
    struct { int st; sem_t sem; void *addr; uint64_t deadline; bool timedout; long order; } th[MAXT];
    long order;
} S;
static __thread int me = -1;

static void s_check_idle(void)
{
    if (S.progress != S.last_progress) { S.last_progress = S.progress; S.idle = 0; }
    if (++S.idle > 3000) PT_FAIL(S.t, "deadlock: every thread waits, and only time-outs run");
}

/* choose the next thread to run, which may be the current one */
static int s_next(void)
{
    pt_t *t = S.t;
    for (;;) {
        int run[MAXT], n = 0;
        for (int i = 1; i <= S.n; i++) {
            int k = (S.cur + i) % S.n;
            if (S.th[k].st == S_RUN) run[n++] = k;
        }
        if (n > 1 && S.victim >= 0) {
            if (S.steps >= S.victim_until) S.victim = -1;
            for (int i = 0; i < n; i++) if (run[i] == S.victim) { run[i] = run[--n]; break; }
        }
        if (n) {
            int k = 0;
            if (S.draws < 4000) {
                S.draws++;
                k = n > 1 ? U(n) : 0;
                S.left = U(S.quantum);
                if (S.starve && n > 1 && S.victim < 0 && U(32) == 31) {
                    S.victim = S.cur;
                    S.victim_until = S.steps + (1 << U(14));
                    if (run[k] == S.victim) k = (k + 1) % n;
                }
            } else {
                S.left = 20;
            }
            return run[k];
        }
        /* nothing can run: the time passes */
        uint64_t best = UINT64_MAX;
        int w = -1;
        for (int i = 0; i < S.n; i++) if (S.th[i].st == S_BLOCK && S.th[i].deadline < best) { best = S.th[i].deadline; w = i; }
        if (w < 0) PT_FAIL(t, "deadlock: every thread waits for ever");
        s_check_idle();
        if (S.now < best) S.now = best;
        S.th[w].st = S_RUN;
        S.th[w].timedout = true;
        S.th[w].addr = NULL;
    }
}

static void s_switch(void)
{
    int from = S.cur, to = s_next();
    if (to == from) return;
    /* a thread that is done does not look at the state after this: the next
     * case may have begun */
    bool done = S.th[from].st == S_DONE;
    S.switches++;
    S.cur = to;
    sem_post(&S.th[to].sem);
    if (!done) while (sem_wait(&S.th[from].sem) < 0) { }
}

/* a point where another thread may run; spin: it has to */
static void sp(bool spin)
{
    if (!S.on || me < 0) return;
    if (++S.steps > 3000000) PT_FAIL(S.t, "the program does not end (livelock)");
    S.now++;
    /* time-outs expire while others run */
    if ((S.steps & 15) == 0) for (int i = 0; i < S.n; i++) {
        if (S.th[i].st == S_BLOCK && S.th[i].deadline <= S.now) { S.th[i].st = S_RUN; S.th[i].timedout = true; S.th[i].addr = NULL; }
    }
    if (spin) { S.left = 0; S.now += 10; }
    if (S.left-- > 0) return;
    s_switch();
}

/* returns false on time-out */
static bool s_block(void *addr, uint64_t deadline)
{
    S.th[me].st = S_BLOCK;
    S.th[me].addr = addr;
    S.th[me].deadline = deadline;
    S.th[me].timedout = false;
    S.th[me].order = S.order++;
    s_switch();
    return !S.th[me].timedout;
}

static int s_wake(void *addr, int n)
{
    int k = 0;
    while (k < n) {
        int w = -1;
        for (int i = 0; i < S.n; i++) if (S.th[i].st == S_BLOCK && S.th[i].addr == addr && (w < 0 || S.th[i].order < S.th[w].order)) w = i;
        if (w < 0) break;
        S.th[w].st = S_RUN; S.th[w].addr = NULL;
        k++;
    }
    return k;
}

static long s_futex(unsigned long addr, int op, unsigned val, unsigned long ts_)
{
    const struct timespec *ts = (const void *)ts_;
    sp(false);
    if (op == 129) return s_wake((void *)addr, val);
    if (*(volatile uint32_t *)addr != val) { errno = EAGAIN; return -1; }
    if (!s_block((void *)addr, ts ? S.now + ts->tv_sec * 1000000 + ts->tv_nsec / 1000 : UINT64_MAX)) { errno = ETIMEDOUT; return -1; }
    return 0;
}

static void s_start(pt_t *t)
{
    p_clear(&S, 1);
    S.t = t;
    S.n = 1;
    S.th[0].st = S_RUN;
    S.victim = -1;
    S.starve = P(50);
    S.quantum = P(50) ? 8 : P(50) ? 40 : 3;
    S.now = 1000000;
    sem_init(&S.th[0].sem, 0, 0);
    me = 0;
    S.on = true;
}

static void s_end(void)
{
    for (;;) {
        int live = 0;
        for (int i = 1; i < S.n; i++) live += S.th[i].st != S_DONE;
        if (!live) break;
        sp(true);
    }
    S.on = false;
    me = -1;
}

struct s_arg { void *(*fn)(void *); void *arg; int id; };
void thr_attach(void); void thr_detach(void);

static void *s_thread(void *p)
{
    struct s_arg a = *(struct s_arg *)p;
    (free)(p);
    while (sem_wait(&S.th[a.id].sem) < 0) { }
    me = a.id;
    thr_attach();
    a.fn(a.arg);
    thr_detach();
    S.th[a.id].st = S_DONE;
    s_switch();
    return NULL;
}

static int s_create(void *(*fn)(void *), void *arg)
{
    struct s_arg *a = (malloc)(sizeof(*a));
    pthread_attr_t at;
    pthread_t p;
    if (S.n >= MAXT) PT_FAIL(S.t, "more than %d threads are created", MAXT);
    *a = (struct s_arg){ fn, arg, S.n };
    sem_init(&S.th[S.n].sem, 0, 0);
    S.th[S.n].st = S_RUN;
    S.n++;
    pthread_attr_init(&at);
    pthread_attr_setdetachstate(&at, PTHREAD_CREATE_DETACHED);
    if (pthread_create(&p, &at, s_thread, a)) abort();
    pthread_attr_destroy(&at);
    sp(false);
    return 0;
}

static int wake_fired;
static void s_wake_fire(void)
{
    sp(false);
    wake_fired = 1;
    s_wake(&wake_fired, 1);
}

static void s_gettv(struct timeval *tv)
{
    *tv = (struct timeval){ .tv_sec = S.now / 1000000, .tv_usec = S.now % 1000000 };
}

/* }}} */
/* {{{ The sources, with the scheduling points */

#undef atomic_load
#undef atomic_load_explicit
#undef atomic_store
#undef atomic_store_explicit
#undef atomic_exchange
#undef atomic_exchange_explicit
#undef atomic_compare_exchange_strong
#undef atomic_compare_exchange_strong_explicit
#undef atomic_compare_exchange_weak
#undef atomic_compare_exchange_weak_explicit
#undef atomic_fetch_add
#undef atomic_fetch_add_explicit
#undef atomic_fetch_sub
#undef atomic_fetch_sub_explicit
#undef atomic_fetch_or
#undef atomic_fetch_and
#undef atomic_thread_fence
#define SP2(e)  ({ sp(false); typeof(e) sp_r = (e); sp(false); sp_r; })
#define SC __ATOMIC_SEQ_CST
#define atomic_load(p)                SP2(__c11_atomic_load(p, SC))
#define atomic_load_explicit(p, o)    SP2(__c11_atomic_load(p, SC))
#define atomic_store(p, v)            do { typeof(__c11_atomic_load(p, SC)) sp_v = (v); sp(false); __c11_atomic_store(p, sp_v, SC); sp(false); } while (0)
#define atomic_store_explicit(p, v, o)  atomic_store(p, v)
#define atomic_exchange(p, v)         SP2(__c11_atomic_exchange(p, v, SC))
#define atomic_exchange_explicit(p, v, o)  atomic_exchange(p, v)
#define atomic_compare_exchange_strong(p, e, v)  SP2(__c11_atomic_compare_exchange_strong(p, e, v, SC, SC))
#define atomic_compare_exchange_strong_explicit(p, e, v, a, b)  atomic_compare_exchange_strong(p, e, v)
#define atomic_compare_exchange_weak(p, e, v)  atomic_compare_exchange_strong(p, e, v)
#define atomic_compare_exchange_weak_explicit(p, e, v, a, b)  atomic_compare_exchange_strong(p, e, v)
#define atomic_fetch_add(p, v)        SP2(__c11_atomic_fetch_add(p, v, SC))
#define atomic_fetch_add_explicit(p, v, o)  atomic_fetch_add(p, v)
#define atomic_fetch_sub(p, v)        SP2(__c11_atomic_fetch_sub(p, v, SC))
#define atomic_fetch_sub_explicit(p, v, o)  atomic_fetch_sub(p, v)
#define atomic_fetch_or(p, v)         SP2(__c11_atomic_fetch_or(p, v, SC))
#define atomic_fetch_and(p, v)        SP2(__c11_atomic_fetch_and(p, v, SC))
#define atomic_thread_fence(o)        sp(false)
#undef cpu_relax
#define cpu_relax()  sp(true)
#undef spin_lock
#undef spin_unlock
#undef spin_trylock
#define spin_trylock(l)  ({ sp(false); bool sp_ok = !*(l); if (sp_ok) *(l) = 1; sp_ok; })
#define spin_lock(l)    do { while (!spin_trylock(l)) sp(true); } while (0)
#define spin_unlock(l)  do { *(l) = 0; sp(false); } while (0)
#define sched_yield()  sp(true)
#undef lp_gettv
#define lp_gettv(tv)  s_gettv(tv)

#include <lib-common/thr.h>

#include <sys/syscall.h>
#include <linux/futex.h>
#define syscall(nr, a, b, c, d, ...)  s_futex(a, b, c, d)
#define pthread_testcancel()  ((void)0)
#define pthread_setcanceltype(a, b)  ((void)(b))
#include "src/core/thr-evc.c"
#undef syscall
#include "src/core/thr-spsc.c"

#define el_wake_fire(w)  s_wake_fire()
#define thr_create(tid, at, fn, arg)  s_create(fn, arg)
#define pthread_sigmask(a, b, c)  ((void)(b))
#include "src/core/thr-job.blk"
#undef _G

/* }}} */
/* {{{ jobs */

#define NJ 400
#define NQ 4            /* serial queues; NQ is the main queue */
typedef struct syn_m { thr_syn_t *syn; int lvl, pending, total; bool waited; } syn_m;
typedef struct job_m {
    thr_job_t j;
    int id, q, lvl, depth, tid, seq, runs, done;
    syn_m *s;
    bool leaf, inl;
} job_m;
typedef struct td_m { thr_td_t td; int users, uses; } td_m;

static struct {
    job_m *jobs[NJ];
    int n, outstanding, max;
    thr_queue_t *q[NQ + 1];
    bool qdead[NQ + 1];
    int inflight[NQ + 1];                  /* pushes under way: no one may destroy the queue */
    int owner[NQ + 1], nest[NQ + 1];       /* who runs the queue */
    int last[NQ + 1][MAXT];                /* per pusher: last job that ran */
    int pushes[NQ + 1][MAXT];
    bool nowait, ending, noblock;
    int tds_new, tds_del;
    int on[MAXT][16], on_n[MAXT];          /* queues that each thread is in */
} M;

static void job_body(job_m *j);
static void blk_run(thr_job_t *job, thr_syn_t *syn)
{
    job_m *j = container_of(job, job_m, j);
    PT_CHECK(S.t, syn == (j->s ? j->s->syn : NULL), "job %d is given another group", j->id);
    job_body(j);
}

static thr_queue_t *queue_of(int q) { return q == NQ ? thr_queue_main_g : q >= 0 ? M.q[q] : NULL; }

/* pick a queue over the level, or -1 for none */
static int pick_q(pt_t *t, int lvl, bool must)
{
    int c[NQ + 1], n = 0;
    for (int i = lvl + 1; i <= NQ; i++) if (i >= 0 && !M.qdead[i]) c[n++] = i;
    if (!n || (!must && P(45))) return -1;
    return c[U(n)];
}

static job_m *job_new(pt_t *t, syn_m *s, int q, int lvl, int depth)
{
    job_m *j = (calloc)(1, sizeof(*j));
    j->j.run = &blk_run;
    j->id = M.n; j->q = q; j->s = s; j->depth = depth;
    j->lvl = lvl > q ? lvl : q;
    j->tid = me;
    M.jobs[M.n++] = j;
    M.outstanding++;
    if (s) { s->pending++; s->total++; }
    if (q >= 0) j->seq = ++M.pushes[q][me];
    return j;
}

static void submit(pt_t *t, syn_m *s, int lvl, int depth, bool leaf)
{
    if (M.n >= M.max) return;
    int q = pick_q(t, lvl, false);
    job_m *j = job_new(t, s, q, lvl, depth);
    thr_syn_t *syn = s ? s->syn : NULL;
    j->leaf = leaf;
    if (q >= 0) M.inflight[q]++;
    pt_note(t, "[%d] job %d on queue %d%s", me, j->id, q, s ? " in group" : "");
    S.progress++;
    if (P(40)) {
        if (q < 0) { if (syn) thr_syn_schedule_b(syn, ^{ job_body(j); }); else thr_schedule_b(^{ job_body(j); }); }
        else { if (syn) thr_syn_queue_b(syn, queue_of(q), ^{ job_body(j); }); else thr_queue_b(queue_of(q), ^{ job_body(j); }); }
    } else {
        if (q < 0 && P(50)) { if (syn) thr_syn_schedule(syn, &j->j); else thr_schedule(&j->j); }
        else if (syn) thr_syn_queue(syn, queue_of(q), &j->j);
        else thr_queue(queue_of(q), &j->j);
    }
    if (q >= 0) M.inflight[q]--;
}

static void call_sync(pt_t *t, int lvl, int depth)
{
    if (M.n >= M.max) return;
    int q = pick_q(t, lvl, true);
    if (q < 0) return;
    job_m *j = job_new(t, NULL, q, lvl, depth);
    pt_note(t, "[%d] synchronous job %d on queue %d", me, j->id, q);
    j->leaf = P(50);
    M.inflight[q]++;
    j->inl = thr_is_on_queue(queue_of(q));     /* then it is called at once */
    S.progress++;
    if (P(40)) {
        thr_queue_sync_b(queue_of(q), ^{ job_body(j); });
    } else {
        /* the group of a synchronous job is private */
        thr_queue_sync_b(queue_of(q), ^{ j->j.run = NULL; job_body(j); });
    }
    M.inflight[q]--;
    PT_CHECK(t, j->done == 1, "thr_queue_sync returns before its job %d is done", j->id);
}

static void call_group(pt_t *t, int lvl, int depth)
{
    thr_syn_t syn;
    syn_m s = { .syn = &syn, .lvl = lvl };
    bool td = P(40);
    __block int nnew = 0, ndel = 0;
    __block int collected = 0, uses = 0;
    int n = 1 + U(4);

    pt_note(t, "[%d] group at level %d%s", me, lvl, td ? " with thread data" : "");
    thr_syn_init(&syn);
    if (td) {
        thr_syn_declare_td(&syn, ^thr_td_t *{ td_m *d = p_new(td_m, 1); nnew++; return &d->td; }, ^(thr_td_t **d) { td_m *m = container_of(*d, td_m, td); ndel++; p_delete(&m); *d = NULL; });
    }
    for (int i = 0; i < n; i++) submit(t, &s, lvl, depth + 1, false);
    if (td) {
        td_m *d = container_of(thr_syn_acquire_td(&syn), td_m, td);
        PT_CHECK(t, d->users++ == 0, "a thread data has two users"); d->uses++;
        sp(false);
        d->users--;
        thr_syn_release_td(&syn, &d->td);
    }
    if (P(25)) {
        int target = s.total ? 1 + U(s.total) : 0;
        syn_m *sp_ = &s;
        thr_syn_wait_until(&syn, ^bool { return sp_->total - sp_->pending >= target; });
        PT_CHECK(t, s.total - s.pending >= target, "thr_syn_wait_until returns too early");
    }
    thr_syn_wait(&syn);
    S.progress++;
    PT_CHECK(t, s.pending == 0, "thr_syn_wait returns while %d jobs of %d are not done", s.pending, s.total);
    if (td) {
        thr_syn_collect_td(&syn, ^(const thr_td_t *d) { const td_m *m = container_of(d, td_m, td); collected++; uses += m->uses; });
        PT_CHECK(t, collected == nnew && uses >= 1, "%d thread data are collected out of %d", collected, nnew);
    }
    thr_syn_wipe(&syn);
    if (td) PT_CHECK(t, ndel == nnew, "%d thread data are deleted out of %d", ndel, nnew);
}

static void call_blocking(pt_t *t)
{
    pt_note(t, "[%d] blocking system call", me);
    thr_enter_blocking_syscall();
    for (int i = 1 + U(6); i > 0; i--) sp(true);
    if (P(20)) S.now += U(8) * 1000000;
    thr_exit_blocking_syscall();
    S.progress++;
}

static void call_for_each(pt_t *t)
{
    int n = P(80) ? U(12) : U(40);
    int *hits = (calloc)(n + 1, sizeof(int));
    pt_note(t, "[%d] for_each %d", me, n);
    thr_for_each(n, ^(size_t pos) {
        PT_CHECK(t, (int)pos < n, "for_each: position %zd of %d", pos, n);
        sp(false);
        hits[pos]++;
        S.progress++;
    });
    for (int i = 0; i < n; i++) PT_CHECK(t, hits[i] == 1, "for_each: position %d is run %d times", i, hits[i]);
    (free)(hits);
}

static void job_body(job_m *j)
{
    pt_t *t = S.t;
    int q = j->q;

    S.progress++;
    PT_CHECK(t, me >= 0, "job %d in an unknown thread", j->id);
    PT_CHECK(t, !j->runs++, "job %d runs twice", j->id);
    if (q >= 0) {
        PT_CHECK(t, !M.nest[q] || (j->inl && M.owner[q] == me), "job %d runs on queue %d while another one does", j->id, q);
        if (!j->inl) {
            PT_CHECK(t, j->seq > M.last[q][j->tid], "queue %d: job %d overtakes another one of the same thread", q, j->id);
            M.last[q][j->tid] = j->seq;
        }
        M.nest[q]++;
        M.owner[q] = me;
        if (q == NQ) PT_CHECK(t, me == 0, "a job of the main queue runs in thread %d", me);
        PT_CHECK(t, thr_is_on_queue(queue_of(q)), "job %d is on queue %d, thr_is_on_queue says no", j->id, q);
    }
    for (int k = 0; k < NQ; k++) if (k != q && M.q[k] && !M.qdead[k] && !(M.nest[k] && M.owner[k] == me) && P(10)) {
        /* between two jobs of the queue that this thread drains, it is still on it */
        M.inflight[k]++;
        bool on = thr_is_on_queue(M.q[k]);
        M.inflight[k]--;
        if (on && M.on_n[me] == 0) PT_FAIL(t, "thr_is_on_queue: not on queue %d", k);
    }
    M.on_n[me]++;
    int ops = j->leaf ? 0 : U(3);
    for (int i = 0; i < 1 + ops; i++) sp(false);
    for (int i = 0; i < ops && j->depth < 5; i++) {
        int op = U(10);
        if (op < 5) { bool same = j->s && P(60); submit(t, same ? j->s : NULL, same ? j->s->lvl : -1, j->depth + 1, P(40)); }
        else if (M.nowait) sp(false);
        else if (op < 7) call_sync(t, j->lvl, j->depth + 1);
        else if (op < 8 && q != NQ) call_group(t, j->lvl, j->depth + 1);
        else if (op < 9 && q != NQ) call_for_each(t);
        else if (j->s && j->s->syn->new_td) {
            td_m *d = container_of(thr_syn_acquire_td(j->s->syn), td_m, td);
            PT_CHECK(t, d->users++ == 0, "a thread data has two users"); d->uses++;
            sp(false); sp(false);
            d->users--;
            thr_syn_release_td(j->s->syn, &d->td);
        }
        else if (P(30) && !M.noblock) call_blocking(t);
    }
    M.on_n[me]--;
    if (q >= 0) {
        PT_CHECK(t, M.nest[q] && M.owner[q] == me, "queue %d was taken while job %d runs", q, j->id);
        M.nest[q]--;
    }
    j->done = 1;
    if (j->s) j->s->pending--;
    if (--M.outstanding == 0 && M.ending) s_wake(&wake_fired, 1);
}

static void main_turn(void)
{
    thr_on_el(NULL, (data_t){ .ptr = NULL });
}

static void run_jobs(pt_t *t)
{
    static const char *par[] = { "2", "3", "4" };
    thr_syn_t nsyn[3];
    syn_m ns[3];
    int nn = 0, notified = 0;
    int *notifiedp = &notified;
    bool flood, hard;

    p_clear(&M, 1);
    wake_fired = 0;
    setenv("THR_MAX_PARALLELISM", par[P(50) ? 0 : U(3)], 1);
    M.nowait = P(15);
    M.noblock = P(60);
    flood = M.nowait && P(40);
    hard = M.nowait && P(50);
    M.max = flood ? NJ : P(70) ? 12 : 40;
    s_start(t);
    MODULE_REQUIRE(thr);
    for (int i = 0; i < NQ; i++) M.q[i] = thr_queue_create();
    for (int n = 1 + U(7); n > 0; n--) {
        int op = U(14);
        if (op < 5) submit(t, NULL, -1, 0, P(20));
        else if (op == 5) { pt_note(t, "main turn"); main_turn(); }
        else if (M.nowait) {
            if (flood && op < 9) {
                pt_note(t, "flood");
                job_m *j = job_new(t, NULL, -1, -1, 0);
                thr_schedule_b(^{ for (int i = 0; i < 300 && M.n < NJ; i++) submit(S.t, NULL, -1, 5, true); job_body(j); });
            } else sp(true);
        }
        else if (op < 8) call_sync(t, -1, 0);
        else if (op < 10) call_group(t, -1, 0);
        else if (op == 10) { if (P(70) || M.noblock) call_for_each(t); else call_blocking(t); }
        else if (op == 11 && nn < 3) {
            syn_m *s = &ns[nn];
            thr_syn_init(&nsyn[nn]);
            *s = (syn_m){ .syn = &nsyn[nn], .lvl = -1 };
            nn++;
            pt_note(t, "notified group");
            for (int i = 1 + U(3); i > 0; i--) submit(t, s, -1, 0, false);
            M.outstanding++;
            int nq = pick_q(t, -1, false);
            if (nq >= 0) M.inflight[nq]++;
            thr_syn_notify_b(s->syn, queue_of(nq), ^{
                if (nq >= 0) M.inflight[nq]--;
                PT_CHECK(S.t, s->pending == 0, "the notification of a group comes while %d of its jobs are not done", s->pending);
                (*notifiedp)++;
                S.progress++;
                if (--M.outstanding == 0 && M.ending) s_wake(&wake_fired, 1);
            });
        }
        else if (op == 12) {
            int q = U(NQ);
            if (M.q[q] && !M.qdead[q] && !M.inflight[q]) {
                bool w = P(50);
                pt_note(t, "destroy queue %d%s", q, w ? " and wait" : "");
                M.qdead[q] = true;
                thr_queue_destroy(M.q[q], w);
            }
        }
        else { for (int i = U(10); i > 0; i--) sp(true); }
    }
    M.ending = true;
    if (!hard) {
        while (M.outstanding) {
            main_turn();
            if (!M.outstanding) break;
            if (wake_fired) wake_fired = 0;
            else s_block(&wake_fired, UINT64_MAX);
        }
        for (int i = 0; i < nn; i++) { thr_syn_wait(&nsyn[i]); thr_syn_wipe(&nsyn[i]); }
        for (int i = 0; i < M.n; i++) PT_CHECK(t, M.jobs[i]->runs == 1 && M.jobs[i]->done, "job %d did not run", i);
        PT_CHECK(t, notified == nn, "%d notifications out of %d", notified, nn);
        for (int i = 0; i < NQ; i++) if (!M.qdead[i]) thr_queue_destroy(M.q[i], P(60));
    }
    else for (int i = 0; i < NQ; i++) if (!M.qdead[i]) {
        while (M.inflight[i]) sp(true);
        M.qdead[i] = true;
        thr_queue_destroy(M.q[i], false);
    }
    MODULE_RELEASE(thr);
    if (hard) for (int i = 0; i < M.n; i++) PT_CHECK(t, M.jobs[i]->runs == 1 && M.jobs[i]->done, "job %d is lost by the shutdown", i);
    s_end();
    for (int i = 0; i < M.n; i++) (free)(M.jobs[i]);
    if (M.n >= 3 && S.switches >= 5) pt_nontrivial(t);
    pt_label(t, flood ? "flood" : hard ? "shutdown with jobs" : M.nowait ? "no waits" : "full");
}

/* }}} */

/* {{{ lock-free queues and event counts */

typedef struct nd_t { mpsc_node_t n; int prod, seq; } nd_t;
static struct {
    mpsc_queue_t q;
    spsc_queue_t sq;
    thr_evc_t ec;
    int nprod, per[4], producing, tokens, got, seen[4], total, mode, tmo;
    int need[8], taken, avail, waiters;
    thr_evc_t tec;
} L;

static void l_got(mpsc_node_t *n, data_t d)
{
    nd_t *x = container_of(n, nd_t, n);
    PT_CHECK(S.t, x->prod >= 0 && x->prod < L.nprod, "a node that nobody pushed");
    PT_CHECK(S.t, x->seq == L.seen[x->prod] + 1, "producer %d: node %d comes after node %d", x->prod, x->seq, L.seen[x->prod]);
    L.seen[x->prod]++;
    L.got++;
    S.progress++;
    if (d.ptr) { x->prod = -7; (free)(x); }
    sp(false);
}
static void l_free(mpsc_node_t *n) { nd_t *x = container_of(n, nd_t, n); x->prod = -9; (free)(x); }

static void *l_producer(void *arg)
{
    int id = (intptr_t)arg;
    for (int i = 1; i <= L.per[id]; i++) {
        if (L.mode == 9) {
            spsc_queue_push(&L.sq, (void *)(uintptr_t)i);
        } else {
            nd_t *x = (malloc)(sizeof(*x));
            memset(x, 0xa5, sizeof(*x));
            x->prod = id; x->seq = i;
            if (mpsc_queue_push(&L.q, &x->n)) {
                if (L.mode == 0) {
                    PT_CHECK(S.t, L.tokens == 0, "the queue becomes non-empty twice without being drained");
                    L.tokens++;
                }
            }
        }
        S.progress++;
    }
    L.producing--;
    return NULL;
}

static void run_mpsc(pt_t *t)
{
    p_clear(&L, 1);
    L.nprod = 1 + U(3);
    for (int i = 0; i < L.nprod; i++) L.total += L.per[i] = 1 + U(6);
    L.mode = U(2);
    pt_note(t, "%d producers, %d nodes, %s", L.nprod, L.total, L.mode ? "pop" : "drain");
    mpsc_queue_init(&L.q);
    L.producing = L.nprod;
    s_start(t);
    PT_CHECK(t, mpsc_queue_looks_empty(&L.q), "a new queue is not empty");
    for (int i = 0; i < L.nprod; i++) s_create(&l_producer, (void *)(intptr_t)i);
    while (L.got < L.total) {
        bool quiet = !L.producing;
        if (L.mode == 0) {
            mpsc_it_t it;
            if (!L.tokens) {
                PT_CHECK(t, !quiet, "%d nodes of %d are left in the queue, and no push said it was empty", L.total - L.got, L.total);
                sp(true);
                continue;
            }
            L.tokens = 0;
            PT_CHECK(t, !mpsc_queue_looks_empty(&L.q), "the queue looks empty after a push");
            mpsc_queue_drain_start(&it, &L.q);
            do {
                mpsc_node_t *n = mpsc_queue_drain_fast(&it, &l_got, (data_t){ .ptr = &L });
                l_got(n, (data_t){ .ptr = NULL });
            } while (!mpsc_queue_drain_end(&it, &l_free));
        } else {
            mpsc_node_t *n = mpsc_queue_pop(&L.q, P(50));
            if (!n) {
                PT_CHECK(t, !quiet, "%d nodes of %d are left in the queue, and pop does not give them", L.total - L.got, L.total);
                sp(true);
                continue;
            }
            l_got(n, (data_t){ .ptr = &L });
        }
    }
    s_end();
    PT_CHECK(t, mpsc_queue_looks_empty(&L.q) && atomic_load(&L.q.tail) == &L.q.head, "the queue is not empty at the end");
    if (L.mode) PT_CHECK(t, !mpsc_queue_pop(&L.q, true), "pop on an empty queue");
    if (S.switches >= 3) pt_nontrivial(t);
}

static void run_spsc(pt_t *t)
{
    uintptr_t next = 1;
    p_clear(&L, 1);
    L.mode = 9;
    L.nprod = L.producing = 1;
    L.total = L.per[0] = 1 + U(20);
    spsc_queue_init(&L.sq, 8);
    s_start(t);
    s_create(&l_producer, (void *)0);
    while ((int)next <= L.total) {
        bool quiet = !L.producing, ok;
        uint64_t v = 0;
        if (P(50)) ok = spsc_queue_pop(&L.sq, &v, 8);
        else ok = (v = (uintptr_t)spsc_queue_pop_ptr(&L.sq)) != 0;
        if (ok) {
            PT_CHECK(t, v == next, "value %d instead of %d", (int)v, (int)next);
            next++;
            S.progress++;
        } else {
            PT_CHECK(t, !quiet, "value %d is lost", (int)next);
            sp(true);
        }
    }
    s_end();
    PT_CHECK(t, !spsc_queue_pop_ptr(&L.sq), "a value more");
    spsc_queue_wipe(&L.sq);
    if (S.switches >= 3) pt_nontrivial(t);
}

static bool l_take(void)
{
    sp(false);
    if (L.avail > 0) { L.avail--; return true; }
    return false;
}

static void *l_waiter(void *arg)
{
    int id = (intptr_t)arg;
    for (int i = 0; i < L.need[id]; ) {
        if (!l_take()) {
            uint64_t key = thr_ec_get(&L.ec);
            if (!l_take()) {
                if (L.tmo) thr_ec_timedwait(&L.ec, key, L.tmo); else thr_ec_wait(&L.ec, key);
                continue;
            }
        }
        i++;
        L.taken++;
        S.progress++;
    }
    return NULL;
}

static void *l_signaler(void *arg)
{
    int n = (intptr_t)arg;
    for (int i = 0; i < n; ) {
        if (L.mode == 1) {
            int k = MIN(2, n - i);
            sp(false);
            L.avail += k;
            i += k;
            thr_ec_broadcast(&L.ec);
        } else {
            sp(false);
            L.avail++;
            i++;
            thr_ec_signal(&L.ec);
        }
    }
    return NULL;
}

static void run_evc(pt_t *t)
{
    int nw = 1 + U(3), ns = 1 + U(2), left = 0;
    p_clear(&L, 1);
    thr_ec_init(&L.ec);
    if (P(30)) atomic_store(&L.ec.key, (1ull << 32) - 1 - U(4));
    L.mode = U(2);
    L.tmo = P(15) ? 1 + (int)U(50) : 0;
    for (int i = 0; i < nw; i++) left += L.need[i] = 1 + U(4);
    int total = left;
    pt_note(t, "%d waiters, %d signalers, %d tokens, mode %d", nw, ns, total, L.mode);
    s_start(t);
    for (int i = 0; i < nw; i++) s_create(&l_waiter, (void *)(intptr_t)i);
    for (int i = 0; i < ns; i++) { int k = i == ns - 1 ? left : (int)U(left + 1); left -= k; s_create(&l_signaler, (void *)(intptr_t)k); }
    if (P(30)) {
        /* nobody signals this one */
        thr_ec_init(&L.tec);
        long ms = 1 + U(1500);
        uint64_t start = S.now, key = thr_ec_get(&L.tec);
        thr_ec_timedwait(&L.tec, key, ms);
        PT_CHECK(t, S.now - start >= (uint64_t)ms * 1000, "a wait of %ld ms lasts %d us", ms, (int)(S.now - start));
        /* one signal, or 2^32 of them */
        if (P(50)) thr_ec_signal(&L.tec); else atomic_fetch_add(&L.tec.key, 1ull << 32);
        thr_ec_wait(&L.tec, key);       /* the key has changed: returns at once, or is a deadlock */
        PT_CHECK(t, atomic_load(&L.tec.waiters) == 0, "%d waiters are left", (int)L.tec.waiters);
    }
    s_end();
    PT_CHECK(t, L.taken == total && L.avail == 0, "%d tokens taken of %d", L.taken, total);
    PT_CHECK(t, atomic_load(&L.ec.waiters) == 0, "%d waiters are left", (int)L.ec.waiters);
    thr_ec_wipe(&L.ec);
    if (S.switches >= 3) pt_nontrivial(t);
}

/* }}} */

static void child_init(void)
{
    MODULE_REQUIRE(el);
    MODULE_REQUIRE(thr_hooks);
}

void pt_setup(void)
{
    e_set_verbosity(-1);
}

const pt_target_t pt_targets[] = {
    { .name = "jobs", .run = run_jobs, .quick = 40000, .thorough = 600000, .cov_pct = 0, .batch = 50, .child_init = child_init },
    { .name = "mpsc", .run = run_mpsc, .quick = 100000, .thorough = 3000000, .cov_pct = 0, .batch = 200, .child_init = child_init },
    { .name = "spsc", .run = run_spsc, .quick = 50000, .thorough = 1500000, .cov_pct = 0, .batch = 200, .child_init = child_init },
    { .name = "evc", .run = run_evc, .quick = 80000, .thorough = 3000000, .cov_pct = 0, .batch = 200, .child_init = child_init },
};
const int pt_targets_len = 4;
