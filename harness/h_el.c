/* The event loop, with a virtual clock.
 *
 * clock_gettime, epoll_wait, poll and waitpid are interposed: the time only
 * passes when the loop sleeps or when a callback is slow, and what happens
 * while the loop sleeps (bytes on a socket, signals, deaths of children,
 * wake-ups) is generated. Everything that is registered is followed by a model
 * that knows what has to be called, when, and with what.
 */
#include <sys/epoll.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <poll.h>
#include <time.h>
#include <lib-common/core.h>
#include <lib-common/el.h>
#include <lib-common/unix.h>
#include "pt.h"

#define EL_LOOP_TIMEOUT  59000

const char pt_rule[] =
    "a history of registrations, changes, unregistrations (from outside or "
    "from callbacks) and turns of the loop, with events of the outside world; "
    "non-trivial when at least 5 callbacks were called, of two kinds or more.";

#define U(n)  pt_u(t, (n) - 1)
#define P(n)  pt_p(t, (n), 100)

/* {{{ Model */

enum { TIMER, FD, PROXY, SIGNAL, BEFORE, CHILD, WAKE, BLOCKER, NKIND };
static const char *kname[] = { "timer", "fd", "proxy", "signal", "before", "child", "wake", "blocker" };

typedef struct obj {
    int kind, id;
    el_t el;
    bool alive, ref, blk, exp, running;
    int exp_turn;                 /* it must be called by the end of a later turn */
    int wiped, born;
    /* timer, or activity timer of an fd */
    uint64_t expiry, key; int64_t next, repeat; int flags; bool updated, armed;
    /* fd */
    int peer, fd; bool own; short mask, rev; int prio, ready_turn; bool marked, maybe, rexp; int mark_turn, arm_turn, mask_turn; int act; short act_mask;
    int unread; bool hup;
    /* proxy */
    short avail, wanted; bool touched;
    int signo, credits; bool strict, last_in;
    int pid, status; bool dead, reaped, pend;
    bool fired;
    int turn_fires;
} obj;

#define NO 64
static struct {
    pt_t *t;
    bool on, slow, unloop, looping;
    obj o[NO];
    int n, turn, depth, active;
    uint64_t now, until;
    int T;                         /* time-out of the turn */
    int top;
    bool raised_now, hint, nested, dirty, drift, hi;
    long seq, raised[32], sigpend;
    int waits, idle_waits, fires, kinds, ops;
    int nextpid;
} M;

static bool timed(obj *o) { return o->alive && (o->kind == TIMER || (o->kind == FD && o->act)); }
static int tolerance(obj *o, int64_t next)
{
    return o->kind == TIMER && (o->flags & EL_TIMER_LOWRES) && next >= 500 ? (int)MIN(next / 10, EL_LOOP_TIMEOUT) : 0;
}
static void arm(obj *o, int64_t next)
{
    o->expiry = M.now + next;
    o->key = o->expiry + tolerance(o, next);
    o->arm_turn = M.turn;
    if (o->kind == TIMER) { o->exp = true; o->exp_turn = M.turn; }
}
static uint64_t min_key(void)
{
    uint64_t k = UINT64_MAX;
    for (int i = 0; i < M.n; i++) if (timed(&M.o[i]) && M.o[i].key < k) k = M.o[i].key;
    return k;
}
static void must(obj *o) { o->exp = true; o->exp_turn = M.turn; }
static short ready(obj *o)
{
    return (o->unread || o->hup ? POLLIN : 0) | POLLOUT | (o->hup ? POLLHUP : 0);
}

static void act(pt_t *t, obj *self);
static void turn(pt_t *t, int T);

static void called(obj *o, el_t el)
{
    pt_t *t = M.t;
    PT_CHECK(t, o->alive, "%s %d is called after its end", kname[o->kind], o->id);
    PT_CHECK(t, el == o->el || !o->el, "%s %d is called with another event", kname[o->kind], o->id);
    pt_note(t, "  call %s %d at %d", kname[o->kind], o->id, (int)M.now);
    M.fires++; M.kinds |= 1 << o->kind;
    o->turn_fires++;
}
static void body(obj *o)
{
    pt_t *t = M.t;
    bool was = o->running;
    o->running = true;
    if (M.slow && !M.looping && P(30)) { M.now += P(80) ? U(20) : U(3000); M.drift = true; }
    for (int i = U(3); i > 0 && M.ops < 200; i--) act(t, o);
    o->running = was;
}
static void gone(obj *o)
{
    o->alive = false; o->exp = false;
    if (o->ref) M.active--;
}

static void timer_fired(obj *o, el_t el)
{
    pt_t *t = M.t;
    called(o, el);
    PT_CHECK(t, o->expiry <= M.now, "timer %d is called at %d, %d ms early", o->id, (int)M.now, (int)(o->expiry - M.now));
    for (int i = 0; i < M.n; i++) {
        obj *p = &M.o[i];
        if (timed(p) && p != o) PT_CHECK(t, p->key >= o->key, "timer %d (due %d) is called before timer %d (due %d)", o->id, (int)o->key, p->id, (int)p->key);
    }
    o->exp = false; o->updated = false;
    body(o);
    if (!o->alive) return;
    if (o->repeat > 0) {
        o->expiry += o->repeat;
        if (!(o->flags & EL_TIMER_NOMISS) && o->expiry < M.until) o->expiry += ROUND_UP(M.until - o->expiry, (uint64_t)o->repeat);
        o->key = o->expiry + tolerance(o, o->repeat);
        must(o);
    } else if (!o->updated) {
        gone(o);
    }
}

static int fd_fired(obj *o, el_t el, int fd, short evs)
{
    pt_t *t = M.t;
    called(o, el);
    PT_CHECK(t, fd == el_fd_get_fd(el), "fd %d: called with descriptor %d", o->id, fd);
    if (evs == EL_EVENTS_NOACT) {
        PT_CHECK(t, o->act && o->expiry <= M.now, "fd %d: inactivity is told %s", o->id, o->act ? "early" : "but not watched");
        for (int i = 0; i < M.n; i++) {
            obj *p = &M.o[i];
            if (timed(p) && p != o) PT_CHECK(t, p->key >= o->key, "inactivity of %d is told before timer %d", o->id, p->id);
        }
        o->act = 0;
    } else {
        if (M.nested && (o->mask || o->hup || o->mask_turn == M.turn || M.looping)) {
            /* from the mark, or from an older poll */
            PT_CHECK(t, evs, "fd %d: called with no event", o->id);
            if (o->marked) { o->marked = false; o->maybe = true; }
            o->rev = 0;
        } else if (o->marked && o->rev == 0) {
            PT_CHECK(t, evs == POLLIN, "fd %d marked: called with %x", o->id, evs);
            o->marked = false;
        } else {
            if (o->maybe && evs == POLLIN) {
                o->maybe = false;
            } else if (!M.nested) {
                PT_CHECK(t, o->ready_turn == M.turn && o->rev, "fd %d is called but not ready", o->id);
                PT_CHECK(t, evs == o->rev, "fd %d: called with %x, epoll gave %x", o->id, evs, o->rev);
                if (!M.dirty) PT_CHECK(t, o->prio >= M.top, "fd %d (priority %d) is called though descriptors of priority %d are ready", o->id, o->prio, M.top);
            } else PT_CHECK(t, evs, "fd %d: called with no event", o->id);
            o->rev = 0;
        }
        if (!o->rev) o->rexp = false;
        if (o->act && (evs & o->act_mask)) arm(o, o->act);
        if (!o->alive) return 0;
        if ((evs & POLLIN) && P(70)) {
            char buf[64];
            ssize_t r = read(fd, buf, P(80) ? 64 : 1 + U(4));
            if (r > 0) o->unread -= r;
        }
    }
    body(o);
    return 0;
}

static void proxy_fired(obj *o, el_t el, short evs)
{
    pt_t *t = M.t;
    called(o, el);
    PT_CHECK(t, (evs & 0xff) == (o->avail & 0xff) && (o->avail & o->wanted), "proxy %d: called with %x, available %x, wanted %x", o->id, evs, o->avail, o->wanted);
    o->exp = false;
    body(o);
    if (o->alive && (o->avail & o->wanted)) must(o);
}
static void sig_fired(obj *o, el_t el, int signo)
{
    pt_t *t = M.t;
    called(o, el);
    PT_CHECK(t, signo == o->signo, "signal %d: called for %d", o->signo, signo);
    PT_CHECK(t, o->credits > 0, "signal %d is called, none came since its last call", signo);
    o->credits--;
    o->exp = o->credits && o->strict && !M.nested;
    o->strict = false;
    body(o);
}
static void before_fired(obj *o, el_t el) { called(o, el); o->exp = false; body(o); if (o->alive) must(o); }
static void wake_fired(obj *o, el_t el)
{
    called(o, el);
    PT_CHECK(M.t, o->fired, "wake %d is called but was not fired", o->id);
    o->fired = false; o->exp = false;
    body(o);
}
static void child_fired(obj *o, el_t el, pid_t pid, int status)
{
    pt_t *t = M.t;
    called(o, el);
    PT_CHECK(t, pid == o->pid && o->dead && status == o->status, "child %d: called with process %d, status %d instead of %d", o->pid, pid, status, o->status);
    PT_CHECK(t, o->turn_fires == 1, "child %d is called twice", o->pid);
    o->exp = false;
    body(o);
    if (o->alive) gone(o);
}

static void cb_timer(el_t el, data_t d) { timer_fired(d.ptr, el); }
static int cb_fd(el_t el, int fd, short evs, data_t d) { return fd_fired(d.ptr, el, fd, evs); }
static void cb_proxy(el_t el, short evs, data_t d) { proxy_fired(d.ptr, el, evs); }
static void cb_sig(el_t el, int s, data_t d) { sig_fired(d.ptr, el, s); }
static void cb_before(el_t el, data_t d) { before_fired(d.ptr, el); }
static void cb_wake(el_t el, data_t d) { wake_fired(d.ptr, el); }
static void cb_child(el_t el, pid_t p, int s, data_t d) { child_fired(d.ptr, el, p, s); }

/* }}} */
/* {{{ Interposed calls */

static void world(pt_t *t);

int clock_gettime(clockid_t c, struct timespec *ts)
{
    if (!M.on || c != CLOCK_MONOTONIC) return syscall(SYS_clock_gettime, c, ts);
    *ts = (struct timespec){ .tv_sec = M.now / 1000, .tv_nsec = M.now % 1000 * 1000000 };
    return 0;
}

static void note_ready(obj *o, short rev)
{
    o->rev = rev;
    o->ready_turn = M.depth ? M.turn : M.turn + 1;
}

int epoll_wait(int fd, struct epoll_event *ev, int max, int timeout)
{
    pt_t *t = M.t;
    if (!M.on) return syscall(SYS_epoll_pwait, fd, ev, max, timeout, NULL, 8);
    M.waits++;
    if (M.looping) {
        if (M.depth == 1 && !M.active && ++M.idle_waits > 1) PT_FAIL(t, "el_loop goes on with no active event");
        if (M.waits > 40) { M.unloop = true; el_unloop(); }
        M.turn++; M.nested = true; M.hint = true;
    }
    if (M.depth && !M.looping) {
        uint64_t k = min_key();
        int lim = M.T;
        if (k < M.now) k = M.now;
        if (k - M.now < (uint64_t)lim) lim = k - M.now;
        PT_CHECK(t, timeout <= lim, "the loop sleeps %d ms, the next timer is in %d ms", timeout, lim);
        if (!M.nested) for (int i = 0; i < M.n; i++) if (M.o[i].alive && M.o[i].kind == SIGNAL && M.o[i].exp) PT_CHECK(t, timeout == 0, "the loop sleeps %d ms with signal %d to be told", timeout, M.o[i].signo);
        if (!M.hint && !M.nested && !M.sigpend) PT_CHECK(t, timeout == lim, "the loop sleeps %d ms instead of %d", timeout, lim);
    }
    if (M.depth) for (int i = U(3); i > 0 && P(50); i--) world(t);
    int n = syscall(SYS_epoll_pwait, fd, ev, max, 0, NULL, 8);
    if (n < 0) n = 0;
    for (int i = 0; i < M.n; i++) { obj *o = &M.o[i]; if (o->kind == FD) o->rev = 0; }
    int top = -1, got = 0;
    for (int i = 0; i < n; i++) {
        for (int j = 0; j < M.n; j++) {
            obj *o = &M.o[j];
            if (o->kind != FD || o->el != ev[i].data.ptr || !o->alive) continue;
            note_ready(o, ev[i].events);
            if (o->prio > top) top = o->prio;
            got++;
            PT_CHECK(t, (short)ev[i].events == (short)(ready(o) & (o->mask | POLLHUP)), "fd %d: epoll gives %x, it is %x and the mask %x", o->id, ev[i].events, ready(o), o->mask);
        }
    }
    for (int j = 0; j < M.n; j++) {
        obj *o = &M.o[j];
        if (o->alive && o->kind == FD && (ready(o) & (o->mask | POLLHUP))) PT_CHECK(t, o->rev, "fd %d is ready (%x) for its mask %x, and not polled", o->id, ready(o), o->mask);
        if (o->alive && o->kind == FD && o->rev && o->prio == top) o->rexp = true;
        if (o->alive && o->kind == WAKE && o->fired) top = MAX(top, 1);
    }
    if (top >= 0) for (int j = 0; j < M.n; j++) {
        obj *o = &M.o[j];
        if (o->alive && o->kind == FD && o->rev && o->prio < top) o->rexp = false;
        if (o->alive && o->kind == WAKE && top > 1 && o->fired) o->exp_turn = M.turn;
    }
    M.top = top;
    if (top > 1) M.hi = true;
    if (n > 0) M.now += timeout > 0 ? (uint64_t)U(MIN(timeout, 3) + 1) : 0;
    else if (timeout > 0) {
        if (P(20)) { M.now += U(timeout + 1); errno = EINTR; n = -1; }
        else M.now += timeout;
    } else if (timeout < 0) PT_FAIL(t, "the loop sleeps for ever");
    M.until = M.now;
    if (M.depth) for (int i = 0; i < M.n; i++) { obj *o = &M.o[i]; if (timed(o) && o->key <= M.now && o->exp && o->exp_turn >= M.turn && o->kind == TIMER) o->exp_turn = M.turn - 1; }
    return n;
}

pid_t waitpid(pid_t pid, int *st, int opt)
{
    if (!M.on) return syscall(SYS_wait4, pid, st, opt, NULL);
    for (int i = 0; i < M.n; i++) {
        obj *o = &M.o[i];
        if (o->kind != CHILD || o->pid != pid || o->reaped) continue;
        if (!o->dead) return 0;
        o->reaped = true;
        if (st) *st = o->status;
        return pid;
    }
    errno = ECHILD;
    return -1;
}

/* }}} */
/* {{{ Operations */

static const int sigs[] = { SIGUSR1, SIGALRM, SIGHUP };

static void do_raise(int s)
{
    M.raised[s] = ++M.seq;
    M.sigpend = 1;
    M.hint = true;
    bool in_sig = false, in_child = false;
    M.raised_now = true;
    for (int i = 0; i < M.n; i++) in_child |= M.o[i].running && M.o[i].kind == CHILD;
    for (int i = 0; i < M.n; i++) in_sig |= M.o[i].running && (M.o[i].kind == SIGNAL || M.o[i].kind == CHILD);
    for (int i = 0; i < M.n; i++) if (M.o[i].alive && M.o[i].kind == SIGNAL && M.o[i].signo == s) {
        obj *o = &M.o[i];
        /* one call for all the signals that come before it, unless it is
         * already about to be called */
        if (o->credits && in_sig && !in_child && !M.nested && !o->turn_fires) o->strict = o->strict || (o->exp && !o->last_in);
        o->last_in = in_sig;
        if (o->credits == 0 || (in_sig && (M.nested || M.looping || !o->turn_fires))) o->credits = MIN(2, o->credits + 1);
        must(o);
    }
    raise(s);
}

static obj *pick(pt_t *t, int kind)
{
    int c[NO], n = 0;
    for (int i = 0; i < M.n; i++) if (M.o[i].alive && (kind < 0 || M.o[i].kind == kind)) c[n++] = i;
    return n ? &M.o[c[U(n)]] : NULL;
}

/* what others do */
static void world(pt_t *t)
{
    obj *o;
    switch (U(4)) {
      case 0:
        if (!(o = pick(t, FD)) || o->hup) break;
        if (P(90)) { int n = 1 + U(4); pt_note(t, "  %d bytes for fd %d", n, o->id); IGNORE(write(o->peer, "abcdef", n)); o->unread += n; }
        else { pt_note(t, "  fd %d: the peer closes", o->id); close(o->peer); o->peer = -1; o->hup = true; }
        break;
      case 1: { int s = sigs[U(3)]; bool has = false;
        for (int i = 0; i < M.n; i++) has |= M.o[i].alive && M.o[i].kind == SIGNAL && M.o[i].signo == s;
        if (has) { pt_note(t, "  signal %d", s); do_raise(s); } }
        break;
      case 2:
        if ((o = pick(t, WAKE))) { pt_note(t, "  wake %d", o->id); o->fired = true; must(o); el_wake_fire(o->el); }
        break;
      case 3: { bool any = false;
        for (int n = 1 + U(3); n > 0; n--) if ((o = pick(t, CHILD)) && !o->dead) { o->dead = true; o->status = U(3) << 8; must(o); any = true; pt_note(t, "  child %d dies", o->pid); }
        if (any) { M.raised_now = true; M.sigpend = 1; M.hint = true; raise(SIGCHLD); } }
        break;
    }
}

#define REG(fn, ...)  ({ obj *_o = o; (void)_o; fn(__VA_ARGS__); })

static void create(pt_t *t)
{
    if (M.n >= NO) return;
    obj *o = &M.o[M.n];
    bool blk = P(30);
    *o = (obj){ .id = M.n, .kind = U(12), .alive = true, .ref = true, .blk = blk, .peer = -1, .born = M.turn };
    if (o->kind >= NKIND) o->kind = U(2);
    block_t wipe = ^{ o->wiped++; };
    switch (o->kind) {
      case TIMER:
        o->next = P(20) ? (int)U(5) : P(60) ? (int)U(100) : (int)U(100000);
        if (M.depth && o->next == 0) o->next = 1;
        o->repeat = P(50) ? 0 : 1 + (P(60) ? (int)U(50) : (int)U(50000));
        o->flags = U(4);
        pt_note(t, "timer %d in %d, every %d, flags %d", o->id, (int)o->next, (int)o->repeat, o->flags);
        arm(o, o->next);
        if (blk) o->el = el_timer_register_blk(o->next, o->repeat, o->flags, ^(el_t el) { timer_fired(o, el); }, wipe);
        else o->el = el_timer_register(o->next, o->repeat, o->flags, cb_timer, o);
        PT_CHECK(t, el_timer_is_repeated(o->el) == (o->repeat > 0), "el_timer_is_repeated");
        break;
      case FD: {
        int sv[2];
        if (socketpair(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0, sv)) { o->alive = false; return; }
        o->peer = sv[1]; o->fd = sv[0]; o->own = P(80);
        o->mask = P(80) ? POLLIN : P(50) ? POLLOUT : 0;
        o->prio = 1;
        pt_note(t, "fd %d, mask %x", o->id, o->mask);
        if (blk) o->el = el_fd_register_blk(sv[0], o->own, o->mask, ^int(el_t el, int fd, short e) { return fd_fired(o, el, fd, e); }, wipe);
        else o->el = el_fd_register(sv[0], o->own, o->mask, cb_fd, o);
        break; }
      case PROXY:
        pt_note(t, "proxy %d", o->id);
        if (blk) o->el = el_proxy_register_blk(^(el_t el, short e) { proxy_fired(o, el, e); }, wipe);
        else o->el = el_proxy_register(cb_proxy, o);
        break;
      case SIGNAL:
        o->ref = false; o->signo = sigs[U(3)];
        o->credits = 1;      /* if a signal is pending */
        pt_note(t, "signal %d: %d", o->id, o->signo);
        if (blk) o->el = el_signal_register_blk(o->signo, ^(el_t el, int s) { sig_fired(o, el, s); }, wipe);
        else o->el = el_signal_register(o->signo, cb_sig, o);
        break;
      case BEFORE:
        pt_note(t, "before %d", o->id);
        must(o);
        if (blk) o->el = el_before_register_blk(^(el_t el) { before_fired(o, el); }, wipe);
        else o->el = el_before_register(cb_before, o);
        break;
      case CHILD:
        o->pid = M.nextpid++;
        if (P(20)) { o->dead = true; o->status = U(3) << 8; must(o); }
        pt_note(t, "child %d: process %d%s", o->id, o->pid, o->dead ? ", dead" : "");
        M.n++;            /* waitpid looks for it */
        if (blk) o->el = el_child_register_blk(o->pid, ^(el_t el, pid_t p, int s) { child_fired(o, el, p, s); }, wipe);
        else o->el = el_child_register(o->pid, cb_child, o);
        M.n--;
        PT_CHECK(t, el_child_getpid(o->el) == o->pid, "el_child_getpid");
        break;
      case WAKE:
        pt_note(t, "wake %d", o->id);
        if (blk) o->el = el_wake_register_blk(^(el_t el) { wake_fired(o, el); }, wipe);
        else o->el = el_wake_register(cb_wake, o);
        break;
      case BLOCKER:
        o->blk = false;
        o->el = el_blocker_register();
        break;
    }
    if (o->ref) { M.active++; if (M.idle_waits > 0) M.idle_waits = 0; }
    M.n++;
}

static void drop(pt_t *t, obj *o)
{
    el_t el = o->el;
    pt_note(t, "  unregister %s %d", kname[o->kind], o->id);
    if (o->kind == CHILD && !o->reaped && o->dead) { }
    if (o->kind == FD || o->kind == WAKE) M.top = -1;
    gone(o);
    data_t d = el_unregister(&el);
    PT_CHECK(t, !el, "el_unregister leaves a pointer");
    if (o->kind != BLOCKER) PT_CHECK(t, d.ptr == (o->blk ? NULL : o), "%s %d: el_unregister does not return its data", kname[o->kind], o->id);
    if (o->blk) PT_CHECK(t, o->wiped == 1, "%s %d: wiped %d times", kname[o->kind], o->id, o->wiped);
    if (o->peer >= 0) { close(o->peer); o->peer = -1; }
    if (o->kind == FD) {
        bool open = fcntl(o->fd, F_GETFD) >= 0;
        PT_CHECK(t, open == !o->own, "fd %d, %s by the event: its descriptor is %s after el_unregister", o->id, o->own ? "owned" : "not owned", open ? "open" : "closed");
        if (open) close(o->fd);
    }
}

static void act(pt_t *t, obj *self)
{
    obj *o;
    M.ops++;
    switch (U(16)) {
      case 0: case 1: case 2: create(t); break;
      case 3: if ((o = self && P(50) && self->alive ? self : pick(t, -1))) drop(t, o); break;
      case 4: case 5: world(t); break;
      case 6: case 7:
        if (!(o = self && self->alive && self->kind == TIMER ? self : pick(t, TIMER)) || o->repeat > 0) break;
        { int64_t n = P(30) ? -(int64_t)U(2) : 1 + (int)(P(70) ? U(100) : U(20000));
          if (n <= 0 && o->next == 0 && M.depth) n = 1;
          if (n > 0) { o->next = n; }
          /* without a new delay the tolerance stays as it was */
          int64_t tol = o->key - o->expiry;
          arm(o, o->next); if (n <= 0) o->key = o->expiry + tol;
          o->updated = true;
          pt_note(t, "  restart timer %d: %d", o->id, (int)n);
          el_timer_restart(o->el, n); }
        break;
      case 8:
        if (!(o = pick(t, FD))) break;
        { short m = (P(70) ? POLLIN : 0) | (P(30) ? POLLOUT : 0);
          pt_note(t, "  fd %d: mask %x", o->id, m);
          PT_CHECK(t, el_fd_set_mask(o->el, m) == o->mask, "el_fd_set_mask does not return the previous mask");
          if (o->mask) o->mask_turn = M.turn;
          o->mask = m;
          PT_CHECK(t, el_fd_get_mask(o->el) == m, "el_fd_get_mask"); }
        break;
      case 9:
        if (!(o = pick(t, FD))) break;
        pt_note(t, "  fd %d: mark fired", o->id);
        if (o->rev) M.dirty = true;
        el_fd_mark_fired(o->el); if (!o->marked) o->mark_turn = M.turn; o->marked = true; M.hint = true;
        break;
      case 10:
        if (!(o = pick(t, FD))) break;
        { int to = P(20) ? 0 : P(20) ? -1 : 1 + (int)U(200), old = o->act;
          short m = P(70) ? POLLIN : POLLIN | POLLOUT;
          pt_note(t, "  fd %d: watch activity %d", o->id, to);
          int r = el_fd_watch_activity(o->el, m, to);
          PT_CHECK(t, r == old, "el_fd_watch_activity returns %d instead of %d", r, old);
          o->act_mask = m;
          if (to > 0) o->act = to; else if (to == 0) o->act = 0;
          if (o->act) arm(o, o->act); }
        break;
      case 11:
        if (!(o = pick(t, FD))) break;
        { int p = U(3), old;
          if (p == 0) old = el_fd_set_priority(o->el, LOW); else if (p == 1) old = el_fd_set_priority(o->el, NORMAL); else old = el_fd_set_priority(o->el, HIGH);
          PT_CHECK(t, old == o->prio, "el_fd_set_priority returns %d instead of %d", old, o->prio);
          o->prio = p; M.dirty = true;
          pt_note(t, "  fd %d: priority %d", o->id, p); }
        break;
      case 12:
        if (!(o = pick(t, PROXY))) break;
        { short m = 1 << U(3), old;
          int w = U(3);
          pt_note(t, "  proxy %d: %s %x", o->id, w == 0 ? "set" : w == 1 ? "clear" : "mask", m);
          if (w == 0) { old = el_proxy_set_event(o->el, m); PT_CHECK(t, old == o->avail, "el_proxy_set_event"); o->avail |= m; }
          else if (w == 1) { old = el_proxy_clr_event(o->el, m); PT_CHECK(t, old == o->avail, "el_proxy_clr_event"); o->avail &= ~m; }
          else { if (P(50)) m = 7; old = el_proxy_set_mask(o->el, m); PT_CHECK(t, old == o->wanted, "el_proxy_set_mask"); o->wanted = m; }
          M.hint = true;
          if (o->avail & o->wanted) { if (!o->exp) must(o); } else o->exp = false; }
        break;
      case 13:
        if (!(o = pick(t, -1))) break;
        if (P(50)) { el_unref(o->el); if (o->ref) M.active--; o->ref = false; }
        else { el_ref(o->el); if (!o->ref) M.active++; o->ref = true; if (M.idle_waits > 0) M.idle_waits = 0; }
        break;
      case 14:
        if (self && self->kind != TIMER && M.depth < 3) {
            bool in_timer = false;
            for (int i = 0; i < M.n; i++) in_timer |= M.o[i].running && M.o[i].kind == TIMER;
            if (!in_timer) turn(t, U(30));
        }
        break;
      case 15:
        if (!self) { pt_note(t, "time passes"); M.now += U(50); }
        break;
    }
}

/* one turn of the loop */
static void turn(pt_t *t, int T)
{
    uint64_t until = M.until;
    int oT = M.T;
    M.depth++;
    if (M.depth == 1) { M.turn++; M.top = -1; M.nested = M.dirty = M.drift = M.hi = false; M.hint = M.sigpend; }
    else { M.nested = true; }
    if (M.nested) for (int i = 0; i < M.n; i++) if (M.o[i].kind == FD && M.o[i].rev) M.o[i].rexp = false;
    for (int i = 0; i < M.n; i++) {
        obj *o = &M.o[i];
        if (o->kind != CHILD) o->turn_fires = 0;
        if (o->alive && o->kind == PROXY && (o->avail & o->wanted)) M.hint = true;
        if (o->marked || o->maybe) M.hint = true;
    }
    M.until = M.now;
    M.T = T;
    pt_note(t, "turn %d, depth %d, at %d, %d ms", M.turn, M.depth, (int)M.now, T);
    el_loop_timeout(T);
    M.depth--;
    if (!M.depth) {
        M.sigpend = M.raised_now;
        M.raised_now = false;
        for (int i = 0; i < M.n; i++) {
            obj *o = &M.o[i];
            if (!o->alive) continue;
            if (o->kind == SIGNAL && o->exp && o->exp_turn == M.turn) M.sigpend = 1;
            if (o->kind == CHILD && o->exp && o->exp_turn == M.turn) M.sigpend = 1;
            if (o->kind == FD) {
                if (o->rexp && !M.dirty) PT_FAIL(t, "fd %d is ready and should have been called in this turn", o->id);
                if (o->marked && o->mark_turn < M.turn) PT_FAIL(t, "fd %d is marked and should have been called in this turn", o->id);
                if (o->act && o->arm_turn < M.turn && o->key <= M.until) PT_FAIL(t, "fd %d: the inactivity should have been told in this turn", o->id);
                continue;
            }
            if (!o->exp || o->exp_turn >= M.turn) continue;
            if (timed(o) && o->key > M.until) continue;
            if (o->kind == WAKE && (M.hi || M.dirty)) continue;
            PT_FAIL(t, "%s %d should have been called in this turn", kname[o->kind], o->id);
        }
        for (int i = 0; i < M.n; i++) if (M.o[i].kind == FD && M.o[i].alive) { obj *o = &M.o[i]; o->rev = 0; o->rexp = false; }
    } else {
        M.until = until;
        M.T = oT;
    }
}

static void run_el(pt_t *t)
{
    p_clear(&M, 1);
    M.t = t;
    M.slow = P(25);
    M.now = M.until = 1000000;
    M.nextpid = 1000;
    M.on = true;
    for (int n = 8 + U(40); n > 0; n--) {
        int op = U(10);
        if (op < 5) act(t, NULL);
        else if (op < 9) turn(t, P(60) ? U(50) : U(59000));
        else if (P(30)) {
            pt_note(t, "loop");
            M.looping = true; M.waits = M.idle_waits = 0; M.unloop = false; M.depth = 1; M.turn++; M.nested = true;
            bool none = !M.active; M.until = M.now;
            el_loop();
            PT_CHECK(t, M.unloop || !M.active, "el_loop returns with %d active events", M.active);
            if (none) PT_CHECK(t, !M.waits, "el_loop runs with no active event");
            M.looping = false; M.depth = 0;
            for (int i = 0; i < M.n; i++) if (M.o[i].alive && M.o[i].exp) M.o[i].exp_turn = M.turn;
            for (int i = 0; i < M.n; i++) { obj *o = &M.o[i]; o->rev = 0; o->rexp = false; o->mark_turn = o->arm_turn = M.turn; }
        }
    }
    for (int i = 0; i < M.n; i++) if (M.o[i].alive) drop(t, &M.o[i]);
    for (int i = 0; i < M.n; i++) { obj *o = &M.o[i]; if (o->peer >= 0) close(o->peer); if (o->blk) PT_CHECK(t, o->wiped == 1, "%s %d: wiped %d times", kname[o->kind], o->id, o->wiped); }
    PT_CHECK(t, M.active == 0, "model");
    M.depth = 1; M.looping = true; M.active = 0; M.waits = 0; M.idle_waits = -100;
    el_loop_timeout(0);
    M.on = false;
    if (M.fires >= 5 && (M.kinds & (M.kinds - 1))) pt_nontrivial(t);
}

/* }}} */

static void child_init(void) { MODULE_REQUIRE(el); }
void pt_setup(void) { e_set_verbosity(-1); }

const pt_target_t pt_targets[] = {
    { .name = "loop", .run = run_el, .quick = 40000, .thorough = 2000000, .cov_pct = 20, .batch = 200, .child_init = child_init },
};
const int pt_targets_len = 1;
