/* C26: RPC channels */
#include <lib-common/core.h>
#include <lib-common/iop-rpc.h>
#include <lib-common/unix.h>
#include <lib-common/el.h>
#include <lib-common/net.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include "viop/vr.iop.h"
#include "pt.h"

const char pt_rule[] =
    "calls: a history of queries (bursts, priorities, headers, descriptors, "
    "cancellations, expirations), answers in any order, byes, disconnections "
    "and new connections, over every kind of channel, direct or proxied, with "
    "partial and refused writes and reads; non-trivial: at least two queries "
    "were answered and an answer was delayed, or a connection was lost with "
    "queries in flight. wire: a reference peer that speaks the documented "
    "format, possibly damaged; non-trivial: at least one query was delivered.";

#define U(n) pt_u(t, (n) - 1)
#define P(n) pt_p(t, (n), 100)

/* {{{ faults on the sockets */

static pt_t *ft;
static int f_pct, f_budget;
static long progress;

ssize_t __real_sendmsg(int fd, const struct msghdr *m, int flags);
ssize_t __real_recvmsg(int fd, struct msghdr *m, int flags);
ssize_t __real_read(int fd, void *b, size_t n);

static bool is_stream(int fd)
{
    int type; socklen_t l = sizeof(type);
    return getsockopt(fd, SOL_SOCKET, SO_TYPE, &type, &l) == 0 && type == SOCK_STREAM;
}

/* <0: refuse, 0: nothing, >0: limit */
static int fault(int fd)
{
    if (!ft || f_budget <= 0 || !pt_p(ft, f_pct, 100)) return 0;
    if (!is_stream(fd) || pt_p(ft, 30, 100)) { f_budget--; errno = EAGAIN; return -1; }
    f_budget--;
    return 1 + pt_size(ft, 70000);
}

ssize_t __wrap_sendmsg(int fd, const struct msghdr *m, int flags)
{
    int f = fault(fd);
    ssize_t res;

    if (f < 0) return -1;
    if (f == 0) {
        res = __real_sendmsg(fd, m, flags | MSG_NOSIGNAL);
    } else {
        struct msghdr m2 = *m;
        struct iovec *v = (calloc)(m->msg_iovlen, sizeof(*v));
        size_t n = 0, i = 0;

        for (i = 0; i < m->msg_iovlen && n < (size_t)f; i++) {
            v[i] = m->msg_iov[i];
            if (v[i].iov_len > f - n) v[i].iov_len = f - n;
            n += v[i].iov_len;
        }
        m2.msg_iov = v; m2.msg_iovlen = i;
        res = __real_sendmsg(fd, &m2, flags | MSG_NOSIGNAL);
        (free)(v);
    }
    if (res > 0) progress++;
    return res;
}

ssize_t __wrap_recvmsg(int fd, struct msghdr *m, int flags)
{
    int f = fault(fd);
    ssize_t res;

    if (f < 0) return -1;
    if (f > 0 && m->msg_iovlen == 1 && m->msg_iov->iov_len > (size_t)f) m->msg_iov->iov_len = f;
    res = __real_recvmsg(fd, m, flags);
    if (res > 0) progress++;
    return res;
}

ssize_t __wrap_read(int fd, void *b, size_t n)
{
    ssize_t res;
    int f = 0;

    if (ft && is_stream(fd)) f = fault(fd);
    if (f < 0) return -1;
    if (f > 0 && n > (size_t)f) n = f;
    res = __real_read(fd, b, n);
    if (res > 0) progress++;
    return res;
}

/* }}} */
/* {{{ model */

enum { R_ECHO, R_ASK, R_NOP, R_TELL, R_MISS, R_N };
enum { A_OK, A_EXN, A_ERR, A_NEVER };   /* what the server answers */
enum { T_STREAM, T_SEQ, T_TCP, T_TLS, T_LOCAL, T_LOCAL_ASYNC };

typedef struct q_t {
    int rpc, act, err, prio, burst, seq;
    bool loose, later, fd, hdr, blk, timeout, cancel_before_sent;
    uint8_t *data; int len;
    uint8_t *rdata; int rlen;
    int fdtag, rfdtag; bool rfd;
    /* history */
    ic_msg_t *msg;
    int called, status;
    int delivered, replied;
    bool canceled;
    uint64_t slot; bool waits;
    int conn;          /* connection number at the time of the query */
} q_t;

#define NQ 120
static q_t Q[NQ];
static int nq, order[NQ], n_order;
static struct {
    pt_t *t;
    int topo, pxy, topo2;
    ichannel_t *cli, *srv;        /* first link */
    ichannel_t *pcli, *psrv;      /* second link when proxied */
    qm_t(ic_cbs) impl, pimpl;
    int conn; bool down, closing, anydown, wire, force_fd;
    int burst;
    int pre, post, hookmode;
    int n_ok, n_late, lost;
    bool from_cb; int depth;
    ic__hdr__t phdr, *phdrp;
    int conn_evt, disc_evt; bool dmg;
} G;

static void on_event(ichannel_t *ic, ic_event_t evt)
{
    if (evt == IC_EVT_CONNECTED) G.conn_evt++;
    if (evt == IC_EVT_DISCONNECTED) G.disc_evt++;
    progress++;
}

static int mk_fd(int tag)
{
    int p[2];
    char b[8];
    int n = (snprintf)(b, sizeof(b), "%d", tag);
    if (pipe(p) < 0) abort();
    if (write(p[1], b, n) != n) abort();
    close(p[1]);
    return p[0];
}

static int rd_fd(int fd)
{
    char b[16];
    ssize_t n = syscall(SYS_read, fd, b, sizeof(b) - 1);
    if (n <= 0) return -2;
    b[n] = 0;
    return atoi(b);
}

static const char *hdr_login(int id) { static char b[32]; (snprintf)(b, sizeof(b), "user-%d", id); return b; }

static ichannel_t *cur_ic;
static void do_reply(q_t *q)
{
    pt_t *t = G.t;
    int id = q - Q;
    uint64_t slot = q->slot;
    ichannel_t *ic = NULL;
    int fd = -1;

    q->waits = false;
    q->replied = 1;
    if (id & 1) ic = cur_ic;
    if (q->rfd) fd = mk_fd(q->rfdtag);
    if (q->act == A_ERR) {
        if (fd >= 0) close(fd);
        ic_reply_err(ic, slot, q->err);
        return;
    }
    switch (q->rpc) {
      case R_ECHO:
        if (q->act == A_OK) {
            if (fd >= 0) {
                if (ic_reply_fd(ic, slot, fd, vr__m, a, echo, .id = id, .data = LSTR_INIT((char *)q->rdata, q->rlen)))
                    fd = -1;
            } else {
                ic_reply(ic, slot, vr__m, a, echo, .id = id, .data = LSTR_INIT((char *)q->rdata, q->rlen));
            }
        } else {
            ic_throw(ic, slot, vr__m, a, echo, .code = id, .data = LSTR_INIT((char *)q->rdata, q->rlen));
        }
        break;
      case R_ASK: {
        t_scope;
        vr__blob__t *b = t_iop_new(vr__blob);
        b->id = id; b->data = LSTR_INIT_V((char *)q->rdata, q->rlen);
        b->more = (typeof(b->more)){ .len = q->rlen % 5, .tab = t_new(int, 5) };
        for (int i = 0; i < b->more.len; i++) b->more.tab[i] = id * i;
        if (q->act == A_OK) ic_reply_p(ic, slot, vr__m, a, ask, b);
        else ic_throw_p(ic, slot, vr__m, a, ask, b);
        } break;
      case R_NOP:
        if (q->act == A_OK) ic_reply(ic, slot, vr__m, a, nop); else ic_throw(ic, slot, vr__m, a, nop);
        break;
    }
    if (fd >= 0) close(fd);
}

static int n_mine;

static void got_query(ichannel_t *ic, uint64_t slot, int rpc, int id, lstr_t data, const ic__hdr__t *hdr)
{
    pt_t *t = G.t;
    q_t *q;
    int fd;

    progress++;
    if (G.dmg && (id < 0 || id >= n_mine || Q[id].loose || Q[id].delivered)) {
        if (id >= 0 && id < nq) Q[id].delivered = 1;
        if (!ic_slot_is_async(slot)) ic_reply_err(ic, slot, IC_MSG_SERVER_ERROR);
        return;
    }
    PT_CHECK(t, id >= 0 && id < nq, "a query that was never made is delivered: id %d", id);
    q = &Q[id];
    PT_CHECK(t, q->rpc == rpc, "query %d: rpc %d delivered as %d", id, q->rpc, rpc);
    PT_CHECK(t, !q->delivered, "query %d is delivered twice", id);
    PT_CHECK(t, !q->cancel_before_sent, "query %d is delivered though it was cancelled before being sent", id);
    if (rpc != R_NOP) {
        PT_CHECK(t, data.len == q->len && !memcmp(data.s, q->data, q->len), "query %d: the argument is altered (%d bytes for %d)", id, (int)data.len, q->len);
    }
    q->delivered = 1;
    order[n_order++] = id;
    PT_CHECK(t, (rpc == R_TELL) == ic_slot_is_async(slot), "query %d: slot %llx", id, (long long)slot);
    fd = ic_get_fd(ic);
    if (q->fd) {
        PT_CHECK(t, fd >= 0, "query %d: the descriptor is lost", id);
        PT_CHECK(t, rd_fd(fd) == q->fdtag, "query %d: another descriptor", id);
        close(fd);
    } else {
        PT_CHECK(t, fd < 0, "query %d: unexpected descriptor", id);
    }
    if (q->hdr) {
        PT_CHECK(t, hdr && IOP_UNION_IS(ic__hdr, hdr, simple), "query %d: header lost", id);
        PT_CHECK(t, lstr_equal(hdr->simple.login, LSTR(hdr_login(id))), "query %d: login '%*pM'", id, LSTR_FMT_ARG(hdr->simple.login));
        PT_CHECK(t, OPT_ISSET(hdr->simple.workspace_id) && OPT_VAL(hdr->simple.workspace_id) == (uint64_t)id * 77, "query %d: workspace", id);
    } else if (G.phdrp) {
        PT_CHECK(t, hdr && IOP_UNION_IS(ic__hdr, hdr, simple) && lstr_equal(hdr->simple.login, LSTR("proxy")), "query %d: the header of the proxy is missing", id);
    } else {
        PT_CHECK(t, !hdr, "query %d: unexpected header", id);
    }
    if (rpc == R_TELL) return;
    q->slot = slot;
    q->waits = true;
    if (q->act != A_NEVER && !q->later) { cur_ic = ic; do_reply(q); cur_ic = NULL; }
}

static void IOP_RPC_IMPL(vr__m, a, echo) { got_query(ic, slot, R_ECHO, arg->id, arg->data, hdr); }
static void IOP_RPC_IMPL(vr__m, a, tell) { got_query(ic, slot, R_TELL, arg->id, arg->data, hdr); }
static void IOP_RPC_IMPL(vr__m, a, nop)  { got_query(ic, slot, R_NOP, arg->id, LSTR_NULL_V, hdr); }
static void IOP_RPC_IMPL(vr__m, a, ask)
{
    pt_t *t = G.t;
    if (!G.dmg) PT_CHECK(t, arg->more.len == arg->data.len % 7, "query %d: array of %d", arg->id, arg->more.len);
    for (int i = 0; i < arg->more.len && !G.dmg; i++) PT_CHECK(t, arg->more.tab[i] == i - arg->id, "query %d: array", arg->id);
    got_query(ic, slot, R_ASK, arg->id, arg->data, hdr);
}

static void answered(ichannel_t *ic, int id, ic_status_t st, bool has_res, bool has_exn, lstr_t data, int rid)
{
    pt_t *t = G.t;
    q_t *q = &Q[id];
    int fd;

    progress++;
    PT_CHECK(t, !q->called, "query %d: its callback is called twice (%s then %s)", id, ic_status_to_string(q->status), ic_status_to_string(st));
    q->called = 1; q->status = st;
    PT_CHECK(t, has_res == (st == IC_MSG_OK), "query %d: %s with%s result", id, ic_status_to_string(st), has_res ? "" : "out");
    PT_CHECK(t, st == IC_MSG_INVALID || has_exn == (st == IC_MSG_EXN), "query %d: %s with%s exception", id, ic_status_to_string(st), has_exn ? "" : "out");
    if (G.dmg) return;     /* the damage may make any answer */
    switch (st) {
      case IC_MSG_OK: case IC_MSG_EXN:
        PT_CHECK(t, q->replied && q->act == (st == IC_MSG_OK ? A_OK : A_EXN), "query %d: %s was not answered (replied %d act %d)", id, ic_status_to_string(st), q->replied, q->act);
        if (q->rpc != R_NOP) {
            PT_CHECK(t, rid == id, "query %d: answer of query %d", id, rid);
            PT_CHECK(t, data.len == q->rlen && !memcmp(data.s, q->rdata, q->rlen), "query %d: the answer is altered (%d bytes for %d)", id, (int)data.len, q->rlen);
        }
        fd = ic_get_fd(ic);
        if (q->rfd && st == IC_MSG_OK && q->rpc == R_ECHO) {
            PT_CHECK(t, fd >= 0, "query %d: the descriptor of the answer is lost", id);
            PT_CHECK(t, rd_fd(fd) == q->rfdtag, "query %d: another descriptor", id);
            close(fd);
        } else {
            PT_CHECK(t, fd < 0, "query %d: unexpected descriptor in the answer", id);
        }
        G.n_ok++;
        break;
      case IC_MSG_UNIMPLEMENTED:
        PT_CHECK(t, q->rpc == R_MISS || (q->replied && q->act == A_ERR && q->err == st), "query %d: unimplemented", id);
        break;
      case IC_MSG_CANCELED:
        PT_CHECK(t, q->canceled, "query %d: cancelled by nobody", id);
        break;
      case IC_MSG_TIMEDOUT:
        PT_CHECK(t, q->timeout, "query %d has expired without expiration", id);
        break;
      case IC_MSG_PROXY_ERROR:
        PT_CHECK(t, (G.pxy && G.anydown) || (q->replied && q->act == A_ERR && q->err == st), "query %d: proxy error", id);
        break;
      case IC_MSG_RETRY:
      case IC_MSG_ABORT:
        PT_CHECK(t, G.anydown || (q->replied && q->act == A_ERR && q->err == st), "query %d: %s while nothing was closed", id, ic_status_to_string(st));
        break;
      default:
        PT_CHECK(t, q->replied && q->act == A_ERR && q->err == (int)st, "query %d: status %s", id, ic_status_to_string(st));
        break;
    }
}

#define ID  (*acast(int, msg->priv))
static void IOP_RPC_CB(vr__m, a, echo)
{
    answered(ic, ID, status, res, exn, res ? res->data : exn && status == IC_MSG_EXN ? exn->data : LSTR_NULL_V,
             res ? res->id : exn && status == IC_MSG_EXN ? exn->code : -1);
}
static void IOP_RPC_CB(vr__m, a, ask)
{
    const vr__blob__t *b = res ?: status == IC_MSG_EXN ? exn : NULL;
    pt_t *t = G.t;
    if (b) {
        PT_CHECK(t, b->more.len == Q[ID].rlen % 5, "answer %d: array of %d", ID, b->more.len);
        for (int i = 0; i < b->more.len; i++) PT_CHECK(t, b->more.tab[i] == ID * i, "answer %d: array", ID);
    }
    answered(ic, ID, status, res, exn, b ? b->data : LSTR_NULL_V, b ? b->id : -1);
}
static void IOP_RPC_CB(vr__m, a, nop) { answered(ic, ID, status, res || status == IC_MSG_OK, exn || status == IC_MSG_EXN, LSTR_NULL_V, -1); }
static void IOP_RPC_CB(vr__m, a, miss) { answered(ic, ID, status, res, exn, LSTR_NULL_V, -1); }

/* hooks: exactly one post hook per pre hook */
static void pre_hook(ichannel_t *ic, uint64_t slot, ic__hdr__t *hdr, data_t arg, bool *mod)
{
    ic_hook_ctx_t *ctx = ic_hook_ctx_new(slot, sizeof(int));
    *(int *)ctx->data = 0x1234;
    G.pre++;
}
static void post_hook(ichannel_t *ic, ic_status_t st, ic_hook_ctx_t *ctx, data_t arg, const iop_struct_t *s, const void *v)
{
    pt_t *t = G.t;
    PT_CHECK(t, *(int *)ctx->data == 0x1234, "the context of the hook is altered");
    G.post++;
}

/* }}} */

static void pump_(int rounds)
{
    for (int quiet = 0, n = 0; quiet < rounds && n < 3000; n++) {
        long p = progress;
        el_loop_timeout(0);
        if (p == progress) quiet++; else quiet = 0;
    }
}
static void pump(void) { pump_(G.topo == T_TLS || G.topo2 == T_TLS || G.topo == T_TCP || G.topo2 == T_TCP ? 6 : 3); }

static ichannel_t *tcp_srv; static qm_t(ic_cbs) *tcp_impl; static bool tcp_srv_set;
static int on_accept(el_t ev, int fd)
{
    tcp_srv = ic_new();
    tcp_srv->on_event = &on_event;
    tcp_srv->impl = tcp_impl;
    tcp_srv->no_autodel = true;
    ic_spawn(tcp_srv, fd, NULL);
    progress++;
    return 0;
}

static void set_buf(pt_t *t, int fd)
{
    int v = 1;
    if (P(40)) setsockopt(fd, SOL_SOCKET, SO_SNDBUF, &v, sizeof(v));
}

static void link_up(pt_t *t, int topo, ichannel_t **cli, ichannel_t **srv, qm_t(ic_cbs) *impl)
{
    int fd[2];

    if (!*cli) {
        *cli = ic_new();
        (*cli)->on_event = &on_event;
        (*cli)->no_autodel = true;
        (*cli)->auto_reconn = false;
        if (P(30)) (*cli)->nextslot = IC_MSG_SLOT_MASK - U(6);
    }
    switch (topo) {
      case T_LOCAL: case T_LOCAL_ASYNC:
        ic_set_local(*cli, topo == T_LOCAL_ASYNC);
        (*cli)->impl = impl;
        *srv = *cli;
        return;
      case T_STREAM: case T_SEQ:
        if (socketpair(AF_UNIX, topo == T_STREAM ? SOCK_STREAM : SOCK_SEQPACKET, 0, fd) < 0) abort();
        fd_set_features(fd[0], O_NONBLOCK); fd_set_features(fd[1], O_NONBLOCK);
        if (topo == T_STREAM) { set_buf(t, fd[0]); set_buf(t, fd[1]); }
        if (!*srv) {
            *srv = ic_new();
            (*srv)->on_event = &on_event;
            (*srv)->no_autodel = true;
            (*srv)->impl = impl;
        }
        ic_spawn(*cli, fd[0], NULL);
        ic_spawn(*srv, fd[1], NULL);
        break;
      default: {
        sockunion_t su, me;
        el_t l;
        ic_set_tls_disabled(topo == T_TCP);
        addr_info_str(&su, "127.0.0.1", 0, AF_INET);
        tcp_srv = NULL; tcp_impl = impl;
        l = ic_listento(&su, SOCK_STREAM, IPPROTO_TCP, &on_accept);
        if (!l) abort();
        socklen_t sl = sizeof(me);
        getsockname(el_fd_get_fd(l), &me.sa, &sl);
        (*cli)->su = me;
        if (*srv) ic_delete(srv);
        if (ic_connect(*cli) < 0) { pt_note(t, "connect failed"); abort(); }
        for (int i = 0; i < 4000; i++) {
            el_loop_timeout(i > 50 ? 1 : 0);
            if (tcp_srv && tcp_srv->is_connected && (*cli)->is_connected) break;
        }
        PT_CHECK(t, tcp_srv && tcp_srv->is_connected && (*cli)->is_connected, "a valid connection does not establish");
        *srv = tcp_srv;
        el_unregister(&l);
      } break;
    }
}

static void gen_bytes(pt_t *t, uint8_t **d, int *len, int big)
{
    *len = P(30) ? 0 : P(60) ? U(40) : P(70) ? (int)U(3000) : P(big) ? 60000 + (int)U(80000) : 65500 + (int)U(80);
    *d = (malloc)(*len + 1);
    uint32_t x = *len * 2654435761u + U(256);
    for (int i = 0; i < *len; i++) { x = x * 1664525 + 1013904223; (*d)[i] = x >> 24; }
}

static void make_query(pt_t *t)
{
    q_t *q = &Q[nq];
    int id = nq;
    ic_msg_t *msg;
    ic__hdr__t hdr;
    bool local = G.topo >= T_LOCAL;
    bool fd_ok = !local && G.topo <= T_SEQ && (!G.pxy || G.topo2 <= T_SEQ);

    memset(q, 0, sizeof(*q));
    q->rpc = P(45) ? R_ECHO : P(50) ? R_ASK : P(40) ? R_NOP : P(70) ? R_TELL : R_MISS;
    q->act = P(60) ? A_OK : P(50) ? A_EXN : P(70) ? A_ERR : A_NEVER;
    static const int errs[] = { IC_MSG_RETRY, IC_MSG_ABORT, IC_MSG_INVALID, IC_MSG_UNIMPLEMENTED, IC_MSG_SERVER_ERROR, IC_MSG_PROXY_ERROR };
    q->err = errs[U(6)];
    q->later = P(50);
    q->prio = P(50) ? EV_PRIORITY_NORMAL : P(50) ? EV_PRIORITY_HIGH : EV_PRIORITY_LOW;
    q->hdr = P(25);
    gen_bytes(t, &q->data, &q->len, 60);
    gen_bytes(t, &q->rdata, &q->rlen, 60);
    q->fd = fd_ok && (G.force_fd || P(30));
    q->rfd = fd_ok && q->rpc == R_ECHO && q->act == A_OK && P(30);
    q->fdtag = 2 * id + 1; q->rfdtag = 2 * id + 2;
    q->burst = G.burst;
    q->conn = G.conn;
    if (!local && !G.wire && P(8)) q->timeout = true;
    nq++;

    msg = q->fd ? ic_msg_new_fd(mk_fd(q->fdtag), sizeof(int)) : ic_msg_new(sizeof(int));
    *acast(int, msg->priv) = id;
    ic_msg_set_priority(msg, q->prio);
    if (q->timeout) ic_msg_set_timeout(msg, 1 + U(3));
    if (q->hdr) {
        iop_init(ic__simple_hdr, &hdr.simple);
        hdr = IOP_UNION_VA(ic__hdr, simple, .login = LSTR(hdr_login(id)), .payload = -1, .workspace_id = OPT((uint64_t)id * 77));
        msg->hdr = &hdr;
    }
    if (G.topo == T_LOCAL) {
        if (P(40)) msg->force_pack = true; else if (P(40)) msg->force_dup = true;
    }
    q->msg = msg;
    pt_note(t, "query %d: rpc %d, act %d%s, prio %d, %d bytes, answer %d bytes%s%s%s%s", id, q->rpc, q->act, q->later ? " later" : "",
            q->prio, q->len, q->rlen, q->fd ? " fd" : "", q->rfd ? " rfd" : "", q->hdr ? " hdr" : "", q->timeout ? " timeout" : "");
    switch (q->rpc) {
      case R_ECHO: ic_query2(G.cli, msg, vr__m, a, echo, .id = id, .data = LSTR_INIT((char *)q->data, q->len)); break;
      case R_TELL: ic_query(G.cli, msg, NULL, vr__m, a, tell, .id = id, .data = LSTR_INIT((char *)q->data, q->len)); break;
      case R_NOP:  ic_query2(G.cli, msg, vr__m, a, nop, .id = id); break;
      case R_MISS: ic_query2(G.cli, msg, vr__m, a, miss, .id = id, .data = LSTR_INIT((char *)q->data, q->len)); break;
      case R_ASK: {
        t_scope;
        vr__blob__t *b = t_iop_new(vr__blob);
        b->id = id; b->data = LSTR_INIT_V((char *)q->data, q->len);
        b->more = (typeof(b->more)){ .len = q->len % 7, .tab = t_new(int, 7) };
        for (int i = 0; i < b->more.len; i++) b->more.tab[i] = i - id;
        ic_query2_p(G.cli, msg, vr__m, a, ask, b);
        } break;
    }
}

static int outstanding(void)
{
    int n = 0;
    for (int i = 0; i < nq; i++) if (Q[i].rpc != R_TELL && !Q[i].called) n++;
    return n;
}

static void check_quiet(pt_t *t)
{
    if (G.cli) PT_CHECK(t, ic_queue_len(G.cli) == outstanding(), "ic_queue_len is %d with %d queries waiting", ic_queue_len(G.cli), outstanding());
}

/* every query of the current connection that could be answered has been */
static void check_live(pt_t *t)
{
    int saved = f_budget;
    f_budget = 0;
    pump();
    for (int k = 0; k < 200; k++) {
        int miss = -1;
        for (int i = 0; i < nq; i++) {
            q_t *q = &Q[i];
            if (q->conn != G.conn || q->canceled || q->timeout) continue;
            if (q->rpc == R_MISS) { if (!q->called) miss = i; continue; }
            if (!q->delivered) { miss = i; continue; }
            if (q->rpc != R_TELL && q->replied && !q->called) miss = i;
        }
        if (miss < 0) break;
        el_loop_timeout(k > 20 ? 5 : 0);
        PT_CHECK(t, k < 199, "query %d is %s", miss, Q[miss].delivered ? "answered but its callback is not called" : "never delivered");
    }
    f_budget = saved;
}

static void check_order(pt_t *t)
{
    int pos[NQ];
    bool seq[NQ] = { false };
    for (int i = 0; i < n_order; i++) { pos[order[i]] = i; seq[order[i]] = true; }
    for (int a = 0; a < nq; a++) for (int b = a + 1; b < nq; b++) {
        if (!seq[a] || !seq[b] || Q[a].conn != Q[b].conn) continue;
        if (Q[a].prio >= Q[b].prio) {
            PT_CHECK(t, pos[a] < pos[b], "query %d (priority %d) overtakes query %d (priority %d)", b, Q[b].prio, a, Q[a].prio);
        } else if (Q[a].burst == Q[b].burst && !G.pxy && G.topo < T_LOCAL) {
            PT_CHECK(t, pos[b] < pos[a], "query %d (priority %d) waits behind query %d (priority %d)", b, Q[b].prio, a, Q[a].prio);
        }
    }
}

static int count_fds(void)
{
    int n = 0;
    struct stat st;
    for (int i = 0; i < 256; i++) if (fstat(i, &st) == 0 && (S_ISSOCK(st.st_mode) || S_ISFIFO(st.st_mode))) n++;
    return n;
}

/* a flush blocks until everything is written: both sides are here */
static bool small(void)
{
    int n = 0;
    if (G.topo == T_TLS) return false;
    for (int i = 0; i < nq; i++) if (!Q[i].delivered) n += Q[i].len;
    return n < 1000;
}

static void answer_some(pt_t *t, bool all)
{
    int w[NQ], n = 0;
    for (int i = 0; i < nq; i++) if (Q[i].waits && Q[i].act != A_NEVER) w[n++] = i;
    while (n) {
        int k = U(n);
        pt_note(t, "answer %d", w[k]);
        do_reply(&Q[w[k]]);
        G.n_late++;
        w[k] = w[--n];
        if (!all && P(50)) break;
    }
}

static void down(pt_t *t, int what)
{
    int before = outstanding();
    ichannel_t **vict;

    pt_note(t, "down %d (%d outstanding)", what, before);
    G.anydown = true;
    if (before) G.lost++;
    switch (what) {
      case 0: /* the client leaves */
        ic_disconnect(G.cli);
        break;
      case 1: /* the server leaves */
        ic_disconnect(G.srv);
        break;
      case 2: /* the network dies */
        shutdown(el_fd_get_fd(G.cli->elh), SHUT_RDWR);
        break;
      case 3: ic_bye(G.cli); break;
      case 4: ic_bye(G.srv); break;
      case 5: /* the server is deleted */
        ic_delete(&G.srv);
        break;
    }
    f_budget = 0;
    if (what == 3 || what == 4) {
        /* graceful: what is answered comes back */
        pump();
        answer_some(t, true);
    }
    pump();
    pump();
    if ((what == 3 || what == 4) && !G.pxy) {
        bool waits = false;
        for (int i = 0; i < nq; i++) waits |= Q[i].waits && Q[i].conn == G.conn;
        if (!waits) {
            PT_CHECK(t, !G.cli->elh, "the client stays open after a bye though nothing is pending");
            PT_CHECK(t, !G.srv->elh, "the server stays open after a bye though nothing is pending");
        }
    }
    if ((what == 3 || what == 4) && G.cli->elh) {
        /* queries without answer keep the link open */
        ic_disconnect(G.cli);
    }
    pump();
    if (G.srv && G.srv->elh) { ic_disconnect(G.srv); pump(); }
    PT_CHECK(t, !G.cli->elh, "the client does not see that the connection is closed");
    for (int i = 0; i < nq; i++) {
        q_t *q = &Q[i];
        if (q->rpc != R_TELL) PT_CHECK(t, q->called, "query %d: the connection is lost and its callback is not called", i);
    }
    PT_CHECK(t, ic_queue_len(G.cli) == 0, "ic_queue_len is %d on a closed channel", ic_queue_len(G.cli));
}

static ic_dynproxy_t dynproxy(ic__hdr__t *hdr, void *priv)
{
    if (!G.pcli) return IC_DYNPROXY_NULL;
    if (!hdr && G.phdrp) return IC_DYNPROXY_HDR(G.pcli, G.phdrp);
    return IC_DYNPROXY(G.pcli);
}

static void reg(pt_t *t)
{
    qm_init(ic_cbs, &G.impl);
    qm_init(ic_cbs, &G.pimpl);
    G.hookmode = P(40);
#define R(_r)  do { \
        if (G.hookmode) ic_register_pre_post_hook_p(&G.impl, vr__m, a, _r, &pre_hook, &post_hook, NULL, NULL); \
        else ic_register(&G.impl, vr__m, a, _r); \
    } while (0)
    R(echo); R(ask); R(nop); R(tell);
#undef R
    switch (G.pxy) {
#define ALL(x) x(echo) x(ask) x(nop) x(tell) x(miss)
#define X1(_r) ic_register_proxy_hdr(&G.pimpl, vr__m, a, _r, G.pcli, G.phdrp);
#define X2(_r) ic_register_proxy_hdr_p(&G.pimpl, vr__m, a, _r, &G.pcli, &G.phdrp);
#define X3(_r) ic_register_dynproxy(&G.pimpl, vr__m, a, _r, &dynproxy, NULL);
      case 1: ALL(X1) break;
      case 2: ALL(X2) break;
      case 3: ALL(X3) break;
    }
}

static void run_calls(pt_t *t)
{
    int fds0 = count_fds();
    int nops;

    nq = n_order = 0;
    p_clear(&G, 1);
    G.t = t;
    progress = 0;
    G.topo = P(35) ? T_STREAM : P(40) ? T_SEQ : P(40) ? T_LOCAL : P(50) ? T_LOCAL_ASYNC : P(80) ? T_TCP : T_TLS;
    if (G.topo < T_LOCAL && P(35)) {
        G.pxy = 1 + U(3);
        G.topo2 = P(50) ? T_STREAM : P(60) ? T_SEQ : P(70) ? T_LOCAL : T_TCP;
        if (P(30)) {
            G.phdr = IOP_UNION_VA(ic__hdr, simple, .login = LSTR("proxy"), .payload = -1);
            G.phdrp = &G.phdr;
        }
        if (G.topo == T_TLS) G.topo = T_TCP;
    }
    ft = t; f_pct = P(50) ? 0 : 10 + U(60); f_budget = 0;
    pt_note(t, "channel %d proxy %d over %d, faults %d%%", G.topo, G.pxy, G.topo2, f_pct);
    if (G.pxy) {
        G.pcli = ic_new(); G.pcli->on_event = &on_event; G.pcli->no_autodel = true; G.pcli->auto_reconn = false;
        if (P(30)) G.pcli->nextslot = IC_MSG_SLOT_MASK - U(6);
    }
    reg(t);
    if (G.pxy) {
        link_up(t, G.topo2, &G.pcli, &G.psrv, &G.impl);
        link_up(t, G.topo, &G.cli, &G.srv, &G.pimpl);
    } else {
        link_up(t, G.topo, &G.cli, &G.srv, &G.impl);
    }
    pump();
    G.conn = 1;
    f_budget = 60;
    nops = 1 + U(14);
    for (int k = 0; k < nops && nq < NQ - 60; k++) {
        int op = U(10);

        if (op < 5) {
            int n = 1 + (P(30) ? U(10) : U(3));
            /* more descriptors than one write can pass */
            if (G.topo <= T_SEQ && P(2)) { n = 30 + U(12); G.force_fd = true; }
            G.burst++;
            for (int i = 0; i < n; i++) {
                make_query(t);
                /* cancel a query that is not sent yet */
                if (G.topo < T_LOCAL && P(8)) {
                    int c = U(nq);
                    q_t *q = &Q[c];
                    if (q->rpc != R_TELL && !q->called && !q->canceled) {
                        pt_note(t, "cancel %d", c);
                        q->canceled = true;
                        if (q->burst == G.burst && !q->delivered) q->cancel_before_sent = true;
                        ic_msg_cancel(q->msg);
                        PT_CHECK(t, q->called && q->status == IC_MSG_CANCELED, "cancelled query %d: no callback", c);
                    }
                }
            }
            G.force_fd = false;
            if (P(70)) pump_(1); else if (P(50)) pump();
        } else if (op < 7) {
            answer_some(t, false);
            if (P(50)) pump_(1);
        } else if (op == 7) {
            if (P(50)) usleep(4000);
            pump();
        } else if (op == 8) {
            if (G.topo < T_LOCAL && P(50)) ic_nop(P(50) ? G.cli : G.srv);
            if (G.topo < T_LOCAL && P(20) && small()) { ft = NULL; ic_flush(G.cli); ft = t; }
            check_live(t);
            check_quiet(t);
        } else if (G.topo < T_LOCAL && P(40)) {
            int what;
            check_live(t);
            if (P(60)) { G.burst++; for (int i = U(4); i > 0; i--) make_query(t); if (P(50)) pump_(1); }
            what = U(6);
            down(t, what);
            check_order(t);
            /* late answers go nowhere */
            answer_some(t, true);
            pump();
            G.conn++;
            G.cli->is_closing = false;
            link_up(t, G.topo, &G.cli, &G.srv, G.pxy ? &G.pimpl : &G.impl);
            pump();
            f_budget = 60;
            PT_CHECK(t, ic_is_ready(G.cli), "a new connection is not ready");
        }
    }
    check_live(t);
    answer_some(t, true);
    check_live(t);
    check_quiet(t);
    if (!G.anydown) {
        for (int i = 0; i < nq; i++) {
            q_t *q = &Q[i];
            if (q->rpc != R_TELL && q->act != A_NEVER && !q->canceled && !q->timeout) PT_CHECK(t, q->called, "query %d was answered, and its callback not called", i);
        }
    }
    check_order(t);
    /* the end */
    G.anydown = true;
    f_budget = 0;
    if (G.topo >= T_LOCAL) {
        if (P(50)) { G.burst++; make_query(t); }
        ic_delete(&G.cli);
        G.srv = NULL;
    } else {
        if (P(50)) { ic_delete(&G.cli); if (G.srv) ic_delete(&G.srv); }
        else { if (G.srv) ic_delete(&G.srv); pump(); ic_delete(&G.cli); }
    }
    if (G.pcli) { bool loc = G.pcli == G.psrv; ic_delete(&G.pcli); if (!loc && G.psrv) ic_delete(&G.psrv); }
    pump();
    for (int i = 0; i < nq; i++) {
        q_t *q = &Q[i];
        PT_CHECK(t, q->called == (q->rpc != R_TELL), "query %d: callback called %d times", i, q->called);
        if (q->waits) do_reply(q);
    }
    if (G.hookmode) {
        PT_CHECK(t, G.pre == G.post, "%d pre hooks and %d post hooks", G.pre, G.post);
    }
    qm_wipe(ic_cbs, &G.impl);
    qm_wipe(ic_cbs, &G.pimpl);
    for (int i = 0; i < nq; i++) { (free)(Q[i].data); (free)(Q[i].rdata); Q[i].data = Q[i].rdata = NULL; }
    ft = NULL;
    PT_CHECK(t, count_fds() == fds0, "%d descriptors leaked", count_fds() - fds0);
    if ((G.n_ok >= 2 && G.n_late) || G.lost) pt_nontrivial(t);
    pt_label(t, G.pxy ? "proxied" : G.topo >= T_LOCAL ? "local" : "direct");
    if (G.lost) pt_label(t, "lost-in-flight");
}

/* {{{ wire: a reference peer */
#define IC_SC_NOP 2
#define IC_SC_BYE 1
#define IC_SC_VERSION 3

static uint8_t wbuf[1 << 20]; static int wlen;        /* what the channel wrote */
static int wpeer; static bool weof;

static void w_read(void)
{
    for (;;) {
        char cb[256];
        struct iovec v = { wbuf + wlen, sizeof(wbuf) - wlen };
        struct msghdr m = { .msg_iov = &v, .msg_iovlen = 1, .msg_control = cb, .msg_controllen = sizeof(cb) };
        ssize_t n = __real_recvmsg(wpeer, &m, MSG_DONTWAIT);
        if (n >= 0) for (struct cmsghdr *c = CMSG_FIRSTHDR(&m); c; c = CMSG_NXTHDR(&m, c)) {
            if (c->cmsg_type != SCM_RIGHTS) continue;
            int nf = (c->cmsg_len - CMSG_LEN(0)) / sizeof(int);
            for (int i = 0; i < nf; i++) close(((int *)CMSG_DATA(c))[i]);
        }
        if (n > 0) { wlen += n; progress++; continue; }
        if (n == 0 || (errno != EAGAIN && errno != EINTR)) weof = true;
        break;
    }
}

static void w_pump(void)
{
    for (int quiet = 0; quiet < 3; ) {
        long p = progress;
        el_loop_timeout(0);
        w_read();
        if (p == progress) quiet++; else quiet = 0;
    }
}

static void w_send(const uint8_t *d, int len, int fd)
{
    for (int spin = 0; len && !weof && spin < 50; spin++) {
        char cb[CMSG_SPACE(sizeof(int))] __attribute__((aligned(8)));
        struct iovec v = { (void *)d, len };
        struct msghdr m = { .msg_iov = &v, .msg_iovlen = 1 };
        if (fd >= 0) {
            struct cmsghdr *h = (void *)cb;
            h->cmsg_len = CMSG_LEN(sizeof(int)); h->cmsg_level = SOL_SOCKET; h->cmsg_type = SCM_RIGHTS;
            memcpy(CMSG_DATA(h), &fd, sizeof(int));
            m.msg_control = cb; m.msg_controllen = sizeof(cb);
        }
        ssize_t n = __real_sendmsg(wpeer, &m, MSG_DONTWAIT | MSG_NOSIGNAL);
        if (n > 0) { d += n; len -= n; fd = -1; spin = 0; }
        else if (errno != EAGAIN) break;
        el_loop_timeout(0);
        w_read();
    }
}

typedef struct wm_t { int off, len, fd; int kind, q; } wm_t;
enum { W_QUERY, W_NOP, W_UNIMPL, W_ANSWER, W_FATAL, W_BADIOP, W_DELAY };

static uint32_t prio_bits(int prio) { return (((uint32_t)prio - 1) << IC_MSG_PRIORITY_SHIFT) & IC_MSG_PRIORITY_MASK; }

static uint32_t cmd_of(int rpc)
{
    switch (rpc) {
      case R_ECHO: return IOP_RPC_CMD(vr__m, a, echo);
      case R_ASK: return IOP_RPC_CMD(vr__m, a, ask);
      case R_NOP: return IOP_RPC_CMD(vr__m, a, nop);
      case R_TELL: return IOP_RPC_CMD(vr__m, a, tell);
      default: return IOP_RPC_CMD(vr__m, a, miss);
    }
}

static void put_hdr(sb_t *sb, uint32_t a, uint32_t cmd, uint32_t dlen)
{
    uint8_t b[12];
    for (int i = 0; i < 4; i++) { b[i] = a >> 8 * i; b[4 + i] = cmd >> 8 * i; b[8 + i] = dlen >> 8 * i; }
    sb_add(sb, b, 12);
}

static lstr_t t_pack(const iop_struct_t *st, const void *v)
{
    qv_t(i32) szs;
    t_qv_init(&szs, 64);
    int len = iop_bpack_size(st, v, &szs);
    uint8_t *b = t_new_raw(uint8_t, len + 1);
    iop_bpack(b, st, v, szs.tab);
    return LSTR_INIT_V((char *)b, len);
}

static lstr_t t_args(pt_t *t, int id)
{
    q_t *q = &Q[id];
    switch (q->rpc) {
      case R_ECHO: { IOP_RPC_T(vr__m, a, echo, args) v = { .id = id, .data = LSTR_INIT_V((char *)q->data, q->len) };
        return t_pack(IOP_RPC(vr__m, a, echo)->args, &v); }
      case R_TELL: { IOP_RPC_T(vr__m, a, tell, args) v = { .id = id, .data = LSTR_INIT_V((char *)q->data, q->len) };
        return t_pack(IOP_RPC(vr__m, a, tell)->args, &v); }
      case R_MISS: { IOP_RPC_T(vr__m, a, miss, args) v = { .id = id, .data = LSTR_INIT_V((char *)q->data, q->len) };
        return t_pack(IOP_RPC(vr__m, a, miss)->args, &v); }
      case R_NOP: { IOP_RPC_T(vr__m, a, nop, args) v = { .id = id };
        return t_pack(IOP_RPC(vr__m, a, nop)->args, &v); }
      default: {
        vr__blob__t *b = t_iop_new(vr__blob);
        b->id = id; b->data = LSTR_INIT_V((char *)q->data, q->len);
        b->more = (typeof(b->more)){ .len = q->len % 7, .tab = t_new(int, 7) };
        for (int i = 0; i < b->more.len; i++) b->more.tab[i] = i - id;
        return t_pack(&vr__blob__s, b); }
    }
}

/* the answer of the peer to query id of the channel */
static lstr_t t_ans(pt_t *t, int id)
{
    q_t *q = &Q[id];
    lstr_t d = LSTR_INIT_V((char *)q->rdata, q->rlen);
    switch (q->rpc) {
      case R_ECHO:
        if (q->act == A_OK) { IOP_RPC_T(vr__m, a, echo, res) v = { .id = id, .data = d };
            return t_pack(IOP_RPC(vr__m, a, echo)->result, &v);
        } else { IOP_RPC_T(vr__m, a, echo, exn) v = { .code = id, .data = d };
            return t_pack(IOP_RPC(vr__m, a, echo)->exn, &v); }
      case R_ASK: {
        vr__blob__t *b = t_iop_new(vr__blob);
        b->id = id; b->data = d;
        b->more = (typeof(b->more)){ .len = q->rlen % 5, .tab = t_new(int, 5) };
        for (int i = 0; i < b->more.len; i++) b->more.tab[i] = id * i;
        return t_pack(&vr__blob__s, b); }
    }
    return LSTR_EMPTY_V;
}

static int w_slot[NQ];

static void gen_peer_query(pt_t *t, sb_t *sb, wm_t *m, bool unix_)
{
    t_scope;
    q_t *q = &Q[nq];
    int id = nq++;
    uint32_t flags;
    lstr_t a, h = LSTR_EMPTY_V;

    memset(q, 0, sizeof(*q));
    q->rpc = P(45) ? R_ECHO : P(50) ? R_ASK : P(40) ? R_NOP : P(70) ? R_TELL : R_MISS;
    q->act = P(60) ? A_OK : P(50) ? A_EXN : P(70) ? A_ERR : A_NEVER;
    static const int errs[] = { IC_MSG_RETRY, IC_MSG_ABORT, IC_MSG_INVALID, IC_MSG_UNIMPLEMENTED, IC_MSG_SERVER_ERROR, IC_MSG_PROXY_ERROR };
    q->err = errs[U(6)];
    q->later = P(40);
    q->prio = U(3);
    q->hdr = P(25);
    gen_bytes(t, &q->data, &q->len, 30);
    gen_bytes(t, &q->rdata, &q->rlen, 30);
    q->fd = unix_ && P(20);
    q->fdtag = 2 * id + 1; q->rfdtag = 2 * id + 2;
    w_slot[id] = q->rpc == R_TELL ? 0 : P(80) ? id + 1 : (int)IC_MSG_SLOT_MASK - id;
    flags = prio_bits(q->prio) | (q->fd ? IC_MSG_HAS_FD : 0) | (q->hdr ? IC_MSG_HAS_HDR : 0);
    if (q->hdr) {
        ic__hdr__t hdr = IOP_UNION_VA(ic__hdr, simple, .login = LSTR(hdr_login(id)), .payload = -1, .workspace_id = OPT((uint64_t)id * 77));
        h = t_pack(&ic__hdr__s, &hdr);
    }
    a = t_args(t, id);
    m->off = sb->len;
    put_hdr(sb, flags | w_slot[id], cmd_of(q->rpc), a.len + h.len);
    sb_add(sb, h.s, h.len);
    sb_add(sb, a.s, a.len);
    m->kind = q->rpc == R_MISS ? W_UNIMPL : W_QUERY;
    m->q = id;
    m->len = sb->len - m->off;
    m->fd = q->fd ? mk_fd(q->fdtag) : -1;
    pt_note(t, "peer query %d: rpc %d act %d%s prio %d %d bytes%s%s", id, q->rpc, q->act, q->later ? " later" : "", q->prio, q->len, q->hdr ? " hdr" : "", q->fd ? " fd" : "");
}

/* parse what the channel wrote */
static int w_pos, w_first;
static int answers[NQ], slot_of[NQ];     /* answers seen by the peer; slots of the queries of the channel */

static void w_parse(pt_t *t, bool damaged)
{
    t_scope;
    while (wlen - w_pos >= 12) {
        const uint8_t *h = wbuf + w_pos;
        uint32_t a = get_unaligned_le32(h);
        int32_t cmd = get_unaligned_le32(h + 4);
        uint32_t dlen = get_unaligned_le32(h + 8);
        uint32_t slot = a & IC_MSG_SLOT_MASK;
        pstream_t ps;

        PT_CHECK(t, dlen < sizeof(wbuf), "the channel writes a message of %u bytes", dlen);
        if (wlen - w_pos < 12 + (int)dlen) break;
        ps = ps_init(h + 12, dlen);
        w_pos += 12 + dlen;
        if (cmd == IC_MSG_STREAM_CONTROL) {
            if (slot == IC_SC_VERSION) PT_CHECK(t, w_first == 0 && dlen == 4 && get_unaligned_le16(h + 12) == IC_VERSION, "version message");
            else PT_CHECK(t, (slot == IC_SC_NOP || slot == IC_SC_BYE) && dlen == 0, "stream control %u of %u bytes", slot, dlen);
            w_first++;
            continue;
        }
        w_first++;
        if (cmd > 0) {
            /* a query of the channel */
            int id = -1;
            for (int i = n_mine; i < nq; i++) if (slot_of[i] == -1) { t_scope; q_t *q = &Q[i]; lstr_t e = t_args(t, i);
                if (cmd_of(q->rpc) == (uint32_t)cmd && dlen >= (uint32_t)e.len && !memcmp(h + 12 + dlen - e.len, e.s, e.len)) { id = i; break; } }
            PT_CHECK(t, id >= 0, "the channel sends a query that was not made (cmd %x, %u bytes)", cmd, dlen);
            q_t *q = &Q[id];
            PT_CHECK(t, (slot == 0) == (q->rpc == R_TELL), "query %d: slot %x", id, slot);
            PT_CHECK(t, (a & IC_MSG_PRIORITY_MASK) == prio_bits(q->prio), "query %d: priority on the wire %x", id, a);
            PT_CHECK(t, !!(a & IC_MSG_HAS_HDR) == q->hdr, "query %d: flags %x", id, a);
            PT_CHECK(t, !!(a & IC_MSG_HAS_FD) == q->fd && !(a & (IC_MSG_IS_TRACED | (7u << 29))), "query %d: flags %x", id, a);
            for (int i = n_mine; i < nq; i++) PT_CHECK(t, i == id || !slot || Q[i].called || slot_of[i] != (int)slot, "two queries have the slot %u", slot);
            slot_of[id] = slot;
            q->delivered = 1;
            continue;
        }
        /* an answer */
        int id = -1;
        for (int i = 0; i < n_mine; i++) if (w_slot[i] == (int)slot && Q[i].rpc != R_TELL && slot) id = i;
        if (damaged && id < 0) continue;
        PT_CHECK(t, id >= 0, "answer to slot %u that asked nothing", slot);
        q_t *q = &Q[id];
        if (damaged) continue;
        PT_CHECK(t, !answers[id], "two answers to query %d", id);
        answers[id] = 1;
        if (q->rpc == R_MISS) { PT_CHECK(t, -cmd == IC_MSG_UNIMPLEMENTED && dlen == 0, "query %d: answer %d to an unknown RPC", id, -cmd); continue; }
        PT_CHECK(t, q->replied, "query %d is answered by nobody (status %d)", id, -cmd);
        PT_CHECK(t, -cmd == (q->act == A_OK ? IC_MSG_OK : q->act == A_ERR ? q->err : IC_MSG_EXN), "query %d: status %d", id, -cmd);
        PT_CHECK(t, (a & ~IC_MSG_SLOT_MASK) == prio_bits(q->prio), "query %d: flags of the answer %x", id, a);
        if (q->act == A_ERR) { PT_CHECK(t, dlen == 0, "query %d: error with data", id); continue; }
        lstr_t e = t_ans(t, id);
        PT_CHECK(t, lstr_equal(e, LSTR_PS_V(&ps)), "query %d: the answer is altered", id);
    }
}

static void run_wire(pt_t *t)
{
    int fd[2], fds0 = count_fds();
    SB(sb, 1 << 18);
    wm_t ms[24];
    int n = 0, ncut, pos = 0, fatal = -1, dmg = -1, delivered = 0;
    bool tcp = P(35);
    int version = -1;
    bool bye = false;

    nq = n_order = wlen = w_pos = w_first = 0;
    weof = false;
    p_clear(&G, 1);
    p_clear(answers, NQ);
    for (int i = 0; i < NQ; i++) slot_of[i] = -1;
    G.t = t;
    G.topo = tcp ? T_TCP : T_STREAM;
    G.wire = true;
    progress = 0;
    ft = NULL;
    qm_init(ic_cbs, &G.pimpl);
    qm_init(ic_cbs, &G.impl);
    ic_register(&G.impl, vr__m, a, echo); ic_register(&G.impl, vr__m, a, ask);
    ic_register(&G.impl, vr__m, a, nop); ic_register(&G.impl, vr__m, a, tell);

    if (tcp) {
        sockunion_t su; socklen_t sl = sizeof(su);
        int l = socket(AF_INET, SOCK_STREAM, 0);
        ic_set_tls_disabled(true);
        addr_info_str(&su, "127.0.0.1", 0, AF_INET);
        if (bind(l, &su.sa, sockunion_len(&su)) < 0 || listen(l, 1) < 0) abort();
        getsockname(l, &su.sa, &sl);
        fd[1] = socket(AF_INET, SOCK_STREAM, 0);
        if (connect(fd[1], &su.sa, sl) < 0) abort();
        fd_set_features(fd[1], FD_FEAT_TCP_NODELAY);
        fd[0] = accept(l, NULL, NULL);
        close(l);
        fd_set_features(fd[0], O_NONBLOCK);
        /* no TIME_WAIT: the ports would run out */
        struct linger lg = { .l_onoff = 1 };
        setsockopt(fd[1], SOL_SOCKET, SO_LINGER, &lg, sizeof(lg));
        version = P(20) ? 0 : P(70) ? 1 : 2;
    } else {
        if (socketpair(AF_UNIX, SOCK_STREAM, 0, fd) < 0) abort();
        fd_set_features(fd[0], O_NONBLOCK);
    }
    wpeer = fd[1];
    G.cli = G.srv = ic_new();
    G.cli->on_event = &on_event; G.cli->no_autodel = true; G.cli->impl = &G.impl;
    if (P(30)) G.cli->nextslot = IC_MSG_SLOT_MASK - U(4);
    ic_spawn(G.cli, fd[0], NULL);

    /* what the peer sends by itself */
    if (version > 0) {
        int uv = P(30), extra = version > 1 ? U(6) : 0;
        uint8_t v[4] = { version, 0, 0, uv ? 0x40 : 0 };
        put_hdr(&sb, IC_SC_VERSION, IC_MSG_STREAM_CONTROL, 4 + 4 * uv + extra);
        sb_add(&sb, v, 4);
        if (uv) sb_add(&sb, "\1\2\3\4", 4);
        sb_addnc(&sb, extra, 7);
        ms[n++] = (wm_t){ .off = 0, .len = sb.len, .fd = -1, .kind = W_NOP };
    }
    for (int i = 1 + U(9); i > 0; i--) {
        wm_t *m = &ms[n++];
        if (P(75) || (tcp && version == 0 && n == 1)) {
            gen_peer_query(t, &sb, m, !tcp);
        } else if (P(50)) {
            *m = (wm_t){ .off = sb.len, .len = 12, .fd = -1, .kind = W_NOP };
            put_hdr(&sb, IC_SC_NOP, IC_MSG_STREAM_CONTROL, 0);
        } else if (P(60)) {
            /* unknown command */
            *m = (wm_t){ .off = sb.len, .fd = -1, .kind = W_DELAY };
            int l = U(30);
            put_hdr(&sb, 0, 0x7fff0000 - U(1000), l);
            sb_addnc(&sb, l, 0xee);
            m->len = sb.len - m->off;
        } else if (fatal < 0) {
            /* something forbidden */
            int k = U(6);
            *m = (wm_t){ .off = sb.len, .fd = -1, .kind = W_FATAL };
            pt_note(t, "fatal %d", k);
            switch (k) {
              case 0: put_hdr(&sb, (1u << 29) << U(3) | 12, cmd_of(R_NOP), 0); break;
              case 1: put_hdr(&sb, 5, cmd_of(R_NOP), 0x80000000 | U(100)); break;
              case 2: put_hdr(&sb, 12345, -(P(50) ? IC_MSG_OK : IC_MSG_EXN), 0); break;
              case 3: put_hdr(&sb, IC_MSG_HAS_FD | 9, cmd_of(R_NOP), 0); break;
              case 4: put_hdr(&sb, 7, cmd_of(R_ECHO), 6); sb_add(&sb, "\377\377\377\377\377\377", 6); break;
              case 5: put_hdr(&sb, IC_MSG_HAS_HDR | 7, cmd_of(R_ECHO), 3); sb_add(&sb, "\1\2\3", 3); break;
            }
            m->len = sb.len - m->off;
            fatal = n - 1;
        } else {
            n--;
        }
    }
    n_mine = nq;
    if (fatal >= 0) G.anydown = true;
    if (P(20)) {
        dmg = U(sb.len);
        for (int i = 1 + U(3); i > 0; i--) {
            int at = dmg + U(MIN(60, sb.len - dmg));
            sb.data[at] = P(50) ? sb.data[at] ^ (1 << U(8)) : U(256);
        }
        if (P(30) && sb.len - dmg > 12) memmove(sb.data + dmg, sb.data + U(sb.len - 12), 12);
        pt_note(t, "damage at %d", dmg);
        G.dmg = G.anydown = true;
        for (int i = 0; i < n; i++) if (ms[i].kind == W_UNIMPL || (ms[i].kind == W_QUERY && ms[i].off + ms[i].len > dmg)) Q[ms[i].q].loose = true;
    }
    ncut = P(15) ? (int)U(sb.len + 1) : sb.len;

    /* segments, interleaved with queries of the channel and with answers */
    for (int k = 0; pos < ncut && !weof; k++) {
        int l = P(40) ? 1 + U(5) : P(50) ? 1 + U(100) : 1 + U(ncut - pos);
        int f = -1;
        if (k > 60) l = ncut - pos;
        l = MIN(l, ncut - pos);
        for (int i = 0; i < n; i++) {
            if (ms[i].fd < 0) continue;
            if (ms[i].off == pos) { f = ms[i].fd; ms[i].fd = -1; l = MIN(l, ms[i].len); break; }
            if (ms[i].off > pos && ms[i].off < pos + l) l = ms[i].off - pos;
        }
        w_send((uint8_t *)sb.data + pos, l, f);
        if (f >= 0) close(f);
        pos += l;
        if (P(60)) w_pump();
        if (P(15)) answer_some(t, false);
        if (P(20) && nq < NQ - 4 && G.cli->elh && (!tcp || G.cli->is_connected)) { G.burst++; make_query(t); Q[nq - 1].rfd = false; }
    }
    w_pump();
    for (int i = 0; i < n; i++) {
        wm_t *m = &ms[i];
        bool ok = m->off + m->len <= ncut && (dmg < 0 || m->off + m->len <= dmg) && (fatal < 0 || i < fatal);
        q_t *q = &Q[m->q];
        if (m->fd >= 0) close(m->fd);
        if (m->kind != W_QUERY) continue;
        if (ok) PT_CHECK(t, q->delivered, "query %d of the peer is not delivered", m->q);
        else if (dmg < 0) PT_CHECK(t, !q->delivered, "query %d of the peer is delivered though %s", m->q, fatal >= 0 && i > fatal ? "a forbidden message came before" : "it is not complete");
        delivered += q->delivered;
    }
    if (fatal >= 0 && dmg < 0 && ms[fatal].off + ms[fatal].len <= ncut) {
        PT_CHECK(t, !G.cli->elh && weof, "the channel stays open after a forbidden message");
    } else if (dmg < 0) {
        PT_CHECK(t, G.cli->elh && !weof, "the channel is closed though nothing forbidden was sent");
        answer_some(t, true);
        w_pump();
        w_parse(t, false);
        for (int i = 0; i < n; i++) {
            q_t *q = &Q[ms[i].q];
            if (ms[i].kind == W_QUERY && q->replied) PT_CHECK(t, answers[ms[i].q], "query %d of the peer is answered, and the answer not sent", ms[i].q);
            if (ms[i].kind == W_UNIMPL && ms[i].off + ms[i].len <= ncut) PT_CHECK(t, answers[ms[i].q], "no answer to the unknown RPC of query %d", ms[i].q);
        }
        /* the peer answers the queries of the channel, in any order */
        if (ncut == (int)sb.len && (!tcp || G.cli->is_connected)) {
            t_scope;
            SB_1k(out);
            int w[NQ], nw = 0;
            bool odd = false;
            for (int i = n_mine; i < nq; i++) {
                PT_CHECK(t, slot_of[i] >= 0 || Q[i].canceled, "query %d of the channel is never sent", i);
                if (Q[i].rpc != R_TELL && slot_of[i] > 0) w[nw++] = i;
            }
            while (nw) {
                int k = U(nw), id = w[k];
                q_t *q = &Q[id];
                uint32_t pb = prio_bits(q->prio);
                w[k] = w[--nw];
                if (q->act == A_NEVER) continue;
                q->replied = 1;
                if (q->rpc == R_MISS && q->act < A_ERR) { q->act = A_ERR; q->err = IC_MSG_UNIMPLEMENTED; }
                if (q->act == A_ERR) {
                    const char *why = q->err == IC_MSG_INVALID ? (P(50) ? "bad" : "") : P(4) ? "odd" : "";
                    if (*why == 'o') odd = G.anydown = true;    /* forbidden: the channel may close, or ignore the data */
                    put_hdr(&out, pb | slot_of[id], -q->err, *why ? 4 : 0);
                    if (*why) sb_add(&out, why, 4);
                } else if (P(8) && q->rpc != R_NOP) {
                    /* an answer that does not decode */
                    put_hdr(&out, pb | slot_of[id], q->act == A_OK ? -IC_MSG_OK : -IC_MSG_EXN, 5);
                    sb_add(&out, "\377\377\377\377\377", 5);
                    q->act = A_ERR; q->err = IC_MSG_INVALID;
                } else {
                    lstr_t a = t_ans(t, id);
                    put_hdr(&out, pb | slot_of[id], q->act == A_OK ? -IC_MSG_OK : -IC_MSG_EXN, a.len);
                    sb_add(&out, a.s, a.len);
                }
            }
            for (int p = 0; p < (int)out.len; ) {
                int l = P(40) ? 1 + U(5) : P(50) ? 1 + U(100) : 1 + U(out.len - p);
                if (out.len > 2000) l += 3000;
                l = MIN(l, (int)out.len - p);
                w_send((uint8_t *)out.data + p, l, -1);
                p += l;
                if (P(60)) w_pump();
            }
            w_pump();
            for (int i = n_mine; i < nq && !odd; i++) {
                if (Q[i].replied) PT_CHECK(t, Q[i].called, "query %d of the channel was answered", i);
                if (Q[i].replied && Q[i].act == A_ERR) PT_CHECK(t, Q[i].status == Q[i].err, "query %d: %s", i, ic_status_to_string(Q[i].status));
            }
            PT_CHECK(t, G.cli->elh || odd, "the channel is closed by valid answers");
            if (nq > n_mine) delivered++;
        }
    }
    w_parse(t, dmg >= 0);
    G.anydown = true;
    if (P(40)) { close(wpeer); wpeer = -1; for (int i = 0; i < 8; i++) el_loop_timeout(0); }
    ic_delete(&G.cli);
    G.srv = NULL;
    if (wpeer >= 0) close(wpeer);
    for (int i = n_mine; i < nq; i++) {
        PT_CHECK(t, Q[i].called == (Q[i].rpc != R_TELL), "query %d of the channel: callback called %d times", i, Q[i].called);
    }
    qm_wipe(ic_cbs, &G.impl);
    qm_wipe(ic_cbs, &G.pimpl);
    for (int i = 0; i < nq; i++) { (free)(Q[i].data); (free)(Q[i].rdata); Q[i].data = Q[i].rdata = NULL; }
    PT_CHECK(t, count_fds() == fds0, "%d descriptors leaked", count_fds() - fds0);
    if (delivered) pt_nontrivial(t);
    pt_label(t, dmg >= 0 ? "damaged" : fatal >= 0 ? "forbidden" : "valid");
}

/* }}} */

static void child_init(void)
{
    MODULE_REQUIRE(ic);
}

void pt_setup(void)
{
    e_set_verbosity(-1);
    signal(SIGPIPE, SIG_IGN);
}

const pt_target_t pt_targets[] = {
    { .name = "calls", .run = run_calls, .quick = 40000, .thorough = 600000, .cov_pct = 0, .batch = 50, .child_init = child_init },
    { .name = "wire", .run = run_wire, .quick = 30000, .thorough = 600000, .cov_pct = 40, .batch = 100, .child_init = child_init },
};
const int pt_targets_len = 2;
