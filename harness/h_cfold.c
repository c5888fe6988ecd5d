/* Constant expressions: the constant folder and the JSON expressions against
 * an exact evaluator. */
#include <lib-common/iop.h>
#include <lib-common/iop-json.h>
#include <viop/vt.iop.h>
#include "pt.h"

const char pt_rule[] =
    "constant expressions: random expression trees printed with the parentheses "
    "precedence needs (and some it does not), and random token sequences, fed "
    "to the constant folder and put in JSON integer fields, compared with a "
    "recursive-descent evaluator over 128-bit integers; non-trivial: at least "
    "two operators";

typedef __int128 i128;
typedef struct { int op; uint64_t n; bool neg; } tok_t;  /* op 0: number */
#define MAXT 160
static tok_t tk[MAXT];
static int ntk;

static int prec_of(int op)
{
    switch (op) {
      case CF_OP_EXP: return 7;
      case '*': case '/': case '%': return 5;
      case '+': case '-': return 4;
      case CF_OP_LSHIFT: case CF_OP_RSHIFT: return 3;
      case '&': return 2;
      case '|': case '^': return 1;
      default: return -1;
    }
}

/* {{{ reference */

/* s: signed type, sticky (a negative number went in an arithmetic operation).
 * The arithmetic of the folder is C-like: as soon as one operand is signed,
 * it is done on int64_t.  Mixing a signed operand and an unsigned one greater
 * than INT64_MAX is out of the domain (runspec). */
typedef struct { i128 v; bool s; } rv_t;
static int rpos;
static bool rfail, reither, runspec;

static rv_t r_ret(i128 v, bool s)
{
    if (v < INT64_MIN || v > (i128)UINT64_MAX) rfail = true;
    if (s && v > INT64_MAX) reither = true;
    return (rv_t){ v, s };
}

static rv_t r_apply(int op, rv_t a, rv_t b)
{
    uint64_t x = (uint64_t)a.v, y = (uint64_t)b.v;
    bool s = a.s || b.s;
    i128 r = 0;

    if (rfail) return a;
    switch (op) {
      case '+': case '-': case '*': case '/': case '%':
        if (s && (a.v > INT64_MAX || b.v > INT64_MAX)) runspec = true;
        break;
    }
    switch (op) {
      case '+': return r_ret(a.v + b.v, s);
      case '-': return r_ret(a.v - b.v, s || a.v < b.v);
      case '*':
        if (__builtin_mul_overflow(a.v, b.v, &r)) { rfail = true; return a; }
        return r_ret(r, s);
      case '/': if (!b.v) { rfail = true; return a; } return r_ret(a.v / b.v, s);
      case '%': if (!b.v) { rfail = true; return a; } return r_ret(a.v % b.v, s);
      case CF_OP_EXP:
        if (b.v < 0) { rfail = true; return a; }
        s = a.s && (b.v & 1);
        if (a.v == 0 || a.v == 1) return r_ret(b.v == 0 ? 1 : a.v, s);
        if (a.v == -1) return r_ret((b.v & 1) ? -1 : 1, s);
        if (b.v > 70) { rfail = true; return a; }
        r = 1;
        for (int i = 0; i < (int)b.v; i++) {
            r *= a.v;
            if (r > (i128)UINT64_MAX || r < -((i128)1 << 64)) { rfail = true; return a; }
        }
        return r_ret(r, a.s && (r > INT64_MAX || s));
      case '&': return r_ret((i128)(x & y), false);
      case '|': return r_ret((i128)(x | y), false);
      case '^': return r_ret((i128)(x ^ y), false);
      case CF_OP_LSHIFT: if (y >= 64) { rfail = true; return a; } return r_ret((i128)(x << y), false);
      case CF_OP_RSHIFT: if (y >= 64) { rfail = true; return a; } return r_ret((i128)(x >> y), false);
    }
    rfail = true;
    return a;
}

static rv_t r_expr(int minp);
static rv_t r_unary(void)
{
    rv_t v = { 0, false };

    if (rpos >= ntk || rfail) { rfail = true; return v; }
    if (tk[rpos].op == 0) {
        tok_t k = tk[rpos++];
        return r_ret(k.neg ? (i128)(int64_t)k.n : (i128)k.n, k.neg);
    }
    if (tk[rpos].op == '(') {
        rpos++;
        v = r_expr(0);
        if (rfail || rpos >= ntk || tk[rpos].op != ')') { rfail = true; return v; }
        rpos++;
        return v;
    }
    if (tk[rpos].op == '-') {
        rpos++;
        v = r_expr(7);
        if (rfail) return v;
        if (!v.s && v.v > (i128)1 << 63) runspec = true;
        return v.v == INT64_MIN ? r_ret((i128)1 << 63, false) : r_ret(-v.v, true);
    }
    if (tk[rpos].op == '~') {
        rpos++;
        v = r_expr(7);
        return r_ret((i128)(uint64_t)~(uint64_t)v.v, false);
    }
    rfail = true;
    return v;
}
static rv_t r_expr(int minp)
{
    rv_t v = r_unary();

    while (!rfail && rpos < ntk) {
        int op = tk[rpos].op, p = op ? prec_of(op) : -1;

        if (p < 0 || p < minp) break;
        rpos++;
        v = r_apply(op, v, r_expr(op == CF_OP_EXP ? p : p + 1));
        if (runspec) return v;
    }
    return v;
}
/* -1: refused, 0: value, 1: value or refused, 2: unspecified */
static int r_eval(i128 *out)
{
    rpos = 0; rfail = reither = runspec = false;
    *out = r_expr(0).v;
    if (runspec) return 2;
    if (rpos != ntk) return -1;
    return rfail ? -1 : reither;
}

/* }}} */
/* {{{ generation */

static void put(int op) { if (ntk < MAXT) tk[ntk++] = (tok_t){ .op = op }; }
static void put_num(pt_t *t)
{
    tok_t k = { 0 };

    switch (pt_u(t, 5)) {
      case 0: k.n = pt_u(t, 10); break;
      case 1: k.n = pt_u(t, 66); break;
      case 2: k.n = pt_bits(t, 32); break;
      case 3: k.n = pt_bits(t, 64); break;
      case 4: { static const uint64_t e[] = { INT64_MAX, 1ull << 63, UINT64_MAX, UINT32_MAX, 1ull << 32, (1ull << 63) + 1, UINT64_MAX - 1 }; k.n = pt_pick(t, e); } break;
      default: k.n = pt_sbits(t, 64); k.neg = (int64_t)k.n < 0; break;
    }
    if (ntk < MAXT) tk[ntk++] = k;
}
static const int binops[] = { '+', '-', '*', '/', '%', CF_OP_EXP, CF_OP_LSHIFT, CF_OP_RSHIFT, '&', '|', '^' };

static int nops;
static void gen_expr(pt_t *t, int depth, int ctx)
{
    int k = depth <= 0 ? 0 : pt_u(t, 9);
    bool par;

    if (k <= 1) {
        par = pt_p(t, 1, 10);
        if (par) put('(');
        put_num(t);
        if (par) put(')');
        return;
    }
    nops++;
    if (k <= 3) {
        int op = pt_bool(t) ? '-' : '~';
        par = ctx > 6 || pt_p(t, 1, 6);
        if (par) put('(');
        put(op);
        gen_expr(t, depth - 1, 6);
        if (par) put(')');
        return;
    }
    int op = pt_pick(t, binops), p = prec_of(op);
    par = p < ctx || pt_p(t, 1, 6);
    if (par) put('(');
    gen_expr(t, depth - 1, op == CF_OP_EXP ? p + 1 : p);
    put(op);
    gen_expr(t, depth - 1, op == CF_OP_EXP ? p : p + 1);
    if (par) put(')');
}

static void note_toks(pt_t *t)
{
    char b[4096];
    int l = 0;

    if (!pt_verbose(t)) return;
    b[0] = 0;
    for (int i = 0; i < ntk && l < 4000; i++) {
        tok_t k = tk[i];
        if (!k.op) l += (snprintf)(b + l, sizeof(b) - l, k.neg ? "[%lld] " : "%llu ", (long long)k.n);
        else if (k.op == CF_OP_EXP) l += (snprintf)(b + l, sizeof(b) - l, "** ");
        else if (k.op == CF_OP_LSHIFT) l += (snprintf)(b + l, sizeof(b) - l, "<< ");
        else if (k.op == CF_OP_RSHIFT) l += (snprintf)(b + l, sizeof(b) - l, ">> ");
        else l += (snprintf)(b + l, sizeof(b) - l, "%c ", k.op);
    }
    pt_note(t, "%s", b);
}

/* }}} */

static int fold(iop_cfolder_t *f, uint64_t *num, bool *sgn)
{
    for (int i = 0; i < ntk; i++) {
        int r = tk[i].op ? iop_cfolder_feed_operator(f, tk[i].op)
                         : iop_cfolder_feed_number(f, tk[i].n, tk[i].neg);
        if (r < 0) return -1;
    }
    return iop_cfolder_get_result(f, num, sgn);
}

static void check_api(pt_t *t, iop_cfolder_t *f)
{
    i128 exp;
    int re = r_eval(&exp), r;
    uint64_t num = 0xdead;
    bool sgn = false;

    r = fold(f, &num, &sgn);
    if (re < 0) {
        PT_CHECK(t, r < 0, "expression with no valid result folded to %lld/%d", (long long)num, sgn);
        return;
    }
    if (re == 2 || (re > 0 && r < 0)) return;
    PT_CHECK(t, r >= 0, "valid expression refused, expected %lld", (long long)exp);
    PT_CHECK(t, num == (uint64_t)exp && sgn == (exp < 0), "folded to %lld (signed %d), expected %lld (%s)",
             (long long)num, sgn, (long long)exp, exp < 0 ? "signed" : "unsigned");
    PT_CHECK(t, iop_cfolder_empty(f), "the folder is not empty after a result");
}

static void run_expr(pt_t *t)
{
    iop_cfolder_t *f = iop_cfolder_new();
    int n = 1 + pt_u(t, 2);

    for (int i = 0; i < n; i++) {
        ntk = 0; nops = 0;
        gen_expr(t, pt_range(t, 0, 4), 0);
        if (ntk >= MAXT) break;
        note_toks(t);
        if (nops >= 2) pt_nontrivial(t);
        i128 e;
        if (r_eval(&e) != 0) {
            iop_cfolder_delete(&f);
            f = iop_cfolder_new();
            pt_label(t, "refused");
            check_api(t, f);
            break;
        }
        check_api(t, f);
    }
    iop_cfolder_delete(&f);
}

static void run_toks(pt_t *t)
{
    iop_cfolder_t *f = iop_cfolder_new();

    ntk = 0;
    nops = 0;
    if (pt_bool(t)) {
        /* a well-formed one, then a few edits */
        gen_expr(t, pt_range(t, 1, 3), 0);
        if (ntk >= MAXT) { iop_cfolder_delete(&f); return; }
        for (int n = 1 + pt_u(t, 2); n-- > 0 && ntk; ) {
            int i = pt_u(t, ntk - 1);
            switch (pt_u(t, 2)) {
              case 0: memmove(tk + i, tk + i + 1, (ntk - i - 1) * sizeof(tok_t)); ntk--; break;
              case 1:
                if (ntk + 1 >= MAXT) break;
                memmove(tk + i + 1, tk + i, (ntk - i) * sizeof(tok_t)); ntk++; break;
              default: { tok_t x = tk[i]; int j = pt_u(t, ntk - 1); tk[i] = tk[j]; tk[j] = x; } break;
            }
        }
    } else {
        while (ntk < 40 && pt_more(t, 7)) {
            nops++;
            switch (pt_u(t, 6)) {
              case 0: case 1: case 2: put_num(t); break;
              case 3: put('('); break;
              case 4: put(')'); break;
              case 5: put(pt_bool(t) ? '-' : '~'); break;
              default: put(pt_pick(t, binops)); break;
            }
        }
    }
    note_toks(t);
    if (nops >= 2) pt_nontrivial(t);
    check_api(t, f);
    iop_cfolder_delete(&f);
}

static void run_json(pt_t *t)
{
    t_scope;
    SB_8k(sb);
    SB_1k(err);
    i128 exp;
    int re, r, kind = pt_u(t, 2);
    bool paren;
    vt__opt__t o;

    ntk = 0; nops = 0;
    gen_expr(t, pt_range(t, 1, 4), 0);
    if (ntk >= MAXT - 2) pt_discard(t);
    for (int i = 0; i < ntk; i++) {
        if (!tk[i].op && tk[i].neg) {
            /* no negative literal inside an expression */
            tk[i].neg = false;
            tk[i].n &= INT64_MAX;
        }
    }
    re = r_eval(&exp);
    paren = tk[0].op == '-' || (!tk[0].op && ntk == 1);
    sb_addf(&sb, "{\"%s\":", kind == 0 ? "u64" : kind == 1 ? "i64" : "d");
    if (paren) sb_adds(&sb, "(");
    for (int i = 0; i < ntk; i++) {
        if (pt_bool(t)) sb_adds(&sb, pt_p(t, 1, 8) ? "\n" : " ");
        switch (tk[i].op) {
          case 0:
            switch (pt_u(t, 3)) {
              case 0: sb_addf(&sb, "0x%jx", tk[i].n); break;
              case 1: sb_addf(&sb, "0%jo", tk[i].n); break;
              default: sb_addf(&sb, "%ju", tk[i].n); break;
            }
            break;
          case CF_OP_EXP: sb_adds(&sb, "**"); break;
          case CF_OP_LSHIFT: sb_adds(&sb, "<<"); break;
          case CF_OP_RSHIFT: sb_adds(&sb, ">>"); break;
          default: sb_addc(&sb, tk[i].op); break;
        }
        /* a number followed by something which strtod would eat */
        if (!tk[i].op) sb_adds(&sb, " ");
    }
    if (paren) sb_adds(&sb, ")");
    sb_adds(&sb, "}");
    if (pt_verbose(t)) pt_note(t, "%s", sb.data);
    if (nops >= 2) pt_nontrivial(t);

    pstream_t ps = ps_initsb(&sb);
    r = t_iop_junpack_ps(&ps, &vt__opt__s, &o, 0, &err);
    if (re < 0) {
        PT_CHECK(t, r < 0, "expression with no valid result accepted");
        return;
    }
    if (re == 2 || (re > 0 && r < 0)) return;
    if (kind == 0 && exp < 0) {
        PT_CHECK(t, r < 0, "negative expression accepted for an unsigned field");
        return;
    }
    PT_CHECK(t, r >= 0, "expression refused: %s", err.data);
    switch (kind) {
      case 0: PT_CHECK(t, OPT_ISSET(o.u64) && OPT_VAL(o.u64) == (uint64_t)exp, "%llu, expected %llu",
                       (unsigned long long)OPT_VAL(o.u64), (unsigned long long)exp); break;
      case 1: PT_CHECK(t, OPT_ISSET(o.i64) && OPT_VAL(o.i64) == (int64_t)exp, "%lld, expected %lld",
                       (long long)OPT_VAL(o.i64), (long long)exp); break;
      default: PT_CHECK(t, OPT_ISSET(o.d) && OPT_VAL(o.d) == (exp < 0 ? (double)(int64_t)exp : (double)(uint64_t)exp), "%.17g, expected %lld",
                       OPT_VAL(o.d), (long long)exp); break;
    }
}

void pt_setup(void) { }

const pt_target_t pt_targets[] = {
    { "expr", run_expr, 300000, 6000000, 10 },
    { "tokens", run_toks, 150000, 3000000, 10 },
    { "json", run_json, 100000, 2000000, 10 },
};
const int pt_targets_len = countof(pt_targets);
