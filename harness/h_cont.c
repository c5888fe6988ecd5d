/* Vectors, heaps, ordered trees, rings, lists, sorting: against models. */
#include <lib-common/container.h>
#include <lib-common/container-qheap.h>
#include <lib-common/container-rbtree.h>
#include <lib-common/container-ring.h>
#include <lib-common/container-dlist.h>
#include <lib-common/container-htlist.h>
#include <lib-common/sort.h>
#include "pt.h"

const char pt_rule[] =
    "containers: random histories over vectors, heaps, red-black trees, "
    "rings, double- and single-linked lists, compared after each step with an "
    "array model; random arrays (skewed, duplicated, sorted, reversed) given "
    "to sort/uniq/bisect/contains; non-trivial: the structure held at least 6 "
    "elements and saw a removal, or an array of at least 20 elements";

/* {{{ vectors */

typedef struct rec_t { uint32_t k; uint8_t f[9]; } rec_t;
qvector_t(rec, rec_t);

static rec_t mkrec(uint32_t k)
{
    rec_t r = { .k = k };
    memset(r.f, k * 31 + 1, sizeof(r.f));
    return r;
}
static bool rec_eq(const rec_t *a, const rec_t *b)
{
    return a->k == b->k && !memcmp(a->f, b->f, sizeof(a->f));
}

#define MAXV 3000
static rec_t mv[MAXV * 2];
static int ml;

static void m_splice(int pos, int rm, const rec_t *v, int n)
{
    memmove(mv + pos + n, mv + pos + rm, (ml - pos - rm) * sizeof(rec_t));
    for (int i = 0; i < n; i++) {
        mv[pos + i] = v[i];
    }
    ml += n - rm;
}

static void run_vec(pt_t *t)
{
    t_scope;
    qv_t(rec) v, w;
    int kind = pt_u(t, 3), maxlen = 0, removed = 0;
    uint32_t ctr = 0;

    ml = 0;
    switch (kind) {
      case 0: qv_init(&v); break;
      case 1: t_qv_init(&v, pt_u(t, 20)); break;
      case 2: mp_qv_init(&mem_pool_libc, &v, pt_u(t, 20)); break;
      default: qv_inita(&v, 16); break;
    }
    qv_init(&w);
    while (pt_more(t, 30)) {
        int op = pt_u(t, 15);
        int pos = pt_u(t, ml);

        switch (op) {
          case 0: case 1: {
            rec_t r = mkrec(ctr++);
            pt_note(t, "append");
            if (op) qv_appendp(&v, &r); else qv_append(&v, r);
            m_splice(ml, 0, &r, 1);
          } break;
          case 2: {
            rec_t r = mkrec(ctr++);
            pt_note(t, "insert at %d", pos);
            qv_insert(&v, pos, r);
            m_splice(pos, 0, &r, 1);
          } break;
          case 3:
            if (pos < ml) {
                pt_note(t, "remove %d", pos);
                qv_remove(&v, pos);
                m_splice(pos, 1, NULL, 0);
                removed++;
            }
            break;
          case 4: case 5: {
            int rm = pt_u(t, ml - pos);
            int n = pt_size(t, 300);
            static rec_t tmp[300];

            if (ml + n > MAXV) n = 0;
            for (int i = 0; i < n; i++) {
                tmp[i] = mkrec(ctr++);
            }
            pt_note(t, "splice at %d rm %d ins %d", pos, rm, n);
            if (op == 4) {
                rec_t *p = qv_splice(&v, pos, rm, tmp, n);
                PT_CHECK(t, p == v.tab + pos, "splice return value");
            } else {
                rec_t *p = qv_splice(&v, pos, rm, NULL, n);
                for (int i = 0; i < n; i++) {
                    p[i] = tmp[i];
                }
            }
            m_splice(pos, rm, tmp, n);
            removed += rm;
          } break;
          case 6: {
            int n = pt_size(t, 100);
            static rec_t tmp[100];

            if (ml + n > MAXV) n = 0;
            for (int i = 0; i < n; i++) {
                tmp[i] = mkrec(ctr++);
            }
            pt_note(t, "extend %d", n);
            qv_extend(&v, tmp, n);
            m_splice(ml, 0, tmp, n);
          } break;
          case 7: {
            int n = pt_size(t, 60);
            static rec_t zero[60];

            pt_note(t, "growlen0 %d", n);
            if (ml + n > MAXV) n = 0;
            if (n) {
                rec_t *p = qv_growlen0(&v, n);
                PT_CHECK(t, p == v.tab + ml, "growlen0 return value");
            }
            p_clear(zero, 60);
            m_splice(ml, 0, zero, n);
          } break;
          case 8: {
            int n = pt_u(t, ml);
            pt_note(t, "%s %d", pos & 1 ? "shrink" : "clip", n);
            if (pos & 1) {
                qv_shrink(&v, n);
                ml -= n;
            } else {
                qv_clip(&v, n);
                ml = n;
            }
            removed++;
          } break;
          case 9: {
            int n = pt_u(t, ml);
            pt_note(t, "skip %d", n);
            qv_skip(&v, n);
            m_splice(0, n, NULL, 0);
            removed++;
          } break;
          case 10: {
            int r1 = pt_u(t, 120), r2 = pt_u(t, 120);
            pt_note(t, "optimize %d %d", r1, r2);
            qv_optimize(&v, r1, r2);
          } break;
          case 11:
            pt_note(t, "copy out");
            qv_copy(&w, &v);
            PT_CHECK(t, w.len == ml, "copy length");
            for (int i = 0; i < ml; i++) {
                PT_CHECK(t, rec_eq(&w.tab[i], &mv[i]), "copy element %d", i);
            }
            break;
          case 12:
            if (ml) {
                pt_note(t, "pop/remove_last");
                if (pos & 1) {
                    qv_pop(&v);
                    m_splice(0, 1, NULL, 0);
                } else {
                    qv_remove_last(&v);
                    m_splice(ml - 1, 1, NULL, 0);
                }
                removed++;
            }
            break;
          case 13: {
            rec_t r = mkrec(ctr++);
            pt_note(t, "push");
            qv_push(&v, r);
            m_splice(0, 0, &r, 1);
          } break;
          case 14:
            if (pt_u(t, 3) == 0) {
                pt_note(t, "clear");
                qv_clear(&v);
                ml = 0;
            } else
            if (ml + w.len <= MAXV) {
                pt_note(t, "extend_tab w");
                qv_extend_tab(&v, &w);
                m_splice(ml, 0, w.tab, w.len);
            }
            break;
          case 15: {
            int n = pt_size(t, 200);
            pt_note(t, "grow %d", n);
            qv_grow(&v, n);
            PT_CHECK(t, v.size - v.len >= n, "grow reserve");
          } break;
        }
        PT_CHECK(t, v.len == ml, "length %d, expected %d", v.len, ml);
        PT_CHECK(t, v.size >= v.len, "capacity");
        for (int i = 0; i < ml; i++) {
            PT_CHECK(t, rec_eq(&v.tab[i], &mv[i]),
                     "element %d is %u, expected %u", i, v.tab[i].k, mv[i].k);
        }
        maxlen = MAX(maxlen, ml);
    }
    if (maxlen >= 6 && removed) {
        pt_nontrivial(t);
    }
    qv_wipe(&v);
    qv_wipe(&w);
}

/* sort/uniq/diff/bisect/find through the vector API, with blocks */
static void run_vec_ord(pt_t *t)
{
    t_scope;
    qv_t(u32) a, b, add, del, inter;
    int na = pt_size(t, 200), nb = pt_size(t, 200);
    uint32_t mask = pt_pick(t, ((uint32_t[]){ 7, 63, 1023, UINT32_MAX }));
    int (^cmp)(const uint32_t *, const uint32_t *) =
        ^int (const uint32_t *x, const uint32_t *y) { return CMP(*x, *y); };
    static uint32_t ca[200];
    __block int deleted = 0;
    bool found;

    t_qv_init(&a, 0); t_qv_init(&b, 0);
    t_qv_init(&add, 0); t_qv_init(&del, 0); t_qv_init(&inter, 0);
    for (int i = 0; i < na; i++) {
        ca[i] = pt_bits(t, 32) & mask;
        qv_append(&a, ca[i]);
    }
    for (int i = 0; i < nb; i++) {
        qv_append(&b, (uint32_t)pt_bits(t, 32) & mask);
    }
    /* linear find before sorting */
    for (int k = 0; k < 3; k++) {
        uint32_t x = na && pt_bool(t) ? ca[pt_u(t, na - 1)]
                                      : (uint32_t)pt_bits(t, 32) & mask;
        int pos = qv_find(u32)(&a, x, false, cmp), exp = -1;

        for (int i = 0; i < na && exp < 0; i++) {
            if (ca[i] == x) exp = i;
        }
        PT_CHECK(t, pos == exp, "linear find %u: %d, expected %d", x, pos, exp);
    }
    qv_sort(u32)(&a, cmp);
    qv_sort(u32)(&b, cmp);
    for (int i = 1; i < a.len; i++) {
        PT_CHECK(t, a.tab[i - 1] <= a.tab[i], "not sorted");
    }
    for (int i = 0; i < na; i++) {
        int c1 = 0, c2 = 0;
        for (int j = 0; j < na; j++) {
            c1 += ca[j] == ca[i];
            c2 += a.tab[j] == ca[i];
        }
        PT_CHECK(t, c1 == c2, "sort is not a permutation");
    }
    qv_uniq(u32)(&a, cmp, ^(uint32_t *v) { deleted++; });
    qv_uniq(u32)(&b, cmp, NULL);
    PT_CHECK(t, a.len + deleted == na, "uniq: %d kept, %d deleted of %d",
             a.len, deleted, na);
    for (int i = 1; i < a.len; i++) {
        PT_CHECK(t, a.tab[i - 1] < a.tab[i], "uniq");
    }
    for (int i = 0; i < na; i++) {
        PT_CHECK(t, qv_contains(u32)(&a, ca[i], true, cmp), "uniq lost %u", ca[i]);
        PT_CHECK(t, qv_contains(u32)(&a, ca[i], false, cmp), "uniq lost %u", ca[i]);
    }
    for (int k = 0; k < 4; k++) {
        uint32_t x = na && pt_bool(t) ? ca[pt_u(t, na - 1)]
                                      : (uint32_t)pt_bits(t, 32) & mask;
        int pos = qv_bisect(u32)(&a, x, &found, cmp), lower = 0;
        bool in = false;

        for (int i = 0; i < a.len; i++) {
            lower += a.tab[i] < x;
            in |= a.tab[i] == x;
        }
        PT_CHECK(t, found == in && pos == lower,
                 "bisect %u: %d %d, expected %d %d", x, pos, found, lower, in);
        PT_CHECK(t, qv_find(u32)(&a, x, true, cmp) == (in ? lower : -1),
                 "sorted find");
    }
    qv_diff(u32)(&a, &b, &add, &del, &inter, cmp);
    {
        int ia = 0, id = 0, ii = 0;

        for (int i = 0; i < a.len; i++) {
            if (qv_contains(u32)(&b, a.tab[i], false, cmp)) {
                PT_CHECK(t, ii < inter.len && inter.tab[ii++] == a.tab[i], "inter");
            } else {
                PT_CHECK(t, id < del.len && del.tab[id++] == a.tab[i], "del");
            }
        }
        for (int i = 0; i < b.len; i++) {
            if (!qv_contains(u32)(&a, b.tab[i], false, cmp)) {
                PT_CHECK(t, ia < add.len && add.tab[ia++] == b.tab[i], "add");
            }
        }
        PT_CHECK(t, ia == add.len && id == del.len && ii == inter.len,
                 "diff: extra elements");
    }
    {
        qv_t(u32) c;

        t_qv_init(&c, 0);
        qv_copy(&c, &a);
        qv_shuffle(&c);
        PT_CHECK(t, c.len == a.len, "shuffle");
        dsort32(c.tab, c.len);
        for (int i = 0; i < c.len; i++) {
            PT_CHECK(t, c.tab[i] == a.tab[i], "shuffle is not a permutation");
        }
    }
    pt_note(t, "%d and %d elements, mask %x", na, nb, mask);
    if (na >= 20 && nb >= 6) {
        pt_nontrivial(t);
    }
}

/* }}} */
/* {{{ heaps */

typedef struct hn_t { int key; int id; int pos; bool in; } hn_t;
#define HN_SETPOS(n, p)  ((n)->pos = (p))
#define HN_CMP(a, op, b)  ((a)->key op (b)->key)
qhp_min_t(hmin, hn_t *, HN_CMP, HN_SETPOS);
qhp_max_t(hmax, hn_t *, HN_CMP, HN_SETPOS);

#define HEAPRUN(NAME, H, BEST)                                               \
static void run_##NAME(pt_t *t)                                              \
{                                                                            \
    static hn_t nodes[400];                                                  \
    qhp_t(H) h;                                                              \
    int n = 0, len = 0, maxl = 0, rem = 0;                                   \
    int range = pt_pick(t, ((int[]){ 3, 20, 100000 }));                      \
    qhp_init(H, &h);                                                         \
    while (pt_more(t, 60) && n < 400) {                                      \
        int op = pt_u(t, 7);                                                 \
        switch (op) {                                                        \
          case 0: case 1: case 2: case 3: {                                  \
            hn_t *x = &nodes[n];                                             \
            x->key = pt_range(t, -range, range);                             \
            x->id = n++; x->in = true;                                       \
            pt_note(t, "insert #%d key %d", x->id, x->key);                  \
            int pos = qhp_insert(H, &h, x);                                  \
            PT_CHECK(t, qhp_get(H, &h, pos) == x, "insert position");        \
            len++;                                                           \
          } break;                                                           \
          case 4:                                                            \
            if (len) {                                                       \
                hn_t *f = qhp_first(H, &h);                                  \
                pt_note(t, "take first");                                    \
                hn_t *x = qhp_take_first(H, &h);                             \
                PT_CHECK(t, x == f && x->in && x->pos == -1, "take_first");  \
                x->in = false; len--; rem++;                                 \
                for (int i = 0; i < n; i++) {                                \
                    PT_CHECK(t, !nodes[i].in || !(nodes[i].key BEST x->key), \
                             "taken key %d, but %d was there", x->key,       \
                             nodes[i].key);                                  \
                }                                                            \
            }                                                                \
            break;                                                           \
          case 5: case 6:                                                    \
            if (len) {                                                       \
                int pos = pt_u(t, len - 1);                                  \
                hn_t *x = qhp_get(H, &h, pos);                               \
                if (op == 5) {                                               \
                    pt_note(t, "remove at %d (#%d)", pos, x->id);            \
                    PT_CHECK(t, qhp_remove(H, &h, pos) == x, "remove");      \
                    x->in = false; len--; rem++;                             \
                    PT_CHECK(t, x->pos == -1, "position of a removed node"); \
                } else {                                                     \
                    x->key = pt_range(t, -range, range);                     \
                    pt_note(t, "change #%d to %d", x->id, x->key);           \
                    int np = qhp_fixup(H, &h, pos);                          \
                    PT_CHECK(t, qhp_get(H, &h, np) == x, "fixup position");  \
                }                                                            \
            }                                                                \
            break;                                                           \
          case 7:                                                            \
            PT_CHECK(t, qhp_remove(H, &h, -1) == NULL, "remove(-1)");        \
            break;                                                           \
        }                                                                    \
        PT_CHECK(t, qhp_len(H, &h) == len, "heap length");                   \
        qhp_for_each_pos(H, pos, &h) {                                       \
            hn_t *x = qhp_get(H, &h, pos);                                   \
            PT_CHECK(t, x->in && x->pos == pos, "recorded position of #%d: " \
                     "%d, is at %d", x->id, x->pos, pos);                    \
        }                                                                    \
        if (len) {                                                           \
            hn_t *f = qhp_first(H, &h);                                      \
            for (int i = 0; i < n; i++) {                                    \
                PT_CHECK(t, !nodes[i].in || !(nodes[i].key BEST f->key),     \
                         "first is %d but %d is in the heap", f->key,        \
                         nodes[i].key);                                      \
            }                                                                \
        }                                                                    \
        maxl = MAX(maxl, len);                                               \
    }                                                                        \
    if (maxl >= 6 && rem) pt_nontrivial(t);                                  \
    /* draining yields everything, in order */                               \
    for (hn_t *last = NULL; len; len--) {                                    \
        hn_t *x = qhp_take_first(H, &h);                                     \
        PT_CHECK(t, x->in, "drained twice");                                 \
        PT_CHECK(t, !last || !(x->key BEST last->key), "drain order");       \
        x->in = false;                                                       \
        last = x;                                                            \
    }                                                                        \
    for (int i = 0; i < n; i++) {                                            \
        PT_CHECK(t, !nodes[i].in, "node lost");                              \
    }                                                                        \
    qhp_wipe(H, &h);                                                         \
}
HEAPRUN(heap_min, hmin, <)
HEAPRUN(heap_max, hmax, >)

/* }}} */
/* {{{ red-black trees */

typedef struct tn_t { int key; rb_node_t node; bool in; } tn_t;
#define TN_KEY(n)  ((n)->key)
rb_tree_t(tn, tn_t, int, node, TN_KEY, CMP);

static int depth_of(rb_node_t *n)
{
    if (!n) return 0;
    return 1 + MAX(depth_of(n->left), depth_of(n->right));
}

static void run_rbtree(pt_t *t)
{
    enum { U = 600 };
    static tn_t nodes[U];
    static tn_t other[U];
    rb_t(tn) rb;
    int u = pt_pick(t, ((int[]){ 8, 60, U })), len = 0, maxl = 0, rem = 0;

    rb_init(tn, &rb);
    for (int i = 0; i < U; i++) {
        nodes[i] = (tn_t){ .key = i * 3 };
        other[i] = (tn_t){ .key = i * 3 };
    }
    while (pt_more(t, 60)) {
        int op = pt_u(t, 7), i = pt_u(t, u - 1), n = 1, step = 1;

        if (op >= 6) {
            n = pt_size(t, u);
            step = pt_range(t, 1, 5);
        }
        pt_note(t, "op %d at %d x %d step %d", op, i, n, step);
        for (int k = 0; k < n; k++, i = (i + step) % u) {
            switch (op) {
              case 0: case 1: case 6: {
                tn_t *e = &nodes[i];
                tn_t *old;

                if (e->in) {
                    old = rb_insert(tn, &rb, &other[i]);
                    PT_CHECK(t, old == e, "collision of %d", e->key);
                } else
                if (op == 1) {
                    bool coll;
                    rb_node_t *parent, **slot;

                    slot = rb_find_slot(tn, &rb, e->key, &parent, &coll);
                    PT_CHECK(t, !coll, "find_slot collision");
                    rb_insert_at(tn, &rb, parent, slot, e);
                    e->in = true;
                    len++;
                } else {
                    old = rb_insert(tn, &rb, e);
                    PT_CHECK(t, !old, "insert of %d collided", e->key);
                    e->in = true;
                    len++;
                }
              } break;
              case 2: case 3: case 7:
                if (nodes[i].in) {
                    if (op == 3) {
                        PT_CHECK(t, rb_tn_remove_key(&rb, i * 3) == &nodes[i], "remove_key");
                    } else {
                        rb_remove(tn, &rb, &nodes[i]);
                    }
                    nodes[i].in = false;
                    len--;
                    rem++;
                } else
                if (op == 3) {
                    PT_CHECK(t, !rb_tn_remove_key(&rb, i * 3), "remove_key of an absent key");
                }
                break;
              default: {
                int key = pt_range(t, -2, u * 3 + 2);
                tn_t *lo = NULL, *up = NULL;

                for (int j = 0; j < u; j++) {
                    if (!nodes[j].in) continue;
                    if (nodes[j].key <= key) lo = &nodes[j];
                    if (nodes[j].key >= key && !up) up = &nodes[j];
                }
                PT_CHECK(t, rb_find(tn, &rb, key) == (lo && lo == up ? lo : NULL), "find %d", key);
                PT_CHECK(t, rb_find_lower(tn, &rb, key) == lo, "lower %d", key);
                PT_CHECK(t, rb_find_upper(tn, &rb, key) == up, "upper %d", key);
              } break;
            }
        }
        /* full in-order walk, both directions */
        {
            int seen = 0, d, lim = 0;
            tn_t *e = rb_first(tn, &rb);

            for (int j = 0; j < u; j++) {
                if (nodes[j].in) {
                    PT_CHECK(t, e == &nodes[j], "forward walk at key %d", j * 3);
                    e = rb_next(tn, e);
                    seen++;
                }
            }
            PT_CHECK(t, !e && seen == len, "forward walk end");
            e = rb_last(tn, &rb);
            for (int j = u; j-- > 0; ) {
                if (nodes[j].in) {
                    PT_CHECK(t, e == &nodes[j], "backward walk at key %d", j * 3);
                    e = rb_prev(tn, e);
                }
            }
            PT_CHECK(t, !e, "backward walk end");
            d = depth_of(rb.root);
            while ((1 << lim) < len + 1) lim++;
            PT_CHECK(t, d <= 2 * lim, "depth %d for %d nodes", d, len);
        }
        maxl = MAX(maxl, len);
    }
    if (maxl >= 6 && rem) pt_nontrivial(t);
}

/* }}} */
/* {{{ rings */

#define NOWIPE(x)
DO_RING(uint64_t, r64, IGNORE);

static void run_ring(pt_t *t)
{
    r64_ring r;
    static uint64_t m[20000];
    int first = 8000, len = 0, maxl = 0, rem = 0;
    uint64_t ctr = 1;

    r64_ring_init(&r);
    while (pt_more(t, 60)) {
        int op = pt_u(t, 7), n = 1;

        if (op >= 6) {
            n = pt_u(t, 60);
        }
        pt_note(t, "op %d x %d", op, n);
        for (int k = 0; k < n && len < 3000 && first > 100 && first + len < 19000; k++) {
            uint64_t v = 0;

            switch (op) {
              case 0: case 6: case 1:
                r64_ring_push(&r, ctr);
                m[first + len++] = ctr++;
                break;
              case 2: case 7:
                r64_ring_unshift(&r, ctr);
                m[--first] = ctr++;
                len++;
                break;
              case 3:
                PT_CHECK(t, r64_ring_pop(&r, &v) == (len > 0), "pop");
                if (len) {
                    PT_CHECK(t, v == m[first + --len], "pop value");
                    rem++;
                }
                break;
              case 4:
                PT_CHECK(t, r64_ring_shift(&r, &v) == (len > 0), "shift");
                if (len) {
                    PT_CHECK(t, v == m[first], "shift value");
                    first++;
                    len--;
                    rem++;
                }
                break;
              case 5: {
                int s = pt_range(t, -1, len + 1);
                PT_CHECK(t, r64_ring_skip(&r, s) == (s >= 0 && s <= len), "skip %d", s);
                if (s >= 0 && s <= len) {
                    first += s;
                    len -= s;
                    rem++;
                }
              } break;
            }
        }
        PT_CHECK(t, r.len == len, "length %d, expected %d", r.len, len);
        for (int i = 0; i < len; i++) {
            PT_CHECK(t, r64_ring_get(&r, i) == m[first + i], "element %d", i);
        }
        {
            int i = 0;
            ring_for_each_entry(r64, e, &r) {
                PT_CHECK(t, i < len && e == m[first + i], "iteration %d", i);
                i++;
            }
            PT_CHECK(t, i == len, "iteration length");
        }
        if (len) {
            PT_CHECK(t, *r64_ring_get_first_ptr(&r) == m[first], "first");
            PT_CHECK(t, *r64_ring_get_last_ptr(&r) == m[first + len - 1], "last");
        } else {
            PT_CHECK(t, !r64_ring_get_first_ptr(&r), "first of an empty ring");
        }
        maxl = MAX(maxl, len);
    }
    if (maxl >= 6 && rem) pt_nontrivial(t);
    r64_ring_wipe(&r);
}

/* }}} */
/* {{{ lists */

typedef struct ln_t { int id; int where; dlist_t l; } ln_t;

static void run_dlist(pt_t *t)
{
    enum { N = 24, L = 3 };
    static ln_t nodes[N];
    dlist_t lists[L];
    int m[L][N], ln[L] = { 0 };
    int rem = 0, maxl = 0;

    for (int i = 0; i < N; i++) {
        nodes[i].id = i;
        nodes[i].where = -1;
        dlist_init(&nodes[i].l);
    }
    for (int i = 0; i < L; i++) {
        dlist_init(&lists[i]);
    }
#define M_DEL(x) do { int _l = nodes[x].where, _k; \
        for (_k = 0; m[_l][_k] != (x); _k++); \
        memmove(&m[_l][_k], &m[_l][_k + 1], (ln[_l] - _k - 1) * sizeof(int)); \
        ln[_l]--; nodes[x].where = -1; } while (0)
#define M_INS(lst, k, x) do { int _l = (lst), _kk = (k); \
        memmove(&m[_l][_kk + 1], &m[_l][_kk], (ln[_l] - _kk) * sizeof(int)); \
        m[_l][_kk] = (x); ln[_l]++; nodes[x].where = _l; } while (0)
    while (pt_more(t, 40)) {
        int op = pt_u(t, 11), x = pt_u(t, N - 1), l = pt_u(t, L - 1);
        int l2 = pt_u(t, L - 1);
        ln_t *n = &nodes[x];

        pt_note(t, "op %d node %d list %d/%d", op, x, l, l2);
        switch (op) {
          case 0:
            if (n->where < 0) { dlist_add(&lists[l], &n->l); M_INS(l, 0, x); }
            break;
          case 1:
            if (n->where < 0) { dlist_add_tail(&lists[l], &n->l); M_INS(l, ln[l], x); }
            break;
          case 2: case 3: {
            int y;

            if (n->where >= 0 || !ln[l]) break;
            y = pt_u(t, ln[l] - 1);
            if (op == 2) {
                dlist_add_after(&nodes[m[l][y]].l, &n->l);
                M_INS(l, y + 1, x);
            } else {
                dlist_add_before(&nodes[m[l][y]].l, &n->l);
                M_INS(l, y, x);
            }
          } break;
          case 4:
            if (n->where >= 0) {
                dlist_remove(&n->l);
                PT_CHECK(t, dlist_is_empty(&n->l), "removed node not detached");
                M_DEL(x);
                rem++;
            }
            break;
          case 5:
            if (ln[l]) { int y = m[l][0]; dlist_pop(&lists[l]); M_DEL(y); rem++; }
            break;
          case 6:
            if (n->where >= 0) { dlist_move(&lists[l], &n->l); M_DEL(x); M_INS(l, 0, x); }
            break;
          case 7:
            if (n->where >= 0) { dlist_move_tail(&lists[l], &n->l); M_DEL(x); M_INS(l, ln[l], x); }
            break;
          case 8: case 9:
            if (l != l2) {
                int cnt = ln[l2], tmp[N];

                memcpy(tmp, m[l2], sizeof(tmp));
                if (op == 8) dlist_splice(&lists[l], &lists[l2]);
                else dlist_splice_tail(&lists[l], &lists[l2]);
                ln[l2] = 0;
                for (int k = 0; k < cnt; k++) {
                    if (op == 8) M_INS(l, k, tmp[k]); else M_INS(l, ln[l], tmp[k]);
                }
            }
            break;
          case 10:
            if (l != l2 && ln[l] && !ln[l2]) {
                int y = pt_u(t, ln[l] - 1), tmp[N];

                dlist_cut_at(&lists[l], &nodes[m[l][y]].l, &lists[l2]);
                memcpy(tmp, m[l], sizeof(tmp));
                for (int k = 0; k <= y; k++) {
                    M_DEL(tmp[k]);
                    M_INS(l2, ln[l2], tmp[k]);
                }
            }
            break;
          case 11: {
            /* remove while iterating */
            int mod = pt_range(t, 2, 4), k = 0, tmp[N], cnt = ln[l];

            memcpy(tmp, m[l], sizeof(tmp));
            dlist_for_each_entry(ln_t, e, &lists[l], l) {
                PT_CHECK(t, k < cnt && e->id == tmp[k], "iteration under removal");
                k++;
                if (e->id % mod == 0) {
                    dlist_remove(&e->l);
                    M_DEL(e->id);
                    rem++;
                }
            }
            PT_CHECK(t, k == cnt, "iteration under removal: %d of %d", k, cnt);
          } break;
        }
        for (int i = 0; i < L; i++) {
            int k = 0;

            dlist_for_each_entry(ln_t, e, &lists[i], l) {
                PT_CHECK(t, k < ln[i] && e->id == m[i][k], "list %d at %d", i, k);
                k++;
            }
            PT_CHECK(t, k == ln[i], "list %d has %d elements, expected %d", i, k, ln[i]);
            dlist_for_each_rev(e, &lists[i]) {
                k--;
                PT_CHECK(t, k >= 0 && dlist_entry(e, ln_t, l)->id == m[i][k], "reverse");
            }
            PT_CHECK(t, dlist_is_empty(&lists[i]) == !ln[i]
                     && dlist_is_singular(&lists[i]) == (ln[i] == 1)
                     && dlist_is_empty_or_singular(&lists[i]) == (ln[i] <= 1),
                     "emptiness predicates");
            if (ln[i]) {
                PT_CHECK(t, dlist_is_first(&lists[i], &nodes[m[i][0]].l)
                         && dlist_is_last(&lists[i], &nodes[m[i][ln[i] - 1]].l),
                         "first/last");
            }
            maxl = MAX(maxl, ln[i]);
        }
    }
    if (maxl >= 6 && rem) pt_nontrivial(t);
}

typedef struct hl_t { int id; bool in; htnode_t l; } hl_t;

static void run_htlist(pt_t *t)
{
    enum { N = 24, L = 3 };
    static hl_t nodes[N];
    htlist_t lists[L];
    int m[L][N], ln[L] = { 0 }, rem = 0, maxl = 0;

    for (int i = 0; i < N; i++) {
        nodes[i] = (hl_t){ .id = i };
    }
    for (int i = 0; i < L; i++) {
        htlist_init(&lists[i]);
    }
    while (pt_more(t, 40)) {
        int op = pt_u(t, 6), x = pt_u(t, N - 1), l = pt_u(t, L - 1), l2 = pt_u(t, L - 1);

        pt_note(t, "op %d node %d list %d/%d", op, x, l, l2);
        switch (op) {
          case 0:
            if (!nodes[x].in) {
                htlist_add(&lists[l], &nodes[x].l);
                memmove(&m[l][1], &m[l][0], ln[l] * sizeof(int));
                m[l][0] = x; ln[l]++; nodes[x].in = true;
            }
            break;
          case 1:
            if (!nodes[x].in) {
                htlist_add_tail(&lists[l], &nodes[x].l);
                m[l][ln[l]++] = x; nodes[x].in = true;
            }
            break;
          case 2:
            if (!nodes[x].in) {
                int y = pt_range(t, -1, ln[l] - 1);

                htlist_add_after(&lists[l], y < 0 ? NULL : &nodes[m[l][y]].l, &nodes[x].l);
                memmove(&m[l][y + 2], &m[l][y + 1], (ln[l] - y - 1) * sizeof(int));
                m[l][y + 1] = x; ln[l]++; nodes[x].in = true;
            }
            break;
          case 3:
            if (ln[l]) {
                hl_t *e = htlist_pop_entry(&lists[l], hl_t, l);

                PT_CHECK(t, e->id == m[l][0], "pop");
                e->in = false;
                memmove(&m[l][0], &m[l][1], --ln[l] * sizeof(int));
                rem++;
            }
            break;
          case 4: case 5:
            if (l != l2) {
                int tmp[N], n1 = ln[l], n2 = ln[l2];

                if (op == 4) {
                    htlist_splice(&lists[l], &lists[l2]);
                    memcpy(tmp, m[l], sizeof(tmp));
                    memcpy(m[l], m[l2], n2 * sizeof(int));
                    memcpy(m[l] + n2, tmp, n1 * sizeof(int));
                } else {
                    htlist_splice_tail(&lists[l], &lists[l2]);
                    memcpy(m[l] + n1, m[l2], n2 * sizeof(int));
                }
                /* the source is not specified after a splice */
                htlist_init(&lists[l2]);
                ln[l] = n1 + n2;
                ln[l2] = 0;
            }
            break;
          case 6:
            if (l != l2 && !ln[l]) {
                htlist_move(&lists[l], &lists[l2]);
                memcpy(m[l], m[l2], ln[l2] * sizeof(int));
                ln[l] = ln[l2];
                ln[l2] = 0;
            }
            break;
        }
        for (int i = 0; i < L; i++) {
            int k = 0;
            hl_t *e;

            htlist_for_each_entry(e, &lists[i], l) {
                PT_CHECK(t, k < ln[i] && e->id == m[i][k], "list %d at %d", i, k);
                k++;
            }
            PT_CHECK(t, k == ln[i], "list %d: %d elements, expected %d", i, k, ln[i]);
            PT_CHECK(t, htlist_is_empty(&lists[i]) == !ln[i], "is_empty");
            if (ln[i]) {
                PT_CHECK(t, htlist_first_entry(&lists[i], hl_t, l)->id == m[i][0]
                         && htlist_last_entry(&lists[i], hl_t, l)->id == m[i][ln[i] - 1],
                         "first/last");
            }
            maxl = MAX(maxl, ln[i]);
        }
    }
    if (maxl >= 6 && rem) pt_nontrivial(t);
}

/* }}} */
/* {{{ numeric sorts */

#define NUMSORT(W, UT, ST)                                                   \
static int qcmp_u##W(const void *a, const void *b)                           \
{ UT x = *(const UT *)a, y = *(const UT *)b; return x < y ? -1 : x > y; }    \
static int qcmp_s##W(const void *a, const void *b)                           \
{ ST x = *(const ST *)a, y = *(const ST *)b; return x < y ? -1 : x > y; }    \
static void sort_##W(pt_t *t, int n)                                         \
{                                                                            \
    UT *a = malloc(n * sizeof(UT) + 1), *b = malloc(n * sizeof(UT) + 1);     \
    int shape = pt_u(t, 6);                                                  \
    UT mask = pt_pick(t, ((uint64_t[]){ UINT64_MAX, 3, 255, 0xffff,          \
                                        0xff00ff00ff00ff00ull,               \
                                        0x8000000000000003ull |              \
                                        (1ull << (W - 1)) }));               \
    pt_note(t, "%d-bit, %d elements, shape %d, mask %llx", W, n, shape,      \
            (unsigned long long)mask);                                       \
    if (n < 40) {                                                            \
        for (int i = 0; i < n; i++) a[i] = pt_bits(t, W) & mask;             \
    } else {                                                                 \
        pt_fill(t, a, n * sizeof(UT));                                       \
        for (int i = 0; i < n; i++) a[i] &= mask;                            \
    }                                                                        \
    switch (shape) {                                                         \
      case 4: qsort(a, n, sizeof(UT), qcmp_u##W); break;                     \
      case 5: for (int i = 0; i < n; i++) a[i] = (UT)(n - i); break;         \
      case 6: for (int i = 0; i < n; i++) a[i] = (UT)(i ^ 0x55); break;      \
    }                                                                        \
    for (int sg = 0; sg < 2; sg++) {                                         \
        int u = 0, m;                                                        \
        UT *c = malloc(n * sizeof(UT) + 1);                                  \
        memcpy(b, a, n * sizeof(UT));                                        \
        memcpy(c, a, n * sizeof(UT));                                        \
        qsort(b, n, sizeof(UT), sg ? qcmp_s##W : qcmp_u##W);                 \
        if (sg) dsort_i##W((ST *)c, n); else dsort##W(c, n);                 \
        for (int i = 0; i < n; i++) {                                        \
            PT_CHECK(t, b[i] == c[i], "dsort%s%d: element %d of %d",         \
                     sg ? "_i" : "", W, i, n);                               \
        }                                                                    \
        for (int k = 0; k < 4; k++) {                                        \
            UT x = n && pt_bool(t) ? a[pt_u(t, n - 1)] + pt_u(t, 1)          \
                                   : (UT)pt_bits(t, W);                      \
            bool found = false, in;                                          \
            size_t lo = 0, hi = 0, pos;                                      \
            for (int i = 0; i < n; i++) {                                    \
                bool lt = sg ? (ST)c[i] < (ST)x : c[i] < x;                  \
                lo += lt; hi += lt || c[i] == x;                             \
            }                                                                \
            in = hi > lo;                                                    \
            pos = sg ? bisect_i##W((ST)x, (ST *)c, n, &found)                \
                     : bisect##W(x, c, n, &found);                           \
            PT_CHECK(t, found == in, "bisect: found");                       \
            PT_CHECK(t, in ? pos >= lo && pos < hi : pos == lo,              \
                     "bisect: position %zu not in [%zu,%zu]", pos, lo, hi);  \
            PT_CHECK(t, (sg ? contains_i##W((ST)x, (ST *)c, n)               \
                            : contains##W(x, c, n)) == in, "contains");      \
        }                                                                    \
        for (int i = 0; i < n; i++) {                                        \
            if (!u || b[u - 1] != b[i]) b[u++] = b[i];                       \
        }                                                                    \
        m = sg ? (int)uniq_i##W((ST *)c, n) : (int)uniq##W(c, n);            \
        PT_CHECK(t, m == u, "uniq%d: %d values, expected %d", W, m, u);      \
        PT_CHECK(t, !memcmp(b, c, u * sizeof(UT)), "uniq%d: values", W);     \
        free(c);                                                             \
    }                                                                        \
    free(a); free(b);                                                        \
}
NUMSORT(8, uint8_t, int8_t)
NUMSORT(16, uint16_t, int16_t)
NUMSORT(32, uint32_t, int32_t)
NUMSORT(64, uint64_t, int64_t)

static int rcmp(const void *a, const void *b, void *arg)
{
    const rec_t *x = a, *y = b;
    return CMP(x->k, y->k);
}
static int ndel;
static uint64_t delsum;
static void rdel(void *v, void *arg) { ndel++; delsum += ((rec_t *)v)->f[0] + 256 * ((rec_t *)v)->k; }

static void run_sort(pt_t *t)
{
    int n = pt_size(t, 2500);

    switch (pt_u(t, 4)) {
      case 0: sort_8(t, n); break;
      case 1: sort_16(t, n); break;
      case 2: sort_32(t, n); break;
      case 3: sort_64(t, n); break;
      default: {
        /* generic uniq on a sorted array of records: first of each class
         * stays, the others go through the callback */
        rec_t *a = calloc(n + 1, sizeof(rec_t)), *b = calloc(n + 1, sizeof(rec_t));
        uint32_t k = 0;
        int u = 0, m, del = 0;
        uint64_t sum = 0;
        int dup = pt_u(t, 4);
        uint64_t s = pt_u(t, UINT64_MAX);

        n = MIN(n, 600);
        for (int i = 0; i < n; i++) {
            if ((int)(pt_splitmix(&s) % 5) >= dup) k++;
            a[i] = mkrec(k);
            a[i].f[0] = i;
        }
        for (int i = 0; i < n; i++) {
            if (!u || b[u - 1].k != a[i].k) {
                b[u++] = a[i];
            } else {
                del++;
                sum += a[i].f[0] + 256 * a[i].k;
            }
        }
        for (int j = 0; j < 3; j++) {
            rec_t x = mkrec(pt_u(t, k + 1));
            bool f = false, in = false;
            size_t lo = 0, hi, p;

            for (int i = 0; i < n; i++) {
                lo += a[i].k < x.k;
                in |= a[i].k == x.k;
            }
            for (hi = lo; hi < (size_t)n && a[hi].k == x.k; hi++);
            p = bisect(&x, a, sizeof(rec_t), n, &f, rcmp, NULL);
            PT_CHECK(t, f == in && (in ? p >= lo && p < hi : p == lo), "generic bisect");
            PT_CHECK(t, contains(&x, a, sizeof(rec_t), n, rcmp, NULL) == in, "generic contains");
        }
        ndel = 0;
        delsum = 0;
        m = uniq(a, sizeof(rec_t), n, rcmp, NULL, rdel, NULL);
        PT_CHECK(t, m == u && ndel == del && delsum == sum,
                 "uniq: %d kept, %d deleted; expected %d, %d", m, ndel, u, del);
        for (int i = 0; i < u; i++) {
            PT_CHECK(t, a[i].k == b[i].k && rec_eq(&a[i], &b[i]), "uniq element %d", i);
        }
        free(a); free(b);
      } break;
    }
    if (n >= 20) pt_nontrivial(t);
}

/* }}} */

void pt_setup(void) { }
#define TG(n, q)  { .name = #n, .run = run_##n, .quick = q * 6, .thorough = q * 120, .batch = 400 }
const pt_target_t pt_targets[] = {
    TG(vec, 120000), TG(vec_ord, 60000), TG(heap_min, 60000),
    TG(heap_max, 60000), TG(rbtree, 60000), TG(ring, 60000),
    TG(dlist, 100000), TG(htlist, 80000), TG(sort, 60000),
};
const int pt_targets_len = countof(pt_targets);
