/* Tries and bitmaps of the paged store against sorted arrays. */
#include <lib-common/core.h>
#include <lib-common/container-qvector.h>
#include <lib-common/qps.h>
#include <lib-common/qps-hat.h>
#include <lib-common/qps-bitmap.h>
#include "pt.h"

const char pt_rule[] =
    "hat: histories of single and bulk sets, set0, removals, clears and "
    "snapshots on one trie (values of 1, 2, 4, 8 or 16 bytes, nullab or "
    "not), checked by lookups, through old paths, by enumerations from any "
    "key, by jumps and by enumerations during which the trie changes. "
    "bitmap: the same on bitmaps. non-trivial: a trie that has had over 600 "
    "keys, or a bitmap with keys under two roots";

/* {{{ model: sorted array */

typedef struct ent_t {
    uint32_t k;
    qhat_128_t v;          /* bitmap: l is the bit */
} ent_t;

#define MAXE  60000
static ent_t *E;
static int    ne;

static int e_find(uint32_t k)          /* first entry >= k */
{
    int l = 0, r = ne;

    while (l < r) {
        int m = (l + r) / 2;
        if (E[m].k < k) {
            l = m + 1;
        } else {
            r = m;
        }
    }
    return l;
}
static ent_t *e_get(uint32_t k)
{
    int i = e_find(k);
    return i < ne && E[i].k == k ? &E[i] : NULL;
}
static bool e_set(uint32_t k, qhat_128_t v)
{
    int i = e_find(k);

    if (i < ne && E[i].k == k) {
        E[i].v = v;
        return true;
    }
    assert (ne < MAXE);
    memmove(&E[i + 1], &E[i], (ne - i) * sizeof(*E));
    E[i] = (ent_t){ k, v };
    ne++;
    return false;
}
static bool e_del(uint32_t k)
{
    int i = e_find(k);

    if (i < ne && E[i].k == k) {
        memmove(&E[i], &E[i + 1], (ne - i - 1) * sizeof(*E));
        ne--;
        return true;
    }
    return false;
}

/* }}} */
/* {{{ store */

static qps_t *qps_g;
static char   dir_g[PATH_MAX];

static void clean_dir(void)
{
    char cmd[PATH_MAX + 64];
    /* what previous processes of this worker left behind */
    (snprintf)(cmd, sizeof(cmd), "rm -rf '%s'/qps-*", pt_tmpdir());
    if (system(cmd)) {
        abort();
    }
}

static void store_init(void)
{
    clean_dir();
    e_set_verbosity(-1);
    MODULE_REQUIRE(qps);
    (snprintf)(dir_g, sizeof(dir_g), "%s/qps-%d", pt_tmpdir(), getpid());
    qps_g = qps_create(dir_g, "vt", 0755, NULL, 0);
    if (!qps_g) {
        abort();
    }
    E = (malloc)(sizeof(*E) * MAXE);
}

static void do_snapshot(pt_t *t)
{
    uint32_t gen = qps_g->generation;

    pt_note(t, "snapshot");
    qps_snapshot(qps_g, NULL, 0, ^(uint32_t g) { });
    qps_snapshot_wait(qps_g);
    PT_CHECK(t, qps_g->generation != gen, "generation after a snapshot");
    if (pt_bool(t)) {
        pt_note(t, "gc");
        qps_gc_run(qps_g);
    }
    pt_label(t, "snapshot");
}

static void check_leaks(pt_t *t)
{
    qps_roots_t roots;

    qps_roots_init(&roots);
    PT_CHECK(t, qps_check_leaks(qps_g, &roots) >= 0,
             "pages or handles leaked by the destruction");
    qps_roots_wipe(&roots);
    PT_CHECK(t, __qps_check_maps(qps_g, false) >= 0, "inconsistent store");
}

/* }}} */
/* {{{ keys */

static uint32_t base_g[4];

static void gen_bases(pt_t *t)
{
    for (int i = 0; i < 4; i++) {
        base_g[i] = pt_bits(t, 32);
        if (pt_bool(t)) {
            base_g[i] &= ~0xfffu;
        }
    }
}

static uint32_t gen_key(pt_t *t)
{
    switch (pt_u(t, 6)) {
      case 0: return pt_bits(t, 32);
      case 1: return ~(uint32_t)pt_size(t, 5000);
      case 2: case 3:
        if (ne) {
            return E[pt_u(t, ne - 1)].k + pt_range(t, -2, 2);
        }
        /* FALLTHROUGH */
      case 4: return base_g[pt_u(t, 3)] + (uint32_t)pt_size(t, 20000);
      case 5: return base_g[pt_u(t, 3)] + ((uint32_t)pt_u(t, 2000) << pt_u(t, 20));
      default: return ne ? E[pt_bool(t) ? ne - 1 : 0].k : 0;
    }
}

static uint32_t gen_step(pt_t *t)
{
    switch (pt_u(t, 6)) {
      case 0: case 1: case 2: return 1;
      case 3: return 1 + pt_u(t, 5);
      case 4: return 1 + pt_u(t, 3000);
      case 5: return 1u << pt_u(t, 22);
      default: return (1u << pt_u(t, 22)) + pt_range(t, -3, 3);
    }
}

static int gen_count(pt_t *t)
{
    switch (pt_u(t, 7)) {
      case 0: case 1: return 1 + pt_u(t, 3);
      case 2: return 1 + pt_u(t, 40);
      case 3: return 200 + pt_u(t, 900);
      case 4: return 1000 + pt_u(t, 60);
      case 5: return 1300 + pt_u(t, 800);
      case 6: return 1 + pt_u(t, 4500);
      default: return 1 + pt_u(t, 300);
    }
}

/* }}} */
/* {{{ hat */

static qhat_t hat;
static qps_handle_t hat_h;
static int  vlen;
static bool nullab;
static int  nz_g;     /* non-zero values */

static qhat_128_t mkval(uint64_t s)
{
    qhat_128_t v = { .l = 0 };
    uint64_t a = pt_splitmix(&s), b = pt_splitmix(&s);

    if (vlen < 8) {
        a &= (1ull << (8 * vlen)) - 1;
    }
    if (vlen == 16) {
        /* a half may be zero */
        v.l = (b & 3) ? a : 0;
        v.h = (b & 3) == 1 ? 0 : b | 1;
        return v;
    }
    v.l = a ?: 1;
    return v;
}

static qhat_128_t rdval(const void *p)
{
    qhat_128_t v = { .l = 0 };
    memcpy(&v, p, vlen);
    return v;
}
static bool veq(qhat_128_t a, qhat_128_t b)
{
    return a.l == b.l && a.h == b.h;
}
static bool vz(qhat_128_t a)
{
    return !a.l && !a.h;
}

static void get_checked(pt_t *t, uint32_t k, const void *p, const char *what)
{
    ent_t *e = e_get(k);

    if (!e) {
        if (nullab) {
            PT_CHECK(t, !p, "%s(%u): present", what, k);
        } else {
            PT_CHECK(t, !p || vz(rdval(p)), "%s(%u): not zero", what, k);
        }
        return;
    }
    if (!p) {
        PT_CHECK(t, !nullab && vz(e->v), "%s(%u): absent", what, k);
        return;
    }
    PT_CHECK(t, veq(rdval(p), e->v), "%s(%u): %llx/%llx instead of %llx/%llx",
             what, k, (long long)rdval(p).h, (long long)rdval(p).l,
             (long long)e->v.h, (long long)e->v.l);
}

static void chk_key(pt_t *t, uint32_t k)
{
    get_checked(t, k, qhat_get(&hat, k), "get");
    if (nullab) {
        PT_CHECK(t, qhat_is_null(&hat, k) == !e_get(k), "is_null(%u)", k);
    }
}

static void op_set(pt_t *t, qhat_path_t *path, uint32_t k, qhat_128_t v)
{
    ent_t *e = e_get(k);
    void *p;

    if (ne >= MAXE - 10 && !e) {
        return;
    }
    p = path ? qhat_set_path(path) : qhat_set(&hat, k);
    if (e) {
        PT_CHECK(t, veq(rdval(p), e->v), "set(%u): old value", k);
    } else {
        PT_CHECK(t, vz(rdval(p)), "set(%u): slot not zero", k);
    }
    memcpy(p, &v, vlen);
    e_set(k, v);
}

static void op_remove(pt_t *t, qhat_path_t *path, uint32_t k, bool want)
{
    ent_t *e = e_get(k);
    qhat_128_t v;
    bool r;

    memset(&v, 0x55, sizeof(v));
    r = path ? qhat_remove_path(path, want ? &v : NULL)
             : qhat_remove(&hat, k, want ? &v : NULL);
    PT_CHECK(t, r == !!e, "remove(%u) returned %d", k, r);
    if (want) {
        qhat_128_t z = { .l = 0 };
        PT_CHECK(t, veq(rdval(&v), e ? e->v : z), "remove(%u): value", k);
    }
    e_del(k);
}

static void op_set0(pt_t *t, qhat_path_t *path, uint32_t k, bool want)
{
    ent_t *e = e_get(k);
    qhat_128_t v, z = { .l = 0 };

    if (ne >= MAXE - 10 && !e) {
        return;
    }
    memset(&v, 0x55, sizeof(v));
    if (path) {
        qhat_set0_path(path, want ? &v : NULL);
    } else {
        qhat_set0(&hat, k, want ? &v : NULL);
    }
    if (want && (e || !nullab)) {
        PT_CHECK(t, veq(rdval(&v), e ? e->v : z), "set0(%u): value", k);
    }
    if (nullab) {
        e_set(k, z);
    } else {
        e_del(k);
    }
}

static void chk_en(pt_t *t, qhat_enumerator_t *en, int i, const char *what)
{
    if (i >= ne) {
        PT_CHECK(t, en->end, "%s: not ended but at %u", what, en->key);
    } else {
        PT_CHECK(t, !en->end, "%s: ended before %u", what, E[i].k);
        PT_CHECK(t, en->key == E[i].k, "%s: at %u instead of %u", what, en->key,
                 E[i].k);
    }
}

static void chk_full(pt_t *t, bool safe)
{
    int i = 0;

    for (qhat_enumerator_t en = qhat_get_enumerator(&hat); !en.end;
         qhat_enumerator_next(&en, safe))
    {
        chk_en(t, &en, i, "enumeration");
        get_checked(t, en.key, safe ? qhat_enumerator_get_value_safe(&en)
                    : qhat_enumerator_get_value_unsafe(&en), "enumerated value");
        i++;
    }
    PT_CHECK(t, i == ne, "%d keys enumerated instead of %d", i, ne);
}

static void chk_stats(pt_t *t)
{
    bool sub;
    int nz = 0;

    PT_CHECK(t, qhat_check_consistency_flags(&hat,
             QHAT_CHECK_DONT_PANIC | QHAT_CHECK_CONTENT, &sub) >= 0,
             "inconsistent trie");
    for (int i = 0; i < ne; i++) {
        nz += !vz(E[i].v);
    }
    if (hat.do_stats) {
        qps_hptr_deref(qps_g, &hat.root_cache);
        PT_CHECK(t, (int)hat.root->entry_count == nz,
                 "entry count %u instead of %d", hat.root->entry_count, nz);
    }
    if (hat.do_stats) {
        uint32_t e = hat.root->entry_count, k = hat.root->key_stored_count,
                 z = hat.root->zero_stored_count, f = hat.root->flat_count,
                 c = hat.root->compact_count, n = hat.root->node_count;

        (void)k; (void)z;
        qhat_compute_counts(&hat, false);
        qhat_compute_counts(&hat, true);
        PT_CHECK(t, e == hat.root->entry_count && f == hat.root->flat_count
                 && c == hat.root->compact_count && n == hat.root->node_count,
                 "the statistics drifted: %u/%u entries, %u/%u flat, %u/%u "
                 "compact, %u/%u nodes", e, hat.root->entry_count, f,
                 hat.root->flat_count, c, hat.root->compact_count, n,
                 hat.root->node_count);
        pt_label(t, "stats");
    }
}

static void run_hat(pt_t *t)
{
    static const int lens[] = { 1, 2, 4, 8, 16 };
    uint64_t s;
    qhat_path_t old;
    bool has_old = false;
    int maxn = 0;

    nullab = pt_bool(t);
    vlen = pt_pick(t, lens);
    ne = 0;
    gen_bases(t);
    s = pt_u(t, UINT32_MAX);
    pt_note(t, "values of %d bytes%s, bases %u %u %u %u", vlen,
            nullab ? ", nullable" : "", base_g[0], base_g[1], base_g[2],
            base_g[3]);
    hat_h = qhat_create(qps_g, vlen, nullab);
    qhat_init(&hat, qps_g, hat_h);
    if (pt_p(t, 1, 3)) {
        qhat_compute_counts(&hat, true);
    }

    while (pt_more(t, 18)) {
        uint32_t k, step;
        int n;

        switch (pt_u(t, 15)) {
          case 0: case 1: case 2: case 3:
            k = gen_key(t); n = gen_count(t); step = gen_step(t);
            pt_note(t, "set %d keys from %u by %u", n, k, step);
            for (int i = 0; i < n; i++, k += step) {
                op_set(t, NULL, k, mkval(s + i));
            }
            pt_splitmix(&s);
            break;
          case 4: case 5:
            k = gen_key(t); n = gen_count(t); step = gen_step(t);
            pt_note(t, "remove %d keys from %u by %u", n, k, step);
            for (int i = 0; i < n; i++, k += step) {
                op_remove(t, NULL, k, i & 1);
            }
            break;
          case 6: {
            /* most of a range of existing keys */
            int i = ne ? pt_u(t, ne - 1) : 0, mod = 1 + pt_u(t, 20);

            n = gen_count(t);
            pt_note(t, "remove up to %d keys from %u but 1/%d", n,
                    ne ? E[i].k : 0, mod + 1);
            for (int j = 0; j < n && i < ne; j++) {
                if (j % (mod + 1) == mod) {
                    i++;
                } else {
                    op_remove(t, NULL, E[i].k, j & 1);
                }
            }
            break;
          }
          case 7:
            k = gen_key(t); n = gen_count(t); step = gen_step(t);
            pt_note(t, "set0 %d keys from %u by %u", n, k, step);
            for (int i = 0; i < n; i++, k += step) {
                op_set0(t, NULL, k, i & 1);
            }
            break;
          case 8:
            if (pt_p(t, 1, 5)) {
                pt_note(t, "clear");
                qhat_clear(&hat);
                ne = 0;
            }
            break;
          case 9:
            if (pt_p(t, 1, 5)) {
                do_snapshot(t);
            } else
            if (pt_bool(t)) {
                pt_note(t, "init again");
                qhat_init(&hat, qps_g, hat_h);
                has_old = false;
            }
            break;
          case 10:
            chk_full(t, pt_bool(t));
            chk_stats(t);
            break;
          case 11: case 12: {
            /* jumps and steps, no change */
            bool safe = pt_bool(t);
            qhat_enumerator_t en;
            int i;

            k = pt_bool(t) ? 0 : gen_key(t);
            pt_note(t, "enumerate from %u%s", k, safe ? " safe" : "");
            en = qhat_get_enumerator_at(&hat, k);
            i = e_find(k);
            chk_en(t, &en, i, "enumerator_at");
            while (i < ne && pt_more(t, 12)) {
                if (pt_bool(t)) {
                    int u = 1 + pt_size(t, 400);

                    pt_note(t, "next x %d", u);
                    for (int j = 0; j < u && i < ne; j++) {
                        qhat_enumerator_next(&en, safe);
                        i++;
                        chk_en(t, &en, i, "next");
                    }
                } else {
                    k = pt_bool(t) ? E[i].k + (uint32_t)pt_size(t, 5000)
                      : pt_bool(t) ? E[pt_range(t, i, ne - 1)].k
                      : gen_key(t);
                    if (k < E[i].k) {
                        continue;
                    }
                    pt_note(t, "go to %u", k);
                    qhat_enumerator_go_to(&en, k, safe);
                    i = e_find(k);
                    chk_en(t, &en, i, "go_to");
                }
                if (i < ne && pt_bool(t)) {
                    get_checked(t, en.key, safe
                                ? qhat_enumerator_get_value_safe(&en)
                                : qhat_enumerator_get_value_unsafe(&en),
                                "enumerator value");
                }
            }
            break;
          }
          case 13: case 14: {
            /* the trie changes during the enumeration */
            qhat_enumerator_t en;
            int i;
            int left = 3000;

            k = pt_bool(t) ? 0 : gen_key(t);
            pt_note(t, "enumerate and change from %u", k);
            en = qhat_get_enumerator_at(&hat, k);
            i = e_find(k);
            chk_en(t, &en, i, "enumerator_at");
            while (!en.end && pt_more(t, 15) && left > 0) {
                uint32_t cur = en.key;
                qhat_path_t path;
                bool moved = false;
                int u;

                i = e_find(cur);
                switch (pt_u(t, 6)) {
                  case 0:
                    u = 1 + pt_size(t, 700);
                    pt_note(t, "remove the current and go on, x %d", u);
                    for (int j = 0; j < u && i < ne; j++, left--) {
                        cur = E[i].k;
                        if (j & 1) {
                            path = qhat_enumerator_get_path(&en);
                            op_remove(t, &path, cur, true);
                        } else {
                            op_remove(t, NULL, cur, true);
                        }
                        qhat_enumerator_next(&en, true);
                        i = cur == UINT32_MAX ? ne : e_find(cur + 1);
                        chk_en(t, &en, i, "next after a removal");
                    }
                    moved = true;
                    break;
                  case 1:
                    u = 1 + pt_size(t, 300);
                    pt_note(t, "remove the next %d", u);
                    for (int j = 0; j < u && i + 1 < ne; j++) {
                        op_remove(t, NULL, E[i + 1].k, false);
                    }
                    break;
                  case 2:
                    u = 1 + pt_size(t, 1500);
                    step = gen_step(t);
                    pt_note(t, "set %d keys from %u by %u", u, cur, step);
                    for (int j = 0; j < u; j++) {
                        op_set(t, NULL, cur + j * step, mkval(s + j));
                    }
                    pt_splitmix(&s);
                    break;
                  case 3:
                    path = qhat_enumerator_get_path(&en);
                    get_checked(t, cur, qhat_get_path(&path), "enumerator path");
                    if (pt_bool(t)) {
                        pt_note(t, "set the current");
                        op_set(t, &path, cur, mkval(s));
                        pt_splitmix(&s);
                    } else
                    if (nullab) {
                        pt_note(t, "set0 the current");
                        op_set0(t, &path, cur, true);
                    }
                    break;
                  case 4:
                    if (i) {
                        pt_note(t, "remove one before");
                        op_remove(t, NULL, E[pt_u(t, i - 1)].k, false);
                    }
                    break;
                  default:
                    break;
                }
                i = e_find(cur);
                if (i < ne && E[i].k == cur && en.key == cur && pt_bool(t)) {
                    get_checked(t, cur, qhat_enumerator_get_value_safe(&en),
                                "value after a change");
                }
                if (moved) {
                    continue;
                }
                if (pt_bool(t)) {
                    qhat_enumerator_next(&en, true);
                    i = cur == UINT32_MAX ? ne : e_find(cur + 1);
                    chk_en(t, &en, i, "next after a change");
                } else {
                    k = cur + (uint32_t)pt_size(t, 5000);
                    if (k < cur) {
                        continue;
                    }
                    qhat_enumerator_go_to(&en, k, true);
                    i = e_find(k);
                    chk_en(t, &en, i, "go_to after a change");
                }
                pt_label(t, "changed under enumeration");
            }
            break;
          }
          case 15:
            /* paths outlive changes */
            if (has_old) {
                switch (pt_u(t, 3)) {
                  case 0: case 1:
                    get_checked(t, old.key, qhat_get_path(&old), "old path");
                    break;
                  case 2:
                    pt_note(t, "set by an old path %u", old.key);
                    op_set(t, &old, old.key, mkval(s));
                    pt_splitmix(&s);
                    break;
                  case 3:
                    pt_note(t, "remove by an old path %u", old.key);
                    op_remove(t, &old, old.key, true);
                    break;
                }
            } else {
                k = gen_key(t);
                pt_note(t, "path to %u", k);
                qhat_path_init(&old, &hat, k);
                get_checked(t, k, qhat_get_path(&old), "path");
                has_old = true;
            }
            break;
        }
        for (int i = 0; i < 8; i++) {
            uint64_t r = pt_splitmix(&s);
            chk_key(t, ne && (r & 3) ? E[(r >> 8) % ne].k + (r & 4 ? 1 : 0)
                    : r >> 32);
        }
        if (ne > maxn) {
            maxn = ne;
        }
    }
    chk_full(t, true);
    chk_stats(t);
    qhat_destroy(&hat);
    check_leaks(t);
    if (maxn > 600) {
        pt_nontrivial(t);
    }
}

/* }}} */
/* {{{ bitmap */

static qps_bitmap_state_t b_model(uint32_t k)
{
    ent_t *e = e_get(k);
    return e ? (e->v.l ? QPS_BITMAP_1 : QPS_BITMAP_0)
             : nullab ? QPS_BITMAP_NULL : QPS_BITMAP_0;
}
static void b_set(pt_t *t, qps_bitmap_t *m, uint32_t k, int what)
{
    qps_bitmap_state_t exp = b_model(k), got;

    if (ne >= MAXE - 10) {
        return;
    }
    switch (what) {
      case 0:
        got = qps_bitmap_set(m, k);
        e_set(k, (qhat_128_t){ .l = 1 });
        break;
      case 1:
        got = qps_bitmap_reset(m, k);
        if (nullab) {
            e_set(k, (qhat_128_t){ .l = 0 });
        } else {
            e_del(k);
        }
        break;
      default:
        got = qps_bitmap_remove(m, k);
        e_del(k);
        break;
    }
    PT_CHECK(t, got == exp, "%s(%u) returned %d instead of %d",
             what == 0 ? "set" : what == 1 ? "reset" : "remove", k, got, exp);
}
static void b_en(pt_t *t, qps_bitmap_enumerator_t *en, int i, const char *what)
{
    if (i >= ne) {
        PT_CHECK(t, en->end, "%s: not ended but at %u", what, en->key.key);
        return;
    }
    PT_CHECK(t, !en->end, "%s: ended before %u", what, E[i].k);
    PT_CHECK(t, en->key.key == E[i].k, "%s: at %u instead of %u", what,
             en->key.key, E[i].k);
    PT_CHECK(t, en->value == !!E[i].v.l, "%s: value of %u", what, E[i].k);
}

static void run_bitmap(pt_t *t)
{
    qps_handle_t h;
    qps_bitmap_t map;
    uint64_t s;

    nullab = pt_bool(t);
    ne = 0;
    gen_bases(t);
    s = pt_u(t, UINT32_MAX);
    h = qps_bitmap_create(qps_g, nullab);
    qps_bitmap_init(&map, qps_g, h);
    pt_note(t, "%s bitmap, bases %u %u %u %u", nullab ? "nullable" : "simple",
            base_g[0], base_g[1], base_g[2], base_g[3]);
    while (pt_more(t, 25)) {
        uint32_t k, step;
        int n, what;

        switch (pt_u(t, 9)) {
          case 0: case 1: case 2: case 3:
            k = gen_key(t); n = gen_count(t); step = gen_step(t);
            what = pt_u(t, 2);
            pt_note(t, "%s %d keys from %u by %u",
                    what == 0 ? "set" : what == 1 ? "reset" : "remove",
                    n, k, step);
            for (int i = 0; i < n; i++, k += step) {
                b_set(t, &map, k, what);
            }
            break;
          case 4:
            if (ne) {
                int i = pt_u(t, ne - 1);
                n = gen_count(t);
                pt_note(t, "remove %d keys from %u", n, E[i].k);
                for (int j = 0; j < n && i < ne; j++) {
                    b_set(t, &map, E[i].k, 2);
                }
            }
            break;
          case 5:
            if (pt_p(t, 1, 6)) {
                pt_note(t, "clear");
                qps_bitmap_clear(&map);
                ne = 0;
            } else
            if (pt_p(t, 1, 6)) {
                do_snapshot(t);
            } else
            if (pt_bool(t)) {
                qps_bitmap_init(&map, qps_g, h);
            }
            break;
          case 6: case 7: case 8: {
            bool change = pt_bool(t), safe = change || pt_bool(t);
            qps_bitmap_enumerator_t en;
            int i;

            k = pt_bool(t) ? 0 : gen_key(t);
            pt_note(t, "enumerate from %u%s", k, safe ? " safe" : "");
            en = qps_bitmap_get_enumerator_at(&map, k);
            i = e_find(k);
            b_en(t, &en, i, "enumerator_at");
            while (!en.end && pt_more(t, 12)) {
                uint32_t cur = en.key.key;

                if (change && pt_bool(t)) {
                    int u = 1 + pt_size(t, 300);

                    what = pt_u(t, 3);
                    step = gen_step(t);
                    pt_note(t, "change %d of %d by %u from %u", what, u, step,
                            cur);
                    for (int j = 0; j < u; j++) {
                        b_set(t, &map, cur + j * step, what > 2 ? 2 : what);
                    }
                    pt_label(t, "changed under enumeration");
                }
                if (pt_bool(t)) {
                    if (cur == UINT32_MAX) {
                        qps_bitmap_enumerator_next(&en, safe);
                        PT_CHECK(t, en.end, "next after the last key");
                        break;
                    }
                    qps_bitmap_enumerator_next(&en, safe);
                    i = e_find(cur + 1);
                    b_en(t, &en, i, "next");
                } else {
                    i = e_find(cur);
                    k = pt_bool(t) || i >= ne ? cur + (uint32_t)pt_size(t, 70000)
                      : E[pt_range(t, i, ne - 1)].k;
                    if (k < cur) {
                        continue;
                    }
                    pt_note(t, "go to %u", k);
                    qps_bitmap_enumerator_go_to(&en, k, safe);
                    i = e_find(k);
                    b_en(t, &en, i, "go_to");
                }
            }
            break;
          }
          case 9: {
            size_t mem;
            uint32_t entries, slots;

            qps_bitmap_compute_stats(&map, &mem, &entries, &slots);
            PT_CHECK(t, (int)entries == ne, "%u entries instead of %d", entries,
                     ne);
            break;
          }
        }
        for (int i = 0; i < 8; i++) {
            uint64_t r = pt_splitmix(&s);
            k = ne && (r & 3) ? E[(r >> 8) % ne].k + (r & 4 ? 1 : 0) : r >> 32;
            PT_CHECK(t, qps_bitmap_get(&map, k) == b_model(k), "get(%u)", k);
        }
        if (ne > 1 && E[0].k >> 26 != E[ne - 1].k >> 26) {
            pt_nontrivial(t);
        }
    }
    {
        int i = 0;
        qps_bitmap_for_each_unsafe(en, &map) {
            b_en(t, &en, i, "enumeration");
            i++;
        }
        PT_CHECK(t, i == ne, "%d keys enumerated instead of %d", i, ne);
    }
    qps_bitmap_destroy(&map);
    check_leaks(t);
}

/* }}} */

void pt_setup(void)
{
    (void)nz_g;
}

const pt_target_t pt_targets[] = {
    { "hat",    run_hat,    8000, 100000, 20, 100, store_init },
    { "bitmap", run_bitmap, 4000, 80000,  20, 100, store_init },
};
const int pt_targets_len = countof(pt_targets);
