/* Hash tables (qh/qm, huge variants) against a map model. */
#include <lib-common/container.h>
#include <lib-common/container-qhash.h>
#include <lib-common/container-qhugehash.h>
#include "pt.h"

const char pt_rule[] =
    "hash: random histories of add/replace/put/find/find_safe/delete/"
    "iterate/clear/minsize/seal/bulk over qh and qm tables of every key kind, "
    "compared after each step with an array model; non-trivial: at least one "
    "deletion of a present key followed by another insertion, or a table that "
    "grew past 11 slots";

#define MAXU 6000

typedef struct vk_t {
    uint32_t id;
    uint32_t pad;
    uint8_t tail[5];
} vk_t;

static int hmode_g;      /* quality of the user hash function */

static uint32_t id_hash(uint32_t id)
{
    switch (hmode_g) {
      case 0: return id * 2654435761u;
      case 1: return 7;
      case 2: return id % 4;
      case 3: return (id % 3) * 11 * 23 * 53;
      case 4: return id * 11;
      case 5: return 0xfffffff0u + id;
      default: return id;
    }
}

static uint32_t vk_hash(const qhash_t *qh, const vk_t *k) { return id_hash(k->id); }
static bool vk_equal(const qhash_t *qh, const vk_t *a, const vk_t *b)
{
    return a->id == b->id;
}

static uint32_t lstr_id_hash(const qhash_t *qh, const lstr_t *k)
{
    return hmode_g ? id_hash(atoi(k->s)) : qhash_lstr_hash(qh, k);
}

typedef struct big_t { uint32_t v; char fill[37]; } big_t;

qm_k32_t(v32, uint32_t);
qm_k64_t(v64, uint64_t);
qm_k128_t(v128, big_t);
qm_kvec_t(vvec, vk_t, uint8_t, vk_hash, vk_equal);
qm_kptr_t(vptr, vk_t, uint16_t, vk_hash, vk_equal);
qm_khptr_t(vhptr, vk_t, big_t);
qm_kvec_t(vlstr, lstr_t, uint32_t, lstr_id_hash, qhash_lstr_equal);
qh_k32_t(s32);
qh_k64_t(s64);
qh_k128_t(s128);
qh_kvec_t(svec, vk_t, vk_hash, vk_equal);
qh_kptr_t(sptr, vk_t, vk_hash, vk_equal);

static inline uint32_t hh_hash(const qhhash_t *h, const vk_t *k) { return id_hash(k->id); }
static inline bool hh_equal(const qhhash_t *hh, const qhash_t *qh, const vk_t *a, const vk_t *b)
{
    return a->id == b->id;
}
qhm_k32_t(hm32, 7, uint32_t);
qhm_kvec_t(hmvec, 5, vk_t, big_t, hh_hash, hh_equal);
qhh_k64_t(hh64, 16);
qhh_kptr_t(hhptr, 3, vk_t, hh_hash, hh_equal);

static int kmode_g;      /* mapping from ids to integer keys */
static vk_t vks_g[MAXU][2];     /* equal keys at distinct addresses */
static char lstrs_g[MAXU][2][12];

static uint64_t id_key(uint32_t id)
{
    switch (kmode_g) {
      case 0: return id;
      case 1: return (uint64_t)id * 11 * 23;
      case 2: return (uint64_t)id << 19;
      case 3: return 0xffffffffu - id;
      case 4: return (id % 16) * 389u * 11u + (id / 16) * 11u * 23 * 53;
      default: return id * 2654435761u;
    }
}

void pt_setup(void)
{
    for (int i = 0; i < MAXU; i++) {
        for (int j = 0; j < 2; j++) {
            vks_g[i][j].id = i;
            vks_g[i][j].pad = j;
            sprintf(lstrs_g[i][j], "%d", i);
        }
    }
}

typedef struct model_t {
    int u;
    int len;
    bool in[MAXU];
    uint8_t val[MAXU];
    uint8_t ver[MAXU];      /* which copy of the key is stored */
} model_t;
static model_t M;

static big_t mkbig(uint8_t v)
{
    big_t b = { .v = v };
    memset(b.fill, v ^ 0x5a, sizeof(b.fill));
    return b;
}
static uint8_t unbig(pt_t *t, const big_t *b)
{
    for (int i = 0; i < (int)sizeof(b->fill); i++) {
        PT_CHECK(t, b->fill[i] == (char)(b->v ^ 0x5a), "value bytes torn");
    }
    return b->v;
}

/* kinds of operations common to all the tables */
#define DRIVER(NAME, T, KEYT, MKKEY, KEYID, KEYVER, ADD, REPL, FIND, FINDS,  \
               DELK, DELKS, DELAT, LEN, FOREACH, KEYAT, GETV, SETMIN, CLEAR, \
               WIPE, INIT, SEAL, UNSEAL, ISMAP, CHKVER)                      \
static void check_all_##NAME(pt_t *t, T *h)                                  \
{                                                                            \
    int n = 0;                                                               \
    static bool seen[MAXU];                                                  \
    memset(seen, 0, M.u);                                                    \
    FOREACH(pos, h) {                                                        \
        uint32_t id = KEYID(KEYAT(h, pos));                                  \
        PT_CHECK(t, id < (uint32_t)M.u && M.in[id],                          \
                 "iteration yields an absent key %u", id);                   \
        PT_CHECK(t, !seen[id], "iteration yields key %u twice", id);         \
        seen[id] = true;                                                     \
        n++;                                                                 \
        if (ISMAP) {                                                         \
            PT_CHECK(t, (uint8_t)GETV(h, pos) == M.val[id],                  \
                     "value of %u", id);                                     \
        }                                                                    \
    }                                                                        \
    PT_CHECK(t, n == M.len, "iteration yields %d keys, expected %d", n, M.len);\
}                                                                            \
static void run_##NAME(pt_t *t)                                              \
{                                                                            \
    static const int us[] = { 4, 12, 40, 200, 1000, MAXU };                  \
    T hs, *h = &hs;                                                          \
    bool cached;                                                             \
    int grew = 0, dels = 0, reins = 0;                                       \
    bool sealed = false;                                                     \
    M.u = us[pt_u(t, 5)];                                                    \
    M.len = 0;                                                               \
    memset(M.in, 0, sizeof(M.in));                                           \
    hmode_g = pt_u(t, 6);                                                    \
    if (hmode_g >= 1 && hmode_g <= 3 && M.u > 300) {                         \
        M.u = 300;                                                           \
    }                                                                        \
    kmode_g = pt_u(t, 5);                                                    \
    cached = pt_bool(t);                                                     \
    INIT(h, cached);                                                         \
    pt_note(t, "universe %d, hash %d, keys %d, cached %d", M.u, hmode_g,     \
            kmode_g, cached);                                                \
    while (pt_more(t, 40)) {                                                 \
        int op = pt_u(t, 15);                                                \
        uint32_t id = pt_u(t, M.u - 1);                                      \
        int ver = pt_u(t, 1);                                                \
        KEYT k = MKKEY(id, ver);                                             \
        int ret;                                                             \
        if (sealed && op != 4 && op != 5 && op != 6) {                       \
            pt_note(t, "unseal");                                            \
            UNSEAL(h);                                                       \
            sealed = false;                                                  \
        }                                                                    \
        switch (op) {                                                        \
          case 0: case 1: {                                                  \
            uint8_t v = pt_u(t, 255);                                        \
            pt_note(t, "add %u v%d = %d", id, ver, v);                       \
            ret = ADD(h, k, v);                                              \
            PT_CHECK(t, ret == (M.in[id] ? -1 : 0), "add returned %d", ret); \
            if (!M.in[id]) {                                                 \
                M.in[id] = true; M.val[id] = v; M.ver[id] = ver; M.len++;    \
                reins += dels > 0;                                           \
            }                                                                \
          } break;                                                           \
          case 2: case 3: {                                                  \
            uint8_t v = pt_u(t, 255);                                        \
            pt_note(t, "replace %u v%d = %d", id, ver, v);                   \
            ret = REPL(h, k, v);                                             \
            PT_CHECK(t, ret == (M.in[id] ? -1 : 0), "replace returned %d", ret);\
            M.len += !M.in[id];                                              \
            M.in[id] = true; M.val[id] = v; M.ver[id] = ver;                 \
          } break;                                                           \
          case 4: case 5: {                                                  \
            int64_t pos = op == 4 && !sealed ? (int64_t)FIND(h, k) : (int64_t)FINDS(h, k);\
            pt_note(t, "find%s %u", op == 5 ? "_safe" : "", id);             \
            PT_CHECK(t, (pos >= 0) == M.in[id], "find of %u: %d", id, (int)pos);\
            if (pos >= 0) {                                                  \
                PT_CHECK(t, KEYID(KEYAT(h, pos)) == id, "found another key");\
                if (CHKVER) {                                                \
                    PT_CHECK(t, KEYVER(KEYAT(h, pos)) == M.ver[id],          \
                             "stored key object is not the expected one");   \
                }                                                            \
                if (ISMAP) {                                                 \
                    PT_CHECK(t, (uint8_t)GETV(h, pos) == M.val[id],          \
                             "value of %u is %d, expected %d", id,           \
                             (uint8_t)GETV(h, pos), M.val[id]);              \
                }                                                            \
            }                                                                \
          } break;                                                           \
          case 6:                                                            \
            pt_note(t, "iterate");                                           \
            check_all_##NAME(t, h);                                          \
            break;                                                           \
          case 7: case 8: {                                                  \
            pt_note(t, "del %u", id);                                        \
            int64_t pos = op == 7 ? (int64_t)DELK(h, k) : (int64_t)DELKS(h, k);\
            PT_CHECK(t, (pos >= 0) == M.in[id], "del of %u", id);            \
            if (M.in[id]) { M.in[id] = false; M.len--; dels++; }             \
          } break;                                                           \
          case 9: {                                                          \
            int mod = pt_range(t, 1, 5), r = pt_u(t, mod - 1);               \
            static bool seen[MAXU];                                          \
            pt_note(t, "delete while iterating: id %% %d == %d", mod, r);    \
            memset(seen, 0, M.u);                                            \
            FOREACH(pos, h) {                                                \
                uint32_t kid = KEYID(KEYAT(h, pos));                         \
                PT_CHECK(t, kid < (uint32_t)M.u && !seen[kid] && M.in[kid],  \
                         "iteration yields %u", kid);                        \
                seen[kid] = true;                                            \
                if ((int)(kid % mod) == r) {                                 \
                    DELAT(h, pos);                                           \
                    M.in[kid] = false; M.len--; dels++;                      \
                }                                                            \
            }                                                                \
            for (int i = 0; i < M.u; i++) {                                  \
                PT_CHECK(t, !M.in[i] || seen[i], "iteration missed %d", i);  \
            }                                                                \
          } break;                                                           \
          case 10: case 11: case 14: {                                       \
            int n = pt_size(t, M.u - 1);                                     \
            pt_note(t, "bulk replace %u..+%d", id, n);                       \
            for (int i = 0; i < n; i++) {                                    \
                uint32_t j = (id + i) % M.u;                                 \
                uint8_t v = j * 7 + i;                                       \
                ret = REPL(h, MKKEY(j, ver), v);                             \
                PT_CHECK(t, ret == (M.in[j] ? -1 : 0), "bulk replace");      \
                M.len += !M.in[j];                                           \
                M.in[j] = true; M.val[j] = v; M.ver[j] = ver;                \
            }                                                                \
          } break;                                                           \
          case 12: {                                                         \
            int n = pt_size(t, M.u);                                         \
            pt_note(t, "bulk delete %u..+%d", id, n);                        \
            for (int i = 0; i < n; i++) {                                    \
                uint32_t j = (id + i) % M.u;                                 \
                int64_t pos = (int64_t)DELK(h, MKKEY(j, 0));                 \
                PT_CHECK(t, (pos >= 0) == M.in[j], "bulk delete %u", j);     \
                if (M.in[j]) { M.in[j] = false; M.len--; dels++; }           \
            }                                                                \
          } break;                                                           \
          case 13:                                                           \
            switch (pt_u(t, 5)) {                                            \
              case 0:                                                        \
                pt_note(t, "clear");                                         \
                CLEAR(h);                                                    \
                memset(M.in, 0, sizeof(M.in)); M.len = 0;                    \
                break;                                                       \
              case 1: {                                                      \
                int ms = pt_size(t, 800);                                    \
                pt_note(t, "minsize %d", ms);                                \
                SETMIN(h, ms);                                               \
              } break;                                                       \
              case 2: case 3:                                                \
                pt_note(t, "seal");                                          \
                SEAL(h);                                                     \
                sealed = true;                                               \
                break;                                                       \
              case 4:                                                        \
                pt_note(t, "wipe");                                          \
                WIPE(h);                                                     \
                INIT(h, cached);                                             \
                memset(M.in, 0, sizeof(M.in)); M.len = 0;                    \
                break;                                                       \
              case 5:                                                        \
                for (int i = 0; i < M.u; i++) {                              \
                    int64_t p = (int64_t)FINDS(h, MKKEY(i, ver));            \
                    PT_CHECK(t, (p >= 0) == M.in[i], "scan of %d", i);       \
                }                                                            \
                break;                                                       \
            }                                                                \
            break;                                                           \
          case 15: /* alternate to run incremental resizes */                \
            for (int i = 0; i < 8; i++) {                                    \
                uint32_t j = (id + i * 5) % M.u;                             \
                if (M.in[j]) {                                               \
                    PT_CHECK(t, (int64_t)DELK(h, MKKEY(j, 1)) >= 0, "lost %u", j);\
                    M.in[j] = false; M.len--; dels++;                        \
                } else {                                                     \
                    PT_CHECK(t, ADD(h, MKKEY(j, 0), i) == 0, "ghost %u", j); \
                    M.in[j] = true; M.val[j] = i; M.ver[j] = 0; M.len++;     \
                    reins += dels > 0;                                       \
                }                                                            \
            }                                                                \
            break;                                                           \
        }                                                                    \
        PT_CHECK(t, (int)LEN(h) == M.len, "length %d, expected %d",          \
                 (int)LEN(h), M.len);                                        \
        grew |= M.len > 11;                                                  \
    }                                                                        \
    if (sealed) { UNSEAL(h); }                                               \
    check_all_##NAME(t, h);                                                  \
    for (int i = 0; i < M.u; i++) {                                          \
        int64_t p = (int64_t)FIND(h, MKKEY(i, 0));                           \
        PT_CHECK(t, (p >= 0) == M.in[i], "final find of %d", i);             \
        if (p >= 0 && ISMAP) {                                               \
            PT_CHECK(t, (uint8_t)GETV(h, p) == M.val[i], "final value");     \
        }                                                                    \
    }                                                                        \
    if (grew || reins) {                                                     \
        pt_nontrivial(t);                                                    \
    }                                                                        \
    if (grew) pt_label(t, "grew");                                           \
    if (reins) pt_label(t, "reinsertion after deletion");                    \
    WIPE(h);                                                                 \
}

#define IK32(id, ver)   ((uint32_t)id_key(id))
#define IK64(id, ver)   ((uint64_t)id_key(id) | ((uint64_t)(id) << 45))
#define IK128(id, ver)  (((uint128_t)id_key(id) << 70) | (id))
static uint32_t rev32(uint32_t k)
{
    switch (kmode_g) {
      case 0: return k;
      case 1: return k % 253 ? UINT32_MAX : k / 253;
      case 2: return k & 0x7ffff ? UINT32_MAX : k >> 19;
      case 3: return 0xffffffffu - k;
      case 4:
        for (uint32_t r = 0; r < 16; r++) {
            if (k >= r * 4279 && (k - r * 4279) % 13409 == 0) {
                return (k - r * 4279) / 13409 * 16 + r;
            }
        }
        return UINT32_MAX;
      default: return k * 244002641u;
    }
}
#define ID32(k)   (kmode_g == 0 ? (uint32_t)(k) : rev32(k))
#define ID64(k)   ((uint32_t)((k) >> 45))
#define ID128(k)  ((uint32_t)(k))
#define IDENT(x)  x
#define NOVER(k)  0
#define VPK(id, ver)   (&vks_g[id][ver])
#define IDP(p)    ((p)->id)
#define VERP(p)   ((p)->pad)
#define HPK(id, ver)   (&vks_g[id][0])
static const lstr_t *LK(uint32_t id, int ver)
{
    static lstr_t s[4];
    static int k;

    k = (k + 1) % 4;
    s[k] = LSTR(lstrs_g[id][ver]);
    return &s[k];
}
#define IDL(l)    ((uint32_t)atoi((l)->s))
#define VERL(l)   ((l)->s == lstrs_g[IDL(l)][1])

/* qm */
#define DEFQM(n, KEYT, MK, KID, KVER, AMP, MKV, UNV, CHKVER)                 \
static int add_##n(qm_t(n) *h, KEYT k, uint8_t v) { return qm_add(n, h, k, MKV(v)); }\
static int addr_##n(qm_t(n) *h, KEYT k, uint8_t v) {                         \
    uint32_t p = qm_reserve(n, h, k, QHASH_OVERWRITE);                       \
    h->values[p & ~QHASH_COLLISION] = MKV(v);                                \
    return (p & QHASH_COLLISION) ? -1 : 0; }                                 \
static int repl_##n(qm_t(n) *h, KEYT k, uint8_t v) {                         \
    if (v & 1) return addr_##n(h, k, v);                                     \
    if (v & 2) return qm_replace_h(n, h, qm_hash(n, h, k), k, MKV(v));       \
    return qm_replace(n, h, k, MKV(v)); }                                    \
static int find_##n(qm_t(n) *h, KEYT k) { return qm_find(n, h, k); }         \
static int finds_##n(const qm_t(n) *h, KEYT k) { return qm_find_safe(n, h, k); }\
static int delk_##n(qm_t(n) *h, KEYT k) { return qm_del_key(n, h, k); }      \
static int delks_##n(qm_t(n) *h, KEYT k) { return qm_del_key_safe(n, h, k); }\
static void init_##n(qm_t(n) *h, bool c) { if (c) qm_init_cached(n, h); else qm_init(n, h); }\
_Static_assert(1, "");

#define NM_LEN_v32(h) qm_len(v32, h)
#define QMDRV(n, KEYT, MK, KID, KVER, AMP, MKV, UNV, CHKVER)                 \
DEFQM(n, KEYT, MK, KID, KVER, AMP, MKV, UNV, CHKVER)                         \
static inline int len_##n(const qm_t(n) *h) { return qm_len(n, h); }         \
static inline void setmin_##n(qm_t(n) *h, int m) { qm_set_minsize(n, h, m); }\
static inline void clear_##n(qm_t(n) *h) { qm_clear(n, h); }                 \
static inline void wipe_##n(qm_t(n) *h) { qm_wipe(n, h); }                   \
static inline void seal_##n(qm_t(n) *h) { qm_seal(n, h); }                   \
static inline void unseal_##n(qm_t(n) *h) { qm_unseal(n, h); }               \
static inline void delat_##n(qm_t(n) *h, uint32_t p) { qm_del_at(n, h, p); }

#define DOT(h, pos)   ((h)->keys[pos])
#define ADR(h, pos)   (&(h)->keys[pos])
#define SCALV(h, pos) ((h)->values[pos])
#define BIGV(h, pos)  (unbig(t, &(h)->values[pos]))
#define NUMV(v)       (v)

QMDRV(v32, uint32_t, , , , , NUMV, , 0)
#define FE_v32(pos, h) qm_for_each_pos(v32, pos, h)
DRIVER(v32, qm_t(v32), uint32_t, IK32, ID32, NOVER, add_v32, repl_v32, find_v32, finds_v32, delk_v32, delks_v32, delat_v32, len_v32, FE_v32, DOT, SCALV, setmin_v32, clear_v32, wipe_v32, init_v32, seal_v32, unseal_v32, true, false)

QMDRV(v64, uint64_t, , , , , NUMV, , 0)
#define FE_v64(pos, h) qm_for_each_pos(v64, pos, h)
DRIVER(v64, qm_t(v64), uint64_t, IK64, ID64, NOVER, add_v64, repl_v64, find_v64, finds_v64, delk_v64, delks_v64, delat_v64, len_v64, FE_v64, DOT, SCALV, setmin_v64, clear_v64, wipe_v64, init_v64, seal_v64, unseal_v64, true, false)

QMDRV(v128, uint128_t, , , , , mkbig, , 0)
#define FE_v128(pos, h) qm_for_each_pos(v128, pos, h)
DRIVER(v128, qm_t(v128), uint128_t, IK128, ID128, NOVER, add_v128, repl_v128, find_v128, finds_v128, delk_v128, delks_v128, delat_v128, len_v128, FE_v128, DOT, BIGV, setmin_v128, clear_v128, wipe_v128, init_v128, seal_v128, unseal_v128, true, false)

QMDRV(vvec, const vk_t *, , , , , NUMV, , 0)
#define FE_vvec(pos, h) qm_for_each_pos(vvec, pos, h)
DRIVER(vvec, qm_t(vvec), const vk_t *, VPK, IDP, VERP, add_vvec, repl_vvec, find_vvec, finds_vvec, delk_vvec, delks_vvec, delat_vvec, len_vvec, FE_vvec, ADR, SCALV, setmin_vvec, clear_vvec, wipe_vvec, init_vvec, seal_vvec, unseal_vvec, true, true)

QMDRV(vptr, vk_t *, , , , , NUMV, , 0)
#define FE_vptr(pos, h) qm_for_each_pos(vptr, pos, h)
DRIVER(vptr, qm_t(vptr), vk_t *, VPK, IDP, VERP, add_vptr, repl_vptr, find_vptr, finds_vptr, delk_vptr, delks_vptr, delat_vptr, len_vptr, FE_vptr, DOT, SCALV, setmin_vptr, clear_vptr, wipe_vptr, init_vptr, seal_vptr, unseal_vptr, true, true)

QMDRV(vhptr, vk_t *, , , , , mkbig, , 0)
#define FE_vhptr(pos, h) qm_for_each_pos(vhptr, pos, h)
DRIVER(vhptr, qm_t(vhptr), vk_t *, HPK, IDP, NOVER, add_vhptr, repl_vhptr, find_vhptr, finds_vhptr, delk_vhptr, delks_vhptr, delat_vhptr, len_vhptr, FE_vhptr, DOT, BIGV, setmin_vhptr, clear_vhptr, wipe_vhptr, init_vhptr, seal_vhptr, unseal_vhptr, true, false)

QMDRV(vlstr, const lstr_t *, , , , , NUMV, , 0)
#define FE_vlstr(pos, h) qm_for_each_pos(vlstr, pos, h)
DRIVER(vlstr, qm_t(vlstr), const lstr_t *, LK, IDL, VERL, add_vlstr, repl_vlstr, find_vlstr, finds_vlstr, delk_vlstr, delks_vlstr, delat_vlstr, len_vlstr, FE_vlstr, ADR, SCALV, setmin_vlstr, clear_vlstr, wipe_vlstr, init_vlstr, seal_vlstr, unseal_vlstr, true, true)

/* qh */
#define QHDRV(n, KEYT)                                                       \
static int add_##n(qh_t(n) *h, KEYT k, uint8_t v) { return qh_add(n, h, k); }\
static int repl_##n(qh_t(n) *h, KEYT k, uint8_t v) {                         \
    if (v & 1) return (qh_put(n, h, k, QHASH_OVERWRITE) & QHASH_COLLISION) ? -1 : 0;\
    if (v & 2) return qh_replace_h(n, h, qh_hash(n, h, k), k);               \
    return qh_replace(n, h, k); }                                            \
static int find_##n(qh_t(n) *h, KEYT k) { return qh_find(n, h, k); }         \
static int finds_##n(const qh_t(n) *h, KEYT k) { return qh_find_safe(n, h, k); }\
static int delk_##n(qh_t(n) *h, KEYT k) { return qh_del_key(n, h, k); }      \
static int delks_##n(qh_t(n) *h, KEYT k) { return qh_del_key_safe(n, h, k); }\
static void init_##n(qh_t(n) *h, bool c) { if (c) qh_init_cached(n, h); else qh_init(n, h); }\
static inline int len_##n(const qh_t(n) *h) { return qh_len(n, h); }         \
static inline void setmin_##n(qh_t(n) *h, int m) { qh_set_minsize(n, h, m); }\
static inline void clear_##n(qh_t(n) *h) { qh_clear(n, h); }                 \
static inline void wipe_##n(qh_t(n) *h) { qh_wipe(n, h); }                   \
static inline void seal_##n(qh_t(n) *h) { qh_seal(n, h); }                   \
static inline void unseal_##n(qh_t(n) *h) { qh_unseal(n, h); }               \
static inline void delat_##n(qh_t(n) *h, uint32_t p) { qh_del_at(n, h, p); }
#define NOV(h, pos) 0

QHDRV(s32, uint32_t)
#define FE_s32(pos, h) qh_for_each_pos(s32, pos, h)
DRIVER(s32, qh_t(s32), uint32_t, IK32, ID32, NOVER, add_s32, repl_s32, find_s32, finds_s32, delk_s32, delks_s32, delat_s32, len_s32, FE_s32, DOT, NOV, setmin_s32, clear_s32, wipe_s32, init_s32, seal_s32, unseal_s32, false, false)
QHDRV(s64, uint64_t)
#define FE_s64(pos, h) qh_for_each_pos(s64, pos, h)
DRIVER(s64, qh_t(s64), uint64_t, IK64, ID64, NOVER, add_s64, repl_s64, find_s64, finds_s64, delk_s64, delks_s64, delat_s64, len_s64, FE_s64, DOT, NOV, setmin_s64, clear_s64, wipe_s64, init_s64, seal_s64, unseal_s64, false, false)
QHDRV(svec, const vk_t *)
#define FE_svec(pos, h) qh_for_each_pos(svec, pos, h)
DRIVER(svec, qh_t(svec), const vk_t *, VPK, IDP, VERP, add_svec, repl_svec, find_svec, finds_svec, delk_svec, delks_svec, delat_svec, len_svec, FE_svec, ADR, NOV, setmin_svec, clear_svec, wipe_svec, init_svec, seal_svec, unseal_svec, false, true)
QHDRV(sptr, vk_t *)
#define FE_sptr(pos, h) qh_for_each_pos(sptr, pos, h)
DRIVER(sptr, qh_t(sptr), vk_t *, VPK, IDP, VERP, add_sptr, repl_sptr, find_sptr, finds_sptr, delk_sptr, delks_sptr, delat_sptr, len_sptr, FE_sptr, DOT, NOV, setmin_sptr, clear_sptr, wipe_sptr, init_sptr, seal_sptr, unseal_sptr, false, true)

/* huge hashes: no seal */
#define HNOP(h)
#define HM_ADD(n) qhm_add
static int add_hm32(qhm_t(hm32) *h, uint32_t k, uint8_t v) { return qhm_add(hm32, h, k, v); }
static int repl_hm32(qhm_t(hm32) *h, uint32_t k, uint8_t v) { return qhm_replace(hm32, h, k, v); }
static int64_t find_hm32(qhm_t(hm32) *h, uint32_t k) { return qhm_find(hm32, h, k); }
static int64_t finds_hm32(qhm_t(hm32) *h, uint32_t k) { return qhm_find_safe(hm32, h, k); }
static int64_t delk_hm32(qhm_t(hm32) *h, uint32_t k) { return qhm_del_key(hm32, h, k); }
static int64_t delks_hm32(qhm_t(hm32) *h, uint32_t k) { return qhm_del_key_safe(hm32, h, k); }
static void init_hm32(qhm_t(hm32) *h, bool c) { qhm_init(hm32, h, c); }
static void delat_hm32(qhm_t(hm32) *h, uint64_t p) { qhm_del_at(hm32, h, p); }
static int len_hm32(qhm_t(hm32) *h) { return qhm_len(hm32, h); }
static void setmin_hm32(qhm_t(hm32) *h, int m) { qhm_set_minsize(hm32, h, m); }
static void clear_hm32(qhm_t(hm32) *h) { qhm_clear(hm32, h); }
static void wipe_hm32(qhm_t(hm32) *h) { qhm_wipe(hm32, h); }
#define FE_hm32(pos, h) qhm_for_each_pos(hm32, pos, h)
#define KEYAT_hm32(h, pos) (*qhm_key_p(hm32, h, pos))
#define VAL_hm32(h, pos) (*qhm_value_p(hm32, h, pos))
DRIVER(hm32, qhm_t(hm32), uint32_t, IK32, ID32, NOVER, add_hm32, repl_hm32, find_hm32, finds_hm32, delk_hm32, delks_hm32, delat_hm32, len_hm32, FE_hm32, KEYAT_hm32, VAL_hm32, setmin_hm32, clear_hm32, wipe_hm32, init_hm32, HNOP, HNOP, true, false)

static int add_hmvec(qhm_t(hmvec) *h, const vk_t *k, uint8_t v) { return qhm_add(hmvec, h, k, mkbig(v)); }
static int repl_hmvec(qhm_t(hmvec) *h, const vk_t *k, uint8_t v) { return qhm_replace(hmvec, h, k, mkbig(v)); }
static int64_t find_hmvec(qhm_t(hmvec) *h, const vk_t *k) { return qhm_find(hmvec, h, k); }
static int64_t finds_hmvec(qhm_t(hmvec) *h, const vk_t *k) { return qhm_find_safe(hmvec, h, k); }
static int64_t delk_hmvec(qhm_t(hmvec) *h, const vk_t *k) { return qhm_del_key(hmvec, h, k); }
static int64_t delks_hmvec(qhm_t(hmvec) *h, const vk_t *k) { return qhm_del_key_safe(hmvec, h, k); }
static void init_hmvec(qhm_t(hmvec) *h, bool c) { qhm_init(hmvec, h, c); }
static void delat_hmvec(qhm_t(hmvec) *h, uint64_t p) { qhm_del_at(hmvec, h, p); }
static int len_hmvec(qhm_t(hmvec) *h) { return qhm_len(hmvec, h); }
static void setmin_hmvec(qhm_t(hmvec) *h, int m) { qhm_set_minsize(hmvec, h, m); }
static void clear_hmvec(qhm_t(hmvec) *h) { qhm_clear(hmvec, h); }
static void wipe_hmvec(qhm_t(hmvec) *h) { qhm_wipe(hmvec, h); }
#define FE_hmvec(pos, h) qhm_for_each_pos(hmvec, pos, h)
#define KEYAT_hmvec(h, pos) (qhm_key_p(hmvec, h, pos))
#define VAL_hmvec(h, pos) (unbig(t, qhm_value_p(hmvec, h, pos)))
DRIVER(hmvec, qhm_t(hmvec), const vk_t *, VPK, IDP, VERP, add_hmvec, repl_hmvec, find_hmvec, finds_hmvec, delk_hmvec, delks_hmvec, delat_hmvec, len_hmvec, FE_hmvec, KEYAT_hmvec, VAL_hmvec, setmin_hmvec, clear_hmvec, wipe_hmvec, init_hmvec, HNOP, HNOP, true, true)

static int add_hhptr(qhh_t(hhptr) *h, vk_t *k, uint8_t v) { return qhh_add(hhptr, h, k); }
static int repl_hhptr(qhh_t(hhptr) *h, vk_t *k, uint8_t v) { return qhh_replace(hhptr, h, k); }
static int64_t find_hhptr(qhh_t(hhptr) *h, vk_t *k) { return qhh_find(hhptr, h, k); }
static int64_t finds_hhptr(qhh_t(hhptr) *h, vk_t *k) { return qhh_find_safe(hhptr, h, k); }
static int64_t delk_hhptr(qhh_t(hhptr) *h, vk_t *k) { return qhh_del_key(hhptr, h, k); }
static int64_t delks_hhptr(qhh_t(hhptr) *h, vk_t *k) { return qhh_del_key_safe(hhptr, h, k); }
static void init_hhptr(qhh_t(hhptr) *h, bool c) { qhh_init(hhptr, h, c); }
static void delat_hhptr(qhh_t(hhptr) *h, uint64_t p) { qhh_del_at(hhptr, h, p); }
static int len_hhptr(qhh_t(hhptr) *h) { return qhh_len(hhptr, h); }
static void setmin_hhptr(qhh_t(hhptr) *h, int m) { qhh_set_minsize(hhptr, h, m); }
static void clear_hhptr(qhh_t(hhptr) *h) { qhh_clear(hhptr, h); }
static void wipe_hhptr(qhh_t(hhptr) *h) { qhh_wipe(hhptr, h); }
#define FE_hhptr(pos, h) qhh_for_each_pos(hhptr, pos, h)
#define KEYAT_hhptr(h, pos) (*qhh_key_p(hhptr, h, pos))
DRIVER(hhptr, qhh_t(hhptr), vk_t *, VPK, IDP, VERP, add_hhptr, repl_hhptr, find_hhptr, finds_hhptr, delk_hhptr, delks_hhptr, delat_hhptr, len_hhptr, FE_hhptr, KEYAT_hhptr, NOV, setmin_hhptr, clear_hhptr, wipe_hhptr, init_hhptr, HNOP, HNOP, false, true)

#define TG(n, q)  { .name = "hash_" #n, .run = run_##n, .quick = q * 12, .thorough = q * 200, .batch = 200 }
const pt_target_t pt_targets[] = {
    TG(v32, 6000), TG(v64, 6000), TG(v128, 5000), TG(vvec, 8000), TG(vptr, 6000),
    TG(vhptr, 4000), TG(vlstr, 6000), TG(s32, 4000), TG(s64, 4000),
    TG(svec, 5000), TG(sptr, 5000), TG(hm32, 3000), TG(hmvec, 4000),
    TG(hhptr, 3000),
};
const int pt_targets_len = countof(pt_targets);
