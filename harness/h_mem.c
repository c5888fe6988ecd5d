/* Memory pools: histories of allocations against a model of the live blocks. */
#include <lib-common/core.h>
#include <sanitizer/allocator_interface.h>
#include <sanitizer/asan_interface.h>
#include "pt.h"

const char pt_rule[] =
    "mem: histories of allocations (zeroed or not, any size up to 300 kB, any "
    "alignment), reallocations, releases, frames pushed, popped, sealed, "
    "released out of order, checkpoints and rewinds, pool resets and early "
    "deletions; after each step the live blocks are disjoint, aligned, in "
    "addressable memory and hold what was written. non-trivial: at least "
    "eight live blocks over two pages or frames";

typedef struct blk_t {
    uint8_t  *p;
    uint32_t  size;
    uint32_t  align;
    uint32_t  seed;
    int       frame;
} blk_t;

#define MAXB  400
static blk_t B[MAXB];
static int   nb;
static uint32_t seeds;
static size_t total;

static uint8_t pat(uint32_t seed, uint32_t i)
{
    uint32_t x = seed * 2654435761u + i * 40503u;
    return (x >> 11) ^ x;
}

static void b_fill(blk_t *b, uint32_t from)
{
    for (uint32_t i = from; i < b->size; i++) {
        b->p[i] = pat(b->seed, i);
    }
}

static void b_check(pt_t *t, const blk_t *b, uint32_t upto, const char *what)
{
    for (uint32_t i = 0; i < upto; i++) {
        PT_CHECK(t, b->p[i] == pat(b->seed, i), "%s: byte %u of a block of %u "
                 "changed", what, i, b->size);
    }
}

static void check_all(pt_t *t, const char *what)
{
    for (int i = 0; i < nb; i++) {
        if (B[i].size) {
            PT_CHECK(t, !__asan_region_is_poisoned(B[i].p, B[i].size),
                     "%s: a live block of %u is not addressable anymore", what,
                     B[i].size);
            b_check(t, &B[i], B[i].size, what);
        }
    }
}

static void check_some(pt_t *t, uint64_t r)
{
    for (int i = 0; nb && i < 3; i++) {
        const blk_t *b = &B[(r >> (i * 8)) % nb];
        if (b->size) {
            PT_CHECK(t, !__asan_region_is_poisoned(b->p, b->size),
                     "a live block of %u is not addressable anymore", b->size);
            b_check(t, b, b->size, "later");
        }
    }
}

static uint32_t gen_size(pt_t *t)
{
    switch (pt_u(t, 9)) {
      case 0: return pt_p(t, 1, 3) ? 0 : 1 + pt_u(t, 15);
      case 1: case 2: case 3: case 4: return 1 + pt_u(t, 200);
      case 5: return 1 + pt_u(t, 3000);
      case 6: return 4096 * pt_u(t, 20) + pt_u(t, 80);
      case 7: return 4096 * (1 + pt_u(t, 20)) - pt_u(t, 80);
      case 8: return 1 + pt_bits(t, 18);
      default: return 16 * pt_u(t, 40);
    }
}

static void b_new(pt_t *t, uint8_t *p, uint32_t size, uint32_t align, bool raw,
                  int frame)
{
    blk_t *b;

    if (!size) {
        PT_CHECK(t, p == MEM_EMPTY_ALLOC, "empty allocation");
        /* kept: it may be reallocated */
        if (nb < MAXB) {
            B[nb++] = (blk_t){ p, 0, align, 0, frame };
        }
        return;
    }
    PT_CHECK(t, p && ((uintptr_t)p & ((align ?: 16) - 1)) == 0,
             "block %p not aligned on %u", p, align);
    for (int i = 0; i < nb; i++) {
        PT_CHECK(t, !B[i].size || p + size <= B[i].p || B[i].p + B[i].size <= p,
                 "the new block of %u overlaps a live one of %u", size,
                 B[i].size);
    }
    PT_CHECK(t, !__asan_region_is_poisoned(p, size), "new block not addressable");
    if (!raw) {
        for (uint32_t i = 0; i < size; i++) {
            PT_CHECK(t, p[i] == 0, "byte %u of a new block of %u is not zero", i,
                     size);
        }
    }
    b = &B[nb++];
    *b = (blk_t){ p, size, align, seeds++, frame };
    b_fill(b, 0);
    total += size;
}

static void do_alloc(pt_t *t, mem_pool_t *mp, int frame, uint32_t maxalign)
{
    static const uint32_t al[] = { 0, 1, 2, 4, 8, 8, 16, 32, 64, 128 };
    uint32_t size = gen_size(t), align = pt_pick(t, al);
    bool raw = pt_bool(t);

    if (align > maxalign || (!align && maxalign < 16)) {
        align = maxalign < 16 ? 8 : 0;
    }
    if (nb >= MAXB - 2 || total > (32 << 20)) {
        return;
    }
    pt_note(t, "alloc %u align %u%s", size, align, raw ? " raw" : "");
    b_new(t, mp_imalloc(mp, size, align, raw ? MEM_RAW : 0), size, align, raw,
          frame);
}

static void do_realloc(pt_t *t, mem_pool_t *mp, int k)
{
    blk_t *b = &B[k];
    uint32_t size = pt_bool(t) ? gen_size(t)
                  : pt_bool(t) ? b->size + pt_u(t, 100)
                  : pt_u(t, b->size);
    bool raw = pt_bool(t);
    uint32_t keep, old = b->size;
    uint8_t *p;

    if (total > (32 << 20)) {
        return;
    }
    keep = old < size ? old : size;
    pt_note(t, "realloc block %d (%u) to %u%s", k, old, size, raw ? " raw" : "");
    p = mp_irealloc(mp, b->p, old, size, b->align, raw ? MEM_RAW : 0);
    total += size;
    if (!size) {
        PT_CHECK(t, p == MEM_EMPTY_ALLOC, "empty reallocation");
        b->p = p;
        b->size = 0;
        return;
    }
    PT_CHECK(t, p && ((uintptr_t)p & ((b->align ?: 16) - 1)) == 0,
             "reallocated block %p not aligned on %u", p, b->align);
    for (int i = 0; i < nb; i++) {
        PT_CHECK(t, i == k || !B[i].size || p + size <= B[i].p
                 || B[i].p + B[i].size <= p, "the reallocated block overlaps "
                 "a live one");
    }
    PT_CHECK(t, !__asan_region_is_poisoned(p, size),
             "reallocated block not addressable");
    b->p = p;
    b->size = size;
    b_check(t, b, keep, "reallocated");
    if (!raw) {
        for (uint32_t i = keep; i < size; i++) {
            PT_CHECK(t, p[i] == 0, "byte %u of a block reallocated from %u to %u "
                     "is not zero", i, old, size);
        }
    }
    b_fill(b, keep);
}

static void do_fmt(pt_t *t, mem_pool_t *mp, int frame)
{
    static char exp[8000];
    int n = pt_p(t, 1, 3) ? pt_u(t, 4000) : pt_u(t, 30), len;
    char *s;

    if (nb >= MAXB - 2) {
        return;
    }
    memset(exp, 'a' + n % 26, n);
    exp[n] = '\0';
    s = mp_fmt(mp, &len, "<%s>", exp);
    PT_CHECK(t, len == n + 2 && s[0] == '<' && !memcmp(s + 1, exp, n)
             && s[n + 1] == '>' && s[n + 2] == '\0', "mp_fmt");
    pt_note(t, "fmt %d", n);
    b_new(t, (uint8_t *)s, len + 1, 1, true, frame);
}

static void reset_model(void)
{
    nb = 0;
    total = 0;
    seeds = 1;
}

static void b_drop(int k)
{
    B[k] = B[--nb];
}
static void b_drop_frame(int frame)
{
    for (int i = 0; i < nb; ) {
        if (B[i].frame == frame) {
            b_drop(i);
        } else {
            i++;
        }
    }
}
static int b_in_frame(pt_t *t, int frame)
{
    int c[MAXB], n = 0;
    for (int i = 0; i < nb; i++) {
        if (B[i].frame == frame) {
            c[n++] = i;
        }
    }
    if (!n) {
        return -1;
    }
    /* the last one more often */
    return pt_bool(t) ? c[n - 1] : c[pt_u(t, n - 1)];
}

/* {{{ stack */

static void run_stack(pt_t *t)
{
    static const int init[] = { 1, 4096, 16384, 0 };
    size_t before = __sanitizer_get_current_allocated_bytes();
    mem_pool_t *mp = mem_stack_new("vt", pt_pick(t, init));
    const void *cookies[64];
    int depth = 0;
    uint64_t s = pt_u(t, UINT32_MAX);

    reset_model();
    while (pt_more(t, 60)) {
        int k;

        switch (pt_u(t, 11)) {
          case 0: case 1:
            if (depth < 60) {
                pt_note(t, "push");
                cookies[depth++] = mem_stack_push(mp);
            }
            break;
          case 2: case 3:
            if (depth) {
                pt_note(t, "pop");
                PT_CHECK(t, mem_stack_pop(mp) == cookies[--depth],
                         "push and pop cookies differ");
                b_drop_frame(depth + 1);
                check_all(t, "after a pop");
            }
            break;
          case 4: case 5: case 6: case 7:
            if (depth) {
                do_alloc(t, mp, depth, 256);
            }
            break;
          case 8: case 9:
            if (depth && (k = b_in_frame(t, depth)) >= 0) {
                do_realloc(t, mp, k);
            }
            break;
          case 10:
            if (depth && pt_bool(t)) {
                do_fmt(t, mp, depth);
            }
            break;
          case 11:
            if (!depth) {
                pt_note(t, "reset");
                mem_stack_pool_reset(mem_stack_get_pool(mp));
            } else
            if (nb) {
                mp_ifree(mp, B[pt_u(t, nb - 1)].p);
            }
            break;
        }
        check_some(t, pt_splitmix(&s));
        if (depth > 1 && nb >= 8) {
            pt_nontrivial(t);
        }
    }
    check_all(t, "at the end");
    while (depth--) {
        PT_CHECK(t, mem_stack_pop(mp) == cookies[depth], "cookies");
        b_drop_frame(depth + 1);
        check_all(t, "at the end");
    }
    mem_stack_delete(&mp);
    PT_CHECK(t, __sanitizer_get_current_allocated_bytes() == before,
             "memory lost: %zd",
             __sanitizer_get_current_allocated_bytes() - before);
}

/* }}} */
/* {{{ fifo */

static mem_pool_t *fifo_g;

static void run_fifo(pt_t *t)
{
    static const int hints[] = { 1, 65536, 200000 };
    size_t before = __sanitizer_get_current_allocated_bytes();
    uint64_t s = pt_u(t, UINT32_MAX);
    ssize_t allocated = 0, used = 0;
    bool dead = false;
    int freed = 0;

    reset_model();
    fifo_g = mem_fifo_pool_new("vt", pt_pick(t, hints));
    while (pt_more(t, 120)) {
        switch (pt_u(t, 10)) {
          case 0: case 1: case 2: case 3: case 4:
            do_alloc(t, fifo_g, 0, 8);
            break;
          case 5: case 6: case 7:
            if (nb) {
                /* mostly the oldest */
                int k = pt_bool(t) ? 0 : pt_u(t, nb - 1);
                pt_note(t, "free block %d (%u)", k, B[k].size);
                b_check(t, &B[k], B[k].size, "before free");
                mp_ifree(fifo_g, B[k].p);
                memmove(&B[k], &B[k + 1], (nb - k - 1) * sizeof(*B));
                nb--;
                freed++;
            }
            break;
          case 8: case 9:
            if (nb) {
                int k = pt_bool(t) ? nb - 1 : pt_u(t, nb - 1);
                do_realloc(t, fifo_g, k);
            }
            break;
          case 10:
            if (pt_bool(t)) {
                do_fmt(t, fifo_g, 0);
            }
            break;
        }
        check_some(t, pt_splitmix(&s));
        if (nb >= 8 && freed > 3) {
            pt_nontrivial(t);
        }
        mem_fifo_pool_stats(fifo_g, &allocated, &used);
        {
            ssize_t live = 0;
            for (int i = 0; i < nb; i++) {
                live += B[i].size;
            }
            PT_CHECK(t, used >= live, "used %zd, live %zd", used, live);
            PT_CHECK(t, allocated >= used, "allocated %zd < used %zd", allocated,
                     used);
        }
    }
    check_all(t, "at the end");
    if (pt_bool(t)) {
        /* the pool lives until its last block is freed */
        pt_note(t, "early delete with %d blocks", nb);
        dead = true;
        mem_fifo_pool_delete(&fifo_g);
        check_all(t, "after the deletion of the pool");
    }
    while (nb) {
        int k = pt_u(t, nb - 1);
        mem_pool_t *mp = fifo_g;
        b_check(t, &B[k], B[k].size, "last frees");
        if (B[k].size || mp) {
            mp_ifree(mp, B[k].p);
        }
        b_drop(k);
        bool real = false;
        for (int i = 0; i < nb; i++) {
            real |= B[i].size;
        }
        if (dead && !real) {
            break;
        }
    }
    if (!dead) {
        mem_fifo_pool_delete(&fifo_g);
    }
    PT_CHECK(t, !fifo_g, "pool not deleted");
    PT_CHECK(t, __sanitizer_get_current_allocated_bytes() == before,
             "memory lost: %zd",
             __sanitizer_get_current_allocated_bytes() - before);
}

/* }}} */
/* {{{ ring */

#define NFR  40
static struct { const void *cookie; int id; bool open; } F[NFR];
static int nf, fid;

static void f_drop(int k)
{
    b_drop_frame(F[k].id);
    memmove(&F[k], &F[k + 1], (nf - k - 1) * sizeof(F[0]));
    nf--;
}

static void run_ring(pt_t *t)
{
    static const int init[] = { 1, 4096, 16384, 0 };
    size_t before = __sanitizer_get_current_allocated_bytes();
    mem_pool_t *mp = mem_ring_new("vt", pt_pick(t, init));
    uint64_t s = pt_u(t, UINT32_MAX);
    const void *cp = NULL;
    int cp_frame = -1, released = 0;
    bool use_cp = pt_p(t, 1, 4);

    reset_model();
    nf = 0;
    fid = 1;
    while (pt_more(t, 150)) {
        bool open = nf && F[nf - 1].open;
        int k;

        switch (pt_u(t, 13)) {
          case 0: case 1:
            if (!open && nf < NFR) {
                pt_note(t, "new frame %d", fid);
                F[nf].cookie = mem_ring_newframe(mp);
                PT_CHECK(t, F[nf].cookie == mem_ring_getframe(mp), "getframe");
                F[nf].id = fid++;
                F[nf].open = true;
                nf++;
            }
            break;
          case 2: case 3:
            if (open) {
                const void *c;
                pt_note(t, "seal frame %d", F[nf - 1].id);
                c = mem_ring_seal(mp);
                PT_CHECK(t, c == F[nf - 1].cookie, "seal cookie");
                F[nf - 1].open = false;
            }
            break;
          case 4: case 5:
            if (nf) {
                k = pt_bool(t) ? 0 : pt_u(t, nf - 1);
                if (cp && F[k].id == cp_frame) {
                    cp = NULL;
                }
                pt_note(t, "release frame %d", F[k].id);
                mem_ring_release(F[k].cookie);
                f_drop(k);
                released++;
                check_all(t, "after a release");
            }
            break;
          case 6: case 7: case 8: case 9:
            if (open) {
                do_alloc(t, mp, F[nf - 1].id, 16);
            }
            break;
          case 10:
            if (open && (k = b_in_frame(t, F[nf - 1].id)) >= 0) {
                do_realloc(t, mp, k);
            }
            break;
          case 11:
            if (open && pt_bool(t)) {
                do_fmt(t, mp, F[nf - 1].id);
            }
            break;
          case 12:
            if (pt_bool(t)) {
                pt_note(t, "reset");
                mem_ring_reset(mp);
            }
            break;
          case 13:
            if (!use_cp) {
                break;
            }
            if (cp) {
                pt_note(t, "rewind to frame %d", cp_frame);
                mem_ring_rewind(mp, cp);
                cp = NULL;
                for (int i = nf - 1; i >= 0 && F[i].id != cp_frame; i--) {
                    f_drop(i);
                }
                PT_CHECK(t, nf && F[nf - 1].id == cp_frame, "model");
                F[nf - 1].open = true;
                PT_CHECK(t, mem_ring_getframe(mp) == F[nf - 1].cookie,
                         "active frame after a rewind");
                check_all(t, "after a rewind");
                pt_label(t, "rewind");
            } else
            if (open) {
                pt_note(t, "checkpoint in frame %d", F[nf - 1].id);
                cp = mem_ring_checkpoint(mp);
                cp_frame = F[nf - 1].id;
                F[nf - 1].open = false;
            }
            break;
        }
        check_some(t, pt_splitmix(&s));
        if (released > 2 && nb >= 8 && nf > 1) {
            pt_nontrivial(t);
        }
    }
    check_all(t, "at the end");
    if (pt_bool(t)) {
        bool open = nf && F[nf - 1].open;
        if (open) {
            mem_ring_seal(mp);
            F[nf - 1].open = false;
        }
        pt_note(t, "early delete with %d frames", nf);
        mem_ring_delete(&mp);
        check_all(t, "after the deletion of the pool");
    }
    while (nf) {
        int k = pt_u(t, nf - 1);
        pt_note(t, "release frame %d", F[k].id);
        mem_ring_release(F[k].cookie);
        f_drop(k);
        check_all(t, "last releases");
    }
    mem_ring_delete(&mp);
    PT_CHECK(t, !mp, "pool not deleted");
    PT_CHECK(t, __sanitizer_get_current_allocated_bytes() == before,
             "memory lost: %zd",
             __sanitizer_get_current_allocated_bytes() - before);
}

/* }}} */
/* {{{ libc pools */

static void run_libc(pt_t *t)
{
    size_t before = __sanitizer_get_current_allocated_bytes();
    mem_pool_t *mp = pt_bool(t) ? &mem_pool_libc : &mem_pool_cl_aligned;
    uint64_t s = pt_u(t, UINT32_MAX);

    reset_model();
    while (pt_more(t, 40)) {
        int k;
        switch (pt_u(t, 6)) {
          case 0: case 1: case 2:
            do_alloc(t, mp, 0, 256);
            break;
          case 3:
            if (nb) {
                k = pt_u(t, nb - 1);
                mp_ifree(mp, B[k].p);
                b_drop(k);
            }
            break;
          case 4: case 5:
            if (nb) {
                do_realloc(t, mp, pt_u(t, nb - 1));
            }
            break;
          case 6:
            do_fmt(t, mp, 0);
            break;
        }
        check_some(t, pt_splitmix(&s));
        if (nb >= 8) {
            pt_nontrivial(t);
        }
    }
    check_all(t, "at the end");
    while (nb) {
        mp_ifree(mp, B[0].p);
        b_drop(0);
    }
    PT_CHECK(t, __sanitizer_get_current_allocated_bytes() == before,
             "memory lost: %zd",
             __sanitizer_get_current_allocated_bytes() - before);
}

/* }}} */

void pt_setup(void)
{
    t_scope;
    mem_pool_t *mp;
    const void *cookie;
    void *p;

    /* the traces of early deletions would allocate */
    e_set_verbosity(-1);
    /* what is allocated once */
    t_new_raw(char, 100);
    mp = mem_fifo_pool_new("vt", 1);
    p = mp_imalloc(mp, 10, 8, 0);
    fifo_g = mp;
    mem_fifo_pool_delete(&fifo_g);
    mp_ifree(fifo_g, p);
    mp = mem_ring_new("vt", 1);
    cookie = mem_ring_newframe(mp);
    mem_ring_seal(mp);
    mem_ring_delete(&mp);
    mem_ring_release(cookie);
}

const pt_target_t pt_targets[] = {
    { "stack", run_stack, 24000, 800000, 10 },
    { "fifo",  run_fifo,  12000, 800000, 10 },
    { "ring",  run_ring,  50000, 900000, 20 },
    { "libc",  run_libc,  20000, 300000, 0 },
};
const int pt_targets_len = countof(pt_targets);
