/* A small property-testing engine with one recorded "tape" of choices per
 * case: random generation, coverage-guided mutation of tapes, integrated
 * shrinking and replay all work on the tape.  See pt.c. */
#ifndef VERIF_PT_H
#define VERIF_PT_H

#include <stdint.h>
#include <stdbool.h>
#include <stddef.h>
#include <stdio.h>
#include <stdarg.h>

typedef struct pt_t pt_t;

typedef struct pt_target_t {
    const char *name;
    void (*run)(pt_t *t);
    /* number of cases, all workers together */
    uint32_t quick, thorough;
    /* percentage of the cases that mutate a tape of the coverage corpus */
    int cov_pct;
    /* cases per process (fork), 0: default */
    int batch;
    /* run by each forked process before its first case */
    void (*child_init)(void);
    /* cpu seconds for one case, 0: default (20) */
    int cpu_limit;
    /* max workers (0: all) */
    int max_workers;
    /* 0: a failure counts when it replays 3 times out of 3.  Otherwise (the
     * schedule is not owned by the harness): when it shows again at least
     * once in that many replays. */
    int nondet_replays;
} pt_target_t;

/* Provided by the harness */
extern const pt_target_t pt_targets[];
extern const int pt_targets_len;
extern const char pt_rule[];
void pt_setup(void);            /* once, before any fork */

/* {{{ choices */

uint64_t pt_u(pt_t *t, uint64_t max);                  /* uniform in [0,max] */
static inline int64_t pt_range(pt_t *t, int64_t lo, int64_t hi)
{
    return lo + (int64_t)pt_u(t, (uint64_t)hi - (uint64_t)lo);
}
static inline bool pt_bool(pt_t *t) { return pt_u(t, 1); }
/* true num times out of den; shrinks to false */
bool pt_p(pt_t *t, int num, int den);
/* unsigned of at most `bits` bits, biased to boundaries; shrinks to 0 */
uint64_t pt_bits(pt_t *t, int bits);
/* signed on `bits` bits, biased to boundaries; shrinks to 0 */
int64_t pt_sbits(pt_t *t, int bits);
/* size in [0,max], mostly small, sometimes near powers of two or max */
uint64_t pt_size(pt_t *t, uint64_t max);
/* "one more element?": stops after avg elements on average */
bool pt_more(pt_t *t, int avg);
/* arbitrary bytes, one choice per byte, biased */
void pt_bytes(pt_t *t, void *buf, size_t n);
/* arbitrary bytes out of a single choice (large buffers) */
void pt_fill(pt_t *t, void *buf, size_t n);
double pt_double(pt_t *t, bool finite);
/* Unicode scalar value (no surrogate), biased to ASCII; never 0 */
uint32_t pt_uchar(pt_t *t);
/* case-deterministic expansion of a seed */
uint64_t pt_splitmix(uint64_t *s);
#define pt_pick(t, arr)  ((arr)[pt_u(t, sizeof(arr) / sizeof((arr)[0]) - 1)])

/* }}} */
/* {{{ reporting */

void pt_nontrivial(pt_t *t);
/* the case is excluded from the property's domain */
void pt_discard(pt_t *t);
void pt_label(pt_t *t, const char *label);  /* static strings */
bool pt_verbose(const pt_t *t);
void pt_note(pt_t *t, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
void pt_note_hex(pt_t *t, const char *what, const void *p, size_t len);
void pt_fail(pt_t *t, const char *file, int line, const char *fmt, ...)
    __attribute__((noreturn, format(printf, 4, 5)));

#define PT_FAIL(t, ...)  pt_fail(t, __FILE__, __LINE__, __VA_ARGS__)
#define PT_CHECK(t, cond, ...) \
    do {                                                                     \
        if (!(cond)) {                                                       \
            pt_fail(t, __FILE__, __LINE__, __VA_ARGS__);                     \
        }                                                                    \
    } while (0)

/* true when this failure is recorded in known-findings.txt: the case is
 * counted under the label known:KEY, and is not reported */
bool pt_known(pt_t *t, const char *key);

/* directory private to this worker; removed by the check script */
const char *pt_tmpdir(void);
bool pt_thorough(void);

/* }}} */
#endif
