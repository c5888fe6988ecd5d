/* Engine of the property tests: see pt.h.
 *
 * usage: BIN -o OUT.json -d TMPDIR [-s SEED] [-T quick|thorough] [-w WORKERS]
 *            [-x SCALE_PCT] [-L WALL_SECONDS] [-t TARGET] [-r REPLAY_FILE]
 *
 * exit: 0 held, 1 a failure was found (replay written), 2 engine error.
 */
#include "pt.h"
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <errno.h>
#include <signal.h>
#include <time.h>
#include <math.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <sys/prctl.h>

#define TAPE_MAX     (1 << 16)
#define CORPUS_MAX   4096
#define CORPUS_WORDS (1 << 21)
#define BLOG_WORDS   (1 << 21)
#define SET_SIZE     (1 << 20)
#define LABELS       96
#define SAMPLES      4
#define MSG_MAX      2000

#define X_FAIL   97
#define X_TIME   96
#define X_ASAN   98

typedef struct label_t {
    char name[48];
    uint64_t n;
} label_t;

typedef struct shm_t {
    /* current case */
    uint32_t rec_len;
    uint64_t rec[TAPE_MAX];
    char msg[MSG_MAX];
    /* progress */
    uint64_t cases, nontrivial, distinct, discarded;
    uint64_t ticks;
    label_t labels[LABELS];
    int nsamples;
    uint32_t sample_len[SAMPLES];
    uint64_t sample[SAMPLES][512];
    /* batch log: tapes of the cases run by the current child, in order */
    uint32_t blog_n, blog_words;
    bool blog_full;
    uint64_t blog[BLOG_WORDS];
    /* failure */
    bool failed;
    int fail_status;
    /* coverage corpus */
    int corpus_n;
    uint32_t corpus_words;
    uint32_t corpus_off[CORPUS_MAX], corpus_len[CORPUS_MAX];
    uint64_t corpus[CORPUS_WORDS];
    uint64_t edges;
    /* distinct non-trivial cases */
    uint64_t set[SET_SIZE];
} shm_t;

struct pt_t {
    const pt_target_t *tg;
    uint64_t rng;
    /* tape to follow, then fresh choices if extend, else 0 */
    const uint64_t *in;
    uint32_t in_len;
    bool extend;
    /* record */
    uint64_t *rec;
    uint32_t *rec_len;
    bool verbose;
    bool nontrivial, discarded;
    shm_t *shm;
};

static struct {
    uint64_t seed;
    bool thorough;
    int workers;
    int scale;
    double wall;
    const char *out, *tmp, *only, *replay;
    char wtmp[4096];
    double t0;
} G = { .seed = 1, .workers = 8, .scale = 100, .wall = 1e9, .tmp = NULL };

static shm_t *volatile cur_shm_g;
static volatile bool *stop_g;

static double now(void)
{
    struct timespec ts;

    clock_gettime(CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + ts.tv_nsec * 1e-9;
}

bool pt_thorough(void) { return G.thorough; }
const char *pt_tmpdir(void) { return G.wtmp; }

/* {{{ coverage counters and compared constants */

#define MODS 4096
static struct { uint8_t *b, *e; } mods_g[MODS];
static int nmods_g;
static size_t ncounters_g;
static uint8_t *virgin_g;

__attribute__((no_sanitize("address")))
void __sanitizer_cov_8bit_counters_init(uint8_t *b, uint8_t *e)
{
    if (b == e || nmods_g >= MODS) {
        return;
    }
    for (int i = 0; i < nmods_g; i++) {
        if (mods_g[i].b == b) {
            return;
        }
    }
    mods_g[nmods_g].b = b;
    mods_g[nmods_g].e = e;
    nmods_g++;
    ncounters_g += e - b;
}

#define RING 512
static uint64_t ring_g[RING];
static unsigned ring_pos_g;
static bool ring_on_g;

__attribute__((no_sanitize("address")))
static inline void ring_add(uint64_t v)
{
    if (ring_on_g && v > 1 && ring_g[ring_pos_g % RING] != v) {
        ring_g[++ring_pos_g % RING] = v;
    }
}
void __sanitizer_cov_trace_cmp1(uint8_t a, uint8_t b) { }
void __sanitizer_cov_trace_cmp2(uint16_t a, uint16_t b) { }
void __sanitizer_cov_trace_cmp4(uint32_t a, uint32_t b) { }
void __sanitizer_cov_trace_cmp8(uint64_t a, uint64_t b) { }
void __sanitizer_cov_trace_const_cmp1(uint8_t a, uint8_t b) { ring_add(a); }
void __sanitizer_cov_trace_const_cmp2(uint16_t a, uint16_t b) { ring_add(a); }
void __sanitizer_cov_trace_const_cmp4(uint32_t a, uint32_t b) { ring_add(a); }
void __sanitizer_cov_trace_const_cmp8(uint64_t a, uint64_t b) { ring_add(a); }
__attribute__((no_sanitize("address")))
void __sanitizer_cov_trace_switch(uint64_t v, uint64_t *cases)
{
    if (ring_on_g) {
        uint64_t n = cases[0];

        if (n) {
            ring_add(cases[2 + v % n]);
        }
    }
}
void __sanitizer_cov_trace_div4(uint32_t v) { }
void __sanitizer_cov_trace_div8(uint64_t v) { }
void __sanitizer_cov_trace_gep(uintptr_t v) { }
void __sanitizer_cov_trace_pc_indir(uintptr_t v) { }
void __sanitizer_cov_pcs_init(const uintptr_t *b, const uintptr_t *e) { }

__attribute__((no_sanitize("address")))
static void cov_reset(void)
{
    for (int i = 0; i < nmods_g; i++) {
        memset(mods_g[i].b, 0, mods_g[i].e - mods_g[i].b);
    }
}

static inline uint8_t bucket(uint8_t c)
{
    if (c <= 3) return c == 0 ? 0 : 1 << (c - 1);
    if (c <= 7) return 8;
    if (c <= 15) return 16;
    if (c <= 31) return 32;
    if (c <= 127) return 64;
    return 128;
}

/* returns the number of new (edge, bucket) pairs */
__attribute__((no_sanitize("address")))
static int cov_merge(shm_t *shm)
{
    size_t k = 0;
    int news = 0;

    for (int i = 0; i < nmods_g; i++) {
        uint8_t *p = mods_g[i].b, *e = mods_g[i].e;

        while (p < e) {
            if ((((uintptr_t)p) & 7) == 0 && e - p >= 8
            &&  *(uint64_t *)p == 0)
            {
                p += 8;
                k += 8;
                continue;
            }
            if (*p) {
                uint8_t b = bucket(*p);

                if (!(virgin_g[k] & b)) {
                    if (!virgin_g[k]) {
                        shm->edges++;
                    }
                    virgin_g[k] |= b;
                    news++;
                }
            }
            p++;
            k++;
        }
    }
    return news;
}

const char *__asan_default_options(void)
{
    return "detect_leaks=0:abort_on_error=0:exitcode=98:"
           "allocator_may_return_null=1:handle_abort=1:handle_sigill=1:"
           "detect_stack_use_after_return=0:malloc_context_size=8:"
           "quarantine_size_mb=8:handle_segv=1:max_allocation_size_mb=2048";
}
const char *__ubsan_default_options(void)
{
    return "print_stacktrace=1:exitcode=98:abort_on_error=0";
}
const char *__tsan_default_options(void)
{
    return "exitcode=98:halt_on_error=1:report_signal_unsafe=0";
}

/* }}} */
/* {{{ choices */

uint64_t pt_splitmix(uint64_t *s)
{
    uint64_t z = (*s += 0x9e3779b97f4a7c15ull);

    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}

static inline uint64_t rnd(pt_t *t) { return pt_splitmix(&t->rng); }

static inline uint64_t rnd_max(pt_t *t, uint64_t max)
{
    uint64_t r = rnd(t);

    return max == UINT64_MAX ? r : r % (max + 1);
}

/* next choice of the input tape, if any */
static inline bool tape_next(pt_t *t, uint64_t max, uint64_t *v)
{
    uint32_t pos = *t->rec_len;

    if (pos >= TAPE_MAX) {
        *v = 0;
        return true;
    }
    if (pos < t->in_len) {
        uint64_t r = t->in[pos];

        *v = (r <= max) ? r : (max == UINT64_MAX ? r : r % (max + 1));
        return true;
    }
    if (!t->extend) {
        *v = 0;
        return true;
    }
    return false;
}

static inline uint64_t tape_rec(pt_t *t, uint64_t v)
{
    uint32_t pos = *t->rec_len;

    if (pos < TAPE_MAX) {
        t->rec[pos] = v;
        *t->rec_len = pos + 1;
    }
    return v;
}

uint64_t pt_u(pt_t *t, uint64_t max)
{
    uint64_t v;

    if (!tape_next(t, max, &v)) {
        v = rnd_max(t, max);
    }
    return tape_rec(t, v);
}

bool pt_p(pt_t *t, int num, int den)
{
    uint64_t v;

    if (!tape_next(t, 1, &v)) {
        v = (rnd(t) % den) < (uint64_t)num;
    }
    return tape_rec(t, v);
}

uint64_t pt_bits(pt_t *t, int bits)
{
    uint64_t max = bits >= 64 ? UINT64_MAX : (1ull << bits) - 1;
    uint64_t v;

    if (!tape_next(t, max, &v)) {
        uint64_t r = rnd(t);

        switch (r % 16) {
          case 0: case 1: case 2:
            v = rnd_max(t, 8);
            break;
          case 3: case 4: case 5:
            v = rnd_max(t, 300);
            break;
          case 6: case 7: case 8: case 9: {
            /* around a power of two */
            int b = rnd(t) % bits;

            v = (1ull << b) + (uint64_t)((int)(rnd(t) % 5) - 2);
          } break;
          case 10:
            v = max - rnd_max(t, 4);
            break;
          case 11:
            v = ring_pos_g ? ring_g[rnd(t) % RING] + (int)(rnd(t) % 3) - 1
                           : rnd(t);
            break;
          case 12: case 13: {
            int b = 1 + rnd(t) % bits;

            v = rnd(t) & (b >= 64 ? UINT64_MAX : (1ull << b) - 1);
          } break;
          default:
            v = rnd(t);
            break;
        }
        v &= max;
    }
    return tape_rec(t, v);
}

int64_t pt_sbits(pt_t *t, int bits)
{
    uint64_t max = bits >= 64 ? UINT64_MAX : (1ull << bits) - 1;
    /* zig-zag, so that it shrinks to 0 */
    uint64_t z = pt_bits(t, bits) & max;

    return (int64_t)(z >> 1) ^ -(int64_t)(z & 1);
}

uint64_t pt_size(pt_t *t, uint64_t max)
{
    uint64_t v;

    if (!tape_next(t, max, &v)) {
        switch (rnd(t) % 16) {
          default:
            v = rnd_max(t, 8);
            break;
          case 8: case 9: case 10:
            v = rnd_max(t, 40);
            break;
          case 11: case 12: {
            int lg = 1;

            while (lg < 63 && (max >> lg)) {
                lg++;
            }
            v = (1ull << (rnd(t) % lg)) + (uint64_t)((int)(rnd(t) % 5) - 2);
          } break;
          case 13:
            v = max - rnd_max(t, 2);
            break;
          case 14:
            v = ring_pos_g ? ring_g[rnd(t) % RING] + (int)(rnd(t) % 3) - 1 : 0;
            break;
          case 15:
            v = rnd(t);
            break;
        }
        if (v > max) {
            v = max == UINT64_MAX ? v : v % (max + 1);
        }
    }
    return tape_rec(t, v);
}

bool pt_more(pt_t *t, int avg)
{
    return pt_p(t, avg, avg + 1);
}

static const uint8_t special_bytes[] =
    "\0\x01\x7f\x80\xff \t\r\n\"'\\/<>&%;:,=+-#[]{}()*.|0123456789aAzZ\xc2\xe2\xf0\xed\xbf";

void pt_bytes(pt_t *t, void *buf, size_t n)
{
    uint8_t *p = buf;

    for (size_t i = 0; i < n; i++) {
        uint64_t v;

        if (!tape_next(t, 255, &v)) {
            uint64_t r = rnd(t);

            switch (r & 3) {
              case 0:  v = 'a' + (r >> 8) % 26; break;
              case 1:  v = special_bytes[(r >> 8) % (sizeof(special_bytes) - 1)]; break;
              default: v = (r >> 8) & 0xff; break;
            }
        }
        p[i] = tape_rec(t, v);
    }
}

void pt_fill(pt_t *t, void *buf, size_t n)
{
    uint64_t s = pt_u(t, UINT64_MAX);
    uint8_t *p = buf;
    int mode = s & 7;

    /* mode 0: all zero (shrinks there); 1: constant; 2: repetitive;
     * others: noise */
    if (s == 0) {
        memset(buf, 0, n);
        return;
    }
    for (size_t i = 0; i < n; ) {
        uint64_t v = pt_splitmix(&s);

        if (mode == 0) {
            /* runs */
            size_t run = 1 + (v >> 8) % 300;

            while (run-- && i < n) {
                p[i++] = v;
            }
        } else
        if (mode <= 2 && i > 16 && (v & 3)) {
            size_t off = 1 + (v >> 8) % (i < 5000 ? i : 5000);
            size_t run = 1 + (v >> 32) % 80;

            while (run-- && i < n) {
                p[i] = p[i - off];
                i++;
            }
        } else {
            for (int k = 0; k < 8 && i < n; k++) {
                p[i++] = v >> (8 * k);
            }
        }
    }
}

double pt_double(pt_t *t, bool finite)
{
    static const double specials[] = {
        0., 1., -1., 0.5, 0.1, -0., 1e-5, 1e10, 1e22, 1e23, 123456789.125,
        2147483647., 2147483648., 4294967296., 9007199254740991.,
        9007199254740992., 9007199254740993., 9223372036854775807.,
        18446744073709551616., 1.7976931348623157e308, 2.2250738585072014e-308,
        4.9406564584124654e-324, -1.7976931348623157e308, 1e300, -1e-300,
        3.14159265358979, 1. / 3,
    };
    union { uint64_t u; double d; } x;
    uint64_t k = pt_u(t, 7);

    if (k <= 1) {
        return pt_pick(t, specials);
    }
    if (k <= 3) {
        return (double)pt_sbits(t, 64);
    }
    if (k <= 5) {
        return (double)pt_sbits(t, 40) / (double)(1 << pt_u(t, 20));
    }
    x.u = pt_u(t, UINT64_MAX);
    if (finite && !isfinite(x.d)) {
        x.u &= ~(1ull << 62);
    }
    return x.d;
}

uint32_t pt_uchar(pt_t *t)
{
    uint32_t v;

    switch (pt_u(t, 9)) {
      case 0: case 1: case 2: case 3: v = 'a' + pt_u(t, 25); break;
      case 4: v = 0x20 + pt_u(t, 0x5e); break;
      case 5: v = 1 + pt_u(t, 0x7e); break;
      case 6: v = 0x80 + pt_u(t, 0x77f); break;
      case 7: v = 0x800 + pt_u(t, 0xf7ff); break;
      case 8: v = 0x10000 + pt_u(t, 0xfffff); break;
      default: v = special_bytes[1 + pt_u(t, sizeof(special_bytes) - 3)] & 0x7f;
               break;
    }
    if (v >= 0xd800 && v <= 0xdfff) {
        v = 0xe000 + (v & 0x7ff);
    }
    return v ?: 1;
}

/* }}} */
/* {{{ reporting */

void pt_nontrivial(pt_t *t) { t->nontrivial = true; }
void pt_discard(pt_t *t) { t->discarded = true; }
bool pt_verbose(const pt_t *t) { return t->verbose; }

void pt_label(pt_t *t, const char *label)
{
    shm_t *s = t->shm;

    if (!s || t->verbose) {
        return;
    }
    for (int i = 0; i < LABELS; i++) {
        if (!s->labels[i].name[0]) {
            snprintf(s->labels[i].name, sizeof(s->labels[i].name), "%s",
                     label);
        }
        if (!strncmp(s->labels[i].name, label,
                     sizeof(s->labels[i].name) - 1))
        {
            s->labels[i].n++;
            return;
        }
    }
}

bool pt_known(pt_t *t, const char *key)
{
    const char *l = getenv("PT_KNOWN") ?: "";
    size_t n = strlen(key);

    while ((l = strstr(l, key))) {
        if ((l[n] == '\0' || l[n] == ' ')) {
            char lab[48];

            snprintf(lab, sizeof(lab), "known:%s", key);
            pt_label(t, lab);
            return true;
        }
        l += n;
    }
    return false;
}

void pt_note(pt_t *t, const char *fmt, ...)
{
    va_list va;

    if (!t->verbose) {
        return;
    }
    va_start(va, fmt);
    vfprintf(stderr, fmt, va);
    va_end(va);
    fputc('\n', stderr);
    fflush(stderr);
}

void pt_note_hex(pt_t *t, const char *what, const void *p, size_t len)
{
    if (!t->verbose) {
        return;
    }
    fprintf(stderr, "%s [%zu]: ", what, len);
    for (size_t i = 0; i < len && i < 400; i++) {
        uint8_t c = ((const uint8_t *)p)[i];

        if (c >= 0x20 && c < 0x7f && c != '\\') {
            fputc(c, stderr);
        } else {
            fprintf(stderr, "\\x%02x", c);
        }
    }
    fprintf(stderr, len > 400 ? "...\n" : "\n");
    fflush(stderr);
}

void pt_fail(pt_t *t, const char *file, int line, const char *fmt, ...)
{
    va_list va;
    char *p = cur_shm_g->msg;
    const char *b = strrchr(file, '/');
    int n;

    n = snprintf(p, MSG_MAX, "%s:%d: ", b ? b + 1 : file, line);
    va_start(va, fmt);
    vsnprintf(p + n, MSG_MAX - n, fmt, va);
    va_end(va);
    if (t->verbose) {
        fprintf(stderr, "FAILED %s\n", p);
        fflush(stderr);
    }
    _exit(X_FAIL);
}

/* }}} */
/* {{{ running cases */

static int cpu_limit_g = 20;

static void on_prof(int sig)
{
    _exit(X_TIME);
}

static void arm(int secs)
{
    struct itimerval it = { .it_value.tv_sec = secs };

    setitimer(ITIMER_PROF, &it, NULL);
}

static void child_setup(const pt_target_t *tg, bool quiet)
{
    signal(SIGPROF, on_prof);
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    if (quiet) {
        int fd = open("/dev/null", O_WRONLY);

        dup2(fd, 2);
        dup2(fd, 1);
        close(fd);
    }
    cpu_limit_g = tg->cpu_limit ?: 20;
    if (tg->child_init) {
        arm(cpu_limit_g);
        tg->child_init();
    }
    ring_on_g = true;
}

static uint64_t hash_tape(const uint64_t *p, uint32_t n)
{
    uint64_t h = 0xcbf29ce484222325ull ^ n;

    for (uint32_t i = 0; i < n; i++) {
        h = (h ^ p[i]) * 0x100000001b3ull;
        h ^= h >> 29;
    }
    return h ?: 1;
}

static bool set_add(uint64_t *set, uint64_t h)
{
    uint32_t k = h % SET_SIZE;

    for (int i = 0; i < 64; i++, k = (k + 1) % SET_SIZE) {
        if (set[k] == h) {
            return false;
        }
        if (!set[k]) {
            set[k] = h;
            return true;
        }
    }
    return false;
}

static void run_one(const pt_target_t *tg, shm_t *shm, const uint64_t *in,
                    uint32_t in_len, bool extend, uint64_t seed, bool verbose,
                    bool *nontrivial, bool *discarded)
{
    pt_t t = {
        .tg = tg, .rng = seed, .in = in, .in_len = in_len, .extend = extend,
        .rec = shm->rec, .rec_len = &shm->rec_len, .verbose = verbose,
        .shm = shm,
    };

    cur_shm_g = shm;
    shm->rec_len = 0;
    shm->msg[0] = '\0';
    arm(cpu_limit_g);
    (*tg->run)(&t);
    if (nontrivial) {
        *nontrivial = t.nontrivial;
        *discarded = t.discarded;
    }
}

static void blog_add(shm_t *shm)
{
    if (shm->blog_full
    ||  shm->blog_words + shm->rec_len + 1 > BLOG_WORDS)
    {
        shm->blog_full = true;
        return;
    }
    shm->blog[shm->blog_words++] = shm->rec_len;
    memcpy(shm->blog + shm->blog_words, shm->rec, shm->rec_len * 8);
    shm->blog_words += shm->rec_len;
    shm->blog_n++;
}

static uint32_t mutate(shm_t *shm, uint64_t *rng, uint64_t *buf)
{
    int a = pt_splitmix(rng) % shm->corpus_n;
    uint32_t n;
    int rounds;

    /* favour recent entries */
    if (shm->corpus_n > 8 && (pt_splitmix(rng) & 1)) {
        a = shm->corpus_n - 1 - pt_splitmix(rng) % (shm->corpus_n / 4 + 1);
    }
    n = shm->corpus_len[a];
    memcpy(buf, shm->corpus + shm->corpus_off[a], n * 8);
    if (n == 0) {
        return 0;
    }
    rounds = 1 + pt_splitmix(rng) % 4;
    while (rounds--) {
        uint64_t r = pt_splitmix(rng);
        uint32_t p = n ? (r >> 8) % n : 0;

        if (!n) {
            break;
        }
        switch (r & 15) {
          case 0: case 1:                       /* truncate: fresh suffix */
            n = p;
            break;
          case 2: case 3: {                     /* delete a chunk */
            uint32_t l = 1 + (r >> 32) % 8;

            if (p + l > n) l = n - p;
            memmove(buf + p, buf + p + l, (n - p - l) * 8);
            n -= l;
          } break;
          case 4: {                             /* duplicate a chunk */
            uint32_t l = 1 + (r >> 32) % 16;

            if (p + l > n) l = n - p;
            if (n + l <= TAPE_MAX) {
                memmove(buf + p + l, buf + p, (n - p) * 8);
                n += l;
            }
          } break;
          case 5: {                             /* splice */
            int b = pt_splitmix(rng) % shm->corpus_n;
            uint32_t bl = shm->corpus_len[b];

            if (bl) {
                uint32_t q = pt_splitmix(rng) % bl;

                if (p + bl - q <= TAPE_MAX) {
                    memcpy(buf + p, shm->corpus + shm->corpus_off[b] + q,
                           (bl - q) * 8);
                    n = p + bl - q;
                }
            }
          } break;
          case 6: case 7: case 8:
            buf[p] = pt_splitmix(rng) % 256;
            break;
          case 9: case 10:
            buf[p] += (int)(pt_splitmix(rng) % 9) - 4;
            break;
          case 11:
            buf[p] ^= 1ull << (pt_splitmix(rng) & 63);
            break;
          case 12:
            buf[p] = ring_g[pt_splitmix(rng) % RING];
            break;
          case 13:
            buf[p] = pt_splitmix(rng);
            break;
          case 14:
            buf[p] = special_bytes[pt_splitmix(rng) % (sizeof(special_bytes) - 1)];
            break;
          case 15:
            buf[p] = 0;
            break;
        }
    }
    return n;
}

static uint64_t case_seed(const pt_target_t *tg, int worker, uint64_t idx)
{
    uint64_t s = G.seed * 0x9e3779b97f4a7c15ull;

    for (const char *p = tg->name; *p; p++) {
        s = (s ^ (uint8_t)*p) * 0x100000001b3ull;
    }
    s ^= (uint64_t)worker << 48;
    s += idx * 0xda942042e4dd58b5ull;
    pt_splitmix(&s);
    return pt_splitmix(&s);
}

/* A child: cases [start, end[ of this worker */
static void child_loop(const pt_target_t *tg, shm_t *shm, int worker,
                       uint64_t start, uint64_t end)
{
    static uint64_t buf[TAPE_MAX];

    shm->blog_n = shm->blog_words = 0;
    shm->blog_full = false;
    for (uint64_t i = start; i < end && !*stop_g; i++) {
        uint64_t seed = case_seed(tg, worker, i);
        uint64_t rng = seed ^ 0x5bd1e995;
        bool nontrivial = false, discarded = false;
        bool use_cov = tg->cov_pct && shm->corpus_n
                    && (int)(pt_splitmix(&rng) % 100) < tg->cov_pct;
        uint32_t n = 0;

        if (use_cov) {
            n = mutate(shm, &rng, buf);
        }
        if (tg->cov_pct) {
            cov_reset();
        }
        run_one(tg, shm, buf, n, true, seed, false, &nontrivial, &discarded);
        shm->cases++;
        shm->ticks++;
        if (discarded) {
            shm->discarded++;
        }
        if (nontrivial && !discarded) {
            shm->nontrivial++;
            if (set_add(shm->set, hash_tape(shm->rec, shm->rec_len))) {
                shm->distinct++;
            }
            if (shm->nsamples < SAMPLES && shm->rec_len <= 512
            &&  (i % 7 == 3 || shm->nsamples == 0))
            {
                int k = shm->nsamples;

                memcpy(shm->sample[k], shm->rec, shm->rec_len * 8);
                shm->sample_len[k] = shm->rec_len;
                shm->nsamples++;
            }
        }
        if (tg->cov_pct && cov_merge(shm)
        &&  shm->corpus_n < CORPUS_MAX
        &&  shm->corpus_words + shm->rec_len <= CORPUS_WORDS
        &&  shm->rec_len <= 8192)
        {
            memcpy(shm->corpus + shm->corpus_words, shm->rec,
                   shm->rec_len * 8);
            shm->corpus_off[shm->corpus_n] = shm->corpus_words;
            shm->corpus_len[shm->corpus_n] = shm->rec_len;
            shm->corpus_words += shm->rec_len;
            shm->corpus_n++;
        }
        blog_add(shm);
        if (now() - G.t0 > G.wall) {
            break;
        }
    }
}

/* outcome of a forked run: 0 ok, >0 failure, -1 inconclusive */
static int wait_child(pid_t pid, shm_t *shm, double wall, int *code)
{
    int st;
    uint64_t last = shm ? shm->ticks : 0;
    double t = now();
    int us = 100;

    for (;;) {
        pid_t r = waitpid(pid, &st, WNOHANG);

        if (r == pid) {
            break;
        }
        if (r < 0 && errno != EINTR) {
            return -1;
        }
        if (shm && shm->ticks != last) {
            last = shm->ticks;
            t = now();
        }
        if (now() - t > wall) {
            kill(pid, SIGKILL);
            waitpid(pid, &st, 0);
            *code = -1;
            return -1;
        }
        usleep(us);
        if (us < 5000) {
            us = us * 3 / 2;
        }
    }
    if (WIFEXITED(st)) {
        *code = WEXITSTATUS(st);
        if (*code == 0) {
            return 0;
        }
        return 1;
    }
    *code = 128 + WTERMSIG(st);
    if (WTERMSIG(st) == SIGKILL) {
        /* out of memory killer or the like: not a verdict */
        return -1;
    }
    return 1;
}

static void worker_main(const pt_target_t *tg, shm_t *shm, int worker,
                        uint64_t cases)
{
    uint64_t i = 0;
    int batch = tg->batch ?: 500;

    prctl(PR_SET_PDEATHSIG, SIGKILL);
    snprintf(G.wtmp, sizeof(G.wtmp), "%s/w%d", G.tmp, worker);
    mkdir(G.wtmp, 0700);
    while (i < cases && !*stop_g && now() - G.t0 < G.wall) {
        uint64_t end = i + batch < cases ? i + batch : cases;
        int code = 0;
        uint64_t done = shm->cases;
        pid_t pid = fork();

        if (pid == 0) {
            child_setup(tg, true);
            child_loop(tg, shm, worker, i, end);
            _exit(0);
        }
        switch (wait_child(pid, shm, 300, &code)) {
          case 0:
            i = end;
            break;
          case -1:
            /* killed: skip that case */
            i += shm->cases - done + 1;
            pt_label(&(pt_t){ .shm = shm }, "engine: killed, inconclusive");
            break;
          default:
            shm->failed = true;
            shm->fail_status = code;
            *stop_g = true;
            _exit(0);
        }
    }
    _exit(0);
}

/* }}} */
/* {{{ failures: confirm, shrink, replay */

typedef struct tapes_t {
    int n;
    uint32_t *len;
    uint64_t **tape;
} tapes_t;

static const char *code_str(int code)
{
    static char buf[64];

    switch (code) {
      case X_FAIL: return "check failed";
      case X_TIME: return "cpu limit exceeded (no termination)";
      case X_ASAN: return "sanitizer report or abort";
    }
    if (code >= 128) {
        snprintf(buf, sizeof(buf), "signal %d", code - 128);
    } else {
        snprintf(buf, sizeof(buf), "exit %d", code);
    }
    return buf;
}

/* run the tapes in one fresh process; true if it fails */
static bool try_tapes(const pt_target_t *tg, shm_t *shm, const tapes_t *ts,
                      bool verbose, const char *errfile, int *code)
{
    pid_t pid;
    int c = 0;

    fflush(NULL);
    pid = fork();
    if (pid == 0) {
        if (errfile) {
            int fd = open(errfile, O_WRONLY | O_CREAT | O_TRUNC, 0600);

            dup2(fd, 2);
            dup2(fd, 1);
            close(fd);
        }
        child_setup(tg, !errfile);
        for (int i = 0; i < ts->n; i++) {
            run_one(tg, shm, ts->tape[i], ts->len[i], false, 0,
                    verbose && i == ts->n - 1, NULL, NULL);
            shm->ticks++;
        }
        _exit(0);
    }
    if (wait_child(pid, shm, 300, &c) == 1) {
        if (code) {
            *code = c;
        }
        return true;
    }
    return false;
}

static void tapes_set(tapes_t *ts, int i, const uint64_t *p, uint32_t n)
{
    ts->tape[i] = realloc(ts->tape[i], (n + 1) * 8);
    memmove(ts->tape[i], p, n * 8);
    ts->len[i] = n;
}

static double shrink_end_g;
static int shrink_tries_g;

static bool attempt(const pt_target_t *tg, shm_t *shm, tapes_t *ts, int i,
                    const uint64_t *cand, uint32_t n)
{
    uint64_t *old = ts->tape[i];
    uint32_t oldn = ts->len[i];
    bool ok;

    if (now() > shrink_end_g || shrink_tries_g > 6000) {
        return false;
    }
    shrink_tries_g++;
    ts->tape[i] = (uint64_t *)cand;
    ts->len[i] = n;
    ok = try_tapes(tg, shm, ts, false, NULL, NULL);
    ts->tape[i] = old;
    ts->len[i] = oldn;
    if (ok) {
        /* keep what was really consumed when the last tape failed */
        uint32_t used = n;

        if (i == ts->n - 1 && shm->rec_len < n) {
            used = shm->rec_len;
        }
        tapes_set(ts, i, cand, used);
    }
    return ok;
}

static void shrink(const pt_target_t *tg, shm_t *shm, tapes_t *ts)
{
    static uint64_t buf[TAPE_MAX + 1];
    bool progress = true;
    int i = ts->n - 1;

    shrink_end_g = now() + (G.thorough ? 120 : 45);
    while (progress && now() < shrink_end_g) {
        progress = false;
        /* delete chunks */
        for (uint32_t sz = ts->len[i] / 2 ?: 1; sz >= 1; sz /= 2) {
            for (int64_t p = (int64_t)ts->len[i] - sz; p >= 0; ) {
                uint32_t n = ts->len[i];

                if (p + sz > n) {
                    p = (int64_t)n - sz;
                    if (p < 0) {
                        break;
                    }
                }
                memcpy(buf, ts->tape[i], p * 8);
                memcpy(buf + p, ts->tape[i] + p + sz, (n - p - sz) * 8);
                if (attempt(tg, shm, ts, i, buf, n - sz)) {
                    progress = true;
                }
                p -= sz;
                if (now() > shrink_end_g) {
                    return;
                }
            }
        }
        /* zero chunks */
        for (uint32_t sz = ts->len[i] / 2 ?: 1; sz >= 1; sz /= 2) {
            for (uint32_t p = 0; p + sz <= ts->len[i]; p += sz) {
                bool any = false;

                memcpy(buf, ts->tape[i], ts->len[i] * 8);
                for (uint32_t k = p; k < p + sz; k++) {
                    any |= buf[k] != 0;
                    buf[k] = 0;
                }
                if (any && attempt(tg, shm, ts, i, buf, ts->len[i])) {
                    progress = true;
                }
                if (now() > shrink_end_g) {
                    return;
                }
            }
        }
        /* lower values */
        for (uint32_t p = 0; p < ts->len[i]; p++) {
            uint64_t v = ts->tape[i][p];
            uint64_t lo = 0;

            while (v > lo && now() < shrink_end_g) {
                uint64_t mid = lo + (v - lo) / 2;

                if (p >= ts->len[i]) {
                    break;
                }
                memcpy(buf, ts->tape[i], ts->len[i] * 8);
                buf[p] = mid;
                if (attempt(tg, shm, ts, i, buf, ts->len[i])) {
                    progress = true;
                    v = mid;
                } else {
                    lo = mid + 1;
                }
            }
        }
        if (ts->n > 1) {
            continue;
        }
    }
}

/* A failure that needs several cases in one process: drop cases */
static void shrink_batch(const pt_target_t *tg, shm_t *shm, tapes_t *ts)
{
    double end = now() + 60;

    for (int sz = ts->n / 2; sz >= 1; sz /= 2) {
        for (int p = ts->n - 1 - sz; p >= 0 && now() < end; p -= sz) {
            tapes_t c = { .n = 0 };

            if (p + sz > ts->n - 1) {
                continue;
            }
            c.tape = calloc(ts->n, sizeof(*c.tape));
            c.len = calloc(ts->n, sizeof(*c.len));
            for (int k = 0; k < ts->n; k++) {
                if (k < p || k >= p + sz) {
                    c.tape[c.n] = ts->tape[k];
                    c.len[c.n] = ts->len[k];
                    c.n++;
                }
            }
            if (try_tapes(tg, shm, &c, false, NULL, NULL)) {
                memcpy(ts->tape, c.tape, c.n * sizeof(*c.tape));
                memcpy(ts->len, c.len, c.n * sizeof(*c.len));
                ts->n = c.n;
            }
            free(c.tape);
            free(c.len);
        }
    }
}

static char *read_file(const char *path, size_t max)
{
    FILE *f = fopen(path, "r");
    char *b = calloc(1, max + 1);
    size_t n = 0;

    if (f) {
        n = fread(b, 1, max, f);
        fclose(f);
    }
    b[n] = 0;
    for (size_t i = 0; i < n; i++) {
        if (!b[i]) {
            b[i] = '?';
        }
    }
    return b;
}

static void json_str(FILE *f, const char *s)
{
    fputc('"', f);
    for (; *s; s++) {
        uint8_t c = *s;

        if (c == '"' || c == '\\') {
            fprintf(f, "\\%c", c);
        } else
        if (c < 0x20 || c >= 0x7f) {
            fprintf(f, "\\u%04x", c);
        } else {
            fputc(c, f);
        }
    }
    fputc('"', f);
}

static void write_replay(const char *path, const pt_target_t *tg,
                         const tapes_t *ts, const char *msg,
                         const char *trace)
{
    FILE *f = fopen(path, "w");

    if (!f) {
        return;
    }
    fprintf(f, "# minimal failing case; replay with: tools/check.py replay "
            "<property> <this file>\n");
    fprintf(f, "# %s\n", msg);
    for (const char *p = trace; *p; ) {
        const char *e = strchrnul(p, '\n');

        fprintf(f, "# | %.*s\n", (int)(e - p), p);
        p = *e ? e + 1 : e;
    }
    fprintf(f, "target %s\n", tg->name);
    for (int i = 0; i < ts->n; i++) {
        fprintf(f, "tape");
        for (uint32_t k = 0; k < ts->len[i]; k++) {
            fprintf(f, " %llu", (unsigned long long)ts->tape[i][k]);
        }
        fprintf(f, "\n");
    }
    fclose(f);
}

static void tapes_push(tapes_t *ts, const uint64_t *p, uint32_t n)
{
    ts->tape = realloc(ts->tape, (ts->n + 1) * sizeof(*ts->tape));
    ts->len = realloc(ts->len, (ts->n + 1) * sizeof(*ts->len));
    ts->tape[ts->n] = NULL;
    ts->n++;
    tapes_set(ts, ts->n - 1, p, n);
}

/* }}} */

static void *map(size_t n)
{
    void *p = mmap(NULL, n, PROT_READ | PROT_WRITE,
                   MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);

    if (p == MAP_FAILED) {
        perror("mmap");
        exit(2);
    }
    return p;
}

static const pt_target_t *find_target(const char *name)
{
    for (int i = 0; i < pt_targets_len; i++) {
        if (!strcmp(pt_targets[i].name, name)) {
            return &pt_targets[i];
        }
    }
    return NULL;
}

static int do_replay(const char *path)
{
    FILE *f = fopen(path, "r");
    char *line = NULL;
    size_t cap = 0;
    const pt_target_t *tg = NULL;
    tapes_t ts = { .n = 0 };
    shm_t *shm = map(sizeof(shm_t));
    char err[4200];
    int code = 0;
    bool failed;
    static uint64_t buf[TAPE_MAX];

    if (!f) {
        perror(path);
        return 2;
    }
    snprintf(G.wtmp, sizeof(G.wtmp), "%s", G.tmp);
    while (getline(&line, &cap, f) > 0) {
        if (!strncmp(line, "target ", 7)) {
            line[strcspn(line, "\n")] = 0;
            tg = find_target(line + 7);
        } else
        if (!strncmp(line, "tape", 4)) {
            char *p = line + 4;
            uint32_t n = 0;

            for (;;) {
                char *e;
                unsigned long long v = strtoull(p, &e, 10);

                if (e == p) {
                    break;
                }
                if (n < TAPE_MAX) {
                    buf[n++] = v;
                }
                p = e;
            }
            tapes_push(&ts, buf, n);
        }
    }
    if (!tg || !ts.n) {
        fprintf(stderr, "bad replay file %s\n", path);
        return 2;
    }
    snprintf(err, sizeof(err), "%s/replay.err", G.tmp);
    failed = try_tapes(tg, shm, &ts, true, err, &code);
    fputs(read_file(err, 20000), stdout);
    printf("%s %s\n", failed ? "FAILS" : "holds", failed ? code_str(code) : "");
    if (failed && shm->msg[0]) {
        printf("%s\n", shm->msg);
    }
    return failed ? 1 : 0;
}

int main(int argc, char **argv)
{
    int opt, ret = 0;
    FILE *out;
    bool first = true;
    struct rlimit rl = { 0, 0 };

    setrlimit(RLIMIT_CORE, &rl);
    while ((opt = getopt(argc, argv, "o:d:s:T:w:x:L:t:r:")) != -1) {
        switch (opt) {
          case 'o': G.out = optarg; break;
          case 'd': G.tmp = optarg; break;
          case 's': G.seed = strtoull(optarg, NULL, 0); break;
          case 'T': G.thorough = !strcmp(optarg, "thorough"); break;
          case 'w': G.workers = atoi(optarg); break;
          case 'x': G.scale = atoi(optarg); break;
          case 'L': G.wall = atof(optarg); break;
          case 't': G.only = optarg; break;
          case 'r': G.replay = optarg; break;
          default: return 2;
        }
    }
    if (!G.tmp) {
        fprintf(stderr, "-d is required\n");
        return 2;
    }
    signal(SIGPIPE, SIG_IGN);
    snprintf(G.wtmp, sizeof(G.wtmp), "%s", G.tmp);
    virgin_g = calloc(1, ncounters_g + 16);
    stop_g = map(4096);
    pt_setup();
    if (G.replay) {
        return do_replay(G.replay);
    }
    if (!G.out || !(out = fopen(G.out, "w"))) {
        perror("output");
        return 2;
    }
    fprintf(out, "{\"rule\": ");
    json_str(out, pt_rule);
    fprintf(out, ", \"targets\": [");

    double total_wall = G.wall, start = now();
    uint64_t totw = 0;

    for (int i = 0; i < pt_targets_len; i++) {
        totw += 1;
    }
    for (int i = 0; i < pt_targets_len; i++) {
        const pt_target_t *tg = &pt_targets[i];
        uint64_t cases = (uint64_t)(G.thorough ? tg->thorough : tg->quick)
                       * G.scale / 100;
        int nw = tg->max_workers && tg->max_workers < G.workers
               ? tg->max_workers : G.workers;
        shm_t *shm[64];
        pid_t pids[64];
        shm_t *scratch;
        uint64_t tc = 0, tn = 0, td = 0, tdisc = 0, edges = 0, corpus = 0;
        int failed = -1;
        double t0 = now();

        if (G.only && strcmp(G.only, tg->name)) {
            continue;
        }
        /* what is left of the wall clock, shared between the targets left */
        G.t0 = now();
        G.wall = (total_wall - (now() - start)) / (pt_targets_len - i);
        if (G.only) {
            G.wall = total_wall;
        }
        if (G.wall < 2) {
            G.wall = 2;
        }
        if (nw > 64) nw = 64;
        *stop_g = false;
        fflush(NULL);
        for (int w = 0; w < nw; w++) {
            shm[w] = map(sizeof(shm_t));
            pids[w] = fork();
            if (pids[w] == 0) {
                /* the virgin map lives across the children of a worker */
                uint8_t *v = map(ncounters_g + 16);

                virgin_g = v;
                worker_main(tg, shm[w], w, (cases + nw - 1) / nw);
            }
        }
        for (int w = 0; w < nw; w++) {
            int st;

            while (waitpid(pids[w], &st, 0) < 0 && errno == EINTR);
            if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
                fprintf(stderr, "worker died: %x\n", st);
                ret = ret ?: 2;
            }
        }
        scratch = map(sizeof(shm_t));
        for (int w = 0; w < nw; w++) {
            tc += shm[w]->cases;
            tn += shm[w]->nontrivial;
            tdisc += shm[w]->discarded;
            if (shm[w]->edges > edges) {
                edges = shm[w]->edges;
            }
            corpus += shm[w]->corpus_n;
            if (shm[w]->failed && failed < 0) {
                failed = w;
            }
            for (int k = 0; k < SET_SIZE; k++) {
                if (shm[w]->set[k] && set_add(scratch->set, shm[w]->set[k])) {
                    td++;
                }
            }
        }
        fprintf(out, "%s\n{\"name\": \"%s\", \"cases\": %llu, "
                "\"nontrivial\": %llu, \"distinct_nontrivial\": %llu, "
                "\"discarded\": %llu, "
                "\"planned\": %llu, \"edges\": %llu, \"corpus\": %llu, ",
                first ? "" : ",", tg->name,
                (unsigned long long)tc, (unsigned long long)tn,
                (unsigned long long)td, (unsigned long long)tdisc,
                (unsigned long long)cases, (unsigned long long)edges,
                (unsigned long long)corpus);
        first = false;
        /* labels */
        fprintf(out, "\"labels\": {");
        {
            label_t all[LABELS];
            int n = 0;

            memset(all, 0, sizeof(all));
            for (int w = 0; w < nw; w++) {
                for (int k = 0; k < LABELS && shm[w]->labels[k].name[0]; k++) {
                    int j;

                    for (j = 0; j < n; j++) {
                        if (!strcmp(all[j].name, shm[w]->labels[k].name)) {
                            break;
                        }
                    }
                    if (j == n && n < LABELS) {
                        all[n++] = shm[w]->labels[k];
                    } else if (j < n) {
                        all[j].n += shm[w]->labels[k].n;
                    }
                }
            }
            for (int j = 0; j < n; j++) {
                fprintf(out, "%s", j ? ", " : "");
                json_str(out, all[j].name);
                fprintf(out, ": %llu", (unsigned long long)all[j].n);
            }
        }
        fprintf(out, "}, \"samples\": [");
        {
            int ns = 0;

            for (int w = 0; w < nw && ns < 3; w++) {
                for (int k = 0; k < shm[w]->nsamples && ns < 3; k++) {
                    tapes_t ts = { .n = 0 };
                    char err[4200];
                    char *txt;

                    if (ns && k == 0 && nw > 1) {
                        continue;
                    }
                    tapes_push(&ts, shm[w]->sample[k], shm[w]->sample_len[k]);
                    snprintf(err, sizeof(err), "%s/sample.err", G.tmp);
                    snprintf(G.wtmp, sizeof(G.wtmp), "%s", G.tmp);
                    try_tapes(tg, scratch, &ts, true, err, NULL);
                    txt = read_file(err, 1200);
                    if (txt[0]) {
                        fprintf(out, "%s", ns ? ", " : "");
                        json_str(out, txt);
                        ns++;
                    }
                    free(txt);
                }
            }
        }
        fprintf(out, "]");

        if (failed >= 0) {
            shm_t *s = shm[failed];
            tapes_t ts = { .n = 0 };
            char path[4200], err[4200];
            int code = s->fail_status, again = 0;
            char first_msg[MSG_MAX];

            memcpy(first_msg, s->msg, MSG_MAX);
            snprintf(G.wtmp, sizeof(G.wtmp), "%s", G.tmp);
            tapes_push(&ts, s->rec, s->rec_len);
            for (int k = 0; k < 3; k++) {
                again += try_tapes(tg, scratch, &ts, false, NULL, NULL);
            }
            if (tg->nondet_replays) {
                for (int k = 0; k < tg->nondet_replays && !again; k++) {
                    again += try_tapes(tg, scratch, &ts, false, NULL, NULL);
                }
                if (again) {
                    again = 3;
                }
            }
            if (again < 3 && again == 0 && !s->blog_full && s->blog_n) {
                /* it may need the cases that ran before it */
                tapes_t all = { .n = 0 };
                uint64_t *p = s->blog;

                for (uint32_t k = 0; k < s->blog_n; k++) {
                    tapes_push(&all, p + 1, p[0]);
                    p += 1 + p[0];
                }
                tapes_push(&all, s->rec, s->rec_len);
                again = 0;
                for (int k = 0; k < 3; k++) {
                    again += try_tapes(tg, scratch, &all, false, NULL, NULL);
                }
                if (again == 3) {
                    shrink_batch(tg, scratch, &all);
                    ts = all;
                }
            }
            if (again == 3) {
                char *trace;
                tapes_t full = { .n = 0 };

                for (int k = 0; k < ts.n; k++) {
                    tapes_push(&full, ts.tape[k], ts.len[k]);
                }
                shrink_tries_g = 0;
                if (!tg->nondet_replays) {
                    shrink(tg, scratch, &ts);
                }
                snprintf(path, sizeof(path), "%s/%s.tape", G.tmp, tg->name);
                snprintf(err, sizeof(err), "%s/trace.err", G.tmp);
                scratch->msg[0] = 0;
                if (!try_tapes(tg, scratch, &ts, true, err, &code)) {
                    ts = full;
                    try_tapes(tg, scratch, &ts, true, err, &code);
                }
                trace = read_file(err, 16000);
                write_replay(path, tg, &ts, scratch->msg[0] ? scratch->msg
                             : code_str(code), trace);
                fprintf(out, ", \"failure\": {\"how\": ");
                json_str(out, code_str(code));
                fprintf(out, ", \"msg\": ");
                json_str(out, scratch->msg);
                fprintf(out, ", \"first_msg\": ");
                json_str(out, first_msg);
                fprintf(out, ", \"replay\": ");
                json_str(out, path);
                fprintf(out, ", \"tape_len\": %u, \"shrink_tries\": %d, "
                        "\"cases_in_replay\": %d, \"trace\": ",
                        ts.len[ts.n - 1], shrink_tries_g, ts.n);
                json_str(out, trace);
                fprintf(out, "}");
                ret = 1;
            } else {
                fprintf(out, ", \"flaky\": {\"how\": ");
                json_str(out, code_str(code));
                fprintf(out, ", \"msg\": ");
                json_str(out, first_msg);
                fprintf(out, ", \"reproduced\": %d, \"tape\": \"", again);
                for (uint32_t k = 0; k < s->rec_len && k < 300; k++) {
                    fprintf(out, "%llu ", (unsigned long long)s->rec[k]);
                }
                fprintf(out, "\"}");
            }
        }
        fprintf(out, ", \"wall_s\": %.2f}", now() - t0);
        fflush(out);
        for (int w = 0; w < nw; w++) {
            munmap(shm[w], sizeof(shm_t));
        }
        munmap(scratch, sizeof(shm_t));
        if (ret == 1) {
            break;
        }
    }
    fprintf(out, "]}\n");
    fclose(out);
    return ret;
}
