/* Compressed bitmaps (WAH), bit buffers, bit streams, bit scans: against
 * plain arrays of bits and lists of runs. */
#include <lib-common/core.h>
#include <lib-common/arith.h>
#include <lib-common/bit.h>
#include "pt.h"

const char pt_rule[] =
    "bits: histories of WAH operations over several bitmaps (literals, runs, "
    "bulk additions, and/or/not, copies, storage and reload, small and default "
    "buckets) compared after each step with arrays of bits, or lists of runs "
    "for lengths up to 2^42; bit buffers in both bit orders and streams read "
    "back with every accessor; scans and population counts at any offset. "
    "non-trivial: the bitmap mixed runs and literals and went through a "
    "boolean operation or a reload; the buffer held over 64 bits";

/* {{{ WAH against plain bits */

#define NMAP     4
#define MAXBITS  (96 << 10)
typedef struct mb_t { uint64_t len; uint8_t *b; } mb_t;
static mb_t mm[NMAP + 1];

static uint64_t mb_active(const mb_t *m)
{
    uint64_t n = 0;
    for (uint64_t i = 0; i < m->len; i++) {
        n += m->b[i];
    }
    return n;
}

static void wah_same(pt_t *t, const wah_t *w, const mb_t *m, const char *what,
                     int depth)
{
    uint64_t act = mb_active(m);
    PT_CHECK(t, w->len == m->len, "%s: length %ju, expected %ju", what,
             (uintmax_t)w->len, (uintmax_t)m->len);
    PT_CHECK(t, w->active == act, "%s: active %ju, expected %ju", what,
             (uintmax_t)w->active, (uintmax_t)act);
    if (depth < 1) {
        return;
    }
    {   /* ones and zeroes, in order */
        uint64_t pos = 0;
        wah_for_each_1(en, w) {
            while (pos < m->len && !m->b[pos]) {
                pos++;
            }
            PT_CHECK(t, pos < m->len && en.key == pos, "%s: enumeration of 1s: "
                     "got %ju, expected %ju", what, (uintmax_t)en.key,
                     (uintmax_t)pos);
            pos++;
        }
        while (pos < m->len && !m->b[pos]) {
            pos++;
        }
        PT_CHECK(t, pos == m->len, "%s: enumeration of 1s misses %ju", what,
                 (uintmax_t)pos);
        pos = 0;
        wah_for_each_0(en, w) {
            while (pos < m->len && m->b[pos]) {
                pos++;
            }
            PT_CHECK(t, pos < m->len && en.key == pos, "%s: enumeration of 0s: "
                     "got %ju, expected %ju", what, (uintmax_t)en.key,
                     (uintmax_t)pos);
            pos++;
        }
        while (pos < m->len && m->b[pos]) {
            pos++;
        }
        PT_CHECK(t, pos == m->len, "%s: enumeration of 0s misses %ju", what,
                 (uintmax_t)pos);
    }
    {   /* words */
        wah_word_enum_t en = wah_word_enum_start(w, false);
        uint64_t pos = 0;
        while (en.state != WAH_ENUM_END) {
            uint32_t v = 0;
            for (int i = 0; i < 32 && pos + i < m->len; i++) {
                v |= (uint32_t)m->b[pos + i] << i;
            }
            PT_CHECK(t, pos < m->len, "%s: too many words enumerated", what);
            PT_CHECK(t, en.current == v, "%s: word at %ju is %x, expected %x",
                     what, (uintmax_t)pos, en.current, v);
            pos += 32;
            wah_word_enum_next(&en);
        }
        PT_CHECK(t, pos >= m->len, "%s: words missing", what);
    }
    if (depth < 2) {
        return;
    }
    for (uint64_t i = 0; i < m->len + 3;
         i += (m->len > 3000 ? 1 + (i * 7919) % 131 : 1))
    {
        PT_CHECK(t, wah_get(w, i) == (i < m->len && m->b[i]),
                 "%s: bit %ju is wrong", what, (uintmax_t)i);
    }
    {   /* skips of 1s, from several points */
        wah_bit_enum_t en = wah_bit_enum_start(w, false);
        uint64_t pos = 0, k = pt_u(t, 40), seen = 0;
        while (pos < m->len && !m->b[pos]) {
            pos++;
        }
        for (int r = 0; r < 40 && en.word_en.state != WAH_ENUM_END; r++) {
            PT_CHECK(t, en.key == pos, "%s: after a skip: at %ju, expected %ju",
                     what, (uintmax_t)en.key, (uintmax_t)pos);
            wah_bit_enum_skip1s(&en, k);
            for (uint64_t i = 0; i < k && pos < m->len; i++) {
                for (pos++; pos < m->len && !m->b[pos]; pos++) {
                }
                seen++;
            }
            if (r % 3 == 2 && en.word_en.state != WAH_ENUM_END) {
                wah_bit_enum_next(&en);
                for (pos++; pos < m->len && !m->b[pos]; pos++) {
                }
            }
            k = pt_p(t, 1, 4) ? pt_size(t, 4000) : (uint64_t)pt_u(t, 70);
        }
        PT_CHECK(t, (en.word_en.state == WAH_ENUM_END) == (pos >= m->len),
                 "%s: enumeration with skips ends at a wrong point (%ju)",
                 what, (uintmax_t)pos);
    }
    {   /* skip0 over words, as runs */
        wah_word_enum_t en = wah_word_enum_start(w, false);
        uint64_t pos = 0;
        while (en.state != WAH_ENUM_END) {
            uint64_t sk = wah_word_enum_skip0(&en), p0 = pos;
            for (; p0 < m->len; p0 += 32) {
                bool any = false;
                for (int i = 0; i < 32 && p0 + i < m->len; i++) {
                    any |= m->b[p0 + i];
                }
                if (any) {
                    break;
                }
            }
            PT_CHECK(t, sk * 32 == p0 - pos, "%s: skip0 skipped %ju words at "
                     "%ju, expected %ju", what, (uintmax_t)sk, (uintmax_t)pos,
                     (uintmax_t)(p0 - pos) / 32);
            pos = p0;
            if (en.state != WAH_ENUM_END) {
                wah_word_enum_next(&en);
                pos += 32;
            }
        }
    }
}

static void mb_add(mb_t *m, bool v, uint64_t n)
{
    memset(m->b + m->len, v, n);
    m->len += n;
}

static uint64_t runlen(pt_t *t, uint64_t room)
{
    static const uint16_t picks[] = { 1, 31, 32, 33, 63, 64, 65, 96, 128, 1024 };
    uint64_t r;
    switch (pt_u(t, 4)) {
      case 0:  r = pt_u(t, 40); break;
      case 1:  r = pt_pick(t, picks); break;
      case 2:  r = 32 * pt_u(t, 20); break;
      default: r = pt_size(t, 6000); break;
    }
    return r > room ? room : r;
}

static void run_wah(pt_t *t)
{
    wah_t *w[NMAP];
    static const uint32_t bsz[] = { 0, 64, 96, 128, 320, 1024, 4096 };
    uint32_t bb = pt_pick(t, bsz);
    int nop = 1 + pt_size(t, 30), muts = 0, bools = 0;
    bool big = pt_p(t, 1, 6);
    uint64_t maxbits = big ? MAXBITS : 6000;

    if (!mm[0].b) {
        for (int i = 0; i <= NMAP; i++) {
            mm[i].b = malloc(MAXBITS + 8192);
        }
    }
    if (bb) {
        wah_set_bits_in_bucket(bb);
    } else {
        wah_reset_bits_in_bucket();
    }
    pt_label(t, bb ? "small buckets" : "default buckets");
    for (int i = 0; i < NMAP; i++) {
        w[i] = wah_new();
        mm[i].len = 0;
    }
    for (int o = 0; o < nop; o++) {
        t_scope;
        int i = pt_u(t, NMAP - 1), j = (i + 1 + pt_u(t, NMAP - 2)) % NMAP;
        mb_t *a = &mm[i], *b = &mm[j], *tmp = &mm[NMAP];
        uint64_t room = maxbits - a->len, n;
        char what[32];

        switch (pt_u(t, 17)) {
          case 0: case 1:
            n = runlen(t, room);
            pt_note(t, "m%d: add0s %ju", i, (uintmax_t)n);
            wah_add0s(w[i], n);
            mb_add(a, 0, n);
            (snprintf)(what, sizeof(what), "add0s");
            break;
          case 2: case 3:
            n = runlen(t, room);
            pt_note(t, "m%d: add1s %ju", i, (uintmax_t)n);
            wah_add1s(w[i], n);
            mb_add(a, 1, n);
            (snprintf)(what, sizeof(what), "add1s");
            break;
          case 4: case 5: {
            bool back = a->len && pt_p(t, 1, 4);
            if (!room) {
                continue;
            }
            n = back ? (uint64_t)pt_u(t, a->len - 1)
                     : a->len + runlen(t, room - 1);
            pt_note(t, "m%d: add1_at %ju (len %ju)", i, (uintmax_t)n,
                    (uintmax_t)a->len);
            if (back) {
                /* Setting a bit already passed is refused by an expect(),
                 * fatal in a debug build: only through an OR. */
                wah_t *one = t_wah_new(4);
                wah_add1_at(one, n);
                wah_or(w[i], one);
            } else {
                wah_add1_at(w[i], n);
                mb_add(a, 0, n - a->len);
                mb_add(a, 1, 1);
            }
            a->b[n] = 1;
            (snprintf)(what, sizeof(what), "add1_at");
          } break;
          case 6: case 7: case 8: {  /* bulk */
            uint8_t *data, *raw;
            size_t nb, sh = pt_u(t, 3);
            n = runlen(t, room);
            if (big && pt_p(t, 1, 2)) {
                n = room > 40000 ? 33000 + pt_u(t, 5000) : n;
            }
            nb = (n + 7) / 8;
            raw = aligned_alloc(8, ROUND_UP(nb + sh + 8, 8));
            data = raw + sh;
            switch (pt_u(t, 3)) {
              case 0: pt_fill(t, data, nb); break;
              case 1:
                for (size_t k = 0; k < nb; ) {
                    uint8_t v = pt_p(t, 1, 2) ? 0 : pt_p(t, 1, 2) ? 0xff
                              : pt_u(t, 255);
                    size_t l = 1 + pt_size(t, 40);
                    while (l-- && k < nb) {
                        data[k++] = v;
                    }
                    if (nb > 400 && k > 200) {
                        pt_fill(t, data + k, nb - k);
                        break;
                    }
                }
                break;
              default: memset(data, pt_bool(t) ? 0xff : 0, nb);
                if (nb) {
                    data[pt_u(t, nb - 1)] ^= 1 << pt_u(t, 7);
                }
                break;
            }
            pt_note(t, "m%d: add %ju bits at length %ju", i, (uintmax_t)n,
                    (uintmax_t)a->len);
            wah_add(w[i], data, n);
            for (uint64_t k = 0; k < n; k++) {
                a->b[a->len++] = (data[k / 8] >> (k % 8)) & 1;
            }
            free(raw);
            (snprintf)(what, sizeof(what), "add");
          } break;
          case 9: {
            uint64_t l0 = a->len;
            pt_note(t, "m%d: pad32", i);
            if (room < 32) {
                continue;
            }
            wah_pad32(w[i]);
            PT_CHECK(t, w[i]->len >= l0 && w[i]->len <= l0 + 32
                     && w[i]->len % 32 == 0, "pad32: bad length %ju from %ju",
                     (uintmax_t)w[i]->len, (uintmax_t)l0);
            mb_add(a, 0, w[i]->len - l0);
            (snprintf)(what, sizeof(what), "pad32");
          } break;
          case 10:
            pt_note(t, "m%d: not", i);
            wah_not(w[i]);
            for (uint64_t k = 0; k < a->len; k++) {
                a->b[k] ^= 1;
            }
            bools++;
            (snprintf)(what, sizeof(what), "not");
            break;
          case 11: case 12: {
            int op = pt_u(t, 4);
            uint64_t l = a->len > b->len ? a->len : b->len;
            static const char *names[] = { "and", "and_not", "not_and", "or",
                                           "not_and_not" };
            pt_note(t, "m%d: %s m%d (%ju, %ju)", i, names[op], j,
                    (uintmax_t)a->len, (uintmax_t)b->len);
            switch (op) {
              case 0: wah_and(w[i], w[j]); break;
              case 1: wah_and_not(w[i], w[j]); break;
              case 2: wah_not_and(w[i], w[j]); break;
              case 3: wah_or(w[i], w[j]); break;
              default:
                /* out of the public operations when the lengths differ */
                if (a->len != b->len || a->len % 32) {
                    continue;
                }
                wah_and_(w[i], w[j], true, true);
                break;
            }
            for (uint64_t k = 0; k < l; k++) {
                bool x = k < a->len && a->b[k], y = k < b->len && b->b[k];
                a->b[k] = op == 0 ? x & y : op == 1 ? x & !y
                        : op == 2 ? !x & y : op == 3 ? x | y : !x & !y;
            }
            a->len = l;
            bools++;
            (snprintf)(what, sizeof(what), "%s", names[op]);
          } break;
          case 13: {  /* multi or */
            int cnt = pt_u(t, NMAP), dst = pt_bool(t);
            const wah_t *src[NMAP + 1];
            wah_t *d = NULL, *res;
            uint64_t l = 0;
            bool used[NMAP] = { false };

            memset(tmp->b, 0, maxbits + 1);
            for (int k = 0; k < cnt; k++) {
                int s = pt_u(t, NMAP - 1);
                src[k] = w[s];
                used[s] = true;
                for (uint64_t p = 0; p < mm[s].len; p++) {
                    tmp->b[p] |= mm[s].b[p];
                }
                l = mm[s].len > l ? mm[s].len : l;
            }
            tmp->len = l;
            pt_note(t, "multi_or of %d maps, len %ju%s", cnt, (uintmax_t)l,
                    dst ? ", given destination" : "");
            if (dst) {
                d = wah_new();
                wah_add1s(d, 77);
            }
            res = wah_multi_or(src, cnt, d);
            PT_CHECK(t, !d || res == d, "multi_or does not use its destination");
            wah_same(t, res, tmp, "multi_or", 2);
            if (pt_bool(t)) {
                wah_copy(w[i], res);
                memcpy(a->b, tmp->b, l);
                a->len = l;
            }
            wah_pool_release(&res);
            bools++;
            (snprintf)(what, sizeof(what), "multi_or");
          } break;
          case 14: {  /* copies */
            pt_note(t, "m%d := m%d", i, j);
            if (pt_bool(t)) {
                wah_copy(w[i], w[j]);
            } else {
                wah_t *d = pt_bool(t) ? wah_dup(w[j]) : NULL;
                if (d) {
                    wah_delete(&w[i]);
                    w[i] = d;
                } else {
                    d = t_wah_dup(w[j]);
                    wah_add1s(d, 3);
                    wah_same(t, w[j], b, "source of a copy", 0);
                    PT_CHECK(t, d->len == b->len + 3, "t_wah_dup: bad length");
                    wah_copy(w[i], w[j]);
                }
            }
            memcpy(a->b, b->b, b->len);
            a->len = b->len;
            (snprintf)(what, sizeof(what), "copy");
          } break;
          case 15: {  /* storage, reload with other bucket sizes */
            wah_t *r;
            lstr_t st;
            uint32_t nb = pt_bool(t) ? bb : pt_pick(t, bsz);
            uint64_t *al;

            if (a->len % 32) {
                if (room < 32) {
                    continue;
                }
                wah_add0s(w[i], 32 - a->len % 32);
                mb_add(a, 0, 32 - a->len % 32);
            }
            pt_note(t, "m%d: stored, reloaded with buckets of %u", i, nb);
            st = t_wah_get_storage_lstr(w[i]);
            PT_CHECK(t, (size_t)st.len == wah_get_storage_len(w[i]) * 4,
                     "storage length %d, announced %zu words", st.len,
                     (size_t)wah_get_storage_len(w[i]));
            {
                size_t l = 0;
                tab_for_each_ptr(bk, wah_get_storage(w[i])) {
                    PT_CHECK(t, (int)(l + bk->len * 4) <= st.len
                             && !memcmp(st.s + l, bk->tab, bk->len * 4),
                             "wah_get_storage differs from its lstr");
                    l += bk->len * 4;
                }
            }
            al = aligned_alloc(8, ROUND_UP(st.len, 8));
            memcpy(al, st.s, st.len);
            if (nb) {
                wah_set_bits_in_bucket(nb);
            } else {
                wah_reset_bits_in_bucket();
            }
            r = wah_new_from_data(ps_init(al, st.len));
            PT_CHECK(t, r, "the storage of a bitmap is refused");
            wah_same(t, r, a, "reload", 2);
            if (nb == bb && pt_bool(t)) {
                wah_copy(w[i], r);
            }
            wah_delete(&r);
            /* cut short */
            if (st.len >= 4 && pt_bool(t)) {
                size_t cut = 4 * pt_u(t, st.len / 4 - 1);
                r = wah_new_from_data(ps_init(al, cut));
                if (r) {
                    PT_CHECK(t, r->len <= a->len, "prefix of a storage longer "
                             "than the whole");
                    tmp->len = r->len;
                    memcpy(tmp->b, a->b, r->len);
                    wah_same(t, r, tmp, "prefix of a storage", 1);
                    wah_delete(&r);
                }
            }
            free(al);
            if (bb) {
                wah_set_bits_in_bucket(bb);
            } else {
                wah_reset_bits_in_bucket();
            }
            bools++;
            (snprintf)(what, sizeof(what), "storage");
          } break;
          case 16:
            if (pt_bool(t)) {
                continue;
            }
            pt_note(t, "m%d: reset", i);
            wah_reset_map(w[i]);
            a->len = 0;
            (snprintf)(what, sizeof(what), "reset");
            break;
          default: {  /* metamorphic: De Morgan, through duplicates */
            wah_t *x = wah_dup(w[i]), *y = wah_dup(w[i]);
            uint64_t l = a->len > b->len ? a->len : b->len;
            wah_and(x, w[j]);
            wah_and_not(y, w[j]);
            wah_or(x, y);
            wah_delete(&y);
            memset(tmp->b, 0, l);
            memcpy(tmp->b, a->b, a->len);
            tmp->len = l;
            wah_same(t, x, tmp, "(a & b) | (a & ~b)", 1);
            wah_delete(&x);
            bools++;
            (snprintf)(what, sizeof(what), "de morgan");
          } break;
        }
        muts++;
        wah_same(t, w[i], a, what, big ? 0 : 1);
    }
    for (int i = 0; i < NMAP; i++) {
        wah_same(t, w[i], &mm[i], "at the end", 2);
        wah_delete(&w[i]);
    }
    wah_reset_bits_in_bucket();
    if (muts >= 4 && bools) {
        pt_nontrivial(t);
    }
}

/* }}} */
/* {{{ WAH against lists of runs, for huge lengths */

typedef struct mr_t { int n; bool v[4096]; uint64_t l[4096]; } mr_t;
static mr_t rr[3], rtmp;

static void mr_add(mr_t *m, bool v, uint64_t l)
{
    if (!l) {
        return;
    }
    if (m->n && m->v[m->n - 1] == v) {
        m->l[m->n - 1] += l;
    } else {
        assert (m->n < 4096);
        m->v[m->n] = v;
        m->l[m->n++] = l;
    }
}
static uint64_t mr_len(const mr_t *m, bool active)
{
    uint64_t l = 0;
    for (int i = 0; i < m->n; i++) {
        l += active && !m->v[i] ? 0 : m->l[i];
    }
    return l;
}
static void mr_op(mr_t *out, const mr_t *a, const mr_t *b, int op)
{
    int i = 0, j = 0;
    uint64_t ra = a->n ? a->l[0] : 0, rb = b->n ? b->l[0] : 0;

    out->n = 0;
    while (i < a->n || j < b->n) {
        bool x = i < a->n && a->v[i], y = j < b->n && b->v[j];
        uint64_t s = i >= a->n ? rb : j >= b->n ? ra : ra < rb ? ra : rb;
        mr_add(out, op == 0 ? x & y : op == 1 ? x & !y : op == 2 ? !x & y
               : x | y, s);
        if (i < a->n && !(ra -= s)) {
            ra = ++i < a->n ? a->l[i] : 0;
        }
        if (j < b->n && !(rb -= s)) {
            rb = ++j < b->n ? b->l[j] : 0;
        }
    }
}
static void mr_same(pt_t *t, const wah_t *w, const mr_t *m, const char *what)
{
    uint64_t pos = 0, len = mr_len(m, false), act = mr_len(m, true);

    PT_CHECK(t, w->len == len, "%s: length %ju, expected %ju", what,
             (uintmax_t)w->len, (uintmax_t)len);
    PT_CHECK(t, w->active == act, "%s: active %ju, expected %ju", what,
             (uintmax_t)w->active, (uintmax_t)act);
    for (int i = 0; i < m->n; i++) {
        PT_CHECK(t, wah_get(w, pos) == m->v[i], "%s: first bit of run %d (at "
                 "%ju) is wrong", what, i, (uintmax_t)pos);
        PT_CHECK(t, wah_get(w, pos + m->l[i] - 1) == m->v[i], "%s: last bit of "
                 "run %d (at %ju) is wrong", what, i,
                 (uintmax_t)(pos + m->l[i] - 1));
        PT_CHECK(t, wah_get(w, pos + m->l[i] / 2) == m->v[i], "%s: middle bit "
                 "of run %d is wrong", what, i);
        pos += m->l[i];
    }
    /* jump from run of 1s to run of 1s */
    for (int rev = 0; rev < 2; rev++) {
        wah_bit_enum_t en = wah_bit_enum_start(w, rev);
        pos = 0;
        for (int i = 0; i < m->n; i++) {
            if (m->v[i] != rev) {
                PT_CHECK(t, en.word_en.state != WAH_ENUM_END && en.key == pos,
                         "%s: enumeration of %ds: at %ju, expected %ju", what,
                         !rev, (uintmax_t)en.key, (uintmax_t)pos);
                if (m->l[i] < 100) {
                    for (uint64_t k = 0; k < m->l[i]; k++) {
                        PT_CHECK(t, en.key == pos + k, "%s: enumeration of %ds:"
                                 " at %ju, expected %ju", what, !rev,
                                 (uintmax_t)en.key, (uintmax_t)(pos + k));
                        wah_bit_enum_next(&en);
                    }
                } else {
                    wah_bit_enum_skip1s(&en, m->l[i] / 3);
                    PT_CHECK(t, en.key == pos + m->l[i] / 3, "%s: skip in a "
                             "run: at %ju, expected %ju", what,
                             (uintmax_t)en.key,
                             (uintmax_t)(pos + m->l[i] / 3));
                    wah_bit_enum_skip1s(&en, m->l[i] - m->l[i] / 3);
                }
            }
            pos += m->l[i];
        }
        PT_CHECK(t, en.word_en.state == WAH_ENUM_END, "%s: enumeration of %ds "
                 "goes on after the end, at %ju", what, !rev,
                 (uintmax_t)en.key);
    }
}

static void run_wahbig(pt_t *t)
{
    wah_t *w[3];
    int nop = 2 + pt_size(t, 14), bools = 0, huge = 0;
    static const int shifts[] = { 6, 12, 31, 32, 33, 36, 37, 38, 40 };
    uint64_t bb = 0;

    switch (pt_u(t, 3)) {
      case 1: bb = 1ull << 33; break;
      case 2: bb = 1ull << 37; break;
      default: break;
    }
    if (bb) {
        wah_set_bits_in_bucket(bb);
    } else {
        wah_reset_bits_in_bucket();
    }
    for (int i = 0; i < 3; i++) {
        w[i] = wah_new();
        rr[i].n = 0;
    }
    for (int o = 0; o < nop; o++) {
        t_scope;
        int i = pt_u(t, 2), j = (i + 1 + pt_u(t, 1)) % 3;
        char what[32];

        switch (pt_u(t, 9)) {
          case 0: case 1: case 2: case 3: case 4: {
            bool v = pt_bool(t);
            uint64_t n;
            int sh = pt_pick(t, shifts);
            if (pt_p(t, 1, 4)) {
                n = 1 + pt_u(t, 100);
            } else {
                n = (1ull << sh) * (1 + pt_u(t, 2)) + pt_range(t, -33, 33);
                huge += sh > 31;
            }
            pt_note(t, "m%d: %ju x %d", i, (uintmax_t)n, v);
            if (v) {
                wah_add1s(w[i], n);
            } else {
                wah_add0s(w[i], n);
            }
            mr_add(&rr[i], v, n);
            (snprintf)(what, sizeof(what), "add%ds", v);
          } break;
          case 5:
            pt_note(t, "m%d: not", i);
            wah_not(w[i]);
            for (int k = 0; k < rr[i].n; k++) {
                rr[i].v[k] ^= 1;
            }
            bools++;
            (snprintf)(what, sizeof(what), "not");
            break;
          case 6: {
            const wah_t *src[3] = { w[0], w[1], w[2] };
            wah_t *res = wah_multi_or(src, 3, NULL);
            static mr_t o1, o2;
            pt_note(t, "multi_or");
            mr_op(&o1, &rr[0], &rr[1], 3);
            mr_op(&o2, &o1, &rr[2], 3);
            mr_same(t, res, &o2, "multi_or");
            wah_pool_release(&res);
            bools++;
            continue;
          }
          case 7: {
            wah_t *r;
            lstr_t st;
            uint64_t len = mr_len(&rr[i], false);
            if (len % 32) {
                wah_add0s(w[i], 32 - len % 32);
                mr_add(&rr[i], 0, 32 - len % 32);
            }
            pt_note(t, "m%d: stored and reloaded", i);
            st = t_wah_get_storage_lstr(w[i]);
            r = wah_new_from_data(ps_initlstr(&st));
            PT_CHECK(t, r, "the storage of a bitmap is refused");
            mr_same(t, r, &rr[i], "reload");
            wah_delete(&r);
            continue;
          }
          default: {
            int op = pt_u(t, 3);
            pt_note(t, "m%d: op %d (and, and_not, not_and, or) m%d", i, op, j);
            switch (op) {
              case 0: wah_and(w[i], w[j]); break;
              case 1: wah_and_not(w[i], w[j]); break;
              case 2: wah_not_and(w[i], w[j]); break;
              default: wah_or(w[i], w[j]); break;
            }
            mr_op(&rtmp, &rr[i], &rr[j], op);
            rr[i] = rtmp;
            bools++;
            (snprintf)(what, sizeof(what), "operation %d", op);
          } break;
        }
        mr_same(t, w[i], &rr[i], what);
    }
    for (int i = 0; i < 3; i++) {
        wah_delete(&w[i]);
    }
    wah_reset_bits_in_bucket();
    if (bools && huge) {
        pt_nontrivial(t);
    }
}

/* }}} */
/* {{{ bit buffers and streams */

#define BBMAX 20000
static uint8_t bm[BBMAX + 9000];
static size_t bl;

static bool raw_bit(const uint8_t *d, size_t i, bool be)
{
    return be ? (d[i / 8] >> (7 - i % 8)) & 1 : (d[i / 8] >> (i % 8)) & 1;
}

static void bb_same(pt_t *t, const bb_t *bb, bool be, const char *what)
{
    PT_CHECK(t, bb->len == bl, "%s: length %zu, expected %zu", what,
             (size_t)bb->len, bl);
    for (size_t i = 0; i < bl; i++) {
        PT_CHECK(t, raw_bit(bb->bytes, i, be) == bm[i], "%s: bit %zu is wrong",
                 what, i);
    }
    /* what follows must be clear: additions rely on it */
    for (size_t i = bl; i % 8; i++) {
        PT_CHECK(t, !raw_bit(bb->bytes, i, be), "%s: padding bit %zu is set",
                 what, i);
    }
}

static uint64_t m_get(size_t off, size_t n, bool be)
{
    uint64_t v = 0;
    for (size_t i = 0; i < n; i++) {
        if (be) {
            v = (v << 1) | bm[off + i];
        } else {
            v |= (uint64_t)bm[off + i] << i;
        }
    }
    return v;
}

static void read_stream(pt_t *t, bit_stream_t bs, size_t s, size_t e, bool be)
{
    int nop = 1 + pt_size(t, 25);

    for (int o = 0; o < nop; o++) {
        size_t rem = e - s, n = 0;
        uint64_t v;
        int r;

        PT_CHECK(t, bs_len(&bs) == rem, "bs_len is %zu, expected %zu",
                 bs_len(&bs), rem);
        PT_CHECK(t, bs_done(&bs) == !rem, "bs_done is wrong, %zu bits left",
                 rem);
        PT_CHECK(t, bs_is_aligned(&bs) == (s % 8 == 0), "bs_is_aligned");
        PT_CHECK(t, bs_has(&bs, rem) && !bs_has(&bs, rem + 1), "bs_has");
        PT_CHECK(t, bs_has_bytes(&bs, rem / 8)
                 && !bs_has_bytes(&bs, rem / 8 + 1), "bs_has_bytes");
        switch (pt_u(t, 14)) {
          case 0: case 1:
            n = pt_u(t, 64);
            r = be ? bs_be_get_bits(&bs, n, &v) : bs_get_bits(&bs, n, &v);
            pt_note(t, "get_bits %zu at %zu", n, s);
            PT_CHECK(t, r == (n <= rem ? (int)n : -1), "get_bits(%zu) of %zu "
                     "left: %d", n, rem, r);
            if (n <= rem) {
                PT_CHECK(t, v == m_get(s, n, be), "get_bits(%zu) at %zu: %jx, "
                         "expected %jx", n, s, (uintmax_t)v,
                         (uintmax_t)m_get(s, n, be));
                s += n;
            }
            break;
          case 2:
            n = pt_u(t, 64);
            r = be ? bs_be_get_last_bits(&bs, n, &v)
                   : bs_get_last_bits(&bs, n, &v);
            pt_note(t, "get_last_bits %zu before %zu", n, e);
            PT_CHECK(t, r == (n <= rem ? (int)n : -1), "get_last_bits(%zu) of "
                     "%zu left: %d", n, rem, r);
            if (n <= rem) {
                e -= n;
                PT_CHECK(t, v == m_get(e, n, be), "get_last_bits(%zu): %jx, "
                         "expected %jx", n, (uintmax_t)v,
                         (uintmax_t)m_get(e, n, be));
            }
            break;
          case 3:
            r = be ? bs_be_peek_bit(&bs) : bs_peek_bit(&bs);
            PT_CHECK(t, r == (rem ? bm[s] : -1), "peek_bit at %zu: %d", s, r);
            r = be ? bs_be_get_bit(&bs) : bs_get_bit(&bs);
            PT_CHECK(t, r == (rem ? bm[s] : -1), "get_bit at %zu: %d", s, r);
            s += rem > 0;
            break;
          case 4:
            r = be ? bs_be_peek_last_bit(&bs) : bs_peek_last_bit(&bs);
            PT_CHECK(t, r == (rem ? bm[e - 1] : -1), "peek_last_bit: %d", r);
            r = be ? bs_be_get_last_bit(&bs) : bs_get_last_bit(&bs);
            PT_CHECK(t, r == (rem ? bm[e - 1] : -1), "get_last_bit: %d", r);
            e -= rem > 0;
            break;
          case 5:
            n = pt_size(t, rem + 3);
            r = bs_skip(&bs, n);
            PT_CHECK(t, r == (n <= rem ? (int)n : -1), "skip(%zu): %d", n, r);
            s += n <= rem ? n : 0;
            break;
          case 6:
            n = pt_size(t, rem + 3);
            r = bs_shrink(&bs, n);
            PT_CHECK(t, r == (n <= rem ? (int)n : -1), "shrink(%zu): %d", n, r);
            e -= n <= rem ? n : 0;
            break;
          case 7:
            n = pt_size(t, rem + 3);
            if (pt_p(t, 3, 4)) {
                break;
            }
            r = bs_clip(&bs, n);
            PT_CHECK(t, (r >= 0) == (n <= rem), "clip(%zu): %d", n, r);
            e = n <= rem ? s + n : e;
            break;
          case 8:
            r = bs_align(&bs);
            n = (8 - s % 8) % 8;
            PT_CHECK(t, r == (n <= rem ? (int)n : -1), "align at %zu: %d", s, r);
            s += n <= rem ? n : 0;
            break;
          case 9: {
            pstream_t ps;
            n = pt_size(t, rem / 8 + 1);
            r = bs_get_bytes(&bs, n, &ps);
            PT_CHECK(t, (r >= 0) == (s % 8 == 0 && n * 8 <= rem),
                     "get_bytes(%zu) at %zu: %d", n, s, r);
            if (r >= 0) {
                PT_CHECK(t, ps_len(&ps) == n, "get_bytes: length");
                for (size_t i = 0; i < n * 8; i++) {
                    PT_CHECK(t, raw_bit(ps.b, i, be) == bm[s + i],
                             "get_bytes: bit %zu", i);
                }
                s += n * 8;
            }
          } break;
          case 10: {
            bit_stream_t sub;
            n = pt_size(t, rem + 2);
            r = bs_get_bs(&bs, n, &sub);
            PT_CHECK(t, (r >= 0) == (n <= rem), "get_bs(%zu): %d", n, r);
            if (r >= 0) {
                size_t k = s;
                PT_CHECK(t, bs_len(&sub) == n, "get_bs: length");
                while (!bs_done(&sub)) {
                    int b = be ? __bs_be_get_bit(&sub) : __bs_get_bit(&sub);
                    PT_CHECK(t, b == bm[k], "get_bs: bit %zu", k - s);
                    k++;
                }
                s += n;
            }
          } break;
          case 11: {  /* scans (little endian only) */
            bool b = pt_bool(t), rev = pt_bool(t), after = pt_bool(t);
            ssize_t max = pt_bool(t) ? -1 : (ssize_t)pt_size(t, rem + 2) + 1;
            size_t lim = max < 0 || (size_t)max > rem ? rem : (size_t)max;
            size_t k;
            ssize_t res;
            if (be) {
                break;
            }
            pt_note(t, "scan %s for %d within %zd of [%zu,%zu)",
                    rev ? "back" : "forth", b, max, s, e);
            if (!rev) {
                for (k = 0; k < lim && bm[s + k] != b; k++) {
                }
                res = after ? bs_skip_after_bit(&bs, b, max)
                            : bs_skip_upto_bit(&bs, b, max);
                PT_CHECK(t, res == (k < lim ? (ssize_t)(k + after) : -1),
                         "scan forward: %zd, expected %zd", res,
                         k < lim ? (ssize_t)(k + after) : -1);
                s += k < lim ? k + after : 0;
            } else {
                for (k = 0; k < lim && bm[e - 1 - k] != b; k++) {
                }
                res = after ? bs_shrink_before_bit(&bs, b, max)
                            : bs_shrink_downto_bit(&bs, b, max);
                PT_CHECK(t, res == (k < lim ? (ssize_t)(k + after) : -1),
                         "scan reverse: %zd, expected %zd", res,
                         k < lim ? (ssize_t)(k + after) : -1);
                e -= k < lim ? k + after : 0;
            }
          } break;
          case 12: {
            bit_stream_t sub;
            bool b = pt_bool(t), sk = pt_bool(t);
            size_t k;
            if (be) {
                break;
            }
            for (k = 0; k < rem && bm[s + k] != b; k++) {
            }
            r = sk ? bs_get_bs_bit_and_skip(&bs, b, &sub)
                   : bs_get_bs_bit(&bs, b, &sub);
            PT_CHECK(t, (r >= 0) == (k < rem), "get_bs_bit: %d", r);
            if (r >= 0) {
                PT_CHECK(t, bs_len(&sub) == k, "get_bs_bit: length %zu, "
                         "expected %zu", bs_len(&sub), k);
                s += k + sk;
            }
          } break;
          case 13: {
            t_scope;
            size_t len;
            char *str;
            size_t k = 0;
            if (rem > 300) {
                break;
            }
            str = be ? t_print_be_bs(bs, &len) : t_print_bs(bs, &len);
            for (size_t i = 0; i < len; i++) {
                if (str[i] != '.') {
                    PT_CHECK(t, k < rem && str[i] == '0' + bm[s + k],
                             "print: bit %zu", k);
                    k++;
                }
            }
            PT_CHECK(t, k == rem, "print: %zu bits of %zu", k, rem);
          } break;
          default: {
            BB_1k(b2);
            bit_stream_t s2 = bs;
            size_t pad = pt_u(t, 70);
            if (rem > 6000) {
                break;
            }
            for (size_t i = 0; i < pad; i++) {
                if (be) {
                    bb_be_add_bit(&b2, true);
                } else {
                    bb_add_bit(&b2, true);
                }
            }
            if (be) {
                bb_be_add_bs(&b2, &bs);
            } else {
                bb_add_bs(&b2, &bs);
            }
            PT_CHECK(t, b2.len == pad + rem, "add_bs: length");
            for (size_t i = 0; i < rem; i++) {
                PT_CHECK(t, raw_bit(b2.bytes, pad + i, be) == bm[s + i],
                         "add_bs: bit %zu of %zu, at offset %zu", i, rem, pad);
            }
            if (!be) {
                bit_stream_t b2s = bs_init_bb(&b2);
                __bs_skip(&b2s, pad);
                PT_CHECK(t, bs_equals(b2s, s2), "bs_equals of equal streams");
                if (rem) {
                    size_t k = pt_u(t, rem - 1);
                    b2.bytes[(pad + k) / 8] ^= 1 << ((pad + k) % 8);
                    PT_CHECK(t, !bs_equals(b2s, s2),
                             "bs_equals of different streams");
                }
            }
            bb_wipe(&b2);
          } break;
        }
    }
}

static void run_bb(pt_t *t)
{
    t_scope;
    bb_t bb;
    bool be = pt_bool(t);
    int nop = 1 + pt_size(t, 30);
    bool multi = false;

    bl = 0;
    switch (pt_u(t, 2)) {
      case 0: bb_init(&bb); break;
      case 1: bb_inita(&bb, 64); break;
      default: {
        /* from the content of a string buffer */
        sb_t sb;
        size_t n = pt_size(t, 100);
        sb_init(&sb);
        if (pt_bool(t)) {
            t_sb_init(&sb, 10);
        }
        pt_fill(t, sb_growlen(&sb, n), n);
        for (size_t i = 0; i < n * 8; i++) {
            bm[bl++] = raw_bit((uint8_t *)sb.data, i, be);
        }
        bb_init_sb(&bb, &sb);
        sb_wipe(&sb);
      } break;
    }
    for (int o = 0; o < nop && bl < BBMAX; o++) {
        size_t n;
        uint64_t v;
        const char *what = "";

        switch (pt_u(t, 9)) {
          case 0:
            v = pt_bool(t);
            if (be) {
                bb_be_add_bit(&bb, v);
            } else {
                bb_add_bit(&bb, v);
            }
            bm[bl++] = v;
            what = "add_bit";
            break;
          case 1: case 2: case 3:
            n = pt_u(t, 64);
            v = pt_bits(t, 64);
            pt_note(t, "add_bits %jx on %zu at %zu", (uintmax_t)v, n, bl);
            if (be) {
                bb_be_add_bits(&bb, v, n);
                for (size_t i = 0; i < n; i++) {
                    bm[bl++] = (v >> (n - 1 - i)) & 1;
                }
            } else {
                bb_add_bits(&bb, v, n);
                for (size_t i = 0; i < n; i++) {
                    bm[bl++] = (v >> i) & 1;
                }
            }
            what = "add_bits";
            break;
          case 4: case 5: {
            size_t off = pt_u(t, 8);
            uint8_t *raw;
            n = pt_size(t, 1000);
            raw = aligned_alloc(16, ROUND_UP(n + off + 8, 16));
            pt_fill(t, raw + off, n);
            pt_note(t, "add_bytes %zu at %zu (source offset %zu)", n, bl, off);
            if (be) {
                bb_be_add_bytes(&bb, raw + off, n);
            } else {
                bb_add_bytes(&bb, raw + off, n);
            }
            for (size_t i = 0; i < n * 8; i++) {
                bm[bl++] = raw_bit(raw + off, i, be);
            }
            free(raw);
            what = "add_bytes";
          } break;
          case 6:
            if (be) {
                break;
            }
            n = pt_size(t, 700);
            v = pt_bool(t);
            pt_note(t, "add%ds %zu at %zu", (int)v, n, bl);
            if (v) {
                bb_add1s(&bb, n);
            } else {
                bb_add0s(&bb, n);
            }
            memset(bm + bl, v, n);
            bl += n;
            what = v ? "add1s" : "add0s";
            break;
          case 7:
            n = (8 - bl % 8) % 8;
            if (bb.data) {
                bb_align(&bb);
                memset(bm + bl, 0, n);
                bl += n;
            }
            what = "align";
            break;
          case 8:
            if (pt_p(t, 2, 3) || !bb.data) {
                break;
            }
            n = pt_size(t, bl + 5);
            if (be && n % 8) {
                n = n / 8 * 8;
            }
            pt_note(t, "shift_left %zu of %zu", n, bl);
            bb_shift_left(&bb, n);
            if (n >= bl) {
                bl = 0;
            } else {
                memmove(bm, bm + n, bl - n);
                bl -= n;
            }
            what = "shift_left";
            break;
          default:
            if (pt_p(t, 4, 5)) {
                break;
            }
            pt_note(t, "reset");
            bb_reset(&bb);
            bl = 0;
            what = "reset";
            break;
        }
        bb_same(t, &bb, be, what);
        multi |= bl > 64;
    }
    if (multi) {
        pt_nontrivial(t);
    }
    if (bb.data) {
        size_t s = pt_size(t, bl), e = bl - pt_size(t, bl - s);
        pt_note(t, "stream [%zu,%zu) of %zu, %s", s, e, bl, be ? "be" : "le");
        read_stream(t, bs_init(bb.data, s, e - s), s, e, be);
    }
    if (pt_bool(t) && bb.mp != &mem_pool_static) {
        sb_t sb;
        sb_init(&sb);
        sb_adds(&sb, "previous content");
        bb_transfer_to_sb(&bb, &sb);
        PT_CHECK(t, (size_t)sb.len == (bl + 7) / 8, "transfer_to_sb: length");
        for (size_t i = 0; i < bl; i++) {
            PT_CHECK(t, raw_bit((uint8_t *)sb.data, i, be) == bm[i],
                     "transfer_to_sb: bit %zu", i);
        }
        PT_CHECK(t, bb.len == 0, "transfer_to_sb: buffer not emptied");
        sb_wipe(&sb);
    }
    bb_wipe(&bb);
}

/* }}} */
/* {{{ scans and counts */

static void run_scan(pt_t *t)
{
    size_t n = 1 + pt_size(t, 300), off = pt_u(t, 8);
    uint8_t *raw = aligned_alloc(32, ROUND_UP(n + off + 16, 32));
    uint8_t *d = raw + off;
    size_t cnt = 0;

    switch (pt_u(t, 3)) {
      case 0: pt_fill(t, raw, n + off + 16); break;
      case 1: memset(raw, 0, n + off + 16); break;
      default: memset(raw, 0xff, n + off + 16); break;
    }
    for (int k = pt_u(t, 3); k-- > 0; ) {
        d[pt_u(t, n - 1)] = 1 << pt_u(t, 7);
    }
    for (size_t i = 0; i < n * 8; i++) {
        cnt += raw_bit(d, i, false);
    }
    pt_note(t, "%zu bytes at offset %zu, %zu bits set", n, off, cnt);
    PT_CHECK(t, membitcount(d, n) == cnt, "membitcount: %zu, expected %zu",
             membitcount(d, n), cnt);
    PT_CHECK(t, membitcount_c(d, n) == cnt, "membitcount_c: %zu, expected %zu",
             membitcount_c(d, n), cnt);
#ifdef __HAS_CPUID
    if (__builtin_cpu_supports("ssse3")) {
        PT_CHECK(t, membitcount_ssse3(d, n) == cnt, "membitcount_ssse3: %zu, "
                 "expected %zu", membitcount_ssse3(d, n), cnt);
    }
    if (__builtin_cpu_supports("popcnt")) {
        PT_CHECK(t, membitcount_popcnt(d, n) == cnt, "membitcount_popcnt: %zu, "
                 "expected %zu", membitcount_popcnt(d, n), cnt);
    }
#endif
    for (int k = 0; k < 12; k++) {
        size_t st = pt_size(t, n * 8), len = pt_size(t, n * 8 - st), i;
        bool rev = pt_bool(t);
        ssize_t f, r;

        for (i = 0; i < len && raw_bit(d, st + i, false) == rev; i++) {
        }
        f = i < len ? (ssize_t)i : -1;
        for (i = len; i > 0 && raw_bit(d, st + i - 1, false) == rev; i--) {
        }
        r = (ssize_t)i - 1;
        PT_CHECK(t, bsf(d, st, len, rev) == f, "bsf(%zu, %zu, %d): %zd, "
                 "expected %zd", st, len, rev, bsf(d, st, len, rev), f);
        PT_CHECK(t, bsr(d, st, len, rev) == r, "bsr(%zu, %zu, %d): %zd, "
                 "expected %zd", st, len, rev, bsr(d, st, len, rev), r);
    }
    for (int k = 0; k < 8; k++) {
        uint64_t v = pt_bits(t, 64), rv = 0, c = 0;
        int hi = -1, lo = -1, b;
        for (int i = 0; i < 64; i++) {
            if (v >> i & 1) {
                hi = i;
                lo = lo < 0 ? i : lo;
                c++;
                rv |= 1ull << (63 - i);
            }
        }
        PT_CHECK(t, bitcount64(v) == c, "bitcount64(%jx)", (uintmax_t)v);
        PT_CHECK(t, bitcount32(v) + bitcount32(v >> 32) == (int)c,
                 "bitcount32(%jx)", (uintmax_t)v);
        PT_CHECK(t, bitcount16(v) + bitcount16(v >> 16) + bitcount16(v >> 32)
                 + bitcount16(v >> 48) == (int)c, "bitcount16(%jx)",
                 (uintmax_t)v);
        PT_CHECK(t, bit_reverse64(v) == rv, "bit_reverse64(%jx)", (uintmax_t)v);
        PT_CHECK(t, bit_reverse32(v) == (uint32_t)(rv >> 32),
                 "bit_reverse32(%jx)", (uintmax_t)v);
        PT_CHECK(t, bit_reverse16(v) == (uint16_t)(rv >> 48),
                 "bit_reverse16(%jx)", (uintmax_t)v);
        PT_CHECK(t, bit_reverse8(v) == (uint8_t)(rv >> 56),
                 "bit_reverse8(%jx)", (uintmax_t)v);
        if (v) {
            PT_CHECK(t, (int)bsr64(v) == hi && (int)bsf64(v) == lo,
                     "bsr64/bsf64(%jx)", (uintmax_t)v);
            if (hi < 8) {
                PT_CHECK(t, (int)bsr8(v) == hi && (int)bsf8(v) == lo,
                         "bsr8/bsf8(%jx)", (uintmax_t)v);
            }
            if (hi < 16) {
                PT_CHECK(t, (int)bsr16(v) == hi && (int)bsf16(v) == lo,
                         "bsr16/bsf16(%jx)", (uintmax_t)v);
            }
            if (hi < 32) {
                PT_CHECK(t, (int)bsr32(v) == hi && (int)bsf32(v) == lo,
                         "bsr32/bsf32(%jx)", (uintmax_t)v);
            }
        }
        b = 1 + pt_u(t, 63);
        {
            int64_t se = v & (b == 64 ? -1 : (1ll << b) - 1);
            if (b < 64 && (v >> (b - 1) & 1)) {
                se |= ~0ull << b;
            }
            PT_CHECK(t, sign_extend(v, b) == se, "sign_extend(%jx, %d): %jx",
                     (uintmax_t)v, b, (uintmax_t)sign_extend(v, b));
        }
    }
    free(raw);
    if (n > 8) {
        pt_nontrivial(t);
    }
}

/* }}} */

void pt_setup(void)
{
}

const pt_target_t pt_targets[] = {
    { .name = "wah", .run = run_wah, .quick = 40000, .thorough = 1500000,
      .cov_pct = 30 },
    { .name = "wahbig", .run = run_wahbig, .quick = 60000, .thorough = 2000000,
      .cov_pct = 30 },
    { .name = "bb", .run = run_bb, .quick = 200000, .thorough = 6000000,
      .cov_pct = 30 },
    { .name = "scan", .run = run_scan, .quick = 300000, .thorough = 6000000,
      .cov_pct = 20 },
};
const int pt_targets_len = countof(pt_targets);
