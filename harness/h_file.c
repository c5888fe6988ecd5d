/* Record files, buffered files and output buffers, against models. */
#include <lib-common/core.h>
#include <lib-common/file.h>
#include <lib-common/file-bin.h>
#include <lib-common/str-outbuf.h>
#include <lib-common/unix.h>
#include <lib-common/container-qvector.h>
#include <sys/mman.h>
#include "pt.h"

const char pt_rule[] =
    "bin: histories of appends, flushes, truncations and reopenings of a "
    "record file with readers that follow it at any length (any crash "
    "point), seeks, last records; damage: one slot of the file is damaged; "
    "file: histories of writes, seeks and truncations of a buffered file "
    "against an array; ob: output buffers with short writes. non-trivial: "
    "a record that spans slots or ends at the edge of a slot (bin, damage), "
    "at least 4 operations (file, ob)";

#define U(n)       pt_u(t, (n) - 1)
#define P(n)       pt_p(t, (n), 100)

void pt_setup(void)
{
    e_set_verbosity(-1);
}

/* {{{ record files */

typedef struct rec_t {
    int seed;
    int len;
    long start, end;        /* in the file */
} rec_t;

static rec_t recs[200];
static int nrecs;
static char rbuf[3 << 20];

static void rec_fill(const rec_t *r, char *out)
{
    unsigned x = r->seed * 2654435761u + 12345;

    for (int i = 0; i < r->len; i++) {
        out[i] = x >> 24;
        x = x * 1664525u + 1013904223u;
    }
}

static bool rec_is(const rec_t *r, lstr_t l)
{
    if (!l.s || l.len != r->len) {
        return false;
    }
    rec_fill(r, rbuf);
    return !memcmp(rbuf, l.s, l.len);
}

static char path1[512], path2[512];

/* copy of the first bytes of the file */
static void put_prefix(const char *data, long len, bool grow)
{
    int fd = open(path2, O_WRONLY | O_CREAT | (grow ? 0 : O_TRUNC), 0600);
    struct stat st;

    if (fd < 0 || fstat(fd, &st) < 0) {
        abort();
    }
    if (len > st.st_size
    &&  pwrite(fd, data + st.st_size, len - st.st_size, st.st_size)
        != len - st.st_size)
    {
        abort();
    }
    close(fd);
}

static char *slurp(const char *path, long *len)
{
    struct stat st;
    int fd = open(path, O_RDONLY);
    char *res;

    if (fd < 0 || fstat(fd, &st) < 0) {
        abort();
    }
    res = (malloc)(st.st_size + 1);
    if (read(fd, res, st.st_size) != st.st_size) {
        abort();
    }
    close(fd);
    *len = st.st_size;
    return res;
}

static void add_rec(pt_t *t, file_bin_t *f, int len)
{
    rec_t *r = &recs[nrecs++];

    r->seed = U(1000000);
    r->len = len;
    rec_fill(r, rbuf);
    r->start = f->cur;
    PT_CHECK(t, file_bin_put_record(f, rbuf, len) >= 0, "put_record");
    r->end = f->cur;
    pt_note(t, "record %d of %d bytes at %ld", nrecs - 1, len, r->end);
}

static int expected(long cut)
{
    int n = 0;

    while (n < nrecs && recs[n].end <= cut) {
        n++;
    }
    return n;
}

/* reads all, from record *pos */
static void follow(pt_t *t, file_bin_t *f, int *pos, long cut)
{
    lstr_t l;

    for (;;) {
        l = file_bin_get_next_record(f);
        if (!l.s) {
            break;
        }
        PT_CHECK(t, *pos < nrecs, "more than the %d records", nrecs);
        PT_CHECK(t, rec_is(&recs[*pos], l),
                 "in the first %ld bytes, record %d is another one (%d "
                 "bytes)", cut, *pos, (int)l.len);
        (*pos)++;
    }
    PT_CHECK(t, *pos == expected(cut), "%d records instead of %d in %ld "
             "bytes", *pos, expected(cut), cut);
}

static int gen_len(pt_t *t, int slot)
{
    switch (U(6)) {
      case 0:
        return U(3) ? U(slot) : 0;
      case 1:
        /* around a number of slots */
        return slot * (1 + U(3)) - U(30) > 0 ? slot * (1 + U(3)) - U(14) : 0;
      case 2:
        return U(slot * 4);
      default:
        return U(40);
    }
}

static void run_bin(pt_t *t)
{
    int slot, n = 1 + U(40);
    bool v0 = P(10), edge = false;
    file_bin_t *w, *r;
    char *data;
    long len;

    nrecs = 0;
    (snprintf)(path1, sizeof(path1), "%s/a", pt_tmpdir());
    (snprintf)(path2, sizeof(path2), "%s/b", pt_tmpdir());
    unlink(path1);
    unlink(path2);
    slot = P(80) ? 28 + U(100) : P(80) ? 28 + U(5000) : 0;
    if (v0) {
        /* the old format: no header, records do not span slots */
        FILE *old = (fopen)(path1, "w");
        long cur = 0;

        slot = 1 << 20;
        n = 1 + U(10);
        for (int i = 1 + U(3); i-- > 0; ) {
            rec_t *x = &recs[nrecs++];
            uint32_t l;

            x->seed = U(1000000);
            x->len = l = 20 + U(100);
            rec_fill(x, rbuf);
            l = htole32(l);
            (fwrite)(&l, 4, 1, old);
            (fwrite)(rbuf, 1, x->len, old);
            cur += 4 + x->len;
            x->end = cur;
        }
        (fclose)(old);
    }
    pt_note(t, "slots of %d", slot);
    w = file_bin_create(LSTR(path1), slot, !v0 && P(50));
    PT_CHECK(t, w, "create");
    if (!slot) {
        slot = 1 << 20;
    }
    PT_CHECK(t, (int)w->slot_size == slot, "slot size %u", w->slot_size);
    for (int i = 0; i < n; i++) {
        switch (U(12)) {
          case 0:
            PT_CHECK(t, file_bin_close(&w) >= 0, "close");
            w = file_bin_create(LSTR(path1),
                                P(50) || !nrecs ? slot : 28 + U(100),
                                false);
            PT_CHECK(t, w, "reopen");
            pt_note(t, "reopened");
            break;
          case 1:
            PT_CHECK(t, (P(50) ? file_bin_flush(w) : file_bin_sync(w)) >= 0,
                     "flush");
            break;
          case 2:
            if (nrecs > 1) {
                nrecs -= U(nrecs < 4 ? nrecs : 4);
                pt_note(t, "truncated after record %d", nrecs - 1);
                PT_CHECK(t, file_bin_truncate(w, recs[nrecs - 1].end) >= 0,
                         "truncate");
            }
            break;
          default:
            if (v0) {
                add_rec(t, w, P(15) ? slot - 4 - U(40) : 1 + U(60));
            } else {
                add_rec(t, w, slot > 6000 ? U(100) : gen_len(t, slot));
            }
            break;
        }
    }
    PT_CHECK(t, file_bin_close(&w) >= 0, "close");
    data = slurp(path1, &len);
    PT_CHECK(t, len == (nrecs ? recs[nrecs - 1].end : len),
             "the file has %ld bytes", len);
    for (int i = 0; i < nrecs; i++) {
        if (recs[i].len > slot || recs[i].end % slot == 0
        ||  recs[i].end % slot > slot - 4)
        {
            edge = true;
        }
    }

    /* all of it */
    r = file_bin_open(LSTR(path1));
    PT_CHECK(t, r || (len > 0 && len < 20), "open");
    if (r) {
        long at[200];
        int pos = 0;

        while (pos < nrecs) {
            lstr_t l;

            at[pos] = r->cur;
            l = file_bin_get_next_record(r);
            PT_CHECK(t, rec_is(&recs[pos], l), "record %d is another one "
                     "(%d bytes instead of %d)", pos, l.s ? l.len : -1,
                     recs[pos].len);
            pos++;
        }
        PT_CHECK(t, !file_bin_get_next_record(r).s, "more records");
        for (int k = U(3); k-- > 0 && nrecs; ) {
            int from = U(nrecs);

            PT_CHECK(t, _file_bin_seek(r, at[from]) >= 0, "seek");
            follow(t, r, &from, len);
        }
        if (len && P(50)) {
            t_scope;
            qv_t(lstr) last;
            int count = P(50) ? 1 + U(5) : U(nrecs + 3);
            long cur = r->cur;

            t_qv_init(&last, 0);
            PT_CHECK(t, t_file_bin_get_last_records(r, count, &last) >= 0,
                     "last records");
            PT_CHECK(t, last.len == (count < nrecs ? count : nrecs),
                     "%d last records of %d instead of %d", last.len, nrecs,
                     count);
            for (int i = 0; i < last.len; i++) {
                PT_CHECK(t, rec_is(&recs[nrecs - 1 - i], last.tab[i]),
                         "last record -%d of %d", i, count);
            }
            PT_CHECK(t, (long)r->cur == cur, "the position has moved");
        }
        PT_CHECK(t, file_bin_close(&r) >= 0, "close");
    }

    /* any prefix of the file */
    for (int k = 0; k < 4; k++) {
        long cut = v0 || P(30) ? U(len + 1)
            : nrecs ? recs[U(nrecs)].end - 5 + (int)U(11) : 0;

        if (cut < 0 || cut > len) {
            cut = len;
        }
        unlink(path2);
        put_prefix(data, cut, false);
        r = file_bin_open(LSTR(path2));
        if (cut == 0 || cut >= 20) {
            PT_CHECK(t, r, "first %ld bytes not opened", cut);
        }
        if (r) {
            int pos = 0;

            if (cut >= 20 || !v0) {
                follow(t, r, &pos, cut);
            }
            /* and now it grows */
            for (int g = U(6); g-- > 0 && cut < len && (cut || !v0); ) {
                int more = P(50) ? U(20) : U(len - cut + 1);

                cut = more > len - cut ? len : cut + more;
                if (cut < 20 && !v0) {
                    cut = len < 20 ? len : 20;
                }
                put_prefix(data, cut, true);
                PT_CHECK(t, file_bin_refresh(r) >= 0, "refresh");
                follow(t, r, &pos, cut);
                if (P(20)) {
                    long cur = r->cur;

                    PT_CHECK(t, file_bin_close(&r) >= 0, "close");
                    r = file_bin_open(LSTR(path2));
                    PT_CHECK(t, r, "open");
                    PT_CHECK(t, _file_bin_seek(r, cur) >= 0, "seek");
                }
            }
            PT_CHECK(t, file_bin_close(&r) >= 0, "close");
        }
    }
    (free)(data);
    if (edge) {
        pt_nontrivial(t);
    }
    pt_label(t, v0 ? "version 0" : "version 1");
}

static void run_damage(pt_t *t)
{
    int slot = P(90) ? 28 + U(100) : 28 + U(2000), n = 1 + U(40);
    file_bin_t *w, *r;
    char *data;
    long len;
    int k, nslots, head = 0, tail, pos, got = 0, limit;
    static struct {
        char *s;
        int len;
    } res[10000];

    nrecs = 0;
    (snprintf)(path1, sizeof(path1), "%s/a", pt_tmpdir());
    w = file_bin_create(LSTR(path1), slot, true);
    PT_CHECK(t, w, "create");
    for (int i = 0; i < n; i++) {
        add_rec(t, w, P(70) ? U(20) : gen_len(t, slot));
    }
    PT_CHECK(t, file_bin_close(&w) >= 0, "close");
    data = slurp(path1, &len);
    nslots = (len + slot - 1) / slot;
    k = U(nslots);
    if (P(30)) {
        /* another length for a record of this slot */
        static const uint32_t vals[] = {
            0xffffffff, 0xfffffffc, 0xfffffffd, 0x7fffffff, 0x80000000,
        };
        int j = U(nrecs);
        long h = recs[j].end - recs[j].len - 4;

        if (P(50)) {
            for (int i = 0; i < nrecs; i++) {
                if (recs[i].start % slot == slot - 4) {
                    j = i;
                    h = recs[i].start;
                }
            }
        }
        if (h >= 24 && h + 4 <= len && h / slot == (h + 3) / slot
        &&  h % slot >= 4)
        {
            uint32_t v = P(60) ? vals[U(countof(vals))]
                : (uint32_t)recs[j].len + U(9) - 4;

            v = htole32(v);
            k = h / slot;
            memcpy(data + h, &v, 4);
            pt_note(t, "slot %d: length %#x at %ld", k, v, h);
        }
    } else
    for (int i = 1 + U(6), p = -1; i-- > 0; ) {
        int lo = k ? 4 : 24, hi = slot;

        if ((long)k * slot + hi > len) {
            hi = len - (long)k * slot;
        }
        if (hi <= lo) {
            break;
        }
        if (p < 0 || P(30)) {
            p = lo + U(hi - lo);
            if (P(60)) {
                /* a length */
                int j = U(nrecs);
                long st = recs[j].start;

                st = recs[j].end - recs[j].len - 4;
                if (st >= (long)k * slot + lo && st < (long)k * slot + hi) {
                    p = st - (long)k * slot;
                }
            }
        } else
        if (++p >= hi) {
            break;
        }
        data[(long)k * slot + p] = P(30) ? 0xff : P(50) ? 0 : pt_uchar(t);
        pt_note(t, "slot %d: byte %d is %02x", k, p,
                data[(long)k * slot + p] & 0xff);
    }
    {
        int fd = open(path1, O_WRONLY);

        if (pwrite(fd, data, len, 0) != len) {
            abort();
        }
        close(fd);
    }
    /* records before the slot, and those that start three slots later (a
     * wrong length that ends a slot hides two slots) */
    while (head < nrecs && recs[head].end <= (long)k * slot) {
        head++;
    }
    tail = nrecs;
    while (tail > 0 && recs[tail - 1].start >= (long)(k + 3) * slot) {
        tail--;
    }
    r = file_bin_open(LSTR(path1));
    PT_CHECK(t, r, "open");
    limit = countof(res);
    for (;;) {
        lstr_t l = file_bin_get_next_record(r);

        if (!l.s) {
            break;
        }
        PT_CHECK(t, got < limit, "the reader does not end");
        res[got].len = l.len;
        res[got].s = (malloc)(l.len + 1);
        memcpy(res[got].s, l.s, l.len);
        got++;
    }
    PT_CHECK(t, file_bin_close(&r) >= 0, "close");
    PT_CHECK(t, got >= head + nrecs - tail, "%d records found out of %d", got,
             nrecs);
    for (pos = 0; pos < head; pos++) {
        PT_CHECK(t, rec_is(&recs[pos], LSTR_DATA_V(res[pos].s, res[pos].len)),
                 "record %d before the damaged slot %d", pos, k);
    }
    for (pos = tail; pos < nrecs; pos++) {
        int j = got - (nrecs - pos);

        PT_CHECK(t, rec_is(&recs[pos], LSTR_DATA_V(res[j].s, res[j].len)),
                 "record %d after the damaged slot %d", pos, k);
    }
    {
        t_scope;
        qv_t(lstr) last;

        r = file_bin_open(LSTR(path1));
        t_qv_init(&last, 0);
        PT_CHECK(t, t_file_bin_get_last_records(r, 5, &last) >= 0, "last");
        PT_CHECK(t, file_bin_close(&r) >= 0, "close");
    }
    while (got) {
        (free)(res[--got].s);
    }
    (free)(data);
    if (tail < nrecs || head > 0) {
        pt_nontrivial(t);
    }
}

/* }}} */
/* {{{ buffered files */

static char m_data[1 << 20];
static long m_size, m_pos;

static void m_write(const char *d, long len)
{
    if (len && m_pos > m_size) {
        memset(m_data + m_size, 0, m_pos - m_size);
    }
    memcpy(m_data + m_pos, d, len);
    m_pos += len;
    if (len && m_pos > m_size) {
        m_size = m_pos;
    }
}

static void m_check(pt_t *t, const char *when)
{
    long len;
    char *d = slurp(path1, &len);

    PT_CHECK(t, len == m_size, "%s: the file has %ld bytes instead of %ld",
             when, len, m_size);
    for (long i = 0; i < len; i++) {
        PT_CHECK(t, d[i] == m_data[i], "%s: byte %ld is %02x instead of "
                 "%02x", when, i, d[i] & 0xff, m_data[i] & 0xff);
    }
    (free)(d);
}

static int gen_blob(pt_t *t, char *out, int max)
{
    int len = P(60) ? U(20) : P(50) ? U(max / 4)
        : 8192 - 20 + U(40);
    int c = pt_uchar(t);

    if (len > max) {
        len = max;
    }
    for (int i = 0; i < len; i++) {
        out[i] = len < 20 ? (char)(c + i * 3) : (char)(c + i + i / 250);
    }
    return len;
}

static void run_file(pt_t *t)
{
    static char blob[40000], blob2[40000];
    file_t *f;
    int n = 1 + U(25), ops = 0;

    (snprintf)(path1, sizeof(path1), "%s/a", pt_tmpdir());
    unlink(path1);
    m_size = m_pos = 0;
    f = file_open(path1, FILE_WRONLY | FILE_CREATE | (P(50) ? FILE_TRUNC : 0)
                  | (P(30) ? FILE_EXCL : 0), 0600);
    PT_CHECK(t, f, "open");
    for (int i = 0; i < n && m_size < 600000; i++) {
        int len;
        off_t off;

        ops++;
        switch (U(12)) {
          case 0:
            len = U(256);
            m_write((char []){ len }, 1);
            PT_CHECK(t, file_putc(f, len) == 0, "putc");
            pt_note(t, "putc %d", len);
            break;

          case 1: {
            struct iovec iov[5];
            int k = U(6);
            long total = 0;

            for (int j = 0; j < k; j++) {
                char *b = blob + j * 8000;

                iov[j].iov_base = b;
                iov[j].iov_len = gen_blob(t, b, 8000);
                total += iov[j].iov_len;
                m_write(b, iov[j].iov_len);
            }
            pt_note(t, "writev of %d blocks, %ld bytes", k, total);
            PT_CHECK(t, file_writev(f, iov, k) == total, "writev");
            break;
          }

          case 2:
            len = U(1000);
            (snprintf)(blob2, sizeof(blob2), "%*d|", len, i);
            m_write(blob2, strlen(blob2));
            PT_CHECK(t, file_writef(f, "%*d|", len, i)
                     == (ssize_t)strlen(blob2), "writef");
            pt_note(t, "writef of %d", len);
            break;

          case 3:
            PT_CHECK(t, file_flush(f) == 0, "flush");
            m_check(t, "flush");
            pt_note(t, "flush");
            break;

          case 4:
            /* within the file, or a bit further */
            off = U(m_size + 10);
            pt_note(t, "seek %ld", (long)off);
            switch (U(3)) {
              case 0:
                PT_CHECK(t, file_seek(f, off, SEEK_SET) == off, "seek");
                break;
              case 1:
                PT_CHECK(t, file_seek(f, off - m_pos, SEEK_CUR) == off,
                         "seek from the position");
                break;
              default:
                PT_CHECK(t, file_seek(f, off - m_size, SEEK_END) == off,
                         "seek from the end");
                break;
            }
            m_pos = off;
            m_check(t, "seek");
            break;

          case 5:
            PT_CHECK(t, file_rewind(f) == 0, "rewind");
            m_pos = 0;
            pt_note(t, "rewind");
            break;

          case 6:
          case 7:
            off = P(50) ? U(m_size + 10) : P(50) ? m_size + U(10000)
                : m_pos + U(20);
            pt_note(t, "truncate %ld", (long)off);
            PT_CHECK(t, file_truncate(f, off) >= 0, "truncate");
            if (off > m_size) {
                memset(m_data + m_size, 0, off - m_size);
            }
            m_size = m_pos = off;
            break;

          case 8:
            PT_CHECK(t, file_close(&f) == 0 && !f, "close");
            m_check(t, "close");
            m_pos = 0;
            {
                bool trunc = P(15);
                int fl = FILE_WRONLY | (P(40) ? FILE_CREATE : 0) | (trunc ? FILE_TRUNC : 0);
                f = P(50) ? file_open_at(AT_FDCWD, path1, fl, 0600) : file_open(path1, fl, 0600);
                if (trunc) m_size = 0;
            }
            PT_CHECK(t, f, "open");
            PT_CHECK(t, !file_open(path1, FILE_WRONLY | FILE_CREATE
                                   | FILE_EXCL, 0600), "exclusive open");
            pt_note(t, "reopen");
            if (P(50)) {
                PT_CHECK(t, file_seek(f, 0, SEEK_END) == m_size, "end");
                m_pos = m_size;
                pt_note(t, "to the end");
            }
            break;

          default:
            len = gen_blob(t, blob, sizeof(blob));
            m_write(blob, len);
            pt_note(t, "write %d", len);
            PT_CHECK(t, file_write(f, blob, len) == len, "write");
            break;
        }
        PT_CHECK(t, file_tell(f) == m_pos, "tell: %ld instead of %ld",
                 (long)file_tell(f), m_pos);
    }
    PT_CHECK(t, file_close(&f) == 0, "close");
    m_check(t, "close");
    if (ops >= 4) {
        pt_nontrivial(t);
    }
}

/* }}} */
/* {{{ output buffers */

static pt_t *cur;
static char ob_exp[4][600000];
static int ob_len[4];
static char ob_out[600000];
static int ob_outlen;
static int ob_iovs;
static bool ob_final;

static ssize_t short_writev(int fd, const struct iovec *iov, int cnt,
                            void *priv)
{
    pt_t *t = cur;
    size_t total = 0, n, done = 0;

    ob_iovs = cnt;
    PT_CHECK(t, priv == &ob_out && cnt <= IOV_MAX, "writev of %d", cnt);
    for (int i = 0; i < cnt; i++) {
        total += iov[i].iov_len;
    }
    if (!ob_final && P(5)) {
        errno = EAGAIN;
        return -1;
    }
    n = P(30) ? total : P(50) ? U(total + 1) : U(40);
    if (P(20) && cnt) {
        /* at the edge of a block */
        n = 0;
        for (int k = U(cnt + 1), i = 0; i < k; i++) {
            n += iov[i].iov_len;
        }
    }
    if (n > total) {
        n = total;
    }
    if (ob_final && !n && total) {
        n = 1 + U(total);
    }
    for (int i = 0; done < n; i++) {
        size_t l = iov[i].iov_len < n - done ? iov[i].iov_len : n - done;

        if (ob_outlen + l > sizeof(ob_out)) {
            abort();
        }
        memcpy(ob_out + ob_outlen, iov[i].iov_base, l);
        ob_outlen += l;
        done += l;
    }
    return n;
}

static void e_add(int k, const char *d, int len)
{
    if (ob_len[k] + len > (int)sizeof(ob_exp[k])) {
        abort();
    }
    memcpy(ob_exp[k] + ob_len[k], d, len);
    ob_len[k] += len;
}

/* writes some of buffer k; true if there is no more */
static bool ob_step(pt_t *t, outbuf_t *ob, int k)
{
    int res;

    ob_outlen = 0;
    res = ob_write_with(ob, -1, &short_writev, &ob_out);
    if (res < 0) {
        PT_CHECK(t, !ob_outlen, "error after a write");
        return false;
    }
    PT_CHECK(t, ob_outlen <= ob_len[k]
             && !memcmp(ob_out, ob_exp[k], ob_outlen),
             "buffer %d: other bytes are written", k);
    memmove(ob_exp[k], ob_exp[k] + ob_outlen, ob_len[k] - ob_outlen);
    ob_len[k] -= ob_outlen;
    return ob_len[k] == 0;
}

static void run_ob(pt_t *t)
{
    static char blob[40000];
    static char consts[64][20000];
    int n_const = 0;
    outbuf_t obs[4];
    int n = 1 + U(30), k, ops = 0;

    cur = t;
    ob_final = false;
    for (int i = 0; i < 4; i++) {
        ob_init(&obs[i]);
        ob_len[i] = 0;
    }
    for (int i = 0; i < n; i++) {
        outbuf_t *ob;
        int len;

        k = P(60) ? 0 : U(4);
        ob = &obs[k];
        ops++;
        if (ob_len[k] > 200000) {
            ob_step(t, ob, k);
            continue;
        }
        switch (U(9)) {
          case 0:
            len = U(200);
            (snprintf)(blob, sizeof(blob), "%*d.", len, i);
            ob_addf(ob, "%*d.", len, i);
            e_add(k, blob, strlen(blob));
            break;

          case 1: {
            bool cst = P(50) && n_const < 64;
            char *p;

            len = P(60) ? (16 << 10) - 3 + U(7) : U(18000);
            p = cst ? consts[n_const++] : p_new_raw(char, len + 1);
            memset(p, pt_uchar(t), len);
            if (len) {
                p[0] = 'A';
                p[len - 1] = 'Z';
            }
            e_add(k, p, len);
            ob_add_memchunk(ob, p, len, cst);
            pt_note(t, "%d: chunk of %d", k, len);
            break;
          }

          case 2: {
            char *p;

            len = P(60) ? (16 << 10) - 3 + U(7) : 1 + U(18000);
            p = mmap(NULL, len, PROT_READ | PROT_WRITE,
                     MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
            memset(p, pt_uchar(t), len);
            e_add(k, p, len);
            ob_add_memmap(ob, p, len);
            pt_note(t, "%d: map of %d", k, len);
            break;
          }

          case 3: {
            int fd, sz;

            (snprintf)(path1, sizeof(path1), "%s/ob", pt_tmpdir());
            unlink(path1);          /* it may be mapped */
            fd = open(path1, O_WRONLY | O_CREAT | O_TRUNC, 0600);
            len = gen_blob(t, blob, 30000);
            if (P(30)) {
                len = (16 << 10) - 3 + U(7);
                memset(blob, 'f', len);
            }
            if (write(fd, blob, len) != len) {
                abort();
            }
            close(fd);
            sz = P(50) ? -1 : U(len + 1);
            PT_CHECK(t, ob_add_file(ob, path1, sz) == 0, "file of %d", len);
            e_add(k, blob, sz < 0 ? len : sz);
            pt_note(t, "%d: %d of a file of %d", k, sz, len);
            break;
          }

          case 4: {
            int off = ob_reserve(ob, 6);

            memcpy(ob->sb.data + off, "RESERV", 6);
            e_add(k, "RESERV", 6);
            break;
          }

          case 5: {
            int src = U(4);

            if (src != k && ob_len[src] + ob_len[k] < 400000) {
                pt_note(t, "%d gets all of %d", k, src);
                e_add(k, ob_exp[src], ob_len[src]);
                ob_len[src] = 0;
                switch (U(3)) {
                  case 0:
                    ob_merge(ob, &obs[src]);
                    break;
                  case 1:
                    ob_merge_wipe(ob, &obs[src]);
                    ob_init(&obs[src]);
                    break;
                  default: {
                    outbuf_t *dup = ob_new();

                    ob_merge(dup, &obs[src]);
                    ob_merge_delete(ob, &dup);
                    PT_CHECK(t, !dup, "merge_delete");
                    break;
                  }
                }
                PT_CHECK(t, ob_is_empty(&obs[src]), "not empty");
            }
            break;
          }

          case 6:
          case 7:
            pt_note(t, "%d: some is written", k);
            ob_step(t, ob, k);
            break;

          default:
            len = gen_blob(t, blob, 9000);
            ob_add(ob, blob, len);
            e_add(k, blob, len);
            break;
        }
        for (int j = 0; j < 4; j++) {
            PT_CHECK(t, obs[j].length == ob_len[j],
                     "buffer %d has %d bytes instead of %d", j,
                     obs[j].length, ob_len[j]);
            PT_CHECK(t, ob_is_empty(&obs[j]) == !ob_len[j], "empty?");
            ob_check_invariants(&obs[j]);
        }
    }
    ob_final = true;
    for (k = 0; k < 4; k++) {
        if (P(80)) {
            for (int i = 0; !ob_step(t, &obs[k], k); i++) {
                PT_CHECK(t, i < 100000, "never written");
            }
            PT_CHECK(t, ob_is_empty(&obs[k]), "not empty");
        }
        ob_wipe(&obs[k]);
    }
    if (ops >= 4) {
        pt_nontrivial(t);
    }
}

/* }}} */

const pt_target_t pt_targets[] = {
    { "bin", run_bin, 15000, 1000000 },
    { "damage", run_damage, 20000, 1000000 },
    { "file", run_file, 15000, 1000000 },
    { "ob", run_ob, 20000, 1000000 },
};
const int pt_targets_len = countof(pt_targets);
