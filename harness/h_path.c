/* Paths and network addresses, against lists of components and exact bits. */
#include <lib-common/core.h>
#include <lib-common/net.h>
#include <lib-common/unix.h>
#include "pt.h"

#define U(n)  pt_u(t, (n) - 1)
#define P(n)  pt_p(t, (n), 100)

const char pt_rule[] =
    "split: names cut in directory, base name and extension in buffers of any "
    "size; simplify: paths as lists of components, in place; extend, relative: "
    "prefixes and suffixes around PATH_MAX; safe: chroot test; addr: addresses "
    "and ports, filters as bit prefixes, texts of addresses; url: URLs from "
    "their components and damaged ones. non-trivial: the path held a dot "
    "component or the result met the end of the buffer, or the address or URL "
    "was accepted";

#define HOME  "/home/nobody-at-all"

/* {{{ paths as lists */

typedef struct plist_t {
    bool abs;
    int up;                 /* leading .. of relative paths */
    int n;
    char c[600][24];
} plist_t;

static void pl_apply(plist_t *l, const char *s)
{
    while (*s) {
        const char *e = s + strcspn(s, "/");
        int len = e - s;

        if (len == 0 || (len == 1 && s[0] == '.')) {
        } else
        if (len == 2 && s[0] == '.' && s[1] == '.') {
            if (l->n) {
                l->n--;
            } else
            if (!l->abs) {
                l->up++;
            }
        } else {
            (snprintf)(l->c[l->n++], 24, "%.*s", len, s);
        }
        s = *e ? e + 1 : e;
    }
}
static void pl_parse(plist_t *l, const char *s)
{
    l->abs = *s == '/';
    l->n = l->up = 0;
    pl_apply(l, s);
}
static bool pl_equal(const plist_t *a, const plist_t *b)
{
    if (a->abs != b->abs || a->up != b->up || a->n != b->n) {
        return false;
    }
    for (int i = 0; i < a->n; i++) {
        if (strcmp(a->c[i], b->c[i])) {
            return false;
        }
    }
    return true;
}
static void pl_str(const plist_t *l, char *out)
{
    char *p = out;

    if (l->abs) {
        *p++ = '/';
    }
    for (int i = 0; i < l->up; i++) {
        p += (sprintf)(p, "../");
    }
    for (int i = 0; i < l->n; i++) {
        p += (sprintf)(p, "%s/", l->c[i]);
    }
    if (l->up + l->n) {
        p--;
    }
    if (p == out) {
        *p++ = '.';
    }
    *p = 0;
}

static int gen_path(pt_t *t, char *s, int max_atoms)
{
    static const char *atoms[] = {
        "a", "b", "c", "aa", "ab", ".", "..", "..", "...", ".x", "..y", "x.",
        "a.b", "a..", ".", "~", "foo", "bar.tar.gz", "-", "a b",
    };
    char *p = s;
    int n = pt_size(t, max_atoms);

    if (P(50)) {
        *p++ = '/';
        while (P(15)) {
            *p++ = '/';
        }
    }
    for (int i = 0; i < n; i++) {
        p = stpcpy(p, atoms[U(countof(atoms))]);
        if (i < n - 1 || P(30)) {
            *p++ = '/';
            while (P(12)) {
                *p++ = '/';
            }
        }
    }
    *p = 0;
    return p - s;
}

/* }}} */
/* {{{ split */

/* result of a bounded copy */
static void check_copy(pt_t *t, const char *what, const char *path,
                       const char *buf, int size, int res, const char *exp)
{
    int n = strlen(exp);

    PT_CHECK(t, res == n, "%s(`%s`) returns %d, not %d (`%s`)", what, path, res,
             n, exp);
    if (size > 0) {
        int k = n < size - 1 ? n : size - 1;

        PT_CHECK(t, (int)strlen(buf) == k && !memcmp(buf, exp, k),
                 "%s(`%s`, size %d): `%s`, not `%s`", what, path, size, buf,
                 exp);
        if (k < n) {
            pt_nontrivial(t);
        }
    }
}

static void run_split(pt_t *t)
{
    char s[400], exp[400], e2[400];
    int len = gen_path(t, s, 6), size, res;
    char *h = (strdup)(s), *buf;
    const char *slash = strrchr(s, '/'), *base = slash ? slash + 1 : s;
    const char *p;

    pt_note(t, "path `%s`", s);
    if (strstr(s, "..")) {
        pt_nontrivial(t);
    }
    PT_CHECK(t, path_filepart(h) == h + (base - s), "filepart");
    PT_CHECK(t, vpath_filepart(h) == h + (base - s), "vfilepart");

    /* extension: last dot of the base name that is not a leading one */
    p = base + strspn(base, ".");
    p = strrchr(p, '.');
    PT_CHECK(t, path_ext(h) == (p ? h + (p - s) : NULL), "path_ext(`%s`): `%s`",
             s, path_ext(h) ?: "none");
    PT_CHECK(t, path_extnul(h) == (p ? h + (p - s) : h + len),
             "path_extnul(`%s`): `%s`", s, path_extnul(h));

    size = P(50) ? 400 : U(len + 4);
    buf = (malloc)(size + 1);
    buf[0] = 0;
    memcpy(exp, s, base - s);
    exp[base - s] = 0;
    res = path_dirpart(buf, size, h);
    check_copy(t, "path_dirpart", s, buf, size, res, exp);

    /* dirname and base name: trailing slashes do not count */
    {
        int e = len, b, d;

        while (e > 0 && s[e - 1] == '/') {
            e--;
        }
        b = e;
        while (b > 0 && s[b - 1] != '/') {
            b--;
        }
        d = b;
        while (d > 0 && s[d - 1] == '/') {
            d--;
        }
        if (d) {
            (snprintf)(exp, sizeof(exp), "%.*s", d, s);
        } else {
            strcpy(exp, s[0] == '/' ? "/" : ".");
        }
        (snprintf)(e2, sizeof(e2), "%.*s", e - b, s + b);
        buf[0] = 0;
        res = path_dirname(buf, size, h);
        check_copy(t, "path_dirname", s, buf, size, res, exp);
        buf[0] = 0;
        res = path_basename(buf, size, h);
        check_copy(t, "path_basename", s, buf, size, res, e2);
    }
    (free)(buf);

    /* join: exactly one slash at the seam */
    {
        char s2[400], s1[400];
        int l1 = len, st;

        gen_path(t, s2, 5);
        strcpy(s1, s);
        if (!l1) {
            strcpy(s1, "x");
            l1 = 1;
        }
        while (l1 > 0 && s1[l1 - 1] == '/') {
            l1--;
        }
        st = strspn(s2, "/");
        (snprintf)(exp, sizeof(exp), "%.*s/%s", l1, s1, s2 + st);
        size = (int)strlen(s1) + 1 + (P(50) ? 300 : U(strlen(s2) + 3));
        pt_note(t, "join `%s` size %d", s2, size);
        buf = (malloc)(size);
        strcpy(buf, s1);
        res = path_join(buf, size, s2);
        check_copy(t, "path_join", s2, buf, size, res, exp);
        (free)(buf);
    }
    (free)(h);
}

/* }}} */
/* {{{ simplify */

static plist_t l1, l2, l3;

static void run_simplify(pt_t *t)
{
    char s[1200], exp[1200];
    int len = gen_path(t, s, P(5) ? 60 : 8);
    char *h;
    int res;
    bool keep = P(30);

    pt_note(t, "path `%s` keep=%d", s, keep);
    h = (malloc)(len + 2);
    strcpy(h, s);
    h[len + 1] = 0x55;
    if (!len) {
        PT_CHECK(t, path_simplify(h) < 0, "empty path");
        (free)(h);
        return;
    }
    pl_parse(&l1, s);
    pl_str(&l1, exp);
    if (strcmp(exp, s)) {
        pt_nontrivial(t);
    }
    if (len == 1) {
        (free)(h);
        h = (malloc)(2);
        strcpy(h, s);
    } else {
        (free)(h);
        h = (malloc)(len + 1);
        strcpy(h, s);
    }
    res = path_simplify2(h, keep);
    PT_CHECK(t, res == (int)strlen(h), "returns %d for `%s`", res, h);
    if (!keep) {
        PT_CHECK(t, !strcmp(h, exp), "path_simplify(`%s`): `%s`, not `%s`", s,
                 h, exp);
    } else {
        /* a trailing slash or dot component may stay as one slash, a real
         * trailing slash of a non-empty result must stay */
        char e2[1300];
        bool dotted = !strcmp(s, "..")
                   || (len >= 3 && !strcmp(s + len - 3, "/.."))
                   || (len >= 2 && !strcmp(s + len - 2, "/."));

        (snprintf)(e2, sizeof(e2), "%s/", exp);
        if (!strcmp(exp, "/") || !strcmp(exp, ".")) {
            PT_CHECK(t, !strcmp(h, exp), "path_simplify2(`%s`): `%s`", s, h);
        } else
        if (dotted) {
            PT_CHECK(t, !strcmp(h, exp) || !strcmp(h, e2),
                     "path_simplify2(`%s`): `%s`", s, h);
        } else {
            PT_CHECK(t, !strcmp(h, s[len - 1] == '/' ? e2 : exp),
                     "path_simplify2(`%s`): `%s`, not `%s`", s, h,
                     s[len - 1] == '/' ? e2 : exp);
        }
    }
    (free)(h);

    /* chroot test: absolute paths and any .. are refused */
    {
        bool safe = s[0] != '/';
        char tmp[1200], *save, *tok;

        strcpy(tmp, s);
        for (tok = strtok_r(tmp, "/", &save); tok;
             tok = strtok_r(NULL, "/", &save))
        {
            if (!strcmp(tok, "..")) {
                safe = false;
            }
        }
        h = (malloc)(len + 1);
        strcpy(h, s);
        PT_CHECK(t, path_is_safe(h) == safe, "path_is_safe(`%s`) is %d", s,
                 !safe);
        (free)(h);
    }
}

/* }}} */
/* {{{ extend, relative */

static char big[3 * PATH_MAX], big2[3 * PATH_MAX], bexp[8 * PATH_MAX];

static void fill_big(pt_t *t, char *s, int len)
{
    if (len <= 0) {
        *s = 0;
        return;
    }
    memset(s, 'q', len);
    for (int i = 7; i < len; i += 8) {
        s[i] = '/';
    }
    if (P(60)) {
        s[0] = '/';
    }
    s[len] = 0;
    s[len - 1] = P(50) ? '/' : 'z';
}

static void run_extend(pt_t *t)
{
    char *buf = (malloc)(PATH_MAX);
    int res, n, k;
    const char *suf = big2;

    memset(buf, 0x33, PATH_MAX);
    if (P(60)) {
        gen_path(t, big, 6);
    } else {
        fill_big(t, big, P(70) ? PATH_MAX - 8 + U(14) : U(2 * PATH_MAX));
    }
    k = U(6);
    if (k < 3) {
        gen_path(t, big2, 6);
    } else
    if (k == 3) {
        n = PATH_MAX - (int)strlen(big) - 6 + U(10);
        fill_big(t, big2, n > 0 ? n : U(4));
        if (big2[0] == '/' && P(50)) {
            big2[0] = 'f';
        }
    } else
    if (k == 4) {
        strcpy(big2, P(50) ? "~/" : "~x");
        if (pt_bool(t)) {
            gen_path(t, big2 + 2, 4);
        } else {
            fill_big(t, big2 + 2, PATH_MAX - 12 - strlen(HOME) + U(16));
        }
    } else {
        static const char *sm[] = { "", "a", "/", "~", "~/", "/x", "~a", "~/a",
                                    "ab" };
        strcpy(big2, sm[U(countof(sm))]);
    }
    if (suf[0] == '/') {
        strcpy(bexp, suf);
    } else
    if (suf[0] == '~' && suf[1] == '/') {
        (sprintf)(bexp, "%s%s", HOME, suf + 1);
    } else {
        n = strlen(big);
        (sprintf)(bexp, "%s%s%s", big, n && big[n - 1] != '/' ? "/" : "", suf);
    }
    n = strlen(bexp);
    pt_note(t, "prefix %d bytes `%.60s` suffix %d bytes `%.60s`", (int)strlen(big),
            big, (int)strlen(suf), suf);
    if (n > PATH_MAX - 10) {
        pt_nontrivial(t);
    }
    res = P(50) ? path_extend(buf, big, "%s", suf)
                : path_extend(buf, big, "%.*s%s", (int)(strlen(suf) / 2), suf,
                              suf + strlen(suf) / 2);
    if (n >= PATH_MAX) {
        PT_CHECK(t, res == -1, "path of %d bytes: returns %d", n, res);
    } else {
        PT_CHECK(t, res == n, "returns %d, not %d (`%.80s`)", res, n, bexp);
        PT_CHECK(t, !strcmp(buf, bexp), "`%.80s`, not `%.80s`", buf, bexp);
    }
    (free)(buf);
}

static char cwd[PATH_MAX];

static void run_relative(pt_t *t)
{
    char from[600], to[600], *buf = (malloc)(PATH_MAX);
    int lf = gen_path(t, from, 7), lt, res;
    bool dir;

    gen_path(t, to, 7);
    if (P(30)) {
        strcpy(to, from);
        if (P(60)) {
            strcat(to, "/");
            gen_path(t, to + strlen(to), 3);
        }
    } else
    if (P(20)) {
        lt = strlen(to);
        (void)lt;
        strcat(to, "/b");
    }
    if (!*to || !*from) {
        (free)(buf);
        return;
    }
    if (from[0] == '~') {
        from[0] = 'h';
    }
    if (to[0] == '~') {
        to[0] = 'h';
    }
    pt_note(t, "from `%s` to `%s`", from, to);
    pl_parse(&l1, from[0] == '/' ? from : cwd);
    pl_parse(&l2, to[0] == '/' ? to : cwd);
    if (from[0] != '/') {
        pl_apply(&l1, from);
    }
    if (to[0] != '/') {
        pl_apply(&l2, to);
    }
    /* does from name a directory? */
    dir = from[lf - 1] == '/' || (lf >= 2 && !strcmp(from + lf - 2, "/."))
       || (lf >= 3 && !strcmp(from + lf - 3, "/..")) || !strcmp(from, ".")
       || !strcmp(from, "..");
    res = path_relative_to(buf, from, to);
    PT_CHECK(t, res >= 0, "path_relative_to(`%s`, `%s`) fails", from, to);
    PT_CHECK(t, res == (int)strlen(buf), "returns %d for `%s`", res, buf);
    PT_CHECK(t, buf[0] != '/', "absolute result `%s`", buf);
    if (strstr(buf, "..")) {
        pt_nontrivial(t);
    }
    if (pl_equal(&l1, &l2)) {
        /* documented: the last component */
        PT_CHECK(t, !strcmp(buf, l2.n ? l2.c[l2.n - 1] : ""),
                 "from `%s` to itself: `%s`", from, buf);
    } else
    if (l1.n || dir) {
        char got[900], exp[900];

        l3 = l1;
        if (!dir && l3.n) {
            l3.n--;
        }
        pl_apply(&l3, buf);
        pl_str(&l3, got);
        pl_str(&l2, exp);
        PT_CHECK(t, pl_equal(&l3, &l2), "from `%s` to `%s`: `%s` leads to `%s`"
                 " instead of `%s`", from, to, buf, got, exp);
    }
    (free)(buf);
}

/* }}} */
/* {{{ addresses */

static bool is_v6;

static void gen_su(pt_t *t, sockunion_t *su)
{
    memset(su, 0, sizeof(*su));
    switch (U(5)) {
      case 0: case 1:
        su->sin.sin_family = AF_INET;
        for (int i = 0; i < 4; i++) {
            ((byte *)&su->sin.sin_addr)[i] = P(30) ? 0 : P(30) ? 255 : U(256);
        }
        su->sin.sin_port = htons(U(65536));
        break;
      case 2: case 3:
        su->sin6.sin6_family = AF_INET6;
        for (int i = 0; i < 16; i++) {
            su->sin6.sin6_addr.s6_addr[i] = P(40) ? 0 : P(20) ? 255 : U(256);
        }
        su->sin6.sin6_port = htons(U(65536));
        break;
      default: {
        int n = U(sizeof(su->sunix.sun_path) - 2), at = 0;

        su->sunix.sun_family = AF_UNIX;
        if (P(40)) {
            at = 1;
            n += !n;
        }
        for (int i = at; i < n; i++) {
            su->sunix.sun_path[i] = 'a' + U(P(50) ? 2 : 26);
        }
      } break;
    }
    is_v6 = su->family == AF_INET6;
}

static bool su_same(const sockunion_t *a, const sockunion_t *b)
{
    if (a->family != b->family) {
        return false;
    }
    switch (a->family) {
      case AF_INET:
        return a->sin.sin_port == b->sin.sin_port
            && !memcmp(&a->sin.sin_addr, &b->sin.sin_addr, 4);
      case AF_INET6:
        return a->sin6.sin6_port == b->sin6.sin6_port
            && !memcmp(&a->sin6.sin6_addr, &b->sin6.sin6_addr, 16);
      default:
        /* the whole buffers were cleared */
        return !memcmp(a->sunix.sun_path, b->sunix.sun_path,
                       sizeof(a->sunix.sun_path));
    }
}

static void run_addr(pt_t *t)
{
    t_scope;
    sockunion_t a, b, c;
    char txt[200], host[100];
    const char *f;
    int len = -1, res;
    pstream_t ps;
    in_port_t port = 7;

    gen_su(t, &a);
    if (P(40)) {
        b = a;
        if (P(70)) {
            switch (b.family) {
              case AF_INET:
                if (P(30)) {
                    b.sin.sin_port ^= 1 << U(16);
                } else {
                    ((byte *)&b.sin.sin_addr)[U(4)] ^= 1 << U(8);
                }
                break;
              case AF_INET6:
                if (P(30)) {
                    b.sin6.sin6_port ^= 1 << U(16);
                } else {
                    b.sin6.sin6_addr.s6_addr[U(16)] ^= 1 << U(8);
                }
                break;
              default: {
                int n = strlen(b.sunix.sun_path + 1);
                b.sunix.sun_path[1 + U(n + 1)] = 'A';
              } break;
            }
        }
    } else {
        gen_su(t, &b);
    }
    PT_CHECK(t, sockunion_equal(&a, &b) == su_same(&a, &b),
             "sockunion_equal (family %d) is %d", a.family, !su_same(&a, &b));
    if (su_same(&a, &b)) {
        /* whatever lies in the padding */
        if (b.family == AF_INET) {
            memset(b.sin.sin_zero, 0xee, sizeof(b.sin.sin_zero));
        }
        PT_CHECK(t, sockunion_hash(&a) == sockunion_hash(&b), "hash");
    }

    is_v6 = a.family == AF_INET6;
    /* text */
    f = t_addr_fmt(&a, &len);
    PT_CHECK(t, len == (int)strlen(f), "t_addr_fmt length %d of `%s`", len, f);
    PT_CHECK(t, lstr_equal(t_addr_fmt_lstr(&a), LSTR(f)), "t_addr_fmt_lstr");
    if (a.family == AF_UNIX) {
        if (a.sunix.sun_path[0]) {
            PT_CHECK(t, !strcmp(f, a.sunix.sun_path), "unix `%s`", f);
        } else
        if (a.sunix.sun_path[1]) {
            PT_CHECK(t, f[0] == '@' && !strcmp(f + 1, a.sunix.sun_path + 1),
                     "abstract `%s`", f);
        }
        PT_CHECK(t, sockunion_gethost(&a, host, sizeof(host)) < 0, "gethost");
        PT_CHECK(t, !t_sockunion_gethost_lstr(&a).s, "gethost");
    } else {
        lstr_t hl = t_sockunion_gethost_lstr(&a);
        byte raw[16];
        char *small;

        pt_nontrivial(t);
        pt_note(t, "%s", f);
        res = sockunion_gethost(&a, host, sizeof(host));
        PT_CHECK(t, res == (int)strlen(host) && lstr_equal(hl, LSTR(host)),
                 "gethost");
        PT_CHECK(t, inet_pton(a.family, host, raw) == 1, "gethost `%s`", host);
        PT_CHECK(t, !memcmp(raw, is_v6 ? (void *)&a.sin6.sin6_addr
                                       : (void *)&a.sin.sin_addr,
                            is_v6 ? 16 : 4), "gethost `%s`", host);
        small = (malloc)(res + 1);
        PT_CHECK(t, sockunion_gethost(&a, small, res + 1) == res, "exact");
        PT_CHECK(t, sockunion_gethost(&a, small, res) < 0, "too small");
        (free)(small);
        (snprintf)(txt, sizeof(txt), is_v6 ? "[%s]:%d" : "%s:%d", host,
                   sockunion_getport(&a));
        PT_CHECK(t, !strcmp(f, txt), "t_addr_fmt: `%s`, not `%s`", f, txt);

        /* and back */
        res = addr_resolve2("x", LSTR(f), 0, -1, &c, &ps, &port, NULL);
        PT_CHECK(t, res == 0 && sockunion_equal(&a, &c)
                 && port == sockunion_getport(&a)
                 && lstr_equal(LSTR_PS_V(&ps), LSTR(host)), "resolve `%s`", f);
        res = addr_resolve_with_err("x", LSTR(f), &c, NULL);
        PT_CHECK(t, (res == 0) == (sockunion_getport(&a) != 0), "port 0");
    }

    /* parsing */
    {
        static const char *hosts[] = { "h", "localhost", "1.2.3.4", "::1",
                                       "a-b.c", "x:y" };
        const char *h = hosts[U(countof(hosts))];
        int p = P(20) ? 65530 + U(12) : P(20) ? (int)U(3) : U(65536);
        int minp = P(50) ? 1 : P(50) ? 0 : 1 + U(2000);
        int defp = P(40) ? -1 : U(65536);
        bool br = strchr(h, ':') || P(30), hasp = P(70);
        char *hb;
        bool ok;
        int n;

        n = (sprintf)(txt, br ? "[%s]" : "%s", h);
        if (hasp) {
            n += (sprintf)(txt + n, ":%d", p);
        }
        if (P(15)) {
            txt[n++] = "x: -]"[U(5)];
            txt[n] = 0;
            hasp = true;
            p = -1;
        }
        ok = hasp ? p >= minp && p <= 65535 : defp >= 0;
        if (p == -1 && txt[n - 1] == ' ') {
            return;
        }
        hb = (malloc)(n);
        memcpy(hb, txt, n);
        pt_note(t, "`%s` min=%d def=%d", txt, minp, defp);
        res = addr_parse_minport(ps_init(hb, n), &ps, &port, minp, defp);
        if (p == -1 && txt[n - 1] != ':' && !strchr(txt, ':')) {
            /* a host with a trailing character */
        } else
        if (p == -1 && !br && (txt[n - 1] == 'x' || txt[n - 1] == '-'
                               || txt[n - 1] == ']')
        &&  !strchr(txt, ':'))
        {
        } else {
            PT_CHECK(t, (res == 0) == ok, "addr_parse(`%s`, %d, %d): %d", txt,
                     minp, defp, res);
            if (ok) {
                PT_CHECK(t, port == (hasp ? p : defp), "port %d", port);
                PT_CHECK(t, ps_len(&ps) == (int)strlen(h)
                         && !memcmp(ps.s, h, ps_len(&ps)), "host");
            }
        }
        (free)(hb);
    }
}

static bool bits_match(const byte *a, const byte *b, int n)
{
    for (int i = 0; i < n; i++) {
        if (((a[i / 8] ^ b[i / 8]) >> (7 - i % 8)) & 1) {
            return false;
        }
    }
    return true;
}

static void run_filter(pt_t *t)
{
    t_scope;
    bool v6 = pt_bool(t), has_mask = P(80);
    byte net[16], pe[16];
    int bits = v6 ? 128 : 32, mask = P(10) ? bits : P(10) ? 0 : U(bits + 1);
    char txt[120], *h;
    addr_filter_t f;
    sockunion_t su;
    int n, res;
    bool exp;

    for (int i = 0; i < 16; i++) {
        net[i] = P(30) ? 0 : U(256);
    }
    if (v6 && net[0] == 0) {
        net[0] = 0x20;
    }
    inet_ntop(v6 ? AF_INET6 : AF_INET, net, txt, sizeof(txt));
    n = strlen(txt);
    if (has_mask) {
        n += (sprintf)(txt + n, "/%d", mask);
    } else {
        mask = bits;
    }
    h = (malloc)(n);
    memcpy(h, txt, n);
    pt_note(t, "%s", txt);
    memset(&f, 0x5a, sizeof(f));
    res = addr_filter_build(LSTR_INIT_V(h, n), &f);
    PT_CHECK(t, res >= 0, "addr_filter_build(%s)", txt);
    PT_CHECK(t, f.port == 0, "port");
    (free)(h);
    for (int k = 0; k < 6; k++) {
        int port = U(65536);
        bool same_fam = P(92);

        memcpy(pe, net, 16);
        if (P(70)) {
            int at = P(60) ? mask - 2 + (int)U(4) : (int)U(bits);

            if (at >= 0 && at < bits) {
                pe[at / 8] ^= 0x80 >> (at % 8);
            }
        }
        if (P(30)) {
            for (int i = mask; i < bits; i++) {
                if (pt_bool(t)) {
                    pe[i / 8] ^= 0x80 >> (i % 8);
                }
            }
        }
        f.port = P(80) ? 0 : P(50) ? port : U(65536);
        memset(&su, 0, sizeof(su));
        if (v6 == same_fam) {
            su.sin6.sin6_family = AF_INET6;
            memcpy(&su.sin6.sin6_addr, pe, 16);
        } else {
            su.sin.sin_family = AF_INET;
            memcpy(&su.sin.sin_addr, pe, 4);
        }
        sockunion_setport(&su, port);
        exp = same_fam && bits_match(net, pe, mask)
            && (!f.port || f.port == port);
        if (same_fam) {
            pt_nontrivial(t);
        }
        PT_CHECK(t, addr_filter_matches(&f, &su) == (exp ? 0 : -1),
                 "%s (port %d) on %s: %s", txt, f.port, t_addr_fmt(&su, NULL),
                 exp ? "does not match" : "matches");
    }
    /* refused */
    {
        static const char *bad[] = { "/33", "/-1", "/x", "/1x", "/129", "x",
                                     "/8/8", "/ ", "/99999999999" };
        int k = U(countof(bad));

        inet_ntop(v6 ? AF_INET6 : AF_INET, net, txt, sizeof(txt));
        strcat(txt, bad[k]);
        if (v6 && k == 0) {
            return;
        }
        PT_CHECK(t, addr_filter_build(LSTR(txt), &f) < 0,
                 "addr_filter_build(%s) accepted", txt);
    }
}

/* }}} */
/* {{{ url */

static void rnd_word(pt_t *t, char *s, const char *set, int max)
{
    int n = 1 + pt_size(t, max - 1);
    int m = strlen(set);

    for (int i = 0; i < n; i++) {
        s[i] = set[U(m)];
    }
    s[n] = 0;
}

static void run_url(pt_t *t)
{
    char host[700], user[700] = "", pass[700] = "", path[1200] = "",
         args[1200] = "", txt[6000], *h;
    bool https = P(30), allow = P(60), cred = P(30), hasport = P(40);
    bool ok = true;
    int port = P(10) ? 0 : P(10) ? 65535 + (int)U(3) : 1 + U(65535);
    http_url_t url;
    int res;

    rnd_word(t, host, "abc.-1", P(5) ? 140 : 20);
    if (cred) {
        rnd_word(t, user, "uvw%.", P(5) ? 140 : 10);
        rnd_word(t, pass, "pqr1=?", P(5) ? 140 : 10);
    }
    if (P(70)) {
        path[0] = '/';
        path[1] = 0;
        if (P(80)) {
            rnd_word(t, path + 1, "abc/:@.%20", P(5) ? 550 : 20);
        }
        if (P(50)) {
            args[0] = '?';
            args[1] = 0;
            if (P(80)) {
                rnd_word(t, args + 1, "abc/:@=&?", P(5) ? 550 : 20);
            }
        }
    }
    (sprintf)(txt, "http%s://%s%s%s%s%s", https ? "s" : "", user,
              cred ? ":" : "", pass, cred ? "@" : "", host);
    if (hasport) {
        (sprintf)(txt + strlen(txt), ":%d", port);
        if (port < 1 || port > 65535) {
            ok = false;
        }
        if (P(8)) {
            strcat(txt, "z");
            ok = false;
        }
    }
    strcat(txt, path);
    strcat(txt, args);
    if (https && !allow) {
        ok = false;
    }
    if (strlen(host) >= sizeof(url.host) || strlen(user) >= sizeof(url.user)
    ||  strlen(pass) >= sizeof(url.pass)
    ||  strlen(path) + strlen(args) >= sizeof(url.path))
    {
        ok = false;
        pt_label(t, "too long");
    }
    pt_note(t, "`%.200s` (%d) allow_https=%d", txt, (int)strlen(txt), allow);
    h = (strdup)(txt);
    memset(&url, 0x41, sizeof(url));
    res = parse_http_url(h, allow, &url);
    (free)(h);
    PT_CHECK(t, (res >= 0) == ok, "parse_http_url: %d", res);
    if (ok) {
        pt_nontrivial(t);
        if (!*path) {
            strcpy(path, "/");
        }
        PT_CHECK(t, !strcmp(url.host, host), "host `%s`", url.host);
        PT_CHECK(t, !strcmp(url.user, user), "user `%s`", url.user);
        PT_CHECK(t, !strcmp(url.pass, pass), "pass `%s`", url.pass);
        PT_CHECK(t, url.port == (hasport ? port : https ? 443 : 80), "port %d",
                 url.port);
        PT_CHECK(t, !strcmp(url.path_without_args, path), "path `%s`",
                 url.path_without_args);
        PT_CHECK(t, !strcmp(url.args, args), "args `%s`", url.args);
        strcat(path, args);
        PT_CHECK(t, !strcmp(url.path, path), "whole path `%s`", url.path);
    }
    /* damage */
    {
        int n = strlen(txt);

        for (int i = U(4); i >= 0 && n > 0; i--) {
            int at = U(n);
            switch (U(3)) {
              case 0:
                txt[at] = ":/@?0 "[U(6)];
                break;
              case 1:
                txt[n = at] = 0;
                break;
              default:
                memmove(txt + at, txt + at + 1, n - at);
                n--;
                break;
            }
        }
        h = (strdup)(txt);
        memset(&url, 0x41, sizeof(url));
        if (parse_http_url(h, allow, &url) >= 0) {
            PT_CHECK(t, memchr(url.host, 0, sizeof(url.host)) && url.host[0]
                     && memchr(url.user, 0, sizeof(url.user))
                     && memchr(url.pass, 0, sizeof(url.pass))
                     && memchr(url.path, 0, sizeof(url.path))
                     && url.path[0] == '/' && url.port > 0
                     && url.port < 65536, "damaged URL");
        }
        (free)(h);
    }
}

/* }}} */

void pt_setup(void)
{
    e_set_verbosity(-1);
    setenv("HOME", HOME, true);
    if (!getcwd(cwd, sizeof(cwd))) {
        strcpy(cwd, "/");
    }
}

const pt_target_t pt_targets[] = {
    { "split",    run_split,    150000, 6000000, 20 },
    { "simplify", run_simplify, 200000, 9000000, 30 },
    { "extend",   run_extend,    80000, 3000000, 20 },
    { "relative", run_relative, 100000, 5000000, 20 },
    { "addr",     run_addr,      40000, 2000000, 20 },
    { "filter",   run_filter,    60000, 2000000, 20 },
    { "url",      run_url,      100000, 5000000, 30 },
};
const int pt_targets_len = countof(pt_targets);
