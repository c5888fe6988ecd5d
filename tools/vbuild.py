#!/usr/bin/env python3
"""Out-of-tree, content-addressed build of /repo for the checks.

A symlink farm mirrors /repo's non-generated files (so that what is compiled
is always /repo's working tree, and never a stale generated file that lies
next to the sources), generated files are produced inside the farm by the
tools built from the same tree (farchc, iopc, tokens.sh, flex, gperf), and
objects are keyed by the contents of everything they were compiled from.
"""
import concurrent.futures as cf
import fcntl
import hashlib
import json
import os
import os.path as osp
import shutil
import subprocess
import sys
import threading

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = osp.dirname(osp.dirname(osp.abspath(__file__)))
OUT = os.environ.get('VERIF_BUILD', osp.join(VERIF, 'build'))
JOBS = int(os.environ.get('VERIF_JOBS', '8'))

BASE = ['-std=gnu11', '-fblocks', '-fno-caret-diagnostics',
        '-ferror-limit=8', '-funsigned-char', '-fno-strict-aliasing',
        '-fwrapv', '-w', '-march=x86-64-v2', '-D_GNU_SOURCE',
        '-DHAS_LIBCOMMON_REPOSITORY=0',
        '-DHAVE_LIBXML=1', '-DHAVE_OPENSSL=1', '-DHAVE_ZLIB=1',
        '-fno-omit-frame-pointer', '-fvisibility=hidden', '-gline-tables-only']
FLAVORS = {
    # memory errors are visible, edge counters and compared constants feed
    # the engine's search
    'san': dict(
        cflags=['-O1', '-fsanitize=address',
                '-fsanitize=bounds,shift-exponent,integer-divide-by-zero,'
                'unreachable,bool',
                '-fno-sanitize-recover=all',
                '-fsanitize-coverage=inline-8bit-counters,trace-cmp'],
        hcflags=['-O1', '-fsanitize=address'],
        ldflags=['-fsanitize=address,undefined']),
    'tsan': dict(cflags=['-O1', '-fsanitize=thread'],
                 hcflags=['-O1', '-fsanitize=thread'],
                 ldflags=['-fsanitize=thread']),
    'plain': dict(cflags=['-O2', '-DHAVE_VALGRIND=1', '-I/usr/include/valgrind',
                          '-fPIC'],
                  hcflags=['-O2', '-fPIC'], ldflags=[]),
}
LIBS = ['-lxml2', '-lssl', '-lcrypto', '-lz', '-lpthread', '-ldl', '-lm',
        '-lrt']


class BuildError(Exception):
    pass


class FakeCtx:
    """Reads the wscript_build files: only the source lists matter."""

    def __init__(self):
        self.libs = {}
        self.dir = ''
        self.env = type('E', (), {'__getattr__': lambda s, n: False})()

    def stlib(self, target=None, source=(), **kw):
        if isinstance(source, str):
            source = source.split()
        self.libs[target] = [osp.normpath(osp.join(self.dir, s))
                             for s in source]

    def UseGroup(self, *a, **k):
        import contextlib
        return contextlib.nullcontext()

    def recurse(self, *a, **k):
        pass

    def __call__(self, *a, **k):
        return self

    def __getattr__(self, name):
        return lambda *a, **k: self

    def read(self, root, d):
        self.dir = d
        path = osp.join(root, d, 'wscript_build')
        code = compile(open(path).read(), path, 'exec')
        exec(code, {'ctx': self, 'bld': self})


_hash_memo = {}


def fhash(path):
    h = _hash_memo.get(path)
    if h is None:
        try:
            with open(path, 'rb') as f:
                h = hashlib.sha256(f.read()).hexdigest()
        except OSError:
            h = 'absent'
        _hash_memo[path] = h
    return h


def sh(text):
    return hashlib.sha256(text.encode()).hexdigest()[:24]


class Builder:
    def __init__(self, flavor='san', log=sys.stderr):
        self.flavor = flavor
        self.fl = FLAVORS[flavor]
        self.tree = osp.join(OUT, 'tree')
        self.obj = osp.join(OUT, 'obj-' + flavor)
        self.log = log
        self.ran = 0
        self.lock = threading.Lock()
        os.makedirs(self.tree, exist_ok=True)
        os.makedirs(self.obj, exist_ok=True)
        self.lockf = open(osp.join(OUT, '.lock'), 'w')
        fcntl.flock(self.lockf, fcntl.LOCK_EX)
        self.dbp = osp.join(OUT, 'db-%s.json' % flavor)
        try:
            self.db = json.load(open(self.dbp))
        except Exception:
            self.db = {}

    def save(self):
        tmp = self.dbp + '.tmp'
        with open(tmp, 'w') as f:
            json.dump(self.db, f)
        os.replace(tmp, self.dbp)

    def run(self, cmd, cwd=None, env=None, shell=False):
        self.ran += 1
        e = dict(os.environ)
        e['ASAN_OPTIONS'] = 'detect_leaks=0'
        e['LC_ALL'] = 'C.UTF-8'
        e['IOP_DISABLE'] = ''
        if env:
            e.update(env)
        p = subprocess.run(cmd, cwd=cwd or self.tree, env=e, shell=shell,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            raise BuildError('command failed (%d): %s\n%s' % (
                p.returncode, cmd if shell else ' '.join(cmd),
                p.stdout.decode('utf8', 'replace')[:3000]))
        return p.stdout

    # {{{ farm

    def sync(self):
        out = subprocess.run(
            ['git', '-c', 'safe.directory=*', '-C', REPO, 'ls-files', '-z',
             '-co', '--exclude-standard', 'src', 'tests/iop', 'tests/iopc',
             'tests/iopy', 'build', 'tests/samples', 'tests/test-data'],
            stdout=subprocess.PIPE, check=True).stdout.decode()
        want = set()
        for f in out.split('\0'):
            if not f or f.endswith('.so'):
                continue
            full = osp.join(REPO, f)
            if not osp.lexists(full):
                continue
            want.add(f)
            dst = osp.join(self.tree, f)
            if f.endswith('.iop'):
                # iopc resolves symbolic links: plain copies, by content
                if osp.islink(dst) or fhash(dst) != fhash(full):
                    os.makedirs(osp.dirname(dst), exist_ok=True)
                    if osp.lexists(dst):
                        os.unlink(dst)
                    shutil.copyfile(full, dst)
                    _hash_memo.pop(dst, None)
                continue
            if osp.islink(dst):
                if os.readlink(dst) == full:
                    continue
                os.unlink(dst)
            elif osp.exists(dst):
                os.unlink(dst)
            os.makedirs(osp.dirname(dst), exist_ok=True)
            os.symlink(full, dst)
        extra = {'lib-common': 'src',
                 'src/core/str-l-obfuscate.c': 'str-l-obfuscate-default.c',
                 'src/iop/ic-cert.pem': 'ic-cert-default.pem',
                 'src/iop/ic-key.pem': 'ic-key-default.pem'}
        for f, t in extra.items():
            dst = osp.join(self.tree, f)
            if not osp.islink(dst):
                os.makedirs(osp.dirname(dst), exist_ok=True)
                os.symlink(t, dst)
            want.add(f)
        # symlinks into /repo that are not wanted any more
        for d, dirs, files in os.walk(self.tree):
            for n in files:
                p = osp.join(d, n)
                if osp.islink(p) and osp.relpath(p, self.tree) not in want:
                    os.unlink(p)
        # A generated file that later became a source (or the opposite) is
        # handled above; generated leftovers are harmless, nothing lists them.

    # }}}
    # {{{ one step

    def step(self, name, cmds, inputs, outputs, depfile=None, cwd=None,
             shell=False, env=None):
        """Run cmds if the content of inputs (and of the dependencies seen
        last time) changed.  Outputs are kept in the object store, by key."""
        cmds = [c if shell else list(c) for c in cmds]
        sig = json.dumps([cmds, self.flavor])
        ent = self.db.setdefault(name, [])
        for rec in ent:
            key = self.key(sig, rec['deps'])
            if key == rec['key'] and all(
                    osp.exists(o) for o in rec['store']):
                for o, s in zip(outputs, rec['store']):
                    self.place(s, o)
                if rec is not ent[0]:
                    with self.lock:
                        ent.remove(rec)
                        ent.insert(0, rec)
                return
        for o in outputs:
            os.makedirs(osp.dirname(o), exist_ok=True)
            if osp.lexists(o):
                os.unlink(o)
        for c in cmds:
            self.run(c, cwd=cwd, shell=shell, env=env)
        deps = list(inputs)
        if depfile:
            deps += self.read_deps(depfile, cwd or self.tree)
            os.unlink(depfile)
        deps = sorted(set(deps))
        for o in outputs:
            _hash_memo.pop(o, None)
        key = self.key(sig, deps)
        store = []
        for i, o in enumerate(outputs):
            s = osp.join(self.obj, 'store', key[:2], '%s-%d' % (key, i))
            os.makedirs(osp.dirname(s), exist_ok=True)
            tmp = s + '.tmp%d' % threading.get_ident()
            shutil.copy2(o, tmp)
            os.replace(tmp, s)
            store.append(s)
        with self.lock:
            ent.insert(0, dict(deps=deps, key=key, store=store))
            for old in ent[4:]:
                for s in old['store']:
                    try:
                        os.unlink(s)
                    except OSError:
                        pass
            del ent[4:]

    def key(self, sig, deps):
        return sh(sig + ''.join('%s=%s\n' % (d, fhash(d)) for d in deps))

    def place(self, s, o):
        # same content already in place?
        if osp.exists(o) and not osp.islink(o) and fhash(o) == fhash(s):
            return
        os.makedirs(osp.dirname(o), exist_ok=True)
        if osp.lexists(o):
            os.unlink(o)
        shutil.copy2(s, o)
        _hash_memo.pop(o, None)

    def read_deps(self, depfile, cwd):
        txt = open(depfile).read().replace('\\\n', ' ')
        txt = txt.split(':', 1)[1]
        res = []
        for d in txt.split():
            p = d if d.startswith('/') else osp.join(cwd, d)
            p = osp.normpath(p)
            if p.startswith(('/usr/', '/lib/')):
                continue
            res.append(p)
        return res

    def parallel(self, fns):
        errs = []
        with cf.ThreadPoolExecutor(JOBS) as ex:
            futs = [ex.submit(f) for f in fns]
            for f in futs:
                try:
                    f.result()
                except BuildError as e:
                    errs.append(e)
        self.save()
        if errs:
            raise errs[0]

    # }}}
    # {{{ rules

    def incs(self):
        return ['-I' + self.tree, '-I' + osp.join(self.tree, 'src/compat'),
                '-I/usr/include/libxml2']

    def cc(self, src, extra=()):
        """src relative to the tree, or absolute; returns the object path"""
        ab = src if src.startswith('/') else osp.join(self.tree, src)
        name = src.strip('/').replace('/', '__')
        o = osp.join(self.obj, 'o', name + '.o')
        d = o + '.d'
        if src.startswith('/'):
            fl = self.fl['hcflags']
        else:
            fl = self.fl['cflags']
        cmd = ['clang', '-x', 'c'] + BASE + fl + self.incs() + list(extra) + \
            ['-MD', '-MF', d, '-c', ab, '-o', o]
        self.step('cc:' + src, [cmd], [ab], [o], depfile=d)
        return o

    def compile_all(self, srcs, extra=()):
        objs = [None] * len(srcs)

        def one(i):
            objs[i] = self.cc(srcs[i], extra)
        self.parallel([lambda i=i: one(i) for i in range(len(srcs))])
        return objs

    def ar(self, name, objs):
        out = osp.join(self.obj, 'lib%s.a' % name)
        rsp = out + '.rsp'
        with open(rsp, 'w') as f:
            f.write('\n'.join(objs))
        self.step('ar:' + name, [['ar', 'crsD', out, '@' + rsp]],
                  list(objs) + [rsp], [out])
        return out

    def link(self, name, objs, libs=LIBS):
        out = osp.join(OUT, 'bin', '%s-%s' % (name, self.flavor))
        os.makedirs(osp.dirname(out), exist_ok=True)
        rsp = out + '.rsp'
        with open(rsp, 'w') as f:
            f.write('\n'.join(objs))
        cmd = ['clang', '-o', out, '@' + rsp] + self.fl['ldflags'] + \
            ['-Wl,--export-dynamic'] + libs
        self.step('link:' + name, [cmd], list(objs) + [rsp], [out])
        return out

    # }}}
    # {{{ generators

    def fc(self, src, farchc):
        ab = osp.join(self.tree, src)
        out = ab + '.c'
        deps = [ab, farchc]
        d = osp.dirname(ab)
        for line in open(ab):
            line = line.strip()
            for w in line.split():
                p = osp.join(d, w)
                if osp.isfile(p):
                    deps.append(p)
        self.step('fc:' + src, [[farchc, '-c', '-o', out, ab]], deps, [out],
                  cwd=d)
        return src + '.c'

    def iop(self, src, iopc, opts=(), incl=()):
        ab = src if src.startswith('/') else osp.join(self.tree, src)
        base = ab[:-len('.iop')]
        outs = [base + '.iop.c', base + '.iop.h', base + '-tdef.iop.h',
                base + '-t.iop.h']
        deps = [ab, iopc] + list(incl)
        self.step('iop:' + src,
                  [[iopc, '--Wextra', '--language', 'c',
                    '--c-resolve-includes'] + list(opts) + [ab]],
                  deps, outs, cwd=osp.dirname(ab))
        return (src + '.c') if not src.startswith('/') else outs[0]

    # }}}

    def build_lib(self):
        self.sync()
        ctx = FakeCtx()
        ctx.read(self.tree, 'src')
        ctx.read(self.tree, 'src/iopc')
        ctx.read(self.tree, 'tests/iop')
        t = self.tree
        # core-version.c: constant content here
        v = osp.join(t, 'src/core-version.c')
        if not osp.exists(v):
            with open(v, 'w') as f:
                f.write('char const libcommon_id[] = "x";\n'
                        'char const libcommon_git_revision[] = "x";\n'
                        'char const libcommon_git_sha1[] = "x";\n')
        # independent generated files
        gen = []

        def hp(what):
            out = osp.join(t, 'src/net/hpack-huffman-%s-table.c' % what)
            s = [osp.join(t, 'src/net', x) for x in
                 ('rfc7541-tables.txt', 'hpack-generate-huffman-tables.py',
                  'hpack-priv.h')]
            self.step('hpack:' + what, [[
                'python3', s[1], 'for-' + what, '--rfc', s[0], '--out', out]],
                s, [out], cwd=osp.join(t, 'src'))
        gen.append(lambda: hp('encoding'))
        gen.append(lambda: hp('decoding'))

        def perf():
            s = osp.join(t, 'src/net/http-hdr.perf')
            o = osp.join(t, 'src/net/http-hdr.c')
            self.step('perf', [['gperf', '--language', 'ANSI-C',
                                '--output-file', o, s]], [s], [o])
        gen.append(perf)

        def tokens(src):
            s = osp.join(t, src)
            b = src[:-len('.tokens')] + 'tokens'
            tk = osp.join(t, 'build/tokens.sh')
            o = [osp.join(t, b + '.c'), osp.join(t, b + '.h')]
            self.step('tok:' + src,
                      ['bash %s %s %s && bash %s %s %s' % (
                          tk, s, osp.basename(o[0]), tk, s,
                          osp.basename(o[1]))],
                      [s, tk], o, shell=True, cwd=osp.dirname(s))
        gen.append(lambda: tokens('src/net/http.tokens'))
        gen.append(lambda: tokens('src/iopc/iopc.tokens'))

        def flex():
            s = osp.join(t, 'src/iopc/iopc-lex.l')
            o = osp.join(t, 'src/iopc/iopc-lex.c')
            f = osp.join(t, 'build/flex.sh')
            self.step('flex', [['sh', f, s, o]], [s, f], [o],
                      cwd=osp.dirname(s))
        gen.append(flex)
        self.parallel(gen)

        minimal = ctx.libs['libcommon-minimal']
        full = ctx.libs['libcommon']
        liopc = ctx.libs['libiopc']
        # first what the generators need, together with everything that
        # includes no .iop.h/.fc/.tokens product
        mo = self.compile_all(minimal)
        farchc = self.link('farchc', [self.cc('src/tools/farchc.c'), self.ar('minimal', mo)])
        fcs = [s for s in full + liopc if s.endswith('.fc')]
        self.parallel([lambda s=s: self.fc(s, farchc) for s in fcs])

        # .fc products are #included
        def keep(lst):
            return [csrc(s) for s in lst if not s.endswith('.fc')]

        def csrc(s):
            if s.endswith('.perf'):
                return s[:-4] + 'c'
            if s.endswith('.l'):
                return s[:-1] + 'c'
            if s.endswith('.tokens'):
                return s[:-len('.tokens')] + 'tokens.c'
            if s.endswith('.iop'):
                return s + '.c'
            return s
        io = self.compile_all(keep(liopc))
        self.iopc = self.link('iopc',
                              [self.cc('src/iopc/iopc.c'),
                               self.ar('iopc', io),
                               self.ar('minimal', mo)])
        iops = ctx.libs['libcommon-iop']
        iopdeps = [osp.join(t, s) for s in iops]
        g = [lambda s=s: self.iop(s, self.iopc, ['--class-id-range=1-499'],
                                  iopdeps) for s in iops]
        g.append(lambda: self.iop('src/iopc/iopsq.iop', self.iopc))
        self.parallel(g)
        snmp = [s for s in ctx.libs.get('iop-snmp', [])]
        sq = [s for s in ctx.libs['libiopsq']]
        rest = self.compile_all(keep(full + iops + snmp + sq))
        self.objs = [self.ar('all', mo + rest + io)]
        self.tst_iops = ctx.libs['tstiop'] + ctx.libs.get('tstiop2', [])
        self.save()
        return self.objs

    def build_tstiop(self):
        deps = [osp.join(self.tree, s) for s in self.tst_iops]
        self.parallel([lambda s=s: self.iop(s, self.iopc, (), deps)
                       for s in self.tst_iops])
        return self.compile_all([s + '.c' for s in self.tst_iops])

    def build_viop(self, names):
        """IOP packages of /verif/iop, generated into the farm"""
        d = osp.join(self.tree, 'viop')
        os.makedirs(d, exist_ok=True)
        for n in names:
            dst = osp.join(d, n)
            src = osp.join(VERIF, 'iop', n)
            if fhash(dst) != fhash(src):
                shutil.copyfile(src, dst)
                _hash_memo.pop(dst, None)
        deps = [osp.join(d, n) for n in names]
        self.parallel([lambda n=n: self.iop('viop/' + n, self.iopc, (), deps)
                       for n in names])
        return self.compile_all(['viop/' + n + '.c' for n in names])

    def harness(self, name, srcs, objs, extra=(), libs=LIBS):
        hs = self.compile_all([s if s.startswith('/') else
                               osp.join(VERIF, 'harness', s) for s in srcs],
                              ['-I' + osp.join(VERIF, 'harness')] +
                              list(extra))
        out = self.link(name, hs + objs, libs)
        self.save()
        return out

    def close(self):
        self.save()
        fcntl.flock(self.lockf, fcntl.LOCK_UN)


if __name__ == '__main__':
    import time
    t0 = time.time()
    b = Builder(sys.argv[1] if len(sys.argv) > 1 else 'san')
    b.build_lib()
    b.build_tstiop()
    b.close()
    print('built in %.1fs, %d commands' % (time.time() - t0, b.ran))
