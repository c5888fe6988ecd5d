#!/usr/bin/env python3
"""Run the check of one property.

  tools/check.py C01                 (tier from VERIF_TIER, seed from VERIF_SEED)
  tools/check.py replay C01 FILE     (re-run one saved failing case)
  tools/check.py build [C01...]      (build only)

Exit 0: held on everything explored; 1: violation, with a VIOLATION line;
2: the check itself could not run.
"""
import json
import os
import os.path as osp
import shutil
import subprocess
import sys
import tempfile
import time

HERE = osp.dirname(osp.abspath(__file__))
VERIF = osp.dirname(HERE)
sys.path.insert(0, HERE)
import vbuild                      # noqa: E402
from registry import CHECKS        # noqa: E402

EVID = osp.join(VERIF, 'evidence')


def known_findings(pid):
    """[(key, text)] of the findings recorded, not repaired"""
    res = []
    path = osp.join(VERIF, 'known-findings.txt')
    if not osp.exists(path):
        return res
    for line in open(path):
        line = line.strip()
        if not line.startswith('finding:'):
            continue
        f = line.split(None, 3)
        if f[1] == 'property=' + pid and f[2].startswith('key='):
            res.append((f[2][4:], f[3] if len(f) > 3 else ''))
    return res


def build(pid, log=sys.stderr):
    bins = []
    builders = {}
    for h in CHECKS[pid]['harnesses']:
        fl = h.get('flavor', 'san')
        if fl not in builders:
            b = vbuild.Builder(fl)
            b.build_lib()
            builders[fl] = b
        b = builders[fl]
        objs = []
        if 'tstiop' in h.get('needs', ()):
            objs += b.build_tstiop()
        if h.get('viop'):
            objs += b.build_viop(h['viop'])
        srcs = ['pt.c'] + h['srcs']
        bins.append(b.harness(h['name'], srcs, objs + b.objs,
                              h.get('cflags', ()),
                              vbuild.LIBS + h.get('libs', [])))
        # other locks are per flavor: same lock file, released at close
        b.close()
        del builders[fl]
    return bins


def run_bin(path, args, tmp, pid, timeout):
    env = dict(os.environ)
    env['PT_KNOWN'] = ' '.join(k for k, _ in known_findings(pid))
    env['LC_ALL'] = 'C.UTF-8'
    env['TZ'] = 'UTC'
    env['VERIF_TREE'] = osp.join(vbuild.OUT, 'tree')
    for v in ('IS_DEBUG', 'ASAN_OPTIONS', 'UBSAN_OPTIONS', 'TSAN_OPTIONS'):
        env.pop(v, None)
    env.setdefault('HOME', tmp)
    try:
        p = subprocess.run([path] + args, env=env, cwd=tmp, timeout=timeout,
                           stdin=subprocess.DEVNULL,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        return 124, e.stdout or b'', e.stderr or b''


def check(pid):
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    scale = int(os.environ.get('VERIF_SCALE', '100'))
    spec = CHECKS[pid]
    os.makedirs(EVID, exist_ok=True)
    try:
        bins = build(pid)
    except vbuild.BuildError as e:
        print('build failed:\n%s' % e)
        return 2
    built = time.time() - t0
    known = known_findings(pid)
    targets, rules, violations, notes = [], [], [], []
    status = 0
    for h, path in zip(spec['harnesses'], bins):
        wall = h.get('wall', {}).get(tier, 150 if tier == 'quick' else 1500)
        tmp = tempfile.mkdtemp(prefix='verif-%s-' % pid)
        try:
            out = osp.join(tmp, 'out.json')
            wd = osp.join(tmp, 'w')
            os.mkdir(wd)
            args = ['-o', out, '-d', wd, '-s', str(seed), '-T', tier,
                    '-x', str(scale), '-L', str(wall)]
            if os.environ.get('VERIF_TARGET'):
                args += ['-t', os.environ['VERIF_TARGET']]
            code, so, se = run_bin(path, args, wd, pid, wall * 3 + 300)
            try:
                res = json.load(open(out))
            except Exception:
                res = None
            if code not in (0, 1) or res is None:
                print('%s ended with status %s\n%s%s' % (
                    h['name'], code, so.decode('utf8', 'replace')[-2000:],
                    se.decode('utf8', 'replace')[-3000:]))
                status = 2
                continue
            rules.append(res['rule'])
            for t in res['targets']:
                t['harness'] = h['name']
                if 'flaky' in t:
                    notes.append('unreproduced failure in %s: %s' % (
                        t['name'], t['flaky']))
                f = t.get('failure')
                if f:
                    rp = osp.join(EVID, 'replays')
                    os.makedirs(rp, exist_ok=True)
                    dst = osp.join(rp, '%s-%s.tape' % (pid, t['name']))
                    shutil.copyfile(f['replay'], dst)
                    f['replay'] = dst
                    violations.append((t['name'], f, dst))
                targets.append(t)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    samples = []
    for t in targets:
        for s in t.pop('samples', [])[:2]:
            samples.append('[%s] %s' % (t['name'], s))
    known_hits = {}
    for t in targets:
        for lab, n in t.get('labels', {}).items():
            if lab.startswith('known:'):
                known_hits[lab[6:]] = known_hits.get(lab[6:], 0) + n
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': sum(t['cases'] for t in targets),
            'distinct_nontrivial': sum(t['distinct_nontrivial']
                                       for t in targets),
            'rule': ' // '.join(rules),
            'samples': samples[:12],
            'targets': targets,
            'known_finding_hits': known_hits,
            'build_s': round(built, 1),
        },
        'assumptions': spec.get('assumptions', []) + notes,
        'wall_s': round(time.time() - t0, 2),
        'violations': len(violations),
    }
    if status == 0 or violations:
        tmpf = osp.join(EVID, '.%s.tmp' % pid)
        with open(tmpf, 'w') as f:
            json.dump(ev, f, indent=1)
        os.replace(tmpf, osp.join(EVID, '%s.json' % pid))
    for k, text in known:
        print('KNOWN-FINDING: property=%s %s: %s' % (pid, k, text))
    for n in notes:
        print('note: %s' % n[:1500])
    for t in targets:
        print('%-28s cases=%d nontrivial=%d (distinct %d) edges=%d %.1fs%s' % (
            t['name'], t['cases'], t['nontrivial'], t['distinct_nontrivial'],
            t['edges'], t['wall_s'],
            '' if t['cases'] >= t['planned'] else
            ' (planned %d)' % t['planned']))
    if violations:
        for name, f, dst in violations:
            print('%s: %s %s\n%s' % (name, f['how'], f['msg'],
                                     f['trace'][-3500:]))
        for name, f, dst in violations:
            print('VIOLATION property=%s replay=%s' % (pid, dst))
        return 1
    return status


def replay(pid, path):
    bins = build(pid)
    code = 2
    target = [l.split()[1] for l in open(path) if l.startswith('target ')][0]
    for h, b in zip(CHECKS[pid]['harnesses'], bins):
        tmp = tempfile.mkdtemp(prefix='verif-%s-' % pid)
        try:
            c, so, se = run_bin(b, ['-d', tmp, '-r', osp.abspath(path)], tmp,
                                pid, 600)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        if b'bad replay file' in se:
            continue
        sys.stdout.write(so.decode('utf8', 'replace'))
        sys.stdout.write(se.decode('utf8', 'replace'))
        code = c
        if c == 1:
            print('VIOLATION property=%s replay=%s' % (pid, path))
        break
    return code


def main(argv):
    if not argv:
        print(__doc__)
        return 2
    if argv[0] == 'replay':
        return replay(argv[1], argv[2])
    if argv[0] == 'build':
        for pid in argv[1:] or sorted(CHECKS):
            build(pid)
        return 0
    return check(argv[0])


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
