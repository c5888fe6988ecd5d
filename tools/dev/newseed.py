#!/usr/bin/env python3
"""newseed.py FILE.json: writes seeded/<id>/ from a description:
{id, property, needs, what_it_breaks, edits:[[file, old, new]...], demo_c | demo_sh}.
Development tool, used by no check."""
import json, os, subprocess, sys, shutil
SH = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'demo.sh')).read()
def make(d):
    out = os.environ.get('SEEDV', '/verif') + '/seeded/' + d['id']
    os.makedirs(out, exist_ok=True)
    a, b = '/tmp/ns/a', '/tmp/ns/b'
    shutil.rmtree('/tmp/ns', ignore_errors=True)
    for f, old, new in d['edits']:
        src = subprocess.check_output(['git', '-C', os.environ.get('SEEDR', '/repo'), 'show', 'HEAD:' + f], text=True)
        for r in (a, b):
            p = os.path.join(r, f); os.makedirs(os.path.dirname(p), exist_ok=True)
            if not (r == b and os.path.exists(p)):
                open(p, 'w').write(src)
        p = os.path.join(b, f); s = open(p).read()
        assert s.count(old) == 1, (d['id'], f, s.count(old), old)
        open(p, 'w').write(s.replace(old, new))
    r = subprocess.run(['git', 'diff', '--no-index', '--no-prefix', 'a', 'b'], cwd='/tmp/ns', capture_output=True, text=True).stdout
    r = r.replace('diff --git a/', 'diff --git a/')
    lines = []
    for l in r.split('\n'):
        if l.startswith('diff --git'):
            x = l.split(); l = 'diff --git a/%s b/%s' % (x[2][2:], x[3][2:])
        elif l.startswith('--- a/') or l.startswith('+++ b/'):
            pass
        lines.append(l)
    open(out + '/patch.diff', 'w').write('\n'.join(lines))
    subprocess.check_call(['git', '-C', os.environ.get('SEEDR', '/repo'), 'apply', '--check', out + '/patch.diff'])
    if 'demo_c' in d:
        open(out + '/demo.c', 'w').write(d['demo_c'])
        open(out + '/demo.sh', 'w').write(SH)
    else:
        open(out + '/demo.sh', 'w').write(d['demo_sh'])
    os.chmod(out + '/demo.sh', 0o755)
    json.dump({k: d[k] for k in ('property', 'needs', 'what_it_breaks')}, open(out + '/meta.json', 'w'), indent=1)
    shutil.rmtree('/tmp/ns')
if __name__ == '__main__':
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    for d in ns['BUGS']:
        if len(sys.argv) > 2 and d['id'] not in sys.argv[2:]: continue
        make(d); print(d['id'])
