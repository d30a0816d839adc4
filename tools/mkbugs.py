#!/usr/bin/env python3
"""Writes and validates /verif/seeded/<id>/ from the specifications in tools/bugs/*.py.

Each specification file defines BUGS, a list of dicts: id, property, needs,
what_it_breaks, edits [(file, old, new), ...] and demo (Python source).

usage: mkbugs.py [ID ...]
"""
import glob, json, os, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = 'dbb565d'
DEMO_SH = '''#!/bin/bash
# cwd: the repository
here="$(cd "$(dirname "$0")" && pwd)"
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec timeout 250 /opt/venv/bin/python "$here/demo.py"
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), text=True,
                          capture_output=True, **kw)


def main(only):
    bugs = []
    for f in sorted(glob.glob(os.path.join(ROOT, 'tools/bugs/*.py'))):
        ns = {}
        exec(open(f).read(), ns)
        bugs += ns['BUGS']
    ids = [b['id'] for b in bugs]
    assert len(ids) == len(set(ids)), 'duplicate id'
    tests = json.load(open('/opt/vp/BASELINE.json'))
    bad = 0
    for b in bugs:
        if only and b['id'] not in only:
            continue
        w = tempfile.mkdtemp(prefix='bug', dir='/tmp')
        r = os.path.join(w, 'repo')
        try:
            sh(['cp', '-a', '/repo', r])
            sh('git checkout -q -- . ; find . -name __pycache__ -prune -exec rm -r {} +', cwd=r)
            d = os.path.join(w, 'demo')
            os.mkdir(d)
            open(d + '/demo.py', 'w').write(b['demo'].lstrip('\n'))
            open(d + '/demo.sh', 'w').write(DEMO_SH)
            os.chmod(d + '/demo.sh', 0o755)
            p0 = sh(['bash', d + '/demo.sh'], cwd=r)
            msgs = []
            if p0.returncode:
                msgs.append('demo fails unpatched: ' + (p0.stdout + p0.stderr)[-600:])
            for f, old, new in b['edits']:
                s = open(os.path.join(r, f)).read()
                if s.count(old) != 1:
                    msgs.append('edit matches %d times: %r' % (s.count(old), old))
                    continue
                open(os.path.join(r, f), 'w').write(s.replace(old, new))
            patch = sh('git diff', cwd=r).stdout
            if not patch:
                msgs.append('no change')
            # the changed lines must be original ones
            blame_ok = False
            for f, old, new in b['edits']:
                bl = sh(['git', 'blame', '-s', BASE + '..HEAD', 'HEAD', '--', f], cwd=r) \
                    if False else sh(['git', 'blame', '-s', 'HEAD', '--', f], cwd=r)
                lines = bl.stdout.splitlines()
                pd = sh(['git', 'diff', '-U0', '--', f], cwd=r).stdout
                import re
                for m in re.finditer(r'^@@ -(\d+)(?:,(\d+))? ', pd, re.M):
                    a, n = int(m.group(1)), int(m.group(2) or 1)
                    for ln in lines[a - 1:a - 1 + n]:
                        c = ln.split()[0].lstrip('^')
                        isbase = sh(['git', 'merge-base', '--is-ancestor', c, BASE], cwd=r).returncode == 0
                        if isbase:
                            blame_ok = True
                        else:
                            print('   %s touches own line: %s' % (b['id'], ln[:110]))
            if not blame_ok:
                msgs.append('touches no original line')
            p1 = sh(['bash', d + '/demo.sh'], cwd=r)
            if p1.returncode == 0:
                msgs.append('demo passes with the patch')
            t = sh(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider',
                    '--deselect', 'nothing', 'tests'], cwd=r) if False else None
            out = os.path.join(w, 'out.json')
            t = sh('sed "s#/repo#%s#g" /opt/vp/test.sh > %s/test.sh; bash %s/test.sh %s' % (r, w, w, out), cwd=r)
            try:
                res = json.load(open(out))
                failing = stable_failing(tests, res)
                if failing:
                    msgs.append('stable tests fail: %s' % failing[:5])
            except Exception as e:
                msgs.append('tests: %r %s' % (e, (t.stdout + t.stderr)[-400:]))
            if msgs:
                bad += 1
                print('BAD', b['id'], b['property'], *msgs, sep='\n    ')
                continue
            o = os.path.join(ROOT, 'seeded', b['id'])
            shutil.rmtree(o, ignore_errors=True)
            os.makedirs(o)
            open(o + '/patch.diff', 'w').write(patch)
            for f in 'demo.py', 'demo.sh':
                shutil.copy(os.path.join(d, f), o)
            json.dump({k: b[k] for k in ('property', 'needs', 'what_it_breaks')},
                      open(o + '/meta.json', 'w'), indent=1)
            print('ok', b['id'], b['property'], (p1.stdout + p1.stderr).strip().splitlines()[-1:])
        finally:
            shutil.rmtree(w, ignore_errors=True)
    print('bad:', bad)


def stable_failing(base, res):
    def names(x, key):
        return x.get(key, []) if isinstance(x, dict) else []
    stable = base.get('stable') or base.get('pass') or base.get('passed') or base.get('tests')
    passed = set(res.get('passed') or res.get('pass') or [])
    return [t for t in stable if t not in passed]


main(sys.argv[1:])
