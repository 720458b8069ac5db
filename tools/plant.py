#!/usr/bin/env python3
"""Developer tool. plant.py mk <spec.py>: write seeded/<id>/ from a spec (ID, PROP, EDITS, DEMO, NEEDS, BREAKS);
plant.py try <id> [props...]: apply to /repo, run tests, demo and checks, undo."""
import ast, json, os, pathlib, re, subprocess, sys
V = pathlib.Path('/verif')
R = os.environ.get('PLANT_REPO', '/repo')


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def clean():
    assert sh('git -C %s status --porcelain' % R).stdout.strip() == '', 'dirty repo'


def span(src, scope):
    if scope is None: return 0, len(src)
    t = ast.parse(src)
    lines = src.splitlines(True); off=[0]
    for l in lines: off.append(off[-1]+len(l))
    node = t
    parts = scope.split('.')
    setter = None
    for p in parts:
        name, _, deco = p.partition('@')
        c = [n for n in node.body if getattr(n,'name',None)==name]
        if deco: c = [n for n in c if any(isinstance(d, ast.Attribute) and d.attr==deco for d in n.decorator_list)]
        assert len(c)>=1, (scope, p)
        node = c[0] if not deco else c[0]
    return off[node.lineno-1], off[node.end_lineno]
def rx(old):
    return r'\s*'.join(re.escape(ch) for ch in old if not ch.isspace())
def edit(root, edits):
    for f, scope, old, new in edits:
        p = pathlib.Path(root)/f; s = p.read_text()
        a,b = span(s, scope) if f.endswith('.py') else (0,len(s))
        seg = s[a:b]
        # skip docstring matches: count
        ms = list(re.finditer(rx(old), seg))
        if len(ms)!=1: return '%s: %d matches for %r in %s' % (f, len(ms), old, scope)
        m = ms[0]
        seg = seg[:m.start()]+new+seg[m.end():]
        p.write_text(s[:a]+seg+s[b:])
        if f.endswith('.py'):
            try: ast.parse(p.read_text())
            except SyntaxError as e: return 'syntax %s' % e
    return None


def mk(path):
    g = {}
    exec(open(path).read(), g)
    clean()
    d = V / 'seeded' / g['ID']
    d.mkdir(parents=True, exist_ok=True)
    try:
        for t in g['EDITS']:
            if len(t) == 4:
                e = edit(R, [t])
                assert not e, e
                continue
            f, old, new = t
            p = pathlib.Path(R) / f
            s = p.read_text()
            assert s.count(old) == 1, (f, old, s.count(old))
            p.write_text(s.replace(old, new))
        (d / 'patch.diff').write_text(sh('git -C %s diff' % R).stdout)
        f = None
        for l in (d / 'patch.diff').read_text().splitlines():       # only lines of the original repository
            if l.startswith('--- a/'):
                f = sh('git -C /repo show c821112:' + l[6:]).stdout.splitlines()
            elif l.startswith('-') and l[1:] not in f:
                print(g['ID'], 'NOT ORIGINAL:', l)
    finally:
        sh('git -C %s checkout -- .' % R)
    (d / 'demo.py').write_text(g['DEMO'].lstrip('\n'))
    (d / 'demo.sh').write_text('#!/bin/bash\n. /opt/vp/env.sh\nexec python "$(dirname "$0")/demo.py"\n')
    (d / 'demo.sh').chmod(0o755)
    (d / 'meta.json').write_text(json.dumps(dict(property=g['PROP'], needs=g['NEEDS'], what_it_breaks=g['BREAKS']), indent=1) + '\n')
    return g['ID']


def attempt(i, props, tests=True):
    clean()
    d = V / 'seeded' / i
    prop = json.loads((d / 'meta.json').read_text())['property']
    native = any(x in (d / 'patch.diff').read_text() for x in ('.pyx', '.cpp'))
    r = sh('bash %s/demo.sh' % d, cwd=R)
    print(i, 'demo clean', r.returncode, r.stdout[-300:], r.stderr[-300:] if r.returncode else '')
    a = sh('git -C /repo apply %s/patch.diff' % d)
    assert a.returncode == 0, a.stderr
    try:
        if native:
            b = sh('bash /opt/vp/build.sh')
            print('build', b.returncode)
        r = sh('bash %s/demo.sh' % d, cwd=R)
        print(i, 'demo patched', r.returncode, (r.stdout + r.stderr).strip()[-200:])
        if tests:
            sh('bash /opt/vp/test.sh /tmp/s/out.json')
            base = json.load(open('/opt/vp/BASELINE.json'))
            o = json.load(open('/tmp/s/out.json'))
            names = base.get('passed') or base.get('tests') or base.get('stable') or base
            bad = [t for t in names if t not in set(o['passed'])] if isinstance(names, list) else '?'
            print(i, 'tests broken:', bad)
        for p in props or [prop]:
            c = sh('./check %s quick' % p, cwd=str(V))
            print(i, p, 'rc', c.returncode, '\n   '.join(c.stdout.strip().splitlines()[:3])[:700], c.stderr[-300:])
    finally:
        sh('git -C %s checkout -- .' % R)
        if native:
            sh('bash /opt/vp/build.sh')
    clean()


if sys.argv[1] == 'mk':
    for p in sys.argv[2:]:
        attempt(mk(p), [])
elif sys.argv[1] == 'mkonly':
    for p in sys.argv[2:]:
        print(mk(p))
elif sys.argv[1] == 'check':
    attempt(sys.argv[2], sys.argv[3:], tests=False)
else:
    attempt(sys.argv[2], sys.argv[3:])
