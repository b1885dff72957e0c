#!/usr/bin/env python3
"""Works on planted bugs (never part of a check).

  seed.py make SPEC.py [id..]   creates seeded/<id>/ from SPEC.py's list
  seed.py confirm [id..]        builds, tests and demonstrates each in a scratch copy
  seed.py check [id..]          runs the bug's check against a scratch copy
  seed.py checkall ID PROP..    runs other checks against one bug
"""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, 'seeded')
DEMO = '''#!/bin/bash
# exit 0: the behaviour is as it should be; nonzero: it is not
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$t"' EXIT
for s in %s; do
  g++ -w -std=$s %s -I include "$d/demo.cpp" -o "$t/demo" || exit 1
  "$t/demo" || exit 1
done
exit 0
'''


def sh(*a, **k):
    return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def scratch():
    d = tempfile.mkdtemp(prefix='seed.', dir='/tmp')
    os.mkdir(d + '/vp')
    sh('bash', '-c', 'cd /repo && git ls-files -z | xargs -0 cp -a --parents -t %s/repo' % d, env=dict(os.environ)) if False else None
    r = sh('git', 'clone', '-q', '/repo', d + '/repo')
    assert r.returncode == 0, r.stdout
    for f in ('build.sh', 'test.sh', 'driver.py', 'results.py'):
        t = open('/opt/vp/' + f).read().replace('/opt/vp', d + '/vp').replace('/repo', d + '/repo')
        open(d + '/vp/' + f, 'w').write(t)
    shutil.copytree('/opt/vp/cmake', d + '/vp/cmake')
    for root, _, fs in os.walk(d + '/vp/cmake'):
        for f in fs:
            p = os.path.join(root, f)
            t = open(p).read()
            open(p, 'w').write(t.replace('/repo', d + '/repo'))
    return d


def make(spec, ids):
    g = {}
    exec(open(spec).read(), g)
    d = scratch()
    for b in g['BUGS']:
        if ids and b['id'] not in ids:
            continue
        sh('git', 'checkout', '-q', '.', cwd=d + '/repo')
        for f, old, new in b['edits']:
            p = d + '/repo/' + (f if f.startswith('include') else 'include/boost/metaparse/v1/' + f)
            t = open(p).read()
            if t.count(old) < 1:
                print(b['id'], 'edit does not apply to', f, repr(old))
                break
            open(p, 'w').write(t.replace(old, new, 1))
        else:
            o = os.path.join(S, b['id'])
            os.makedirs(o, exist_ok=True)
            open(o + '/patch.diff', 'w').write(subprocess.run(['git', 'diff'], cwd=d + '/repo', stdout=subprocess.PIPE, text=True).stdout)
            open(o + '/demo.cpp', 'w').write(b['demo'])
            open(o + '/demo.sh', 'w').write(b.get('sh') or DEMO % (b.get('stds', 'c++98 c++11 c++14 c++17'), b.get('flags', '')))
            os.chmod(o + '/demo.sh', 0o755)
            json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']},
                      open(o + '/meta.json', 'w'), indent=1)
    shutil.rmtree(d)


def patched(d, i):
    sh('git', 'checkout', '-q', '.', cwd=d + '/repo')
    r = sh('git', 'apply', os.path.join(S, i, 'patch.diff'), cwd=d + '/repo')
    assert r.returncode == 0, r.stdout


def confirm(ids):
    d = scratch()
    base = set(json.load(open('/opt/vp/BASELINE.json')).get('passed') or json.load(open('/opt/vp/BASELINE.json')).get('stable') or [])
    for i in ids:
        r0 = sh('bash', os.path.join(S, i, 'demo.sh'), cwd='/repo')
        patched(d, i)
        rb = sh('bash', d + '/vp/build.sh')
        rt = sh('bash', d + '/vp/test.sh', d + '/out.json')
        res = json.load(open(d + '/out.json'))
        r1 = sh('bash', os.path.join(S, i, 'demo.sh'), cwd=d + '/repo')
        ok = r0.returncode == 0 and rb.returncode == 0 and not res['failed'] and r1.returncode != 0
        print(i, 'OK' if ok else 'BAD', 'demo-clean=%d build=%d passed=%d failed=%s demo-bug=%d' % (
            r0.returncode, rb.returncode, len(res['passed']), res['failed'][:6], r1.returncode), flush=True)
        if r0.returncode:
            print(r0.stdout[:1500])
        if rb.returncode:
            print(rb.stdout[-800:])
    shutil.rmtree(d)


def check(ids, props=None):
    d = scratch()
    for i in ids:
        patched(d, i)
        for p in props or [json.load(open(os.path.join(S, i, 'meta.json')))['property']]:
            e = dict(os.environ, VP_REPO=d + '/repo')
            r = sh('python3', os.path.join(V, 'check.py'), p, env=e, cwd=V)
            l = [x for x in r.stdout.splitlines() if 'VIOLATION' in x or 'library gave' in x]
            print(i, p, {0: 'MISSED', 1: 'caught'}.get(r.returncode, 'ERROR %s' % r.returncode), flush=True)
            if r.returncode not in (0, 1):
                print(r.stdout[-1500:])
            elif os.environ.get('VERBOSE'):
                print('\n'.join(r.stdout.splitlines()[-8:]))
    shutil.rmtree(d)


cmd, args = sys.argv[1], sys.argv[2:]
if cmd == 'make':
    make(args[0], args[1:])
elif cmd == 'confirm':
    confirm(args or sorted(os.listdir(S)))
elif cmd == 'check':
    check(args or sorted(os.listdir(S)))
elif cmd == 'checkall':
    check([args[0]], args[1:])
