#!/usr/bin/env python3
"""Development helper: makes and confirms one planted bug under /verif/seeded. No check uses it.

seedtool.py SPEC.py        SPEC defines ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)...], DEMO (demo.sh text), FILES={name: text}
seedtool.py --confirm ID   confirms an existing one again
seedtool.py --catch ID [PROPERTY...]   runs the checks against it in a scratch copy of /repo via VH_REPO
"""
import json, os, shutil, subprocess, sys, tempfile
V = '/verif/seeded'
DEMO_CC = '''#!/bin/bash
set -u
here="$(cd "$(dirname "$0")" && pwd)"
tmp="$(mktemp -d)"; trap 'rm -rf "$tmp"' EXIT
g++ -std=c++20 -O1 -w -I. %(flags)s "$here/demo.cc" %(src)s -o "$tmp/demo" %(libs)s || { echo "demo does not compile"; exit 3; }
"$tmp/demo"
'''
def sh(cmd, cwd=None, timeout=900):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
def boxed(w, cmd, cwd='/repo', timeout=1500):
    """Runs cmd with the scratch copy w in place of /repo, in a mount namespace of its own."""
    inner = f"mount --bind {w} /repo && cd {cwd} && {cmd}"
    return subprocess.run(['unshare', '-Urm', 'bash', '-c', inner], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, errors='replace')
def scratch():
    w = tempfile.mkdtemp(prefix='seed'); sh(f'cp -a /repo/. {w}/'); return w
def confirm(i):
    d = f'{V}/{i}'; w = scratch()
    try:
        q = tempfile.mkdtemp(prefix='seedd'); sh(f'cp -a {d}/. {q}/; rm -f {q}/patch.diff {q}/meta.json')
        r = boxed(w, f'git apply --check {d}/patch.diff'); assert r.returncode == 0, r.stdout
        r = boxed(w, f'bash {q}/demo.sh'); assert r.returncode == 0, 'demo fails on the unchanged tree: ' + r.stdout[-3000:]
        boxed(w, f'git apply {d}/patch.diff')
        r = boxed(w, 'bash /opt/vp/build.sh'); assert r.returncode == 0, 'build: ' + r.stdout[-3000:]
        r = boxed(w, f'bash /opt/vp/test.sh {w}/t.json')
        t = json.load(open(f'{w}/t.json'))
        base = json.load(open('/opt/vp/BASELINE.json'))
        passed = set(t.get('passed', t.get('pass', [])))
        missing = [n for n in base['stable'] if n not in passed]
        assert not missing, f'tests fail: {missing[:5]}'
        r = boxed(w, f'bash {q}/demo.sh'); assert r.returncode not in (0, 3), f'demo with the patch: {r.returncode} {r.stdout[-2000:]}'
        print(i, 'confirmed:', r.stdout.strip()[-200:], flush=True)
        return True
    except AssertionError as e:
        print(i, 'NOT CONFIRMED', e, flush=True); return False
    finally:
        shutil.rmtree(w, ignore_errors=True); shutil.rmtree(q, ignore_errors=True)
def make(spec):
    g = {}; exec(open(spec).read(), g)
    d = f'{V}/{g["ID"]}'; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    w = tempfile.mkdtemp(prefix='seedw'); sh(f'GIT_LFS_SKIP_SMUDGE=1 git clone -q /repo {w}')
    for f, old, new in g['EDITS']:
        s = open(f'{w}/' + f).read(); assert s.count(old) == 1, (f, old, s.count(old)); open(f'{w}/' + f, 'w').write(s.replace(old, new))
    for f, old, new in g['EDITS']:  # ORIGINAL lines only
        base = sh(f'git show 436bc5d:{f}', '/repo').stdout.splitlines()
        for l in old.splitlines():
            if l.strip() and not any(l.strip() in b for b in base): print('not an original line?', f, l)
    open(d + '/patch.diff', 'w').write(sh('git -c filter.lfs.process= -c filter.lfs.clean=cat diff -- ' + ' '.join(e[0] for e in g['EDITS']), w).stdout); shutil.rmtree(w)
    demo = g.get('DEMO')
    flags = g.get('FLAGS', '')
    if g.get('SHIM'):
        shutil.copytree('/verif/shim', d + '/shim'); flags += ' -isystem "$here/shim" -I_build/gen'
    if demo is None: demo = DEMO_CC % dict(flags=flags, src=g.get('SRC', ''), libs=g.get('LIBS', ''))
    open(d + '/demo.sh', 'w').write(demo); os.chmod(d + '/demo.sh', 0o755)
    for n, t in g.get('FILES', {}).items(): open(f'{d}/{n}', 'w').write(t)
    if 'CC' in g: open(d + '/demo.cc', 'w').write(g['CC'])
    json.dump({'property': g['PROPERTY'], 'needs': g['NEEDS'], 'what_it_breaks': g['BREAKS']}, open(d + '/meta.json', 'w'), indent=1)
    if not confirm(g['ID']): shutil.rmtree(d); return
    catch(g['ID'], [])
def catch(i, props):
    d = f'{V}/{i}'; props = props or [json.load(open(d + '/meta.json'))['property']]
    w = scratch()
    try:
        boxed(w, f'git apply {d}/patch.diff')
        for p in props:
            r = boxed(w, f'VERIF_SEED=1 VERIF_TIER=quick python3 run.py {p}', '/verif')
            print(i, p, 'exit', r.returncode, [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')][:3], flush=True)
    finally:
        shutil.rmtree(w, ignore_errors=True)
a = sys.argv[1:]
if a[0] == '--confirm': [confirm(x) for x in a[1:]]
elif a[0] == '--catch': catch(a[1], a[2:])
else:
    for s in a: make(s)
