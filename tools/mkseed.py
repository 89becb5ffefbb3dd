#!/usr/bin/env python3
"""Build /verif/seeded/<id>/ from the definitions in tools/seeds/*.py and confirm them:
   the patch builds, the stable tests pass, the demonstration fails with it and passes without it.
   usage: mkseed.py [--check] [id...]    (--check also runs the property's check against the patched tree)"""
import os, sys, subprocess, json, shutil, glob, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDS = {}

def seed(id, prop, edits, demo, srcs, needs, breaks, shims=True, libs='', flags=''):
    assert id not in SEEDS, id
    SEEDS[id] = dict(id=id, prop=prop, edits=edits, demo=demo, srcs=srcs, needs=needs, breaks=breaks, shims=shims, libs=libs, flags=flags)

for f in sorted(glob.glob(os.path.join(V, 'tools/seeds/*.py'))): exec(open(f).read())

def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def dry(s):
    wt = '/tmp/seeddry_' + s['id']
    sh('rm -rf %s; mkdir -p %s/d; git -C /repo archive HEAD | tar x -C %s; mkdir -p %s/d; cp -r %s/shims %s/d/' % (wt, wt, wt, wt, V, wt))
    try:
        open(wt + '/d/demo.cc', 'w').write(s['demo'])
        open(wt + '/d/rt.cc', 'w').write('#include <cstdlib>\nextern "C" [[noreturn]] void vc_check_failed(const char*) { std::abort(); }\n')
        c = 'g++ -std=c++20 -w -O1 %s%s -I. d/demo.cc %s%s -o demo %s && timeout 60 ./demo' % ('-Id/shims ' if s['shims'] else '', s['flags'], 'd/rt.cc ' if s['shims'] else '', ' '.join(s['srcs']), s['libs'])
        r0 = sh(c, cwd=wt)
        for fn, old, new in s['edits']:
            p = os.path.join(wt, fn); t = open(p).read()
            if t.count(old) != 1: return 'edit of %s matches %d times: %r' % (fn, t.count(old), old[:60])
            open(p, 'w').write(t.replace(old, new))
        r1 = sh(c, cwd=wt)
        return '%d %d %s' % (r0.returncode, r1.returncode, r0.stdout[-600:] if r0.returncode else r1.stdout[-300:].strip())
    finally: shutil.rmtree(wt, ignore_errors=True)

def make(s, check):
    wt = '/tmp/seedwt'
    sh('rm -rf %s; git -C /repo worktree prune; git -C /repo worktree add --detach -f %s HEAD' % (wt, wt))
    try:
        for fn, old, new in s['edits']:
            p = os.path.join(wt, fn); t = open(p).read()
            if t.count(old) != 1: return 'edit of %s matches %d times: %r' % (fn, t.count(old), old[:60])
            open(p, 'w').write(t.replace(old, new))
        d = os.path.join(V, 'seeded', s['id'])
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        diff = sh('git -C %s diff' % wt).stdout
        open(d + '/patch.diff', 'w').write(diff)
        open(d + '/demo.cc', 'w').write(s['demo'])
        if s['shims']:
            shutil.copytree(V + '/shims', d + '/shims')
            open(d + '/rt.cc', 'w').write('#include <cstdlib>\nextern "C" [[noreturn]] void vc_check_failed(const char*) { std::abort(); }\n')
        open(d + '/demo.sh', 'w').write('''#!/bin/bash
# exit 0: the property holds on the demonstrated input
d="$(cd "$(dirname "$0")" && pwd)"
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
g++ -std=c++20 -w -O1 %s%s -I. "$d/demo.cc" %s%s -o "$t/demo" %s || exit 2
timeout 60 "$t/demo"
''' % ('-I"$d/shims" ' if s['shims'] else '', s['flags'], '"$d/rt.cc" ' if s['shims'] else '', ' '.join(s['srcs']), s['libs']))
        os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        if sh('git -C /repo status --porcelain').stdout.strip(): return '/repo is not clean'
        r0 = sh('bash %s/demo.sh' % d, cwd='/repo')
        a = sh('git -C /repo apply %s/patch.diff' % d)
        if a.returncode: return 'patch does not apply: ' + a.stdout
        try:
            b = sh('bash /opt/vp/build.sh'); t = sh('bash /opt/vp/test.sh /tmp/seedtest.json')
            r1 = sh('bash %s/demo.sh' % d, cwd='/repo')
            det = ''
            if check:
                c = sh('VC_EVIDENCE=/tmp/seedev ./check.sh %s quick' % s['prop'], cwd=V)
                v = [l for l in c.stdout.split('\n') if l.startswith('VIOLATION')]
                names = re.findall(r'^ +failed \[\w+\] (.*?) @', c.stdout, re.M)
                det = ' check rc=%d %s %s' % (c.returncode, [l.split('replay=')[1].split('/')[-1] for l in v][:3], names[:3])
        finally:
            sh('git -C /repo checkout -- .')
        ok = r0.returncode == 0 and r1.returncode not in (0, 2) and b.returncode == 0 and t.returncode == 0
        res = '' if ok else 'clean demo rc=%d\n%s\nbuild rc=%d test rc=%d patched demo rc=%d\n%s' % (r0.returncode, r0.stdout[-1500:] if r0.returncode else '', b.returncode, t.returncode, r1.returncode, r1.stdout[-500:])
        if not ok: shutil.rmtree(d)
        return (res or 'ok') + det
    finally:
        sh('git -C /repo worktree remove --force %s' % wt); shutil.rmtree('/tmp/seedev', ignore_errors=True)

if __name__ == '__main__':
    args = [a for a in sys.argv[1:] if not a.startswith('--')]
    for k in args or SEEDS:
        print(k, dry(SEEDS[k]) if '--dry' in sys.argv else make(SEEDS[k], '--check' in sys.argv), flush=True)
