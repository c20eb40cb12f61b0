#!/usr/bin/env python3
"""Planting helper (development only; no check uses it).
seedtool.mk(id, prop, [(file, old, new)], demo_cpp, needs, breaks): makes seeded/<id>, confirming build, stable tests, demo both ways."""
import os, subprocess, shutil, json, tempfile, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# builds demo.cpp against the sources in the current directory and runs it
D=$(cd "$(dirname "$0")" && pwd); R=$(pwd); T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
for f in src/utility/trezor/*.c src/utility/*.c tests/sysrand.c; do
  [ -f "$f" ] && { gcc -w -g -Isrc %(san)s -c "$f" -o "$T/$(basename "$f").o" || exit 2; } &
done
for f in src/*.cpp "$D/demo.cpp"; do
  g++ -w -g -DUSE_STDONLY -Isrc %(san)s -c "$f" -o "$T/$(basename "$f").o" || exit 2 &
done
wait
g++ %(san)s "$T"/*.o -o "$T/demo" || exit 2
cd "$T" && timeout 120 ./demo
'''


def sh(cmd, cwd=None, t=900):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=t)


def wt():
    d = tempfile.mkdtemp(prefix='wt_', dir='/tmp')
    sh('cp -a /repo/. %s/' % d)
    sh('git checkout -q -- . && git clean -qfd -e _build', d)
    return d


def stable(d):
    # rebuild and run the stable tests in the copy d
    env = 'sed "s#/repo#%s#g" /opt/vp/env.sh > %s/_env.sh; ' % (d, d)
    r = sh('sed "s#/repo#%s#g" /opt/vp/env.sh > %s/_env.sh; sed -e "s#/repo#%s#g" -e "s#/opt/vp/env.sh#%s/_env.sh#" /opt/vp/test.sh > %s/_test.sh; bash %s/_test.sh %s/_out.json' % ((d,) * 7), d)
    try:
        o = json.load(open(d + '/_out.json'))
    except Exception:
        return False, r.stdout[-500:] + r.stderr[-800:]
    st = json.load(open('/opt/vp/BASELINE.json'))['stable']
    miss = [s for s in st if s not in o['passed']]
    return not miss, str(miss)


def mk(id, prop, edits, demo, needs, breaks, san=''):
    S = os.path.join(V, 'seeded', id)
    d = wt()
    try:
        os.makedirs(S, exist_ok=True)
        open(S + '/demo.cpp', 'w').write(demo)
        open(S + '/demo.sh', 'w').write(DEMO % {'san': san})
        os.chmod(S + '/demo.sh', 0o755)
        r0 = sh('bash %s/demo.sh' % S, d)
        if r0.returncode:
            print(id, 'DEMO FAILS ON CLEAN', r0.returncode, r0.stdout[-800:], r0.stderr[-800:]); shutil.rmtree(S); return False
        for f, a, b in edits:
            p = os.path.join(d, f)
            t = open(p).read()
            if t.count(a) != 1:
                print(id, 'edit matches', t.count(a), 'times', a[:60]); shutil.rmtree(S); return False
            open(p, 'w').write(t.replace(a, b))
        diff = sh('git diff', d).stdout
        ok, m = stable(d)
        if not ok:
            print(id, 'STABLE TESTS FAIL', m); shutil.rmtree(S); return False
        r1 = sh('bash %s/demo.sh' % S, d)
        if r1.returncode in (0, 2):
            print(id, 'DEMO DOES NOT FAIL WITH PATCH', r1.returncode, r1.stderr[-500:]); shutil.rmtree(S); return False
        open(S + '/patch.diff', 'w').write(diff)
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(S + '/meta.json', 'w'), indent=1)
        print(id, 'ok; demo with patch:', r1.returncode, (r1.stdout + r1.stderr)[-160:].strip())
        return True
    finally:
        shutil.rmtree(d, ignore_errors=True)


def checkall(ids=None, props=None):
    """run each seed's property check against a patched copy"""
    for id in sorted(os.listdir(V + '/seeded')):
        if ids and id not in ids:
            continue
        S = V + '/seeded/' + id
        m = json.load(open(S + '/meta.json'))
        d = wt()
        sh('git apply %s/patch.diff' % S, d)
        r = sh('VERIF_REPO=%s VERIF_OUT=%s/_ev python3 run.py %s quick' % (d, d, m['property']), V)
        print(id, m['property'], {0: 'MISSED', 1: 'caught'}.get(r.returncode, 'ERR %d' % r.returncode), '|', '; '.join(l[:150] for l in r.stdout.splitlines() if l.startswith(('violation', 'undecided')))[:300], flush=True)
        shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    checkall(sys.argv[1:])
