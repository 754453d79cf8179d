#!/usr/bin/env python3
"""seed.py new ID PROP EDIT.py   make seeded/ID/patch.diff by running EDIT in a scratch copy
   seed.py verify ID...          confirm: builds, stable tests pass, demo 0 / nonzero
   seed.py check ID... [--all]   run this property's check (or all) with the bug applied to /repo"""
import json, os, subprocess, sys, shutil
V = '/verif'
WS = '/tmp/seedws'
ENV = dict(os.environ, CARGO_NET_OFFLINE='true', RUSTUP_TOOLCHAIN='1.90.0', CARGO_INCREMENTAL='1',
           CARGO_PROFILE_DEV_DEBUG='line-tables-only', CARGO_TERM_COLOR='never')

def sh(cmd, cwd=None, timeout=900):
    r = subprocess.run(cmd, shell=True, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return r.returncode, r.stdout.decode(errors='replace')

def ws():
    if not os.path.isdir(WS):
        sh('cp -a /repo ' + WS)
    sh('git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD', WS)

def tests():
    rc, o = sh('cargo test --workspace --no-fail-fast --offline -- --test-threads 8', WS)
    base = json.load(open('/opt/vp/BASELINE.json'))
    bad = [l for l in o.splitlines() if l.startswith('test ') and 'FAILED' in l]
    if 'error: could not compile' in o or 'error[' in o:
        return ['does not compile: ' + o[-1500:]]
    return bad

def verify(i):
    d = os.path.join(V, 'seeded', i)
    ws()
    # the demo sees only its own files, elsewhere
    t = '/tmp/seeddemo'
    shutil.rmtree(t, ignore_errors=True)
    shutil.copytree(d, t, ignore=shutil.ignore_patterns('*.diff', 'meta.json'))
    a, o1 = sh('bash %s/demo.sh' % t, WS, 300)
    rc, o = sh('git apply %s/patch.diff' % d, WS)
    if rc:
        return 'patch does not apply: ' + o
    bad = tests()
    b, o2 = sh('bash %s/demo.sh' % t, WS, 300)
    sh('git checkout -q -- .', WS)
    shutil.rmtree(t, ignore_errors=True)
    ok = a == 0 and b != 0 and not bad
    return ('OK' if ok else 'BAD') + ' demo %d/%d tests %s' % (a, b, bad) + ('' if ok else '\n' + o1[-900:] + '\n---\n' + o2[-900:]) + ('\n   ' + o2.strip().splitlines()[-1][:200] if ok else '')

def main():
    cmd = sys.argv[1]
    if cmd == 'verify':
        for i in sys.argv[2:]:
            print(i, verify(i), flush=True)
    elif cmd == 'check':
        import quiet as ref
        ref.scratch()
        ids = [x for x in sys.argv[2:] if not x.startswith('-')]
        if ids == ['all']:
            ids = sorted(os.listdir(os.path.join(V, 'seeded')))
        for i in ids:
            m = json.load(open(os.path.join(V, 'seeded', i, 'meta.json')))
            rc, o = sh('git apply %s/seeded/%s/patch.diff' % (V, i), ref.WS)
            if rc:
                print(i, 'does not apply', o)
                continue
            try:
                rc, o = sh('MPV_SCRATCH=1 python3 check.py ' + ('all' if '--all' in sys.argv else m['property']), V)
            finally:
                sh('git checkout -q -- .', ref.WS)
            print(i, m['property'], {0: 'MISSED', 1: 'caught', 2: 'NO VERDICT'}.get(rc, rc), '|', (o.strip().splitlines() or [''])[0][:230], flush=True)
main()
