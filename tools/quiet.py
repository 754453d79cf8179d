#!/usr/bin/env python3
"""quiet.py NAME... [--roots a,b] : extract /repo with refactor/NAME.diff applied (undone at once), analyse, print every
report and stop.  Behaviour-preserving edits: nothing may be printed."""
import json, os, subprocess, sys, shutil, time
V = '/verif'
sys.path.insert(0, V + '/engine')
import pipeline, props

WS, HS = '/tmp/refws', '/tmp/refharness'

def scratch():
    """/repo's HEAD and the harness, elsewhere."""
    if not os.path.isdir(WS):
        subprocess.run(['cp', '-a', '/repo', WS])
    subprocess.run('git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD', shell=True, cwd=WS)
    shutil.rmtree(HS, ignore_errors=True)
    shutil.copytree(V + '/harness', HS, ignore=shutil.ignore_patterns('target'))
    t = open(HS + '/Cargo.toml').read()
    open(HS + '/Cargo.toml', 'w').write(t.replace('"/repo"', '"%s"' % WS))
    redirect()

def redirect():
    pipeline.REPO, pipeline.HARNESS, pipeline.BUILD = WS, HS, '/tmp/refbuild'

def main():
    scratch()
    ids = [x for x in sys.argv[1:] if not x.startswith('--')]
    want = None
    for x in sys.argv[1:]:
        if x.startswith('--roots='):
            want = x[8:].split(',')
    if ids == ['all']:
        ids = sorted(f[:-5] for f in os.listdir(V + '/refactor') if f.endswith('.diff'))
    jobs = []
    for i in ids:
        d = '%s/refactor/%s.diff' % (V, i)
        r = subprocess.run(['git', 'apply', d], cwd=WS, capture_output=True, text=True)
        if r.returncode:
            print(i, 'does not apply', r.stderr[:300])
            continue
        try:
            x, _ = pipeline.extract()
        except pipeline.PipelineError as e:
            print(i, 'does not build', str(e)[-1500:])
            continue
        finally:
            subprocess.run(['git', 'checkout', '-q', '--', '.'], cwd=WS)
        mj = '/tmp/q-%s.json' % i
        shutil.copy(x + '/mono.json', mj)
        if os.path.exists(x + '/generic.json'):
            shutil.copy(x + '/generic.json', '/tmp/q-%s.generic.json' % i)
        rs = want
        if not rs:
            m = open(d).read()
            cl = '/src/client/' in m or 'src/lib.rs' in m
            rs = sorted({p[1] for q in props.ALL for p in q.parts if p[0] == 'root' and (('root_save' in p[1] or 'entries' in p[1] or 'write' in p[1]) and '/src/server/' in m or
                                                    p[1] in ('root_client', 'root_sized', 'root_lazy', 'root_prepared') and cl)})
        jobs += [(i, r, mj) for r in rs]
    running = []
    kinds = {}
    for q in props.ALL:
        for p in q.parts:
            if p[0] == 'root':
                kinds.setdefault(p[1], set()).update(p[2])
    while jobs or running:
        while jobs and len(running) < 8:
            i, r, mj = jobs.pop(0)
            out = '/tmp/q-%s.%s.out' % (i, r)
            running.append((i, r, out, time.time(), subprocess.Popen([sys.executable, V + '/engine/runroot.py', r, mj, out], stdout=open(out + '.log', 'w'), stderr=subprocess.STDOUT)))
        for x in list(running):
            i, r, out, t0, p = x
            rc = p.poll()
            if rc is None and time.time() - t0 > 500:
                p.kill(); p.wait(); rc = -9
            if rc is None:
                continue
            running.remove(x)
            w = '%.0fs' % (time.time() - t0)
            if rc:
                print(i, r, w, 'FAILED', open(out + '.log').read()[-500:], flush=True)
                continue
            d = json.load(open(out))
            if '--un' in sys.argv:
                print(i, r, 'unmodelled', d['unmodelled'])
            if d['stop']:
                print(i, r, w, 'STOP', d['stop'][:500], flush=True)
            rep = [z for z in d['reports'] if z['kind'] in kinds.get(r, ())]
            for z in rep[:4]:
                print(i, r, w, 'REPORT', z['kind'], z['msg'][:300], z['where'][:2] if z['where'] else '', flush=True)
            if not rep and not d['stop']:
                print(i, r, w, 'quiet', flush=True)
        time.sleep(0.1)

if __name__ == '__main__':
    main()
