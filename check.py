#!/usr/bin/env python3
"""check.py ID...: decide the properties on /repo's current tree.

exit 0 held; exit 1 violated (VIOLATION line); exit 2 no verdict."""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, 'engine'))
import pipeline, props

BUDGET = 860

def run_roots(roots, xdir, key):
    """Analyse the roots in parallel processes; {root: result}."""
    res, procs = {}, {}
    cdir = os.path.join(xdir, 'r-' + pipeline.tree_hash([os.path.join(V, 'engine')]))
    os.makedirs(cdir, exist_ok=True)
    todo = []
    for r in roots:
        out = os.path.join(cdir, r + '.json')
        if os.path.exists(out):
            res[r] = json.load(open(out))
        else:
            todo.append((r, out))
    running = []
    t0 = time.time()
    while todo or running:
        while todo and len(running) < 8:
            r, out = todo.pop(0)
            log = open(out + '.log', 'w')
            running.append((r, out, subprocess.Popen([sys.executable, os.path.join(V, 'engine', 'runroot.py'), r,
                                                      os.path.join(xdir, 'mono.json'), out + '.tmp'], stdout=log, stderr=log)))
        for x in list(running):
            r, out, p = x
            rc = p.poll()
            if rc is None:
                if time.time() - t0 > BUDGET - 60:
                    p.kill()
                    p.wait()
                    res[r] = {'root': r, 'stop': 'time budget exhausted', 'reports': []}
                    running.remove(x)
                continue
            running.remove(x)
            if rc == 0 and os.path.exists(out + '.tmp'):
                os.rename(out + '.tmp', out)
                res[r] = json.load(open(out))
            else:
                res[r] = {'root': r, 'stop': 'analysis failed: ' + open(out + '.log').read()[-800:], 'reports': []}
        time.sleep(0.05)
    return res

def known(pid):
    f = os.path.join(V, 'known_findings.txt')
    out = []
    for l in open(f):
        l = l.strip()
        if l.startswith('finding: '):
            d = json.loads(l[9:])
            if d['property'] == pid:
                out.append(d)
    return out

def decide(p, xdir, key, t0):
    tier = os.environ.get('VERIF_TIER', 'quick')
    roots = sorted({x[1] for x in p.parts if x[0] == 'root'})
    res = run_roots(roots, xdir, key)
    viol, stops, cov = [], [], {}
    obligations = 0
    for x in p.parts:
        if x[0] == 'root':
            r = res[x[1]]
            if r['stop']:
                stops.append('%s: %s' % (x[1], r['stop']))
                cov[x[1]] = {'stopped': r['stop']}
            for rep in r['reports']:
                if rep['kind'] in x[2]:
                    viol.append(dict(rep, root=x[1]))
            if not r['stop']:
                cov[x[1]] = {k: r[k] for k in ('exits', 'steps', 'blocks', 'loops', 'counts', 'unmodelled', 'functions', 'wall')}
                cov[x[1]]['bounds obligations'] = r['obligations']
                obligations += sum(r['counts'].values()) + r['obligations']
                if not r['exits'] or not r['counts']:
                    stops.append('%s: nothing was analysed' % x[1])
        else:
            import rules
            v, c, n, s = getattr(rules, x[1])(xdir)
            viol += [dict(z, root=x[1]) for z in v]
            cov[x[1]] = c
            obligations += n
            stops += s
            if not n:
                stops.append('%s: nothing was analysed' % x[1])
    kn = known(p.id)
    listed, fresh = [], []
    for v in viol:
        for k in kn:
            if k['root'] == v['root'] and k['kind'] == v['kind'] and k['key'] == v['key']:
                listed.append((k, v))
                break
        else:
            fresh.append(v)
    bad = len(fresh)
    if p.level == 'proof':
        cover = {'obligations': obligations, 'discharged': max(0, obligations - len(viol)),
                 'checker_cmd': 'python3 check.py ' + p.id, 'trusted_base': props.BASE}
    else:
        cover = {'explanation': p.note + 'Checked in this run: %d obligations.' % obligations}
    cover['rule'] = p.technique
    cover['analysed'] = cov
    cover['reports'] = fresh[:20]
    if stops:
        cover['no verdict'] = stops
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    ev = os.path.join(V, 'evidence', p.id + '.json') if pipeline.REPO == '/repo' else os.path.join(pipeline.BUILD, p.id + '.json')
    with open(ev, 'w') as f:
        json.dump({'property': p.id, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': p.level, 'coverage': cover,
                   'assumptions': [p.note], 'wall_s': round(time.time() - t0, 2), 'violations': bad}, f, indent=1, default=str)
        f.write('\n')
    for k in {json.dumps(k) for k, _ in listed}:
        print('KNOWN-FINDING: property=%s %s' % (p.id, json.loads(k)['what']))
    for v in fresh[:8]:
        print('%s: %s' % (v['root'], v['msg'][:600]))
        for w in v['where'][:4] if v['where'] else ():
            print('    at', str(w)[:160])
    if bad:
        print('VIOLATION property=%s replay=%s' % (p.id, ev))
        return 1
    if stops:
        for s in stops:
            print('no verdict:', s[:600])
        return 2
    print('%s held: %d obligations' % (p.id, obligations))
    return 0

def main():
    t0 = time.time()
    if os.environ.get('MPV_SCRATCH'):       # tools/seed.py: a copy of /repo with a bug applied; evidence not kept
        sys.path.insert(0, os.path.join(V, 'tools'))
        import quiet
        quiet.redirect()
    ids = sys.argv[1:]
    ps = {p.id: p for p in props.ALL}
    if ids == ['all']:
        ids = [p.id for p in props.ALL if not p.na]
    try:
        xdir, key = pipeline.extract()
    except pipeline.PipelineError as e:
        print('no verdict:', e)
        return 2
    rc = 0
    for i in ids:
        r = decide(ps[i], xdir, key, t0)
        rc = 1 if 1 in (r, rc) else max(r, rc)
        t0 = time.time()
    return rc

if __name__ == '__main__':
    sys.exit(main())
