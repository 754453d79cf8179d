"""Analyse one entry point: runroot.py ROOT MONO.json OUT.json"""
import sys, os, time, gc, json
gc.disable()
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import ai, models, models2, join
from ai import Program, Interp, State, Stop

CLIENT = ('root_client', 'root_sized', 'root_lazy', 'root_prepared')

def config(rn, prog):
    """(monitor, precise) for a root."""
    if rn.startswith(CLIENT):
        import mon_client
        return mon_client.ClientMon(rn), True
    if rn.startswith(('root_save_', 'root_write_')):
        import mon_save
        return mon_save.SaveMon(rn), True
    if rn.startswith('root_entries'):
        import mon_save
        return mon_save.EntriesMon(rn), True
    if rn == 'root_intercept':
        import mon_gate
        return mon_gate.InterceptMon(rn), True
    if rn.startswith('root_gate_'):
        import mon_gate
        return mon_gate.GateMon(rn), True
    if rn.startswith('root_field_'):
        import mon_entry
        return mon_entry.EntryMon(rn), True
    if rn.startswith('bound_'):
        import mon_bound
        return mon_bound.BoundMon(rn), True
    raise SystemExit('unknown root ' + rn)

def analyse(rn, path):
    t0 = time.time()
    p = Program(path)
    res = {'root': rn, 'stop': None, 'reports': []}
    modular = rn.startswith('bound_')
    if rn not in p.roots and not modular:
        res['stop'] = 'the harness has no entry point ' + rn
        return res
    mon, precise = config(rn, p)
    if precise:
        join.PRECISE.append(1)
    I = Interp(p, models.Models(p, mon), mon)
    out = []
    try:
        if modular:
            I.MAXD = 400
            for label, inst, args, st in mon.starts(I):
                o = I.exec_call_inst(st, inst, args, 0, label)
                mon.finish(I, label, o)
                out.extend(o)
            root = None
        else:
            root = p.roots[rn]
    except Stop as e:
        root = None
        res['stop'] = '%s (at %s)' % (e, '; '.join(I.where()[:3]))
    try:
        if root is None:
            raise StopIteration
        b = p.body(root)
        st = State()
        args = [I.mk(b.locals[i + 1], ('arg', i)) for i in range(b.argc)]
        st.cells.update({})
        mon.init(I, st)
        out = I.exec_call_inst(st, root, args, 0, 'root')
    except StopIteration:
        pass
    except Stop as e:
        res['stop'] = '%s (at %s)' % (e, '; '.join(I.where()[:3]))
    seen = set()
    for r in I.reports:
        k = (r[0], repr(r[1]), r[2][:400], r[3][0] if r[3] else '')
        if k in seen:
            continue
        seen.add(k)
        res['reports'].append({'kind': r[0], 'key': [str(x) for x in r[1]] if isinstance(r[1], tuple) else [str(r[1])],
                               'msg': r[2], 'where': r[3]})
    ob = I.stats['oblig']
    fns = sorted({ai.short(p.fns[i]['name']) for i in I.stats['fns'] if p.fns[i]['crate'] == 'multipart'})
    res.update(exits=len(out), steps=I.stats['steps'], blocks=len(I.stats['blocks']), functions=fns,
               loops=len(I.stats['loops']), unmodelled=I.stats['unmodelled'], counts=mon.counts,
               obligations=len(ob), discharged=sum(1 for v in ob.values() if v), wall=time.time() - t0,
               obkinds={k: sum(1 for (kk, _) in ob if kk == k) for k in {kk for kk, _ in ob}})
    return res

if __name__ == '__main__':
    r = analyse(sys.argv[1], sys.argv[2])
    if len(sys.argv) > 3:
        with open(sys.argv[3], 'w') as f:
            json.dump(r, f, indent=1, default=str)
    else:
        json.dump(r, sys.stdout, indent=1, default=str)
        print()
