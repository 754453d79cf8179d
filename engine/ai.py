"""Abstract interpreter over the type-checked program (monomorphic MIR).

A fixpoint analysis: calls are analysed in their calling context, loops are
iterated to a post-fixpoint with join/widening (join.py), and nothing is ever
run or handed to a solver.  See DESIGN.md section 2 for the domain."""
import sys, json, os
from lin import Lin, SYM, ZERO, ONE, sv, norm, entails, infeasible, trivially_true, project

sys.setrecursionlimit(20000)

UNINIT = ('u',)
TRUE = ('b', True)
FALSE = ('b', False)

class Stop(Exception):
    """The analysis cannot give an answer (fail closed)."""

class Infeasible(Exception):
    pass

# ---------------------------------------------------------------- sources
SRC_TAINT = {}
THRESHOLDS = set()      # constants numbers are compared with, tried as loop bounds
_cnt = [0]

BYTE_SYM = {}

def fresh_id(tag='x'):
    _cnt[0] += 1
    return (tag, _cnt[0])

def seq(src, length=None, taint=frozenset()):
    """A named byte sequence with a symbolic length; returns a content."""
    if taint:
        SRC_TAINT[src] = SRC_TAINT.get(src, frozenset()) | taint
    if length is None:
        length = sv(SYM.named(('len', src)))
    return (('S', src, ZERO, length),)

def seg_len(s):
    return Lin(len(s[1])) if s[0] == 'L' else s[3] - s[2]

def clen(c):
    n = ZERO
    for s in c:
        n = n + seg_len(s)
    return n

def ccat(*cs):
    out = []
    for c in cs:
        for s in c:
            if s[0] == 'L':
                if not s[1]:
                    continue
                if out and out[-1][0] == 'L':
                    out[-1] = ('L', out[-1][1] + s[1])
                    continue
            else:
                if s[2] == s[3]:
                    continue
                if out and out[-1][0] == 'S' and out[-1][1] == s[1] and out[-1][3] == s[2]:
                    out[-1] = ('S', s[1], out[-1][2], s[3])
                    continue
            out.append(s)
    return tuple(out)

def ctaint(c):
    t = frozenset()
    for s in c:
        if s[0] == 'S':
            t = t | SRC_TAINT.get(s[1], frozenset())
    return t

def lit(c):
    """bytes of a fully literal content, or None"""
    if not c:
        return b''
    if len(c) == 1 and c[0][0] == 'L':
        return c[0][1]
    return None

# ---------------------------------------------------------------- mapping
def map_lin_in(v, f):
    """Apply f to every Lin inside a value/cond/content/fact tuple."""
    if isinstance(v, Lin):
        return f(v)
    if isinstance(v, tuple):
        out = None
        for i, x in enumerate(v):
            if isinstance(x, (tuple, Lin)):
                y = map_lin_in(x, f)
                if y is not x:
                    if out is None:
                        out = list(v)
                    out[i] = y
        return v if out is None else tuple(out)
    return v

_symmemo = {}

def syms_of(v):
    """frozenset of the symbols a value mentions (memoised by identity)."""
    k = id(v)
    e = _symmemo.get(k)
    if e is not None and e[0] is v:
        return e[1]
    acc = set()
    _collect(v, acc)
    r = frozenset(acc)
    if len(_symmemo) > 400000:
        _symmemo.clear()
    _symmemo[k] = (v, r)
    return r

def _collect(v, acc):
    t = type(v)
    if t is Lin:
        for s, _ in v.t:
            acc.add(s)
    elif t is tuple:
        for x in v:
            t = type(x)
            if t is Lin:
                for s, _ in x.t:
                    acc.add(s)
            elif t is tuple:
                if len(x) > 1:
                    acc |= syms_of(x)
                else:
                    _collect(x, acc)

_refmemo = {}
_NOREF = frozenset()

def refs_of(v):
    """Local cells a value refers to (memoised by identity)."""
    if not isinstance(v, tuple) or not v:
        return _NOREF
    k = id(v)
    e = _refmemo.get(k)
    if e is not None and e[0] is v:
        return e[1]
    r = _NOREF
    if v[0] in ('r', 'ms') and len(v) >= 3 and isinstance(v[1], tuple) and v[1] and v[1][0] == 'l':
        r = frozenset([v[1]])
    for x in v:
        if isinstance(x, tuple) and x:
            y = refs_of(x)
            if y:
                r = r | y
    if len(_refmemo) > 400000:
        _refmemo.clear()
    _refmemo[k] = (v, r)
    return r

_hrefmemo = {}

def hrefs_of(v):
    """Heap cells a value may refer to (memoised by identity)."""
    if not isinstance(v, tuple) or not v:
        return _NOREF
    k = id(v)
    e = _hrefmemo.get(k)
    if e is not None and e[0] is v:
        return e[1]
    if len(v) >= 3 and v[0] in ('r', 'ms') and isinstance(v[1], tuple) and v[1]:
        r = frozenset([v[1]]) if v[1][0] in ('h', 'oc') else _NOREF
    elif len(v) == 4 and v[0] == 'o':
        r = frozenset([('oc', v[1])])
    else:
        r = _NOREF
        for x in v:
            if isinstance(x, tuple) and x:
                y = hrefs_of(x)
                if y:
                    r = r | y
    if len(_hrefmemo) > 400000:
        _hrefmemo.clear()
    _hrefmemo[k] = (v, r)
    return r

_uidmemo = {}

def uids_of(v):
    """Identities of the unknown conditions a value holds."""
    if not isinstance(v, tuple):
        return frozenset()
    k = id(v)
    e = _uidmemo.get(k)
    if e is not None and e[0] is v:
        return e[1]
    if len(v) == 2 and v[0] == 'u':
        r = frozenset([v[1]])
    else:
        r = frozenset()
        for x in v:
            if isinstance(x, tuple):
                r = r | uids_of(x)
    if len(_uidmemo) > 400000:
        _uidmemo.clear()
    _uidmemo[k] = (v, r)
    return r

def collect_syms(v, acc):
    t = type(v)
    if t is tuple:
        acc |= syms_of(v)
    elif t is Lin:
        for s, _ in v.t:
            acc.add(s)

def map_opaque(v, oid, new):
    if isinstance(v, tuple):
        if len(v) == 4 and v[0] == 'o' and v[1] == oid:
            return new
        if len(v) == 3 and v[0] == 'dsc' and v[1] == oid:
            return ('i', Lin(new_discr(new)))
        out = None
        for i, x in enumerate(v):
            if isinstance(x, tuple):
                y = map_opaque(x, oid, new)
                if y is not x:
                    if out is None:
                        out = list(v)
                    out[i] = y
        return v if out is None else tuple(out)
    return v

_P = [None]

def new_discr(v):
    return _P[0].variant_discr(v[1], v[2])

# ---------------------------------------------------------------- state
class State:
    __slots__ = ('cells', 'cons', 'facts', 'tags', 'el')

    def __init__(self, cells=None, cons=frozenset(), facts=frozenset(), tags=(), el=None):
        self.el = el            # eliminated symbols: (earlier, symbol, its value)
        self.cells = {} if cells is None else cells
        self.cons = cons
        self.facts = facts
        self.tags = tags        # trail of interesting decisions (for reports)

    def copy(self):
        return State(dict(self.cells), self.cons, self.facts, self.tags, self.el)

    # -- numeric
    def ent(self, L):
        return entails(self.cons, L)

    def ent_eq(self, a, b):
        if a == b:
            return True
        d = a - b
        if not d.t:
            return d.c == 0
        return self.ent(d) and self.ent(-d)

    def subst_sym(self, s, l):
        self.el = (self.el, s, l)
        def f(L):
            return L.subst(s, l)
        for k, v in list(self.cells.items()):
            w = map_lin_in(v, f)
            if w is not v:
                self.cells[k] = w
        self.facts = frozenset(map_lin_in(x, f) for x in self.facts)
        nc = set()
        for L in self.cons:
            M = norm(L.subst(s, l))
            if not M.t:
                if M.c > 0:
                    raise Infeasible()
                continue
            if not trivially_true(M):
                nc.add(M)
        if SYM.nonneg[s]:
            M = norm(-l)
            if not trivially_true(M):
                nc.add(M)
        self.cons = frozenset(nc)

    def add_le(self, L):
        L = norm(L)
        if not L.t:
            if L.c > 0:
                raise Infeasible()
            return
        if self.ent(L):
            return
        if self.ent((-L) + 1):
            raise Infeasible()
        if self.ent(-L):
            self.add_eq(L)
            return
        self.cons = frozenset(K for K in self.cons if not (K.t == L.t and K.c <= L.c)) | {L}

    def add_eq(self, L):
        if not L.t:
            if L.c != 0:
                raise Infeasible()
            return
        if self.ent(L + 1) or self.ent((-L) + 1):
            raise Infeasible()
        for s, k in reversed(L.t):
            if k in (1, -1):
                rest = Lin(L.c, tuple(x for x in L.t if x[0] != s))
                self.subst_sym(s, rest.scale(-k))
                # substitution may expose further equalities
                if infeasible(self.cons):
                    raise Infeasible()
                return
        self.cons = self.cons | {norm(L), norm(-L)}
        if infeasible(self.cons):
            raise Infeasible()

    def add_fact(self, f):
        self.facts = self.facts | {f}

    def subst_opaque(self, oid, new):
        for k, v in list(self.cells.items()):
            w = map_opaque(v, oid, new)
            if w is not v:
                self.cells[k] = w

    def drop_behind(self, src, pos):
        """Forget what is known about the part of a stream already consumed."""
        self.facts = frozenset(f for f in self.facts
                               if not (f[0] == 'm' and f[1] == src and self.ent(f[2] + 1 - pos))
                               and not (f[0] == 'nf' and f[1] == src and self.ent(f[4] - pos)))

    def prune_facts(self, used):
        """Forget facts about positions no live value can designate, decided
        conditions that are no longer held anywhere, and empty ranges."""
        uids = None
        keep = []
        for f in self.facts:
            if f[0] == 'nf':
                if self.ent(f[4] - f[3] - clen(f[2]) + 1):
                    continue
            elif isinstance(f[0], tuple) and f[0][0] == 'u':
                if uids is None:
                    uids = set()
                    for v in self.cells.values():
                        uids |= uids_of(v)
                if f[0][1] not in uids:
                    continue
            if syms_of(f) <= used:
                keep.append(f)
        if len(keep) != len(self.facts):
            self.facts = frozenset(keep)

    def prune(self):
        """Drop heap cells nothing refers to and symbols nothing mentions."""
        cells = self.cells
        heap = [k for k in cells if k[0] in ('h', 'oc')]
        if heap:
            hs = set(heap)
            live = set()
            todo = []
            for k, v in cells.items():
                if k[0] not in ('h', 'oc'):
                    for c in hrefs_of(v):
                        if c in hs and c not in live:
                            live.add(c)
                            todo.append(c)
            while todo:
                for c in hrefs_of(cells[todo.pop()]):
                    if c in hs and c not in live:
                        live.add(c)
                        todo.append(c)
            for k in heap:
                if k not in live:
                    del cells[k]
        used = set()
        for v in cells.values():
            collect_syms(v, used)
        if self.facts:
            self.prune_facts(used)
        dead = set()
        for L in self.cons:
            for s, _ in L.t:
                if s not in used:
                    dead.add(s)
        if dead:
            self.cons = frozenset(project(self.cons, dead))

# ---------------------------------------------------------------- program
class Program:
    def __init__(self, path):
        d = json.load(open(path))
        self.types = {t['id']: t for t in d['types']}
        self.fns = {f['id']: f for f in d['fns']}
        self.roots = d['roots']
        self.bodies = {}
        _P[0] = self
        self.tyname = {t['s']: t['id'] for t in d['types']}

    def variant_discr(self, ty, k):
        t = self.types.get(ty)
        if t and t['k'] == 'adt':
            return int(t['variants'][k]['discr'])
        return k

    def body(self, inst):
        b = self.bodies.get(inst)
        if b is None:
            f = self.fns[inst]
            b = self.bodies[inst] = Body(self, f) if f['body'] else False
        return b

    def ty(self, t):
        return self.types[t]

    def is_byte(self, t):
        t = self.types[t]
        return t['k'] == 'int' and t['bytes'] == 1

    def bytes_unsized(self, t):
        """[u8], str, Path, OsStr ..."""
        t = self.types[t]
        if t['k'] == 'str':
            return True
        if t['k'] == 'slice':
            return self.is_byte(t['elem'])
        return t['k'] == 'adt' and t['name'] in ('std::path::Path', 'std::ffi::OsStr', 'std::ffi::os_str::OsStr')

    def bytes_owner(self, t):
        t = self.types[t]
        if t['k'] == 'array':
            return self.is_byte(t['elem'])
        if t['k'] != 'adt':
            return False
        n = t['name']
        if n in ('std::string::String', 'std::path::PathBuf', 'std::ffi::OsString', 'std::ffi::os_str::OsString'):
            return True
        if n == 'std::vec::Vec':
            return self.is_byte(t['args'][0])
        if n in ('std::sync::Arc', 'std::boxed::Box', 'std::rc::Rc'):
            return self.bytes_unsized(t['args'][0])
        return False

    def nvariants(self, t):
        t = self.types[t]
        return len(t['variants']) if t['k'] == 'adt' else 1

    def field_types(self, t, variant):
        t = self.types[t]
        k = t['k']
        if k == 'adt':
            return [f[1] for f in t['variants'][variant]['fields']]
        if k == 'tuple':
            return list(t['elems'])
        if k == 'closure':
            return list(self.types[t['upvars']]['elems'])
        return None

def succs_of(t):
    k = t[0]
    if k == 'goto':
        return [t[1]]
    if k == 'sw':
        out = []
        for v, b in t[2]:
            if b not in out:
                out.append(b)
        if t[3] is not None and t[3] not in out:
            out.append(t[3])
        return out
    if k == 'drop':
        return [t[3]]
    if k == 'call':
        return [t[4]] if t[4] is not None and t[4] >= 0 else []
    if k == 'assert':
        return [t[4]]
    return []

class Body:
    def __init__(self, prog, f):
        b = f['body']
        self.f = f
        self.name = f['name']
        self.file = b['file']
        self.argc = b['argc']
        self.locals = b['locals']
        self.blocks = b['blocks']
        self.spread = b.get('spread')
        n = len(self.blocks)
        self.succ = [succs_of(bl['t']) for bl in self.blocks]
        # reachable
        seen = {0}
        todo = [0]
        while todo:
            x = todo.pop()
            for y in self.succ[x]:
                if y not in seen:
                    seen.add(y)
                    todo.append(y)
        self.reach = seen
        self.npred = {}
        for x in seen:
            for y in self.succ[x]:
                self.npred[y] = self.npred.get(y, 0) + 1
        self._liveness()
        self._regions = {}

    def _liveness(self):
        use, deff = {}, {}
        addr = set()

        def pl_use(p, u):
            u.add(p[0])
            for e in p[1:]:
                if isinstance(e, list) and e[0] == 'i':
                    u.add(e[1])

        def op_use(o, u):
            if isinstance(o, list) and o:
                if o[0] in ('c', 'm'):
                    pl_use(o[1], u)
                elif isinstance(o[0], list):
                    for x in o:
                        op_use(x, u)

        for i in self.reach:
            bl = self.blocks[i]
            u, d = set(), set()

            def reads(s):
                for x in s:
                    if x not in d:
                        u.add(x)
            for s in bl['s']:
                r = set()
                if s[0] == '=':
                    rv = s[2]
                    if rv[0] in ('ref', 'addr'):
                        p = rv[2]
                        pl_use(p, r)
                        if '*' not in p[1:]:
                            addr.add(p[0])
                    elif rv[0] in ('discr', 'len'):
                        pl_use(rv[1], r)
                    else:
                        for x in rv[1:]:
                            if isinstance(x, list):
                                op_use(x, r)
                    if len(s[1]) > 1:
                        pl_use(s[1], r)
                    reads(r)
                    if len(s[1]) == 1:
                        d.add(s[1][0])
                elif s[0] == 'sd':
                    pl_use(s[1], r)
                    reads(r)
                elif s[0] in ('sl', 'sx'):
                    d.add(s[1])
                elif s[0] == 'assume':
                    op_use(s[1], r)
                    reads(r)
            t = bl['t']
            r = set()
            if t[0] == 'sw':
                op_use(t[1], r)
            elif t[0] == 'drop':
                pl_use(t[1], r)
            elif t[0] == 'call':
                if 'fop' in t[1]:
                    op_use(t[1]['fop'], r)
                for a in t[2]:
                    op_use(a, r)
                if len(t[3]) > 1:
                    pl_use(t[3], r)
            elif t[0] == 'assert':
                op_use(t[1], r)
            elif t[0] == 'ret':
                r.add(0)
            reads(r)
            use[i], deff[i] = u, d
            if t[0] == 'call' and len(t[3]) == 1:
                pass
        live = {i: set() for i in self.reach}
        ch = True
        order = sorted(self.reach, reverse=True)
        while ch:
            ch = False
            for i in order:
                o = set()
                for s in self.succ[i]:
                    o |= live[s]
                t = self.blocks[i]['t']
                if t[0] == 'call' and len(t[3]) == 1:
                    o = o - {t[3][0]}
                n = use[i] | (o - deff[i])
                if n != live[i]:
                    live[i] = n
                    ch = True
        self.live = live
        self.addr = addr

    def region(self, nodes, head):
        """Topologically ordered components of `nodes` (edges back to `head`
        removed).  Each item: (is_loop, head, frozenset)."""
        key = (head, nodes)
        r = self._regions.get(key)
        if r is not None:
            return r
        idx, low, st, on, out = {}, {}, [], set(), []
        cnt = [0]

        def sc(v):
            stack = [(v, 0)]
            while stack:
                v, i = stack.pop()
                if i == 0:
                    idx[v] = low[v] = cnt[0]
                    cnt[0] += 1
                    st.append(v)
                    on.add(v)
                ss = [w for w in self.succ[v] if w in nodes and w != head]
                rec = False
                while i < len(ss):
                    w = ss[i]
                    i += 1
                    if w not in idx:
                        stack.append((v, i))
                        stack.append((w, 0))
                        rec = True
                        break
                    elif w in on:
                        low[v] = min(low[v], idx[w])
                if rec:
                    continue
                for w in ss:
                    if w in on:
                        low[v] = min(low[v], low[w])
                if low[v] == idx[v]:
                    comp = set()
                    while True:
                        w = st.pop()
                        on.discard(w)
                        comp.add(w)
                        if w == v:
                            break
                    out.append(frozenset(comp))
        if head in nodes:
            sc(head)
        for v in sorted(nodes):
            if v not in idx:
                sc(v)
        out.reverse()
        res = []
        for comp in out:
            if len(comp) == 1:
                v = next(iter(comp))
                if v == head or v not in self.succ[v]:
                    res.append((False, v, comp))
                else:
                    res.append((True, v, comp))
            else:
                # entry: member with a predecessor outside the component
                ents = [v for v in comp if any(v in self.succ[u] for u in nodes - comp)]
                if not ents:
                    ents = [min(comp)]
                if len(ents) > 1:
                    raise Stop('irreducible loop in ' + self.name)
                res.append((True, ents[0], comp))
        self._regions[key] = res
        return res

# ---------------------------------------------------------------- interpreter
class Interp:
    MAXD = 16
    MAX_STEPS = 4000000

    def __init__(self, prog, models, monitor=None):
        from join import Joiner, Inv
        self.Inv = Inv
        self.p = prog
        self.models = models
        self.mon = monitor
        self.fids = {}
        self.finfo = {}
        self.reports = []
        self.stats = {'calls': {}, 'unmodelled': {}, 'oblig': {}, 'blocks': set(), 'fns': set(), 'steps': 0,
                      'loops': {}}
        self.J = Joiner(self)
        self.depth = 0
        self.cur = None
        self.budget = self.MAX_STEPS

    # -- frames
    def fid(self, parent, site, inst):
        k = (parent, site, inst)
        r = self.fids.get(k)
        if r is None:
            r = self.fids[k] = len(self.fids) + 1
            self.finfo[r] = k
        return r

    def callpath(self, fid):
        out = []
        while fid:
            parent, site, inst = self.finfo[fid]
            f = self.p.fns[inst]
            out.append((f['name'], site))
            fid = parent
        out.reverse()
        return out

    # -- reports
    def report(self, kind, key, msg, st=None):
        self.reports.append((kind, key, msg, self.where()))

    def where(self):
        if self.cur is None:
            return []
        fr, bb = self.cur
        path = self.callpath(fr.fid)
        out = []
        fid = fr.fid
        line = fr.body.blocks[bb].get('line')
        t = fr.body.blocks[bb]['t']
        fn = fr.body
        out.append('%s:%s in %s' % (fn.file, t[-1] if isinstance(t[-1], int) else line, fn.name))
        while fid:
            parent, site, inst = self.finfo[fid]
            if parent:
                pf = self.p.body(self.finfo[parent][2])
                t = pf.blocks[site]['t'] if isinstance(site, int) else None
                out.append('%s:%s in %s' % (pf.file, t[-1] if t else '?', pf.name))
            fid = parent
        return out

    def site_fn(self):
        """Innermost frame that belongs to the code under analysis, named
        without line numbers."""
        if self.cur is None:
            return '?'
        fid = self.cur[0].fid
        while fid:
            parent, site, inst = self.finfo[fid]
            f = self.p.fns[inst]
            if f['crate'] in ('multipart', 'mp_harness'):
                return short(f['def'])
            fid = parent
        return '?'

    def oblig(self, kind, ok):
        k = (kind, self.site_key())
        o = self.stats['oblig']
        o[k] = o.get(k, True) and ok

    def site_key(self):
        if self.cur is None:
            return ('?', 0)
        fr, bb = self.cur
        return (fr.body.name, bb)

    # -- opaque creation
    def mk(self, ty, oid, taint=frozenset()):
        p = self.p
        t = p.types[ty]
        k = t['k']
        if k == 'int' or k == 'char':
            return ('i', sv(SYM.named(oid, nonneg=(k == 'char' or not t['signed']), taint=taint)))
        if k == 'bool':
            return ('b', ('u', oid))
        if k == 'tuple':
            return ('a', ty, 0, tuple(self.mk(e, (oid, i), taint) for i, e in enumerate(t['elems'])))
        if k in ('ref', 'ptr'):
            to = t['to']
            if p.bytes_unsized(to):
                return ('s', seq(oid, None, taint))
            tt = p.types[to]
            if tt['k'] == 'slice':
                return ('sl', oid, sv(SYM.named(('len', oid))), tt['elem'], taint)
            return ('o', oid, ty, taint)
        if k == 'array':
            if p.is_byte(t['elem']):
                return ('v', seq(oid, Lin(int(t['len'])) if t['len'] is not None else None, taint))
            return ('o', oid, ty, taint)
        if k == 'fndef':
            return ('fn', t['inst'], ty)
        if p.bytes_owner(ty):
            return ('v', seq(oid, None, taint))
        if k == 'adt':
            h = self.models.mk_hooks.get(short(t['name']))
            if h is not None:
                return h(self, oid, taint)
            if t['name'] == 'std::vec::Vec':
                return ('vec', ty, sv(SYM.named(('len', oid))), sv(SYM.named(('wt', oid))), oid, taint)
            if t['box']:
                return ('bx', self.mk(t['args'][0], (oid, '*'), taint))
            if t['name'] == 'std::io::Error':
                return ('err', oid, 'opaque', None)
            if len(t['variants']) == 1 and t['adt'] == 'struct' and not t['variants'][0]['fields']:
                return ('a', ty, 0, ())
        return ('o', oid, ty, taint)

    def expand(self, o, variant=0):
        """Children of an opaque value (deterministic names)."""
        _, oid, ty, taint = o
        fts = self.p.field_types(ty, variant)
        if fts is None:
            return None
        return ('a', ty, variant, tuple(self.mk(ft, (oid, variant, i), taint) for i, ft in enumerate(fts)))

    # -- places
    def read(self, st, cell, path):
        v = st.cells.get(cell, UNINIT)
        for i, e in enumerate(path):
            v = self.child(st, cell, path[:i], v, e)
        return v

    def child(self, st, cell, pre, v, e):
        tag = v[0]
        if e == '*':
            if tag == 'bx':
                return v[1]
            return v
        if tag == 'lst':
            return v[2][e]
        if tag == 'a':
            if e < len(v[3]):
                return v[3][e]
            raise Stop('field %s of %r' % (e, v[:3]))
        if tag == 'o':
            t = self.p.types[v[2]]
            if t['k'] in ('adt', 'tuple', 'closure') and not (t['k'] == 'adt' and t['adt'] == 'enum'):
                x = self.expand(v)
                if x is not None:
                    if cell is not None:
                        st.subst_opaque(v[1], x)
                        return x[3][e] if e < len(x[3]) else UNINIT
                    return x[3][e] if e < len(x[3]) else UNINIT
            return ('o', (v[1], e), v[2], v[3])
        if tag in ('bx', 'r'):
            return v            # Box/Unique/NonNull wrappers
        if tag == 'u':
            return UNINIT
        if tag == 'arr':
            return v
        # field of a modelled library value
        return ('o', fresh_id('fld'), None, frozenset())

    def write(self, st, cell, path, val):
        if not path:
            st.cells[cell] = val
            return
        self.read(st, cell, path)       # forces expansion
        st.cells[cell] = self._put(st, st.cells.get(cell, UNINIT), path, val)

    def _put(self, st, v, path, val):
        if not path:
            return val
        e = path[0]
        tag = v[0]
        if e == '*':
            if tag == 'bx':
                return ('bx', self._put(st, v[1], path[1:], val))
            return v
        if tag == 'lst':
            xs = list(v[2])
            xs[e] = self._put(st, xs[e], path[1:], val)
            return ('lst', v[1], tuple(xs))
        if tag == 'a':
            fs = list(v[3])
            while len(fs) <= e:
                fs.append(UNINIT)
            fs[e] = self._put(st, fs[e], path[1:], val)
            return ('a', v[1], v[2], tuple(fs))
        if tag == 'o':
            x = self.expand(v)
            if x is not None:
                return self._put(st, x, path, val)
            return v
        if tag == 'u':
            return ('a', None, 0, tuple([UNINIT] * e) + (self._put(st, UNINIT, path[1:], val),))
        if tag in ('bx', 'r'):
            return self._put(st, v, path[1:], val)
        return v

    def place(self, st, fr, pl):
        cell = ('l', fr.fid, pl[0])
        path = ()
        val = None           # set when we are inside a non-place value
        for e in pl[1:]:
            if e == '*':
                v = val if val is not None else self.read(st, cell, path)
                tag = v[0]
                if tag == 'r':
                    cell, path, val = v[1], v[2], None
                elif tag == 'bx':
                    if val is None:
                        path = path + ('*',)
                    else:
                        val = v[1]
                elif tag == 'o':
                    c = ('oc', v[1])
                    if c not in st.cells:
                        t = self.p.types.get(v[2])
                        to = t['to'] if t and t['k'] in ('ref', 'ptr') else None
                        if to is None:
                            st.cells[c] = ('o', (v[1], '*'), v[2], v[3])
                        else:
                            st.cells[c] = self.mk(to, (v[1], '*'), v[3])
                    cell, path, val = c, (), None
                else:
                    val = v
            elif e == 'oc':
                pass
            elif e[0] == 'v':
                v = val if val is not None else self.read(st, cell, path)
                if v[0] == 'o':
                    t = self.p.types[v[2]]
                    if t['k'] == 'adt' and t['adt'] == 'enum':
                        x = self.expand(v, e[1])
                        st.subst_opaque(v[1], x)
                        if val is not None:
                            val = x
            elif e[0] == 'f':
                if val is not None:
                    val = self.child(st, None, (), val, e[1])
                else:
                    path = path + (e[1],)
            elif e[0] in ('i', 'ci', 'ss'):
                v = val if val is not None else self.read(st, cell, path)
                val = self.index(st, fr, v, e)
        if val is not None:
            return ('val', val)
        return ('c', cell, path)

    def content_of(self, st, v):
        """bytes designated by a value (following references)."""
        tag = v[0]
        if tag == 's' or tag == 'v':
            return v[1]
        if tag == 'r':
            return self.content_of(st, self.read(st, v[1], v[2]))
        if tag == 'ms':
            c = self.content_of(st, self.read(st, v[1], v[2]))
            return self.cslice(st, c, v[3], v[4])
        if tag == 'bx':
            return self.content_of(st, v[1])
        if tag == 'a' and len(v[3]) == 1:       # newtype / Cow::{Borrowed,Owned}
            return self.content_of(st, v[3][0])
        if tag == 'o':
            return seq(('bytes', v[1]), None, v[3])
        return seq(fresh_id('bytes'), None)

    def cslice(self, st, c, lo, hi):
        """Sub-content [lo, hi)."""
        n = clen(c)
        if lo == ZERO and hi == n:
            return c
        if len(c) == 1:
            s = c[0]
            if s[0] == 'S':
                return ccat((('S', s[1], s[2] + lo, s[2] + hi),))
            if lo.is_const() and hi.is_const():
                return ccat((('L', s[1][lo.c:hi.c]),))
        # several segments: cut at the segment boundaries we can order
        pos = ZERO
        out = []
        for s in c:
            end = pos + seg_len(s)
            if st.ent(end - lo):            # end <= lo : before the cut
                pos = end
                continue
            if st.ent(hi - pos):            # pos >= hi : after it
                break
            a = ZERO if st.ent(lo - pos) else (lo - pos if st.ent(pos - lo) else None)
            b = (end - pos) if st.ent(end - hi) else (hi - pos if st.ent(hi - end) else None)
            if a is None or b is None:
                return seq(fresh_id('cut'), hi - lo, ctaint(c))
            if s[0] == 'S':
                out.append(('S', s[1], s[2] + a, s[2] + b))
            elif a.is_const() and b.is_const():
                out.append(('L', s[1][a.c:b.c]))
            else:
                return seq(fresh_id('cut'), hi - lo, ctaint(c))
            pos = end
        return ccat(tuple(out))

    def index(self, st, fr, v, e):
        while v[0] == 'r':
            v = self.read(st, v[1], v[2])
        if e[0] == 'i':
            iv = st.cells.get(('l', fr.fid, e[1]), UNINIT)
            i = iv[1] if iv[0] == 'i' else None
        elif e[0] == 'ci':
            i = Lin(e[1])
        else:
            i = None
        if v[0] in ('s', 'v', 'ms'):
            c = self.content_of(st, v)
            if e[0] == 'ss':
                lo = Lin(e[1])
                hi = clen(c) - e[2] if e[3] else Lin(e[2])
                return ('s', self.cslice(st, c, lo, hi))
            if i is not None and e[0] == 'ci' and len(e) > 3 and e[3]:
                i = clen(c) - e[1]
            l = lit(c)
            if l is not None and i is not None and i.is_const() and 0 <= i.c < len(l):
                return ('i', Lin(l[i.c]))
            if i is not None and len(c) == 1 and c[0][0] == 'S':
                y = SYM.named(('byte', c[0][1], c[0][2] + i), True, ctaint(c))
                BYTE_SYM[y] = (c[0][1], c[0][2] + i)
                return ('i', sv(y))
            return ('i', sv(SYM.fresh('byte', True, ctaint(c))))
        if v[0] == 'a' and i is not None and i.is_const() and i.c < len(v[3]):
            return v[3][i.c]
        if v[0] == 'sl':
            return self.mk(v[3], (v[1], 'elem', i if i is not None else fresh_id()), v[4])
        if v[0] == 'vec':
            et = self.p.types[v[1]]['args'][0]
            return self.mk(et, (fresh_id('el'),), v[5])
        if v[0] == 'o' and v[2] is not None:
            t = self.p.types[v[2]]
            if t['k'] in ('array', 'slice'):
                return self.mk(t['elem'], (v[1], fresh_id('el')), v[3])
        return ('o', fresh_id('idx'), None, frozenset())

    def read_place(self, st, fr, pl):
        r = self.place(st, fr, pl)
        if r[0] == 'val':
            return r[1]
        return self.read(st, r[1], r[2])

    def write_place(self, st, fr, pl, val):
        r = self.place(st, fr, pl)
        if r[0] == 'val':
            b = r[1]
            return              # element of a byte buffer: content is opaque
        if val[0] == 'a' and val[1] is not None:
            pass
        self.write(st, r[1], r[2], val)

    # -- operands
    def operand(self, st, fr, o):
        k = o[0]
        if k == 'c':
            return self.read_place(st, fr, o[1])
        if k == 'm':
            r = self.place(st, fr, o[1])
            if r[0] == 'val':
                return r[1]
            v = self.read(st, r[1], r[2])
            if r[1][0] == 'l' and not self.is_copy(v):
                self.write(st, r[1], r[2], UNINIT)
            return v
        if k == 'k':
            return self.const(st, o[1], o[2])
        if k == 'rc':
            return FALSE
        raise Stop('operand ' + str(o))

    def is_copy(self, v):
        return v[0] in ('i', 'b', 's', 'fn')

    def const(self, st, ty, c):
        k = c['k']
        if k == 'int':
            return ('i', Lin(int(c['v'])))
        if k == 'char':
            v = c['v']
            return ('i', Lin(v if isinstance(v, int) else ord(v)))
        if k == 'bool':
            return ('b', bool(c['v']))
        if k == 'bytes':
            return ('s', ccat((('L', bytes(c['v'])),)))
        if k == 'barr':
            return ('v', ccat((('L', bytes(c['v'])),)))
        if k == 'fn':
            return ('fn', c['inst'], ty)
        if k == 'adt':
            fts = self.p.field_types(ty, c['variant'])
            return ('a', ty, c['variant'], tuple(self.const(st, ft, f) for ft, f in zip(fts, c['fields'])))
        if k == 'ref':
            v = self.const(st, c['ty'], c['to'])
            cell = ('kc', json.dumps(c, sort_keys=True))
            st.cells[cell] = v
            return ('r', cell, ())
        if k == 'arr':
            return ('a', ty, 0, tuple(self.const(st, c.get('ty', ty), x) for x in c['v'])) if isinstance(c.get('v'), list) else self.mk(ty, ('const', json.dumps(c, sort_keys=True)))
        if k == 'slice':
            n = len(c['v']) if 'v' in c else None
            return ('sl', ('const', json.dumps(c, sort_keys=True)), Lin(n) if n is not None else sv(SYM.fresh()), self.p.types[self.p.types[ty]['to']]['elem'], frozenset())
        if k == 'zst':
            t = self.p.types[ty]
            if t['k'] == 'fndef':
                return ('fn', t['inst'], ty)
            return ('a', ty, 0, ())
        return self.mk(ty, ('const', ty, json.dumps(c, sort_keys=True)))

    # -- rvalues
    def rvalue(self, st, fr, rv, dest_ty):
        k = rv[0]
        if k == 'use':
            return self.operand(st, fr, rv[1])
        if k in ('ref', 'addr'):
            r = self.place(st, fr, rv[2])
            mut = rv[1]
            if r[0] == 'val':
                v = r[1]
                if v[0] in ('s', 'sl'):
                    return v
                if v[0] == 'ms':
                    return v if mut else ('s', self.content_of(st, v))
                cell = ('h',) + fresh_id('tmp')
                st.cells[cell] = v
                return ('r', cell, ())
            to = self.p.types.get(dest_ty, {}).get('to')
            if to is not None and self.p.bytes_unsized(to):
                # reborrow of an unsized byte place
                v = self.read(st, r[1], r[2])
                if v[0] in ('s',):
                    return v
                if v[0] == 'ms':
                    return v if mut else ('s', self.content_of(st, v))
                if v[0] == 'v':
                    if not mut:
                        return ('s', v[1])
                    return ('ms', r[1], r[2], ZERO, clen(v[1]))
            return ('r', r[1], r[2])
        if k == 'agg':
            kind, ty, variant, ops = rv[1], rv[2], rv[3], rv[4]
            vals = tuple(self.operand(st, fr, o) for o in ops)
            if kind == 'array':
                t = self.p.types[dest_ty]
                if t['k'] == 'array' and self.p.is_byte(t['elem']):
                    bs = []
                    for v in vals:
                        if v[0] == 'i' and v[1].is_const():
                            bs.append(v[1].c)
                        else:
                            return ('v', seq(fresh_id('arr'), Lin(len(vals))))
                    return ('v', ccat((('L', bytes(bs)),)))
                return ('a', dest_ty, 0, vals)
            if kind == 'adt' or kind == 'closure':
                if kind == 'adt' and self.mon is not None:
                    self.mon.on_agg(self, st, ty, variant, vals)
                return ('a', ty, variant, vals)
            if kind == 'rawptr':
                return vals[0]
            return ('a', dest_ty, 0, vals)
        if k == 'bin':
            return self.binop(st, rv[1], self.operand(st, fr, rv[2]), self.operand(st, fr, rv[3]), dest_ty)
        if k == 'cbin':
            a = self.operand(st, fr, rv[2])
            b = self.operand(st, fr, rv[3])
            r = self.binop(st, rv[1], a, b, None)
            et = self.p.types[dest_ty]['elems'][0]
            t = self.p.types[et]
            lo, hi = self.int_range(t)
            ov = ('b', ('u', fresh_id('ov')))
            if r[0] == 'i':
                L = r[1]
                c1 = ('le', L - hi)
                c2 = ('le', Lin(lo) - L)
                ov = ('b', ('not', c2) if rv[1] == 'Sub' else ('not', c1))
            return ('a', dest_ty, 0, (r, ov))
        if k == 'un':
            v = self.operand(st, fr, rv[2])
            if rv[1] == 'Not':
                if v[0] == 'b':
                    return ('b', neg(v[1]))
                return self.mk(dest_ty, fresh_id('not'))
            if rv[1] == 'PtrMetadata':
                return self.ptr_len(st, v, dest_ty)
            if rv[1] == 'Neg' and v[0] == 'i':
                return ('i', -v[1])
            return self.mk(dest_ty, fresh_id('un'))
        if k == 'cast':
            v = self.operand(st, fr, rv[3])
            return self.cast(st, rv[1], rv[2], v)
        if k == 'discr':
            v = self.read_place(st, fr, rv[1])
            return self.discr(st, v, dest_ty)
        if k == 'len':
            v = self.read_place(st, fr, rv[1])
            return self.ptr_len(st, v, dest_ty)
        if k == 'repeat':
            v = self.operand(st, fr, rv[2])
            t = self.p.types[dest_ty]
            if t['k'] == 'array' and self.p.is_byte(t['elem']):
                n = int(rv[1])
                return ('v', seq(fresh_id('rep'), Lin(n)))
            if t['k'] == 'array' and int(t['len']) <= 8:
                return ('a', dest_ty, 0, tuple([v] * int(t['len'])))
            return self.mk(dest_ty, fresh_id('rep'))
        return self.mk(dest_ty, fresh_id(k))

    def int_range(self, t):
        if t['k'] == 'char':
            return 0, 0x10ffff
        n = 8 * t['bytes']
        if t['signed']:
            return -(1 << (n - 1)), (1 << (n - 1)) - 1
        return 0, (1 << n) - 1

    def ptr_len(self, st, v, dest_ty):
        if v[0] in ('s', 'ms', 'v'):
            return ('i', clen(self.content_of(st, v)))
        if v[0] == 'sl':
            return ('i', v[2])
        if v[0] == 'r':
            return self.ptr_len(st, self.read(st, v[1], v[2]), dest_ty)
        if v[0] == 'vec':
            return ('i', v[2])
        if v[0] == 'a':
            return ('i', Lin(len(v[3])))
        return self.mk(dest_ty, fresh_id('plen'))

    def kind_excluded(self, oid, ty, discr):
        """Error kinds known not to be the case: ('ekind', id, names)."""
        if not (isinstance(oid, tuple) and len(oid) == 3 and oid[0] == 'ekind'):
            return False
        return any(self.p.types[ty]['variants'][j]['name'] in oid[2] for j in range(self.p.nvariants(ty))
                   if self.p.variant_discr(ty, j) == discr)

    def discr(self, st, v, dest_ty):
        if v[0] == 'a':
            return ('i', Lin(self.p.variant_discr(v[1], v[2])))
        if v[0] == 'o' and v[2] is not None:
            return ('dsc', v[1], v[2])
        return self.mk(dest_ty, fresh_id('discr'))

    def cast(self, st, kind, ty, v):
        t = self.p.types[ty]
        ks = kind if isinstance(kind, str) else json.dumps(kind)
        if ks == 'IntToInt':
            if v[0] == 'i':
                lo, hi = self.int_range(t)
                if t.get('bytes', 4) >= 8 and not t['signed'] and all(SYM.nonneg[s] and c > 0 for s, c in v[1].t) and v[1].c >= 0:
                    return v
                if st.ent(v[1] - hi) and st.ent(Lin(lo) - v[1]):
                    return v
                return ('i', sv(SYM.fresh('cast', lo >= 0, taint_of(self, st, v))))
            if v[0] == 'b':
                if v[1] in (True, False):
                    return ('i', Lin(int(v[1])))
            if v[0] == 'dsc':
                return self.mk(ty, ('dsc', v[1]))
            return self.mk(ty, fresh_id('cast'))
        if 'Unsize' in ks:
            if v[0] == 'r':
                to = t.get('to')
                if to is not None:
                    if self.p.bytes_unsized(to):
                        w = self.read(st, v[1], v[2])
                        if t.get('mut'):
                            return ('ms', v[1], v[2], ZERO, clen(self.content_of(st, w)))
                        return ('s', self.content_of(st, w))
                    if self.p.types[to]['k'] == 'slice':
                        w = self.read(st, v[1], v[2])
                        n = Lin(len(w[3])) if w[0] == 'a' else sv(SYM.fresh('n'))
                        if w[0] == 'o':
                            tt = self.p.types[w[2]]
                            if tt['k'] == 'array':
                                n = Lin(int(tt['len']))
                        return ('sl', ('arr', v[1], v[2]), n, self.p.types[to]['elem'], taint_of(self, st, w))
            return v
        return v

    def binop(self, st, op, a, b, dest_ty):
        op = op.replace('Unchecked', '').replace('WithOverflow', '')
        if op in ('Lt', 'Le', 'Gt', 'Ge', 'Eq', 'Ne'):
            if a[0] == 'i' and b[0] == 'i':
                x, y = a[1], b[1]
                if y.is_const() != x.is_const():
                    k = y.c if y.is_const() else x.c
                elif y.is_const():
                    k = max(x.c, y.c)
                else:
                    k = 0
                if 2 <= k <= 256 and len(THRESHOLDS) < 12:
                    THRESHOLDS.add(k)
                if op == 'Lt':
                    return ('b', ('le', x - y + 1))
                if op == 'Le':
                    return ('b', ('le', x - y))
                if op == 'Gt':
                    return ('b', ('le', y - x + 1))
                if op == 'Ge':
                    return ('b', ('le', y - x))
                if op == 'Eq':
                    return ('b', ('eq', x - y))
                return ('b', ('not', ('eq', x - y)))
            if a[0] == 'b' and b[0] == 'b' and op in ('Eq', 'Ne'):
                r = None
                if b[1] in (True, False):
                    r = a[1] if b[1] else neg(a[1])
                elif a[1] in (True, False):
                    r = b[1] if a[1] else neg(b[1])
                if r is not None:
                    return ('b', r if op == 'Eq' else neg(r))
            if op in ('Eq', 'Ne') and ('dsc' in (a[0], b[0])):
                d, o = (a, b) if a[0] == 'dsc' else (b, a)
                if o[0] == 'i' and o[1].is_const():
                    if self.kind_excluded(d[1], d[2], o[1].c):
                        return ('b', op == 'Ne')
                    c = ('dis', d[1], d[2], o[1].c)
                    return ('b', c if op == 'Eq' else neg(c))
                if o == d:
                    return ('b', op == 'Eq')
            return ('b', ('u', fresh_id('cmp')))
        if a[0] == 'i' and b[0] == 'i':
            if op == 'Add':
                return ('i', a[1] + b[1])
            if op == 'Sub':
                return ('i', a[1] - b[1])
            if op == 'Mul':
                if b[1].is_const():
                    return ('i', a[1].scale(b[1].c))
                if a[1].is_const():
                    return ('i', b[1].scale(a[1].c))
            if op in ('Div', 'Rem', 'Shr', 'BitAnd') and b[1].is_const() and a[1].is_const():
                x, y = a[1].c, b[1].c
                if op == 'Shr':
                    return ('i', Lin(x >> y))
                if op == 'BitAnd':
                    return ('i', Lin(x & y))
                if y:
                    return ('i', Lin(x // y if op == 'Div' else x % y))
            if op in ('Div', 'Shr') and b[1].is_const() and b[1].c > 0:
                d = b[1].c if op == 'Div' else 1 << b[1].c
                q = SYM.fresh('q')
                st.add_le(sv(q).scale(d) - a[1])
                st.add_le(a[1] - sv(q).scale(d) - (d - 1))
                return ('i', sv(q))
        if a[0] == 'b' and b[0] == 'b' and op in ('BitAnd', 'BitOr'):
            return ('b', conj([a[1], b[1]]) if op == 'BitAnd' else neg(conj([neg(a[1]), neg(b[1])])))
        if dest_ty is not None:
            return self.mk(dest_ty, fresh_id('bin'))
        return ('i', sv(SYM.fresh('bin', False)))

    # -- conditions
    def assume(self, st, c, val):
        """List of states refining `st` where condition c has value val."""
        if c is True or c is False:
            return [st] if c == val else []
        k = c[0]
        if k == 'not':
            return self.assume(st, c[1], not val)
        if k == 'and':
            if val:
                out = [st]
                for x in c[1]:
                    out = [t for s in out for t in self.assume(s, x, True)]
                return out
            out = []
            cur = [st]
            for x in c[1]:
                nxt = []
                for s in cur:
                    out.extend(self.assume(s.copy(), x, False))
                    nxt.extend(self.assume(s, x, True))
                cur = nxt
            return out
        if k == 'le':
            s = st.copy()
            try:
                s.add_le(c[1] if val else (-c[1]) + 1)
                return [s]
            except Infeasible:
                return []
        if k == 'eq':
            L = c[1]
            if getattr(self.mon, 'BYTES', False) and len(L.t) == 1 and L.t[0][0] in BYTE_SYM and L.t[0][1] in (1, -1):
                # one byte of a text compared with a constant
                src, pos = BYTE_SYM[L.t[0][0]]
                v = -L.c * L.t[0][1]
                if not 0 <= v <= 255:
                    return [] if val else [st]
                r = self.assume_match(st, ('m', src, pos, (('L', bytes([v])),)), val)
                if not val:
                    return r
                out = []
                for s in r:
                    s = s.copy()
                    try:
                        s.add_eq(L)
                        out.append(s)
                    except Infeasible:
                        pass
                return out
            if val:
                s = st.copy()
                try:
                    s.add_eq(L)
                    return [s]
                except Infeasible:
                    return []
            out = []
            for M in (L + 1, (-L) + 1):
                s = st.copy()
                try:
                    s.add_le(M)
                    out.append(s)
                except Infeasible:
                    pass
            return out
        if k == 'u' or k == 'p':
            if (c, not val) in st.facts:
                return []
            if (c, val) in st.facts:
                return [st]
            s = st.copy()
            s.add_fact((c, val))
            return [s]
        if k == 'm':
            return self.assume_match(st, c, val)
        if k == 'pre':
            _, src, lo, hi, h = c
            s = st.copy()
            if not val:
                # the range is no longer than h, so h cannot start at lo
                s.add_fact(('nf', src, h, lo, lo + clen(h)))
            elif h and h[0][0] == 'L' and s.ent(lo + 1 - hi):
                return self.assume_match(s, ('m', src, lo, (('L', h[0][1][:1]),)), True)
            return [s]
        if k == 'dis':
            _, oid, ty, d = c
            n = self.p.nvariants(ty)
            out = []
            for i in range(n):
                if (self.p.variant_discr(ty, i) == d) == val:
                    s = st.copy()
                    x = self.expand(('o', oid, ty, self.opaque_taint(st, oid)), i)
                    s.subst_opaque(oid, x)
                    out.append(s)
            return out
        raise Stop('cond %r' % (c,))

    def opaque_taint(self, st, oid):
        for v in st.cells.values():
            o = find_opaque(v, oid)
            if o is not None:
                return o[3]
        return frozenset()

    def assume_match(self, st, c, val):
        _, src, pos, pat = c
        l = lit(pat)
        ld = pat[0][1] if pat and pat[0][0] == 'L' else b''
        for f in st.facts:
            if f[0] == 'm' and f[1] == src:
                if f[3] == pat and st.ent_eq(f[2], pos):
                    return [st] if f[4] == val else []
                if ld and val and f[4] and f[3] and f[3][0][0] == 'L':
                    # two texts at one position: what both begin with agrees
                    l2 = f[3][0][1]
                    n = min(len(ld), len(l2))
                    if ld[:n] != l2[:n] and st.ent_eq(f[2], pos):
                        return []
                if val and f[4] and l is not None:
                    l2 = lit(f[3])
                    if l2 is not None and st.ent_eq(f[2], pos):
                        n = min(len(l), len(l2))
                        if l[:n] != l2[:n]:
                            return []
                        if len(l) <= len(l2):
                            return [st]
                if not val and f[4] and l is not None:
                    l2 = lit(f[3])
                    if l2 is not None and st.ent_eq(f[2], pos) and l2[:len(l)] == l:
                        return []
        s = st.copy()
        s.add_fact(('m', src, pos, pat, val))
        return [s]

    def content_eq(self, st, a, b):
        """Condition: two contents are equal."""
        if a == b:
            return True
        la, lb = lit(a), lit(b)
        if la is not None and lb is not None:
            return la == lb
        if la is not None:
            a, b, la, lb = b, a, lb, la
        ln = ('eq', clen(a) - clen(b))
        if len(a) == 1 and a[0][0] == 'S':
            if lb == b'':
                return ('eq', clen(a))
            return conj([ln, ('m', a[0][1], a[0][2], b)])
        return ('u', fresh_id('ceq')) if clen(a) != clen(b) or True else True

    def content_starts(self, st, h, pat):
        if not pat:
            return True
        lh, lp = lit(h), lit(pat)
        if lh is not None and lp is not None:
            return lh.startswith(lp)
        if h == pat:
            return True
        ln = ('le', clen(pat) - clen(h))
        if len(h) == 1 and h[0][0] == 'S':
            return conj([ln, ('m', h[0][1], h[0][2], pat)])
        # common literal/segment prefix
        if h and pat and h[0] == pat[0]:
            return self.content_starts(st, h[1:], pat[1:])
        if len(h) > 1 and h[0][0] == 'S' and st.ent(clen(pat) - seg_len(h[0])):
            return ('m', h[0][1], h[0][2], pat)
        if not h:
            return ('eq', clen(pat))
        if len(pat) == 1 and pat[0][0] == 'S':
            # is this range of a stream a prefix of the (fixed) text h?
            return conj([ln, ('pre', pat[0][1], pat[0][2], pat[0][3], h)])
        return conj([ln, ('u', fresh_id('starts'))])

    # -- execution
    def exec_call_inst(self, st, inst, args, parent_fid, site):
        """Analyse a function body with argument values; [(ret, state)]."""
        body = self.p.body(inst)
        fid = self.fid(parent_fid, site, inst)
        fr = Frame(fid, body, inst)
        self.stats['fns'].add(inst)
        self.stats['calls'][inst] = self.stats['calls'].get(inst, 0) + 1
        if self.depth > 80:
            raise Stop('call depth in ' + body.name)
        s = st.copy()
        for i, a in enumerate(args):
            s.cells[('l', fid, i + 1)] = a
        self.depth += 1
        save = self.cur
        outs = self.region(fr, frozenset(body.reach), 0, {0: [s]}, top=True)
        self.depth -= 1
        self.cur = save
        res = []
        for s in outs.get('ret', []):
            rv = s.cells.get(('l', fid, 0), UNINIT)
            for k in [k for k in s.cells if k[0] == 'l' and k[1] == fid]:
                del s.cells[k]
            res.append((rv, s))
        if len(res) > 1:
            res = self.dedupe_rets(res)
        return res

    RET = ('g', '__ret')

    def dedupe_rets(self, res):
        canon = getattr(self.mon, 'canon', None)
        sts = []
        for rv, s in res:
            s.cells[self.RET] = rv
            if canon:
                canon(self, s)
            s.prune()
            sts.append(s)
        sts = self.J.dedupe(sts)
        if len(sts) > self.MAXD:
            sts = self.J.merge_by_key(sts)
        out = []
        for s in sts:
            rv = s.cells.pop(self.RET)
            out.append((rv, s))
        return out

    def region(self, fr, nodes, head, init, top=False):
        """Run the blocks in `nodes`; returns {target: [states]} for targets
        outside (or 'ret')."""
        pend = {k: list(v) for k, v in init.items()}
        outs = {}

        def push(t, s):
            if t in nodes and (t != head or False):
                pend.setdefault(t, []).append(s)
            elif t in nodes and t == head:
                outs.setdefault(('back', t), []).append(s)
            else:
                outs.setdefault(t, []).append(s)

        for is_loop, h, comp in fr.body.region(nodes, head):
            ins = pend.pop(h, None)
            if not ins:
                continue
            if not is_loop:
                if len(ins) > 1:
                    ins = self.at_block(fr, h, ins)
                for s in ins:
                    for t, s2 in self.block(fr, h, s):
                        push(t, s2)
            else:
                for t, ss in self.loop(fr, h, comp, ins).items():
                    for s in ss:
                        push(t, s)
        return outs

    def kill_dead(self, fr, bb, s):
        live = fr.body.live[bb]
        addr = fr.body.addr
        cand = None
        for k in [k for k in s.cells if k[0] == 'l' and k[1] == fr.fid]:
            n = k[2]
            if n not in live and n not in addr:
                del s.cells[k]
            elif s.cells[k] == UNINIT:
                del s.cells[k]
            elif n not in live:
                if cand is None:
                    cand = []
                cand.append(k)
        while cand:
            # address-taken locals nothing refers to any more
            held = _NOREF
            cs = set(cand)
            for k, v in s.cells.items():
                if k not in cs:
                    held = held | refs_of(v)
            # closure over candidates that are themselves held
            keep = set(k for k in cand if k in held)
            todo = list(keep)
            while todo:
                for c in refs_of(s.cells[todo.pop()]):
                    if c in cs and c not in keep:
                        keep.add(c)
                        todo.append(c)
            for k in cand:
                if k not in keep:
                    del s.cells[k]
            break

    def at_block(self, fr, bb, ins):
        canon = getattr(self.mon, 'canon', None)
        for s in ins:
            self.kill_dead(fr, bb, s)
            if canon:
                canon(self, s)
            s.prune()
        ins = self.J.dedupe(ins, False)
        if len(ins) > self.MAXD:
            ins = self.J.merge_by_key(ins)
        return ins

    MAX_ITERS = 40

    def loop(self, fr, h, comp, ins):
        lid = (fr.fid, h)
        canon = getattr(self.mon, 'canon', None)
        for s in ins:
            self.kill_dead(fr, h, s)
            if canon:
                canon(self, s)
            s.prune()
        inv = self.Inv()
        self.J.absorb(inv, ins, lid, 0)
        it = 0
        cache = {}
        while True:
            it += 1
            if it > self.MAX_ITERS:
                raise Stop('loop at %s bb%d does not stabilise' % (fr.body.name, h))
            back = []
            for k, e in list(inv.items()):
                ce = cache.get(k)
                if ce is not None and ce[0] is e:
                    continue
                mark = len(self.reports)
                outs = self.region(fr, comp, h, {h: [e.copy()]})
                back.extend(outs.pop(('back', h), []))
                cache[k] = (e, outs, self.reports[mark:])
                del self.reports[mark:]
            for s in back:
                self.kill_dead(fr, h, s)
                if canon:
                    canon(self, s)
                s.prune()
            if os.environ.get('AI_LOOP'):
                print('loop', self.depth, fr.body.name, 'bb', h, 'it', it, 'inv', len(inv), 'back', len(back), file=sys.stderr)
            if not self.J.absorb(inv, back, lid, it):
                break
        outs = {}
        for k in inv:
            e, o, reps = cache[k]
            self.reports.extend(reps)
            for t, ss in o.items():
                outs.setdefault(t, []).extend(ss)
        self.stats['loops'][lid] = it
        return outs

    def block(self, fr, bb, st):
        st = st.copy()
        self.stats['steps'] += 1
        if self.stats['steps'] > self.budget:
            raise Stop('step budget exhausted')
        self.stats['blocks'].add((fr.body.name, bb))
        body = fr.body
        bl = body.blocks[bb]
        self.cur = (fr, bb)
        try:
            for s in bl['s']:
                k = s[0]
                if k == '=':
                    pl = s[1]
                    dt = self.place_ty(fr, pl)
                    v = self.rvalue(st, fr, s[2], dt)
                    self.write_place(st, fr, pl, v)
                elif k in ('sl', 'sx'):
                    st.cells.pop(('l', fr.fid, s[1]), None)
                elif k == 'sd':
                    v = self.read_place(st, fr, s[1])
                    if v[0] == 'a':
                        self.write_place(st, fr, s[1], ('a', v[1], s[2], v[3]))
            return self.term(fr, bb, bl['t'], st)
        except Infeasible:
            return []

    def place_ty(self, fr, pl):
        ty = fr.body.locals[pl[0]]
        if len(pl) == 1:
            return ty
        for e in pl[1:]:
            if e == '*':
                t = self.p.types.get(ty)
                if t is None:
                    return None
                ty = t.get('to')
                if ty is None and t.get('box'):
                    ty = t['args'][0]
            elif e == 'oc' or e[0] == 'v':
                pass
            elif e[0] == 'f':
                ty = e[2]
            else:
                t = self.p.types.get(ty, {})
                if e[0] != 'ss':
                    ty = t.get('elem')
        return ty

    def term(self, fr, bb, t, st):
        k = t[0]
        if k == 'goto':
            return [(t[1], st)]
        if k == 'ret':
            return [('ret', st)]
        if k in ('unreach', 'resume', 'abort'):
            return []
        if k == 'sw':
            return self.switch(fr, st, t)
        if k == 'drop':
            r = self.place(st, fr, t[1])
            if r[0] == 'c':
                v = self.read(st, r[1], r[2])
                outs = self.models.drop(self, st, v, t[2])
                if r[1][0] == 'l':
                    for s in outs:
                        self.write(s, r[1], r[2], UNINIT)
                return [(t[3], s) for s in outs]
            return [(t[3], st)]
        if k == 'assert':
            v = self.operand(st, fr, t[1])
            exp = t[2]
            c = v[1] if v[0] == 'b' else ('u', fresh_id('as'))
            bad = self.assume(st.copy(), c, not exp)
            msg = t[3]
            skip = 'overflow' in msg and ('add' in msg or 'multiply' in msg)
            if not skip:
                self.oblig('assert', not bad)
                if bad:
                    self.models.on_panic(self, bad[0], 'arith', msg)
            return [(t[4], s) for s in self.assume(st, c, exp)]
        if k == 'call':
            return self.call(fr, bb, t, st)
        raise Stop('terminator ' + k)

    def switch(self, fr, st, t):
        v = self.operand(st, fr, t[1])
        out = []
        if v[0] == 'b':
            c = v[1]
            for val, b in t[2]:
                for s in self.assume(st.copy(), c, bool(int(val))):
                    out.append((b, s))
            vals = {bool(int(x)) for x, _ in t[2]}
            if t[3] is not None:
                for w in (False, True):
                    if w not in vals:
                        for s in self.assume(st.copy(), c, w):
                            out.append((t[3], s))
            return out
        if v[0] == 'i':
            L = v[1]
            if L.is_const():
                for val, b in t[2]:
                    if int(val) == L.c:
                        return [(b, st)]
                return [(t[3], st)] if t[3] is not None else []
            rest = [st]
            for val, b in t[2]:
                nrest = []
                for s in rest:
                    for x in self.assume(s.copy(), ('eq', L - int(val)), True):
                        out.append((b, x))
                    nrest.extend(self.assume(s, ('eq', L - int(val)), False))
                rest = nrest
            if t[3] is not None:
                out.extend((t[3], s) for s in rest)
            return out
        if v[0] == 'dsc':
            _, oid, ty = v
            n = self.p.nvariants(ty)
            listed = {int(x): b for x, b in t[2]}
            if n > 12:
                for x, b in t[2]:
                    if self.kind_excluded(oid, ty, int(x)):
                        continue
                    s = st.copy()
                    i = [j for j in range(n) if self.p.variant_discr(ty, j) == int(x)]
                    if i and getattr(self.mon, 'OTHERWISE_FACTS', False):
                        s = next(iter(self.assume(s, ('p', ('isvar', oid, i[0])), True)), None)
                        if s is None:
                            continue
                    if i:
                        x_ = self.expand(('o', oid, ty, self.opaque_taint(st, oid)), i[0])
                        s.subst_opaque(oid, x_)
                    out.append((b, s))
                if t[3] is not None:
                    ss = [st.copy()]
                    if getattr(self.mon, 'OTHERWISE_FACTS', False):
                        for x, b in t[2]:
                            for j in range(n):
                                if self.p.variant_discr(ty, j) == int(x):
                                    ss = [s2 for s in ss for s2 in self.assume(s, ('p', ('isvar', oid, j)), False)]
                    out.extend((t[3], s) for s in ss)
                return out
            taint = self.opaque_taint(st, oid)
            for i in range(n):
                d = self.p.variant_discr(ty, i)
                b = listed.get(d, t[3])
                if b is None:
                    continue
                s = st.copy()
                s.subst_opaque(oid, self.expand(('o', oid, ty, taint), i))
                out.append((b, s))
            return out
        # unknown: all branches
        for val, b in t[2]:
            out.append((b, st.copy()))
        if t[3] is not None:
            out.append((t[3], st.copy()))
        return out

    def call(self, fr, bb, t, st):
        callee, args, dest, target = t[1], t[2], t[3], t[4]
        vals = [self.operand(st, fr, a) for a in args]
        atys = [self.op_ty(fr, a) for a in args]
        dty = self.place_ty(fr, dest)
        c = Call(self, fr, bb, callee, vals, atys, dty)
        if 'fop' in callee and callee.get('inst') is None:
            c.fval = self.operand(st, fr, callee['fop'])
        res = self.dispatch(st, c)
        out = []
        if target is None or target < 0:
            return []
        for rv, s in res:
            self.cur = (fr, bb)
            self.write_place(s, fr, dest, rv)
            out.append((target, s))
        return out

    def op_ty(self, fr, o):
        if o[0] in ('c', 'm'):
            return self.place_ty(fr, o[1])
        if o[0] == 'k':
            return o[1]
        return None

    def dispatch(self, st, c):
        m = self.models.lookup(c)
        if m is not None:
            el = st.el
            r = m(self, st, c)
            if r is not None:
                return [(renew(rv, s, el), s) if s.el is not el else (rv, s) for rv, s in r]
        inst = c.inst
        if inst is not None and self.p.fns[inst]['body']:
            args = c.args
            if c.defn in CALLS and self.p.fns[inst]['kind'] == 'item' and len(args) == 2 and args[1][0] == 'a' \
                    and args[1][1] is not None and self.p.types[args[1][1]]['k'] == 'tuple':
                if '{closure' in self.p.fns[inst]['def'].rsplit('::', 1)[-1]:
                    args = [args[0]] + list(args[1][3])       # rust-call ABI
            return self.exec_call_inst(st, inst, args, c.fr.fid, c.bb)
        r = self.models.callable(self, st, c)
        if r is not None:
            return r
        return self.models.unknown(self, st, c)

    def call_value(self, st, f, args, c, tag=''):
        """Call a closure / fn item value with a list of argument values."""
        site = (c.bb, tag) if tag else c.bb
        holder = None
        v = f
        while v[0] == 'r':
            holder = v
            v = self.read(st, v[1], v[2])
        if v[0] == 'bx':
            v = v[1]
        if v[0] == 'fn':
            inst = v[1]
            fn = self.p.fns.get(inst)
            if fn is None:
                return [(('o', fresh_id('fnret'), None, frozenset()), st)]
            c2 = Call(self, c.fr, c.bb, {'def': fn['def'], 'inst': inst, 'kind': fn['kind'], 'targs': fn.get('args', [])}, args,
                      (fn['sig'] or {}).get('in') or [None] * len(args), (fn['sig'] or {}).get('out'))
            c2.name = fn['name']
            if fn['body'] and self.models.lookup(c2) is None:
                return self.exec_call_inst(st, inst, args, c.fr.fid, site)
            return self.dispatch(st, c2)
        if v[0] == 'a' and v[1] is not None and self.p.types[v[1]]['k'] == 'closure':
            t = self.p.types[v[1]]
            for key in ('fn', 'fnmut', 'fnonce'):
                inst = t.get(key)
                if inst is not None and self.p.fns[inst]['body'] and self.p.fns[inst]['kind'] != 'shim':
                    break
            else:
                inst = None
            if inst is not None:
                b = self.p.body(inst)
                self_ty = self.p.types[b.locals[1]]
                s = st.copy()
                if self_ty['k'] == 'ref':
                    if holder is None:
                        cell = ('h',) + fresh_id('clo')
                        s.cells[cell] = v
                        holder = ('r', cell, ())
                    selfv = holder
                else:
                    selfv = v
                return self.exec_call_inst(s, inst, [selfv] + list(args), c.fr.fid, site)
        return None

class Frame:
    __slots__ = ('fid', 'body', 'inst')

    def __init__(self, fid, body, inst):
        self.fid, self.body, self.inst = fid, body, inst

CALLS = ('std::ops::FnOnce::call_once', 'std::ops::FnMut::call_mut', 'std::ops::Fn::call')

class Call:
    def __init__(self, I, fr, bb, callee, args, atys, dty):
        self.I, self.fr, self.bb = I, fr, bb
        self.callee = callee
        self.args = args
        self.atys = atys
        self.dty = dty
        self.inst = callee.get('inst')
        self.fval = None
        d = callee.get('def') or ''
        self.defn = short(d)
        self.name = short(I.p.fns[self.inst]['name']) if self.inst is not None else self.defn
        self.idef = short(I.p.fns[self.inst]['def']) if self.inst is not None else self.defn
        self.targs = callee.get('targs') or []

def short(n):
    return n.replace('mp_harness::multipart::', 'multipart::')

def renew(v, st, el):
    """A value computed before symbols were eliminated, in today's terms."""
    new = []
    e = st.el
    while e is not None and e is not el:
        new.append(e)
        e = e[0]
    for _, s, l in reversed(new):
        v = map_lin_in(v, lambda L: L.subst(s, l))
    return v

def neg(c):
    if c is True:
        return False
    if c is False:
        return True
    if c[0] == 'not':
        return c[1]
    return ('not', c)

def conj(cs):
    out = []
    for c in cs:
        if c is True:
            continue
        if c is False:
            return False
        out.append(c)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return ('and', tuple(out))

def find_opaque(v, oid):
    if isinstance(v, tuple):
        if len(v) == 4 and v[0] == 'o' and v[1] == oid:
            return v
        for x in v:
            if isinstance(x, tuple):
                r = find_opaque(x, oid)
                if r is not None:
                    return r
    return None

def taint_of(I, st, v, seen=None, depth=0):
    """Union of taints reachable from a value."""
    if seen is None:
        seen = set()
    t = frozenset()
    tag = v[0] if v else None
    if tag in ('s', 'v'):
        return ctaint(v[1])
    if tag == 'o':
        t = v[3]
        c = ('oc', v[1])
        if c in st.cells and c not in seen:
            seen.add(c)
            t = t | taint_of(I, st, st.cells[c], seen, depth + 1)
        return t
    if tag == 'i':
        for s, _ in v[1].t:
            t = t | SYM.taint[s]
        return t
    if tag == 'sl':
        return v[4]
    if tag == 'vec':
        return v[5]
    if tag == 'lst':
        for x in v[2]:
            t = t | taint_of(I, st, x, seen, depth + 1)
        return t
    if tag in ('r', 'ms'):
        k = (v[1], v[2])
        if k in seen or depth > 30:
            return t
        seen.add(k)
        try:
            return taint_of(I, st, I.read(st, v[1], v[2]), seen, depth + 1)
        except Stop:
            return t
    if tag == 'a':
        for x in v[3]:
            t = t | taint_of(I, st, x, seen, depth + 1)
        return t
    if tag == 'bx':
        return taint_of(I, st, v[1], seen, depth + 1)
    if tag == 'm':   # modelled library value: ('m', kind, fields...)
        for x in v[2:]:
            if isinstance(x, tuple) and x and isinstance(x[0], str):
                t = t | taint_of(I, st, x, seen, depth + 1)
        return t
    return t
