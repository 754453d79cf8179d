"""Join, widening and inclusion of abstract states.

Integer leaves of two states of equal shape are generalised by computing the
affine hull of the two leaf vectors (Karr), so relations such as
`pos = base + idx` survive; inequalities and byte-level facts are kept when
they can be re-expressed over the joined leaves and hold in both states."""
from fractions import Fraction
from lin import Lin, SYM, ZERO, ONE, sv, norm, entails, trivially_true, project
from ai import (UNINIT, Infeasible, Stop, fresh_id, map_lin_in, collect_syms, clen, ctaint, SRC_TAINT, THRESHOLDS, seq,
                taint_of, State)

CRLF = (('L', b'\r\n'),)
STREAMS = set()      # sequences read through a buffered reader

class NoJoin(Exception):
    pass

NOCONST = ('u',)

def shape(v, st, seen):
    """Partition key of a value."""
    tag = v[0]
    if tag == 'a':
        return ('a', v[2], tuple(shape(x, st, seen) for x in v[3]))
    if tag == 'i':
        return 'i'
    if tag == 'b':
        return v if v[1] is True or v[1] is False else 'b'
    if tag == 'bx':
        return ('bx', shape(v[1], st, seen))
    if tag == 'r':
        c = v[1]
        if c[0] in ('h', 'oc'):
            return ('r', 'heap', v[2])
        return v
    if tag == 'ms':
        return ('ms', v[1] if v[1][0] not in ('h', 'oc') else 'heap', v[2])
    if tag == 'm':
        return ('m', v[1]) + tuple(shape(x, st, seen) if isinstance(x, tuple) and x and isinstance(x[0], str) else
                                   (x if isinstance(x, (str, int, bool, type(None))) else '') for x in v[2:])
    if tag == 'q':          # finite automaton state: part of the key
        return v
    if tag == 'err':
        return ('err', v[2])
    if tag == 'lst':
        return ('lst', tuple(shape(x, st, seen) for x in v[2]))
    if tag in ('s', 'v') and (PRECISE or tag == 'gv'):
        return (tag, cshape(v[1]))
    if tag == 'gv':
        return (tag, cshape(v[1]))
    return tag

PRECISE = []        # non-empty: byte contents of different structure are never merged

def cshape(ct):
    return tuple((x[0], x[1]) for x in ct)

class Inv(dict):
    """Loop invariant: one abstract state per partition key."""
    def __init__(self):
        super().__init__()
        self.ph = {}
        self.gen = {}

class Joiner:
    def __init__(self, I):
        self.I = I

    # -- keys
    def key(self, st):
        items = []
        for k in st.cells:
            if k[0] in ('h', 'oc', 'kc'):
                continue
            v = st.cells[k]
            if PRECISE and k[0] == 'l' and v[0] == 'i' and not v[1].t and v[1].c == 0:
                items.append((k, 'i0'))     # "nothing yet" is a case of its own
                continue
            items.append((k, shape(v, st, None)))
            if PRECISE and k == ('g', 'wire'):
                items.append((('g', 'wire', 'ends'), tuple(self.ends(st, x) for x in v[1] if x[0] == 'S')))
        mon = self.I.models.mon
        if mon is not None:
            items.append((('g', 'extra'), mon.key_extra(st)))
        items.sort(key=lambda x: repr(x[0]))
        sig = set()
        for f in st.facts:
            if f[0] == 'm' and f[4] and f[1] in STREAMS and any(x[0] == 'S' for x in f[3]):
                crlf = ('m', f[1], f[2] - 2, CRLF, True) in st.facts
                sig.add((f[1], f[3], crlf))
        sig = frozenset(sig)
        return (tuple(items), sig)

    def ends(self, st, x):
        """Is the range empty / does it reach the end of its sequence?"""
        d = st.cells.get(('g', 'def', x[1]))
        n = clen(d[1]) if d is not None else None
        if n is None:
            d = st.cells.get(('g', 'rdlen', x[1]))
            n = d[1] if d is not None and d[0] == 'i' else None
        return (st.ent_eq(x[2], x[3]), n is not None and st.ent_eq(x[3], n))

    def canon(self, st):
        return (frozenset(st.cells.items()), st.cons, st.facts)

    def dedupe(self, sts, prune=True):
        if len(sts) < 2:
            return sts
        seen = {}
        for s in sts:
            if prune:
                s.prune()
            k = self.canon(s)
            if k not in seen:
                seen[k] = s
        out = list(seen.values())
        if len(out) > 3:
            out = self.subsume(out)
        return out

    def subsume(self, sts):
        """Drop states that only differ by weaker/stronger numeric facts."""
        groups = {}
        for s in sts:
            k = (frozenset(s.cells.items()), s.facts)
            groups.setdefault(k, []).append(s)
        out = []
        for g in groups.values():
            keep = []
            for s in g:
                if any(all(entails(s.cons, L) for L in t.cons) for t in keep):
                    continue
                keep = [t for t in keep if not all(entails(t.cons, L) for L in s.cons)]
                keep.append(s)
            out.extend(keep)
        return out

    def merge_by_key(self, sts):
        g = {}
        for s in sts:
            g.setdefault(self.key(s), []).append(s)
        out = []
        for k, ss in g.items():
            cur = ss[0]
            rest = []
            for s in ss[1:]:
                try:
                    cur = self.join(cur, s, ('mb',), None)[0]
                except NoJoin:
                    rest.append(s)
            out.append(cur)
            out.extend(rest)
        return out

    # -- loop heads
    def absorb(self, inv, sts, lid, it):
        """Add states to the invariant map; True if it changed."""
        changed = False
        for s in sts:
            s.prune()
            k = self.key(s)
            e = inv.get(k)
            if e is None:
                inv[k] = s
                inv.ph[k] = None
                changed = True
                continue
            ph = inv.ph[k]
            if self.includes(e, ph, s):
                continue
            n = inv.gen[k] = inv.gen.get(k, 0) + 1
            try:
                j, nph = self.join(e, s, lid, ph if n >= 2 else None)
            except NoJoin as ex:
                raise Stop('cannot join loop states at %r: %s' % (lid, ex))
            if n > 25:
                raise Stop('widening does not converge at %r' % (lid,))
            inv[k] = j
            inv.ph[k] = nph
            changed = True
        return changed

    # -- traversal of two values
    def zipv(self, a, b, A, B, ctx, path):
        if a == b:
            if not ctx.need_walk(a):
                return a
        ta, tb = a[0], b[0]
        if ta != tb:
            if ta == 'u' or tb == 'u':
                return UNINIT
            if 'o' in (ta, tb) or 'err' in (ta, tb) or 'dsc' in (ta, tb) or 'fn' in (ta, tb) or 'sl' in (ta, tb) or 'vec' in (ta, tb):
                return ctx.opaque(a, b, path)
            raise NoJoin('%s: %s/%s' % (path, ta, tb))
        if ta == 'i':
            return ('i', ctx.leaf(a[1], b[1], path))
        if ta == 'b':
            if a == b and not ctx.need_walk(a):
                return a
            if a[1] in (True, False) or b[1] in (True, False):
                if a == b:
                    return a
                return ('b', ('u', ctx.uid(a, b, path)))
            c = ctx.cond(a[1], b[1], path)
            if c is None:
                return ('b', ('u', ctx.uid(a, b, path)))
            return ('b', c)
        if ta == 'a':
            if a[2] != b[2] or len(a[3]) != len(b[3]):
                raise NoJoin('variant at %s' % (path,))
            return ('a', a[1], a[2], tuple(self.zipv(x, y, A, B, ctx, path + (i,)) for i, (x, y) in enumerate(zip(a[3], b[3]))))
        if ta == 'bx':
            return ('bx', self.zipv(a[1], b[1], A, B, ctx, path + ('*',)))
        if ta == 'r':
            return ('r', ctx.cell(a[1], b[1]), self.same(a[2], b[2], path))
        if ta == 'ms':
            return ('ms', ctx.cell(a[1], b[1]), self.same(a[2], b[2], path), ctx.leaf(a[3], b[3], path + ('lo',)), ctx.leaf(a[4], b[4], path + ('hi',)))
        if ta == 'lst':
            if a[1] != b[1] or len(a[2]) != len(b[2]):
                raise NoJoin('list at %s' % (path,))
            return ('lst', a[1], tuple(self.zipv(x, y, A, B, ctx, path + (i,)) for i, (x, y) in enumerate(zip(a[2], b[2]))))
        if ta == 'gv' and cshape(a[1]) != cshape(b[1]):
            raise NoJoin('ghost content')
        if ta in ('s', 'v', 'gv'):
            return (ta, ctx.content(a[1], b[1], path))
        if ta == 'o':
            return ctx.opaque(a, b, path)
        if ta == 'sl':
            if a[3] != b[3]:
                return ctx.opaque(a, b, path)
            i = a[1] if a[1] == b[1] else ctx.oid(a, b, path)
            return ('sl', i, ctx.leaf(a[2], b[2], path + ('len',)), a[3], a[4] | b[4])
        if ta == 'vec':
            i = a[4] if a[4] == b[4] else ctx.oid(a, b, path)
            return ('vec', a[1], ctx.leaf(a[2], b[2], path + ('len',)), ctx.leaf(a[3], b[3], path + ('wt',)), i, a[5] | b[5])
        if ta == 'm':
            if a[1] != b[1] or len(a) != len(b):
                raise NoJoin('model kind at %s' % (path,))
            out = ['m', a[1]]
            for i, (x, y) in enumerate(zip(a[2:], b[2:])):
                out.append(ctx.generic(self, x, y, A, B, path + (i,)))
            return tuple(out)
        if ta == 'err':
            if a[2] != b[2]:
                raise NoJoin('error origin')
            i = a[1] if a[1] == b[1] else ctx.oid(a, b, path)
            return ('err', i, a[2], a[3] if a[3] == b[3] else None)
        if ta == 'dsc':
            if a == b:
                return a
            raise NoJoin('discriminant')
        if a == b:
            return a
        if ta == 'fn':
            return ctx.opaque(a, b, path)
        raise NoJoin('%s: %r / %r' % (path, a, b))

    def same(self, x, y, path):
        if x != y:
            raise NoJoin('ref path at %s' % (path,))
        return x

    def walk_cells(self, A, B, ctx):
        """Traverse both states' cells in lockstep; heap cells are matched
        through the references to them."""
        cells = {}
        ka = [k for k in A.cells if k[0] not in ('h', 'oc')]
        kb = set(k for k in B.cells if k[0] not in ('h', 'oc'))
        for k in sorted(ka, key=repr):
            if k[0] == 'kc':
                cells[k] = A.cells[k]
                continue
            if k not in kb:
                if k[0] == 'l':
                    continue
                raise NoJoin('cell %r' % (k,))
            cells[k] = self.zipv(A.cells[k], B.cells[k], A, B, ctx, (k,))
        for k in kb:
            if k[0] == 'kc':
                cells[k] = B.cells[k]
        # heap cells, discovered through refs
        done = set()
        while True:
            todo = [p for p in ctx.heap if p not in done]
            # opaque pointee cells present on both sides
            if not todo:
                break
            for pair in todo:
                done.add(pair)
                ca, cb, cn = pair
                va, vb = A.cells.get(ca), B.cells.get(cb)
                if va is None or vb is None:
                    continue
                cells[cn] = self.zipv(va, vb, A, B, ctx, (cn,))
        for k in A.cells:
            if k[0] == 'oc' and k in B.cells and k not in cells:
                cells[k] = self.zipv(A.cells[k], B.cells[k], A, B, ctx, (k,))
        return cells

    # -- join
    def join(self, A, B, lid, phis):
        """Generalise two states; `phis` (set) switches to widening."""
        ctx = JoinCtx(self, A, B, lid)
        cells = self.walk_cells(A, B, ctx)
        ctx.solve()
        cells = {k: ctx.final(v) for k, v in cells.items()}
        J = State(cells, frozenset(), frozenset(), A.tags)
        ctx.constraints(J, widen=phis is not None)
        ctx.factjoin(J)
        J.prune()
        return J, ctx.phi_ids()

    # -- inclusion
    def includes(self, E, phis, S):
        """Is S an instance of the invariant state E?"""
        ctx = InclCtx(self, E, S, phis)
        try:
            self.walk_cells(E, S, ctx)
            for k in S.cells:
                if k[0] == 'l' and k not in E.cells:
                    pass
            for k in E.cells:
                if k[0] == 'l' and k not in S.cells:
                    return False
        except NoJoin:
            return False
        return ctx.check()


class Ctx:
    def __init__(self, J, A, B):
        self.J, self.A, self.B = J, A, B
        self.heap = []
        self.hmap = {}

    def cell(self, ca, cb):
        if ca[0] in ('h', 'oc') and cb[0] in ('h', 'oc'):
            m = self.hmap.get(ca)
            if m is None:
                if any(x[0] == cb for x in self.hmap.values()):
                    raise NoJoin('heap shape')
                m = self.hmap[ca] = (cb, ca)
                self.heap.append((ca, cb, ca))
            elif m[0] != cb:
                raise NoJoin('heap shape')
            return m[1]
        if ca != cb:
            raise NoJoin('ref target %r / %r' % (ca, cb))
        return ca

    def need_walk(self, v):
        return has_heap(v)

    def generic(self, J, x, y, A, B, path):
        if isinstance(x, Lin) and isinstance(y, Lin):
            return self.leaf(x, y, path)
        if x == y and not (isinstance(x, tuple) and has_heap(x)):
            return x
        if isinstance(x, tuple) and isinstance(y, tuple) and x and y and isinstance(x[0], str) and x[0] in TAGS and isinstance(y[0], str):
            return J.zipv(x, y, A, B, self, path)
        if isinstance(x, frozenset) and isinstance(y, frozenset):
            return self.fset(x, y, path)
        if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
            return tuple(self.generic(J, p, q, A, B, path + (i,)) for i, (p, q) in enumerate(zip(x, y)))
        return self.other(x, y, path)

TAGS = {'lst', 'gv', 'i', 'b', 'a', 'o', 'r', 'bx', 's', 'ms', 'v', 'vec', 'sl', 'fn', 'dsc', 'u', 'm', 'err', 'q'}

def bounds_of(J):
    """Candidate bounds: a position lies within the bytes it indexes."""
    out = set()
    def total(x):
        d = J.cells.get(('g', 'def', x[1]))
        if d is not None:
            return clen(d[1])
        d = J.cells.get(('g', 'rdlen', x[1]))
        return d[1] if d is not None and d[0] == 'i' else None
    def walk(v):
        if v[0] == 'a':
            f = v[3]
            if len(f) == 2 and f[0][0] == 'i' and f[1][0] == 'i':
                out.add(f[0][1] - f[1][1])
            if len(f) == 2 and f[0][0] in ('s', 'v') and f[1][0] == 'i':
                out.add(f[1][1] - clen(f[0][1]))
            for x in f:
                walk(x)
        elif v[0] == 'lst':
            for x in v[2]:
                walk(x)
        elif v[0] == 'bx':
            walk(v[1])
        elif v[:2] == ('m', 'mvals'):
            out.add(v[3][1] - v[2][1])
        elif v[0] == 'gv':
            for x in v[1]:
                if x[0] == 'S':
                    n = total(x)
                    if n is not None:
                        out.add(x[3] - n)
    for k, v in J.cells.items():
        if k[0] != 'kc':
            walk(v)
    a, b = J.cells.get(('g', 'stored')), J.cells.get(('g', 'climit'))
    if a is not None and b is not None:
        out.add(a[1] - b[1])
    # order of the ghost positions and limits
    gi = []
    for k in (('g', 'pos'), ('g', 'seen')):
        v = J.cells.get(k)
        if v is not None and v[0] == 'i':
            gi.append(v[1])
    v = J.cells.get(('g', 'opts'))
    if gi and v is not None:
        gi += [x[1] for x in v[3] if x[0] == 'i']
        for i, x in enumerate(gi):
            for j, y in enumerate(gi):
                if i != j:
                    out.add(x - y)
                    out.add(x - y + 1)
    return {L for L in out if L.t}

def has_heap(v):
    if isinstance(v, tuple):
        if len(v) >= 3 and v[0] in ('r', 'ms') and isinstance(v[1], tuple) and v[1] and v[1][0] in ('h', 'oc'):
            return True
        for x in v:
            if isinstance(x, tuple) and has_heap(x):
                return True
    return False


class Gauss:
    """Row space over stacked vectors; every row knows the Lin it stands for."""
    def __init__(self):
        self.rows = []          # (pivot, vec, expr{key:Fraction})

    def reduce(self, vec):
        vec = dict(vec)
        comb = {}
        for piv, rv, ex in self.rows:
            k = vec.get(piv)
            if k:
                for s, c in rv.items():
                    n = vec.get(s, 0) - k * c
                    if n:
                        vec[s] = n
                    else:
                        vec.pop(s, None)
                for s, c in ex.items():
                    n = comb.get(s, 0) + k * c
                    if n:
                        comb[s] = n
                    else:
                        comb.pop(s, None)
        return vec, comb

    def insert(self, vec, name):
        """name: symbol or 1.  Returns None when inserted, or the combination
        it already equals."""
        r, comb = self.reduce(vec)
        if not r:
            return comb
        piv = min(r, key=repr)
        k = r[piv]
        rv = {s: c / k for s, c in r.items()}
        ex = {s: -c / k for s, c in comb.items()}
        ex[name] = ex.get(name, 0) + Fraction(1) / k
        self.rows.append((piv, rv, ex))
        return None


def comb_lin(comb):
    """Combination {sym or 'c': Fraction} -> Lin with integer coefs, or None."""
    c = comb.get('c', 0)
    t = []
    if Fraction(c).denominator != 1:
        return None
    for s, k in comb.items():
        if s == 'c':
            continue
        if Fraction(k).denominator != 1:
            return None
        t.append((s, int(k)))
    return Lin(int(c), tuple(sorted(t)))


class JoinCtx(Ctx):
    def __init__(self, J, A, B, lid):
        super().__init__(J, A, B)
        self.lid = lid
        self.leaves = []        # (placeholder sym, la, lb)
        self.lmap = {}
        self.omap = {}
        self.smap = {}
        self.newsyms = set()
        self.newoids = set()
        self.newsrcs = set()
        ca, cb = set(), set()
        for v in A.cells.values():
            collect_syms(v, ca)
        for L in A.cons:
            ca.update(L.syms())
        for f in A.facts:
            collect_syms(f, ca)
        for v in B.cells.values():
            collect_syms(v, cb)
        for L in B.cons:
            cb.update(L.syms())
        for f in B.facts:
            collect_syms(f, cb)
        self.common = ca & cb

    def leaf(self, a, b, path):
        if a == b:
            return a
        k = (a, b)
        p = self.lmap.get(k)
        if p is None:
            nn = self.A.ent(-a) and self.B.ent(-b)
            t = frozenset()
            for s, _ in a.t + b.t:
                t = t | SYM.taint[s]
            s = SYM.fresh('phi%s' % (path[-1:],), nn, t)
            p = self.lmap[k] = sv(s)
            self.leaves.append((s, a, b, path))
        return p

    def oid(self, a, b, path):
        k = (a, b)
        i = self.omap.get(k)
        if i is None:
            i = self.omap[k] = fresh_id('phi')
            self.newoids.add(i)
        return i

    uid = oid

    def fset(self, x, y, path):
        return x | y

    def other(self, x, y, path):
        if x != y:
            raise NoJoin('constant %r / %r at %s' % (x, y, path))
        return x

    def opaque(self, a, b, path):
        if a == b:
            return a
        t = taint_of(self.J.I, self.A, a) | taint_of(self.J.I, self.B, b)
        ty = None
        if a[0] == 'o' and b[0] == 'o' and a[2] == b[2]:
            ty = a[2]
        elif a[0] == 'o':
            ty = a[2]
        elif b[0] == 'o':
            ty = b[2]
        return ('o', self.oid(a, b, path), ty, t)

    def cond(self, a, b, path):
        if a == b:
            return a
        if a in (True, False) or b in (True, False):
            return None
        if a[0] != b[0]:
            return None
        if a[0] in ('le', 'eq'):
            return (a[0], self.leaf(a[1], b[1], path))
        if a[0] == 'not':
            c = self.cond(a[1], b[1], path)
            return None if c is None else ('not', c)
        return None

    def content(self, a, b, path):
        if a == b:
            return a
        if len(a) == len(b):
            ok = True
            for x, y in zip(a, b):
                if x[0] != y[0] or x[1] != y[1]:
                    ok = False
                    break
            if ok:
                return tuple(x if x[0] == 'L' else
                             ('S', x[1], self.leaf(x[2], y[2], path + (i, 'lo')), self.leaf(x[3], y[3], path + (i, 'hi')))
                             for i, (x, y) in enumerate(zip(a, b)))
        # empty content against a single stream range
        for x, y, flip in ((a, b, False), (b, a, True)):
            if not x and len(y) == 1 and y[0][0] == 'S':
                s = y[0]
                lo, hi = s[2], s[3]
                if flip:
                    return (('S', s[1], self.leaf(lo, hi, path + ('lo',)), hi),) if False else \
                        (('S', s[1], lo, self.leaf(hi, lo, path + ('hi',))),)
                return (('S', s[1], lo, self.leaf(lo, hi, path + ('hi',))),)
        h = self.J.I.models.content_join(self, a, b, path)
        if h is not None:
            return h
        k = ('src', a, b)
        src = self.smap.get(k)
        if src is None:
            src = self.smap[k] = fresh_id('phisrc')
            self.newsrcs.add(src)
            t = ctaint(a) | ctaint(b)
            if t:
                SRC_TAINT[src] = t
        ln = self.leaf(clen(a), clen(b), path + ('len',))
        return (('S', src, ZERO, ln),)

    # -- numbers
    def vec(self, L, side):
        return {(side, s): Fraction(k) for s, k in L.t}, Fraction(L.c)

    def stacked(self, a, b):
        v = {}
        for s, k in a.t:
            v[('A', s)] = Fraction(k)
        for s, k in b.t:
            v[('B', s)] = Fraction(k)
        if a.c:
            v[('A', '1')] = Fraction(a.c)
        if b.c:
            v[('B', '1')] = Fraction(b.c)
        return v

    def solve(self):
        g = self.g = Gauss()
        g.insert({('A', '1'): Fraction(1), ('B', '1'): Fraction(1)}, 'c')
        for s in sorted(self.common):
            g.insert({('A', s): Fraction(1), ('B', s): Fraction(1)}, s)
        self.sub = {}
        self.basis = [(None, ONE, ONE)] + [(s, sv(s), sv(s)) for s in sorted(self.common)]
        for s, a, b, path in sorted(self.leaves, key=lambda x: (len(x[1].t) + len(x[2].t), x[0])):
            comb = g.insert(self.stacked(a, b), s)
            if comb is not None:
                l = comb_lin(comb)
                if l is not None:
                    self.sub[s] = l
                    continue
            self.newsyms.add(s)
            self.basis.append((s, a, b))
        # one-sided bases, used to re-express constraints
        self.gside = {}
        for side in ('A', 'B'):
            gg = Gauss()
            gg.insert({(side, '1'): Fraction(1)}, 'c')
            # fresh leaves first: prefer them to constants of the other side
            items = [x for x in self.basis[1:]]
            for s, a, b in items:
                l = a if side == 'A' else b
                v = {(side, x): Fraction(k) for x, k in l.t}
                if l.c:
                    v[(side, '1')] = Fraction(l.c)
                gg.insert(v, s)
            self.gside[side] = gg

    def final(self, v):
        if not self.sub:
            return v
        return map_lin_in(v, lambda L: L.substmap(self.sub))

    def express(self, L, side):
        v = {(side, x): Fraction(k) for x, k in L.t}
        if L.c:
            v[(side, '1')] = Fraction(L.c)
        r, comb = self.gside[side].reduce(v)
        if r:
            return None
        # clear denominators
        from math import lcm
        d = 1
        for k in comb.values():
            d = lcm(d, Fraction(k).denominator)
        return comb_lin({s: k * d for s, k in comb.items()})

    def instA(self, L):
        return L.substmap({s: a for s, a, b in self.basis[1:] if s is not None})

    def instB(self, L):
        return L.substmap({s: b for s, a, b in self.basis[1:] if s is not None})

    def constraints(self, J, widen):
        mA = {s: a for s, a, b in self.basis[1:]}
        mB = {s: b for s, a, b in self.basis[1:]}
        out = set()
        cand = set()

        def collect(st, side):
            # project onto the expressible part
            live = set()
            for s, a, b in self.basis[1:]:
                live.update((a if side == 'A' else b).syms())
            cons = st.cons
            dead = set()
            for L in cons:
                for s, _ in L.t:
                    if s not in live:
                        dead.add(s)
            if dead:
                cons = project(cons, dead)
            for L in cons:
                M = self.express(L, side)
                if M is not None:
                    cand.add(norm(M))
        collect(self.A, 'A')
        if not widen:
            collect(self.B, 'B')
            news = [x for x in self.basis[1:] if x[0] in self.newsyms]
            others = [x for x in self.basis[1:]]
            for s, a, b in news:
                for s2, a2, b2 in others:
                    if s2 == s:
                        continue
                    da, db = a - a2, b - b2
                    if (da.is_const() != db.is_const()) and len(news) * len(others) < 400:
                        k = da.c if da.is_const() else db.c
                        if k < 0:
                            cand.add(sv(s) - sv(s2) + 1)
                            cand.add(sv(s) - sv(s2))
                        else:
                            cand.add(sv(s2) - sv(s) + 1)
                            cand.add(sv(s2) - sv(s))
                    if da.is_const() and not db.is_const():
                        cand.add(sv(s) - sv(s2) - da.c)
                        cand.add(sv(s2) - sv(s) + da.c)
                    elif db.is_const() and not da.is_const():
                        cand.add(sv(s) - sv(s2) - db.c)
                        cand.add(sv(s2) - sv(s) + db.c)
                    elif da.is_const() and db.is_const():
                        cand.add(sv(s) - sv(s2) - max(da.c, db.c))
                        cand.add(sv(s2) - sv(s) + min(da.c, db.c))
                    elif len(news) * len(others) < 150:
                        cand.add(sv(s) - sv(s2))
                        cand.add(sv(s2) - sv(s))
                if a.is_const() and b.is_const():
                    cand.add(sv(s) - max(a.c, b.c))
                    cand.add(Lin(min(a.c, b.c)) - sv(s))
                elif a.is_const():
                    cand.add(Lin(a.c) - sv(s))
                    cand.add(sv(s) - a.c)
                elif b.is_const():
                    cand.add(Lin(b.c) - sv(s))
                    cand.add(sv(s) - b.c)
                if not SYM.nonneg[s]:
                    cand.add(-sv(s))
        if getattr(self.J.I.mon, 'BYTES', False):
            # an index and the length of a text in scope
            lens = set()
            for v in J.cells.values():
                if v[0] == 's' and len(v[1]) == 1 and v[1][0][0] == 'S':
                    lens.add(v[1][0][3] - v[1][0][2])
            news = [x for x in self.basis[1:] if x[0] in self.newsyms]
            if len(news) * len(lens) < 80:
                for s, a, b in news:
                    for n in lens:
                        if all(y != s for y, _ in n.t):
                            cand.add(norm(sv(s) - n))
                            cand.add(norm(sv(s) - n + 1))
        cand.update(bounds_of(J))
        for s, a, b in self.basis[1:]:
            if s in self.newsyms and (a.is_const() or widen):
                for k in THRESHOLDS:
                    cand.add(sv(s) - k)
                    cand.add(sv(s) - k + 1)
        for L in sorted(cand, key=lambda L: (len(L.t), repr(L))):
            L = L.substmap(self.sub) if self.sub else L
            if not L.t or trivially_true(L):
                continue
            if self.A.ent(L.substmap(mA)) and self.B.ent(L.substmap(mB)):
                if not entails(out, L):
                    out.add(L)
        J.cons = frozenset(out)

    # -- facts
    def pair_lin(self, a, b):
        if a == b:
            return a
        r, comb = self.g.reduce(self.stacked(a, b))
        if r:
            return None
        return comb_lin(comb)

    def pair_any(self, x, y):
        if isinstance(x, Lin) and isinstance(y, Lin):
            l = self.pair_lin(x, y)
            if l is None:
                raise NoJoin('fact')
            return l
        if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
            return tuple(self.pair_any(p, q) for p, q in zip(x, y))
        if x == y:
            return x
        o = self.omap.get((x, y))
        raise NoJoin('fact')

    def factjoin(self, J):
        out = set()
        bk = {}
        for f in self.B.facts:
            bk.setdefault(fact_shape(f), []).append(f)
        for f in self.A.facts:
            if f in self.B.facts:
                out.add(self.final(f))
                continue
            for g in bk.get(fact_shape(f), ()):
                try:
                    h = self.pair_any(f, g)
                except NoJoin:
                    continue
                out.add(self.final(h))
        # ranges that are empty on one side hold vacuously there
        self.vacuous(out)
        self.templates(J, out)
        J.facts = frozenset(out)

    def templates(self, J, out):
        """Candidate absence facts of a loop: no occurrence of `pat` starts in
        [lo, lo+x) for the known range starts lo and the varying integers x."""
        pats = {}
        los = set()
        for st, side in ((self.A, 'A'), (self.B, 'B')):
            for f in st.facts:
                if f[0] == 'nf':
                    pats.setdefault(f[1], set()).add(f[2])
                    lo = self.express(f[3], side)
                    if lo is not None:
                        los.add((f[1], lo.substmap(self.sub)))
        if not pats:
            return
        for v in J.cells.values():
            for src, base in stream_bases(v):
                if src in pats:
                    los.add((src, base))
        mA = {s: a for s, a, b in self.basis[1:]}
        mB = {s: b for s, a, b in self.basis[1:]}
        xs = [s for s in self.newsyms if SYM.nonneg[s]]
        if len(xs) * len(los) > 120:
            return
        for src, lo in sorted(los, key=repr):
            loA, loB = lo.substmap(mA), lo.substmap(mB)
            for x in xs:
                if any(s == x for s, _ in lo.t):
                    continue
                xA, xB = mA[x], mB[x]
                for pat in pats[src]:
                    hi = lo + sv(x) + clen(pat) - 1
                    g = ('nf', src, pat, lo, hi)
                    if g in out:
                        continue
                    n = clen(pat) - 1
                    if nf_holds(self.A, src, pat, loA, loA + xA + n.substmap(mA)) and \
                            nf_holds(self.B, src, pat, loB, loB + xB + n.substmap(mB)):
                        out.add(g)

    def vacuous(self, out):
        mA = {s: a for s, a, b in self.basis[1:]}
        mB = {s: b for s, a, b in self.basis[1:]}
        for st, other, side, mo in ((self.A, self.B, 'A', mB), (self.B, self.A, 'B', mA)):
            for f in st.facts:
                if f[0] != 'nf':
                    continue
                lo, hi = self.express(f[3], side), self.express(f[4], side)
                if lo is None or hi is None:
                    continue
                lo, hi = lo.substmap(self.sub), hi.substmap(self.sub)
                g = ('nf', f[1], f[2], lo, hi)
                if g in out:
                    continue
                plo, phi = lo.substmap(mo), hi.substmap(mo)
                if other.ent(phi - plo - clen(f[2]) + 1) or nf_holds(other, f[1], f[2], plo, phi):
                    out.add(g)

    def phi_ids(self):
        return (frozenset(self.newsyms), frozenset(self.newoids), frozenset(self.newsrcs))


def stream_bases(v):
    if isinstance(v, tuple):
        if len(v) == 4 and v[0] == 'a' and v[3] and v[3][0][0] == 'q' and len(v[3]) > 2 and v[3][1][0] == 'i':
            yield v[3][0][1], v[3][1][1]
        for x in v:
            if isinstance(x, tuple):
                yield from stream_bases(x)


def nf_holds(st, src, pat, lo, hi):
    """No full occurrence of pat inside [lo, hi) of src, from the facts."""
    n = clen(pat)
    if st.ent(hi - lo - n + 1):
        return True
    fs = [f for f in st.facts if f[0] == 'nf' and f[1] == src and f[2] == pat]
    if not fs:
        return False
    seen = {lo}
    todo = [(lo, frozenset())]
    while todo:
        cur, used = todo.pop()
        for f in fs:
            if f in used or not st.ent(f[3] - cur):
                continue
            # f covers starts in [f.lo, f.hi-n]; starts from cur are needed
            if st.ent(hi - f[4]):
                return True
            nxt = f[4] - n + 1
            if nxt in seen:
                continue
            seen.add(nxt)
            if st.ent(hi - nxt - n + 1):
                return True
            todo.append((nxt, used | {f}))
    return False


def fact_shape(f):
    def g(x):
        if isinstance(x, Lin):
            return '#'
        if isinstance(x, tuple):
            return tuple(g(y) for y in x)
        return x
    return g(f)


class InclCtx(Ctx):
    """Matches an invariant state (A) against an instance (B)."""
    def __init__(self, J, A, B, phis):
        super().__init__(J, A, B)
        self.ps, self.po, self.pr = phis if phis else (frozenset(), frozenset(), frozenset())
        self.m = {}
        self.eqs = []
        self.om = {}
        self.sm = {}
        self.fail = False

    def need_walk(self, v):
        if has_heap(v):
            return True
        if not self.ps and not self.po and not self.pr:
            return False
        return mentions(v, self.ps, self.po, self.pr)

    def leaf(self, a, b, path):
        if len(a.t) == 1 and a.c == 0 and a.t[0][1] == 1 and a.t[0][0] in self.ps and a.t[0][0] not in self.m:
            self.m[a.t[0][0]] = b
        else:
            self.eqs.append((a, b))
        return a

    def oid(self, a, b, path):
        i = a[1] if a[0] in ('o', 'sl', 'err', 'b') else a[4]
        if a[0] == 'b':
            i = a[1][1] if a[1][0] == 'u' else None
        if i in self.po:
            p = self.om.setdefault(i, b)
            if p != b:
                raise NoJoin('opaque')
            return i
        raise NoJoin('opaque')

    uid = oid

    def fset(self, x, y, path):
        if y <= x:
            return x
        raise NoJoin('set')

    def other(self, x, y, path):
        if x != y:
            raise NoJoin('const')
        return x

    def opaque(self, a, b, path):
        if a == b and not (a[0] == 'o' and a[1] in self.po):
            return a
        if a[0] == 'o' and a[1] in self.po:
            p = self.om.setdefault(a[1], b)
            if p != b:
                raise NoJoin('opaque')
            if not taint_of(self.J.I, self.B, b) <= a[3]:
                raise NoJoin('taint')
            return a
        raise NoJoin('opaque')

    def cond(self, a, b, path):
        if a in (True, False) or b in (True, False):
            return a if a == b else None
        if a[0] == 'u' and a[1] in self.po:
            return None
        if a == b and not mentions(a, self.ps, self.po, self.pr):
            return a
        if a[0] == b[0] and a[0] in ('le', 'eq'):
            self.leaf(a[1], b[1], path)
            return a
        if a[0] == b[0] == 'not':
            return self.cond(a[1], b[1], path)
        if a[0] == b[0] and a[0] == 'm' and a[1] == b[1]:
            self.leaf(a[2], b[2], path)
            if a[3] != b[3]:
                raise NoJoin('cond')
            return a
        raise NoJoin('cond')

    def content(self, a, b, path):
        if len(a) == 1 and a[0][0] == 'S' and a[0][1] in self.pr:
            s = a[0][1]
            if ctaint(b) <= SRC_TAINT.get(s, frozenset()):
                self.leaf(a[0][3], clen(b), path)
                p = self.sm.setdefault(s, b)
                if p != b:
                    raise NoJoin('content')
                return a
            raise NoJoin('content taint')
        if len(a) == 1 and a[0][0] == 'S' and not b:
            self.eqs.append((a[0][2], a[0][3], 'same'))
            self.leaf(a[0][2], a[0][2], path) if False else None
            return a
        h = self.J.I.models.content_incl(self, a, b, path)
        if h is not None:
            return h
        if len(a) != len(b):
            raise NoJoin('content')
        for x, y in zip(a, b):
            if x[0] != y[0] or x[1] != y[1]:
                raise NoJoin('content')
            if x[0] == 'S':
                self.leaf(x[2], y[2], path)
                self.leaf(x[3], y[3], path)
        return a

    def check(self):
        m = self.m
        B = self.B
        for e in self.eqs:
            if len(e) == 3:
                h = e[1]
                if len(h.t) == 1 and h.c == 0 and h.t[0][0] in self.ps and h.t[0][0] not in m:
                    m[h.t[0][0]] = e[0].substmap(m)
        for e in self.eqs:
            if len(e) == 3:
                if not B.ent_eq(e[0].substmap(m), e[1].substmap(m)):
                    return False
                continue
            a, b = e
            a = a.substmap(m)
            if a != b and not B.ent_eq(a, b):
                return False
        for L in self.A.cons:
            if any(s in self.ps and s not in m for s, _ in L.t):
                return False
            if not B.ent(L.substmap(m)):
                return False
        for f in self.A.facts:
            g = map_lin_in(f, lambda L: L.substmap(m))
            if g in B.facts:
                continue
            if g[0] == 'nf':
                if nf_holds(B, g[1], g[2], g[3], g[4]):
                    continue
                return False
            sh = fact_shape(g)
            for h in B.facts:
                if fact_shape(h) == sh and lin_equal(B, g, h):
                    break
            else:
                return False
        return True


def lin_equal(st, x, y):
    if isinstance(x, Lin):
        return st.ent_eq(x, y)
    if isinstance(x, tuple):
        return all(lin_equal(st, p, q) for p, q in zip(x, y))
    return x == y


def mentions(v, ps, po, pr):
    if isinstance(v, Lin):
        return any(s in ps for s, _ in v.t)
    if isinstance(v, tuple):
        if v in po or v in pr:
            return True
        for x in v:
            if isinstance(x, (tuple, Lin)) and mentions(x, ps, po, pr):
                return True
    return False
