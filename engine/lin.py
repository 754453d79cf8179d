"""Linear expressions over integer symbols, and entailment in the rational
relaxation of the integers (an exact phase-1 simplex over Fractions).

This is the numeric part of the abstract domain: a state carries a finite set
of linear facts `L <= 0`; `Dom.entails` asks whether another one follows."""
from fractions import Fraction

class Sym:
    """Global symbol table.  A symbol is an int; unsigned ones are >= 0."""
    def __init__(self):
        self.nonneg = []
        self.name = []
        self.taint = []
        self.byname = {}

    def fresh(self, name='', nonneg=True, taint=frozenset()):
        self.nonneg.append(nonneg)
        self.name.append(name)
        self.taint.append(taint)
        return len(self.name) - 1

    def named(self, key, nonneg=True, taint=frozenset()):
        s = self.byname.get(key)
        if s is None:
            s = self.byname[key] = self.fresh(str(key), nonneg, taint)
        return s

SYM = Sym()

class Lin:
    __slots__ = ('c', 't', 'h')

    def __init__(self, c, t=()):
        self.c = c
        self.t = t          # tuple of (sym, coef), sorted, coef != 0
        self.h = hash((c, t))

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self is o or (isinstance(o, Lin) and self.h == o.h and self.c == o.c and self.t == o.t)

    def __ne__(self, o):
        return not self == o

    def __add__(self, o):
        if isinstance(o, int):
            return Lin(self.c + o, self.t)
        if not o.t:
            return Lin(self.c + o.c, self.t)
        if not self.t:
            return Lin(self.c + o.c, o.t)
        d = dict(self.t)
        for s, k in o.t:
            v = d.get(s, 0) + k
            if v:
                d[s] = v
            else:
                d.pop(s, None)
        return Lin(self.c + o.c, tuple(sorted(d.items())))

    def __neg__(self):
        return Lin(-self.c, tuple((s, -k) for s, k in self.t))

    def __sub__(self, o):
        if isinstance(o, int):
            return Lin(self.c - o, self.t)
        return self + (-o)

    def scale(self, k):
        if k == 0:
            return ZERO
        return Lin(self.c * k, tuple((s, c * k) for s, c in self.t))

    def subst(self, s, l):
        for s2, k in self.t:
            if s2 == s:
                return Lin(self.c, tuple(x for x in self.t if x[0] != s)) + l.scale(k)
        return self

    def substmap(self, m):
        r = None
        for s, k in self.t:
            if s in m:
                r = True
                break
        if r is None:
            return self
        out = Lin(self.c, tuple(x for x in self.t if x[0] not in m))
        for s, k in self.t:
            if s in m:
                out = out + m[s].scale(k)
        return out

    def syms(self):
        return [s for s, _ in self.t]

    def is_const(self):
        return not self.t

    def __repr__(self):
        p = []
        for s, k in self.t:
            n = 's%d' % s
            p.append((n if k == 1 else '-' + n if k == -1 else '%s*%s' % (k, n)))
        if self.c or not p:
            p.append(str(self.c))
        return '+'.join(p).replace('+-', '-')

ZERO = Lin(0)
ONE = Lin(1)

def sv(s):
    return Lin(0, ((s, 1),))

def norm(L):
    """Normalise L<=0: divide by gcd, tighten the constant for integers."""
    if not L.t:
        return L
    from math import gcd
    g = 0
    for _, k in L.t:
        g = gcd(g, abs(k))
    if g > 1:
        # sum(k x) <= -c  ->  sum(k/g x) <= floor(-c/g)
        b = (-L.c) // g
        return Lin(-b, tuple((s, k // g) for s, k in L.t))
    return L

BIG = 1 << 62

def trivially_true(L):
    """L <= 0 by sign of coefficients alone, or because a byte count cannot
    reach 2^62 (documented assumption)."""
    ng = SYM.nonneg
    for s, k in L.t:
        if k > 0 or not ng[s]:
            break
    else:
        return L.c <= 0
    if L.c <= -BIG:
        return all(abs(k) < 1 << 20 for _, k in L.t)
    return False

def trivially_false(L):
    ng = SYM.nonneg
    if L.c <= 0:
        return False
    for s, k in L.t:
        if k < 0 or not ng[s]:
            return False
    return True

def _simplex_infeasible(rows, nv):
    """rows: list of (coefs list[nv], b) meaning sum a x <= b, x >= 0.
    True when there is no rational solution.  Fraction-free integer simplex
    (every tableau entry is an integer over the common denominator `den`)."""
    m = len(rows)
    if all(b >= 0 for _, b in rows):
        return False
    # standard "x0" phase 1 (CLRS): maximise -x0 s.t. a x - x0 <= b
    N = list(range(nv + 1))                  # nonbasic: 0..nv-1 x, nv = x0
    Bv = list(range(nv + 1, nv + 1 + m))
    W = nv + 2                               # columns: x.., x0, b
    A = [list(a) + [-1, b] for a, b in rows]
    C = [0] * nv + [-1, 0]                   # objective row (last: -value)
    den = 1

    def pivot(l, e):
        nonlocal den
        p = A[l][e]
        row = A[l]
        if p < 0:
            # keep the denominator positive
            sgn = -1
        else:
            sgn = 1
        pp = p * sgn
        rng = range(W)
        for i in range(m):
            if i == l:
                continue
            ai = A[i]
            f = ai[e]
            if f:
                f *= sgn
                ni = [(pp * ai[j] - f * row[j]) // den for j in rng]
                ni[e] = -f
                A[i] = ni
            elif pp != den:
                A[i] = [pp * x // den for x in ai]
        f = C[e]
        if f:
            f *= sgn
            nc = [(pp * C[j] - f * row[j]) // den for j in rng]
            nc[e] = -f
            C[:] = nc
        elif pp != den:
            C[:] = [pp * x // den for x in C]
        if sgn < 0:
            row = [-x for x in row]
        else:
            row = list(row)
        row[e] = den if sgn > 0 else -den
        A[l] = row
        den = pp
        Bv[l], N[e] = N[e], Bv[l]

    l = min(range(m), key=lambda i: A[i][-1])
    pivot(l, nv)
    it = 0
    while True:
        it += 1
        if it > 400:
            return False
        e = None
        bn = None
        for j in range(nv + 1):
            if C[j] > 0 and (bn is None or N[j] < bn):
                e, bn = j, N[j]
        if e is None:
            break
        best = None
        for i in range(m):
            ai = A[i]
            k = ai[e]
            if k > 0:
                b = ai[-1]
                if best is None:
                    best, bb, bk = i, b, k
                else:
                    d = b * bk - bb * k
                    if d < 0 or (d == 0 and Bv[i] < Bv[best]):
                        best, bb, bk = i, b, k
        if best is None:
            return False
        pivot(best, e)
        if C[-1] == 0:
            return False
    # objective value v = -C[-1]/den; v<0 iff infeasible
    return C[-1] > 0

_memo = {}

def infeasible(cons):
    """cons: iterable of Lin, each meaning L <= 0.  True if provably empty."""
    cons = set(cons)
    rows = []
    for L in cons:
        if not L.t:
            if L.c > 0:
                return True
            continue
        if trivially_false(L):
            return True
        rows.append(L)
    if not rows:
        return False
    key = frozenset(rows)
    r = _memo.get(key)
    if r is not None:
        return r
    syms = {}
    free = {}
    for L in rows:
        for s, _ in L.t:
            if s not in syms:
                syms[s] = len(syms) + len(free)
                if not SYM.nonneg[s]:
                    free[s] = len(syms) + len(free)
    n = len(syms) + len(free)
    mat = []
    for L in rows:
        a = [0] * n
        for s, k in L.t:
            a[syms[s]] += k
            if s in free:
                a[free[s]] -= k
        mat.append((a, -L.c))
    r = _simplex_infeasible(mat, n)
    _memo[key] = r
    return r

def relevant(cons, syms):
    """The constraints connected to `syms` through shared symbols."""
    todo = set(syms)
    rest = [L for L in cons if L.t]
    out = []
    changed = True
    while changed and rest:
        changed = False
        nr = []
        for L in rest:
            if any(s in todo for s, _ in L.t):
                out.append(L)
                for s, _ in L.t:
                    if s not in todo:
                        todo.add(s)
                        changed = True
            else:
                nr.append(L)
        rest = nr
        if not changed:
            break
    # one more pass to pick up constraints that became connected
    for L in rest:
        if any(s in todo for s, _ in L.t):
            out.append(L)
    return out

def entails(cons, L):
    """Do the facts `cons` (each <= 0) imply L <= 0?"""
    L = norm(L)
    if trivially_true(L):
        return True
    if not L.t:
        return L.c <= 0
    if L in cons:
        return True
    for K in cons:
        if K.t == L.t and K.c >= L.c:
            return True
    neg = norm((-L) + 1)
    rel = relevant(cons, neg.syms())
    if not rel and not trivially_false(neg):
        return False
    return infeasible(rel + [neg])

def project(cons, dead):
    """Eliminate the symbols in `dead` (Fourier-Motzkin, size-capped; dropping
    a constraint is always sound)."""
    cons = set(cons)
    for s in sorted(dead):
        pos, neg, oth = [], [], []
        for L in cons:
            k = 0
            for s2, c in L.t:
                if s2 == s:
                    k = c
                    break
            if k > 0:
                pos.append((L, k))
            elif k < 0:
                neg.append((L, -k))
            else:
                oth.append(L)
        if not pos and not neg:
            continue
        if SYM.nonneg[s]:
            neg.append((Lin(0, ((s, -1),)), 1))
        new = set(oth)
        if len(pos) * len(neg) <= 64:
            for P, a in pos:
                for Q, b in neg:
                    R = norm(P.scale(b) + Q.scale(a))
                    if R.t and not trivially_true(R):
                        new.add(R)
                    elif not R.t and R.c > 0:
                        new.add(R)
        cons = new
    return cons
