"""server::boundary::BoundaryReader, method by method, against its
representation invariant.

Every method is analysed from every state that satisfies the invariant (all
bodies, boundaries, buffer contents, positions, chunkings); at every exit the
invariant must hold again and the method's own contract must be met.  With
P = position of the buffer's first byte in the body, N = bytes buffered,
I = search index, h = P+I, pat = "--" + boundary, L = len(pat), D = position
of a delimiter:

  0 <= I <= N,  the buffer minimum is at least L+3 (CRLF, delimiter and one
                more byte; `next` needs L+4 and is entered with that)
  Searching:    no occurrence of pat starts in [P, h);  ts(h+1);  ts(h) if I > 0
  BoundaryRead: pat at h (D = h), or CRLF at h and pat at D = h+2, inside the
                buffer; no occurrence starts in [P, D);  ts(h) if I > 0
  AtEnd:        I = 0

where ts(k) = "not both: CRLF in [k-2, k) and pat at k", i.e. data ending at k
does not include the line break that belongs to a delimiter."""
from lin import Lin, ZERO, ONE, SYM, sv
from ai import Infeasible, Stop, clen, lit, ccat, short, find_opaque
from join import nf_holds
import models
from mon_base import Base

CRLF = (('L', b'\r\n'),)
DASH = (('L', b'--'),)
RD = ('g', 'rd')
OUT = ('g', 'out')
G_ST = ('g', 'st')
TWO = Lin(2)

def lead(c):
    return c[0][1] if c and c[0][0] == 'L' else b''

def at(st, src, pos):
    """First bytes known at a position."""
    best = b''
    for f in st.facts:
        if f[0] == 'm' and f[1] == src and f[4] is True and len(lead(f[3])) > len(best) and st.ent_eq(f[2], pos):
            best = lead(f[3])
    return best

def fact_m(st, src, pos, pat, val=True):
    """Is it known that pat is (is not) at pos?"""
    here = [f for f in st.facts if f[0] == 'm' and f[1] == src]
    b = lit(pat)
    for f in here:
        if f[3] == pat and f[4] == val and st.ent_eq(f[2], pos):
            return True
    if b is None:
        return False
    # byte by byte
    known = {}
    for f in here:
        for i in range(-1, len(b)):
            if st.ent_eq(f[2], pos + i):
                x = lead(f[3])
                if f[4]:
                    for k in range(len(x)):
                        known[i + k] = x[k]
                elif lit(f[3]) is not None and 0 <= i and not val and b[i:i + len(x)] == x and len(x) <= len(b) - i:
                    return True          # a part of pat is known not to be there
    if val:
        return all(known.get(i) == b[i] for i in range(len(b)))
    return any(i in known and known[i] != b[i] for i in range(len(b)))

class BoundMon(Base):
    KEEP = True
    BYTES = True
    METHODS = {
        'fill': 'as std::io::BufRead>::fill_buf',
        'consume': 'as std::io::BufRead>::consume',
        'read': 'as std::io::Read>::read',
        'next': '::consume_boundary',
        'min': '::set_min_buf_size',
        'new': '::from_reader',
    }

    def __init__(self, rn):
        super().__init__()
        self.what = rn.split('_', 1)[1]
        self.src = None
        self.inside = True

    # -- the analysed function and its start states
    def find(self, p):
        want = self.METHODS[self.what]
        r = []
        for f in p.fns.values():
            n = short(f['name'])
            if f['kind'] == 'item' and f['body'] and 'boundary::BoundaryReader' in n and 'mp_harness::Body' in n:
                d = short(f['def'])
                if d.endswith(want) and 'boundary::BoundaryReader' in d and not d.split('boundary::BoundaryReader')[0].strip('<').count('<'):
                    r.append(f['id'])
        if len(r) != 1:
            raise Stop('%d instances of BoundaryReader%s' % (len(r), want))
        return r[0]

    def layout(self, p, ty):
        t = p.types[ty]
        if t['k'] != 'adt' or len(t['variants']) != 1:
            raise Stop('the reader is not a struct')
        pos = {}
        for i, (n, ft) in enumerate(t['variants'][0]['fields']):
            x = p.types[ft]
            if x['k'] == 'adt' and 'BufReader' in x['name']:
                pos['source'] = i
            elif p.bytes_owner(ft):
                pos['boundary'] = i
            elif x['k'] == 'int':
                pos['idx'] = i
            elif x['k'] == 'adt' and x['adt'] == 'enum':
                pos['state'] = i
            else:
                raise Stop('unknown field %s of the reader' % n)
        if len(pos) != 4 or len(t['variants'][0]['fields']) != 4:
            raise Stop('the reader has not the four known fields')
        self.pos = pos
        self.ty = ty
        self.fty = [ft for n, ft in t['variants'][0]['fields']]
        self.variants = [v['name'] for v in p.types[self.fty[pos['state']]]['variants']]
        for v in ('Searching', 'BoundaryRead', 'AtEnd'):
            if v not in self.variants:
                raise Stop('the reader has no state ' + v)

    def starts(self, I):
        p = I.p
        inst = self.find(p)
        b = p.body(inst)
        a1 = b.locals[1]
        if self.what == 'new':
            self.layout(p, b.locals[0])
            from ai import State
            st = State()
            args = [I.mk(b.locals[i + 1], ('arg', i)) for i in range(b.argc)]
            arg = [a for a in args if a[0] in ('v', 's')]
            if len(arg) != 1:
                raise Stop('from_reader takes no boundary text')
            self.bnd = arg[0][1]
            return [('new', inst, args, st)]
        self.layout(p, p.types[a1]['to'])
        bnd = ('S', ('bnd', 0), ZERO, sv(SYM.named(('len', 'bnd'))))
        self.pat = ccat(DASH, (bnd,))
        L = clen(self.pat)
        self.src = models.new_source(I, models.REQ)
        out = []
        # `min` may be called with any (also a too small) minimum in place
        for label in ('Searching', 'Searching data', 'BoundaryRead', 'BoundaryRead data', 'BoundaryRead CRLF', 'BoundaryRead data CRLF', 'AtEnd'):
            from ai import State
            st = State()
            P = sv(SYM.named(('P', label)))
            N = sv(SYM.named(('N', label)))
            X = sv(SYM.named(('I', label)))
            M = sv(SYM.named(('MIN', label)))
            st.add_le(X - N)
            st.add_le(Lin(3) - L)               # boundaries are not empty
            if self.what != 'min':
                st.add_le(L + (4 if self.what == 'next' else 3) - M)
            h = P + X
            src, pat = self.src, self.pat
            name = label.split()[0]
            if 'data' in label:
                st.add_le(ONE - X)
                st.add_fact(('ts', src, h))
            elif name != 'AtEnd':
                X = ZERO
                h = P
            D = h
            if name == 'Searching':
                st.add_fact(('nf', src, pat, P, h + L - 1))
                st.add_fact(('ts', src, h + 1))
            elif name == 'BoundaryRead':
                if label.endswith('CRLF'):
                    D = h + 2
                    st.add_fact(('m', src, h, CRLF, True))
                st.add_fact(('m', src, D, pat, True))
                st.add_fact(('nf', src, pat, P, D + L - 1))
                st.add_le(D + L - P - N)
            else:
                X = ZERO
            pol_ty = None
            f = [None] * 4
            f[self.pos['source']] = ('a', self.fty[self.pos['source']], 0,
                                     (('q', src), ('i', P), ('i', N), ('a', pol_ty, 0, (('i', M),)), ('o', ('inner',), None, models.REQ)))
            f[self.pos['boundary']] = ('v', pat)
            f[self.pos['idx']] = ('i', X)
            f[self.pos['state']] = ('a', self.fty[self.pos['state']], self.variants.index(name), ())
            st.cells[RD] = ('a', self.ty, 0, tuple(f))
            if self.what != 'next' or name == 'AtEnd':
                st.cells[('g', 'P0')] = ('i', P)
                st.cells[('g', 'I0')] = ('i', X)
            st.cells[G_ST] = ('q', 'closed' if name == 'AtEnd' else 'data')
            args = [('r', RD, ())]
            for i in range(1, b.argc):
                t = p.types[b.locals[i + 1]]
                if t['k'] == 'ref' and p.bytes_unsized(t['to']):
                    ln = sv(SYM.named(('len', 'out')))
                    st.cells[OUT] = ('v', (('S', ('out', 0), ZERO, ln),))
                    args.append(('ms', OUT, (), ZERO, ln))
                else:
                    v = I.mk(b.locals[i + 1], ('arg', i))
                    st.cells[('g', 'arg', i)] = v
                    args.append(v)
            out.append((label, inst, args, st))
        return out

    # -- facts
    def nf(self, st, lo, hi):
        """No occurrence of the delimiter text inside [lo, hi)."""
        for _ in range(4):
            if nf_holds(st, self.src, self.pat, lo, hi):
                return True
            x = at(st, self.src, lo)
            if not x or x[:1] == b'-':
                return False
            lo = lo + 1
        return False

    def ts_holds(self, st, k):
        src, pat = self.src, self.pat
        L = clen(pat)
        if fact_m(st, src, k - 2, CRLF, False):
            return True
        if fact_m(st, src, k - 2, (('L', b'\r'),), False):
            return True
        if fact_m(st, src, k - 1, (('L', b'\n'),), False):
            return True
        if fact_m(st, src, k, pat, False) or self.nf(st, k, k + L):
            for f in st.facts:
                if f[0] == 'm' and f[1] == src and f[3] == pat and f[4] is False and st.ent_eq(f[2], k):
                    return True
        for f in st.facts:
            if f[0] == 'ts' and f[1] == src and st.ent_eq(f[2], k):
                return True
            if f[0] == 'tsd' and f[1] == src and st.ent_eq(f[3], k) and st.ent(f[2] + 1 - k):
                return True             # "ts(k), or nothing before k is data"
            if f[0] == 'eof' and f[1] == src and st.ent(f[2] - k - L + 1):
                return True
        x = at(st, src, k)
        if x and x[:2] != b'--'[:len(x)]:
            return True
        x = at(st, src, k - 1)
        if x and x[:1] != b'\n':
            return True
        x = at(st, src, k - 2)
        if x and x[:1] != b'\r':
            return True
        return False

    def at_eof(self, st, pos):
        return any(f[0] == 'eof' and f[1] == self.src and st.ent_eq(f[2], pos) for f in st.facts)

    def reader(self, I, st):
        v = I.read(st, RD, ())
        if v[0] != 'a':
            raise Stop('the reader became unknown')
        f = v[3]
        s = f[self.pos['source']]
        if s[0] != 'a':
            raise Stop('the buffered reader became unknown')
        return s[3][1][1], s[3][2][1], s[3][3], f[self.pos['idx']], f[self.pos['state']], f[self.pos['boundary']]

    # -- hooks
    def new_source(self, I, c):
        self.src = models.new_source(I, models.REQ)
        return self.src

    def on_consume(self, I, s, src, base, n):
        if s.ent(n):
            return
        g = s.cells[G_ST][1]
        end = base + n
        pat, L = self.pat, clen(self.pat)
        if g != 'data':
            self.count('consume:after the delimiter')
            I.report('skip', (I.site_fn(), 'over'), 'bytes behind a delimiter line (or after the closing delimiter) are discarded', s)
            return
        if self.nf(s, base, end + L - 1):
            self.count('consume:data')
            return
        for f in s.facts:
            if f[0] == 'm' and f[1] == src and f[3] == pat and f[4] and s.ent_eq(f[2] + L + 2, end) and self.nf(s, base, f[2] + L - 1):
                p = f[2]
                self.count('consume:delimiter')
                if fact_m(s, src, p + L, CRLF):
                    s.cells[G_ST] = ('q', 'crlf')
                elif fact_m(s, src, p + L, DASH):
                    s.cells[G_ST] = ('q', 'closed now')
                else:
                    s.cells[G_ST] = ('q', 'delim?')
                return
        self.count('consume:?')
        I.report('skip', (I.site_fn(), 'consume'), 'bytes are consumed that may contain (part of) a delimiter', s)
        s.cells[G_ST] = ('q', 'bad')

    def canon(self, I, st):
        """At a loop head: what is known of the reader, in terms of its own
        fields (derived facts are added, those about consumed bytes dropped)."""
        if self.what == 'new' or RD not in st.cells:
            return
        try:
            P, N, pol, idx, state, bnd = self.reader(I, st)
        except Stop:
            return
        if idx[0] != 'i':
            return
        src, pat, L = self.src, self.pat, clen(self.pat)
        X = idx[1]
        h = P + X
        add = []
        top = h + L - 1
        if fact_m(st, src, h, CRLF) and fact_m(st, src, h + 2, pat):
            top = top + 2
            if not any(f[0] == 'm' and f[1] == src and f[3] == CRLF and f[4] is True and st.ent_eq(f[2], h) for f in st.facts):
                add.append(('m', src, h, CRLF, True))     # known byte by byte
        if self.nf(st, P, top):
            add.append(('nf', src, pat, P, top))
        for k in (h, h + 1):
            if self.ts_holds(st, k):
                add.append(('ts', src, k))
        if st.ent(X) or ('ts', src, h) in add or any(f[0] == 'tsd' and f[1] == src and st.ent_eq(f[3], h) and st.ent(f[2] - P) for f in st.facts):
            add.append(('tsd', src, P, h))
        keep = frozenset(f for f in st.facts if not (f[0] == 'ts' and f[1] == src and st.ent(f[2] + 1 - P)) and f[0] != 'tsd' and not (f[0] in ('m', 'nf') and f[1] == src and (
            st.ent(f[2] + 3 - P) if f[0] == 'm' else st.ent(f[4] - P))) and not (f[0] == 'nf' and f[1] == src and st.ent(f[4] - top) and any(a[0] == 'nf' for a in add)))
        st.facts = keep | frozenset(add)

    # -- exits
    def finish(self, I, label, outs):
        for rv, st in outs:
            for s in self.split_state(I, st, rv):
                try:
                    self.exit(I, label, s.cells.pop(('g', 'rv')), s)
                except Infeasible:
                    pass

    def split_state(self, I, st, rv):
        st = st.copy()
        st.cells[('g', 'rv')] = rv
        if self.what == 'new':
            return [st]
        v = I.read(st, RD, (self.pos['state'],))
        if v[0] == 'a':
            return [st]
        if v[0] != 'o':
            raise Stop('state of the reader unknown')
        out = []
        for i in range(len(self.variants)):
            s = st.copy()
            s.subst_opaque(v[1], ('a', v[2], i, ()))
            out.append(s)
        return out

    def exit(self, I, label, rv, st):
        self.label = label
        if self.what == 'new':
            return self.exit_new(I, rv, st)
        P, N, pol, idx, state, bnd = self.reader(I, st)
        name = self.variants[state[2]]
        if idx[0] != 'i':
            raise Stop('search index unknown')
        X = idx[1]
        self.count('exits')
        if self.what == 'next':
            self.exit_next(I, rv, st, P, N, X, name)
        else:
            P0 = st.cells[('g', 'P0')][1]
            getattr(self, 'exit_' + self.what)(I, rv, st, P, N, X, name)
        self.check_inv(I, st, P, N, X, name, pol, bnd)

    def rep(self, I, kind, key, msg, st):
        I.report(kind, (self.what, key), '%s [from state %s]' % (msg, self.label), st)

    def ob(self, I, kind, key, ok, msg, st):
        k = (kind, (self.what, key))
        o = I.stats['oblig']
        o[k] = o.get(k, True) and ok
        if not ok:
            self.rep(I, kind, key, msg, st)
        return ok

    def check_inv(self, I, st, P, N, X, name, pol, bnd):
        src, pat, L = self.src, self.pat, clen(self.pat)
        h = P + X
        ob = self.ob
        ob(I, 'inv', 'boundary', bnd == ('v', pat), 'the delimiter text of the reader changed', st)
        ob(I, 'inv', 'range', st.ent(X - N) and st.ent(-X), 'the search index may point behind the buffered bytes', st)
        mn = pol[3][0] if pol[0] == 'a' and pol[3] else None
        ob(I, 'inv', 'min', bool(mn and mn[0] == 'i' and st.ent(L + 3 - mn[1])), 'the buffer minimum may be too small to hold a delimiter', st)
        fresh = self.what == 'next' and st.cells[G_ST][1] in ('crlf', 'closed now')
        if name == 'AtEnd':
            ob(I, 'inv', 'end', st.ent(X) and st.cells[G_ST][1] in ('closed', 'closed now'), 'the reader is in its end state although the closing delimiter was not consumed', st)
            return
        if st.cells[G_ST][1] in ('closed', 'closed now'):
            ob(I, 'inv', 'end', False, 'the reader leaves its end state after the closing delimiter', st)
            return
        data = not st.ent(X)
        if name == 'Searching':
            ob(I, 'inv', 'nf', self.nf(st, P, h + L - 1), 'bytes considered field data may contain the start of a delimiter', st)
            ob(I, 'inv', 'ts', fresh or self.ts_holds(st, h + 1), 'the CR of the line break before a delimiter may be considered field data', st)
        else:
            if fact_m(st, src, h, pat):
                D = h
            elif fact_m(st, src, h, CRLF) and fact_m(st, src, h + 2, pat):
                D = h + 2
            else:
                ob(I, 'inv', 'found', False, 'a delimiter is considered found where there is none', st)
                return
            ob(I, 'inv', 'inbuf', st.ent(D + L - P - N), 'the delimiter found is not inside the buffer', st)
            ob(I, 'inv', 'nf', self.nf(st, P, D + L - 1), 'a delimiter before the one found is treated as field data', st)
        if data:
            for s in I.assume(st.copy(), ('le', ONE - X), True):
                r = self.reader(I, s)
                ob(I, 'inv', 'ts0', self.ts_holds(s, r[0] + r[3][1]), 'the line break before a delimiter may be considered field data', s)

    def ok(self, I, rv):
        t = I.p.types[rv[1]]
        if rv[0] != 'a':
            raise Stop('unknown result')
        return t['variants'][rv[2]]['name'] == 'Ok', (rv[3][0] if rv[3] else None)

    def err_ok(self, I, st, e, allowed, key):
        if e[0] != 'err':
            return self.ob(I, 'err', key, False, 'an untracked error is returned', st)
        good = e[2] == 'body' or e[3] in allowed
        self.count('error:%s:%s' % (e[2], e[3]))
        return self.ob(I, 'err', key, good, 'an error (%s, %s) that is neither that of the body nor one the documentation names is returned' % (e[2], e[3]), st)

    def exit_fill(self, I, rv, st, P, N, X, name):
        src = self.src
        ok, v = self.ok(I, rv)
        self.ob(I, 'data', 'pos', st.ent_eq(P, st.cells[('g', 'P0')][1]), 'looking at the field data consumes bytes', st)
        if not ok:
            self.err_ok(I, st, v, (), 'fill')
            return
        ct = I.content_of(st, v)
        n = clen(ct)
        self.ob(I, 'data', 'len', st.ent_eq(n, X), 'the bytes handed out and the bytes that may be consumed differ', st)
        if ct:
            self.ob(I, 'data', 'bytes', len(ct) == 1 and ct[0][0] == 'S' and ct[0][1] == src and st.ent_eq(ct[0][2], P),
                    'the bytes handed out are not the next bytes of the body', st)
        self.empty(I, st, P, N, X, name)

    def empty(self, I, st, P, N, X, name):
        """Nothing (more) is handed out only at a delimiter or the end."""
        src, pat = self.src, self.pat
        if name == 'AtEnd':
            return
        for s in I.assume(st.copy(), ('le', X), True):
            P1 = self.reader(I, s)[0]
            N1 = self.reader(I, s)[1]
            self.ob(I, 'stop', 'end', fact_m(s, src, P1, pat) or (fact_m(s, src, P1, CRLF) and fact_m(s, src, P1 + 2, pat)) or self.at_eof(s, P1 + N1),
                    'a field ends although neither a delimiter nor the end of the body is there', s)

    def exit_consume(self, I, rv, st, P, N, X, name):
        P0, I0 = st.cells[('g', 'P0')][1], st.cells[('g', 'I0')][1]
        amt = [v for k, v in st.cells.items() if k[:2] == ('g', 'arg')][0][1]
        n = P - P0
        self.ob(I, 'data', 'amount', st.ent_eq(P + X, P0 + I0), 'consuming data loses or repeats bytes', st)
        self.ob(I, 'data', 'min', st.ent_eq(n, amt) or (st.ent_eq(n, I0) and st.ent(I0 - amt)), 'another number of bytes than asked for (at most what was handed out) is consumed', st)

    def exit_read(self, I, rv, st, P, N, X, name):
        src = self.src
        P0 = st.cells[('g', 'P0')][1]
        ok, v = self.ok(I, rv)
        if not ok:
            self.ob(I, 'data', 'pos', st.ent_eq(P, P0), 'a failed read consumes bytes', st)
            self.err_ok(I, st, v, (), 'read')
            return
        n = v[1]
        self.ob(I, 'data', 'count', st.ent_eq(P, P0 + n), 'read() consumes another number of bytes than it reports', st)
        old = I.content_of(st, st.cells[OUT])
        self.ob(I, 'data', 'cap', st.ent(n - clen(old)), 'read() reports more bytes than fit', st)
        for s in I.assume(st.copy(), ('le', ONE - n), True):
            P0 = s.cells[('g', 'P0')][1]
            n2 = self.reader(I, s)[0] - P0
            got = I.cslice(s, I.content_of(s, s.cells[OUT]), ZERO, n2)
            got = [x for x in got if x[0] == 'L' or not s.ent_eq(x[2], x[3])]
            self.ob(I, 'data', 'copy', len(got) == 1 and got[0][0] == 'S' and got[0][1] == src and s.ent_eq(got[0][2], P0) and s.ent_eq(got[0][3], P0 + n2),
                    'read() does not copy the next bytes of the field', s)
        cap = clen(old)
        for s in I.assume(st.copy(), ('le', n), True):
            for s2 in I.assume(s, ('le', ONE - clen(I.content_of(s, s.cells[OUT]))), True):
                r = self.reader(I, s2)
                if s2.ent_eq(r[0], s2.cells[('g', 'P0')][1]):
                    self.empty(I, s2, r[0], r[1], r[3][1], name)

    def exit_min(self, I, rv, st, P, N, X, name):
        self.ob(I, 'data', 'pos', st.ent_eq(P, st.cells[('g', 'P0')][1]) and st.ent_eq(X, st.cells[('g', 'I0')][1]), 'setting the buffer minimum moves the reader', st)
        mn = self.reader(I, st)[2][3][0]
        amt = [v for k, v in st.cells.items() if k[:2] == ('g', 'arg')][0][1]
        self.ob(I, 'data', 'asked', mn[0] == 'i' and st.ent(amt - mn[1]), 'the buffer minimum set is smaller than asked for', st)
        for s in I.assume(st.copy(), ('le', Lin(8) - amt), True):
            mn = self.reader(I, s)[2][3][0]
            self.ob(I, 'inv', 'min line', s.ent(clen(self.pat) + 4 - mn[1]), 'the buffer minimum may be too small to hold a delimiter line', s)

    def exit_next(self, I, rv, st, P, N, X, name):
        src, pat, L = self.src, self.pat, clen(self.pat)
        g = st.cells[G_ST][1]
        ok, v = self.ok(I, rv)
        if ok:
            b = v[1]
            for val in (True, False):
                for s in (I.assume(st.copy(), b, val) if b not in (True, False) else ([st] if b is val else [])):
                    if val:
                        self.ob(I, 'next', 'true', g == 'crlf', 'another field is announced but no delimiter line was consumed (%s)' % g, s)
                        self.ob(I, 'next', 'idx', s.ent(X), 'search state is left behind after a delimiter line', s)
                    else:
                        self.ob(I, 'next', 'false', g in ('closed', 'closed now'), 'the end of the body is announced without a closing delimiter (%s)' % g, s)
                        if g == 'closed':
                            self.ob(I, 'next', 'again', s.ent_eq(P, s.cells[('g', 'P0')][1]), 'bytes behind the closing delimiter are consumed', s)
            return
        self.ob(I, 'next', 'err', g in ('data',), 'a delimiter line is consumed although an error is returned (%s)' % g, st)
        if not self.err_ok(I, st, v, ('UnexpectedEof', 'InvalidData'), 'next'):
            return
        if v[3] == 'UnexpectedEof':
            self.ob(I, 'err', 'eof', self.at_eof(st, P + N), 'UnexpectedEof is returned although the body may have more data', st)
        elif v[3] == 'InvalidData':
            good = False
            for f in st.facts:
                if f[0] == 'm' and f[1] == src and f[3] == pat and f[4] and (st.ent_eq(f[2], P) or st.ent_eq(f[2], P + 2)):
                    p = f[2] + L
                    if fact_m(st, src, p, CRLF, False) and fact_m(st, src, p, DASH, False):
                        good = True
            self.ob(I, 'err', 'invalid', good, 'InvalidData is returned although the delimiter is followed by CRLF or "--"', st)

    def exit_new(self, I, rv, st):
        v = rv
        if v[0] != 'a':
            raise Stop('unknown reader')
        f = v[3]
        pat = ccat(DASH, self.bnd)
        s = f[self.pos['source']]
        state = f[self.pos['state']]
        self.count('exits')
        self.ob(I, 'inv', 'boundary', f[self.pos['boundary']] == ('v', pat), 'the delimiter text is not "--" followed by the boundary', st)
        self.ob(I, 'inv', 'state', state[0] == 'a' and self.variants[state[2]] == 'Searching', 'a new reader does not search for a delimiter', st)
        self.ob(I, 'inv', 'idx', f[self.pos['idx']] == ('i', ZERO), 'a new reader has search progress', st)
        self.ob(I, 'inv', 'fresh', s[0] == 'a' and s[3][0] == ('q', self.src) and s[3][1] == ('i', ZERO) and s[3][2] == ('i', ZERO), 'a new reader does not start at the body\'s first byte', st)
