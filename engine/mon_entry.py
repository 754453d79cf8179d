"""Stepping through a request field by field (server::Multipart, server::field),
above the delimiter reader.

BoundaryReader's methods are replaced by the contract that mon_bound.py proves
about them; the ghost phase says where the reader stands:

  data   in (or before) a field's data     line   directly after a delimiter line
  hdrs   directly after a header section   end    after the closing delimiter

Texts of the header section: the value V of a header is the source
beside that of its name in the same pair.  The texts that matter get a name when they
are cut out: ('prm', V, 'type') is the trimmed text before the first ';',
('prm', V, p) the text between "p=" and the next ';' (or the end) without
quotes."""
from lin import Lin, ZERO, ONE, SYM, sv
from ai import Infeasible, clen, ccat, fresh_id
import models
from models2 import copy_out
from join import nf_holds
from mon_base import Base

F = ('fld', 1)
models.SRC_TAINT[F] = models.REQ

def G(n):
    return ('g', n)

def mentions(x, src):
    return x == src or isinstance(x, tuple) and any(mentions(y, src) for y in x)

class EntryMon(Base):
    FNS = ('from_reader', 'consume_boundary', 'set_min_buf_size', 'fill_buf', 'consume', 'read')

    def __init__(self, rn):
        super().__init__()
        self.root = rn

    def init(self, I, st):
        for g, v in (('ph', 'none'), ('min', 'no'), ('fault', 'no'), ('fresh', 'no')):
            st.cells[G(g)] = ('q', v)
        for g in ('pos', 'out', 'got'):
            st.cells[G(g)] = ('i', ZERO)

    def key_extra(self, st):
        return tuple(st.cells.get(G(g)) for g in ('ph', 'min', 'fault', 'fresh', 'is content-disposition', 'is content-type', 'type', 'formdata')) + \
            tuple(G('cut ' + p) in st.cells for p in ('type', 'name', 'filename', 'whole', 'name at')) + (st.cells.get(G('is without file name')),)

    def rep(self, I, kind, key, msg, st):
        I.report(kind, (self.root, key), msg, st)

    def lookup_other(self, c):
        n = c.idef
        if 'boundary::BoundaryReader' in n:
            m = n.rsplit('::', 1)[1]
            if m in self.FNS and not n.split('BoundaryReader', 1)[0].count('&'):
                f = getattr(self, 'r_' + m)
                return lambda I, st, c: f(I, st.copy(), c)
        f = {'core::str::<impl str>::trim': self.h_trim, 'core::str::<impl str>::trim_matches': self.h_trim,
             'core::str::<impl str>::eq_ignore_ascii_case': self.h_eq, 'core::str::<impl str>::parse': self.h_parse,
             'core::str::<impl str>::find': self.h_find}.get(n)
        if f is not None:
            def g(I, st, c):
                r = f(I, st.copy(), c)
                return models.TABLE[n](I, st, c) if r is None else r
            return g
        return None

    # -- the texts of a header section
    def slice(self, I, st, v):
        v = models.deref(I, st, v)
        if v[0] not in ('s', 'v', 'ms'):
            return None
        ct = I.content_of(st, v)
        return ct[0] if len(ct) == 1 and ct[0][0] == 'S' else None

    def part(self, src):
        """One of the two texts of a header?"""
        return isinstance(src, tuple) and len(src) == 3 and src[0] != 'prm' and src[1] == 0 and src[2] in (0, 1)

    def h_eq(self, I, st, c):
        lits = [models.lit(I.content_of(st, models.deref(I, st, a))) for a in c.args]
        for a, other in ((0, 1), (1, 0)):
            x = self.slice(I, st, c.args[a])
            if lits[other] is None or x is None:
                continue
            y, n = st.copy(), st.copy()
            w = lits[other].lower().decode('latin1')
            if x[1][0] == 'prm' and x[1][2] == 'type':
                if w == 'form-data':
                    y.cells[G('formdata')] = ('q', x[1][1])
            elif self.part(x[1]) and st.ent_eq(x[2], ZERO):
                self.count('header comparisons')
                v = (x[1][0], 0, 1 - x[1][2])
                y.cells[G('is ' + w)] = ('q', v)
            return [(('b', True), y), (('b', False), n)]
        return None

    def h_trim(self, I, st, c):
        x = self.slice(I, st, c.args[0])
        if x is None or not self.part(x[1]):
            return None
        V, lo, hi = x[1], x[2], x[3]
        quotes = len(c.args) > 1
        if quotes and c.args[1] not in (('i', Lin(34)), ('s', (('L', b'"'),))):
            return None
        what = None
        if not quotes and st.ent_eq(lo, ZERO) and self.semi(st, V, lo, hi):
            what = 'type'
        elif quotes and self.semi(st, V, lo, hi):
            for p in ('filename', 'name'):
                q = ((('L', p.encode() + b'='),))
                if any(f[0] == 'm' and f[1] == V and f[3] == (('L', p.encode() + b'='),) and f[4] is True and st.ent_eq(f[2] + len(p) + 1, lo) for f in st.facts):
                    what = p
                    break
        if what is None:
            return None
        self.count('text: ' + what)
        src = ('prm', V, what)
        models.SRC_TAINT[src] = models.REQ
        n = sv(SYM.fresh('prm', True, models.REQ))
        try:
            st.add_le(n - (hi - lo))
        except Infeasible:
            return []
        ct = (('S', src, ZERO, n),)
        st.cells[G('cut ' + what)] = ('s', ct)
        if what == 'name':
            st.cells[G('cut name at')] = ('s', (('S', V, lo, hi),))
        return [(('s', ct), st)]

    def h_find(self, I, st, c):
        """The first occurrence: none before it, or none at all."""
        x = self.slice(I, st, c.args[0])
        p = models.pattern(I, st, c.args[1])
        if x is None or p is None:
            return None
        out = []
        if self.part(x[1]) and st.ent_eq(x[2], ZERO) and G('cut whole') not in st.cells:
            st.cells[G('cut whole')] = ('s', (('S', x[1], ZERO, x[3]),))
        for v, s in models.TABLE['core::str::<impl str>::find'](I, st, c):
            m = clen(p)
            w, nm = s.cells.get(G('cut whole')), s.cells.get(G('cut name at'))
            if v[2] == 0 and p == (('L', b'filename='),) and w is not None and nm is not None and w[1][0][1] == x[1] == nm[1][0][1] and \
                    s.ent_eq(x[3], w[1][0][3]) and s.ent(x[2] - nm[1][0][3]):
                s.cells[G('is without file name')] = ('q', x[1])
            s.add_fact(('nf', x[1], p, x[2], x[2] + v[3][0][1] + m - 1 if v[2] == 1 else x[3]))
            out.append((v, s))
        return out

    def semi(self, st, V, lo, hi):
        """Does [lo, hi) of V end at the first ';' behind lo, or at V's end?"""
        S = (('L', b';'),)
        if not nf_holds(st, V, S, lo, hi):
            return False
        if any(f[0] == 'm' and f[1] == V and f[3] == S and f[4] is True and st.ent_eq(f[2], hi) for f in st.facts):
            return True
        w = st.cells.get(G('cut whole'))
        return w is not None and w[1][0][1] == V and st.ent_eq(w[1][0][3], hi)

    def h_parse(self, I, st, c):
        x = self.slice(I, st, c.args[0])
        if x is None or not self.part(x[1]) or 'Mime' not in I.p.types[c.dty]['s']:
            return None
        V = x[1] if st.ent_eq(x[2], ZERO) else None
        a, b = st.copy(), st.copy()
        a.cells[G('type')] = ('q', V)
        b.cells[G('type')] = ('q', 'bad')
        okt, ert = I.models.vtype(c.dty, 'Ok'), I.models.vtype(c.dty, 'Err')
        return [(I.models.result(c.dty, 'Ok', ('o', ('mime', V), okt, models.REQ)), a),
                (I.models.result(c.dty, 'Err', I.mk(ert, fresh_id('perr'), models.REQ)), b)]

    def headers(self, I, st, v, ty):
        """What a field's headers say must be what its header section says."""
        fs = [n for n, _ in I.p.types[ty]['variants'][0]['fields']]
        if v[0] != 'a' or not {'name', 'filename', 'content_type'} <= set(fs):
            self.rep(I, 'headers', '?', 'the headers announced are not those that were parsed', st)
            return
        get = lambda n: v[3][fs.index(n)]
        V = st.cells.get(G('is content-disposition'), (None, None))[1]
        if V is None:
            self.rep(I, 'headers', 'disposition', 'a field is announced whose headers were not found to have a Content-Disposition', st)
            return
        t = st.cells.get(G('cut type'))
        F9 = (('L', b'form-data'),)
        ok = st.cells.get(G('formdata')) == ('q', V)
        if t is not None and not ok:
            _, src, lo, hi = t[1][0]
            ok = src == ('prm', V, 'type') and st.ent_eq(hi - lo, Lin(9)) and any(f[0] == 'm' and f[1] == src and f[3] == F9 and f[4] is True and st.ent_eq(f[2], lo) for f in st.facts)
        if not ok:
            self.rep(I, 'headers', 'form-data', 'a field is announced whose Content-Disposition is not known to be form-data', st)
        def is_param(x, p):
            x = models.deref(I, st, x) if x[0] in ('r', 'bx') else x
            if x[0] not in ('s', 'v'):
                return False
            ct = I.content_of(st, x)
            cut = st.cells.get(G('cut ' + p))
            return cut is not None and len(ct) == 1 and ct[0][0] == 'S' and ct[0][1] == ('prm', V, p) and ct[0][2] == cut[1][0][2] and st.ent_eq(ct[0][3], cut[1][0][3])
        if not is_param(get('name'), 'name'):
            self.rep(I, 'headers', 'name', 'the name announced is not the text of name= in the field\'s own Content-Disposition', st)
        fn = get('filename')
        if fn[0] != 'a':
            self.rep(I, 'headers', 'filename', 'the file name announced is not from the field\'s headers', st)
        elif fn[2] == 1:
            if not is_param(fn[3][0], 'filename'):
                self.rep(I, 'headers', 'filename', 'the file name announced is not the text of filename= in the field\'s own Content-Disposition', st)
        elif st.cells.get(G('cut filename')) is not None or st.cells.get(G('is without file name')) != ('q', V) and not self.name_last(st, V):
            self.rep(I, 'headers', 'filename', 'no file name is announced although the Content-Disposition is not known to be without one behind its name', st)
        ct = get('content_type')
        T = st.cells.get(G('is content-type'), (None, None))[1]
        P = st.cells.get(G('type'), (None, None))[1]
        if ct[0] != 'a':
            self.rep(I, 'headers', 'type', 'the content type announced is not from the field\'s headers', st)
        elif ct[2] == 1:
            m = ct[3][0]
            if T is None or P != T or m[0] != 'o' or m[1] != ('mime', T):
                self.rep(I, 'headers', 'type', 'the content type announced is not that of the field\'s own Content-Type header', st)
        elif T is not None:
            self.rep(I, 'headers', 'type', 'a Content-Type header is found but no content type is announced', st)

    def name_last(self, st, V):
        w, nm = st.cells.get(G('cut whole')), st.cells.get(G('cut name at'))
        return w is not None and nm is not None and w[1][0][1] == V == nm[1][0][1] and st.ent_eq(w[1][0][3], nm[1][0][3])

    # -- the delimiter reader, by contract
    def err(self, I, st, c, origin):
        s = st.copy()
        s.cells[G('fault')] = ('q', 'yes')
        return (I.models.result(c.dty, 'Err', ('err', fresh_id('err'), origin, '~Interrupted' if origin == 'body' else None)), s)

    def r_from_reader(self, I, st, c):
        self.count('readers')
        if st.cells[G('ph')][1] != 'none':
            self.rep(I, 'step', 'reader', 'a second reader is opened over the body', st)
        st.cells[G('ph')] = ('q', 'data')
        return [(I.mk(c.dty, ('rdr',)), st)]

    def r_set_min_buf_size(self, I, st, c):
        n = c.args[1]
        ok = n[0] == 'i' and st.ent(Lin(8) - n[1])
        st.cells[G('min')] = ('q', 'yes' if ok else 'no')
        return [(I.models.unit(c), st)]

    def r_consume_boundary(self, I, st, c):
        self.count('consume_boundary')
        ph = st.cells[G('ph')][1]
        if st.cells[G('min')][1] != 'yes':
            self.rep(I, 'step', 'min', 'the next delimiter is looked for without asking for a buffer that can hold it', st)
        if st.cells[G('fresh')][1] != 'no':
            self.rep(I, 'step', 'twice', 'one step to the next field passes two delimiters', st)
        if ph in ('line', 'hdrs'):
            # the caller lost its place: a field it did not announce
            self.rep(I, 'step', 'skipped', 'a field is skipped without being announced', st)
        out = []
        s = st.copy()
        s.cells[G('ph')] = ('q', 'end')
        s.cells[G('fresh')] = ('q', 'yes')
        out.append((I.models.result(c.dty, 'Ok', ('b', False)), s))
        if ph == 'end':
            return out
        out.append(self.err(I, st, c, 'step'))
        s = st.copy()
        s.cells[G('ph')] = ('q', 'line')
        s.cells[G('fresh')] = ('q', 'yes')
        s.facts = frozenset(f for f in s.facts if not mentions(f, F))
        for g in ('pos', 'out'):
            s.cells[G(g)] = ('i', ZERO)
        out.append((I.models.result(c.dty, 'Ok', ('b', True)), s))
        return out

    def r_fill_buf(self, I, st, c):
        self.count('fill_buf')
        out = [self.err(I, st, c, 'body')]
        pos = st.cells[G('pos')][1]
        n = sv(SYM.fresh('n', True, models.REQ))
        s = st.copy()
        s.cells[G('got')] = ('i', n)
        out.append((I.models.result(c.dty, 'Ok', ('s', ccat((('S', F, pos, pos + n),)))), s))
        return out

    def r_consume(self, I, st, c):
        n = c.args[1][1]
        pos, ph = st.cells[G('pos')][1], st.cells[G('ph')][1]
        if ph == 'line':
            good = st.ent_eq(pos, ZERO) and any(f[0] == 'hdrs' and f[1] == F and st.ent_eq(f[2], pos) and st.ent_eq(f[3], pos + n) for f in st.facts)
            self.count('header sections')
            if not good:
                self.rep(I, 'step', 'headers', 'not exactly the header section is consumed behind a delimiter line', st)
            st.cells[G('ph')] = ('q', 'hdrs')
            st.cells[G('out')] = ('i', pos + n)
        st.cells[G('pos')] = ('i', pos + n)
        return [(I.models.unit(c), st)]

    def r_read(self, I, st, c):
        out = [self.err(I, st, c, 'body')]
        pos = st.cells[G('pos')][1]
        dst = c.args[1]
        cap = clen(I.content_of(st, dst))
        if st.cells[G('ph')][1] == 'line':
            self.rep(I, 'step', 'headers', 'field data is read before the headers', st)
        s = st.copy()
        n = sv(SYM.fresh('n', True, models.REQ))
        try:
            s.add_le(n - cap)
            if dst[0] == 'ms':
                old = I.content_of(s, I.read(s, dst[1], dst[2]))
                pre = I.cslice(s, old, ZERO, dst[3])
                post = I.cslice(s, old, dst[3] + n, clen(old))
                I.write(s, dst[1], dst[2], ('v', ccat(pre, (('S', F, pos, pos + n),), post)))
            s.cells[G('pos')] = ('i', pos + n)
            s.cells[G('got')] = ('i', n)
            out.append((I.models.result(c.dty, 'Ok', ('i', n)), s))
        except Infeasible:
            pass
        return out

    # -- what the caller is told
    def forget(self, st):
        for k in [k for k in st.cells if k[0] == 'g' and isinstance(k[1], str) and k[1].startswith(('is ', 'cut ', 'formdata', 'type'))]:
            del st.cells[k]

    def obs_step(self, I, st, c):
        self.forget(st)
        st.cells[G('fresh')] = ('q', 'no')
        st.cells[G('fault')] = ('q', 'no')
        st.cells[G('min')] = ('q', 'no')

    def told(self, I, st, what):
        if st.cells[G('fault')][1] == 'yes':
            self.rep(I, 'fault', what, 'a failure to read the body or its delimiters is not reported as an error', st)

    def obs_field(self, I, st, c):
        ph = st.cells[G('ph')][1]
        self.told(I, st, 'field')
        if ph != 'hdrs' or st.cells[G('fresh')][1] != 'yes':
            self.rep(I, 'step', 'field', 'a field is announced that does not directly follow a delimiter line and its headers (%s)' % ph, st)
        if not st.ent_eq(st.cells[G('pos')][1], st.cells[G('out')][1]):
            self.rep(I, 'data', 'start', 'a field\'s data does not start behind its headers', st)
        st.cells[G('ph')] = ('q', 'data')
        st.cells[G('fresh')] = ('q', 'no')
        h = c.args[0]
        if h[0] == 'r':
            self.headers(I, st, I.read(st, h[1], h[2]), I.p.types[c.atys[0]]['to'])
        else:
            self.rep(I, 'headers', '?', 'unknown headers', st)
        self.forget(st)
        # what the headers say plays no part from here on
        if h[0] == 'r':
            I.write(st, h[1], h[2], I.mk(I.p.types[c.atys[0]]['to'], ('headers',), models.REQ))

    def obs_stop(self, I, st, c):
        ph = st.cells[G('ph')][1]
        self.told(I, st, 'end')
        if ph != 'end' or st.cells[G('fresh')][1] != 'yes':
            self.rep(I, 'step', 'end', 'the end of the request is announced although the closing delimiter was not reached in this step (%s)' % ph, st)
        st.cells[G('fresh')] = ('q', 'no')

    def obs_fail(self, I, st, c):
        e = c.args[0]
        ph = st.cells[G('ph')][1]
        self.count('errors %s' % (e[2] if e[0] == 'err' else '?'))
        if ph == 'end' and st.cells[G('fresh')][1] == 'yes':
            self.rep(I, 'fault', 'end', 'the end of the request is reported as an error', st)
        if st.cells[G('fault')][1] == 'no' and st.cells[G('fresh')][1] == 'no':
            self.rep(I, 'fault', 'spurious', 'a step fails before the next delimiter although nothing went wrong', st)
        self.forget(st)
        if ph in ('line', 'hdrs'):
            st.cells[G('ph')] = ('q', 'data')
        st.cells[G('fresh')] = ('q', 'no')
        st.cells[G('fault')] = ('q', 'no')

    def obs_derr(self, I, st, c):
        e = c.args[0]
        if e[0] != 'err' or e[2] != 'body':
            self.rep(I, 'data', 'error', 'reading data returns another error than the reader', st)
        st.cells[G('fault')] = ('q', 'no')

    def obs_data(self, I, st, c):
        ct = I.content_of(st, c.args[0])
        out, got = st.cells[G('out')][1], st.cells[G('got')][1]
        self.told(I, st, 'data')
        if not st.ent_eq(clen(ct), got) or ct and not (len(ct) == 1 and ct[0][0] == 'S' and ct[0][1] == F and st.ent_eq(ct[0][2], out)):
            self.rep(I, 'data', 'fill', 'not exactly the bytes the reader has buffered for the field are handed out', st)

    def obs_took(self, I, st, c):
        self.moved(I, st, c.args[0][1], 'consume')

    def moved(self, I, st, n, how):
        out, pos = st.cells[G('out')][1], st.cells[G('pos')][1]
        if not st.ent_eq(pos, out + n):
            self.rep(I, 'data', how, '%s() takes another number of bytes of the field than it says' % how, st)
        st.cells[G('out')] = ('i', pos)

    def obs_copied(self, I, st, c):
        n = c.args[1][1]
        out = st.cells[G('out')][1]
        self.told(I, st, 'read')
        ct = I.content_of(st, c.args[0])
        res = []
        for s in I.assume(st.copy(), ('le', n), True):
            self.moved(I, s, ZERO, 'read')
            res.append(s)
        for s in I.assume(st.copy(), ('le', ONE - n), True):
            if not s.ent_eq(n, s.cells[G('got')][1]):
                self.rep(I, 'data', 'count', 'read() reports another number of bytes than the reader gave', s)
            got = I.cslice(s, ct, ZERO, n)
            if not (len(got) == 1 and got[0][0] == 'S' and got[0][1] == F and s.ent_eq(got[0][2], out)):
                self.rep(I, 'data', 'copy', 'read() does not copy the next bytes of the field', s)
            self.moved(I, s, n, 'read')
            res.append(s)
        return [(('a', c.dty, 0, ()), s) for s in res]
