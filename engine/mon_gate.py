"""Property of the framework integrations (root_gate_*): a request is taken for
a multipart request exactly when it is a POST whose Content-Type is
multipart/form-data with a boundary parameter, and with that boundary.
The request is an unknown value; what the code learns about it is remembered
in the state, so that a verdict can be compared with all requests that are
consistent with the path:
  ('g','ct')      the Content-Type header: 'no' | 'yes' (absent cell: not known yet)
  ('g','bp')      the boundary parameter:  'no' | 'yes'
  ('g','form')    tiny_http: the media type is multipart/form-data
Lists (parameters, headers) hold at most one element of interest, the
'special' one, among arbitrary others."""
import models, models2
from mon_base import Base
from models import deref, ref_of, content
from lin import Lin, SYM, ZERO, ONE, sv
from ai import fresh_id, clen, ccat, seq, lit, Infeasible
from mon_client import ceq, show

G = lambda n: ('g', n)
CT, BP, HDR = ('ctype', 0), ('bparam', 0), ('cthdr', 0)
CTV, BVAL = ('ctval', 0), ('bval', 0)
METHOD = ('method', 0)

def low(b):
    return None if b is None else b.lower()

class GateMon(Base):
    def __init__(self, root):
        super().__init__()
        self.root = root

    OTHERWISE_FACTS = True

    def init(self, I, st):
        I.models.lists = True
        I.models.mk_hooks['ascii::ascii_string::AsciiString'] = lambda I, oid, taint: ('v', seq(CTV if HDR in flat(oid) else ('astr', oid), None, taint))

    def key_extra(self, st):
        return tuple(sorted((k, v[1]) for k, v in st.cells.items() if k[0] == 'g' and v[0] == 'q' and isinstance(v[1], str)))

    # -- a fact about the request, decided once per path
    def decide(self, st, name, yes='yes', no='no'):
        v = st.cells.get(G(name))
        if v is not None:
            return [(v[1], st)]
        a, b = st.copy(), st.copy()
        a.cells[G(name)] = ('q', yes)
        b.cells[G(name)] = ('q', no)
        return [(yes, a), (no, b)]

    def lookup_other(self, c):
        n = c.idef
        m = n.rsplit('::', 1)[1]
        if n.endswith('::Headers::get') or n.endswith('::Headers::get_mut'):
            return self.h_get
        if n.startswith('std::boxed::Box::<') and m == 'new_uninit':
            return self.new_uninit
        if n.startswith('std::boxed::box_assume_init_into_vec_unsafe'):
            return self.vec_lit
        if n.endswith('::Headers::has'):
            return self.h_has
        if n.endswith('::Headers::set'):
            return self.h_set
        if n.endswith('::Headers::remove'):
            return self.h_remove
        if 'hyper::client::Request' in n and m == 'method':
            return self.c_method
        if m == 'headers_mut' and 'hyper::client::Request' in n:
            return lambda I, st, c: [(('o', ('hdrs', 0), c.dty, frozenset()), st)]
        if n == 'tiny_http::Request::method':
            return self.t_method
        if n == 'tiny_http::Request::headers':
            return self.t_headers
        if n == 'tiny_http::HeaderField::equiv':
            return self.t_equiv
        if n.endswith('AsciiStr::as_str') or n.endswith('AsciiString as std::ops::Deref>::deref') or n.endswith('HeaderField::as_str'):
            return lambda I, st, c: [(('s', self.text_of(I, st, c.args[0])), st)]
        if 'mime::' in n and m in ('deref', 'as_str') and ('mime::Value' in n or 'mime::Attr' in n or 'mime::TopLevel' in n or 'mime::SubLevel' in n or '$en' in n):
            return self.e_as_str
        if n.endswith('mime::Mime::<P>::get_param') or n.endswith('mime::Mime::get_param'):
            return self.get_param
        if n.endswith('ContentType as std::ops::Deref>::deref') or n.endswith('ContentType as std::ops::DerefMut>::deref_mut'):
            return lambda I, st, c: [(('r',) + self.sub(I, st, c.args[0], 0), st)]
        if n == 'core::slice::<impl [T]>::iter' or n.endswith('IntoIterator>::into_iter') or c.defn == 'std::iter::IntoIterator::into_iter':
            return self.iter
        if m in ('find', 'any', 'position', 'all', 'find_map', 'next', 'filter', 'map', 'filter_map', 'rfind', 'next_back', 'last', 'rev', 'cloned') and 'iter' in n.lower():
            return lambda I, st, c: self.it_op(I, st, c, m)
        if n in ('core::str::<impl str>::find', 'core::str::<impl str>::split', 'core::str::<impl str>::splitn', 'core::str::<impl str>::trim',
                 'core::str::<impl str>::trim_matches', 'core::str::<impl str>::eq_ignore_ascii_case', 'core::str::<impl str>::trim_start',
                 'core::str::<impl str>::trim_end', 'core::str::<impl str>::trim_left', 'core::str::<impl str>::trim_right'):
            return lambda I, st, c: self.strop(I, st, c, m)
        return None

    def sub(self, I, st, v, i):
        cell, path = ref_of(I, st, v)
        return cell, path + (i,)

    def new_uninit(self, I, st, c):
        st = st.copy()
        cell = ('h',) + fresh_id('box')
        st.cells[cell] = ('u',)
        return [(('r', cell, ()), st)]

    def vec_lit(self, I, st, c):
        v = c.args[0]
        v = I.read(st, v[1], v[2]) if v[0] == 'r' else v
        todo = [v]
        while todo:
            x = todo.pop()
            if x[0] == 'a':
                if x[1] is not None and I.p.types[x[1]]['k'] == 'array':
                    return [(('lst', c.dty, x[3]), st)]
                todo.extend(x[3])
        return None

    # -- hyper headers
    def tname(self, I, c):
        a = [I.p.types[t] for t in c.targs if isinstance(t, int)] if c.targs else []
        return [t.get('name', '').rsplit('::', 1)[-1] for t in a]

    def h_get(self, I, st, c):
        self.count('header lookups')
        out = []
        if 'ContentType' not in I.p.types[c.dty]['s']:
            ot = I.models.vtype(c.dty, 'Some')
            return [(I.models.result(c.dty, 'None', None), st.copy()),
                    (I.models.result(c.dty, 'Some', I.mk(ot, fresh_id('hdr'))), st.copy())]
        for d, s in self.decide(st.copy(), 'ct'):
            if d == 'no':
                out.append((I.models.result(c.dty, 'None', None), s))
            else:
                rt = I.models.vtype(c.dty, 'Some')
                cell = ('ct', 'val')
                if cell not in s.cells:
                    s.cells[cell] = I.mk(I.p.types[rt]['to'], CT)
                out.append((I.models.result(c.dty, 'Some', ('r', cell, ())), s))
        return out

    def h_has(self, I, st, c):
        if 'ContentType' in self.tname(I, c):
            return [(('b', d == 'yes'), s) for d, s in self.decide(st.copy(), 'ct')]
        return None

    def get_param(self, I, st, c):
        a = self.attr_name(I, st, c.args[1])
        out = []
        if a == b'boundary':
            for d, s in self.decide(st.copy(), 'bp'):
                if d == 'no':
                    out.append((I.models.result(c.dty, 'None', None), s))
                else:
                    rt = I.models.vtype(c.dty, 'Some')
                    cell = ('bp', 'val')
                    if cell not in s.cells:
                        s.cells[cell] = I.mk(I.p.types[rt]['to'], BVAL)
                    out.append((I.models.result(c.dty, 'Some', ('r', cell, ())), s))
            return out
        rt = I.models.vtype(c.dty, 'Some')
        return [(I.models.result(c.dty, 'None', None), st.copy()),
                (I.models.result(c.dty, 'Some', I.mk(rt, fresh_id('oparam'))), st.copy())]

    def attr_name(self, I, st, v):
        """The literal text of a &str / Attr value."""
        v = deref(I, st, v)
        if v[0] in ('s', 'v', 'ms'):
            return low(lit(I.content_of(st, v)))
        return self.enum_text(I, st, v)

    def enum_text(self, I, st, v):
        if v[0] != 'a':
            return None
        vn = I.p.types[v[1]]['variants'][v[2]]['name']
        if vn == 'Ext' and v[3]:
            return low(lit(content(I, st, v[3][0])))
        return {'FormData': b'form-data', 'Utf8': b'utf-8', 'WwwFormUrlEncoded': b'x-www-form-urlencoded', 'OctetStream': b'octet-stream'}.get(vn, vn.lower().encode())

    def e_as_str(self, I, st, c):
        v = deref(I, st, c.args[0])
        t = self.enum_text(I, st, v)
        if v[0] == 'a' and t is not None:
            return [(('s', ccat((('L', t),))), st)]
        if v[0] == 'a' and v[3]:
            return [(('s', content(I, st, v[3][0])), st)]
        oid = v[1]
        if oid == BVAL:
            return [(('s', seq(('text', BVAL))), st)]
        return [(('s', seq(('text', oid))), st)]

    # -- lists with one special element
    def kind(self, I, st, v):
        if v[0] == 'm' and v[1] == 'sit':
            return v
        cur = v
        for _ in range(4):
            if cur[0] == 'vec' and 'mime::Attr' in I.p.types[cur[1]]['s']:
                return ('m', 'sit', ('q', 'param'), ('q', 'before'), ())
            if cur[0] == 'sl' and 'mime::Attr' in I.p.types[cur[3]]['s']:
                return ('m', 'sit', ('q', 'param'), ('q', 'before'), ())
            if cur[0] == 'm' and cur[1] == 'thdrs':
                return ('m', 'sit', ('q', 'hdr'), ('q', 'before'), ())
            if cur[0] == 'r':
                cur = I.read(st, cur[1], cur[2])
                continue
            break
        return None

    def iter(self, I, st, c):
        k = self.kind(I, st, c.args[0])
        if k is None:
            return None
        self.count('list walks')
        if k[2][1] == 'param':
            st = st.copy()
            st.cells[('eltype',)] = ('q', self.elem_type(I, st, c.args[0]))
        return [(k, st)]

    def elem_type(self, I, st, v):
        for _ in range(4):
            if v[0] == 'vec':
                return I.p.types[v[1]]['args'][0]
            if v[0] == 'sl':
                return v[3]
            if v[0] == 'r':
                v = I.read(st, v[1], v[2])
        return None

    def elements(self, I, st, it):
        """Next element: [(state, element cell or None, iterator afterwards)]"""
        kind, pos = it[2][1], it[3][1]
        out = []
        # an arbitrary other element
        s = st.copy()
        cell = ('oth',) + fresh_id('other')
        if kind == 'param':
            et = s.cells[('eltype',)][1]
        else:
            et = s.cells[('hdrtype',)][1]
        s.cells[cell] = I.mk(et, ('other', fresh_id('el')))
        out.append((s, cell, it))
        for d, s in ([('yes', st.copy())] if pos == 'x' else self.decide(st.copy(), 'bp' if kind == 'param' else 'ct')):
            if d == 'yes' and pos == 'before':
                cell = ('bp', 'elem') if kind == 'param' else ('ct', 'hdr')
                if cell not in s.cells:
                    v = I.mk(et, BP if kind == 'param' else HDR)
                    if kind == 'param':
                        v = I.expand(v) if v[0] == 'o' else v
                        at, vt = I.p.types[et]['elems']
                        bi = [i for i, x in enumerate(I.p.types[at]['variants']) if x['name'] == 'Boundary']
                        v = ('a', et, 0, (('a', at, bi[0], ()), I.mk(vt, BVAL)))
                    s.cells[cell] = v
                out.append((s, cell, it[:3] + (('q', 'after'),) + it[4:]))
            else:
                out.append((s, None, it))
        return out

    def constrain(self, I, st, cell, kind):
        """An 'other' element is not the special one."""
        if cell is None or cell[0] != 'oth':
            return [st]
        v = I.read(st, cell, ())
        if kind == 'param':
            a = I.read(st, cell, (0,))
            if a[0] == 'a':
                if self.enum_text(I, st, a) == b'boundary':
                    return []
                return [st]
            if a[0] == 'o':
                t = I.p.types[a[2]]
                bi = [i for i, x in enumerate(t['variants']) if x['name'] == 'Boundary'][0]
                return list(I.assume(st, ('p', ('isvar', a[1], bi)), False))
        return [st]

    def step(self, I, st, it, c):
        """Elements that pass the adaptors: [(state, value | None, it)]"""
        out, todo, other_done = [], [(st, it, False)], False
        while todo:
            s, i, skipped = todo.pop()
            for s2, cell, i2 in self.elements(I, s, i):
                if cell is None:
                    out.append((s2, None, i2))
                    continue
                is_other = cell[0] == 'oth'
                for s3 in self.constrain(I, s2, cell, i[2][1]) if is_other else [s2]:
                    vals = [(('r', cell, ()), s3, True)]
                    for ak, f in i[4]:
                        nv = []
                        for v, s4, ok in vals:
                            if not ok:
                                nv.append((v, s4, ok))
                                continue
                            arg = v
                            if ak == 'filter':
                                arg = ('r',) + models.tmp(I, s4, v)
                            for rv, s5 in I.call_value(s4, f, [arg], c, ak) or ():
                                if ak == 'filter':
                                    for s6 in I.assume(s5.copy(), rv[1], True):
                                        nv.append((v, s6, True))
                                    for s6 in I.assume(s5.copy(), rv[1], False):
                                        nv.append((v, s6, False))
                                elif ak == 'map':
                                    nv.append((rv, s5, True))
                                else:
                                    if rv[0] == 'a' and I.p.types[rv[1]]['variants'][rv[2]]['name'] == 'Some':
                                        nv.append((rv[3][0], s5, True))
                                    else:
                                        nv.append((v, s5, False))
                        vals = nv
                    for v, s4, ok in vals:
                        for s5 in self.constrain(I, s4, cell, i[2][1]) if is_other else [s4]:
                            if ok:
                                out.append((s5, v, i2))
                            elif not is_other:
                                todo.append((s5, i2, skipped))
                            # a rejected other element: the same situation again
        return out

    def it_op(self, I, st, c, m):
        v = c.args[0]
        cell = None
        if v[0] == 'r':
            cell, path = ref_of(I, st, v)
            v = I.read(st, cell, path)
        if v[:2] == ('m', 'tsplit') and m == 'next' and cell is not None:
            return self.tsplit_next(I, st.copy(), c, cell, path, v)
        if v[0] != 'm' or v[1] != 'sit':
            return None
        if m in ('filter', 'map', 'filter_map'):
            return [(v[:4] + (v[4] + ((m, c.args[1]),),), st)]
        if m in ('rev', 'cloned'):
            return [(v, st)]
        rt = c.dty
        out = []
        if m in ('next', 'next_back'):
            for s, el, i2 in self.step(I, st, v, c):
                if cell is not None:
                    I.write(s, cell, path, i2)
                if m == 'next_back':
                    pass
                out.append((I.models.result(rt, 'None', None) if el is None else I.models.result(rt, 'Some', el), s))
            return out
        if m == 'last':
            return None
        # searches: walk until the closure accepts
        todo = [(st, v)]
        f = c.args[1]
        while todo:
            s, i = todo.pop()
            for s2, el, i2 in self.step(I, s, i, c):
                if el is None:
                    if cell is not None:
                        I.write(s2, cell, path, i2)
                    if m in ('any', 'all'):
                        out.append((('b', m == 'all'), s2))
                    else:
                        out.append((I.models.result(rt, 'None', None), s2))
                    continue
                arg = el
                if m in ('find', 'rfind'):
                    arg = ('r',) + models.tmp(I, s2, el)
                for rv, s3 in I.call_value(s2, f, [arg], c, 'pred') or ():
                    if m == 'find_map':
                        isn = rv[0] == 'a' and I.p.types[rv[1]]['variants'][rv[2]]['name'] == 'None'
                        branches = [(not isn, s3)]
                    else:
                        branches = [(True, x) for x in I.assume(s3.copy(), rv[1], True)] + [(False, x) for x in I.assume(s3.copy(), rv[1], False)]
                    for yes, s4 in branches:
                        oth = el[0] == 'r' and el[1][0] == 'oth'
                        for s5 in self.constrain(I, s4, el[1], i[2][1]) if oth else [s4]:
                            stop = yes if m != 'all' else not yes
                            if stop:
                                if cell is not None:
                                    I.write(s5, cell, path, i2)
                                if m in ('any', 'all'):
                                    r = ('b', m == 'any')
                                elif m == 'position':
                                    r = I.models.result(rt, 'Some', ('i', sv(SYM.fresh('pos'))))
                                elif m == 'find_map':
                                    r = rv
                                else:
                                    r = I.models.result(rt, 'Some', el)
                                out.append((r, s5))
                            elif i2 != i:
                                todo.append((s5, i2))
        return out

    # -- tiny_http
    def t_method(self, I, st, c):
        st = st.copy()
        cell = ('req', 'method')
        if cell not in st.cells:
            st.cells[cell] = I.mk(I.p.types[c.dty]['to'], METHOD)
        return [(('r', cell, ()), st)]

    def c_method(self, I, st, c):
        return [(I.mk(c.dty, METHOD), st)]

    def t_headers(self, I, st, c):
        st = st.copy()
        cell = ('req', 'headers')
        st.cells[cell] = ('m', 'thdrs')
        st.cells[('hdrtype',)] = ('q', I.p.types[I.p.types[c.dty]['to']]['elem'])
        return [(('r', cell, ()), st)]

    def text_of(self, I, st, v):
        v = deref(I, st, v)
        if v[0] in ('s', 'v', 'ms'):
            return I.content_of(st, v)
        return seq(('text', v[1] if v[0] == 'o' else fresh_id('t')))

    def t_equiv(self, I, st, c):
        v = deref(I, st, c.args[0])
        l = low(lit(content(I, st, c.args[1])))
        special = v[0] == 'o' and HDR in flat(v[1]) or v[0] == 'a' and HDR in flat(v)
        if l is None:
            return [(('b', ('u', fresh_id('equiv'))), st)]
        if special:
            return [(('b', l == b'content-type'), st)]
        return [(('b', False if l == b'content-type' else ('u', fresh_id('equiv'))), st)]

    # -- text of the Content-Type value (tiny_http)
    def piece(self, ct):
        return ct[0][2:] if len(ct) == 1 and ct[0][0] == 'S' and ct[0][1] == CTV else None

    def occ(self, st, lo, hi, pat):
        """First occurrence of pat in [lo, hi): [(index or None, state)]"""
        for k, v in st.cells.items():
            if k[:2] == ('occ', pat) and st.ent_eq(k[2], lo) and st.ent_eq(k[3], hi):
                return [(None if v == ('q', None) else v[1], st)]
        a, b = st.copy(), st.copy()
        a.cells[('occ', pat, lo, hi)] = ('q', None)
        out = [(None, a)]
        i = sv(SYM.fresh('occ'))
        try:
            b.add_le(lo - i)
            b.add_le(i + len(pat) - hi)
            b.add_fact(('cb', CTV, i))
            b.add_fact(('cb', CTV, i + len(pat)))
            b.cells[('occ', pat, lo, hi)] = ('i', i)
            out.append((i, b))
        except Infeasible:
            pass
        return out

    def base(self, st, lo, hi):
        """Undo trims: (lo, hi, kinds)"""
        kinds = set()
        again = True
        while again:
            again = False
            for k, v in st.cells.items():
                if k[0] == 'trimmed' and v[3][0][1] == lo and v[3][1][1] == hi:
                    lo, hi = k[2], k[3]
                    kinds.add(k[1])
                    again = True
                    break
        return lo, hi, kinds

    def strop(self, I, st, c, m):
        h = I.content_of(st, models.subject(I, st, c.args[0]))
        if m == 'eq_ignore_ascii_case':
            o = content(I, st, c.args[1])
            if self.piece(o) is not None and lit(h) is not None:
                h, o = o, h
            r = self.piece(h)
            l = low(lit(o))
            if r is None:
                if len(h) == 1 and h[0][0] == 'S' and l is not None:
                    sp = HDR in flat(h[0][1])
                    if sp:
                        return [(('b', l == b'content-type'), st)]
                    if l == b'content-type':
                        return [(('b', False), st)]
                return None
            lo, hi, kinds = self.base(st, *r)
            if l == b'multipart/form-data' and lo == ZERO and 'ws' in kinds:
                for i, s in self.occ(st.copy(), ZERO, sv_len(), b';'):
                    pass
                cut = None
                for k, v in st.cells.items():
                    if k[:2] == ('occ', b';') and st.ent_eq(k[2], ZERO):
                        cut = v
                full = sv_len()
                if cut == ('q', None) and st.ent_eq(hi, full) or cut is not None and cut[0] == 'i' and st.ent_eq(hi, cut[1]):
                    return [(('b', d == 'yes'), s) for d, s in self.decide(st.copy(), 'form')]
            return [(('b', ('u', fresh_id('eqic'))), st)]
        r = self.piece(h)
        if r is None:
            return None
        lo, hi = r
        if m in ('trim', 'trim_matches', 'trim_start', 'trim_end', 'trim_left', 'trim_right'):
            if m == 'trim_matches':
                p = models.pattern(I, st, c.args[1])
                kind = 'quote' if lit(p) == b'"' else 'other'
            else:
                kind = 'ws' if m == 'trim' else m
            st = st.copy()
            key = ('trimmed', kind, lo, hi)
            v = st.cells.get(key)
            if v is None:
                a, b = sv(SYM.fresh('tl')), sv(SYM.fresh('th'))
                st.add_le(lo - a)
                st.add_le(a - b)
                st.add_le(b - hi)
                st.add_fact(('cb', CTV, a))
                st.add_fact(('cb', CTV, b))
                v = st.cells[key] = ('a', None, 0, (('i', a), ('i', b)))
            a, b = v[3][0][1], v[3][1][1]
            return [(('s', ccat((('S', CTV, a, b),))), st)]
        p = models.pattern(I, st, c.args[2] if m == 'splitn' else c.args[1])
        l = lit(p) if p is not None else None
        if l is None:
            return None
        if m == 'find':
            return [((I.models.result(c.dty, 'None', None) if i is None else I.models.result(c.dty, 'Some', ('i', i - lo))), s)
                    for i, s in self.occ(st.copy(), lo, hi, l)]
        return [(('m', 'tsplit', ('q', l), ('i', lo), ('i', hi)), st)]

    def tsplit_next(self, I, st, c, cell, path, v):
        l, lo, hi = v[2][1], v[3][1], v[4][1]
        out = []
        if lo is None:
            return [(I.models.result(c.dty, 'None', None), st)]
        for i, s in self.occ(st.copy(), lo, hi, l):
            I.write(s, cell, path, ('m', 'tsplit', v[2], ('i', None) if i is None else ('i', i + len(l)), v[4]))
            e = hi if i is None else i
            out.append((I.models.result(c.dty, 'Some', ('s', ccat((('S', CTV, lo, e),)) if not s.ent_eq(lo, e) else ())), s))
        return out

    # -- verdicts
    def method_is_post(self, I, st, v):
        """True / False / None"""
        v = deref(I, st, v)
        if v[0] == 'a':
            return I.p.types[v[1]]['variants'][v[2]]['name'] == 'Post'
        t = I.p.types[v[2]]
        pi = [i for i, x in enumerate(t['variants']) if x['name'] == 'Post'][0]
        return self.isvar(I, st, v, pi)

    def isvar(self, I, st, v, i):
        if v[0] == 'a':
            return v[2] == i
        y = I.assume(st.copy(), ('p', ('isvar', v[1], i)), True)
        n = I.assume(st.copy(), ('p', ('isvar', v[1], i)), False)
        if y and n:
            return None
        return bool(y)

    def var(self, I, v, name):
        t = I.p.types[v[1] if v[0] == 'a' else v[2]]
        return [i for i, x in enumerate(t['variants']) if x['name'] == name][0]

    def need(self, I, st, d, what, got):
        """d: True/False/None = is the condition known on this path."""
        if got and d is not True:
            I.report('gate', (self.root, what), 'a request is taken for a multipart request although it is not known to %s' % what, st)
            return None
        return d

    def obs_gate(self, I, st, c):
        self.count('verdicts')
        got = c.args[1]
        some = I.p.types[got[1]]['variants'][got[2]]['name'] == 'Some'
        self.count('accepted' if some else 'refused')
        facts = []
        facts.append((self.method_is_post(I, st, c.args[0]), 'be a POST'))
        ct = st.cells.get(G('ct'))
        facts.append((None if ct is None else ct[1] == 'yes', 'have a Content-Type'))
        if self.root == 'root_gate_tiny':
            f = st.cells.get(G('form'))
            facts.append((None if f is None else f[1] == 'yes', 'be multipart/form-data'))
        else:
            if ('ct', 'val') in st.cells:
                top, sub = I.read(st, ('ct', 'val'), (0, 0)), I.read(st, ('ct', 'val'), (0, 1))
                facts.append((self.isvar(I, st, top, self.var(I, top, 'Multipart')), 'be multipart/*'))
                facts.append((self.isvar(I, st, sub, self.var(I, sub, 'FormData')), 'be multipart/form-data'))
            bp = st.cells.get(G('bp'))
            facts.append((None if bp is None else bp[1] == 'yes', 'have a boundary parameter'))
        if some:
            for d, what in facts:
                if d is not True:
                    I.report('gate', (self.root, what), 'a request is taken for a multipart request although it is not known to %s' % what, st)
            self.check_text(I, st, content(I, st, got[3][0]))
            return
        if self.root == 'root_gate_tiny':
            nob = any(k[:2] == ('occ', b'boundary=') and v == ('q', None) and st.ent_eq(k[2], ZERO) for k, v in st.cells.items())
            facts.append((False if nob else None, 'have a boundary parameter'))
        if not any(d is False for d, what in facts):
            I.report('gate', (self.root, 'refused'), 'a request is refused although it can be a multipart/form-data POST with a boundary (%s)'
                     % ', '.join('%s: %s' % (w, {True: 'yes', None: 'unknown'}[d]) for d, w in facts), st)

    def check_text(self, I, st, ct):
        if self.root == 'root_gate_tiny':
            r = self.piece(ct)
            if not ct:
                return
            ok = False
            if r is not None:
                lo, hi, kinds = self.base(st, *r)
                for k, v in st.cells.items():
                    if k[:2] == ('occ', b'boundary=') and v[0] == 'i' and st.ent_eq(v[1] + 9, lo) and st.ent_eq(k[2], ZERO):
                        for k2, v2 in st.cells.items():
                            if k2[:2] == ('occ', b';') and st.ent_eq(k2[2], lo):
                                e = sv_len() if v2 == ('q', None) else v2[1]
                                ok = ok or st.ent_eq(hi, e)
                ok = ok and {'ws', 'quote'} <= kinds
            if not ok:
                I.report('gate', (self.root, 'text'), 'the boundary is not the text between `boundary=` and the next `;` without blanks and quotes: %s' % show(ct), st)
            return
        ok = len(ct) == 1 and ct[0][0] == 'S' and BVAL in flat(ct[0][1]) and st.ent_eq(ct[0][2], ZERO) and ct[0][3] == clen(seq(ct[0][1]))
        if not ok and lit(ct) == b'utf-8':
            for cell in (('bp', 'elem'), ('bp', 'val')):
                if cell in st.cells:
                    v = I.read(st, cell, (1,) if cell[1] == 'elem' else ())
                    ok = ok or v[0] == 'a' and self.enum_text(I, st, v) == b'utf-8'
        if not ok:
            I.report('gate', (self.root, 'text'), 'the boundary returned is not the value of the boundary parameter: %s' % show(ct), st)

    # -- from_request
    def ext_boundary(self, I, st, c):
        a, b = st.copy(), st.copy()
        a.cells[G('bnd')] = ('q', 'no')
        b.cells[G('bnd')] = ('q', 'yes')
        return [(I.models.result(c.dty, 'None', None), a), (I.models.result(c.dty, 'Some', ('s', seq(('bnd', 0)))), b)]

    def obs_refused(self, I, st, c):
        if st.cells.get(G('bnd')) != ('q', 'no'):
            I.report('gate', (self.root, 'refused'), 'from_request refuses a request that has a boundary', st)

    def obs_multi(self, I, st, c):
        if st.cells.get(G('bnd')) != ('q', 'yes'):
            I.report('gate', (self.root, 'taken'), 'from_request accepts a request that has no boundary', st)
        found = []
        def walk(v, d=0):
            if d > 8:
                return
            if v[0] in ('v', 's'):
                if any(p[0] == 'S' and p[1] == ('bnd', 0) for p in v[1]):
                    found.append(v[1])
            elif v[0] == 'a':
                for x in v[3]:
                    walk(x, d + 1)
            elif v[0] in ('m', 'bx'):
                for x in v[1:]:
                    if isinstance(x, tuple):
                        walk(x, d + 1)
        walk(deref(I, st, c.args[0]))
        self.count('readers checked')
        full = seq(('bnd', 0))
        if not found:
            I.report('gate', (self.root, 'delim'), 'the reader does not hold the boundary of the request', st)
        for ct in found:
            ok = ct == ccat((('L', b'--'),) + full) or ct == ccat((('L', b'\r\n--'),) + full)
            if not ok:
                I.report('gate', (self.root, 'delim'), 'the reader looks for %s instead of -- and the boundary' % show(ct), st)

    # -- settings
    def obs_same(self, I, st, c):
        self.count('settings checked')
        if not (c.args[1][0] == c.args[2][0] == 'i' and st.ent_eq(c.args[1][1], c.args[2][1])):
            I.report('cfg', (self.root, str(lit(content(I, st, c.args[0])))), 'not so: %s' % lit(content(I, st, c.args[0])).decode(), st)

    def obs_true(self, I, st, c):
        self.count('settings checked')
        if c.args[1] != ('b', True) and I.assume(st.copy(), c.args[1][1], False):
            I.report('cfg', (self.root, str(lit(content(I, st, c.args[0])))), 'not so: %s' % lit(content(I, st, c.args[0])).decode(), st)

    def obs_path(self, I, st, c):
        self.count('settings checked')
        v = deref(I, st, c.args[0])
        if v[0] != 'a' or not v[3] or not ceq(st, content(I, st, v[3][0]), content(I, st, c.args[1])):
            I.report('cfg', (self.root, 'path'), 'temp_dir_path is not the given path', st)

    # -- the hyper client
    def h_set(self, I, st, c):
        st = st.copy()
        v = c.args[1]
        n = I.p.types[v[1]]['name'].rsplit('::', 1)[-1] if v[0] == 'a' else '?'
        self.count('headers set')
        st.cells[('set', n)] = v
        return [(I.models.unit(c), st)]

    def h_remove(self, I, st, c):
        return None

    def mime_ok(self, I, st, v, bnd):
        m = v[3][0]
        if m[0] != 'a':
            return 'unknown content type'
        top, sub, params = m[3]
        if self.enum_text(I, st, top) != b'multipart':
            return 'top level type is not multipart'
        if self.enum_text(I, st, sub) != b'form-data':
            return 'sub type is not form-data'
        if params[0] != 'lst' or len(params[2]) != 1:
            return 'not exactly one parameter'
        a, val = params[2][0][3]
        if self.enum_text(I, st, a) != b'boundary':
            return 'the parameter is not `boundary`'
        if val[0] != 'a' or not val[3] or not ceq(st, content(I, st, val[3][0]), bnd):
            return 'the parameter is not the boundary'
        return None

    def obs_mime(self, I, st, c):
        self.count('content types checked')
        e = self.mime_ok(I, st, deref(I, st, c.args[1]), content(I, st, c.args[0]))
        if e:
            I.report('gate', (self.root, 'mime'), 'content_type(): ' + e, st)

    def obs_apply(self, I, st, c):
        self.count('verdicts')
        method, bnd, ln, ret = c.args
        post = self.method_is_post(I, st, method)
        for s, val in [(x, True) for x in I.assume(st.copy(), ret[1], True)] + [(x, False) for x in I.assume(st.copy(), ret[1], False)]:
            if not val:
                if post is not False:
                    I.report('gate', (self.root, 'refused'), 'apply_headers refuses a request that can be a POST', s)
                continue
            if post is not True:
                I.report('gate', (self.root, 'post'), 'apply_headers accepts a request that is not known to be a POST', s)
            ct = s.cells.get(('set', 'ContentType'))
            e = 'Content-Type is not set' if ct is None else self.mime_ok(I, s, ct, content(I, s, bnd))
            if e:
                I.report('gate', (self.root, 'mime'), 'apply_headers: ' + e, s)
            cl = s.cells.get(('set', 'ContentLength'))
            l = ln
            if l[0] == 'o':
                l = s.cells.get(('arg2',), l)
            if l[0] == 'o':
                i = self.var(I, l, 'Some')
                d = self.isvar(I, s, l, i)
                known = d
                num = I.expand(l, i)[3][0]
            else:
                known = I.p.types[l[1]]['variants'][l[2]]['name'] == 'Some'
                num = l[3][0] if known else None
            if known is None:
                I.report('gate', (self.root, 'length'), 'apply_headers does not look at the content length', s)
            elif not known and cl is not None:
                I.report('gate', (self.root, 'length'), 'apply_headers sets a Content-Length although none is given', s)
            elif known and (cl is None or cl[3][0][0] != 'i' or not s.ent_eq(cl[3][0][1], num[1])):
                I.report('gate', (self.root, 'length'), 'apply_headers does not announce the given Content-Length', s)

def sv_len():
    return clen(seq(CTV))

def flat(x):
    out = set()
    todo = [x]
    while todo:
        y = todo.pop()
        if isinstance(y, tuple):
            try:
                out.add(y)
            except TypeError:
                pass
            todo.extend(y)
    return out

def fields_of(I, v):
    """{name: value} of a struct value."""
    t = I.p.types[v[1]]
    return {f[0]: x for f, x in zip(t['variants'][v[2] or 0]['fields'], v[3])}

class InterceptMon(Base):
    """root_intercept: what iron's Intercept does with a request.  The outcome
    of each save call is arbitrary (contract: properties S04-S13); the marks
        ('g','last')  outcome of the last save: none, full, limit, io, error
        ('g','dir')   the temporary directory: none, made, failed
        ('g','ins')   entries were put into the request
    are compared with the result at the end."""
    def __init__(self, root):
        super().__init__()
        self.root = root

    def init(self, I, st):
        for k in ('last', 'dir', 'ins', 'kept', 'mp'):
            st.cells[G(k)] = ('q', 'none')
        # the interceptor's settings
        st.cells[('oc', ('arg', 0))] = v = I.mk(self.ity(I), ('ic',))
        v = I.expand(v)
        st.cells[('oc', ('arg', 0))] = v
        st.cells[G('ic')] = ('gi', v)

    def ity(self, I):
        return [i for i, t in I.p.types.items() if t['k'] == 'adt' and t['name'].endswith('server::iron::Intercept')][0] \
            if isinstance(I.p.types, dict) else [i for i, t in enumerate(I.p.types) if t['k'] == 'adt' and t['name'].endswith('server::iron::Intercept')][0]

    def setting(self, I, st, name):
        return fields_of(I, st.cells[G('ic')][1])[name]

    def key_extra(self, st):
        return tuple((k[1], v[1]) for k, v in sorted(st.cells.items(), key=repr) if k[0] == 'g' and v[0] == 'q')

    def lookup_other(self, c):
        return None

    def lookup(self, c):
        n = c.idef
        if n.endswith('::multipart_boundary'):
            return self.boundary
        if n.endswith('SaveBuilder::<M>::with_temp_dir') or n.endswith('SaveBuilder::<M>::with_entries'):
            return self.save
        if n.endswith('SaveBuilder::<M>::temp') or n.endswith('SaveBuilder::<M>::with_dir') or 'SaveBuilder::<M>::temp_with' in n:
            return self.save_elsewhere
        if n.endswith('PartialEntries::<M>::keep_partial'):
            return self.keep
        if n.endswith('TypeMap::<A>::insert'):
            return self.insert
        if n.startswith('tempfile::Builder') or n.startswith('tempfile::tempdir') or n.startswith('tempfile::TempDir::new'):
            return self.temp
        if n in ('std::fs::create_dir_all', 'std::fs::create_dir'):
            return self.mkdir
        if n.endswith('IronError::new'):
            return lambda I, st, c: [(I.mk(c.dty, fresh_id('ironerr')), st)]
        return super().lookup(c)

    def boundary(self, I, st, c):
        a, b = st.copy(), st.copy()
        a.cells[G('mp')] = ('q', 'no')
        b.cells[G('mp')] = ('q', 'yes')
        return [(I.models.result(c.dty, 'None', None), a), (I.models.result(c.dty, 'Some', ('s', seq(('bnd', 0)))), b)]

    def mkdir(self, I, st, c):
        out = []
        e = st.copy()
        e.cells[G('dir')] = ('q', 'failed')
        out.append((I.models.result(c.dty, 'Err', ('err', fresh_id('err'), 'dir', None)), e))
        s = st.copy()
        s.cells[('made',)] = ('gv', content(I, st, c.args[0]))
        out.append((I.models.result(c.dty, 'Ok', ('a', I.models.vtype(c.dty, 'Ok'), 0, ())), s))
        return out

    def temp(self, I, st, c):
        m = c.idef.rsplit('::', 1)[1]
        if m not in ('tempdir', 'tempdir_in', 'new_in') and not c.idef.startswith('tempfile::TempDir::new'):
            if I.p.types[c.dty]['k'] == 'ref' and c.args[0][0] == 'r':
                return [(c.args[0], st)]
            return [(I.mk(c.dty, fresh_id('tb')), st)]
        self.count('temporary directories')
        tp = self.setting(I, st, 'temp_dir_path')
        given = None
        some = self.some(I, st, tp)
        if m.endswith('_in'):
            given = content(I, st, c.args[-1])
            want = self.payload(I, st, tp)
            ok = some is True and want is not None and ceq(st, given, content(I, st, want))
            if not ok:
                I.report('intercept', (self.root, 'dir'), 'the temporary directory is not created in temp_dir_path', st)
            mk = st.cells.get(('made',))
            if mk is None or not ceq(st, mk[1], given):
                I.report('intercept', (self.root, 'mkdir'), 'the directory for temporary directories is not created first', st)
        elif some is not False:
            I.report('intercept', (self.root, 'dir'), 'the temporary directory is created in the system\'s directory although temp_dir_path can be set', st)
        e, s = st.copy(), st.copy()
        e.cells[G('dir')] = ('q', 'failed')
        s.cells[G('dir')] = ('q', 'made')
        return [(I.models.result(c.dty, 'Err', ('err', fresh_id('err'), 'dir', None)), e),
                (I.models.result(c.dty, 'Ok', I.mk(I.models.vtype(c.dty, 'Ok'), ('tdir', 0))), s)]

    def cur(self, I, st, name):
        """The present value of a setting (what the path has learnt)."""
        v = st.cells.get(('oc', ('arg', 0)))
        return fields_of(I, v)[name] if v is not None and v[0] == 'a' else self.setting(I, st, name)

    def some(self, I, st, v):
        v = self.cur(I, st, 'temp_dir_path')
        if v[0] == 'a':
            return I.p.types[v[1]]['variants'][v[2]]['name'] == 'Some'
        i = [j for j, x in enumerate(I.p.types[v[2]]['variants']) if x['name'] == 'Some'][0]
        y = I.assume(st.copy(), ('p', ('isvar', v[1], i)), True)
        n = I.assume(st.copy(), ('p', ('isvar', v[1], i)), False)
        return None if y and n else bool(y)

    def payload(self, I, st, v):
        v = self.cur(I, st, 'temp_dir_path')
        return v[3][0] if v[0] == 'a' and v[3] else None

    def save(self, I, st, c):
        self.count('save calls')
        b = c.args[0]
        if b[0] == 'r':
            b = I.read(st, b[1], b[2])
        f = fields_of(I, b) if b[0] == 'a' else {}
        sl, cl = f.get('size_limit'), f.get('count_limit')
        want = self.setting(I, st, 'file_size_limit')
        if sl is None or sl[0] != 'i' or not st.ent_eq(sl[1], want[1]):
            I.report('intercept', (self.root, 'size'), 'a request is saved with another size limit than file_size_limit', st)
        want = self.setting(I, st, 'file_count_limit')
        x = cl
        if x is not None and x[0] == 'a' and I.p.types[x[1]]['variants'][x[2]]['name'] == 'Some':
            x = x[3][0]
        if x is None or x[0] != 'i' or not st.ent_eq(x[1], want[1]):
            I.report('intercept', (self.root, 'count'), 'a request is saved with another count limit than file_count_limit', st)
        if st.cells[G('last')][1] not in ('none', 'limit'):
            I.report('intercept', (self.root, 'again'), 'the request is saved again after %s' % st.cells[G('last')][1], st)
        if c.idef.endswith('with_temp_dir'):
            if c.args[1][0] != 'o' or ('tdir', 0) not in flat(c.args[1][1]):
                I.report('intercept', (self.root, 'dir'), 'the request is not saved in the temporary directory made for it', st)
        else:
            if c.args[1][0] != 'o' or c.args[1][1] != ('kept', 0) or st.cells[G('kept')][1] != 'yes':
                I.report('intercept', (self.root, 'lost'), 'the request is saved on without the entries saved so far', st)
        tp = f.get('text_policy')
        force = tp is not None and tp[0] == 'a' and I.p.types[tp[1]]['variants'][tp[2]]['name'] == 'Force'
        t = I.p.types[c.dty]
        vs = {v['name']: i for i, v in enumerate(t['variants'])}
        ft = {v['name']: [x[1] for x in v['fields']] for v in t['variants']}
        out = []
        s = st.copy()
        s.cells[G('last')] = ('q', 'full')
        out.append((('a', c.dty, vs['Full'], (I.mk(ft['Full'][0], ('full', 0)),)), s))
        s = st.copy()
        s.cells[G('last')] = ('q', 'error')
        out.append((('a', c.dty, vs['Error'], (('err', fresh_id('err'), 'src', '~Interrupted'),)), s))
        pt, rt = ft['Partial']
        for i, rv in enumerate(I.p.types[rt]['variants']):
            if rv['name'] == 'Utf8Error' and not force:
                continue
            s = st.copy()
            s.cells[G('last')] = ('q', 'io' if rv['name'] == 'IoError' else 'limit')
            s.cells[G('kept')] = ('q', 'none')
            p = I.expand(I.mk(pt, ('part', 0)))
            if rv['name'] in ('SizeLimit', 'CountLimit'):
                fl = list(p[3])
                for j, (fname, fty) in enumerate(I.p.types[pt]['variants'][0]['fields']):
                    if fname == 'partial':
                        ot = I.p.types[fty]
                        k = [q for q, x in enumerate(ot['variants']) if x['name'] == 'Some'][0]
                        fl[j] = ('a', fty, k, (I.mk(ot['variants'][k]['fields'][0][1], ('pfield', 0)),))
                p = p[:3] + (tuple(fl),)
            r = I.expand(I.mk(rt, fresh_id('why')), i)
            out.append((('a', c.dty, vs['Partial'], (p, r)), s))
        return out

    def save_elsewhere(self, I, st, c):
        I.report('intercept', (self.root, 'dir'), 'the request is not saved in the temporary directory made for it', st)
        return self.save(I, st, c)

    def keep(self, I, st, c):
        st = st.copy()
        st.cells[G('kept')] = ('q', 'yes')
        return [(I.mk(c.dty, ('kept', 0)), st)]

    def insert(self, I, st, c):
        self.count('insertions')
        st = st.copy()
        v = c.args[1]
        if st.cells[G('last')][1] != 'full' or v[0] != 'o' or v[1] != ('full', 0):
            I.report('intercept', (self.root, 'insert'), 'the request gets entries that are not those of the complete save', st)
        st.cells[G('ins')] = ('q', 'yes')
        return [(I.mk(c.dty, fresh_id('prev')), st)]

    def obs_before(self, I, st, c):
        self.count('results checked')
        r = c.args[1]
        g = {k[1]: v[1] for k, v in st.cells.items() if k[0] == 'g' and v[0] == 'q'}
        lb = fields_of(I, st.cells[('oc', ('arg', 0))])['limit_behavior'] if ('oc', ('arg', 0)) in st.cells else self.setting(I, st, 'limit_behavior')
        oks = [(r[2] is not None and I.p.types[r[1]]['variants'][r[2]]['name'] == 'Ok', st)] if r[0] == 'a' else \
              [(True, x) for x in I.assume(st.copy(), ('p', ('isvar', r[1], 0)), True)] + [(False, x) for x in I.assume(st.copy(), ('p', ('isvar', r[1], 0)), False)]
        mode = I.p.types[lb[1]]['variants'][lb[2]]['name'] if lb[0] == 'a' else None
        for ok, s in oks:
            self.count('ok' if ok else 'errors')
            def bad(k, m):
                I.report('intercept', (self.root, k), m, s)
            if ok:
                if g['mp'] == 'no':
                    if g['last'] != 'none' or g['ins'] != 'none':
                        bad('plain', 'a request that is not multipart is not left alone')
                elif g['last'] != 'full':
                    bad('ok', 'success although the request was not saved completely (last outcome: %s, directory: %s)' % (g['last'], g['dir']))
                elif g['ins'] != 'yes':
                    bad('lost', 'the entries of a saved request are not put into it')
            else:
                if g['mp'] == 'no':
                    bad('plain', 'a request that is not multipart is refused')
                elif g['last'] == 'full':
                    bad('err', 'an error although the request was saved')
                elif g['last'] == 'limit' and mode != 'ThrowError':
                    bad('mode', 'a limit is reported as an error although the limit behaviour is not ThrowError (%s)' % mode)
                elif g['last'] == 'none' and g['dir'] != 'failed':
                    bad('err', 'an error although nothing failed')
        if g['last'] == 'limit' and mode is None:
            I.report('intercept', (self.root, 'mode'), 'the limit behaviour is not looked at', st)
