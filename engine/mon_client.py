"""Properties of the client side, decided on the abstract states of the
client roots.  Ghost cells carried through the analysis:
  B     boundary text handed to the request's headers
  len   Content-Length handed to the request's headers
  app   whether the request accepted its headers
  wire  bytes handed to the stream since the last check
  tot   number of bytes handed to the stream in total
  exp   fields the caller asked for since the last check
  fault an I/O error occurred that must be reported"""
import re
import models, models2
from mon_base import Base
from models import deref, ref_of, content
from models2 import expand_views, rd_len
from lin import Lin, SYM, ZERO, ONE, sv
from ai import fresh_id, clen, ccat, ctaint, lit, seq, Infeasible, Stop

G = lambda n: ('g', n)

def nonempty(st, ct):
    return tuple(x for x in ct if not (x[0] == 'S' and st.ent_eq(x[2], x[3])))

def ceq(st, a, b):
    a, b = nonempty(st, a), nonempty(st, b)
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if x[0] != y[0] or x[1] != y[1]:
            return False
        if x[0] == 'S' and not (st.ent_eq(x[2], y[2]) and st.ent_eq(x[3], y[3])):
            return False
    return True

def glue(st, a, b):
    """Concatenation; adjacent ranges of one sequence become one range."""
    for x in b:
        y = a[-1] if a else None
        if x[0] == 'S' and y and y[0] == 'S' and x[1] == y[1] and x[2] != y[3] and st.ent_eq(x[2], y[3]):
            a = a[:-1] + (('S', x[1], y[2], x[3]),)
        else:
            a = ccat(a, (x,))
    return a

class Bad(Exception):
    pass

def lines_of(ct):
    """Split a content at the first empty line: (header lines, rest)."""
    lines, cur = [], []
    for i, x in enumerate(ct):
        if x[0] == 'S':
            cur.append(x)
            continue
        b = x[1]
        while True:
            k = b.find(b'\r\n')
            if k < 0:
                if b:
                    cur.append(('L', b))
                break
            if k:
                cur.append(('L', b[:k]))
            b = b[k + 2:]
            if not cur:
                return lines, ccat((('L', b),), ct[i + 1:])
            lines.append(ccat(tuple(cur)))
            cur = []
    raise Bad('a part has no empty line after its headers')

DISP = re.compile(rb'^content-disposition:[ \t]*form-data;[ \t]*name="$', re.I)
CTYP = re.compile(rb'^content-type:[ \t]*', re.I)

def parse_headers(lines):
    name = fname = ctype = None
    for ln in lines:
        if ln[0][0] != 'L':
            raise Bad('a header line does not start with a header name')
        h = ln[0][1]
        m = CTYP.match(h)
        if m:
            if ctype is not None:
                raise Bad('two Content-Type headers')
            ctype = ccat((('L', h[m.end():]),), ln[1:])
            if not ctype:
                raise Bad('empty Content-Type header')
            continue
        if h.lower().startswith(b'content-disposition'):
            if name is not None:
                raise Bad('two Content-Disposition headers')
            # literals between the values
            vals, lits = [], []
            cur = []
            i = 0
            if not DISP.match(h):
                # literal field names: cut at the first quote
                k = h.find(b'"')
                if k < 0 or not DISP.match(h[:k + 1]):
                    raise Bad('malformed Content-Disposition header')
                rest = ccat((('L', h[k + 1:]),), ln[1:])
            else:
                rest = ln[1:]
            name, rest = until_quote(rest)
            if rest:
                if rest[0][0] != 'L' or not re.match(rb'^;[ \t]*filename="', rest[0][1]):
                    raise Bad('malformed Content-Disposition parameters')
                m = re.match(rb'^;[ \t]*filename="', rest[0][1])
                fname, rest = until_quote(ccat((('L', rest[0][1][m.end():]),), rest[1:]))
                if rest:
                    raise Bad('text after the filename parameter')
            continue
    if name is None:
        raise Bad('a part has no Content-Disposition header')
    return name, fname, ctype

def until_quote(ct):
    out = []
    for i, x in enumerate(ct):
        if x[0] == 'L' and b'"' in x[1]:
            k = x[1].index(b'"')
            return ccat(tuple(out), (('L', x[1][:k]),)), ccat((('L', x[1][k + 1:]),), ct[i + 1:])
        out.append(x)
    raise Bad('unterminated quoted parameter')

def parse_body(st, ct, B, need_crlf):
    """[(name, filename, ctype, data)], closed.  `need_crlf`: the text follows
    field data, so the first delimiter must begin with CRLF."""
    pieces = [[]]
    for x in nonempty(st, ct):
        if x[0] == 'S' and len(B) == 1 and x[1] == B[0][1]:
            if not (st.ent_eq(x[2], B[0][2]) and st.ent_eq(x[3], B[0][3])):
                raise Bad('a truncated boundary is written')
            pieces.append([])
        else:
            pieces[-1].append(x)
    if len(pieces) == 1:
        raise Bad('no delimiter with the boundary of the headers is written')
    pre = lit(tuple(pieces[0]))
    if pre not in ((b'\r\n--',) if need_crlf else (b'--', b'\r\n--')):
        raise Bad('the first delimiter is preceded by %r' % (tuple(pieces[0]),))
    parts, closed = [], False
    for i, p in enumerate(pieces[1:]):
        last = i == len(pieces) - 2
        p = tuple(p)
        if not p or p[0][0] != 'L':
            raise Bad('a delimiter is followed by %r' % (p[:1],))
        b = p[0][1]
        if b.startswith(b'--'):
            if not last or lit(p) not in (b'--', b'--\r\n'):
                raise Bad('text after the closing delimiter')
            closed = True
            continue
        if not b.startswith(b'\r\n'):
            raise Bad('a delimiter line is not ended by CRLF')
        lines, data = lines_of(ccat((('L', b[2:]),), p[1:]))
        if not last:
            if not data or data[-1][0] != 'L' or not data[-1][1].endswith(b'\r\n--'):
                raise Bad('field data is not followed by CRLF and a delimiter')
            data = ccat(data[:-1], (('L', data[-1][1][:-4]),))
        parts.append(parse_headers(lines) + (data,))
    return parts, closed

class ClientMon(Base):
    def __init__(self, root):
        super().__init__()
        self.root = root

    def init(self, I, st):
        I.models.lists = True
        I.models.mk_hooks['mp_harness::client::Src'] = lambda I, oid, t: models2.mk_reader(I, oid, t)
        c = st.cells
        c[G('app')] = ('q', 'no')
        c[G('open')] = ('q', 'no')
        c[G('fin')] = ('q', 'no')
        c[G('fault')] = ('q', 'no')
        c[G('first')] = ('q', 'first')
        c[G('wire')] = ('gv', ())
        c[G('tot')] = ('i', ZERO)
        c[G('exp')] = ('lst', None, ())
        c[G('B')] = ('gv', ())
        c[G('len')] = ('q', 'unset')

    # -- faults
    def fault(self, st):
        st.cells[G('fault')] = ('q', 'yes')

    def errs(self, I, c, st, origin):
        """An error outcome that callers must report, and one (Interrupted)
        they may retry."""
        a, b = st.copy(), st.copy()
        self.fault(a)
        return [(I.models.result(c.dty, 'Err', ('err', fresh_id('err'), origin, '~Interrupted')), a),
                (I.models.result(c.dty, 'Err', ('err', fresh_id('err'), origin, 'Interrupted')), b)]

    # -- the wrapped request and stream
    def ext_apply(self, I, st, c):
        self.count('apply_headers')
        B = content(I, st, c.args[1])
        if st.cells[G('open')][1] == 'yes':
            I.report('order', (self.root, 'apply'), 'headers are applied after the stream was opened', st)
        t = ctaint(B)
        n = clen(B)
        if len(B) != 1 or B[0][0] != 'S' or 'rand' not in t:
            I.report('boundary', (self.root, 'random'), 'the boundary given to the headers is not random text', st)
        elif 'alnum' not in t:
            I.report('boundary', (self.root, 'alphabet'), 'the boundary is not made of alphanumeric characters', st)
        elif not (B[0][2] == ZERO and st.ent(Lin(16) - n) and st.ent(n - 70)):
            I.report('boundary', (self.root, 'length'), 'the boundary does not have between 16 and 70 characters', st)
        st.cells[G('B')] = ('gv', B)
        st.cells[G('len')] = c.args[2]
        s2 = st.copy()
        st.cells[G('app')] = ('q', 'yes')
        s2.cells[G('app')] = ('q', 'refused')
        return [(('b', True), st), (('b', False), s2)]

    def ext_open(self, I, st, c):
        self.count('open_stream')
        if st.cells[G('app')][1] != 'yes':
            I.report('order', (self.root, 'open'), 'the stream is opened although the headers were not accepted (%s)' % st.cells[G('app')][1], st)
        s1 = st.copy()
        s1.cells[G('open')] = ('q', 'yes')
        okt = I.models.vtype(c.dty, 'Ok')
        s2 = st.copy()
        self.fault(s2)
        return [(I.models.result(c.dty, 'Ok', I.mk(okt, ('strm',))), s1),
                (I.models.result(c.dty, 'Err', ('err', fresh_id('err'), 'open', '~Interrupted')), s2)]

    def emit(self, st, ct):
        w = glue(st, st.cells[G('wire')][1], ct)
        st.cells[G('wire')] = ('gv', w)
        st.cells[G('tot')] = ('i', st.cells[G('tot')][1] + clen(ct))

    def is_strm(self, I, st, a, ty):
        t = I.p.types.get(ty)
        while t is not None and t['k'] in ('ref', 'ptr'):
            t = I.p.types[t['to']]
        return t is not None and t['k'] == 'adt' and t['name'] == 'mp_harness::client::Strm'

    def lookup_other(self, c):
        if c.defn in ('std::io::Write::write_all', 'std::io::Write::flush') and c.atys and self.is_strm(c.I, None, None, c.atys[0]):
            return self.w_all if c.defn.endswith('write_all') else self.w_flush
        if c.defn in ('std::io::Read::read',) or c.idef == '<std::fs::File as std::io::Read>::read':
            return self.r_read
        if c.defn == 'std::fs::File::open' or c.idef in ('std::fs::File::metadata', 'std::fs::metadata'):
            return self.f_open
        return None

    def lookup(self, c):
        if c.idef.rsplit('::', 1)[-1] == 'spec__std__io__Write__write_all' and c.atys and self.is_strm(c.I, None, None, c.atys[0]):
            return self.w_all
        return super().lookup(c)

    def f_open(self, I, st, c):
        f = models2.m_open if c.idef == 'std::fs::File::open' else models2.m_metadata
        r = f(I, st, c)
        for v, s in r or ():
            if v[0] == 'a' and v[2] == 1:
                self.fault(s)
        return r

    def r_read(self, I, st, c):
        r = models2.m_read(I, st, c)
        if r is None:
            return None
        out = []
        for v, s in r:
            if v[0] == 'a' and v[2] == 1:
                out.extend(self.errs(I, c, s, 'src'))
            else:
                out.append((v, s))
        return out

    def ext_src_read(self, I, st, c):
        return self.r_read(I, st, c)

    def w_all(self, I, st, c):
        """write_all on the request's stream."""
        self.count('write_all')
        ct = content(I, st, c.args[1])
        s = st.copy()
        self.on_write(I, s)
        self.emit(s, ct)
        out = [(I.models.result(c.dty, 'Ok', ('a', I.models.vtype(c.dty, 'Ok'), 0, ())), s)]
        s = st.copy()
        self.fault(s)
        out.append((I.models.result(c.dty, 'Err', ('err', fresh_id('err'), 'wire', '~Interrupted')), s))
        return out

    def on_write(self, I, st):
        if st.cells[G('open')][1] != 'yes':
            I.report('order', (self.root, 'write'), 'bytes are written to a stream that was not opened', st)
        if st.cells[G('fin')][1] == 'yes':
            I.report('order', (self.root, 'write'), 'bytes are written after the request was finished', st)

    def ext_write(self, I, st, c):
        self.count('write')
        ct = content(I, st, c.args[1])
        out = self.errs(I, c, st, 'wire')
        for s in I.assume(st.copy(), ('eq', clen(ct)), True):
            out.append((I.models.result(c.dty, 'Ok', ('i', ZERO)), s))
        s = st.copy()
        n = sv(SYM.fresh('wr'))
        try:
            s.add_le(ONE - n)
            s.add_le(n - clen(ct))
            self.on_write(I, s)
            ct = content(I, s, c.args[1])
            self.emit(s, I.cslice(s, ct, ZERO, n))
            out.append((I.models.result(c.dty, 'Ok', ('i', n)), s))
        except Infeasible:
            pass
        return out

    def w_flush(self, I, st, c):
        return self.ext_flush(I, st.copy(), c)

    def ext_flush(self, I, st, c):
        s2 = st.copy()
        self.fault(s2)
        return [(I.models.result(c.dty, 'Ok', ('a', I.models.vtype(c.dty, 'Ok'), 0, ())), st),
                (I.models.result(c.dty, 'Err', ('err', fresh_id('err'), 'wire', '~Interrupted')), s2)]

    def ext_finish(self, I, st, c):
        self.count('finish')
        self.final(I, st)
        st.cells[G('fin')] = ('q', 'yes')
        s2 = st.copy()
        self.fault(s2)
        okt = I.models.vtype(c.dty, 'Ok')
        return [(I.models.result(c.dty, 'Ok', I.mk(okt, ('resp',))), st),
                (I.models.result(c.dty, 'Err', ('err', fresh_id('err'), 'finish', '~Interrupted')), s2)]

    # -- requested fields
    def expect(self, st, *fields):
        e = st.cells[G('exp')]
        st.cells[G('exp')] = ('lst', None, e[2] + (('a', None, 0, fields),))

    def obs_text(self, I, st, c):
        self.expect(st, ('q', 'text'), ('s', content(I, st, c.args[0])), ('s', content(I, st, c.args[1])))

    def obs_stream(self, I, st, c):
        src = deref(I, st, c.args[1])
        self.expect(st, ('q', 'stream'), ('s', content(I, st, c.args[0])), src[2], deref(I, st, c.args[2]), deref(I, st, c.args[3]))

    def obs_file(self, I, st, c):
        self.expect(st, ('q', 'file'), ('s', content(I, st, c.args[0])), ('s', content(I, st, c.args[1])))

    # -- checks
    def match(self, I, st, e, part):
        """Does the written part carry the requested field?  None or why not."""
        kind = e[3][0][1]
        name, fname, ctype, data = part
        if not ceq(st, name, e[3][1][1]):
            return 'its name'
        if kind == 'text':
            if fname is not None:
                return 'a filename'
            if ctype is not None:
                return 'a Content-Type'
            return None if ceq(st, data, e[3][2][1]) else 'its data'
        if ctype is None:
            return 'no Content-Type'
        if kind == 'stream':
            src = e[3][2][1]
            f, m = e[3][3], e[3][4]
            if f[0] == 'o' and fname is not None or f[0] == 'a' and f[2] == 0 and fname is not None:
                return 'a filename'
            if f[0] == 'a' and f[2] == 1 and (fname is None or not ceq(st, fname, content(I, st, f[3][0]))):
                return 'its filename'
            if f[0] == 'o':
                return 'its filename'
            if m[0] == 'a' and m[2] == 1:
                want = models.display(I, st, m[3][0])
                if not ceq(st, ctype, want):
                    return 'its Content-Type'
            want = (('S', src, ZERO, rd_len(st, src)),)
        else:
            path = e[3][2][1]
            src = ('rdsrc', ('file', path))
            if fname is None:
                want = models2.cpath(path)
                if not any(k[:2] == ('g', 'none') and k[3] in (want, tuple(y[1] for y in path)) for k in st.cells if len(k) == 4):
                    return 'no filename'
            elif not ceq(st, fname, seq(('file_name', path))):
                return 'its filename'
            want = (('S', src, ZERO, rd_len(st, src)),)
        return None if ceq(st, data, want) else 'its data'

    def check_parts(self, I, st, parts, how):
        exp = list(st.cells[G('exp')][2])
        if len(parts) != len(exp):
            raise Bad('%d part(s) are written for %d field(s)' % (len(parts), len(exp)))
        for p in parts:
            why = []
            for e in exp:
                w = self.match(I, st, e, p)
                if w is None:
                    exp.remove(e)
                    self.count('parts compared')
                    break
                why.append('%s: %s' % (e[3][0][1], w))
            else:
                raise Bad('a part differs from the requested field (%s)' % '; '.join(why))

    def frame(self, I, st, need_close, how):
        B = st.cells[G('B')][1]
        wire = expand_views(I, st, st.cells[G('wire')][1])
        first = st.cells[G('first')][1] == 'first'
        try:
            if need_close and not wire and how == 'prepared' and not st.cells[G('exp')][2]:
                return          # documented: no fields, empty body
            parts, closed = parse_body(st, wire, B, not first)
            if closed != need_close:
                raise Bad('the closing delimiter is %s' % ('missing' if need_close else 'written too early'))
            self.check_parts(I, st, parts, how)
        except Bad as e:
            if 'no delimiter' in str(e) or 'truncated boundary' in str(e):
                I.report('boundary', (self.root, 'match'), 'the delimiters in the body do not use the boundary given to the headers', st)
            I.report('frame', (self.root, how), '%s [wire %s]' % (e, show(wire)), st)

    def check_len(self, I, st, how, mode):
        v = st.cells[G('len')]
        total = st.cells[G('tot')][1]
        self.count('content length checks')
        if v[0] != 'a':
            I.report('len', (self.root, how), 'untracked Content-Length', st)
        elif v[2] == 1:
            if not st.ent_eq(v[3][0][1], total):
                I.report('len', (self.root, how), 'the announced Content-Length differs from the number of bytes written: %r / %r' % (v[3][0][1], total), st)
        elif mode == 'sized' or mode == 'lazy' and not any(e[3][0][1] == 'stream' for e in st.cells[G('exp')][2]):
            I.report('len', (self.root, 'missing'), 'no Content-Length is announced although the size of the body is known', st)

    def obs_written(self, I, st, c):
        if st.cells[G('fault')][1] == 'yes':
            I.report('swallow', (self.root, 'written'), 'a field is reported as written although an I/O operation failed', st)
            st.cells[G('fault')] = ('q', 'no')
        else:
            self.frame(I, st, False, 'field')
        st.cells[G('wire')] = ('gv', ())
        st.cells[G('exp')] = ('lst', None, ())
        st.cells[G('first')] = ('q', 'more')
        for k in [k for k in st.cells if k[0] == 'g' and k[1] in ('none', 'rdlen', 'def')]:
            del st.cells[k]

    def final(self, I, st):
        mode = {'root_sized': 'sized', 'root_lazy': 'lazy'}.get(self.root, 'stream')
        if st.cells[G('fault')][1] == 'yes':
            I.report('swallow', (self.root, 'finish'), 'the request is finished although an I/O operation failed', st)
            return
        self.frame(I, st, True, 'prepared' if mode == 'lazy' else 'end')
        if mode == 'lazy':
            self.check_len(I, st, 'finish', mode)
        else:
            self.check_len(I, st, 'finish', mode)

    def obs_sent(self, I, st, c):
        if st.cells[G('fault')][1] == 'yes':
            I.report('swallow', (self.root, 'sent'), 'the request is reported as sent although an I/O operation failed', st)
        if st.cells[G('app')][1] != 'yes' or st.cells[G('fin')][1] != 'yes':
            I.report('order', (self.root, 'sent'), 'the request is reported as sent without being opened and finished', st)

    def obs_failed(self, I, st, c):
        if st.cells[G('fault')][1] != 'yes' and st.cells[G('app')][1] != 'refused':
            I.report('spurious', (self.root, 'failed'), 'an error is reported although nothing failed', st)

    def obs_prepared(self, I, st, c):
        B = content(I, st, c.args[0])
        st.cells[G('B')] = ('gv', B)
        st.cells[G('len')] = c.args[1]
        st.cells[G('open')] = ('q', 'yes')

    def obs_chunk(self, I, st, c):
        self.count('chunks')
        self.emit(st, content(I, st, c.args[0]))

    def obs_body_end(self, I, st, c):
        self.frame(I, st, True, 'prepared')
        self.check_len(I, st, 'prepared', 'lazy')

def show(ct):
    out = []
    for x in ct:
        out.append(repr(x[1])[1:] if x[0] == 'L' else '<%s %r..%r>' % (str(x[1])[:40], x[2], x[3]))
    return ' '.join(out)
