"""Properties of the request parser (server::boundary, server::field,
server::Multipart), decided on the abstract states of `root_reader`.

Ghost cells carried through the analysis:
  ('g','st')  where the read position stands relative to the delimiters
  ('g','pos') position up to which field bytes were handed to the client"""
from lin import Lin, ZERO, ONE, sv
from ai import Infeasible, clen, lit, ccat
from join import nf_holds
import models
from mon_base import Base

G_ST = ('g', 'st')
G_POS = ('g', 'pos')
CRLF = (('L', b'\r\n'),)
DASH = (('L', b'--'),)

def fact_m(st, src, pos, pat, val=True):
    for f in st.facts:
        if f[0] == 'm' and f[1] == src and f[4] == val and st.ent_eq(f[2], pos):
            if f[3] == pat:
                return True
            a, b = lit(f[3]), lit(pat)
            if val and a is not None and b is not None and a[:len(b)] == b:
                return True
    return False

class ReaderMon(Base):
    def init(self, I, st):
        st.cells[G_ST] = ('q', 'pre')
        st.cells[G_POS] = ('i', ZERO)

    def pattern(self, I, st):
        """The delimiter text of the reader under analysis: the harness
        argument `boundary` prefixed with two dashes."""
        return self.pat

    def on_consume(self, I, s, src, base, n):
        g = s.cells[G_ST][1]
        if g == 'closed':
            return
        end = base + n
        if s.ent(n):
            return
        pat = self.pat
        L = clen(pat)
        for f in s.facts:
            if f[0] == 'hdrs' and f[1] == src and s.ent_eq(f[2], base) and s.ent_eq(f[3], end):
                self.count('consume:headers')
                s.cells[G_ST] = ('q', 'entry' if g == 'crlf' else 'bad')
                if g != 'crlf':
                    I.report('entry', (I.site_fn(), 'headers'), 'a header section is parsed at a position that does not directly follow a delimiter line')
                s.cells[G_POS] = ('i', end)
                return
        for f in s.facts:
            if f[0] == 'm' and f[1] == src and f[3] == pat and f[4]:
                p = f[2]
                if not nf_holds(s, src, pat, base, p + L - 1):
                    continue
                if s.ent_eq(p + L, end):
                    s.cells[G_ST] = ('q', 'delim')
                    self.count('consume:boundary')
                    return
                if s.ent_eq(p + L + 2, end):
                    self.count('consume:delimiter')
                    if fact_m(s, src, p + L, CRLF):
                        s.cells[G_ST] = ('q', 'crlf')
                    elif fact_m(s, src, p + L, DASH):
                        s.cells[G_ST] = ('q', 'closed')
                    else:
                        s.cells[G_ST] = ('q', 'delim?')
                    return
        if g == 'delim' and s.ent_eq(n, Lin(2)):
            if fact_m(s, src, base, CRLF):
                s.cells[G_ST] = ('q', 'crlf')
            elif fact_m(s, src, base, DASH):
                s.cells[G_ST] = ('q', 'closed')
            else:
                s.cells[G_ST] = ('q', 'delim?')
            return
        if nf_holds(s, src, pat, base, end + L - 1):
            self.count('consume:data')
            if g in ('crlf', 'delim', 'delim?'):
                s.cells[G_ST] = ('q', 'data')
            return
        self.count('consume:?')
        I.report('skip', (I.site_fn(), 'consume'), 'bytes are consumed that may contain (part of) a delimiter', s)
        s.cells[G_ST] = ('q', 'bad')

    def buf_end(self, st, src):
        """Position one past the buffered bytes (of the single buffer)."""
        out = []
        for v in st.cells.values():
            find_buf(v, src, out)
        return out

    # -- observations
    def obs_entry(self, I, st, c):
        if st.cells[G_ST][1] != 'entry':
            I.report('entry', ('read_entry', 'entry'), 'a field is yielded in position state %r instead of directly after delimiter line and headers' % (st.cells[G_ST][1],), st)
        st.cells[G_ST] = ('q', 'data')

    def obs_end(self, I, st, c):
        if st.cells[G_ST][1] != 'closed':
            I.report('end', ('read_entry', 'end'), 'the end of the body is reported in position state %r, not after the closing delimiter' % (st.cells[G_ST][1],), st)

    def obs_err(self, I, st, c):
        e = c.args[0]
        if e[0] != 'err':
            I.report('err', ('?', 'err'), 'untracked error', st)
            return
        self.count('err:%s:%s' % (e[2], e[3]))
        if e[2] == 'new' and e[3] == 'UnexpectedEof':
            ends = self.buf_end(st, self.src)
            if not any(f[0] == 'eof' and any(st.ent_eq(f[2], x) for x in ends) for f in st.facts):
                I.report('eof', ('read_entry', 'eof'), 'UnexpectedEof is returned although the body may have more data', st)

    def check_exposed(self, I, st, src, lo, hi, how):
        pat = self.pat
        L = clen(pat)
        if not st.ent_eq(lo, st.cells[G_POS][1]):
            I.report('order', (how, 'order'), 'field bytes are not handed out consecutively', st)
        if not nf_holds(st, src, pat, lo, hi + L - 1):
            # (an occurrence that starts inside the handed out range)
            I.report('leak', (how, 'leak'), 'bytes handed out as field data may contain the start of a delimiter', st)
        return

    def check_tail(self, I, st, src, lo, hi, how):
        """Non-empty [lo,hi) is handed out: its end must not be the CR(LF) of
        the delimiter line."""
        pat = self.pat
        one = st.ent_eq(hi - lo, ONE)
        if fact_m(st, src, hi, CRLF) and fact_m(st, src, hi + 2, pat):
            return
        if fact_m(st, src, hi, pat):
            if one or fact_m(st, src, hi - 2, CRLF, False):
                return
            I.report('crlf', (how, 'crlf'), 'the CRLF before a delimiter may be handed out as field data', st)
            return
        nocr = False
        for f in st.facts:
            if f[0] == 'm' and f[1] == src and f[4] is True and st.ent_eq(f[2], hi):
                l = lit(f[3])
                if l and l[:1] != b'\n':
                    nocr = True
            if f[0] == 'm' and f[1] == src and f[4] is False and lit(f[3]) == b'\r' and st.ent_eq(f[2], hi - 1):
                nocr = True
        nocrlf = one or fact_m(st, src, hi - 2, CRLF, False)
        if not (nocr and nocrlf):
            I.report('crlf', (how, 'crlf'), 'a trailing CR or CRLF that may belong to the following delimiter is handed out as field data (cr:%s crlf:%s)' % (nocr, nocrlf), st)

    def check_field_end(self, I, st, src, pos, how):
        pat = self.pat
        if fact_m(st, src, pos, CRLF) and fact_m(st, src, pos + 2, pat):
            return
        if fact_m(st, src, pos, pat):
            return
        ends = self.buf_end(st, src)
        if any(f[0] == 'eof' and f[1] == src and any(st.ent_eq(f[2], x) for x in ends) for f in st.facts):
            return
        I.report('fieldend', (how, 'fieldend'), 'a field ends although neither a delimiter nor the end of the body is there', st)

    def obs_fill(self, I, st, c):
        r = c.args[0]
        if r[0] != 's':
            I.report('leak', ('fill_buf', '?'), 'untracked bytes handed out', st)
            return
        ct = r[1]
        outs = []
        if not ct:
            pos = st.cells[G_POS][1]
            self.check_field_end(I, st, self.src, pos, 'fill_buf')
            return
        if len(ct) != 1 or ct[0][0] != 'S' or ct[0][1] != self.src:
            I.report('leak', ('fill_buf', 'src'), 'bytes handed out are not a contiguous part of the body', st)
            return
        lo, hi = ct[0][2], ct[0][3]
        for s in I.assume(st.copy(), ('le', hi - lo), True):
            self.count('fill:empty')
            self.check_field_end(I, s, self.src, lo, 'fill_buf')
            outs.append(s)
        for s in I.assume(st.copy(), ('le', lo + 1 - hi), True):
            self.count('fill:data')
            self.check_exposed(I, s, self.src, lo, hi, 'fill_buf')
            self.check_tail(I, s, self.src, lo, hi, 'fill_buf')
            outs.append(s)
        return [(('a', c.dty, 0, ()), s) for s in outs]

    def obs_consumed(self, I, st, c):
        n = c.args[0]
        st.cells[G_POS] = ('i', st.cells[G_POS][1] + n[1])

    def obs_read(self, I, st, c):
        """read(): the first n bytes of the buffer are the next n bytes."""
        n = c.args[1][1]
        ct = I.content_of(st, c.args[0]) if c.args[0][0] in ('s', 'ms', 'v') else None
        outs = []
        for s in I.assume(st.copy(), ('eq', n), True):
            self.count('read:end')
            outs.append(s)
        for s in I.assume(st.copy(), ('le', ONE - n), True):
            self.count('read:data')
            pos = s.cells[G_POS][1]
            got = I.cslice(s, ct, ZERO, n)
            if not (len(got) == 1 and got[0][0] == 'S' and got[0][1] == self.src and s.ent_eq(got[0][2], pos) and s.ent_eq(got[0][3], pos + n)):
                I.report('order', ('read', 'order'), 'read() does not copy the next bytes of the field: %r at %r' % (got, pos), s)
            s.cells[G_POS] = ('i', pos + n)
            outs.append(s)
        return [(('a', c.dty, 0, ()), s) for s in outs]

    def new_source(self, I, c):
        self.src = models.new_source(I, models.REQ)
        self.count('buffered readers')
        return self.src

def find_buf(v, src, out):
    if isinstance(v, tuple):
        if len(v) == 4 and v[0] == 'a' and v[3] and v[3][0] == ('q', src) and len(v[3]) > 2:
            out.append(v[3][1][1] + v[3][2][1])
            return
        for x in v:
            if isinstance(x, tuple):
                find_buf(x, src, out)
