"""Properties of saving a field, decided on the abstract states of the
root_save_* / root_write_to roots.  The field's data is one sequence F.
Ghost cells:
  pos     number of bytes of F consumed so far
  seen    end of the range of F exposed by the last fill_buf()
  file    bytes written to the created file ('none' before it exists)
  opts    size limit, memory threshold, text policy
  fault   an I/O operation failed with an error that has to be reported
  wfault  writing to the destination failed"""
import models, models2
from mon_base import Base
from models import deref, ref_of, content
from lin import Lin, SYM, ZERO, ONE, sv
from ai import fresh_id, clen, ccat, ctaint, Infeasible, SRC_TAINT
from mon_client import glue, ceq, nonempty, show

G = lambda n: ('g', n)
F = ('fdata', 0)
MAX64 = (1 << 64) - 1
FILE_W = ('<std::fs::File as std::io::Write>::', '<&std::fs::File as std::io::Write>::')

class SaveMon(Base):
    def __init__(self, root):
        super().__init__()
        self.root = root

    def init(self, I, st):
        c = st.cells
        SRC_TAINT[F] = frozenset(['req'])
        c[G('pos')] = ('i', ZERO)
        c[G('seen')] = ('i', ZERO)
        c[G('file')] = ('q', 'none')
        c[G('disk')] = ('q', 'no')
        c[G('fault')] = ('q', 'no')
        c[G('wfault')] = ('q', 'no')
        c[G('invalid')] = ('q', 'no')

    def errs(self, I, c, st, origin, *ghosts):
        a, b = st.copy(), st.copy()
        for g in ghosts:
            a.cells[G(g)] = ('q', 'yes')
        return [(I.models.result(c.dty, 'Err', ('err', fresh_id('err'), origin, '~Interrupted')), a),
                (I.models.result(c.dty, 'Err', ('err', fresh_id('err'), origin, 'Interrupted')), b)]

    # -- the field's data
    def lookup(self, c):
        n = c.idef
        if 'MultipartData<' in n and n.endswith('>::fill_buf'):
            return self.fill
        if 'MultipartData<' in n and n.endswith('>::consume'):
            return self.consume
        if n.endswith('as std::io::Write>::write') and 'std::fs::File' in n or \
                c.defn == 'std::io::Write::write' and 'std::fs::File' in I_ty(c):
            return self.f_write
        if n in ('std::fs::OpenOptions::open', 'std::fs::File::create', 'std::fs::File::create_new', 'std::fs::write') or n.startswith('std::fs::OpenOptions::open::<'):
            return self.f_open
        if n.startswith('std::fs::') and not n.startswith(('std::fs::OpenOptions::', 'std::fs::File::options')):
            return self.f_other
        return super().lookup(c)

    def fill(self, I, st, c):
        self.count('fill_buf')
        st = st.copy()
        pos = st.cells[G('pos')][1]
        out = self.errs(I, c, st, 'src', 'fault')
        s = st.copy()
        known_more = s.ent(pos + 1 - s.cells[G('seen')][1])
        if not known_more:
            s.add_fact(('eof', F, pos))
            try:
                s.add_le(s.cells[G('seen')][1] - pos)
                s.add_le(pos - s.cells[G('seen')][1])
                out.append((I.models.result(c.dty, 'Ok', ('s', ())), s))
            except Infeasible:
                pass
        if not any(f[0] == 'eof' and f[1] == F and st.ent_eq(f[2], pos) for f in st.facts):
            s = st.copy()
            k = sv(SYM.fresh('fill'))
            try:
                s.add_le(ONE - k)
                s.add_le(s.cells[G('seen')][1] - pos - k)     # nothing shown is taken back
                s.cells[G('seen')] = ('i', pos + k)
                out.append((I.models.result(c.dty, 'Ok', ('s', ccat((('S', F, pos, pos + k),)))), s))
            except Infeasible:
                pass
        return out

    def consume(self, I, st, c):
        self.count('consume')
        n = c.args[1]
        st = st.copy()
        pos = st.cells[G('pos')][1]
        if n[0] != 'i' or not st.ent(pos + n[1] - st.cells[G('seen')][1]):
            I.report('conserve', (self.root, 'consume'), 'more bytes of the field are consumed than were read', st)
            n = ('i', st.cells[G('seen')][1] - pos)
        st.cells[G('pos')] = ('i', pos + n[1])
        return [(I.models.unit(c), st)]

    # -- the file system
    def touch(self, I, st, what):
        self.count('disk access')
        st.cells[G('disk')] = ('q', 'yes')
        o = st.cells.get(G('opts'))
        if o is None:
            return
        lim, thr = o[3][0], o[3][1]
        if lim[0] == 'i' and thr[0] == 'i':
            if not st.ent(thr[1] - lim[1] + 1):
                I.report('disk', (self.root, 'touch'), '%s although the size limit does not exceed the memory threshold' % what, st)
            if not st.ent(thr[1] - st.cells[G('seen')][1] + 1):
                I.report('disk', (self.root, 'early'), '%s although the field is not known to exceed the memory threshold' % what, st)

    def f_open(self, I, st, c):
        st = st.copy()
        self.touch(I, st, 'a file is opened')
        if c.idef.startswith('std::fs::OpenOptions'):
            oo, path = deref(I, st, c.args[0]), content(I, st, c.args[1])
            fl = oo[3][0][1].split(',') if oo[0] == 'a' else []
            self.count('open options checked')
            if 'create_new' not in fl or 'write' not in fl:
                I.report('overwrite', (self.root, 'open'), 'a file is opened without create_new, so an existing file can be overwritten', st)
        else:
            path = content(I, st, c.args[0])
            if not c.idef.endswith('create_new'):
                I.report('overwrite', (self.root, 'create'), '%s can overwrite an existing file' % c.idef, st)
        self.check_path(I, st, path)
        st.cells[G('path')] = ('gv', path)
        okt = I.models.vtype(c.dty, 'Ok')
        s = st.copy()
        if s.cells[G('file')] != ('q', 'none'):
            I.report('conserve', (self.root, 'reopen'), 'a second file is created for one field', s)
        s.cells[G('file')] = ('gv', ())
        return [(I.models.result(c.dty, 'Ok', ('m', 'wfile')), s)] + self.errs(I, c, st, 'open', 'fault', 'wfault')[:1]

    def check_path(self, I, st, path):
        self.count('paths checked')
        if 'req' in ctaint(path):
            I.report('path', (self.root, 'taint'), 'the path of a created file contains text of the request: %s' % show(path), st)
        if self.root == 'root_save_path':
            ok = len(path) == 1 and path[0][0] == 'S' and path[0][1] == ('arg', 1)
        elif self.root == 'root_save_dir':
            ok = len(path) == 3 and path[1] == ('L', b'/') and path[0][0] == 'S' and path[2][0] == 'S' and \
                (path[0][1] == 'tempdir' and path[2][1][0] == 'nd' or self.fresh(st, path[2:]))
        elif self.root == 'root_entries':
            ok = len(path) == 3 and path[1] == ('L', b'/') and path[0][0] == 'S' and self.fresh(st, path[2:])
        else:
            return
        if not ok:
            I.report('path', (self.root, 'name'), 'a file is created under an unexpected path: %s' % show(path), st)

    def fresh(self, st, ct):
        t = ctaint(ct)
        return 'rand' in t and 'alnum' in t and st.ent(Lin(8) - clen(ct))

    def f_other(self, I, st, c):
        st = st.copy()
        self.touch(I, st, 'the file system is accessed (%s)' % c.idef.split('::<')[0])
        n = c.idef.split('::<')[0]
        if n in ('std::fs::remove_file', 'std::fs::remove_dir', 'std::fs::remove_dir_all', 'std::fs::rename', 'std::fs::copy', 'std::fs::hard_link',
                 'std::fs::set_permissions', 'std::fs::File::set_len', 'std::fs::symlink'):
            I.report('overwrite', (self.root, n), '%s is called while a field is saved' % n, st)
        t = I.p.types[c.dty]
        if t['k'] == 'adt' and t['name'] == 'std::result::Result':
            okt = I.models.vtype(c.dty, 'Ok')
            return [(I.models.result(c.dty, 'Ok', I.mk(okt, fresh_id('fs'))), st.copy())] + self.errs(I, c, st, 'fs', 'fault', 'wfault')[:1]
        return [(I.mk(c.dty, fresh_id('fs')), st)]

    def f_write(self, I, st, c):
        return self.write(I, st.copy(), c)

    def ext_dest_write(self, I, st, c):
        if st.cells[G('file')] == ('q', 'none'):
            st.cells[G('file')] = ('gv', ())
        return self.write(I, st, c)

    def write(self, I, st, c):
        self.count('write')
        ct = content(I, st, c.args[1])
        out = self.errs(I, c, st, 'dst', 'fault', 'wfault')
        if st.cells[G('file')][0] != 'gv':
            I.report('conserve', (self.root, 'write'), 'bytes are written before the file exists', st)
            return out
        for s in I.assume(st.copy(), ('eq', clen(ct)), True):
            out.append((I.models.result(c.dty, 'Ok', ('i', ZERO)), s))
        for s in I.assume(st.copy(), ('eq', clen(ct)), False):      # a full destination: WriteZero
            s.cells[G('wfault')] = s.cells[G('fault')] = ('q', 'yes')
            out.append((I.models.result(c.dty, 'Ok', ('i', ZERO)), s))
        s = st.copy()
        n = sv(SYM.fresh('wr'))
        try:
            s.add_le(ONE - n)
            s.add_le(n - clen(ct))
            ct = content(I, s, c.args[1])
            w = glue(s, s.cells[G('file')][1], I.cslice(s, ct, ZERO, n))
            x = nonempty(s, w)
            if x and not (len(x) == 1 and x[0][0] == 'S' and x[0][1] == F and s.ent_eq(x[0][2], ZERO)):
                I.report('conserve', (self.root, 'write'), 'the bytes written are not the field\'s data in order: %s' % show(w), s)
                m = sv(SYM.fresh('len'))
                s.add_le(m - clen(w))
                s.add_le(clen(w) - m)
                w = (('S', F, ZERO, m),)
            s.cells[G('file')] = ('gv', w)
            self.check_limit(I, s, clen(w), 'write')
            out.append((I.models.result(c.dty, 'Ok', ('i', n)), s))
        except Infeasible:
            pass
        return out

    def on_unchecked_utf8(self, I, st, ct):
        I.report('text', (I.site_fn(), 'unchecked'), 'bytes are turned into text without checking that they are UTF-8', st)

    def on_noutf8(self, st, src):
        if src == F:
            st.cells[G('invalid')] = ('q', 'yes')

    def check_limit(self, I, st, n, how):
        o = st.cells.get(G('opts'))
        self.count('size limit checks')
        if o is None or o[3][0][0] != 'i':
            return
        lim = o[3][0][1]
        if lim.is_const() and lim.c >= MAX64:
            return
        if not st.ent(n - lim):
            I.report('limit', (self.root, how), 'more bytes are stored than the size limit allows (%r bytes, limit %r)' % (n, lim), st)

    def key_extra(self, st):
        """States with different orders of limit and threshold are kept apart."""
        o = st.cells.get(G('opts'))
        if o is None or o[3][0][0] != 'i' or o[3][1][0] != 'i':
            return None
        lim, thr = o[3][0][1], o[3][1][1]
        k, cl = st.cells.get(G('start')), st.cells.get(G('climit'))
        return st.ent(lim - thr), st.ent(thr + 1 - lim), k is not None and st.ent(k[1] - cl[1])

    # -- observations
    def obs_opts(self, I, st, c):
        lim, thr = c.args[0], c.args[1]
        st.cells[G('opts')] = ('a', None, 0, (lim, thr, ('q', str(c.args[2][1].c) if c.args[2][0] == 'i' else '?')))
        if lim[0] == 'i' and thr[0] == 'i':
            # the two orders of limit and threshold are analysed apart
            return [(I.models.unit(c), s) for t in (True, False) for s in I.assume(st.copy(), ('le', lim[1] - thr[1]), t)]

    def variant(self, I, v):
        return I.p.types[v[1]]['variants'][v[2]]['name']

    def data(self, I, st, v):
        """(kind, content or None, reported size)."""
        if v[0] != 'a':
            return None
        k = self.variant(I, v)
        if k == 'File':
            f = st.cells[G('file')]
            return k, (f[1] if f[0] == 'gv' else None), v[3][1]
        ct = content(I, st, v[3][0])
        return k, ct, ('i', clen(ct))

    def obs_saved(self, I, st, c):
        v = deref(I, st, c.args[0])
        self.count('results')
        if v[0] != 'a':
            I.report('conserve', (self.root, 'result'), 'the result is not tracked', st)
            return
        how = self.variant(I, v)
        fault = st.cells[G('fault')][1] == 'yes'
        if how == 'Error':
            if not fault:
                I.report('complete', (self.root, 'error'), 'an error is returned although no I/O operation failed', st)
            return
        d = self.data(I, st, v[3][0])
        if d is None:
            I.report('conserve', (self.root, 'result'), 'the saved data is not tracked', st)
            return
        self.result(I, st, how, v, d)

    def obs_copied(self, I, st, c):
        v = deref(I, st, c.args[0])
        self.count('results')
        how = self.variant(I, v)
        if how == 'Error':
            if st.cells[G('fault')][1] != 'yes':
                I.report('complete', (self.root, 'error'), 'an error is returned although no I/O operation failed', st)
            return
        f = st.cells[G('file')]
        self.result(I, st, how, v, ('Copy', f[1] if f[0] == 'gv' else (), v[3][0]))

    def result(self, I, st, how, v, d):
        kind, ct, size = d
        pos, seen = st.cells[G('pos')][1], st.cells[G('seen')][1]
        o = st.cells[G('opts')][3]
        lim, thr, pol = o[0], o[1], o[2][1]
        fault = st.cells[G('fault')][1] == 'yes'
        wf = st.cells[G('wfault')][1] == 'yes'
        if ct is None:
            I.report('conserve', (self.root, how, kind), 'a file is reported that was not created', st)
            return
        n = clen(ct)
        # the stored bytes are the field's, in order and complete
        want = ccat((('S', F, ZERO, pos),))
        self.count('contents compared')
        if wf and kind in ('File', 'Copy'):
            x = nonempty(st, ct)
            if x and not (len(x) == 1 and x[0][0] == 'S' and x[0][1] == F and st.ent_eq(x[0][2], ZERO)):
                I.report('conserve', (self.root, how, kind), 'the stored bytes are not a prefix of the field\'s data: %s' % show(ct), st)
        elif not ceq(st, ct, want):
            I.report('conserve', (self.root, how, kind), 'the stored bytes differ from the bytes taken from the field: %s instead of %s' % (show(ct), show(want)), st)
        if size[0] != 'i' or not st.ent_eq(size[1], n):
            I.report('size', (self.root, how, kind), 'the reported size %r differs from the number of bytes stored, %r' % (size[1], n), st)
        self.check_limit(I, st, n, how)
        if kind in ('Text', 'Bytes'):
            if thr[0] == 'i' and not st.ent(n - thr[1]):
                I.report('memory', (self.root, how), 'more bytes are kept in memory (%r) than the memory threshold allows' % (n,), st)
            if st.cells[G('disk')][1] == 'yes':
                I.report('disk', (self.root, how), 'the disk was touched for a field that is returned in memory', st)
        if kind == 'File':
            p = content(I, st, v[3][0][3][0])
            if st.cells.get(G('path')) is None or not ceq(st, p, st.cells[G('path')][1]):
                I.report('conserve', (self.root, how, 'path'), 'the reported path is not the path of the file that was created', st)
        if kind == 'Text':
            self.count('text results')
            if pol == '1':
                I.report('text', (self.root, 'policy'), 'text is returned although text was to be ignored', st)
        if how == 'Full':
            self.count('full results')
            if not any(f[0] == 'eof' and f[1] == F and st.ent_eq(f[2], pos) for f in st.facts):
                I.report('full', (self.root, kind), 'the field is reported as completely saved although its end was not reached', st)
            if kind == 'Bytes' and pol == '0':
                I.report('text', (self.root, 'forced'), 'a byte vector is returned as a full result although text was forced', st)
            if kind == 'Bytes' and pol == '2' and not self.invalid(I, st, pos):
                I.report('text', (self.root, 'tried'), 'a byte vector is returned although the field is not known to be invalid UTF-8', st)
            if fault:
                I.report('full', (self.root, 'fault'), 'the field is reported as completely saved although an I/O operation failed', st)
            return
        self.count('partial results')
        r = v[3][1]
        why = self.variant(I, r) if r[0] == 'a' else '?'
        if why == 'SizeLimit':
            if lim[0] == 'i' and not st.ent(lim[1] + 1 - seen):
                I.report('partial', (self.root, why), 'the size limit is reported although the field is not known to exceed it', st)
        elif why == 'IoError':
            if not fault:
                I.report('partial', (self.root, why), 'an I/O error is reported although none occurred', st)
        elif why == 'Utf8Error':
            if pol != '0':
                I.report('text', (self.root, why), 'invalid UTF-8 is reported although text was not forced', st)
            elif not self.invalid(I, st, pos):
                I.report('text', (self.root, why), 'invalid UTF-8 is reported for bytes not known to be invalid', st)
        else:
            I.report('partial', (self.root, why), 'unexpected reason %s' % why, st)

    def invalid(self, I, st, pos):
        return st.cells.get(G('invalid')) == ('q', 'yes')

def ref_to(I, st, v):
    cell = ('h',) + fresh_id('mv')
    st.cells[cell] = v
    return ('r', cell, ())

class EntriesMon(SaveMon):
    """All fields of a request.  Additional ghost cells:
      cur     none | open (read, not stored yet) | stored
      last    what the last attempt to read a field gave
      stored  number of fields stored
      name    the name of the current field
      climit  the limit on the number of fields
    A map from names to stored fields is ('m', 'map', number of fields in it)."""
    def init(self, I, st):
        super().init(I, st)
        c = st.cells
        c[G('cur')] = ('q', 'none')
        c[G('last')] = ('q', 'none')
        c[G('stored')] = ('i', ZERO)
        c[G('climit')] = ('i', Lin((1 << 32) - 1))
        c[G('tmplen')] = ('i', sv(SYM.fresh('tmplen')))

    def lookup(self, c):
        n = c.idef
        if n.endswith(('ReadEntry>::read_entry', 'ReadEntry::read_entry')):
            return self.read_entry
        if n.startswith('std::collections::HashMap::') or n.startswith('std::collections::hash_map::'):
            f = getattr(self, 'map_' + n.rsplit('::', 1)[1], None)
            if f is not None:
                return f
        if n.endswith('Iterator::map'):
            return self.vals_map
        if n.endswith(('Iterator>::next', 'Iterator::next')):
            return self.vals_next
        if n.endswith('Iterator::sum'):
            return self.vals_sum
        if n.startswith('std::vec::Vec::<') and n.endswith('>::push'):
            return self.vec_push
        if n.endswith('TempDir::path'):
            return lambda I, st, c: [(('s', (('S', 'tmpd', ZERO, st.cells[G('tmplen')][1]),)), st)]
        if n.startswith('tempfile::') and n.endswith('::tempdir') or n.endswith('tempfile::tempdir'):
            return self.tempdir
        if n.startswith('std::boxed::box_assume_init_into_vec_unsafe'):
            return self.vec_lit
        return super().lookup(c)

    # -- reading fields
    def read_entry(self, I, st, c):
        self.count('read_entry')
        st = st.copy()
        if st.cells[G('cur')][1] in ('open', 'made'):
            I.report('conserve', (self.root, 'skip'), 'the next field is read although the current one was not stored', st)
        if st.cells[G('last')][1] in ('end', 'error'):
            I.report('full', (self.root, 'again'), 'another field is read after the end or an error', st)
        src = c.args[0]
        t = I.p.types[c.dty]
        vs = {v['name']: i for i, v in enumerate(t['variants'])}
        out = []
        s = st.copy()
        s.cells[G('cur')] = ('q', 'none')
        s.cells[G('last')] = ('q', 'end')
        out.append((('a', c.dty, vs['End'], (src,)), s))
        s = st.copy()
        s.cells[G('cur')] = ('q', 'none')
        s.cells[G('last')] = ('q', 'error')
        s.cells[G('fault')] = ('q', 'yes')
        out.append((('a', c.dty, vs['Error'], (src, ('err', fresh_id('err'), 'src', '~Interrupted'))), s))
        s = st.copy()
        g = s.cells
        self.reset(s)
        g[G('cur')] = ('q', 'open')
        g[G('last')] = ('q', 'entry')
        ft = I.models.vtype(c.dty, 'Entry')
        ff = I.p.types[ft]['variants'][0]['fields']
        h = I.mk(ff[0][1], fresh_id('hdr'), frozenset(['req']))
        g[G('hdr')] = h
        dt = ff[1][1]
        ot = I.p.types[dt]['variants'][0]['fields'][0][1]
        d = ('a', dt, 0, (I.models.result(ot, 'Some', src),))
        out.append((('a', c.dty, vs['Entry'], (('a', ft, 0, (h, d)),)), s))
        return out

    def reset(self, s):
        s.facts = frozenset(f for f in s.facts if not (len(f) > 1 and f[1] == F))
        g = s.cells
        g[G('pos')] = g[G('seen')] = ('i', ZERO)
        for k in ('disk', 'wfault', 'invalid'):
            g[G(k)] = ('q', 'no')
        g[G('file')] = ('q', 'none')
        g.pop(G('path'), None)
        g.pop(G('hdr'), None)
        g.pop(G('absent'), None)
        for k in [k for k in g if k[:2] == ('g', 'none')]:
            del g[k]

    # -- collecting them
    def on_agg(self, I, st, ty, variant, vals):
        t = I.p.types[ty]
        if not t.get('name', '').endswith('::SavedField'):
            return
        self.count('fields stored')
        d = self.data(I, st, vals[1])
        if st.cells[G('cur')] != ('q', 'open'):
            I.report('conserve', (self.root, 'twice'), 'a field is stored although no unstored field was read', st)
            return
        if d is None or d[1] is None:
            I.report('conserve', (self.root, 'data'), 'the data stored for a field is not its own', st)
            return
        kind, ct, size = d
        pos = st.cells[G('pos')][1]
        if not ceq(st, ct, ccat((('S', F, ZERO, pos),))):
            I.report('conserve', (self.root, kind), 'the stored bytes differ from the bytes taken from the field: %s' % show(ct), st)
        if not any(f[0] == 'eof' and f[1] == F and st.ent_eq(f[2], pos) for f in st.facts) or st.cells[G('fault')][1] == 'yes':
            I.report('full', (self.root, kind), 'an incomplete field is stored as complete', st)
        if kind == 'File':
            p = content(I, st, vals[1][3][0])
            if st.cells.get(G('path')) is None or not ceq(st, p, st.cells[G('path')][1]):
                I.report('conserve', (self.root, 'path'), 'the stored path is not the path of the file that was created', st)
        if size[0] != 'i' or not st.ent_eq(size[1], clen(ct)):
            I.report('size', (self.root, kind), 'the stored size differs from the number of bytes stored', st)
        self.check_limit(I, st, clen(ct), 'stored')
        thr = st.cells[G('opts')][3][1]
        if kind in ('Text', 'Bytes') and thr[0] == 'i' and not st.ent(clen(ct) - thr[1]):
            I.report('memory', (self.root, kind), 'more bytes are kept in memory than the memory threshold allows', st)
        st.cells[G('cur')] = ('q', 'made')

    def grow(self, I, st, ref, n):
        m = deref(I, st, ref)
        if m[0] == 'm' and m[1] == 'map':
            cell, path = ref_of(I, st, ref)
            I.write(st, cell, path, ('m', 'map', ('i', m[2][1] + n)))
        if st.cells[G('cur')] != ('q', 'made'):
            I.report('conserve', (self.root, 'insert'), 'a field is inserted that is not the current one', st)
        st.cells[G('cur')] = ('q', 'stored')
        st.cells[G('stored')] = ('i', st.cells[G('stored')][1] + n)
        st.add_le(st.cells[G('stored')][1] - ((1 << 32) - 1))       # assumed: fewer fields than that
        self.count('insertions')
        self.reset(st)

    def map_new(self, I, st, c):
        return [(('m', 'map', ('i', ZERO)), st)]
    map_default = map_with_capacity = map_new

    def is_map(self, I, st, v):
        return deref(I, st, v)[:2] == ('m', 'map')

    def check_name(self, I, st, v):
        h = st.cells.get(G('hdr'))
        name = h[3][0] if h is not None and h[0] == 'a' else None
        x = deref(I, st, v)
        if name is None or content(I, st, x) is None or not ceq(st, content(I, st, x), content(I, st, name)):
            I.report('conserve', (self.root, 'name'), 'a field is stored under another name than its own', st)
        self.count('names checked')

    def map_entry(self, I, st, c):
        if not self.is_map(I, st, c.args[0]):
            return None
        self.check_name(I, st, c.args[1])
        out = []
        for w in ('Vacant', 'Occupied'):
            s = st.copy()
            if w == 'Occupied':
                try:
                    s.add_le(ONE - deref(I, s, c.args[0])[2][1])
                except Infeasible:
                    continue
            out.append((I.models.result(c.dty, w, ('m', 'ment', c.args[0], c.args[1])), s))
        return out

    def map_key(self, I, st, c):
        e = deref(I, st, c.args[0])
        if e[:2] != ('m', 'ment'):
            return None
        return [(ref_to(I, st, e[3]), st)]

    def map_insert(self, I, st, c):
        e = deref(I, st, c.args[0])
        st = st.copy()
        if e[:2] == ('m', 'ment'):
            v = c.args[1]
            if 'Occupied' in c.idef:
                I.report('conserve', (self.root, 'replace'), 'inserting a field replaces the earlier ones of the same name', st)
            self.grow(I, st, e[2], v[2] if v[0] == 'vec' else ONE)
            return [(ref_to(I, st, ('m', 'mvec', e[2])), st)]
        if e[:2] == ('m', 'map'):
            self.check_name(I, st, c.args[1])
            v = c.args[2]
            if not st.ent_eq(e[2][1], ZERO) and st.cells.get(G('absent')) != ('q', 'yes'):
                I.report('conserve', (self.root, 'replace'), 'inserting a field can replace an earlier one of the same name', st)
            self.grow(I, st, c.args[0], v[2] if v[0] == 'vec' else ONE)
            return [(I.models.result(c.dty, 'None', None), st)]
        return None

    def map_into_mut(self, I, st, c):
        e = deref(I, st, c.args[0])
        if e[:2] != ('m', 'ment'):
            return None
        st = st.copy()
        return [(ref_to(I, st, ('m', 'mvec', e[2])), st)]
    def map_or_insert(self, I, st, c):
        e = c.args[0]
        st = st.copy()
        if e[0] == 'a':
            e = e[3][0]
        if e[:2] != ('m', 'ment'):
            return None
        if len(c.args) > 1 and c.args[1][0] == 'vec' and not st.ent_eq(c.args[1][2], ZERO):
            return None
        return [(ref_to(I, st, ('m', 'mvec', e[2])), st)]
    map_or_default = map_or_insert_with = map_or_insert

    def map_get_mut(self, I, st, c):
        if not self.is_map(I, st, c.args[0]) or c.idef.startswith('std::collections::hash_map::'):
            return self.map_into_mut(I, st, c)
        self.check_name(I, st, c.args[1])
        a, b = st.copy(), st.copy()
        b.cells[G('absent')] = ('q', 'yes')
        out = [(I.models.result(c.dty, 'None', None), b)]
        try:
            a.add_le(ONE - deref(I, a, c.args[0])[2][1])
            r = ref_to(I, a, ('m', 'mvec', c.args[0]))
            out.append((I.models.result(c.dty, 'Some', r), a))
        except Infeasible:
            pass
        return out

    def map_is_empty(self, I, st, c):
        m = deref(I, st, c.args[0])
        if m[:2] != ('m', 'map'):
            return None
        return [(('b', ('eq', m[2][1])), st)]

    def map_values(self, I, st, c):
        m = deref(I, st, c.args[0])
        if m[:2] != ('m', 'map'):
            return None
        return [(('m', 'mvals', m[2], ('i', ZERO)), st)]

    def map_iter(self, I, st, c):
        return self.map_values(I, st, c)

    def vals_next(self, I, st, c):
        v = deref(I, st, c.args[0])
        if v[:2] != ('m', 'mvals'):
            return None
        total, taken = v[2][1], v[3][1]
        out = []
        for s in I.assume(st.copy(), ('eq', total - taken), True):
            out.append((I.models.result(c.dty, 'None', None), s))
        s = st.copy()
        k = sv(SYM.fresh('nvals'))
        try:
            s.add_le(ONE - k)
            s.add_le(taken + k - total)
        except Infeasible:
            return out
        cell, path = ref_of(I, s, c.args[0])
        I.write(s, cell, path, ('m', 'mvals', v[2], ('i', taken + k)))
        it = I.models.vtype(c.dty, 'Some')
        t = I.p.types[it]
        def item(s, ty):
            return ref_to(I, s, ('vec', I.p.types[ty]['to'], k, k, fresh_id('vals'), frozenset()))
        if t['k'] == 'tuple' and len(t['elems']) == 2:
            x = ('a', it, 0, (I.mk(t['elems'][0], fresh_id('key')), item(s, t['elems'][1])))
        elif t['k'] == 'ref' and I.p.types[t['to']].get('name', '').endswith('Vec'):
            x = item(s, it)
        else:
            return None
        out.append((I.models.result(c.dty, 'Some', x), s))
        return out

    def vals_map(self, I, st, c):
        v = c.args[0]
        f = c.args[1]
        if v[:2] == ('m', 'mvals') and f[0] == 'a':
            inst = models.closure_inst(I, st, f)
            b = I.p.body(inst) if inst is not None else None
            if not b or b.argc < 2 or not I.p.types[b.locals[2]]['k'] == 'ref':
                return None
            s = st.copy()
            k = sv(SYM.fresh('nvals'))
            r = I.call_value(s, f, [ref_to(I, s, ('vec', I.p.types[b.locals[2]]['to'], k, k, fresh_id('vals'), frozenset()))], c, 'map')
            if r is None or any(x[0] != 'i' or not z.ent_eq(x[1], k) for x, z in r):
                return None
            return [(v, st)]
        if v[:2] != ('m', 'mvals') or f[0] != 'fn' or not I.p.fns[f[1]]['name'].split('::<')[0] == 'std::vec::Vec':
            return None
        if not I.p.fns[f[1]]['name'].endswith('::len'):
            return None
        return [(v, st)]

    def vals_sum(self, I, st, c):
        v = c.args[0]
        return [(v[2], st)] if v[:2] == ('m', 'mvals') else None

    def vec_lit(self, I, st, c):
        return [(('vec', c.dty, ONE, ONE, fresh_id('vec'), frozenset()), st)]

    def vec_push(self, I, st, c):
        v = deref(I, st, c.args[0])
        if v[:2] != ('m', 'mvec'):
            return None
        st = st.copy()
        self.grow(I, st, v[2], ONE)
        return [(I.models.unit(c), st)]

    def tempdir(self, I, st, c):
        self.count('temporary directories')
        okt = I.models.vtype(c.dty, 'Ok')
        s = st.copy()
        return [(I.models.result(c.dty, 'Ok', I.mk(okt, fresh_id('td'))), s)] + self.errs(I, c, st, 'fs', 'fault')[:1]

    def touch(self, I, st, what):
        if st.cells[G('cur')] == ('q', 'none') and st.cells[G('last')] == ('q', 'none'):
            self.count('directory creation')
            return
        super().touch(I, st, what)

    def on_drop(self, I, st, v, ty):
        t = I.p.types.get(ty)
        if t is not None and t.get('name', '').endswith('::SavedField') and v[0] != 'u':
            I.report('conserve', (self.root, 'drop'), 'a stored field is dropped', st)
        return [st]

    def check_path(self, I, st, path):
        self.count('paths checked')
        if 'req' in ctaint(path):
            I.report('path', (self.root, 'taint'), 'the path of a created file contains text of the request: %s' % show(path), st)
        if not (len(path) == 3 and path[1] == ('L', b'/') and path[0][0] == 'S' and (path[0][1] in ('tmpd', ('arg', 1)) or self.root == 'root_entries_more') and self.fresh(st, path[2:])):
            I.report('path', (self.root, 'name'), 'a file is created under an unexpected path: %s' % show(path), st)

    def obs_count(self, I, st, c):
        st.cells[G('climit')] = c.args[0]

    def obs_more(self, I, st, c):
        # the entries hold k fields already
        cell, path = ref_of(I, st, c.args[0])
        e = I.read(st, cell, path)
        x = I.expand(e) if e[0] == 'o' else e
        k = sv(SYM.fresh('held'))
        st.add_le(k - ((1 << 32) - 1))
        st.add_le(ZERO - k)
        I.write(st, cell, path, ('a', x[1], x[2], (('m', 'map', ('i', k)),) + x[3][1:]))
        st.cells[G('stored')] = st.cells[G('start')] = ('i', k)
        return [(I.models.unit(c), s) for t in (True, False) for s in I.assume(st.copy(), ('le', k - st.cells[G('climit')][1]), t)]

    def obs_entries(self, I, st, c):
        v = deref(I, st, c.args[0])
        how = self.variant(I, v)
        self.count('results')
        fault = st.cells[G('fault')][1] == 'yes'
        cur, last = st.cells[G('cur')][1], st.cells[G('last')][1]
        stored, lim = st.cells[G('stored')][1], st.cells[G('climit')][1]
        if how == 'Error':
            if not fault:
                I.report('complete', (self.root, 'error'), 'an error is returned although no I/O operation failed', st)
            if last != 'none' or self.root == 'root_entries_more':
                I.report('conserve', (self.root, 'error'), 'an error without the fields saved so far is returned', st)
            return
        e = v[3][0] if how == 'Full' else v[3][0][3][0]
        m = e[3][0] if e[0] == 'a' else e
        n = c.args[1]
        n = n[3][0] if n[0] == 'a' and n[3] else None
        if m[:2] != ('m', 'map') or not st.ent_eq(m[2][1], stored):
            I.report('conserve', (self.root, how, 'map'), 'the returned entries do not hold every stored field', st)
        if n is None or n[0] != 'i' or not st.ent_eq(n[1], stored):
            if not (n is not None and n[0] == 'i' and st.ent_eq(n[1], Lin((1 << 32) - 1)) and st.ent(n[1] - stored)):
                I.report('count', (self.root, how, 'fields_count'), 'the reported number of fields differs from the number of fields stored', st)
        start = st.cells.get(G('start'), ('i', ZERO))[1]
        if not st.ent(stored - lim) and not (st.ent_eq(stored, start) and st.ent(lim + 1 - start)):
            I.report('count', (self.root, how, 'limit'), 'more fields are stored than the limit allows', st)
        if how == 'Full':
            self.count('full results')
            if last != 'end' or cur in ('open', 'made'):
                I.report('full', (self.root, 'early'), 'the request is reported as completely saved although its end was not reached', st)
            if fault:
                I.report('full', (self.root, 'fault'), 'the request is reported as completely saved although an I/O operation failed', st)
            return
        self.count('partial results')
        part, r = v[3][0][3][1], v[3][1]
        why = self.variant(I, r) if r[0] == 'a' else '?'
        some = part[0] == 'a' and self.variant(I, part) == 'Some'
        dest = part[3][0][3][1] if some else None
        has = dest is not None and self.variant(I, dest) == 'Some'
        if some != (cur in ('open', 'made')):
            I.report('conserve', (self.root, 'partial'), 'the field that was being saved is missing from the partial result' if not some else 'a partial field is reported although none was open', st)
            return
        if why == 'CountLimit':
            if not st.ent(lim - stored):
                I.report('count', (self.root, 'early'), 'the field count limit is reported although it is not exceeded', st)
            if not some or has or not st.ent_eq(st.cells[G('pos')][1], ZERO):
                I.report('count', (self.root, 'field'), 'the field beyond the count limit is not returned untouched', st)
            return
        if not some:
            if why != 'IoError' or last != 'error':
                I.report('partial', (self.root, why, 'none'), 'a partial result without cause', st)
            return
        if not has:
            if why != 'IoError' or not fault:
                I.report('partial', (self.root, why, 'dest'), 'a field is reported as not saved although no I/O operation failed', st)
            return
        d = self.data(I, st, dest[3][0])
        if d is None:
            I.report('conserve', (self.root, 'result'), 'the saved data is not tracked', st)
            return
        if why == 'Utf8Error':
            I.report('text', (self.root, why), 'invalid UTF-8 is reported although text was not forced', st)
            return
        self.result(I, st, 'Partial', ('a', None, None, (dest[3][0], r)), d)

def I_ty(c):
    t = c.I.p.types.get(c.atys[0]) if c.atys else None
    while t is not None and t['k'] in ('ref', 'ptr'):
        t = c.I.p.types[t['to']]
    return t.get('name', '') if t else ''
