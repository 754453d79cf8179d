"""Contracts of the library functions the crate calls (std, buf_redux,
twoway, httparse, ...).  These are the trusted base of every semantic check:
each contract is what the library documents, no more."""
import copy
import json
from lin import Lin, SYM, ZERO, ONE, sv, norm
from ai import (map_lin_in, UNINIT, TRUE, FALSE, Infeasible, Stop, fresh_id, seq, clen, ccat, ctaint, lit, conj, neg, taint_of,
                Call, short, SRC_TAINT, seg_len, collect_syms)

from join import STREAMS

TABLE = {}
PREFIX = []

def model(*names):
    def deco(f):
        for n in names:
            TABLE[n] = f
        return f
    return deco

def prefix(*names):
    def deco(f):
        for n in names:
            PREFIX.append((n, f))
        return f
    return deco

MK_HOOKS = {}
REQ = frozenset(['request'])

class Models:
    def __init__(self, prog, monitor):
        self.p = prog
        self.mon = monitor
        self.mk_hooks = dict(MK_HOOKS)

    # ---- lookup
    def lookup(self, c):
        """The contracts that apply to a call, tried in order (a contract that
        does not apply to the given values answers None)."""
        cands = []
        if self.mon is not None:
            m = self.mon.lookup(c)
            if m is not None:
                cands.append(m)
        for n in (c.idef, c.defn):
            m = TABLE.get(n)
            if m is not None and m not in cands:
                cands.append(m)
        for pre, f in PREFIX:
            if (c.defn.startswith(pre) or c.idef.startswith(pre)) and f not in cands:
                cands.append(f)
        if not cands:
            return None
        if len(cands) == 1:
            return cands[0]

        def chain(I, st, c):
            for m in cands:
                r = m(I, st, c)
                if r is not None:
                    return r
            return None
        return chain

    # ---- helpers
    def result(self, ty, which, v):
        """Ok/Err/Some/None/... aggregate of enum type `ty`."""
        t = self.p.types[ty]
        for i, va in enumerate(t['variants']):
            if va['name'] == which:
                return ('a', ty, i, () if v is None else (v,))
        raise Stop('no variant %s in %s' % (which, t['s']))

    def vtype(self, ty, which, idx=0):
        t = self.p.types[ty]
        for va in t['variants']:
            if va['name'] == which:
                return va['fields'][idx][1]
        raise Stop('no variant %s in %s' % (which, t['s']))

    def is_enum(self, ty, name):
        t = self.p.types.get(ty)
        return t is not None and t['k'] == 'adt' and t['name'].endswith(name)

    def unit(self, c):
        return ('a', c.dty, 0, ())

    # ---- defaults
    def unknown(self, I, st, c):
        """A function without a body or contract: its result is arbitrary
        (tainted by its arguments) and whatever it may write is forgotten."""
        I.stats['unmodelled'][c.idef] = I.stats['unmodelled'].get(c.idef, 0) + 1
        return self.havoc(I, st, c)

    def havoc(self, I, st, c, mutate=True):
        t = frozenset()
        for a in c.args:
            t = t | taint_of(I, st, a)
        st = st.copy()
        if mutate:
            for a, ty in zip(c.args, c.atys):
                tt = self.p.types.get(ty)
                if tt and tt['k'] == 'ref' and tt.get('mut'):
                    self.forget(I, st, a, tt['to'], t)
        if self.mon is not None:
            self.mon.on_unknown(I, st, c)
        return [(I.mk(c.dty, fresh_id('ret'), t), st)]

    def forget(self, I, st, a, to, t):
        if a[0] == 'r':
            I.write(st, a[1], a[2], I.mk(to, fresh_id('hv'), t))
        elif a[0] == 'ms':
            old = I.read(st, a[1], a[2])
            n = clen(I.content_of(st, old))
            I.write(st, a[1], a[2], ('v', seq(fresh_id('hv'), n, t | ctaint(I.content_of(st, old)))))

    def callable(self, I, st, c):
        if c.defn in ('std::ops::FnOnce::call_once', 'std::ops::FnMut::call_mut', 'std::ops::Fn::call'):
            f = c.args[0]
            a = c.args[1]
            args = list(a[3]) if a[0] == 'a' else []
            r = I.call_value(st, f, args, c)
            if r is not None:
                return r
        if c.fval is not None:
            r = I.call_value(st, c.fval, c.args, c)
            if r is not None:
                return r
        return None

    # ---- panics and drops
    def on_panic(self, I, st, kind, msg):
        if self.mon is not None:
            self.mon.on_panic(I, st, kind, msg)

    def drop(self, I, st, v, ty):
        if self.mon is not None:
            return self.mon.on_drop(I, st, v, ty)
        return [st]

    def content_join(self, ctx, a, b, path):
        if self.mon is not None:
            return self.mon.content_join(ctx, a, b, path)
        return None

    def content_incl(self, ctx, a, b, path):
        if self.mon is not None:
            return self.mon.content_incl(ctx, a, b, path)
        return None

M = None

# ------------------------------------------------------------------ panics
@prefix('core::panicking::', 'std::rt::begin_panic', 'std::rt::panic', 'std::panicking', 'std::option::expect_failed',
        'std::option::unwrap_failed', 'std::result::unwrap_failed', 'core::option::', 'std::process::abort',
        'core::slice::index::slice_', 'core::str::slice_error', 'alloc::alloc::handle_alloc')
def m_panic(I, st, c):
    I.oblig('panic', False)
    I.models.on_panic(I, st, 'panic', c.idef)
    return []

def need(I, st, cond, kind, what):
    """Obligation: `cond` holds here, otherwise the program panics.  Returns
    the states that continue."""
    bad = I.assume(st.copy(), cond, False)
    I.oblig(kind, not bad)
    if bad:
        I.models.on_panic(I, bad[0], kind, what)
    return I.assume(st, cond, True)

def split_min(I, st, a, b):
    """[(min(a,b), state)]"""
    out = []
    for val, r in ((True, a), (False, b)):
        st2 = st.copy()
        st2.cells[('g', '__mm')] = ('i', r)     # follows substitutions
        for s in I.assume(st2, ('le', a - b), val):
            s = s.copy() if s is st2 else s
            out.append((s.cells.pop(('g', '__mm'))[1], s))
    return out

# ------------------------------------------------------------------ logging
@model('log::max_level')
def m_maxlevel(I, st, c):
    return [(('o', ('loglevel',), c.dty, frozenset()), st)]

@prefix('log::')
def m_log(I, st, c):
    if c.idef.endswith('partial_cmp') or c.dty is None:
        return None
    t = I.p.types[c.dty]
    if t['k'] == 'tuple' and not t['elems']:
        return [(('a', c.dty, 0, ()), st)]
    return [(I.mk(c.dty, ('logret', c.idef)), st)]

@model('std::cmp::PartialOrd::le', 'std::cmp::PartialOrd::lt', 'std::cmp::PartialOrd::ge', 'std::cmp::PartialOrd::gt')
def m_ord(I, st, c):
    a, b = deref(I, st, c.args[0]), deref(I, st, c.args[1])
    op = {'le': 'Le', 'lt': 'Lt', 'ge': 'Ge', 'gt': 'Gt'}[c.defn.rsplit('::', 1)[1]]
    if a[0] == 'i' and b[0] == 'i':
        return [(I.binop(st, op, a, b, c.dty), st)]
    if 'log::' in c.idef or any(t is not None and 'log::Level' in I.p.types[t]['s'] for t in c.atys):
        return [(FALSE, st)]         # trace output is analysed as disabled
    return None

def deref(I, st, v):
    n = 0
    while v[0] == 'r' and n < 10:
        v = I.read(st, v[1], v[2])
        n += 1
    if v[0] == 'o':
        t = I.p.types.get(v[2])
        if t and t['k'] == 'ref':
            cell = ('oc', v[1])
            if cell not in st.cells:
                st.cells[cell] = I.mk(t['to'], (v[1], '*'), v[3])
            return deref(I, st, st.cells[cell])
    return v

def ref_of(I, st, v):
    """(cell, path) a reference value designates, through nested refs."""
    while v[0] == 'r':
        w = I.read(st, v[1], v[2])
        if w[0] == 'r':
            v = w
            continue
        if w[0] == 'o':
            t = I.p.types.get(w[2])
            if t and t['k'] == 'ref':
                cell = ('oc', w[1])
                if cell not in st.cells:
                    st.cells[cell] = I.mk(t['to'], (w[1], '*'), w[3])
                v = ('r', cell, ())
                continue
        return v[1], v[2]
    if v[0] == 'o':
        t = I.p.types.get(v[2])
        cell = ('oc', v[1])
        if cell not in st.cells:
            st.cells[cell] = I.mk(t['to'], (v[1], '*'), v[3]) if t and t['k'] == 'ref' else ('o', (v[1], '*'), None, v[3])
        return ref_of(I, st, ('r', cell, ()))
    if v[0] == 'ms':
        return v[1], v[2]
    cell = ('h',) + fresh_id('tmp')
    st.cells[cell] = v
    return cell, ()

# ------------------------------------------------------------------ equality
@prefix('std::cmp::PartialEq::')
def m_eq(I, st, c):
    op = c.defn.rsplit('::', 1)[1]
    if c.inst is not None and I.p.fns[c.inst]['body'] and I.p.fns[c.inst]['crate'] in ('multipart', 'mp_harness'):
        # derived impls on field-less enums compare discriminants; follow others
        pass
    a, b = deref(I, st, c.args[0]), deref(I, st, c.args[1])
    cond = eq_cond(I, st, a, b)
    if cond is None:
        if c.inst is not None and I.p.fns[c.inst]['body']:
            return None
        cond = ('u', fresh_id('eq'))
    if op == 'ne':
        cond = neg(cond)
    return [(('b', cond), st)]

def eq_cond(I, st, a, b):
    if a[0] in ('s', 'v', 'ms') or b[0] in ('s', 'v', 'ms'):
        return I.content_eq(st, I.content_of(st, a), I.content_of(st, b))
    if a[0] == 'i' and b[0] == 'i':
        return ('eq', a[1] - b[1])
    if a[0] == 'b' and b[0] == 'b':
        return I.binop(st, 'Eq', a, b, None)[1]
    if a[0] == 'a' and b[0] == 'a':
        if a[1] == b[1] and I.p.nvariants(a[1]) > 1 and a[2] != b[2]:
            return False
        if len(a[3]) == len(b[3]):
            cs = []
            for x, y in zip(a[3], b[3]):
                q = eq_cond(I, st, x, y)
                if q is None:
                    return None
                cs.append(q)
            return conj(cs)
    if a[0] == 'o' and b[0] == 'a' or a[0] == 'a' and b[0] == 'o':
        o, x = (a, b) if a[0] == 'o' else (b, a)
        if not x[3] and o[2] is not None:
            return ('p', ('isvar', o[1], x[2]))
        if o[2] is not None and len(x[3]) == 1:
            return None
    if a[0] == 'o' and b[0] == 'o' and a[1] == b[1]:
        return True
    return None

# ------------------------------------------------------------------ ints
@prefix('core::num::<impl u64>::', 'core::num::<impl usize>::', 'core::num::<impl u32>::', 'core::num::<impl u8>::', 'core::num::<impl u16>::')
def m_num(I, st, c):
    op = c.idef.rsplit('::', 1)[1]
    if not c.args:
        lo, hi = I.int_range(I.p.types[c.dty])
        return [(('i', Lin(hi if op == 'max_value' else lo)), st)] if op in ('max_value', 'min_value') else None
    a = deref(I, st, c.args[0])
    b = deref(I, st, c.args[1]) if len(c.args) > 1 else None
    if a[0] != 'i' or (b is not None and b[0] != 'i'):
        return None
    x = a[1]
    y = b[1] if b is not None else None
    if op == 'saturating_add':
        lo, hi = I.int_range(I.p.types[c.dty])
        if hi < (1 << 33):
            out = []
            for s in I.assume(st.copy(), ('le', x + y - hi), True):
                out.append((('i', x + y), s))
            for s in I.assume(st.copy(), ('le', x + y - hi), False):
                out.append((('i', Lin(hi)), s))
            return out
        return [(('i', x + y), st)]
    if op == 'saturating_sub':
        out = []
        for s in I.assume(st.copy(), ('le', y - x), True):
            out.append((('i', x - y), s))
        for s in I.assume(st.copy(), ('le', y - x), False):
            out.append((('i', ZERO), s))
        return out
    if op in ('wrapping_add',) :
        return [(('i', x + y), st)]
    if op in ('checked_sub', 'checked_add'):
        out = []
        if op == 'checked_sub':
            for s in I.assume(st.copy(), ('le', y - x), True):
                out.append((I.models.result(c.dty, 'Some', ('i', x - y)), s))
            for s in I.assume(st.copy(), ('le', y - x), False):
                out.append((I.models.result(c.dty, 'None', None), s))
        else:
            out.append((I.models.result(c.dty, 'Some', ('i', x + y)), st))
        return out
    if op in ('min', 'max'):
        return minmax(I, st, x, y, op)
    return None

def minmax(I, st, x, y, op):
    out = []
    for val, r in ((True, x if op == 'min' else y), (False, y if op == 'min' else x)):
        st2 = st.copy()
        st2.cells[('g', '__mm')] = ('i', r)     # follows substitutions
        for s in I.assume(st2, ('le', x - y), val):
            s = s.copy() if s is st2 else s
            out.append((s.cells.pop(('g', '__mm')), s))
    return out

@model('std::cmp::min', 'std::cmp::max', 'std::cmp::Ord::min', 'std::cmp::Ord::max')
def m_minmax(I, st, c):
    a, b = c.args[0], c.args[1]
    if a[0] == 'i' and b[0] == 'i':
        return minmax(I, st, a[1], b[1], c.defn.rsplit('::', 1)[1])
    return None

# ------------------------------------------------------------------ conversions
@model('std::ops::Deref::deref', 'std::ops::DerefMut::deref_mut', 'std::convert::AsRef::as_ref', 'std::borrow::Borrow::borrow',
       'std::convert::AsMut::as_mut', 'std::borrow::BorrowMut::borrow_mut',
       'std::string::String::as_str', 'std::string::String::as_bytes', 'core::str::<impl str>::as_bytes', 'std::vec::Vec::<T, A>::as_slice',
       'std::path::PathBuf::as_path', 'std::ffi::OsString::as_os_str', 'std::path::Path::as_os_str', 'std::path::Path::new', 'core::str::<impl str>::as_str',
       'std::vec::Vec::<T, A>::as_mut_slice')
def m_deref(I, st, c):
    if c.inst is not None and I.p.fns[c.inst]['crate'] in ('multipart', 'mp_harness') and I.p.fns[c.inst]['body']:
        return None
    t = I.p.types.get(c.dty)
    st = st.copy()
    if t and t['k'] == 'ref' and I.p.bytes_unsized(t['to']):
        v = deref(I, st, c.args[0])
        if t.get('mut'):
            cell, path = ref_of(I, st, c.args[0])
            return [(('ms', cell, path, ZERO, clen(I.content_of(st, v))), st)]
        if v[0] in ('s', 'v', 'ms', 'bx'):
            return [(('s', I.content_of(st, v)), st)]
        if v[0] == 'a' and 'Cow' in I.p.types[v[1]]['s'][:30]:
            return [(('s', I.content_of(st, deref(I, st, v[3][0]))), st)]
        if v[0] == 'o':
            src = ('deref', v[1])
            return [(('s', seq(src, None, v[3])), st)]
        return None
    v = deref(I, st, c.args[0])
    if t and t['k'] == 'ref':
        tt = I.p.types[t['to']]
        if v[0] == 'vec' and tt['k'] == 'slice':
            return [(('sl', ('vecsl', v[4]), v[2], tt['elem'], v[5]), st)]
        if v[0] == 'lst':
            cell, path = ref_of(I, st, c.args[0])
            return [(('r', cell, path), st)]
        if v[0] == 'bx':
            cell, path = ref_of(I, st, c.args[0])
            return [(('r', cell, path + ('*',)), st)]
        if v[0] == 'o' and v[2] is not None:
            ot = I.p.types[v[2]]
            # reference to the same object (AsRef<T> for &T ...)
            if v[2] == t['to']:
                cell, path = ref_of(I, st, c.args[0])
                return [(('r', cell, path), st)]
            cell = ('oc', ('deref', v[1]))
            if cell not in st.cells:
                st.cells[cell] = I.mk(t['to'], ('derefd', v[1]), v[3])
            return [(('r', cell, ()), st)]
        if v[0] == 'a' and v[1] == t['to']:
            cell, path = ref_of(I, st, c.args[0])
            return [(('r', cell, path), st)]
        if v[0] == 'sl':
            return [(v, st)]
    return None

def to_owned_like(I, st, c, v):
    t = I.p.types.get(c.dty)
    if I.p.bytes_owner(c.dty):
        return ('v', I.content_of(st, v))
    if t['k'] == 'adt' and t['name'].endswith('Cow'):
        # borrowed or owned: the content is what matters
        src = deref(I, st, v)
        if src[0] == 'a' and src[1] == c.dty:
            return src
        if src[0] in ('s', 'v', 'ms', 'bx'):
            b = 0 if v[0] == 's' else 1
            ct = I.content_of(st, v)
            return ('a', c.dty, b, ((('s', ct) if b == 0 else ('v', ct)),))
    if t['k'] == 'ref' and I.p.bytes_unsized(t['to']):
        return ('s', I.content_of(st, v))
    return None

@model('std::convert::Into::into', 'std::convert::From::from', 'std::borrow::ToOwned::to_owned', 'std::string::ToString::to_string',
       'std::string::String::into_bytes', 'std::string::String::into_boxed_str', 'std::path::Path::to_path_buf', 'std::clone::Clone::clone',
       'std::borrow::Cow::<\'_, B>::into_owned', 'std::vec::Vec::<T, A>::into_boxed_slice', 'core::slice::<impl [T]>::to_vec',
       'std::path::PathBuf::into_os_string', 'alloc::slice::<impl [T]>::to_vec', 'std::slice::<impl [T]>::to_vec', 'std::slice::<impl [T]>::into_vec')
def m_into(I, st, c):
    st = st.copy()
    a = c.args[0]
    if c.inst is not None and I.p.fns[c.inst]['crate'] in ('multipart', 'mp_harness') and I.p.fns[c.inst]['body']:
        return None
    fn = c.defn.rsplit('::', 1)[1]
    v = deref(I, st, a)
    if fn == 'into' and c.inst is not None and I.p.fns[c.inst]['body']:
        return None
    if fn == 'to_string':
        k = display(I, st, c.args[0], c.atys[0])
        return [(('v', k), st)]
    if v[0] in ('s', 'v', 'ms') or (v[0] == 'bx' and v[1][0] in ('s', 'v')):
        r = to_owned_like(I, st, c, v)
        if r is not None:
            return [(r, st)]
        t = frozenset(ctaint(I.content_of(st, v)))
        return [(I.mk(c.dty, fresh_id('into'), t), st)]
    if fn in ('clone', 'to_owned'):
        if v[0] in ('i', 'b', 'a', 'fn', 'vec') or v[0] == 'o' or v[0] == 'm':
            return [(v, st)]
    if fn in ('into', 'from'):
        if c.atys and c.atys[0] == c.dty:
            return [(a, st)]
        t = I.p.types[c.dty]
        if a[0] == 'i' and t['k'] == 'int':
            return [(a, st)]
        if t['k'] == 'adt' and t['name'] == 'std::io::Error':
            return [(('err', fresh_id('err'), 'into', None), st)]
        return [(I.mk(c.dty, fresh_id('into'), taint_of(I, st, a)), st)] if (c.inst is None or not I.p.fns[c.inst]['body']) else None
    return None

# ------------------------------------------------------------------ formatting
def display(I, st, v, ty=None, dbg=False):
    """Content a Display/Debug implementation prints."""
    n = 0
    d = v
    while d[0] == 'r' and n < 10:
        d = I.read(st, d[1], d[2])
        n += 1
    if not dbg:
        if d[0] in ('s', 'v', 'ms'):
            return I.content_of(st, d)
        if d[0] == 'a' and len(d[3]) == 1 and d[1] is not None and 'Cow' in I.p.types[d[1]]['s'][:30]:
            return I.content_of(st, d[3][0])
        if d[0] == 'i' and d[1].is_const():
            return ccat((('L', str(d[1].c).encode()),))
        if d[0] == 'i':
            return seq(('dec', d[1]), None)
        if d[0] == 'm' and d[1] == 'fmt':
            return d[2]
        if d[0] == 'o':
            return seq(('disp', d[1]), None, taint_of(I, st, d))
    return seq(fresh_id('disp'), None, taint_of(I, st, d))

@prefix('core::fmt::rt::Argument::<\'_>::')
def m_fmtarg(I, st, c):
    k = c.idef.rsplit('::', 1)[1]
    if k == 'none':
        return [(('m', 'fmtarg', ()), st)]
    ct = display(I, st, c.args[0], c.atys[0], dbg=(k != 'new_display'))
    return [(('m', 'fmtarg', ct), st)]

def decode_template(b):
    """core::fmt template: list of bytes literals and argument indices."""
    out = []
    i = 0
    arg = 0
    while i < len(b):
        x = b[i]
        i += 1
        if x == 0:
            break
        if x < 0x80:
            out.append(bytes(b[i:i + x]))
            i += x
        elif x == 0x80:
            n = b[i] | (b[i + 1] << 8)
            i += 2
            out.append(bytes(b[i:i + n]))
            i += n
        else:
            flags = x
            opt = False
            if flags & 1:
                i += 4
                opt = True
            if flags & 2:
                i += 2
                opt = True
            if flags & 4:
                i += 2
                opt = True
            if flags & 8:
                arg = b[i] | (b[i + 1] << 8)
                i += 2
            out.append((arg, opt))
            arg += 1
    return out

@prefix('std::fmt::Arguments::<\'a>::')
def m_fmtargs(I, st, c):
    k = c.idef.rsplit('::', 1)[1]
    if k in ('from_str', 'from_str_nonconst', 'new_const'):
        return [(('m', 'fmt', I.content_of(st, deref(I, st, c.args[0]))), st)]
    if k == 'new':
        tpl = lit(I.content_of(st, deref(I, st, c.args[0])))
        av = deref(I, st, c.args[1])
        t = taint_of(I, st, av)
        items = None
        if av[0] == 'a':
            items = av[3]
        if tpl is not None and items is not None:
            out = []
            for p in decode_template(tpl):
                if isinstance(p, bytes):
                    out.append((('L', p),))
                else:
                    x = items[p[0]] if p[0] < len(items) else None
                    if x is None or x[0] != 'm' or p[1]:
                        out.append(seq(fresh_id('fmt'), None, t if x is None else taint_of(I, st, x)))
                    else:
                        out.append(x[2])
            return [(('m', 'fmt', ccat(*out)), st)]
        return [(('m', 'fmt', seq(fresh_id('fmt'), None, t)), st)]
    return None

@model('std::fmt::format', 'alloc::fmt::format')
def m_format(I, st, c):
    a = c.args[0]
    ct = a[2] if a[0] == 'm' else seq(fresh_id('fmt'))
    return [(('v', ct), st)]

@model('std::hint::must_use', 'std::convert::identity', 'std::iter::IntoIterator::into_iter', 'std::iter::Iterator::by_ref', 'std::hint::black_box')
def m_identity(I, st, c):
    a = c.args[0]
    if c.defn.endswith('into_iter'):
        if a[0] == 'm':
            return [(a, st)]
        if c.inst is not None and I.p.fns[c.inst]['body']:
            return None
        if c.atys[0] == c.dty:
            return [(a, st)]
        v = deref(I, st, a)
        if v[0] in ('vec', 'sl'):
            return [(('m', 'iter', v, ('i', ZERO), c.atys[0]), st)]
        if v[0] == 'a' and a[0] == 'r' :
            return [(('m', 'itera', a[1], a[2], 0, len(v[3])), st)]
        return None
    return [(a, st)]

# ------------------------------------------------------------------ bytes and strings
def slice_range(I, st, rng, n, what):
    """Evaluate a range value against length n: [(lo, hi, state)]."""
    if rng[0] == 'a':
        nm = I.p.types[rng[1]]['name']
        fs = rng[3]
        if nm.endswith('RangeFull'):
            return [(ZERO, n, st)]
        f = [x[1] if x[0] == 'i' else None for x in fs]
        if nm.endswith('RangeInclusive'):
            f[1] = f[1] + 1 if f[1] is not None else None
            f = f[:2]
        if any(x is None for x in f):
            return None
        if nm.endswith('RangeFrom'):
            lo, hi = f[0], n
        elif nm.endswith('RangeTo'):
            lo, hi = ZERO, f[0]
        elif nm.endswith('RangeToInclusive'):
            lo, hi = ZERO, f[0] + 1
        else:
            lo, hi = f[0], f[1]
        out = []
        for s in need(I, st, conj([('le', lo - hi), ('le', hi - n)]), 'slice bounds', what):
            out.append((lo, hi, s))
        return out
    return None

@model('std::ops::Index::index', 'std::ops::IndexMut::index_mut', 'core::slice::<impl [T]>::get', 'core::slice::<impl [T]>::get_mut',
       'core::str::<impl str>::get')
def m_index(I, st, c):
    st = st.copy()
    if c.inst is not None and I.p.fns[c.inst]['crate'] in ('multipart', 'mp_harness') and I.p.fns[c.inst]['body']:
        return None
    base, rng = c.args[0], c.args[1]
    get = 'get' in c.defn.rsplit('::', 1)[1]
    v = base if base[0] in ('s', 'ms', 'sl') else deref(I, st, base)
    out = []

    def ranges(n):
        if not get:
            return slice_range(I, st, rng, n, 'slice index'), []
        # get(): out of range is None
        q = I.models
        save = q.mon
        I_ob = I.stats['oblig']
        I.stats['oblig'] = {}
        q.mon = None
        r = slice_range(I, st, rng, n, 'get')
        q.mon = save
        I.stats['oblig'] = I_ob
        return r, [(I.models.result(c.dty, 'None', None), st.copy())]
    wrap = (lambda x: I.models.result(c.dty, 'Some', x)) if get else (lambda x: x)
    if v[0] in ('s', 'v', 'ms'):
        ct = I.content_of(st, v)
        n = clen(ct)
        if rng[0] == 'i':
            if get:
                return None
            for s in need(I, st, ('le', rng[1] - n + 1), 'index', 'index'):
                return [(('r',) + tmp(I, s, I.index(s, c.fr, v, ('x',))), s)]
            return []
        rs, extra = ranges(n)
        if rs is None:
            return None
        mut = c.defn.endswith('index_mut')
        isstr = is_str(I, c.atys[0])
        for lo, hi, s in rs:
            if isstr and not get:
                for s2 in need_boundary(I, s, ct, lo, hi):
                    out.append((wrap(('s', I.cslice(s2, ct, lo, hi))), s2))
                continue
            if mut:
                if v[0] == 'ms':
                    out.append((('ms', v[1], v[2], v[3] + lo, v[3] + hi), s))
                else:
                    cell, path = ref_of(I, s, base)
                    out.append((('ms', cell, path, lo, hi), s))
            else:
                out.append((wrap(('s', I.cslice(s, ct, lo, hi))), s))
        return out + extra
    if v[0] in ('sl', 'vec') or (v[0] == 'a' and v[1] is not None and I.p.types[v[1]]['k'] == 'array') or \
            (v[0] == 'o' and v[2] is not None and I.p.types[v[2]]['k'] == 'array'):
        if v[0] == 'sl' or v[0] == 'vec':
            n = v[2]
        elif v[0] == 'a':
            n = Lin(len(v[3]))
        else:
            n = Lin(int(I.p.types[v[2]]['len']))
        t = taint_of(I, st, v)
        if rng[0] == 'i':
            for s in need(I, st, ('le', rng[1] - n + 1), 'index', 'index'):
                et = I.p.types[c.dty]['to']
                return [(('r',) + tmp(I, s, I.mk(et, fresh_id('el'), t)), s)]
            return []
        rs, extra = ranges(n)
        if rs is None:
            return None
        et = I.p.types[I.p.types[c.dty]['to']]['elem'] if not get else None
        if et is None:
            return None
        for lo, hi, s in rs:
            i = v[1] if v[0] == 'sl' else fresh_id('subsl')
            out.append((('sl', ('sub', i, lo), hi - lo, et, t), s))
        return out + extra
    return None

def tmp(I, st, v):
    cell = ('h',) + fresh_id('tmp')
    st.cells[cell] = v
    return cell, ()

def is_str(I, ty):
    t = I.p.types.get(ty)
    while t and t['k'] == 'ref':
        t = I.p.types[t['to']]
    return bool(t) and (t['k'] == 'str' or (t['k'] == 'adt' and t['name'] == 'std::string::String'))

def at_boundary(I, st, ct, pos):
    """Is `pos` a char boundary of the string `ct`?"""
    n = clen(ct)
    if st.ent_eq(pos, ZERO) or st.ent_eq(pos, n):
        return True
    if len(ct) == 1 and ct[0][0] == 'S':
        p = ct[0][2] + pos
        for f in st.facts:
            if f[0] == 'cb' and f[1] == ct[0][1] and st.ent_eq(f[2], p):
                return True
        return False
    l = lit(ct)
    if l is not None and pos.is_const():
        try:
            l[:pos.c].decode()
            return True
        except UnicodeDecodeError:
            return False
    # several segments: the ends of segments are boundaries of strings
    cur = ZERO
    for s in ct:
        if st.ent_eq(cur, pos):
            return True
        cur = cur + seg_len(s)
    return False

def need_boundary(I, st, ct, lo, hi):
    ok = at_boundary(I, st, ct, lo) and at_boundary(I, st, ct, hi)
    I.oblig('char boundary', ok)
    if not ok:
        I.models.on_panic(I, st, 'char boundary', 'string slice at an unproven char boundary')
    return [st]

def content(I, st, v):
    return I.content_of(st, deref(I, st, v))

def subject(I, st, v):
    return v if v[0] in ('s', 'ms') else deref(I, st, v)

@model('core::slice::<impl [T]>::len', 'core::str::<impl str>::len', 'std::string::String::len', 'std::vec::Vec::<T, A>::len', 'core::slice::<impl [T]>::is_empty',
       'std::string::String::is_empty', 'std::vec::Vec::<T, A>::is_empty', 'core::str::<impl str>::is_empty', 'std::ffi::OsStr::len', 'std::ffi::OsStr::is_empty',
       'std::iter::ExactSizeIterator::len')
def m_len(I, st, c):
    v = subject(I, st, c.args[0])
    if v[0] in ('s', 'v', 'ms', 'bx'):
        n = clen(I.content_of(st, v))
    elif v[0] in ('sl', 'vec'):
        n = v[2]
    elif v[0] == 'a' and I.p.types.get(v[1], {}).get('k') == 'array':
        n = Lin(len(v[3]))
    elif v[0] == 'o' and v[2] is not None and I.p.types[v[2]]['k'] == 'array':
        n = Lin(int(I.p.types[v[2]]['len']))
    else:
        return None
    if c.idef.endswith('is_empty'):
        return [(('b', ('eq', n)), st)]
    return [(('i', n), st)]

@model('core::slice::<impl [T]>::starts_with', 'core::str::<impl str>::starts_with')
def m_starts(I, st, c):
    h = I.content_of(st, subject(I, st, c.args[0]))
    p = pattern(I, st, c.args[1])
    if p is None:
        return [(('b', ('u', fresh_id('sw'))), st)]
    return [(('b', I.content_starts(st, h, p)), st)]

@model('core::slice::<impl [T]>::ends_with', 'core::str::<impl str>::ends_with')
def m_ends(I, st, c):
    h = I.content_of(st, subject(I, st, c.args[0]))
    p = pattern(I, st, c.args[1])
    if p is None:
        return [(('b', ('u', fresh_id('ew'))), st)]
    lh, lp = lit(h), lit(p)
    if lh is not None and lp is not None:
        return [(('b', lh.endswith(lp)), st)]
    if not p:
        return [(('b', True), st)]
    if h and h[-1][0] == 'S' and (len(h) == 1 or st.ent(clen(p) - seg_len(h[-1]))):
        cond = conj([('le', clen(p) - seg_len(h[-1])), ('m', h[-1][1], h[-1][3] - clen(p), p)])
    else:
        cond = ('u', fresh_id('ew'))
    return [(('b', cond), st)]

def pattern(I, st, v):
    """Needle of a str search method: a str, a char (as utf-8), or None."""
    v = deref(I, st, v)
    if v[0] in ('s', 'v', 'ms'):
        return I.content_of(st, v)
    if v[0] == 'i' and v[1].is_const():
        return ccat((('L', chr(v[1].c).encode()),))
    return None

@model('core::str::<impl str>::find', 'core::str::<impl str>::rfind')
def m_find(I, st, c):
    h = I.content_of(st, subject(I, st, c.args[0]))
    p = pattern(I, st, c.args[1])
    n = clen(h)
    m = clen(p) if p is not None else ONE
    i = sv(SYM.fresh('find', True, ctaint(h)))
    out = []
    s = st.copy()
    try:
        s.add_le(i + m - n)
        if len(h) == 1 and h[0][0] == 'S':
            s.add_fact(('cb', h[0][1], h[0][2] + i))
            if p is not None:
                s.add_fact(('cb', h[0][1], h[0][2] + i + m))
                s.add_fact(('m', h[0][1], h[0][2] + i, p, True))
        out.append((I.models.result(c.dty, 'Some', ('i', i)), s))
    except Infeasible:
        pass
    s = st.copy()
    out.append((I.models.result(c.dty, 'None', None), s))
    return out

@model('core::str::<impl str>::trim', 'core::str::<impl str>::trim_matches', 'core::str::<impl str>::trim_start', 'core::str::<impl str>::trim_end',
       'core::str::<impl str>::trim_start_matches', 'core::str::<impl str>::trim_end_matches', 'core::str::<impl str>::trim_left_matches', 'core::str::<impl str>::trim_right_matches')
def m_trim(I, st, c):
    h = I.content_of(st, subject(I, st, c.args[0]))
    l = lit(h)
    if l is not None and c.idef.endswith('::trim'):
        return [(('s', ccat((('L', l.decode().strip().encode()),))), st)]
    n = sv(SYM.fresh('trim'))
    st = st.copy()
    try:
        st.add_le(n - clen(h))
    except Infeasible:
        return []
    return [(('s', seq(fresh_id('trim'), n, ctaint(h))), st)]

@model('core::str::<impl str>::to_lowercase', 'core::str::<impl str>::to_uppercase', 'core::str::<impl str>::to_ascii_lowercase', 'core::str::<impl str>::replace',
       'std::str::<impl str>::to_lowercase', 'std::str::<impl str>::replace', 'alloc::str::<impl str>::to_lowercase', 'alloc::str::<impl str>::replace', 'std::str::<impl str>::to_ascii_lowercase')
def m_strnew(I, st, c):
    t = frozenset()
    for a in c.args:
        t = t | taint_of(I, st, a)
    return [(('v', seq(fresh_id('strnew'), None, t)), st)]

@model('core::str::<impl str>::split_at')
def m_split_at(I, st, c):
    h = I.content_of(st, subject(I, st, c.args[0]))
    i = c.args[1][1]
    out = []
    for s in need(I, st, ('le', i - clen(h)), 'slice bounds', 'split_at'):
        for s2 in need_boundary(I, s, h, i, clen(h)):
            out.append((('a', c.dty, 0, (('s', I.cslice(s2, h, ZERO, i)), ('s', I.cslice(s2, h, i, clen(h))))), s2))
    return out

@model('core::slice::<impl [T]>::split_at')
def m_split_at_b(I, st, c):
    v = subject(I, st, c.args[0])
    if v[0] not in ('s', 'v', 'ms'):
        return None
    h = I.content_of(st, v)
    i = c.args[1][1]
    return [(('a', c.dty, 0, (('s', I.cslice(s, h, ZERO, i)), ('s', I.cslice(s, h, i, clen(h))))), s)
            for s in need(I, st, ('le', i - clen(h)), 'slice bounds', 'split_at')]

@model('core::str::<impl str>::eq_ignore_ascii_case', 'core::slice::<impl [u8]>::eq_ignore_ascii_case')
def m_eqic(I, st, c):
    a, b = lit(content(I, st, c.args[0])), lit(content(I, st, c.args[1]))
    if a is not None and b is not None:
        return [(('b', a.lower() == b.lower()), st)]
    return [(('b', ('u', fresh_id('eqic'))), st)]

@model('core::str::<impl str>::parse', 'std::str::FromStr::from_str')
def m_parse(I, st, c):
    if c.inst is not None and I.p.fns[c.inst]['body']:
        return None
    t = taint_of(I, st, c.args[0])
    okt, ert = I.models.vtype(c.dty, 'Ok'), I.models.vtype(c.dty, 'Err')
    return [(I.models.result(c.dty, 'Ok', I.mk(okt, fresh_id('parsed'), t)), st.copy()),
            (I.models.result(c.dty, 'Err', I.mk(ert, fresh_id('perr'), t)), st.copy())]

def utf8_parts(I, st, ct):
    """(src, lo, hi) when the content is one range of a named sequence."""
    if len(ct) == 1 and ct[0][0] == 'S':
        return ct[0][1], ct[0][2], ct[0][3]
    return None

@model('std::str::from_utf8', 'core::str::from_utf8', 'std::string::String::from_utf8', 'core::str::<impl str>::from_utf8')
def m_from_utf8(I, st, c):
    ct = content(I, st, c.args[0])
    out = []
    p = utf8_parts(I, st, ct)
    owned = c.idef.startswith('std::string')
    val = ('v', ct) if owned else ('s', ct)
    if not ct or lit(ct) is not None:
        try:
            (lit(ct) or b'').decode()
            return [(I.models.result(c.dty, 'Ok', val), st)]
        except UnicodeDecodeError:
            pass
    known = p is not None and utf8_known(st, *p)
    s = st.copy()
    if p:
        s.add_fact(('utf8',) + p)
    out.append((I.models.result(c.dty, 'Ok', val), s))
    if not known:
        # an invalid sequence; one cut off by the end; one cut off with nothing valid before it
        for how in ('bad', 'cut', 'stuck'):
            s = st.copy()
            n = clen(ct)
            vu = ZERO if how == 'stuck' else sv(SYM.fresh('valid'))
            try:
                s.add_le(vu - n + 1)
                if how == 'cut':
                    s.add_le(ONE - vu)
                if p:
                    s.add_fact(('utf8', p[0], p[1], p[1] + vu))
                    s.add_fact(('noutf8', p[0], p[1], p[2]))
                    if how != 'cut':
                        I.mon.on_noutf8(s, p[0])
                e = ('m', 'utf8err', vu, n, ct, how == 'bad')
                if owned:
                    e = I.mk(I.models.vtype(c.dty, 'Err'), fresh_id('fue'), ctaint(ct))
                out.append((I.models.result(c.dty, 'Err', e), s))
            except Infeasible:
                pass
    return out

def utf8_known(st, src, lo, hi):
    if st.ent_eq(lo, hi):
        return True
    for f in st.facts:
        if f[0] == 'utf8' and f[1] == src and st.ent_eq(f[2], lo) and st.ent_eq(f[3], hi):
            return True
    return False

@model('std::str::from_utf8_unchecked', 'core::str::from_utf8_unchecked', 'std::string::String::from_utf8_unchecked', 'core::str::<impl str>::from_utf8_unchecked')
def m_unchecked(I, st, c):
    ct = content(I, st, c.args[0])
    if I.models.mon is not None:
        I.models.mon.on_unchecked_utf8(I, st, ct)
    return [(('v' if c.idef.startswith('std::string') else 's', ct), st)]

@prefix('std::str::Utf8Error::', 'core::str::error::Utf8Error::', 'core::str::Utf8Error::')
def m_utf8err(I, st, c):
    v = deref(I, st, c.args[0])
    if v[0] != 'm':
        return None
    op = c.idef.rsplit('::', 1)[1]
    if op == 'valid_up_to':
        return [(('i', v[2]), st)]
    if op == 'error_len':
        # Some(1..=3): invalid sequence; None: truncated at the end (< 4 bytes left)
        out = []
        k = sv(SYM.fresh('elen'))
        s = st.copy()
        try:
            if v[5] is False:
                raise Infeasible
            s.add_le(ONE - k)
            s.add_le(k - 3)
            s.add_le(v[2] + k - v[3])
            out.append((I.models.result(c.dty, 'Some', ('i', k)), s))
        except Infeasible:
            pass
        s = st.copy()
        try:
            if v[5] is True:
                raise Infeasible
            s.add_le(v[3] - v[2] - 3)
            out.append((I.models.result(c.dty, 'None', None), s))
        except Infeasible:
            pass
        return out
    return None

@model('std::string::String::from_utf8_lossy')
def m_lossy(I, st, c):
    ct = content(I, st, c.args[0])
    return [(('a', c.dty, 1, (('v', seq(fresh_id('lossy'), None, ctaint(ct))),)), st)]

# ---- owned buffers
@model('std::string::String::new', 'std::vec::Vec::<T>::new', 'std::string::String::with_capacity', 'std::vec::Vec::<T>::with_capacity', 'std::path::PathBuf::new',
       'std::default::Default::default', 'std::ffi::OsString::new')
def m_newbuf(I, st, c):
    if I.p.bytes_owner(c.dty):
        return [(('v', ()), st)]
    t = I.p.types[c.dty]
    if t['k'] == 'adt' and t['name'] == 'std::vec::Vec':
        return [(('vec', c.dty, ZERO, ZERO, fresh_id('vec'), frozenset()), st)]
    if t['k'] == 'int':
        return [(('i', ZERO), st)]
    if t['k'] == 'bool':
        return [(FALSE, st)]
    if t['k'] == 'adt' and t['name'].endswith('option::Option'):
        return [(I.models.result(c.dty, 'None', None), st)]
    if c.defn.endswith('default') and c.inst is not None and I.p.fns[c.inst]['body']:
        return None
    if c.defn.endswith('default'):
        return [(I.mk(c.dty, fresh_id('dflt')), st)]
    return None

def append(I, st, target, ct):
    cell, path = ref_of(I, st, target)
    v = I.read(st, cell, path)
    if v[0] != 'v':
        return False
    new = ccat(v[1], ct)
    if len(new) > 24:
        new = seq(fresh_id('long'), clen(new), ctaint(new))
    I.write(st, cell, path, ('v', new))
    return True

@model('std::string::String::push_str', 'std::vec::Vec::<T, A>::extend_from_slice', 'std::string::String::push', 'std::iter::Extend::extend')
def m_push(I, st, c):
    st = st.copy()
    v = deref(I, st, c.args[0])
    if v[0] != 'v':
        return None
    a = c.args[1]
    if a[0] == 'i':
        if a[1].is_const():
            ct = ccat((('L', chr(a[1].c).encode()),))
        else:
            ct = push_random(st, v[1], a) or seq(fresh_id('ch'))
            if ct is True:
                return [(I.models.unit(c), push_run(I, st, c.args[0]))]
    elif a[0] == 'm' and a[1] == 'bytes':
        ct = a[2]
    else:
        d = deref(I, st, a)
        if d[0] not in ('s', 'v', 'ms'):
            ct = seq(fresh_id('ext'), None, taint_of(I, st, d))
        else:
            ct = I.content_of(st, d)
    append(I, st, c.args[0], ct)
    return [(I.models.unit(c), st)]

@model('std::vec::Vec::<T, A>::reserve', 'std::vec::Vec::<T, A>::reserve_exact', 'std::vec::Vec::<T, A>::shrink_to_fit', 'std::string::String::reserve',
       'std::string::String::reserve_exact', 'std::string::String::shrink_to_fit', 'std::collections::HashMap::<K, V, S>::reserve')
def m_reserve(I, st, c):
    return [(I.models.unit(c), st)]

@model('std::ops::AddAssign::add_assign')
def m_add_assign(I, st, c):
    if deref(I, st, c.args[0])[0] != 'v':
        return None
    return m_push(I, st, c)

@model('std::ops::Add::add')
def m_add_str(I, st, c):
    a, b = c.args[0], deref(I, st, c.args[1])
    if a[0] != 'v' or b[0] not in ('s', 'v', 'ms'):
        return None
    return [(('v', ccat(a[1], I.content_of(st, b))), st)]

@model('std::vec::Vec::<T, A>::append')
def m_vec_append(I, st, c):
    d = deref(I, st, c.args[1])
    if deref(I, st, c.args[0])[0] != 'v' or d[0] != 'v':
        return None
    st = st.copy()
    append(I, st, c.args[0], d[1])
    cell, path = ref_of(I, st, c.args[1])
    I.write(st, cell, path, ('v', ()))
    return [(I.models.unit(c), st)]

def push_random(st, ct, a):
    """A fresh random ASCII character: it starts or prolongs a random run."""
    t = frozenset()
    for x, k in a[1].t:
        t = t | SYM.taint[x]
    f = ('pushed', a[1])
    if not {'rand', 'alnum'} <= t or f in st.facts:
        return None
    st.facts = st.facts | {f}
    if ct and ct[-1][0] == 'S' and isinstance(ct[-1][1], tuple) and ct[-1][1][0] == 'rndrun':
        return True
    return seq(fresh_id('rndrun'), ONE, t)

def push_run(I, st, ref):
    cell, path = ref_of(I, st, ref)
    v = I.read(st, cell, path)
    x = v[1][-1]
    I.write(st, cell, path, ('v', v[1][:-1] + (('S', x[1], x[2], x[3] + 1),)))
    return st

@model('std::vec::Vec::<T, A>::push')
def m_vpush(I, st, c):
    st = st.copy()
    cell, path = ref_of(I, st, c.args[0])
    v = I.read(st, cell, path)
    if v[0] == 'v':
        a = c.args[1]
        ct = ccat((('L', bytes([a[1].c])),)) if a[0] == 'i' and a[1].is_const() else seq(fresh_id('b'), ONE, taint_of(I, st, a))
        append(I, st, c.args[0], ct)
        return [(I.models.unit(c), st)]
    if v[0] != 'vec':
        return None
    w = I.models.weight(I, st, c.args[1])
    if I.models.mon is not None:
        I.models.mon.on_vec_push(I, st, v, c.args[1])
    I.write(st, cell, path, ('vec', v[1], v[2] + 1, v[3] + w, v[4], v[5] | taint_of(I, st, c.args[1])))
    return [(I.models.unit(c), st)]

def weight(self, I, st, v, depth=0):
    """Number of bytes a value still holds or will produce."""
    tag = v[0]
    if tag == 'v':
        return clen(v[1])
    if tag == 'm' and v[1] == 'cursor':
        return clen(I.content_of(st, v[2])) - v[3]
    if tag == 'm' and v[1] in ('file', 'reader'):
        return v[3]
    if tag == 'a':
        n = ZERO
        for x in v[3]:
            n = n + self.weight(I, st, x, depth + 1)
        return n
    if tag == 'bx':
        return self.weight(I, st, v[1], depth + 1)
    return ZERO

Models.weight = weight

@model('std::vec::Vec::<T, A>::clear', 'std::string::String::clear')
def m_clear(I, st, c):
    st = st.copy()
    cell, path = ref_of(I, st, c.args[0])
    v = I.read(st, cell, path)
    if v[0] == 'v':
        I.write(st, cell, path, ('v', ()))
        return [(I.models.unit(c), st)]
    return None

@model('std::vec::Vec::<T, A>::truncate', 'std::string::String::truncate')
def m_trunc(I, st, c):
    st = st.copy()
    cell, path = ref_of(I, st, c.args[0])
    v = I.read(st, cell, path)
    if v[0] != 'v' or c.args[1][0] != 'i':
        return None
    n = c.args[1][1]
    ct = v[1]
    out = []
    for s in I.assume(st.copy(), ('le', n - clen(ct)), True):
        I.write(s, cell, path, ('v', I.cslice(s, ct, ZERO, n)))
        out.append((I.models.unit(c), s))
    for s in I.assume(st.copy(), ('le', n - clen(ct)), False):
        out.append((I.models.unit(c), s))
    return out

@model('safemem::prepend')
def m_prepend(I, st, c):
    st = st.copy()
    ct = content(I, st, c.args[0])
    cell, path = ref_of(I, st, c.args[1])
    v = I.read(st, cell, path)
    I.write(st, cell, path, ('v', ccat(ct, I.content_of(st, v))))
    return [(I.models.unit(c), st)]

@model('std::mem::replace', 'std::mem::take')
def m_replace(I, st, c):
    st = st.copy()
    cell, path = ref_of1(I, st, c.args[0])
    v = I.read(st, cell, path)
    if c.defn.endswith('take'):
        t = I.p.types[c.dty]
        if v[0] == 'v':
            new = ('v', ())
        elif t['k'] == 'adt' and t['name'].endswith('option::Option'):
            new = I.models.result(c.dty, 'None', None)
        elif v[0] == 's':
            new = ('s', ())
        elif v[0] == 'i':
            new = ('i', ZERO)
        elif v[0] == 'b':
            new = FALSE
        elif v[0] == 'vec':
            new = ('vec', v[1], ZERO, ZERO, fresh_id('vec'), frozenset())
        else:
            return None
    else:
        new = c.args[1]
    I.write(st, cell, path, new)
    return [(v, st)]

def ref_of1(I, st, v):
    """One level of reference."""
    if v[0] == 'r':
        return v[1], v[2]
    return ref_of(I, st, v)

@model('std::mem::swap')
def m_swap(I, st, c):
    st = st.copy()
    a, b = ref_of1(I, st, c.args[0]), ref_of1(I, st, c.args[1])
    x, y = I.read(st, *a), I.read(st, *b)
    I.write(st, a[0], a[1], y)
    I.write(st, b[0], b[1], x)
    return [(I.models.unit(c), st)]

@model('std::boxed::Box::<T>::new', 'std::boxed::Box::<T>::pin')
def m_box(I, st, c):
    return [(('bx', c.args[0]), st)]

@model('std::mem::drop', 'core::mem::drop')
def m_memdrop(I, st, c):
    return [(I.models.unit(c), s) for s in I.models.drop(I, st.copy(), c.args[0], c.atys[0])]

# ------------------------------------------------------------------ io errors
@prefix('alloc::io::error::<impl std::io::Error>::new', 'std::io::Error::new', 'std::io::Error::other')
def m_ioerr(I, st, c):
    k = deref(I, st, c.args[0])
    kind = None
    if k[0] == 'a':
        kind = I.p.types[k[1]]['variants'][k[2]]['name']
    elif c.idef.endswith('other'):
        kind = 'Other'
    return [(('err', fresh_id('err'), 'new', kind), st)]

@model('std::io::Error::kind')
def m_kind(I, st, c):
    v = deref(I, st, c.args[0])
    if v[0] == 'err':
        if v[3] == '~Interrupted':      # any other kind
            return [(('o', ('ekind', v[1], ('Interrupted',)), c.dty, frozenset()), st)]
        if v[3] is not None:
            return [(I.models.result(c.dty, v[3], None), st)]
        return [(('o', ('ekind', v[1]), c.dty, frozenset()), st)]
    return [(I.mk(c.dty, fresh_id('kind')), st)]

# ------------------------------------------------------------------ buffered reader over the request body
BR = 'BufReader'

def new_source(I, taint):
    _, n = fresh_id()
    src = ('body', n)
    SRC_TAINT[src] = taint
    STREAMS.add(src)
    return src

@model('multipart::server::save::BufReader::<R>::new', 'multipart::server::save::BufReader::<R>::with_capacity', 'buf_redux::BufReader::<R>::new',
       'multipart::server::save::BufReader::<R, P>::new', 'multipart::server::save::BufReader::<R, multipart::server::save::StdPolicy>::new')
def m_br_new(I, st, c):
    src = I.models.mon.new_source(I, c) if I.models.mon is not None else new_source(I, REQ)
    inner = c.args[-1]
    return [(('a', c.dty, 0, (('q', src), ('i', ZERO), ('i', ZERO), ('o', fresh_id('policy'), None, frozenset()), inner)), st)]

@model('multipart::server::save::BufReader::<R, P>::set_policy')
def m_br_pol(I, st, c):
    v = c.args[0]
    return [(('a', c.dty, 0, (v[3][0], v[3][1], v[3][2], c.args[1], v[3][4])), st)]

@model('multipart::server::save::BufReader::<R, P>::policy_mut', 'multipart::server::save::BufReader::<R, P>::policy')
def m_br_polmut(I, st, c):
    st = st.copy()
    cell, path = ref_of(I, st, c.args[0])
    I.read(st, cell, path)
    return [(('r', cell, path + (3,)), st)]

@model('multipart::server::save::BufReader::<R, P>::get_ref', 'multipart::server::save::BufReader::<R, P>::get_mut')
def m_br_inner(I, st, c):
    st = st.copy()
    cell, path = ref_of(I, st, c.args[0])
    return [(('r', cell, path + (4,)), st)]

def br_value(I, st, arg):
    cell, path = ref_of(I, st, arg)
    v = I.read(st, cell, path)
    return cell, path, v

@model('multipart::server::save::BufReader::<R, P>::make_room', 'multipart::server::save::BufReader::<R, P>::reserve')
def m_br_room(I, st, c):
    return [(I.models.unit(c), st)]

@model('multipart::server::save::BufReader::<R, P>::buffer', 'multipart::server::save::BufReader::<R, P>::get_buf')
def m_br_buffer(I, st, c):
    st = st.copy()
    cell, path, v = br_value(I, st, c.args[0])
    if v[0] != 'a':
        return None
    q, b, n = v[3][:3]
    return [(('s', ccat((('S', q[1], b[1], b[1] + n[1]),))), st)]

@model('multipart::server::save::BufReader::<R, P>::buf_len')
def m_br_len(I, st, c):
    st = st.copy()
    cell, path, v = br_value(I, st, c.args[0])
    return [(v[3][2], st)]

def fill(I, st, c, cell, path, v):
    """buf_redux + MinBuffered: [(kind, state)] with the buffer grown."""
    q, b, n, pol, inner = v[3]
    base, ln = b[1], n[1]
    mn = ONE
    if pol[0] == 'a' and pol[3] and pol[3][0][0] == 'i':
        mn = pol[3][0][1]
    if st.ent(mn - ln):
        return [('ok', st)]
    out = []
    for kind in ('ok', 'eof', 'err'):
        s1 = st.copy()
        l2 = sv(SYM.fresh('buflen'))
        try:
            s1.add_le(ln - l2)
            if kind == 'ok':
                s1.add_le(mn - l2)
            elif kind == 'eof':
                s1.add_le(l2 - mn + 1)
                s1.add_fact(('eof', q[1], base + l2))
            I.write(s1, cell, path, ('a', v[1], 0, (q, b, ('i', l2), pol, inner)))
            out.append(('err' if kind == 'err' else 'ok', s1))
        except Infeasible:
            pass
    return out

@model('<multipart::server::save::BufReader<R, P> as std::io::BufRead>::fill_buf')
def m_br_fill(I, st, c):
    st = st.copy()
    cell, path, v = br_value(I, st, c.args[0])
    if v[0] != 'a':
        return None
    out = []
    for k, s in fill(I, st, c, cell, path, v):
        if k == 'ok':
            w = I.read(s, cell, path)
            q, b, n = w[3][:3]
            out.append((I.models.result(c.dty, 'Ok', ('s', ccat((('S', q[1], b[1], b[1] + n[1]),)))), s))
        else:
            out.append((I.models.result(c.dty, 'Err', ('err', fresh_id('err'), 'body', None)), s))
    return out

@model('<multipart::server::save::BufReader<R, P> as std::io::BufRead>::consume')
def m_br_consume(I, st, c):
    st = st.copy()
    cell, path, v = br_value(I, st, c.args[0])
    if v[0] != 'a' or c.args[1][0] != 'i':
        return None
    q, b, n, pol, inner = v[3]
    out = []
    for m, s in split_min(I, st, c.args[1][1], n[1]):
        w = I.read(s, cell, path)
        q, b, n, pol, inner = w[3]
        mm = m
        I.write(s, cell, path, ('a', w[1], 0, (q, ('i', b[1] + mm), ('i', n[1] - mm), pol, inner)))
        if I.models.mon is not None:
            I.models.mon.on_consume(I, s, q[1], b[1], mm)
        if not getattr(I.models.mon, 'KEEP', False):
            s.drop_behind(q[1], b[1] + mm)
        out.append((I.models.unit(c), s))
    return out

@prefix('<multipart::server::save::BufReader<R, P> as std::io::Read>::')
def m_br_read(I, st, c):
    return None

# ---- Read/BufRead for slices and references
@model('core::slice::<impl [T]>::copy_from_slice', 'core::slice::<impl [T]>::clone_from_slice')
def m_copy_slice(I, st, c):
    st = st.copy()
    dst, ct = c.args[0], content(I, st, c.args[1])
    if dst[0] != 'ms':
        return None
    n = clen(ct)
    I.oblig('slice bounds', st.ent_eq(dst[4] - dst[3], n)) if False else None
    out = []
    for s in I.assume(st, ('eq', dst[4] - dst[3] - n), False):
        I.models.mon.on_panic(I, s, 'slice lengths', 'copy_from_slice of another length')
        break
    old = I.content_of(st, I.read(st, dst[1], dst[2]))
    pre, post = I.cslice(st, old, ZERO, dst[3]), I.cslice(st, old, dst[4], clen(old))
    I.write(st, dst[1], dst[2], ('v', ccat(pre, ct, post)))
    return [(I.models.unit(c), st)]

def copy_out(I, st, dst, ct, n):
    """Store content `ct` (length n) at the start of the mutable slice dst."""
    if dst[0] != 'ms':
        return
    v = I.read(st, dst[1], dst[2])
    old = I.content_of(st, v)
    lo = dst[3]
    pre = I.cslice(st, old, ZERO, lo)
    # What a buffer holds behind the bytes just read is forgotten: one name
    # per buffer, so that repeated reads have one shape.
    src = ('tail', dst[1])
    SRC_TAINT[src] = SRC_TAINT.get(src, frozenset()) | ctaint(old)
    I.write(st, dst[1], dst[2], ('v', ccat(pre, ct) + (('S', src, lo + n, clen(old)),)))

VIEWS = {}
def view_of(I, st, ct):
    """Name a content of several segments: reads of it are ranges of one
    sequence.  The name depends on the structure of what is shown only."""
    if len(ct) < 2:
        return ct
    k = tuple((x[0], x[1]) for x in ct)
    cid = ('view', VIEWS.setdefault(k, len(VIEWS)))
    SRC_TAINT[cid] = ctaint(ct)
    st.cells[('g', 'def', cid)] = ('gv', ct)
    return (('S', cid, ZERO, clen(ct)),)

def slice_read(I, st, selfref, dst, dty):
    """<&[u8] as Read>::read -> [(Ok(n), state)]"""
    cell, path = ref_of1(I, st, selfref)
    v = I.read(st, cell, path)
    ct = I.content_of(st, v)
    if len(ct) > 1:
        ct = view_of(I, st, ct)
        I.write(st, cell, path, ('s', ct))
    cap = clen(I.content_of(st, dst))
    out = []
    try:
        for x in ct:
            if x[0] == 'S':
                st.add_le(x[2] - x[3])      # lengths are not negative
    except Infeasible:
        return []
    ct = I.content_of(st, I.read(st, cell, path))
    cap = clen(I.content_of(st, dst))
    for n, s in split_min(I, st, clen(ct), cap):
        ct2 = I.content_of(s, I.read(s, cell, path))
        part = I.cslice(s, ct2, ZERO, n)
        copy_out(I, s, dst, part, n)
        I.write(s, cell, path, ('s', (('S', ct2[0][1], ct2[0][2] + n, ct2[0][3]),) if len(ct2) == 1 and ct2[0][0] == 'S' else I.cslice(s, ct2, n, clen(ct2))))
        out.append((I.models.result(dty, 'Ok', ('i', n)), s))
    return out

@model('alloc::io::impls::<impl std::io::Read for &[u8]>::read', 'std::io::impls::<impl std::io::Read for &[u8]>::read', 'core::io::impls::<impl std::io::Read for &[u8]>::read')
def m_slice_read(I, st, c):
    return slice_read(I, st.copy(), c.args[0], c.args[1], c.dty)

@prefix('alloc::io::impls::<impl std::io::BufRead for &mut B>::', 'std::io::impls::<impl std::io::BufRead for &mut B>::',
        'alloc::io::impls::<impl std::io::Read for &mut R>::', 'std::io::impls::<impl std::io::Read for &mut R>::')
def m_fwd(I, st, c):
    """Forwarding impls `impl BufRead for &mut B`: call the same method on B."""
    st = st.copy()
    if c.inst is not None and I.p.fns[c.inst]['body']:
        return None
    v = I.read(st, c.args[0][1], c.args[0][2]) if c.args[0][0] == 'r' else c.args[0]
    method = c.idef.rsplit('::', 1)[1]
    trait = 'std::io::BufRead' if 'BufRead' in c.idef else 'std::io::Read'
    ty = I.p.types[I.p.types[c.atys[0]]['to']]['to']
    fn = I.models.find_impl(ty, trait, method)
    if fn is None:
        return None
    return I.call_value(st, ('fn', fn, None), [v] + c.args[1:], c, 'fwd')

def find_impl(self, ty, trait, method):
    s = self.p.types[ty]['s']
    for f in self.p.fns.values():
        n = short(f['name'])
        if n.endswith('::' + method) and trait.split('::')[-1] in n and f['sig'] and f['sig']['in']:
            t = self.p.types.get(f['sig']['in'][0])
            if t and t['k'] == 'ref' and t['to'] == ty and (' as ' + trait) in n:
                return f['id']
    return None

Models.find_impl = find_impl

# ------------------------------------------------------------------ searching
@model('twoway::find_bytes')
def m_find_bytes(I, st, c):
    h, n = content(I, st, c.args[0]), content(I, st, c.args[1])
    hl, nl = clen(h), clen(n)
    p = utf8_parts(I, st, h)
    i = sv(SYM.fresh('found'))
    out = []
    s = st.copy()
    try:
        s.add_le(i + nl - hl)
        ss = [s]
        if p:
            ss = I.assume(s, ('m', p[0], p[1] + i, n), True)
        for s in ss:
            if p:
                s.add_fact(('nf', p[0], n, p[1], p[1] + i + nl - 1))
            out.append((I.models.result(c.dty, 'Some', ('i', i)), s))
    except Infeasible:
        pass
    s = st.copy()
    if p:
        s.add_fact(('nf', p[0], n, p[1], p[2]))
    elif not h:
        pass
    out.append((I.models.result(c.dty, 'None', None), s))
    return out

@model('httparse::parse_headers')
def m_httparse(I, st, c):
    h = content(I, st, c.args[0])
    t = ctaint(h)
    okt, ert = I.models.vtype(c.dty, 'Ok'), I.models.vtype(c.dty, 'Err')
    out = [(I.models.result(c.dty, 'Err', I.mk(ert, fresh_id('httperr'))), st.copy())]
    out.append((I.models.result(c.dty, 'Ok', I.models.result(okt, 'Partial', None)), st.copy()))
    s = st.copy()
    n = sv(SYM.fresh('hdrlen', True, t))
    k = sv(SYM.fresh('nhdr'))
    try:
        s.add_le(n - clen(h))
        s.add_le(Lin(2) - n) if False else s.add_le(ONE - n)
        arr = deref(I, st, c.args[1])
        cap = c.args[1][2] if c.args[1][0] == 'sl' else None
        if cap is not None:
            s.add_le(k - cap)
        elif arr[0] == 'a':
            s.add_le(k - len(arr[3]))
        p = utf8_parts(I, s, h)
        if p:
            s.add_fact(('hdrs', p[0], p[1], p[1] + n))
        ct = I.models.vtype(okt, 'Complete')
        tup = I.p.types[ct]['elems']
        et = I.p.types[I.p.types[tup[1]]['to']]['elem']
        # the header slots of the caller's array are overwritten
        if c.args[1][0] == 'sl' and c.args[1][1] and c.args[1][1][0] == 'arr':
            a = c.args[1][1]
            old = I.read(s, a[1], a[2])
            if old[0] == 'a':
                I.write(s, a[1], a[2], I.mk(old[1], fresh_id('hdrs'), t))
        out.append((I.models.result(c.dty, 'Ok', I.models.result(okt, 'Complete', ('a', ct, 0, (('i', n), ('sl', fresh_id('hdrs'), k, et, t))))), s))
    except Infeasible:
        pass
    return out

# ------------------------------------------------------------------ iterators
@model('std::iter::range::<impl std::iter::Iterator for std::ops::Range<A>>::next')
def m_range_next(I, st, c):
    st = st.copy()
    cell, path = ref_of(I, st, c.args[0])
    v = I.read(st, cell, path)
    lo, hi = v[3][0][1], v[3][1][1]
    out = []
    for s in I.assume(st.copy(), ('le', lo - hi + 1), True):
        I.write(s, cell, path + (0,), ('i', lo + 1))
        out.append((I.models.result(c.dty, 'Some', ('i', lo)), s))
    for s in I.assume(st.copy(), ('le', lo - hi + 1), False):
        out.append((I.models.result(c.dty, 'None', None), s))
    return out

def range_of(I, st, v):
    v = deref(I, st, v) if v[0] == 'r' else v
    if v[0] == 'a' and v[1] is not None and I.p.types[v[1]]['name'].endswith('ops::Range') and len(v[3]) == 2 and v[3][0][0] == 'i' and v[3][1][0] == 'i':
        return v[3][0][1], v[3][1][1]
    return None

def generalise(I, before, after, j, lo, hi):
    """What a test established for an arbitrary index j of [lo, hi), stated
    for all of them at once: absence of a text at j+k for every such j."""
    out = []
    for f in after.facts - before.facts:
        if f[0] == 'nf' and f[4] - f[3] == clen(f[2]):
            k = f[3] - sv(j)
            if all(x != j for x, _ in k.t):
                out.append(('nf', f[1], f[2], lo + k, hi - 1 + k + clen(f[2])))
    return out

@prefix('std::iter::Iterator::find', 'std::iter::Iterator::position', 'std::iter::Iterator::any', 'std::iter::Iterator::all')
def m_range_search(I, st, c):
    """Searching a range of integers with a predicate (without effects)."""
    op = c.idef.rsplit('::', 1)[1]
    if op not in ('find', 'position', 'any', 'all'):
        return None
    st = st.copy()
    r = range_of(I, st, c.args[0])
    if r is None:
        return None
    hit = op != 'all'
    y = SYM.fresh('index')
    key = ('g', '__it')
    s0 = st.copy()
    s0.cells[key] = ('a', None, 0, (('i', sv(y)), ('i', r[0]), ('i', r[1])))
    out = []
    gens = []
    try:
        s0.add_le(r[0] - sv(y))
        s0.add_le(sv(y) + 1 - r[1])
    except Infeasible:
        s0 = None
    none = st.copy()
    none.cells[key] = ('a', None, 0, (('i', r[0]), ('i', r[1])))
    if s0 is not None:
        arg = ('i', sv(y))
        if op == 'find':
            s0.cells[('g', '__ix')] = arg
            arg = ('r', ('g', '__ix'), ())
        miss = None
        hits = []
        for rv, s in I.call_value(s0, c.args[1], [arg], c, op):
            if rv[0] != 'b':
                return None
            for val in (True, False):
                for s2 in ([s] if rv[1] is val else [] if isinstance(rv[1], bool) else I.assume(s.copy(), rv[1], val)):
                    s2 = s2.copy()
                    s2.cells.pop(('g', '__ix'), None)
                    (hits if val == hit else gens).append(s2)
        # every earlier index failed the test
        for s2 in hits:
            i, lo, hi = [x[1] for x in s2.cells.pop(key)[3]]
            if len(gens) == 1 and len(i.t) == 1 and i.c == 0:
                pass
            if len(gens) == 1:
                for f in generalise(I, s0, gens[0], y, r[0], sv(y)):
                    s2.facts = s2.facts | {map_lin_in(f, lambda L: L.subst(y, i))}
            if op in ('any', 'all'):
                out.append((('b', op == 'any'), s2))
            else:
                out.append((I.models.result(c.dty, 'Some', ('i', i - lo if op == 'position' else i)), s2))
    lo, hi = [x[1] for x in none.cells.pop(key)[3]]
    if len(gens) == 1:
        for f in generalise(I, s0, gens[0], y, lo, hi):
            none.add_fact(f)
    if op in ('any', 'all'):
        out.append((('b', op == 'all'), none))
    else:
        out.append((I.models.result(c.dty, 'None', None), none))
    return out

@model('core::slice::<impl [T]>::iter', 'core::slice::<impl [T]>::iter_mut', 'std::iter::Iterator::zip', 'std::iter::Iterator::enumerate', 'std::iter::Iterator::take',
       'std::iter::Iterator::skip', 'std::iter::Iterator::rev', 'std::iter::Iterator::cloned', 'std::iter::Iterator::copied', 'std::iter::Iterator::chain', 'std::iter::Iterator::peekable')
def m_iter(I, st, c):
    """Iterators over data the analysis does not track element-wise."""
    t = frozenset()
    m = c.idef.rsplit('::', 1)[1]
    if m == 'iter':
        d = deref(I, st, c.args[0])
        if d[0] in ('s', 'v', 'ms'):
            return [(('m', 'bytes', I.content_of(st, d)), st)]
        if d[0] == 'sl':
            return [(('m', 'oit', ('o', fresh_id('iter'), c.dty, taint_of(I, st, c.args[0])), ('i', d[2])), st)]
    if m in ('cloned', 'copied') and c.args[0][:2] == ('m', 'bytes'):
        return [(c.args[0], st)]
    if m == 'enumerate' and c.args[0][:2] == ('m', 'oit'):
        return [(('m', 'oenum') + c.args[0][2:], st)]
    for a in c.args:
        t = t | taint_of(I, st, a)
    return [(('o', fresh_id('iter'), c.dty, t), st)]

@model('<std::slice::Iter<\'a, T> as std::iter::Iterator>::find', 'std::iter::Iterator::find', 'std::iter::Iterator::position', 'std::iter::Iterator::any', 'std::iter::Iterator::all',
       'std::iter::Iterator::find_map', '<std::slice::Iter<\'a, T> as std::iter::Iterator>::any', '<std::slice::Iter<\'a, T> as std::iter::Iterator>::position')
def m_iter_find(I, st, c):
    """The closure is analysed on an arbitrary element; the result is an
    arbitrary element (or nothing)."""
    if c.inst is not None and I.p.fns[c.inst]['body']:
        return None
    r = m_range_search(I, st, c)
    if r is not None:
        return r
    st = st.copy()
    t = taint_of(I, st, c.args[0])
    f = c.args[1]
    m = c.defn.rsplit('::', 1)[1]
    it = I.p.types[c.dty]
    out = []
    # what the closure takes
    ci = closure_inst(I, st, f)
    if ci is None:
        return None
    b = I.p.body(ci)
    if not b or b.argc < 2:
        return None
    et = b.locals[2]
    el = I.mk(et, fresh_id('elem'), t)
    res = I.call_value(st.copy(), f, [el], c, 'pred')
    if res is None:
        return None
    for rv, s in res:
        if rv[0] == 'b':
            for s2 in I.assume(s.copy(), rv[1], True):
                if m == 'find':
                    e = deref1(I, s2, el)
                    out.append((I.models.result(c.dty, 'Some', e), s2))
                elif m == 'position':
                    out.append((I.models.result(c.dty, 'Some', ('i', sv(SYM.fresh('pos')))), s2))
                elif m == 'any':
                    out.append((TRUE, s2))
                elif m == 'all':
                    pass
            for s2 in I.assume(s.copy(), rv[1], False):
                if m == 'all':
                    out.append((FALSE, s2))
    if m in ('find', 'position', 'find_map'):
        out.append((I.models.result(c.dty, 'None', None), st.copy()))
    elif m == 'any':
        out.append((FALSE, st.copy()))
    elif m == 'all':
        out.append((TRUE, st.copy()))
    if m == 'find_map':
        return None
    return out

@model('std::iter::Iterator::filter')
def m_filter(I, st, c):
    a = c.args[0]
    if a[:2] == ('m', 'oit'):
        a = a[2]
    if a[0] != 'o':
        return None
    return [(('m', 'ofilt', a, c.args[1]), st)]

def deref1(I, st, v):
    if v[0] == 'r':
        return I.read(st, v[1], v[2])
    if v[0] == 'o':
        t = I.p.types.get(v[2])
        if t and t['k'] == 'ref':
            cell = ('oc', v[1])
            if cell not in st.cells:
                st.cells[cell] = I.mk(t['to'], (v[1], '*'), v[3])
            return st.cells[cell]
    return v

def closure_inst(I, st, f):
    v = deref(I, st, f)
    if v[0] == 'a' and v[1] is not None and I.p.types[v[1]]['k'] == 'closure':
        t = I.p.types[v[1]]
        for key in ('fn', 'fnmut', 'fnonce'):
            inst = t.get(key)
            if inst is not None and I.p.fns[inst]['body'] and I.p.fns[inst]['kind'] != 'shim':
                return inst
    if v[0] == 'fn':
        return v[1]
    return None

@model('<std::iter::Zip<A, B> as std::iter::Iterator>::next', 'std::iter::Iterator::next')
def m_next(I, st, c):
    if c.inst is not None and I.p.fns[c.inst]['body']:
        return None
    t = taint_of(I, st, c.args[0])
    et = I.models.vtype(c.dty, 'Some')
    it = deref(I, st, c.args[0])
    if it[:2] == ('m', 'ofilt'):
        # the next element that the filter lets pass
        d = copy.copy(c)
        d.inst, d.defn, d.args = None, 'std::iter::Iterator::find', [it[2], it[3]]
        r = m_iter_find(I, st, d)
        if r is not None:
            return r
    item = I.mk(et, fresh_id('item'), t)
    if it[:2] == ('m', 'oenum') and item[0] == 'a' and len(item[3]) == 2:
        st = st.copy()
        y = sv(SYM.fresh('ix', True))
        none = (I.models.result(c.dty, 'None', None), st.copy())
        try:
            st.add_le(y + 1 - it[3][1])
        except Infeasible:
            return [none]
        return [(I.models.result(c.dty, 'Some', ('a', item[1], item[2], (('i', y), item[3][1]))), st), none]
    return [(I.models.result(c.dty, 'Some', item), st.copy()),
            (I.models.result(c.dty, 'None', None), st.copy())]
