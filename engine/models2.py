"""Contracts of writers, cursors, files, random numbers and short lists."""
import models
from models import model, prefix, deref, ref_of, ref_of1, append, content, tmp, copy_out, split_min, TABLE, PREFIX
from lin import Lin, SYM, ZERO, ONE, sv
from ai import fresh_id, seq, clen, ccat, ctaint, lit, taint_of, Infeasible, Stop, SRC_TAINT, UNINIT

def ok(I, c, v):
    return I.models.result(c.dty, 'Ok', v)

def unit_of(I, ty):
    return ('a', ty, 0, ())

def err(I, c, origin, kind=None):
    return I.models.result(c.dty, 'Err', ('err', fresh_id('err'), origin, kind))

# ------------------------------------------------------------------ readers with a known total
def mk_reader(I, oid, taint=frozenset(), kind='rd'):
    src = ('rdsrc', oid)
    if taint:
        SRC_TAINT[src] = taint
    return ('m', kind, ('q', src), ('i', ZERO))

def rd_len(st, src):
    """Total number of bytes a source delivers before its end."""
    k = ('g', 'rdlen', src)
    v = st.cells.get(k)
    if v is None:
        v = st.cells[k] = ('i', sv(SYM.named(('len', src))))
    return v[1]

def rd_read(I, st, c, cell, path, dst):
    """One read() of a source: an error, the end, or 1..=cap bytes."""
    v = I.read(st, cell, path)
    src, pos = v[2][1], v[3][1]
    cap = clen(I.content_of(st, dst))
    total = rd_len(st, src)
    out = []
    s = st.copy()
    out.append((err(I, c, 'src'), s))
    for cond in (('eq', total - pos), ('eq', cap)):
        for s in I.assume(st.copy(), cond, True):
            if cond[1] == cap and s.ent_eq(total, pos):
                continue
            out.append((ok(I, c, ('i', ZERO)), s))
    s = st.copy()
    n = sv(SYM.fresh('rd'))
    try:
        s.add_le(ONE - n)
        s.add_le(n - cap)
        s.add_le(pos + n - total)
        v = I.read(s, cell, path)
        pos = v[3][1]
        copy_out(I, s, dst, ccat((('S', src, pos, pos + n),)), n)
        I.write(s, cell, path, ('m', v[1], v[2], ('i', pos + n)))
        out.append((ok(I, c, ('i', n)), s))
    except Infeasible:
        pass
    return out

@model('std::io::Read::read', '<std::fs::File as std::io::Read>::read', '<&std::fs::File as std::io::Read>::read')
def m_read(I, st, c):
    st = st.copy()
    cell, path = ref_of(I, st, c.args[0])
    v = I.read(st, cell, path)
    while v[0] == 'bx':
        path = path + ('*',)
        v = I.read(st, cell, path)
    if v[0] == 'm' and v[1] in ('rd', 'file'):
        return rd_read(I, st, c, cell, path, c.args[1])
    return None

@prefix('alloc::io::impls::<impl std::io::Read for std::boxed::Box<', 'std::io::impls::<impl std::io::Read for std::boxed::Box<')
def m_box_read(I, st, c):
    if c.idef.endswith('>::read'):
        return m_read(I, st, c)
    return None

@model('std::fs::File::open')
def m_open(I, st, c):
    ct = content(I, st, c.args[0])
    s = st.copy()
    oid = ('file', ct)
    f = mk_reader(I, oid, kind='file')
    return [(ok(I, c, f), s), (err(I, c, 'open'), st.copy())]

@model('std::fs::File::metadata', 'std::fs::metadata')
def m_metadata(I, st, c):
    v = deref(I, st, c.args[0])
    if v[0] == 'm' and v[1] == 'file':
        m = ('m', 'meta', v[2])
    elif v[0] in ('s', 'v'):
        m = ('m', 'meta', ('q', ('rdsrc', ('file', I.content_of(st, v)))))
    else:
        return None
    return [(ok(I, c, m), st.copy()), (err(I, c, 'metadata'), st.copy())]

@model('std::fs::Metadata::len')
def m_metalen(I, st, c):
    v = deref(I, st, c.args[0])
    if v[0] == 'm' and v[1] == 'meta':
        st = st.copy()
        return [(('i', rd_len(st, v[2][1])), st)]
    return None

# ------------------------------------------------------------------ cursors
def newcur(I, st, inner):
    cid = ('cur', fresh_id('c'))
    ct = I.content_of(st, inner)
    if len(ct) == 1 and ct[0][0] == 'S':
        cid = None
    return cid

@model('std::io::Cursor::<T>::new')
def m_cursor_new(I, st, c):
    st = st.copy()
    return [(('a', c.dty, 0, (c.args[0], ('i', ZERO))), st)]

@model('std::io::Cursor::<T>::get_ref', 'std::io::Cursor::<T>::get_mut')
def m_cursor_ref(I, st, c):
    st = st.copy()
    cell, path = ref_of(I, st, c.args[0])
    I.read(st, cell, path + (0,))
    return [(('r', cell, path + (0,)), st)]

@model('std::io::Cursor::<T>::into_inner')
def m_cursor_into(I, st, c):
    v = c.args[0]
    return [(v[3][0], st)] if v[0] == 'a' else None

@model('std::io::Cursor::<T>::position')
def m_cursor_pos(I, st, c):
    v = deref(I, st, c.args[0])
    return [(v[3][1], st)] if v[0] == 'a' else None

@model('std::io::Cursor::<T>::set_position')
def m_cursor_setpos(I, st, c):
    st = st.copy()
    cell, path = ref_of(I, st, c.args[0])
    I.write(st, cell, path + (1,), c.args[1])
    return [(I.models.unit(c), st)]

@prefix('alloc::io::cursor::<impl std::io::Read for std::io::Cursor<', 'std::io::cursor::<impl std::io::Read for std::io::Cursor<',
        'core::io::cursor::<impl std::io::Read for std::io::Cursor<')
def m_cursor_read(I, st, c):
    if not c.idef.endswith('::read'):
        return None
    st = st.copy()
    cell, path = ref_of(I, st, c.args[0])
    v = I.read(st, cell, path)
    if v[0] != 'a':
        return None
    ct = content(I, st, v[3][0])
    pos = v[3][1][1]
    dst = c.args[1]
    cap = clen(I.content_of(st, dst))
    out = []
    # reading at or beyond the end yields 0 bytes
    for s in I.assume(st.copy(), ('le', clen(ct) - pos), True):
        out.append((ok(I, c, ('i', ZERO)), s))
    for s0 in I.assume(st.copy(), ('le', pos + 1 - clen(ct)), True):
        for n, s in split_min(I, s0, clen(ct) - pos, cap):
            v = I.read(s, cell, path)
            ct2 = content(I, s, v[3][0])
            p2 = v[3][1][1]
            if len(ct2) == 1:
                part = I.cslice(s, ct2, p2, p2 + n)
            else:
                w = models.view_of(I, s, ct2)
                part = ccat((('S', w[0][1], p2, p2 + n),))
            copy_out(I, s, dst, part, n)
            I.write(s, cell, path + (1,), ('i', p2 + n))
            out.append((ok(I, c, ('i', n)), s))
    return out

def expand_views(I, st, ct):
    """Replace complete views by what they show."""
    out = []
    for x in ct:
        d = st.cells.get(('g', 'def', x[1])) if x[0] == 'S' else None
        if d is not None and st.ent_eq(x[2], ZERO) and st.ent_eq(x[3], clen(d[1])):
            out.append(d[1])
        elif x[0] == 'S' and st.ent_eq(x[2], x[3]):
            continue
        else:
            out.append((x,))
    return ccat(*out)

# ------------------------------------------------------------------ writers
@model('alloc::io::impls::<impl std::io::Write for std::vec::Vec<u8, A>>::write_all', 'std::io::impls::<impl std::io::Write for std::vec::Vec<u8, A>>::write_all',
       'alloc::io::impls::<impl std::io::Write for std::vec::Vec<u8>>::write_all', 'std::io::impls::<impl std::io::Write for std::vec::Vec<u8>>::write_all')
def m_vec_write_all(I, st, c):
    st = st.copy()
    append(I, st, c.args[0], content(I, st, c.args[1]))
    return [(ok(I, c, unit_of(I, I.models.vtype(c.dty, 'Ok'))), st)]

@prefix('alloc::io::impls::<impl std::io::Write for std::vec::Vec<u8', 'std::io::impls::<impl std::io::Write for std::vec::Vec<u8')
def m_vec_write(I, st, c):
    m = c.idef.rsplit('::', 1)[1]
    st = st.copy()
    if m == 'write_all':
        return m_vec_write_all(I, st, c)
    if m == 'write':
        ct = content(I, st, c.args[1])
        append(I, st, c.args[0], ct)
        return [(ok(I, c, ('i', clen(ct))), st)]
    if m == 'flush':
        return [(ok(I, c, unit_of(I, I.models.vtype(c.dty, 'Ok'))), st)]
    return None

@prefix('std::io::impls::<impl std::io::Write for &mut W>::', 'alloc::io::impls::<impl std::io::Write for &mut W>::', 'std::io::impls::<impl std::io::Write for std::boxed::Box<W>>::',
        'alloc::io::impls::<impl std::io::Write for std::boxed::Box<W>>::')
def m_wfwd(I, st, c):
    st = st.copy()
    v = I.read(st, c.args[0][1], c.args[0][2]) if c.args[0][0] == 'r' else c.args[0]
    method = c.idef.rsplit('::', 1)[1]
    ty = I.p.types[I.p.types[c.atys[0]]['to']]['to']
    if v[0] == 'bx':
        v = ('r', c.args[0][1], c.args[0][2] + ('*',))
    fn = I.models.find_impl(ty, 'std::io::Write', method)
    if fn is None:
        return None
    return I.call_value(st, ('fn', fn, None), [v] + c.args[1:], c, 'fwd')

# ------------------------------------------------------------------ paths, mime
def cpath(ct):
    """The path a (part of a) path content was derived from."""
    x = ct[0][1] if ct and ct[0][0] == 'S' else ct
    while isinstance(x, tuple) and len(x) == 2 and x[0] in ('file_name', 'extension', 'file_stem', 'parent'):
        x = x[1]
    return tuple(y[1] if isinstance(y, tuple) and len(y) > 1 else y for y in x) if isinstance(x, tuple) and x and isinstance(x[0], tuple) else x

@model('std::path::Path::file_name', 'std::path::Path::extension', 'std::path::Path::file_stem', 'std::path::Path::parent')
def m_file_name(I, st, c):
    ct = content(I, st, c.args[0])
    what = c.idef.rsplit('::', 1)[1]
    t = ctaint(ct)
    s2 = st.copy()
    s2.cells[('g', 'none', what, cpath(ct))] = ('gv', ct)
    return [(I.models.result(c.dty, 'Some', ('s', seq((what, ct), None, t))), st.copy()),
            (I.models.result(c.dty, 'None', None), s2)]

@model('std::ffi::OsStr::to_str', 'std::path::Path::to_str')
def m_to_str(I, st, c):
    ct = content(I, st, c.args[0])
    s2 = st.copy()
    s2.cells[('g', 'none', 'to_str', cpath(ct))] = ('gv', ct)
    return [(I.models.result(c.dty, 'Some', ('s', ct)), st.copy()),
            (I.models.result(c.dty, 'None', None), s2)]

# ------------------------------------------------------------------ random text
RAND = 'rand'

@prefix('rand::', '<rand::', 'rand_core::', '<rand_core::')
def m_rand(I, st, c):
    t = frozenset()
    for a in c.args:
        t = t | taint_of(I, st, a)
    if c.idef.endswith('thread_rng') or c.idef.endswith('rand::random') or c.idef.endswith('from_entropy') or 'OsRng' in c.idef:
        t = t | {'rand'}
    if 'Alphanumeric' in c.name or any(ty is not None and 'Alphanumeric' in I.p.types[ty]['s'] for ty in c.atys):
        t = t | {'alnum'}
    st = st.copy()
    if c.idef.endswith('sample_iter'):
        return [(('m', 'gen', ('o', fresh_id('el'), None, t)), st)]
    return [(I.mk(c.dty, fresh_id('rnd'), t), st)]

def gen_taint(I, st, c):
    t = frozenset()
    for a in c.args:
        t = t | taint_of(I, st, a)
    return t

def iter_models(I, st, c):
    m = c.defn.rsplit('::', 1)[1]
    a = c.args[0]
    if m == 'take' and c.args[1][0] == 'i':
        return [(('m', 'genn', taintval(gen_taint(I, st, c)), c.args[1]), st)]
    if m == 'map':
        f = c.args[1]
        inst = models.closure_inst(I, st, f)
        t = taint_of(I, st, a)
        n = None
        if a[0] == 'm' and a[1] == 'genn':
            n = a[3]
        elif a[0] == 'a' and I.p.types[a[1]]['name'].endswith('ops::Range'):
            n = ('i', a[3][1][1] - a[3][0][1])
        if inst is None or n is None:
            return None
        b = I.p.body(inst)
        if not b:
            return None
        et = b.locals[2] if b.argc >= 2 else None
        el = I.mk(et, fresh_id('el'), t) if et is not None else UNINIT
        res = I.call_value(st.copy(), f, [el], c, 'map')
        if res is None:
            return None
        out = []
        for rv, s in res:
            out.append((('m', 'genn', taintval(taint_of(I, s, rv)), n), s))
        return out
    if m == 'collect' and a[:2] == ('m', 'bytes') and I.p.bytes_owner(c.dty):
        return [(('v', a[2]), st)]
    if m == 'collect' and a[0] == 'm' and a[1] == 'genn' and I.p.bytes_owner(c.dty):
        t = taint_of(I, st, a)
        src = fresh_id('rand')
        n = a[3][1]
        return [(('v', seq(src, n, t)), st)]
    return None

def taintval(t):
    return ('o', fresh_id('t'), None, t)

for n in ('take', 'map', 'collect'):
    _old = TABLE.get('std::iter::Iterator::' + n)
    def mk_(n, old):
        def f(I, st, c):
            r = iter_models(I, st, c)
            if r is not None:
                return r
            return old(I, st, c) if old else None
        return f
    TABLE['std::iter::Iterator::' + n] = mk_(n, _old)

# ------------------------------------------------------------------ short lists
def lst(I, st, ref):
    cell, path = ref_of(I, st, ref)
    v = I.read(st, cell, path)
    return cell, path, v

def chain_model(name, f):
    old = TABLE.get(name)
    def g(I, st, c):
        r = f(I, st, c)
        if r is not None:
            return r
        return old(I, st, c) if old else None
    TABLE[name] = g

def l_new(I, st, c):
    t = I.p.types[c.dty]
    if I.models.lists and t['k'] == 'adt' and t['name'] in ('std::vec::Vec', 'std::collections::VecDeque') and not I.p.bytes_owner(c.dty):
        return [(('lst', c.dty, ()), st)]
    return None
for n in ('std::vec::Vec::<T>::new', 'std::vec::Vec::<T>::with_capacity', 'std::default::Default::default'):
    chain_model(n, l_new)

def l_push(I, st, c):
    st = st.copy()
    cell, path, v = lst(I, st, c.args[0])
    if v[0] != 'lst':
        return None
    if len(v[2]) >= 6:
        raise Stop('list of more than 6 elements')
    I.write(st, cell, path, ('lst', v[1], v[2] + (c.args[1],)))
    return [(I.models.unit(c), st)]
chain_model('std::vec::Vec::<T, A>::push', l_push)
chain_model('std::collections::VecDeque::<T, A>::push_back', l_push)

def l_pop(I, st, c):
    st = st.copy()
    cell, path, v = lst(I, st, c.args[0])
    if v[0] != 'lst':
        return None
    if not v[2]:
        return [(I.models.result(c.dty, 'None', None), st)]
    front = 'front' in c.idef
    x = v[2][0] if front else v[2][-1]
    I.write(st, cell, path, ('lst', v[1], v[2][1:] if front else v[2][:-1]))
    return [(I.models.result(c.dty, 'Some', x), st)]
chain_model('std::vec::Vec::<T, A>::pop', l_pop)
chain_model('std::collections::VecDeque::<T, A>::pop_front', l_pop)
chain_model('std::collections::VecDeque::<T, A>::pop_back', l_pop)

def l_len(I, st, c):
    v = deref(I, st, c.args[0])
    if v[0] != 'lst':
        return None
    if c.idef.endswith('is_empty'):
        return [(('b', len(v[2]) == 0), st)]
    return [(('i', Lin(len(v[2]))), st)]
for n in ('std::vec::Vec::<T, A>::len', 'std::vec::Vec::<T, A>::is_empty', 'core::slice::<impl [T]>::is_empty', 'core::slice::<impl [T]>::len'):
    chain_model(n, l_len)

def l_reverse(I, st, c):
    st = st.copy()
    cell, path, v = lst(I, st, c.args[0])
    if v[0] != 'lst':
        return None
    I.write(st, cell, path, ('lst', v[1], v[2][::-1]))
    return [(I.models.unit(c), st)]
chain_model('core::slice::<impl [T]>::reverse', l_reverse)

def l_insert(I, st, c):
    st = st.copy()
    cell, path, v = lst(I, st, c.args[0])
    if v[0] != 'lst' or not (c.args[1][0] == 'i' and c.args[1][1].is_const()):
        return None
    i = c.args[1][1].c
    I.write(st, cell, path, ('lst', v[1], v[2][:i] + (c.args[2],) + v[2][i:]))
    return [(I.models.unit(c), st)]
chain_model('std::vec::Vec::<T, A>::insert', l_insert)

def l_remove(I, st, c):
    st = st.copy()
    cell, path, v = lst(I, st, c.args[0])
    if v[0] != 'lst' or not (c.args[1][0] == 'i' and c.args[1][1].is_const()):
        return None
    i = c.args[1][1].c
    if i >= len(v[2]):
        I.models.on_panic(I, st, 'index', 'remove')
        return []
    x = v[2][i]
    I.write(st, cell, path, ('lst', v[1], v[2][:i] + v[2][i + 1:]))
    return [(x, st)]
chain_model('std::vec::Vec::<T, A>::remove', l_remove)

def l_clear(I, st, c):
    st = st.copy()
    cell, path, v = lst(I, st, c.args[0])
    if v[0] != 'lst':
        return None
    I.write(st, cell, path, ('lst', v[1], ()))
    return [(I.models.unit(c), st)]
chain_model('std::vec::Vec::<T, A>::clear', l_clear)

def l_drain(I, st, c):
    st = st.copy()
    cell, path, v = lst(I, st, c.args[0])
    if v[0] != 'lst' or c.args[1][0] != 'a' or not I.p.types[c.args[1][1]]['name'].endswith('RangeFull'):
        return None
    I.write(st, cell, path, ('lst', v[1], ()))
    return [(('m', 'lsti', v), st)]
chain_model('std::vec::Vec::<T, A>::drain', l_drain)

def l_into_iter(I, st, c):
    a = c.args[0]
    v = a
    if a[0] == 'lst':
        return [(('m', 'lsti', a), st)]
    if a[0] == 'r':
        v = I.read(st, a[1], a[2])
        if v[0] == 'lst':
            return [(('m', 'lsti', ('lst', v[1], tuple(('r', a[1], a[2] + (i,)) for i in range(len(v[2]))))), st)]
    return None
chain_model('std::iter::IntoIterator::into_iter', l_into_iter)
chain_model('core::slice::<impl [T]>::iter', l_into_iter)
chain_model('core::slice::<impl [T]>::iter_mut', l_into_iter)

def l_at(I, st, c):
    a = c.args[0]
    while a[0] == 'r':
        v = I.read(st, a[1], a[2])
        if v[0] != 'r':
            break
        a = v
    if a[0] != 'r' or v[0] != 'lst':
        return None
    m = c.idef.rsplit('::', 1)[1]
    n = len(v[2])
    if m.startswith('last'):
        i = n - 1
    elif m.startswith('first'):
        i = 0
    elif len(c.args) > 1 and c.args[1][0] == 'i' and c.args[1][1].is_const():
        i = c.args[1][1].c
    else:
        return None
    if not 0 <= i < n:
        return [(I.models.result(c.dty, 'None', None), st)]
    return [(I.models.result(c.dty, 'Some', ('r', a[1], a[2] + (i,))), st)]
for n in ('last', 'last_mut', 'first', 'first_mut', 'get', 'get_mut'):
    chain_model('core::slice::<impl [T]>::' + n, l_at)

def l_extend(I, st, c):
    a = c.args[1]
    xs = a[2][2] if a[:2] == ('m', 'lsti') else a[2] if a[0] == 'lst' else None
    st = st.copy()
    cell, path, v = lst(I, st, c.args[0])
    if v[0] != 'lst' or xs is None:
        return None
    I.write(st, cell, path, ('lst', v[1], v[2] + tuple(xs)))
    return [(I.models.unit(c), st)]
chain_model('std::iter::Extend::extend', l_extend)

def l_enumerate(I, st, c):
    a = c.args[0]
    if a[:2] == ('m', 'lsti'):
        return [(('m', 'lsti', ('lst', 'enum', tuple(('a', None, 0, (('i', Lin(i)), x)) for i, x in enumerate(a[2][2])))), st)]
    return None
chain_model('std::iter::Iterator::enumerate', l_enumerate)

def l_truncate(I, st, c):
    st = st.copy()
    cell, path, v = lst(I, st, c.args[0])
    if v[0] != 'lst' or not (c.args[1][0] == 'i' and c.args[1][1].is_const()):
        return None
    I.write(st, cell, path, ('lst', v[1], v[2][:c.args[1][1].c]))
    return [(I.models.unit(c), st)]
chain_model('std::vec::Vec::<T, A>::truncate', l_truncate)

def l_rev(I, st, c):
    a = c.args[0]
    if a[0] == 'm' and a[1] == 'lsti':
        return [(('m', 'lsti', ('lst', a[2][1], a[2][2][::-1])), st)]
    return None
chain_model('std::iter::Iterator::rev', l_rev)

def l_next(I, st, c):
    st = st.copy()
    cell, path, v = lst(I, st, c.args[0])
    if v[0] != 'm' or v[1] != 'lsti':
        return None
    xs = v[2][2]
    if not xs:
        return [(I.models.result(c.dty, 'None', None), st)]
    I.write(st, cell, path, ('m', 'lsti', ('lst', v[2][1], xs[1:])))
    return [(I.models.result(c.dty, 'Some', xs[0]), st)]
chain_model('std::iter::Iterator::next', l_next)

models.Models.lists = False

@model('<std::io::ErrorKind as std::cmp::PartialEq>::eq', '<std::io::ErrorKind as std::cmp::PartialEq>::ne')
def m_kind_eq(I, st, c):
    a, b = deref(I, st, c.args[0]), deref(I, st, c.args[1])
    neq = c.idef.endswith('::ne')
    if a[0] == 'a' and b[0] == 'a':
        return [(('b', (a[2] == b[2]) != neq), st)]
    o, k = (a, b) if a[0] == 'o' else (b, a)
    if o[0] == 'o' and k[0] == 'a':
        oid = o[1]
        name = I.p.types[k[1]]['variants'][k[2]]['name']
        if isinstance(oid, tuple) and len(oid) == 3 and oid[0] == 'ekind' and name in oid[2]:
            return [(('b', neq), st)]
    return [(('b', ('u', fresh_id('kind'))), st)]

# ------------------------------------------------------------------ open options and paths
@model('std::fs::OpenOptions::new', 'std::fs::File::options')
def m_oo_new(I, st, c):
    return [(('a', c.dty, 0, (('q', ''),)), st)]

@model('<std::fs::OpenOptions as std::clone::Clone>::clone')
def m_oo_clone(I, st, c):
    return [(deref(I, st, c.args[0]), st)]

@prefix('std::fs::OpenOptions::')
def m_oo_set(I, st, c):
    op = c.idef.split('::<')[0].rsplit('::', 1)[1]
    if op not in ('read', 'write', 'append', 'truncate', 'create', 'create_new'):
        return None
    st = st.copy()
    v = deref(I, st, c.args[0])
    if v[0] != 'a' or c.args[1][0] != 'b':
        return None
    cell, path = ref_of(I, st, c.args[0])
    fl = set(v[3][0][1].split(',')) - {''}
    b = c.args[1][1]
    if b is True:
        fl.add(op)
    elif b is False:
        fl.discard(op)
    else:
        fl.add(op + '?')
    I.write(st, cell, path, ('a', v[1], 0, (('q', ','.join(sorted(fl))),)))
    return [(('r', cell, path), st)]

@model('std::env::temp_dir')
def m_tempdir(I, st, c):
    return [(('v', seq('tempdir')), st)]

@model('std::path::Path::join')
def m_join(I, st, c):
    a, b = content(I, st, c.args[0]), content(I, st, c.args[1])
    return [(('v', ccat(a, (('L', b'/'),), b)), st)]

@model('std::path::PathBuf::push')
def m_push(I, st, c):
    st = st.copy()
    append(I, st, c.args[0], ccat((('L', b'/'),), content(I, st, c.args[1])))
    return [(I.models.unit(c), st)]

@model('std::path::Path::with_file_name')
def m_with_fn(I, st, c):
    a, b = content(I, st, c.args[0]), content(I, st, c.args[1])
    return [(('v', ccat(seq(('parent', a), None, ctaint(a)), (('L', b'/'),), b)), st)]

@prefix('std::boxed::Box::<')
def m_box_uninit(I, st, c):
    if c.idef.endswith('::new_uninit'):
        return [(('bx', UNINIT), st)]
    return None
