"""Monitor base class: observation markers of the harness."""
import models
from ai import fresh_id

class Base:
    """Monitor interface with neutral defaults."""
    def __init__(self):
        self.counts = {}

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def lookup(self, c):
        n = c.idef
        if not n.startswith('mp_harness::'):
            return self.lookup_other(c)
        n = n.rsplit('::', 1)[1]
        if n.startswith('obs_'):
            f = getattr(self, n, None)
            def g(I, st, c):
                st = st.copy()
                if f is not None:
                    self.count(n)
                    r = f(I, st, c)
                    if r is not None:
                        return r
                return [(('a', c.dty, 0, ()), st)]
            return g
        if n.startswith('ext_'):
            f = getattr(self, n, None)
            if f is not None:
                return lambda I, st, c: f(I, st.copy(), c)
            return None
        if n == 'fmt_bytes':
            from models import deref
            def fb(I, st, c):
                v = deref(I, st, c.args[0])
                return [(('s', v[2] if v[0] == 'm' and v[1] == 'fmt' else I.content_of(st, v)), st)]
            return fb
        if n.startswith('nondet_'):
            return lambda I, st, c: [(I.mk(c.dty, fresh_id('nd')), st)]
        return None

    def lookup_other(self, c):
        return None

    def key_extra(self, st): return None
    def on_unchecked_utf8(self, I, st, ct): pass
    def on_agg(self, I, st, ty, variant, vals): pass
    def on_noutf8(self, st, src): pass
    def on_unknown(self, I, st, c): pass

    def on_panic(self, I, st, kind, msg):
        import os
        if os.environ.get('AI_PANIC'):
            print('PANIC', kind, msg, I.where()[:2])
            for k, v in st.cells.items():
                if k[0] != 'kc':
                    print('   ', k, v)
            print('   ', st.cons, st.facts)
        I.report('panic', (I.site_fn(), kind), '%s: %s' % (kind, msg), st)

    def on_drop(self, I, st, v, ty): return [st]
    def content_join(self, *a): return None
    def content_incl(self, *a): return None
    def new_source(self, I, c): return models.new_source(I, models.REQ)
    def on_consume(self, *a): pass
    def on_vec_push(self, *a): pass

