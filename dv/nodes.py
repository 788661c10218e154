"""Environment contracts for node-based containers: every allocated block is one node, identified by its
address; a node's element lives at node + Lay.voff."""
import z3
from .sym import *
from .elem import *
from .elem import ENV as _ENV


class Lay:
    size, voff = 24, 16


class NAlloc(Alloc):
    def pre(self, X, s, a):
        n = z3.simplify(X.canon_u(s, a[2]) * flat(a[3]))
        return [('allocates exactly one node', meq(n, z3.IntVal(Lay.size)), 'lifetime')]

    def post(self, o, s, a, case):
        id_, err, n, size = a
        if case == 'fail':
            err_fail(o, s, err)
            return o.choose('p', None)
        err_ok(o, s, err)
        b = o.choose('blk', None)
        o.ensure(And(b > 0, b + Lay.size < AMAX, Not(s.m(ISB)(b)), b % 8 == 0, Not(s.m(LIVE)(b + Lay.voff))))
        o.X.w.fresh_node(o, s, b)
        s.up(ISB, b, True)
        s.up(BOWN, b, flat(id_))
        return b


class NDealloc(Dealloc):
    def pre(self, X, s, a):
        id_, p, n, size = a
        p = flat(p)
        sz = z3.simplify(X.canon_u(s, n) * flat(size))
        nul = meq(p, 0)
        return [('block was allocated and not yet freed', Or(nul, s.m(ISB)(p)), 'lifetime'),
                ('block freed with its allocated size', Or(nul, meq(sz, z3.IntVal(Lay.size))), 'lifetime'),
                ('block freed by the allocator that made it', Or(nul, s.m(BOWN)(p) == flat(id_)), 'allocator'),
                ('no live element in freed block', Or(nul, Not(s.m(LIVE)(p + Lay.voff))), 'lifetime')]

    def post(self, o, s, a, case):
        p = flat(a[1])
        nz = Not(meq(p, 0))
        if z3.is_false(nz):
            return None
        s.setm(ISB, s.m(ISB).set(p, ite(nz, FALSE, s.m(ISB)(p))))
        return None


NENV = [NAlloc(), NDealloc()] + [x for x in _ENV if not isinstance(x, (Alloc, Dealloc))]


class NodeWorld(ElemWorld):
    auto_last = True
    by_node = False
    ghost_keys = ()
    linkst = ()

    def raw_slot(self, s, p):
        return Or(p < 0, s.m(ISB)(p - Lay.voff))

    def frame(self, X, exp, fin):
        for g in self.hints(X, exp, fin):
            X.hint(fin, g)
        for k in sorted(set(exp.maps) | set(fin.maps), key=str):
            if k in self.ghost_keys:
                continue
            a, b = exp.m(k), fin.m(k)
            if a is b:
                continue
            # element maps: by node
            off = Lay.voff if self.by_node and k == LIVE else 0
            yield ('frame %s' % (k if isinstance(k, str) else '%s.%d' % (k[1].split('::')[-1], k[2])),
                   FA(list(a.dom), lambda *j, a=a, b=b, k=k: (lambda j: self.rel2(X, exp, fin, k, j, a(*j) == b(*j)))(tuple(x + off for x in j) if off else j)),
                   self.map_tag(k))
        for c, (v, sz) in exp.cells.items():
            if c in fin.cells and c[0] in self.param_cells(exp):
                w = fin.cells[c][0]
                if repr(v) != repr(w):
                    yield ('frame cell', meq(flat(v), flat(w)), 'err')

    def hints(self, X, exp, fin):
        return []

    def rel2(self, X, exp, fin, key, idx, f):
        if isinstance(key, tuple) and key[1] in self.linkst:
            return Imp(self.linked(exp, idx[0]), f)
        return self.relevant(X, fin, key, idx, f)
