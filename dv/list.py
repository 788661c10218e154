"""Contracts for nestl::impl::list.

Ghost view of a list with header node h:  LEN(h), AT(h, i) the node at position i (AT(h,-1) = AT(h,LEN) = h),
OWN(n) the header of the list a node is linked into (0: none, OWN(h) = h), IDX(n) its position (IDX(h) = LEN)."""
import re, z3
from .sym import *
from .spec import Spec, LoopSpec
from .loops import NoInv, quick
from .elem import *
from .nodes import *

LT_ = '%class.nestl::impl::list'
NB = '%struct.nestl::impl::list_node_base'
LN = '%struct.nestl::impl::list_node'
AT_ = '%struct.A'
OWN, IDX, ATG, LEN = 'own', 'idx', 'at', 'len'
LMAX = 1 << 58
LOCLIM = -(1 << 60)


class Ly:
    nx, pv, hoff, aoff = 0, 1, 8, 0


def NX(s, n):
    return s.fld(NB, Ly.nx, n)


def PV(s, n):
    return s.fld(NB, Ly.pv, n)


def hdr(l):
    return z3.simplify(flat(l) + Ly.hoff)


def al(s, l):
    return s.fld(AT_, 0, z3.simplify(flat(l) + Ly.aoff))


def wf(s, h, alloc=None, cond=TRUE):
    """the nodes linked from header h form a proper doubly linked ring of owned live nodes"""
    own, idx, at, ln = s.m(OWN), s.m(IDX), s.m(ATG), s.m(LEN)
    lv, isb = s.m(LIVE), s.m(ISB)
    n_ = ln(h)
    ring = And(h != 0, n_ >= 0, n_ < LMAX, own(h) == h, idx(h) == n_, at(h, n_) == h, at(h, -1) == h,
               NX(s, h) == at(h, 0), PV(s, h) == at(h, n_ - 1))
    q1 = FA([I], lambda i: Imp(And(cond, 0 <= i, i < n_), And(own(at(h, i)) == h, idx(at(h, i)) == i, at(h, i) != h)),
            lambda i: [at.root()(h, i)])
    on = lambda n: And(cond, own(n) == h, n != h)
    q2 = FA([I], lambda n: Imp(on(n), And(0 <= idx(n), idx(n) < n_, at(h, idx(n)) == n, n > 0, isb(n), lv(n + Lay.voff))),
            lambda n: [rt(own, n), rt(idx, n)])
    q3 = FA([I], lambda n: Imp(on(n), NX(s, n) == at(h, idx(n) + 1)), lambda n: [rt(s.m(('F', NB, Ly.nx)), n)])
    q4 = FA([I], lambda n: Imp(on(n), PV(s, n) == at(h, idx(n) - 1)), lambda n: [rt(s.m(('F', NB, Ly.pv)), n)])
    out = [('header ring', Imp(cond, ring), 'contents'), ('positions map to nodes', q1, 'contents'), ('nodes are live and allocated', q2, 'lifetime'),
           ('next links', q3, 'contents'), ('prev links', q4, 'contents')]
    if alloc is not None:
        bo = s.m(BOWN)
        out.append(('nodes belong to the allocator of the list', FA([I], lambda n: Imp(on(n), bo(n) == alloc), lambda n: [rt(own, n), rt(bo, n)]), 'allocator'))
    return out


def wfl(s, l, alloc=True):
    return wf(s, hdr(l), al(s, l) if alloc else None)


def world_facts(s):
    own, isb = s.m(OWN), s.m(ISB)
    s.assume(FA([I], lambda n: And(Or(own(n) >= 0, own(n) < LOCLIM), Imp(And(n <= 0, n >= LOCLIM), own(n) == 0),
                                   Or(own(n) == 0, own(n) == n, isb(n))), lambda n: [rt(own, n)]))


def sym_hdr(s, name):
    p = z3.Int(Fresh.name(name))
    s.assume(Or(And(p > 0, p < AMAX), p < LOCLIM))
    return p


# ------------------------------------------------------------------ ghost transformations
def relink(s, hs):
    """the link fields of every node of the lists hs follow the ghost positions"""
    own, idx, at = s.m(OWN), s.m(IDX), s.m(ATG)
    inh = lambda n: Or(*[own(n) == h for h in hs])
    pack(s)
    own, idx, at = s.m(OWN), s.m(IDX), s.m(ATG)
    s.setm(('F', NB, Ly.nx), s.m(('F', NB, Ly.nx)).define(
        lambda p, n: ite(inh(n), ite(own(n) == n, at(n, 0), at(own(n), idx(n) + 1)), p(n))))
    s.setm(('F', NB, Ly.pv), s.m(('F', NB, Ly.pv)).define(
        lambda p, n: ite(inh(n), at(own(n), idx(n) - 1), p(n))))
    pack(s)


def pack(s):
    """name the redefined ghost and link maps (definitional axioms keep the terms small)"""
    for k in (OWN, IDX, ATG, ('F', NB, Ly.nx), ('F', NB, Ly.pv)):
        m = s.m(k)
        if m.prev is not None and m.u[0] == 'fn':
            new = Map.new(m.name, m.dom, m.rng)
            s.assume(FA(list(m.dom), lambda *a, m=m, new=new: new(*a) == m(*a), lambda *a, new=new: [new(*a)]))
            s.maps[k] = new


def g_insert(s, h, p, k, isnew, newidx, new, link=True):
    """k unlinked nodes new(0..k-1) are linked in at position p"""
    own, idx, at, ln = s.m(OWN), s.m(IDX), s.m(ATG), s.m(LEN)
    s.setm(OWN, own.define(lambda q, n: ite(isnew(n), h, q(n))))
    s.setm(IDX, idx.define(lambda q, n: ite(isnew(n), p + newidx(n), ite(And(own(n) == h, q(n) >= p), q(n) + k, q(n)))))
    s.setm(ATG, at.define(lambda q, g, i: ite(g == h, ite(i < p, q(h, i), ite(i < p + k, new(i - p), q(h, i - k))), q(g, i))))
    s.setm(LEN, ln.set(h, ln(h) + k))
    if link:
        relink(s, [h])


def g_insert1(s, h, p, node, link=True):
    g_insert(s, h, p, z3.IntVal(1), lambda n: meq(n, node), lambda n: z3.IntVal(0), lambda i: node, link)


def g_erase(s, h, p, k):
    """nodes at positions p..p+k-1 are unlinked"""
    own, idx, at, ln = s.m(OWN), s.m(IDX), s.m(ATG), s.m(LEN)
    gone = lambda n: And(own(n) == h, n != h, p <= idx(n), idx(n) < p + k)
    s.setm(OWN, own.define(lambda q, n: ite(gone(n), z3.IntVal(0), q(n))))
    s.setm(IDX, idx.define(lambda q, n: ite(And(own(n) == h, Or(n == h, q(n) >= p + k)), q(n) - k, q(n))))
    s.setm(ATG, at.define(lambda q, g, i: ite(g == h, ite(i < p, q(h, i), q(h, i + k)), q(g, i))))
    s.setm(LEN, ln.set(h, ln(h) - k))
    relink(s, [h])
    return gone


def g_free(s, gone):
    s.setm(ISB, s.m(ISB).define(lambda q, n: ite(gone(n), FALSE, q(n))))
    s.setm(LIVE, s.m(LIVE).define(lambda q, a: ite(gone(a - Lay.voff), FALSE, q(a))))


def g_move(s, h1, p, h2, f, k):
    """positions f..f+k-1 of list h2 move before position p of the other list h1"""
    own, idx, at, ln = s.m(OWN), s.m(IDX), s.m(ATG), s.m(LEN)
    mv = lambda n: And(own(n) == h2, n != h2, f <= idx(n), idx(n) < f + k)
    s.setm(OWN, own.define(lambda q, n: ite(mv(n), h1, q(n))))
    s.setm(IDX, idx.define(lambda q, n: ite(mv(n), q(n) - f + p, ite(And(own(n) == h1, q(n) >= p), q(n) + k,
                                                                     ite(And(own(n) == h2, Or(n == h2, q(n) >= f + k)), q(n) - k, q(n))))))
    s.setm(ATG, at.define(lambda q, g, i: ite(g == h1, ite(i < p, q(h1, i), ite(i < p + k, q(h2, i - p + f), q(h1, i - k))),
                                              ite(g == h2, ite(i < f, q(h2, i), q(h2, i + k)), q(g, i)))))
    l1, l2 = ln(h1), ln(h2)
    s.setm(LEN, ln.set(h1, l1 + k).set(h2, l2 - k))
    relink(s, [h1, h2])


def g_rotate(s, h, p, f, k, right):
    """positions f..f+k-1 of list h move before position p (p <= f or p >= f+k) of the same list"""
    idx, at, own = s.m(IDX), s.m(ATG), s.m(OWN)
    if right:
        # the elements between the range and the position move to the front of the range instead
        p, f, k = f, f + k, p - f - k
    new_idx = lambda j: ite(And(f <= j, j < f + k), j - f + p, ite(And(p <= j, j < f), j + k, j))
    old_idx = lambda j: ite(And(p <= j, j < p + k), j - p + f, ite(And(p + k <= j, j < f + k), j - k, j))
    s.setm(IDX, idx.define(lambda q, n: ite(And(own(n) == h, n != h), new_idx(q(n)), q(n))))
    s.setm(ATG, at.define(lambda q, g, i: ite(g == h, q(h, old_idx(i)), q(g, i))))
    relink(s, [h])


def g_swap(s, h1, h2):
    own, idx, at, ln = s.m(OWN), s.m(IDX), s.m(ATG), s.m(LEN)
    l1, l2 = ln(h1), ln(h2)
    s.setm(OWN, own.define(lambda q, n: ite(Or(n == h1, n == h2), q(n), ite(own(n) == h1, h2, ite(own(n) == h2, h1, q(n))))))
    s.setm(IDX, idx.set(h1, l2).set(h2, l1))
    s.setm(ATG, at.define(lambda q, g, i: ite(g == h1, ite(And(0 <= i, i < l2), q(h2, i), h1),
                                              ite(g == h2, ite(And(0 <= i, i < l1), q(h1, i), h2), q(g, i)))))
    s.setm(LEN, ln.set(h1, l2).set(h2, l1))
    relink(s, [h1, h2])


def new_node(o, s, l, node, val):
    """node has just been allocated by the allocator of l and holds a live element"""
    o.ensure(And(node > 0, Not(s.m(ISB)(node)), s.m(OWN)(node) == 0, Not(s.m(LIVE)(node + Lay.voff))), 'a fresh node', 'lifetime')
    s.up(ISB, node, True)
    s.up(BOWN, node, al(s, l))
    s.up(LIVE, node + Lay.voff, True)
    s.up(VAL, node + Lay.voff, val)


# ------------------------------------------------------------------ contracts on node primitives
class NSpec(Spec):
    internal = True
    na = 2

    def setup(self, X, s, fn):
        world_facts(s)
        return [sym_hdr(s, 'n') for _ in range(self.na)]


class Inject(NSpec):
    short = 'list_node_base::inject'
    pattern = r'nestl::impl::list_node_base::inject\(nestl::impl::list_node_base\*\)'

    def pre(self, X, s, a):
        n, p = flat(a[0]), flat(a[1])
        own = s.m(OWN)
        return [('node is unlinked', And(own(n) == 0, s.m(ISB)(n), n > 0, n != p, s.m(LIVE)(n + Lay.voff), NX(s, n) == n, PV(s, n) == n), 'contents'),
                ('position is linked', And(own(p) != 0, Or(own(p) == p, p != own(p))), 'contents')] + wf(s, own(p))

    def post(self, o, s, a, case):
        n, p = flat(a[0]), flat(a[1])
        g_insert1(s, s.m(OWN)(p), s.m(IDX)(p), n)


class Remove(NSpec):
    short = 'list_node_base::remove'
    pattern = r'nestl::impl::list_node_base::remove\(\)'
    na = 1

    def pre(self, X, s, a):
        n = flat(a[0])
        own = s.m(OWN)
        return [('node is linked', And(own(n) != 0, own(n) != n), 'contents')] + wf(s, own(n))

    def post(self, o, s, a, case):
        n = flat(a[0])
        h, p = s.m(OWN)(n), s.m(IDX)(n)
        g_erase(s, h, p, z3.IntVal(1))


def ens_wf(o, s, *hs):
    for h in hs:
        for n, f, t in wf(s, h):
            o.ensure(f, 'afterwards: ' + n, t)


class Transfer(NSpec):
    short = 'list_node_base::transfer'
    pattern = r'nestl::impl::list_node_base::transfer\('
    na = 3

    def info(self, s, a):
        p, f, l = (flat(x) for x in a)
        own, idx = s.m(OWN), s.m(IDX)
        return p, f, l, own(p), own(f), idx(p), idx(f), idx(l) - idx(f)

    def pre(self, X, s, a):
        p, f, l, h1, h2, ip, fi, k = self.info(s, a)
        return [('position is linked', h1 != 0, 'contents'), ('range is linked', And(h2 != 0, f != h2, s.m(OWN)(l) == h2, k > 0), 'contents'),
                ('position is not inside the range', Or(h1 != h2, ip <= fi, ip >= fi + k), 'contents'),
                ('position is not the start of the range', p != f, 'contents')] + wf(s, h1) + wf(s, h2) + \
               [('lists are not too long', Or(h1 == h2, s.m(LEN)(h1) + s.m(LEN)(h2) < LMAX), 'overflow')]

    def cases(self, X, s, a):
        p, f, l, h1, h2, ip, fi, k = self.info(s, a)
        c = []
        if not X.entails(s, h1 == h2):
            c.append('other list')
        if not X.entails(s, h1 != h2):
            c += ['same list, left', 'same list, right']
        return c

    def post(self, o, s, a, case):
        p, f, l, h1, h2, ip, fi, k = self.info(s, a)
        if case == 'other list':
            o.ensure(h1 != h2, 'lists differ', 'case')
            g_move(s, h1, ip, h2, fi, k)
            ens_wf(o, s, h1, h2)
        else:
            right = case == 'same list, right'
            o.ensure(And(h1 == h2, ip >= fi + k if right else ip < fi), 'same list', 'case')
            g_rotate(s, h1, ip, fi, k, right)
            ens_wf(o, s, h1)


class NSwap(NSpec):
    short = 'list_node_base::swap'
    pattern = r'nestl::impl::list_node_base::swap\('
    variants = ['distinct', 'self']

    def setup(self, X, s, fn):
        a = NSpec.setup(self, X, s, fn)
        if self.variant == 'self':
            a[1] = a[0]
        return a

    def pre(self, X, s, a):
        h1, h2 = flat(a[0]), flat(a[1])
        if h1.eq(h2):
            return wf(s, h1)
        return [('distinct headers', h1 != h2, 'contents')] + wf(s, h1) + wf(s, h2)

    def post(self, o, s, a, case):
        h1, h2 = flat(a[0]), flat(a[1])
        if not h1.eq(h2):
            g_swap(s, h1, h2)


# ------------------------------------------------------------------ public operations
class LSpec(Spec):
    """args letters: v list, o other list, w raw memory for a list, e err, n count, x element, p/q/r positions, a allocator, f/l element range"""
    internal = False
    entry = None
    args = ''

    def matches(self, X, name, dem):
        return name == '@' + self.entry if self.entry else Spec.matches(self, X, name, dem)

    def A(self, a):
        return {ch: (x if ch == 'e' else flat(x)) for ch, x in zip(self.args, a)}

    def setup(self, X, s, fn):
        world_facts(s)
        out = []
        for ch in self.args:
            if ch == 'e':
                out.append(new_err(X, s))
            elif ch == 'n':
                n = z3.Int(Fresh.name('n'))
                s.assume(And(n >= 0, n < 1 << 64))
                out.append(n)
            elif ch == '*':
                aid = s.new_cell(PTR_, 'out')
                s.cells[(aid, 0)] = (fresh_int('out'), 8)
                out.append(LP(aid, 0))
            else:
                out.append(sym_ptr(s, ch))
        if getattr(self, 'variant', None) == 'self':
            out[self.args.index('o')] = out[self.args.index('v')]
        return out

    def pre(self, X, s, a):
        d = self.A(a)
        out = []
        if 'e' in d:
            out.append(('err is clear', meq(errv(s, d['e']), 0), 'err'))
        for ch in 'vo':
            if ch in d:
                out += wfl(s, d[ch])
        if 'v' in d and 'o' in d and not d['v'].eq(d['o']):
            out.append(('distinct lists', d['v'] != d['o'], 'contents'))
            out.append(('lists are not too long', s.m(LEN)(hdr(d['v'])) + s.m(LEN)(hdr(d['o'])) < LMAX, 'overflow'))
        if 'w' in d:
            # ghost state of raw memory is free: an empty list that is not linked yet
            h = hdr(d['w'])
            own, at = s.m(OWN), s.m(ATG)
            out.append(('raw memory', And(own(h) == h, s.m(LEN)(h) == 0, s.m(IDX)(h) == 0), 'lifetime'))
            out.append(('raw memory', FA([I], lambda n: Or(own(n) != h, n == h), lambda n: [rt(own, n)]), 'lifetime'))
            out.append(('raw memory', FA([I], lambda i: at(h, i) == h, lambda i: [at.root()(h, i)]), 'lifetime'))
            if 'o' in d:
                out.append(('distinct lists', d['w'] != d['o'], 'contents'))
        if 'x' in d:
            out.append(('value is a live object', s.m(LIVE)(d['x']), 'lifetime'))
        if 'f' in d:
            lv = s.m(LIVE)
            out += [('source range is ordered', And(d['f'] <= d['l'], d['l'] - d['f'] < LMAX), 'contents'),
                    ('source range is live', FA([I], lambda j: Imp(And(d['f'] <= j, j < d['l']), lv(j)), lambda j: [rt(lv, j)]), 'lifetime')]
        if 'p' in d:
            out.append(('position in the list', s.m(OWN)(d['p']) == hdr(d['v']), 'contents'))
        return out + self.pre2(X, s, d)

    def pre2(self, X, s, d):
        return []

    def post(self, o, s, a, case):
        return self.eff(o, s, self.A(a), case)


from .ir import PTR as PTR_


class Getter(LSpec):
    def __init__(self, entry, fn, args='v', pre=None):
        self.entry = self.short = entry
        self.fn_, self.args, self.p_ = fn, args, pre

    def pre2(self, X, s, d):
        return [('precondition', self.p_(s, d), 'contents')] if self.p_ else []

    def eff(self, o, s, d, case):
        return self.fn_(s, d)


def nonempty(s, d):
    return s.m(LEN)(hdr(d['v'])) > 0


H = lambda d: hdr(d['v'])
GETTERS = [Getter('lst_' + n, lambda s, d: s.m(ATG)(H(d), 0)) for n in ('begin', 'begin_c', 'cbegin', 'rend', 'rend_c', 'crend')] + \
          [Getter('lst_' + n, lambda s, d: H(d)) for n in ('end', 'end_c', 'cend', 'rbegin', 'rbegin_c', 'crbegin')] + \
          [Getter('lst_' + n, lambda s, d: s.m(ATG)(H(d), 0) + Lay.voff, pre=nonempty) for n in ('front', 'cfront')] + \
          [Getter('lst_' + n, lambda s, d: s.m(ATG)(H(d), s.m(LEN)(H(d)) - 1) + Lay.voff, pre=nonempty) for n in ('back', 'cback')] + \
          [Getter('lst_empty', lambda s, d: meq(s.m(LEN)(H(d)), 0)),
           Getter('lst_size', lambda s, d: s.m(LEN)(H(d))),
           Getter('lst_get_allocator', lambda s, d: al(s, d['v']))]


class MaxSize(LSpec):
    entry = short = 'lst_max_size'
    args = 'v'

    def eff(self, o, s, d, case):
        r = o.choose('r', lambda f, r: o.X.canon_u(f, r))
        o.ensure(r >= s.m(LEN)(H(d)), 'max_size is at least size', 'contents')
        return r


class IterOp(LSpec):
    """iterator p into a well-formed list (its header is OWN(p))"""

    def __init__(self, entry, fn, args='p', pre=None):
        self.entry = self.short = entry
        self.fn_, self.args, self.p_ = fn, args, pre

    def pre(self, X, s, a):
        d = self.A(a)
        out = [('iterator into a list', s.m(OWN)(d['p']) != 0, 'contents')] + wf(s, s.m(OWN)(d['p']))
        if 'q' in d:
            out += [('iterator into a list', s.m(OWN)(d['q']) != 0, 'contents')] + wf(s, s.m(OWN)(d['q']))
        if self.p_:
            out.append(('precondition', self.p_(s, d), 'contents'))
        return out

    def post(self, o, s, a, case):
        d = self.A(a)
        if '*' in self.args:
            i = self.args.index('*')
            s.wcell(a[i].aid, a[i].off, d['p'], 8)
        return self.fn_(s, d)


def it_next(s, d):
    h = s.m(OWN)(d['p'])
    return s.m(ATG)(h, s.m(IDX)(d['p']) + 1)


def it_prev(s, d):
    h = s.m(OWN)(d['p'])
    return s.m(ATG)(h, s.m(IDX)(d['p']) - 1)


notend = lambda s, d: s.m(OWN)(d['p']) != d['p']
notbeg = lambda s, d: s.m(IDX)(d['p']) > 0
ITERS = []
for _k in ('it', 'ci'):
    ITERS += [IterOp('lst_%s_inc' % _k, it_next, pre=notend), IterOp('lst_%s_dec' % _k, it_prev, pre=notbeg),
              IterOp('lst_%s_postinc' % _k, it_next, 'p*', pre=notend), IterOp('lst_%s_postdec' % _k, it_prev, 'p*', pre=notbeg),
              IterOp('lst_%s_deref' % _k, lambda s, d: d['p'] + Lay.voff, pre=notend),
              IterOp('lst_%s_arrow' % _k, lambda s, d: d['p'] + Lay.voff, pre=notend),
              IterOp('lst_%s_eq' % _k, lambda s, d: meq(d['p'], d['q']), 'pq'),
              IterOp('lst_%s_ne' % _k, lambda s, d: Not(meq(d['p'], d['q'])), 'pq')]
ITERS.append(IterOp('lst_ci_from', lambda s, d: d['p'], 'p'))


class Op(LSpec):
    def __init__(self, entry, args, eff, variants=None, cases=None, pre=None, loops=None):
        self.entry = self.short = entry
        self.args, self.eff = args, eff
        if variants:
            self.variants = variants
        self.cases_ = cases or (['ok', 'fail'] if 'e' in args else ['ok'])
        self.p_ = pre
        self.l_ = loops

    def cases(self, X, s, a):
        return self.cases_

    def pre2(self, X, s, d):
        return [('precondition', f, 'contents') for f in (self.p_(s, d) if self.p_ else [])]

    def loopspecs(self, X, L):
        return self.l_(self, X, L) if self.l_ else []


def post_wf(o, s, *ls):
    """what the rest of the program may rely on afterwards"""
    if o.check:
        for l in ls:
            for n, f, t in wfl(s, l):
                o.ensure(f, 'afterwards: ' + n, t)


def e_ctor(o, s, d, case):
    h = hdr(d['w'])
    relink(s, [h])
    s.setfld(AT_, 0, z3.simplify(d['w'] + Ly.aoff), s.fld(AT_, 0, d['a']))
    post_wf(o, s, d['w'])


def any_al(o, s, l):
    a = z3.simplify(l + Ly.aoff)
    s.setfld(AT_, 0, a, o.choose('al', lambda f, r: f.fld(AT_, 0, a)))


def e_move_ctor(o, s, d, case):
    s.setfld(AT_, 0, z3.simplify(d['w'] + Ly.aoff), al(s, d['o']))
    g_swap(s, hdr(d['w']), hdr(d['o']))
    any_al(o, s, d['o'])
    post_wf(o, s, d['w'], d['o'])


def drop_all(s, h):
    own = s.m(OWN)
    gone = lambda n: And(own(n) == h, n != h)
    return gone


def e_dtor(o, s, d, case):
    h = H(d)
    gone = drop_all(s, h)
    g_free(s, gone)
    own = s.m(OWN)
    s.setm(OWN, own.define(lambda q, n: ite(own(n) == h, z3.IntVal(0), q(n))))
    any_al(o, s, d['v'])


def e_clear(o, s, d, case):
    h = H(d)
    gone = g_erase(s, h, z3.IntVal(0), s.m(LEN)(h))
    g_free(s, gone)
    post_wf(o, s, d['v'])


def e_move_assign(o, s, d, case):
    h, h2 = H(d), hdr(d['o'])
    gone = g_erase(s, h, z3.IntVal(0), s.m(LEN)(h))
    g_free(s, gone)
    s.setfld(AT_, 0, z3.simplify(d['v'] + Ly.aoff), al(s, d['o']))
    if not d['v'].eq(d['o']):
        g_swap(s, h, h2)
    any_al(o, s, d['o'])
    post_wf(o, s, d['v'], d['o'])


def e_swap(o, s, d, case):
    if d['v'].eq(d['o']):
        return
    a1, a2 = al(s, d['v']), al(s, d['o'])
    g_swap(s, H(d), hdr(d['o']))
    s.setfld(AT_, 0, z3.simplify(d['v'] + Ly.aoff), a2)
    s.setfld(AT_, 0, z3.simplify(d['o'] + Ly.aoff), a1)
    post_wf(o, s, d['v'], d['o'])


def ins(where, move=False, ret=True):
    def eff(o, s, d, case):
        h = H(d)
        pos = {'pos': lambda: s.m(IDX)(d['p']), 'back': lambda: s.m(LEN)(h), 'front': lambda: z3.IntVal(0)}[where]()
        x = d.get('x')
        xv = DEFVAL if x is None else s.m(VAL)(x)
        if move:
            s.up(VAL, x, o.choose('moved', lambda f, r: f.m(VAL)(x)))
        if case == 'fail':
            err_fail(o, s, d['e'])
            return h if ret else None
        err_ok(o, s, d['e'])
        pred = s.m(ATG)(h, pos - 1)
        node = o.choose('node', lambda f, r: NX(f, pred))
        new_node(o, s, d['v'], node, xv)
        g_insert1(s, h, pos, node)
        post_wf(o, s, d['v'])
        return node if ret else None
    return eff


def short_enough(s, d):
    return [s.m(LEN)(H(d)) + 1 < LMAX]


class Ins(Op):
    def __init__(self, entry, args, where, move=False, ret=True, pattern=None):
        Op.__init__(self, entry, args, ins(where, move, ret), pre=short_enough)
        self.pattern = pattern
        self.internal = entry is None
        if pattern:
            self.entry, self.short = None, 'list::' + where + ' insertion'


def e_erase(o, s, d, case):
    h = H(d)
    i = s.m(IDX)(d['p'])
    nxt = s.m(ATG)(h, i + 1)
    gone = g_erase(s, h, i, z3.IntVal(1))
    g_free(s, gone)
    post_wf(o, s, d['v'])
    return nxt


def e_pop(at):
    def eff(o, s, d, case):
        h = H(d)
        gone = g_erase(s, h, at(s, h), z3.IntVal(1))
        g_free(s, gone)
        post_wf(o, s, d['v'])
    return eff


def e_erase_range(o, s, d, case):
    h = H(d)
    i, j = s.m(IDX)(d['p']), s.m(IDX)(d['q'])
    gone = g_erase(s, h, i, j - i)
    g_free(s, gone)
    post_wf(o, s, d['v'])
    return d['q']


def e_splice(o, s, d, case):
    h, h2 = H(d), hdr(d['o'])
    g_move(s, h, s.m(IDX)(d['p']), h2, z3.IntVal(0), s.m(LEN)(h2))
    post_wf(o, s, d['v'], d['o'])


def e_splice_range(one):
    def eff(o, s, d, case):
        h, h2 = H(d), hdr(d['o'])
        f = s.m(IDX)(d['q'])
        k = z3.IntVal(1) if one else s.m(IDX)(d['r']) - f
        p = s.m(IDX)(d['p'])
        if d['v'].eq(d['o']):
            if one:
                noop = Or(d['p'] == d['q'], p == f + 1)
                if case == 'noop':
                    o.ensure(noop, 'already there', 'case')
                    return
                o.ensure(Not(noop), 'moves', 'case')
            elif case == 'noop':
                o.dead = True
                return
            right = case == 'right'
            o.ensure(p >= f + k if right else p < f + k, 'moves', 'case')
            g_rotate(s, h, p, f, k, right)
        else:
            if case in ('noop', 'right'):
                o.dead = True
                return
            g_move(s, h, p, h2, f, k)
        post_wf(o, s, d['v'], d['o'])
    return eff


def splice_pre(one):
    def pre(s, d):
        h2 = hdr(d['o'])
        own, idx = s.m(OWN), s.m(IDX)
        out = [own(d['q']) == h2, al(s, d['v']) == al(s, d['o'])]
        f = idx(d['q'])
        if one:
            out.append(d['q'] != h2)
        else:
            out += [own(d['r']) == h2, f <= idx(d['r'])]
            if d['v'].eq(d['o']):
                out.append(Or(idx(d['p']) < f, idx(d['p']) >= idx(d['r'])))
        return out
    return pre


def same_al(s, d):
    return [al(s, d['v']) == al(s, d['o'])]


# ------------------------------------------------------------------ loops
def entry_pos(s, v):
    return s.m(OWN)(v), s.m(IDX)(v)


class ListLoop(LoopSpec):
    """cells follow the nodes of a list"""

    def cells(self, X, env):
        s0 = env.s0
        at = s0.m(ATG)
        k = env.k

        def step(d):
            def f(c):
                v = flat(s0.cells[c][0])
                return at(s0.m(OWN)(v), s0.m(IDX)(v) + d * k)
            return f
        out = [step(1), step(-1), lambda c: flat(s0.cells[c][0])]
        return out + self.more(X, env)

    def more(self, X, env):
        return []

    def driver_cells(self, env):
        return env.L.free_cells()


def cell_loops(X, L, mk):
    """one loop clause per modified pointer cell"""
    out = []
    for c in L.free_cells():
        v = flat(L.st.cells[c][0])
        if z3.is_int_value(v):
            continue
        out.append(mk(c, v))
    return out


def bound_of(env, c, v):
    s0 = env.s0
    h, i0 = entry_pos(s0, v)
    sp = X_active_spec(env)
    return s0.m(LEN)(h) - i0


def traverse(c, v, frees=None, upto=None, name='traverse', extra=None):
    """the cell c walks forward over the list it points into; frees: None | 'raw' (links left alone) | 'unlink'"""
    def bound(env):
        s0 = env.s0
        h, i0 = entry_pos(s0, v)
        if upto is not None:
            return upto(s0, env) - i0
        return s0.m(LEN)(h) - i0

    def inv(o, s, env):
        s0 = env.s0
        h, i0 = entry_pos(s0, v)
        k = env.k
        o.ensure(And(k >= 0, k <= bound(env)), 'progress', 'loop')
        if o.check:
            o.ensure(s0.m(OWN)(v) != 0, 'walks over a list', 'loop')
            if env.sel is not None:
                o.ensure(z3.BoolVal(c in env.sel), 'cell follows the list', 'loop')
        if frees:
            own, idx = s0.m(OWN), s0.m(IDX)
            if frees == 'raw':
                g_free(s, lambda n: And(own(n) == h, n != h, i0 <= idx(n), idx(n) < i0 + k))
            else:
                g_free(s, g_erase(s, h, i0, k))
        if extra:
            extra(o, s, env)
    ls = ListLoop(name, inv, measure=lambda s, env: bound(env) - env.k)
    return ls


def insert_run(l, pos, val, count, how):
    """k nodes have been inserted before position pos of list l; how: 'append' | 'prepend' """
    def inv(o, s, env):
        s0, k = env.s0, env.k
        h = hdr(l(env))
        p = pos(s0, env)
        pred, succ = s0.m(ATG)(h, p - 1), s0.m(ATG)(h, p)
        if o.check:
            f = o.final
            if k.eq(z3.IntVal(0)):
                new, nidx = (lambda i: z3.IntVal(0)), (lambda n: z3.IntVal(-1))
            else:
                pn, pi = env.head_new
                kk = k - 1
                if how == 'append':
                    node = PV(f, succ)
                    new = lambda i: ite(i == kk, node, pn(i))
                    nidx = lambda n: ite(n == node, kk, pi(n))
                else:
                    node = NX(f, pred)
                    new = lambda i: ite(i == 0, node, pn(i - 1))
                    nidx = lambda n: ite(n == node, z3.IntVal(0), ite(And(0 <= pi(n), pi(n) < kk, pn(pi(n)) == n), pi(n) + 1, z3.IntVal(-1)))
        else:
            new, nidx = Map.new('new', [I], I), Map.new('newidx', [I], I)
            env.head_new = (new, nidx)
        isnew = lambda n: And(0 <= nidx(n), nidx(n) < k, new(nidx(n)) == n)
        own, isb, lv, bo, va = s.m(OWN), s.m(ISB), s.m(LIVE), s.m(BOWN), s.m(VAL)
        o.ensure(And(k >= 0, k <= count(s0, env)), 'progress', 'loop')
        pats = (lambda i: [new(i)]) if not o.check else None
        o.ensure(FA([I], lambda i: Imp(And(0 <= i, i < k), And(nidx(new(i)) == i, new(i) > 0, Not(isb(new(i))), own(new(i)) == 0,
                                                               Not(lv(new(i) + Lay.voff)))), pats), 'new nodes are fresh and distinct', 'loop')
        s.setm(ISB, isb.define(lambda q, n: ite(isnew(n), TRUE, q(n))))
        a_ = al(s0, l(env))
        s.setm(BOWN, bo.define(lambda q, n: ite(isnew(n), a_, q(n))))
        s.setm(LIVE, lv.define(lambda q, x: ite(isnew(x - Lay.voff), TRUE, q(x))))
        if how == 'append':
            s.setm(VAL, va.define(lambda q, x: ite(isnew(x - Lay.voff), val(env, nidx(x - Lay.voff)), q(x))))
        else:
            s.setm(VAL, va.define(lambda q, x: ite(isnew(x - Lay.voff), val(env, k - 1 - nidx(x - Lay.voff)), q(x))))
        g_insert(s, h, p, k, isnew, nidx, new)
        env.new_now = new

    class L_(ListLoop):
        def more(self, X, env):
            k = env.k
            nw = getattr(env, 'new_now', None)
            if nw is None:
                return []
            e0 = lambda c: flat(env.s0.cells[c][0])
            return [lambda c: ite(k > 0, nw(z3.IntVal(0)), e0(c)), lambda c: ite(k > 0, nw(k - 1), e0(c))]
    return L_('insert run (%s)' % how, inv, measure=lambda s, env: count(env.s0, env) - env.k)


def run_loops(pos, val, count):
    def f(me, X, L):
        lst = lambda env: me.A(env.args)['v']
        V_ = lambda env, i: val(env, me.A(env.args), i)
        C_ = lambda s, env: count(X, env.entry, me.A(env.args))
        P_ = lambda s, env: pos(s, hdr(lst(env)), me.A(env.args))
        return [insert_run(lst, P_, V_, C_, how) for how in ('append', 'prepend')]
    return f


def v_same(env, d, i):
    return env.entry.m(VAL)(d['x'])


def v_range(env, d, i):
    return env.entry.m(VAL)(d['f'] + i)


c_n = lambda X, s, d: d['n']
c_range = lambda X, s, d: d['l'] - d['f']


def v_copy(env, d, i):
    s = env.entry
    return s.m(VAL)(s.m(ATG)(hdr(d['o']), i) + Lay.voff)


c_copy = lambda X, s, d: s.m(LEN)(hdr(d['o']))


def put_run(o, s, d, pos, k, val, assign):
    """the list comes to hold k fresh nodes with values val(i), inserted at pos (after dropping everything when assign)"""
    h = H(d)
    gone = None
    s0 = s.clone()
    if assign:
        gone = g_erase(s, h, z3.IntVal(0), s.m(LEN)(h))
        g_free(s, gone)
    new = o.choose_map('new', [I], I, lambda f: (lambda i: f.m(ATG)(h, pos + i)))
    nidx = o.choose_map('newidx', [I], I, lambda f: (lambda n: ite(f.m(OWN)(n) == h, f.m(IDX)(n) - pos, z3.IntVal(-1))))
    isnew = lambda n: And(0 <= nidx(n), nidx(n) < k, new(nidx(n)) == n)
    isb, lv, own, bo, va = s.m(ISB), s.m(LIVE), s.m(OWN), s.m(BOWN), s.m(VAL)
    o.ensure(FA([I], lambda i: Imp(And(0 <= i, i < k), And(nidx(new(i)) == i, new(i) > 0, Not(isb(new(i))), own(new(i)) == 0,
                                                           Not(lv(new(i) + Lay.voff)))),
                None if o.check else (lambda i: [new(i)])), 'new nodes are fresh and distinct', 'lifetime')
    a_ = al(s, d['v'])
    s.setm(ISB, isb.define(lambda q, n: ite(isnew(n), TRUE, q(n))))
    s.setm(BOWN, bo.define(lambda q, n: ite(isnew(n), a_, q(n))))
    s.setm(LIVE, lv.define(lambda q, x: ite(isnew(x - Lay.voff), TRUE, q(x))))
    s.setm(VAL, va.define(lambda q, x: ite(isnew(x - Lay.voff), val(nidx(x - Lay.voff)), q(x))))
    g_insert(s, h, pos, k, isnew, nidx, new)
    post_wf(o, s, d['v'])


def e_run(assign, val, count):
    def eff(o, s, d, case):
        class E_:
            entry = s.clone()
        n = count(o.X, s, d)
        h = H(d)
        if assign and 'o' in d and d['o'].eq(d['v']):
            # copying a list from itself changes nothing (and cannot fail)
            if case == 'fail':
                err_fail(o, s, d['e'])
                o.ensure(FALSE, 'copy from itself cannot fail', 'err')
                return
            err_ok(o, s, d['e'])
            return
        pos = z3.IntVal(0) if assign else s.m(IDX)(d['p'])
        vv = lambda i: val(E_, d, i)
        if case == 'fail':
            err_fail(o, s, d['e'])
            base = z3.IntVal(0) if assign else s.m(LEN)(h)
            m = o.choose('m', lambda f, r: f.m(LEN)(h) - base)
            o.ensure(And(0 <= m, m < n), 'on failure fewer elements than requested have been added', 'err')
            put_run(o, s, d, pos, m, vv, assign)
            return
        err_ok(o, s, d['e'])
        put_run(o, s, d, pos, n, vv, assign)
    return eff


def len_ok(count):
    return lambda s, d: [s.m(LEN)(H(d)) + count(None, s, d) < LMAX]


class Eq(Op):
    def __init__(self):
        Op.__init__(self, 'lst_eq', 'vo', None, variants=['distinct', 'self'])

    def cases(self, X, s, a):
        return ['equal', 'size', 'element']

    def seq(self, s, l):
        at, va, h = s.m(ATG), s.m(VAL), hdr(l)
        return s.m(LEN)(h), (lambda i: va(at(h, i) + Lay.voff))

    def post(self, o, s, a, case):
        d = self.A(a)
        (n, x), (m, y) = self.seq(s, d['v']), self.seq(s, d['o'])
        r = o.ret
        r = (r % 2 == 1) if r.sort() == I else r
        if case == 'equal':
            o.ensure(r, 'returns true', 'case')
            o.ensure(n == m, 'sizes agree', 'contents')
            o.ensure(FA([I], lambda i: Imp(And(0 <= i, i < n), EQ(x(i), y(i)))), 'elements agree', 'contents')
            return TRUE
        o.ensure(Not(r), 'returns false', 'case')
        if case == 'size':
            o.ensure(n != m, 'sizes differ', 'case')
        else:
            o.ensure(n == m, 'sizes agree', 'case')
            i = fresh_int('i')
            o.ensure(z3.Exists([i], And(0 <= i, i < n, Not(EQ(x(i), y(i))))), 'some element differs', 'contents')
        return FALSE

    def loopspecs(self, X, L):
        def extra(o, s, env):
            d = self.A(env.args)
            (n, x), (m, y) = self.seq(env.entry, d['v']), self.seq(env.entry, d['o'])
            at = env.entry.m(ATG)
            o.ensure(FA([I], lambda i: Imp(And(0 <= i, i < env.k), EQ(x(i), y(i))),
                        lambda i: [at.root()(hdr(d['v']), i), at.root()(hdr(d['o']), i)]), 'elements agree so far', 'loop')
        return cell_loops(X, L, lambda c, v: traverse(c, v, name='compare', extra=extra))


def range_loops(me, X, L):
    up = lambda s0, env: env.entry.m(IDX)(me.A(env.args)['q'])
    return cell_loops(X, L, lambda c, v: traverse(c, v, 'unlink', up, 'erase run')) + \
        cell_loops(X, L, lambda c, v: traverse(c, v, 'raw', up, 'destroy run'))


# ------------------------------------------------------------------ ordered operations
def rk(s, n):
    return RANK(s.m(VAL)(n + Lay.voff))


def FV(s, f, check=False):
    """for all nodes m, n: f(m, n); instantiated only for nodes whose values are looked at"""
    va = s.m(VAL)
    v = Lay.voff
    return FA([I, I], lambda x, y: And(f(x - v, y - v)), None if check else (lambda x, y: [(rt(va, x), rt(va, y))]))


def sorted_list(s, h, check=False):
    own, idx = s.m(OWN), s.m(IDX)
    return FV(s, lambda m, n: Imp(And(own(m) == h, own(n) == h, m != h, n != h, idx(m) <= idx(n)), rk(s, m) <= rk(s, n)), check)


class Merged:
    """the first i nodes of list h1 and the first j nodes of list h2 (positions in s0) have been merged into the front of h1"""

    def __init__(self, o, s, h1, h2, i, j):
        s0 = s.clone()
        own, idx, at, ln = (s0.m(x) for x in (OWN, IDX, ATG, LEN))
        own1 = o.choose_map('own', [I], I, lambda f: f.m(OWN))
        pos = o.choose_map('idx', [I], I, lambda f: f.m(IDX))
        at1 = o.choose_map('at', [I, I], I, lambda f: f.m(ATG))
        inA = lambda n: And(own(n) == h1, n != h1, idx(n) < i)
        inB = lambda n: And(own(n) == h2, n != h2, idx(n) < j)
        done = lambda n: Or(inA(n), inB(n))
        P = (lambda f: None) if o.check else (lambda f: f)
        l1, l2 = ln(h1), ln(h2)
        o.ensure(FA([I], lambda n: own1(n) == ite(inB(n), h1, own(n)), P(lambda n: [own1(n), rt(own, n)])), 'merged nodes change the list', 'contents')
        o.ensure(FA([I], lambda n: Imp(own1(n) != 0, ite(done(n), And(0 <= pos(n), pos(n) < i + j),
                                       pos(n) == ite(own(n) == h1, idx(n) + j, ite(own(n) == h2, idx(n) - j, idx(n))))), P(lambda n: [pos(n), rt(idx, n)])),
                 'positions', 'contents')
        o.ensure(FA([I, I], lambda g, p: Or(g == h1, g == h2, at1(g, p) == at(g, p)), P(lambda g, p: [at1(g, p)])), 'other lists', 'contents')
        s.setm(LEN, ln.set(h1, l1 + j).set(h2, l2 - j))
        s.maps[OWN], s.maps[IDX], s.maps[ATG] = own1, pos, at1
        relink(s, [h1, h2])
        ens_wf(o, s, h1, h2)
        o.ensure(FA([I, I], lambda m, n: Imp(And(Or(And(inA(m), inA(n)), And(inB(m), inB(n))), idx(m) < idx(n)), pos(m) < pos(n)),
                    P(lambda m, n: [(pos(m), pos(n))])),
                 'elements of each list keep their order', 'order')
        o.ensure(FV(s0, lambda a, b: Imp(And(inA(a), inB(b)), (pos(b) < pos(a)) == (rk(s0, b) < rk(s0, a))), o.check),
                 'merged elements are ordered and equal elements of this list come first', 'order')


class MergeLoop(ListLoop):
    def __init__(self, me):
        def inv(o, s, env):
            d = me.A(env.args)
            s0, k = env.s0, env.k
            h1, h2 = hdr(d['v']), hdr(d['o'])
            own, idx = s0.m(OWN), s0.m(IDX)
            n, m = s0.m(LEN)(h1), s0.m(LEN)(h2)
            j = o.choose('j', lambda f, r: m - f.m(LEN)(h2))
            i = k - j
            env.ij = (i, j)
            o.ensure(And(0 <= i, i <= n, 0 <= j, j <= m), 'progress', 'loop')
            inA = lambda x: And(own(x) == h1, x != h1)
            inB = lambda x: And(own(x) == h2, x != h2)
            o.ensure(FV(s0, lambda a, b: Imp(And(inA(a), idx(a) < i, inB(b), idx(b) >= j), rk(s0, a) <= rk(s0, b)), o.check), 'merged before unmerged', 'loop')
            o.ensure(FV(s0, lambda a, b: Imp(And(inA(a), idx(a) >= i, inB(b), idx(b) < j), rk(s0, b) < rk(s0, a)), o.check), 'merged before unmerged', 'loop')
            Merged(o, s, h1, h2, i, j)
        self.me = me
        LoopSpec.__init__(self, 'merge', inv, measure=lambda s, env: env.s0.m(LEN)(hdr(me.A(env.args)['v'])) + env.s0.m(LEN)(hdr(me.A(env.args)['o'])) - env.k)

    def cells(self, X, env):
        s0 = env.s0
        at = s0.m(ATG)
        e0 = lambda c: flat(s0.cells[c][0])

        def step(w):
            def f(c):
                i, j = getattr(env, 'ij', (env.k, env.k))
                d = self.me.A(env.args)
                return at(hdr(d['vo'[w]]), (i, j)[w])
            return f
        return [step(0), step(1), e0]


def e_merge(o, s, d, case):
    h1, h2 = H(d), hdr(d['o'])
    Merged(o, s, h1, h2, s.m(LEN)(h1), s.m(LEN)(h2))
    post_wf(o, s, d['v'], d['o'])
    if o.check:
        o.ensure(sorted_list(s, h1), 'the merged list is ordered', 'order')


def merge_pre(s, d):
    return [sorted_list(s, H(d)), sorted_list(s, hdr(d['o'])), al(s, d['v']) == al(s, d['o'])]


class Merge(Op):
    def __init__(self, entry, pattern=None):
        Op.__init__(self, entry, 'vo', e_merge, pre=merge_pre)
        if pattern:
            self.entry, self.pattern, self.short, self.internal = None, pattern, 'list::merge', True
            self.l_ = lambda me, X, L: [MergeLoop(me)]

    def loopspecs(self, X, L):
        return [MergeLoop(self)]

    def A(self, a):
        return Op.A(self, a[:2])

    def setup(self, X, s, fn):
        a = Op.setup(self, X, s, fn)
        return a


NODEFN = [Inject(), Remove(), Transfer(), NSwap()]
_lp = r'nestl::impl::list<E, A<E> >::'
_er = r'nestl::no_exceptions::errc_based_error'
INTERNAL = [ConstructMove(), ConstructCopy(), Destroy()] + NODEFN

PUBLIC = GETTERS + ITERS + [
    MaxSize(), Op('lst_ctor', 'wa', e_ctor), Op('lst_move_ctor', 'wo', e_move_ctor), Op('lst_dtor', 'v', e_dtor), Op('lst_clear', 'v', e_clear),
    Op('lst_move_assign', 'vo', e_move_assign), Op('lst_swap', 'vo', e_swap, variants=['distinct', 'self']),
    Ins('lst_insert_copy', 'vepx', 'pos'), Ins('lst_insert_move', 'vepx', 'pos', True), Ins('lst_emplace', 'vepx', 'pos'), Ins('lst_emplace0', 'vep', 'pos'),
    Ins('lst_push_back_copy', 'vex', 'back', ret=False), Ins('lst_push_back_move', 'vex', 'back', True, ret=False), Ins('lst_emplace_back', 'vex', 'back', ret=False),
    Ins('lst_push_front_copy', 'vex', 'front', ret=False), Ins('lst_push_front_move', 'vex', 'front', True, ret=False), Ins('lst_emplace_front', 'vex', 'front', ret=False),
    Op('lst_erase', 'vp', e_erase, pre=lambda s, d: [d['p'] != H(d)]),
    Op('lst_pop_back', 'v', e_pop(lambda s, h: s.m(LEN)(h) - 1), pre=lambda s, d: [nonempty(s, d)]),
    Op('lst_pop_front', 'v', e_pop(lambda s, h: z3.IntVal(0)), pre=lambda s, d: [nonempty(s, d)]),
    Op('lst_erase_range', 'vpq', e_erase_range, pre=lambda s, d: [s.m(OWN)(d['q']) == H(d), s.m(IDX)(d['p']) <= s.m(IDX)(d['q'])], loops=range_loops),
    Op('lst_splice', 'vpo', e_splice, pre=same_al), Op('lst_splice_rv', 'vpo', e_splice, pre=same_al),
] + [Op('lst_splice_one' + x, 'vpoq', e_splice_range(True), variants=['distinct', 'self'], cases=['ok', 'right', 'noop'], pre=splice_pre(True)) for x in ('', '_rv')] + \
    [Op('lst_splice_range' + x, 'vpoqr', e_splice_range(False), variants=['distinct', 'self'], cases=['ok', 'right'], pre=splice_pre(False)) for x in ('', '_rv')] + [
    Op('lst_insert_n', 'vepnx', e_run(False, v_same, c_n), pre=len_ok(c_n), loops=run_loops(lambda s, h, d: s.m(IDX)(d['p']), v_same, c_n)),
    Op('lst_insert_it', 'vepfl', e_run(False, v_range, c_range), pre=len_ok(c_range), loops=run_loops(lambda s, h, d: s.m(IDX)(d['p']), v_range, c_range)),
    Op('lst_assign_n', 'venx', e_run(True, v_same, c_n), pre=len_ok(c_n), loops=run_loops(lambda s, h, d: z3.IntVal(0), v_same, c_n)),
    Op('lst_assign_it', 'vefl', e_run(True, v_range, c_range), pre=len_ok(c_range), loops=run_loops(lambda s, h, d: z3.IntVal(0), v_range, c_range)),
    Op('lst_copy', 'veo', e_run(True, v_copy, c_copy), variants=['distinct', 'self'], loops=run_loops(lambda s, h, d: z3.IntVal(0), v_copy, c_copy)),
    Eq(),
] + [Merge('lst_merge' + x) for x in ('', '_rv', '_comp', '_comp_rv')]


class ListWorld(NodeWorld):
    ghosts = dict(GHOSTS, **{OWN: ([I], I), IDX: ([I], I), ATG: ([I, I], I), LEN: ([I], I)})
    HEAP = (r'%struct\.E$', r'%class\.nestl::impl::list$', r'%struct\.nestl::impl::list_node$')
    specs = [ERank()] + NENV + INTERNAL
    ghost_keys = (OWN, IDX, ATG, LEN, BSZ, SB)
    linkst = (NB,)
    seal = True

    def __init__(self, mod):
        NodeWorld.__init__(self, mod)
        Ly.nx, Ly.pv = mod.member(NB, 'list_node_base', 'm_next', 0), mod.member(NB, 'list_node_base', 'm_prev', 1)
        Ly.hoff = mod.members.get(('list', 'm_node'), 8)
        Ly.aoff = mod.members.get(('list', 'm_node_allocator'), 0)
        Lay.voff = mod.members.get(('list_node', 'm_value'), 16)
        from .ir import Ty
        Lay.size = mod.size(Ty('s', name=LN))
        self.lsize = mod.size(Ty('s', name=LT_))

    def linked(self, s, n):
        return And(s.m(OWN)(n) != 0)

    def relevant(self, X, s, key, idx, f):
        if isinstance(key, tuple) and key[0] == 'F':
            return Imp(Or(idx[0] > 0, idx[0] < LOCLIM), f)
        return NodeWorld.relevant(self, X, s, key, idx, f)

    def map_tag(self, k):
        return NodeWorld.map_tag(self, k)

    def fresh_node(self, o, s, b):
        o.ensure(And(s.m(OWN)(b) != b))

    def on_alloca(self, X, st, addr, size):
        if size >= self.lsize and size % self.lsize == 0:
            n = size // self.lsize
            hs = lambda a: And(addr + Ly.hoff <= a, a <= addr + Ly.hoff + (n - 1) * self.lsize, (a - addr - Ly.hoff) % self.lsize == 0) \
                if n > 1 else meq(a, z3.IntVal(addr + Ly.hoff))
            own, idx, at, ln = st.m(OWN), st.m(IDX), st.m(ATG), st.m(LEN)
            st.assume(FA([I], lambda a: Not(hs(own(a))), lambda a: [rt(own, a)]))
            st.setm(OWN, own.define(lambda q, a: ite(hs(a), a, q(a))))
            st.setm(IDX, idx.define(lambda q, a: ite(hs(a), z3.IntVal(0), q(a))))
            st.setm(ATG, at.define(lambda q, g, i: ite(hs(g), g, q(g, i))))
            st.setm(LEN, ln.define(lambda q, a: ite(hs(a), z3.IntVal(0), q(a))))
        else:
            st.assume(Not(st.m(LIVE).root()(z3.IntVal(addr))))

    def ok_access(self, X, st, p):
        if p.st != NB:
            return
        b = p.base
        if z3.is_int_value(b) and b.as_long() < 0:
            return
        g = Or(And(b < 0), st.m(ISB)(b), st.m(OWN)(b) == b)
        X.oblige(st, g, 'access to an allocated node', 'lifetime', 'memory')

    def on_load(self, X, st, p):
        self.ok_access(X, st, p)

    def on_store(self, X, st, p):
        self.ok_access(X, st, p)

    def memset(self, X, st, args):
        from .ir import Ty
        d, v, n = args[0], args[1], z3.simplify(args[2])
        if not isinstance(d, (LP, GP)) and z3.is_int_value(n) and z3.is_int_value(v) and v.as_long() == 0 and \
                n.as_long() == X.mod.size(Ty('s', name=NB)):
            for (sn, i, lt, off, coff) in X.leaf_fields(Ty('s', name=NB)):
                X.store(st, FP(flat(d), sn, i, off), z3.IntVal(0), lt)
            return
        return NodeWorld.memset(self, X, st, args)

    def loopspecs(self, X, L):
        return cell_loops(X, L, lambda c, v: traverse(c, v)) + cell_loops(X, L, lambda c, v: traverse(c, v, 'raw', name='destroy')) + \
            cell_loops(X, L, lambda c, v: traverse(c, v, 'unlink', name='erase'))
