"""Contracts for nestl::impl::set and the red-black tree underneath.

Ghost view of a tree with header node h: LEN(h), AT(h, i) the node at in-order position i (AT(h, LEN) = h), OWN(n) the header
of the tree a node belongs to (0: none, OWN(h) = h), IDX(n) its position (IDX(h) = LEN), LO(n)..HI(n) the positions of the
subtree under n, BH(n) the number of black nodes below n on every path down."""
import re, z3
from .sym import *
from .ir import Ty, Unsupported, PTR as PTR_
from .spec import Spec, LoopSpec
from .loops import NoInv
from .elem import *
from .nodes import *

ST = '%class.nestl::impl::set'
NB = '%struct.nestl::impl::detail::rb_tree_node_base'
RN = '%struct.nestl::impl::detail::rb_tree_node'
AT_ = '%struct.A'
OWN, IDX, ATG, LEN, LOG, HIG, BHG = 'own', 'idx', 'at', 'len', 'lo', 'hi', 'bh'
LMAX = 1 << 58
LOCLIM = -(1 << 60)
RED, BLACK = 0, 1


class Ly:
    c, p, l, r = 0, 1, 2, 3
    hoff, aoff, imp, cnt = 8, 0, None, 3
    poff = 8


FC = lambda: ('F', NB, Ly.c)
FP_ = lambda: ('F', NB, Ly.p)
FL = lambda: ('F', NB, Ly.l)
FR = lambda: ('F', NB, Ly.r)


def C(s, n):
    return s.fld(NB, Ly.c, n)


def P(s, n):
    return s.fld(NB, Ly.p, n)


def L(s, n):
    return s.fld(NB, Ly.l, n)


def R(s, n):
    return s.fld(NB, Ly.r, n)


def CNT(s, l):
    return s.fld(Ly.imp, Ly.cnt, flat(l))


def hdr(l):
    return z3.simplify(flat(l) + Ly.hoff)


def al(s, l):
    return s.fld(AT_, 0, z3.simplify(flat(l) + Ly.aoff))


def rk(s, n):
    return RANK(s.m(VAL)(n + Lay.voff))


def kz(s, n):
    """black height of the subtree at n (0: empty), counting n"""
    return ite(meq(n, 0), z3.IntVal(0), s.m(BHG)(n) + C(s, n))


def ring(s, h):
    at, n_, lo, hi, own = s.m(ATG), s.m(LEN)(h), s.m(LOG), s.m(HIG), s.m(OWN)
    root = P(s, h)
    return And(h != 0, n_ >= 0, n_ < LMAX, own(h) == h, s.m(IDX)(h) == n_, at(h, n_) == h, C(s, h) == RED,
               Imp(n_ == 0, And(root == 0, L(s, h) == h, R(s, h) == h)),
               Imp(n_ > 0, And(root != 0, own(root) == h, root != h, P(s, root) == h, lo(root) == 0, hi(root) == n_ - 1,
                               L(s, h) == at(h, 0), R(s, h) == at(h, n_ - 1))))


def on(s, h):
    own = s.m(OWN)
    return lambda n: And(own(n) == h, n != h)


def shape(s, h):
    """the nodes of header h form a proper binary tree of owned live nodes, in in-order positions"""
    own, idx, at, ln, lo, hi = (s.m(x) for x in (OWN, IDX, ATG, LEN, LOG, HIG))
    lv, isb = s.m(LIVE), s.m(ISB)
    o_ = on(s, h)
    n_ = ln(h)
    root = P(s, h)
    q_pos = FA([I], lambda i: Imp(And(0 <= i, i < n_), And(own(at(h, i)) == h, idx(at(h, i)) == i, at(h, i) != h)), lambda i: [at.root()(h, i)])
    q_node = FA([I], lambda n: Imp(o_(n), And(0 <= lo(n), lo(n) <= idx(n), idx(n) <= hi(n), hi(n) < n_, at(h, idx(n)) == n, n > 0)),
                lambda n: [rt(own, n), rt(idx, n)])
    q_live = FA([I], lambda n: Imp(o_(n), And(isb(n), lv(n + Lay.voff))), lambda n: [rt(own, n), rt(isb, n)])

    def child(f, l):
        def body(n):
            c = f(s, n)
            none = lo(n) == idx(n) if l else hi(n) == idx(n)
            iv = And(lo(c) == lo(n), hi(c) == idx(n) - 1) if l else And(lo(c) == idx(n) + 1, hi(c) == hi(n))
            return Imp(o_(n), ite(c == 0, none, And(own(c) == h, c != h, P(s, c) == n, iv)))
        return body
    q_l = FA([I], child(L, True), lambda n: [rt(s.m(FL()), n)])
    q_r = FA([I], child(R, False), lambda n: [rt(s.m(FR()), n)])

    def par(n):
        p = P(s, n)
        return Imp(o_(n), And(own(p) == h, (p == h) == (n == root), Or(p == h, And(lo(n) == lo(p), hi(n) == idx(p) - 1),
                                                                     And(lo(n) == idx(p) + 1, hi(n) == hi(p)))))
    q_p = FA([I], par, lambda n: [rt(s.m(FP_()), n)])

    def link(f, l):
        def body(n, p):
            side = hi(n) < idx(p) if l else lo(n) > idx(p)
            return Imp(And(o_(n), o_(p), P(s, n) == p, side), f(s, p) == n)
        return body
    q_pl = FA([I, I], link(L, True), lambda n, p: [(rt(s.m(FP_()), n), rt(s.m(FL()), p))])
    q_pr = FA([I, I], link(R, False), lambda n, p: [(rt(s.m(FP_()), n), rt(s.m(FR()), p))])
    return [('header', ring(s, h), 'contents'), ('positions map to nodes', q_pos, 'contents'), ('nodes are in their subtree', q_node, 'contents'),
            ('nodes are live and allocated', q_live, 'lifetime'), ('left links', q_l, 'contents'), ('right links', q_r, 'contents'),
            ('parent links', q_p, 'contents'), ('left child of the parent', q_pl, 'contents'), ('right child of the parent', q_pr, 'contents')]


def colors(s, h, redred=None, deficit=None, rootred=None, redpar=None):
    """red-black invariant; redred: node that may be red under a red parent; redpar: red node that may have red children; deficit (p, x, d): child x of p is d short"""
    own, bh = s.m(OWN), s.m(BHG)
    o_ = on(s, h)
    root = P(s, h)

    def rule(f, l):
        def body(n):
            c = f(s, n)
            k = kz(s, c)
            if deficit is not None:
                dp, dx, d = deficit
                k = k + ite(And(n == dp, dx == c, (s.m(IDX)(n) >= 0) if l is None else TRUE), d, z3.IntVal(0))
            rr = Imp(And(C(s, n) == RED, c != 0), C(s, c) == BLACK)
            if redred is not None:
                rr = Or(c == redred, rr)
            if redpar is not None:
                rr = Or(n == redpar, rr)
            return Imp(o_(n), And(bh(n) == k, rr))
        return body
    q_c = FA([I], lambda n: Imp(o_(n), And(Or(C(s, n) == RED, C(s, n) == BLACK), bh(n) >= 0)), lambda n: [rt(s.m(FC()), n), rt(bh, n)])
    q_l = FA([I], rule(L, True), lambda n: [rt(s.m(FL()), n)])
    q_r = FA([I], rule(R, False), lambda n: [rt(s.m(FR()), n)])
    rb = Imp(root != 0, C(s, root) == BLACK)
    if rootred is not None:
        rb = Or(rootred == root, rb)
    return [('colours', q_c, 'balance'), ('root is black', rb, 'balance'), ('left: no red under red, equal black heights', q_l, 'balance'),
            ('right: no red under red, equal black heights', q_r, 'balance')]


def FV(s, f, check=False):
    va, v = s.m(VAL), Lay.voff
    return FA([I, I], lambda x, y: f(x - v, y - v), None if check else (lambda x, y: [(rt(va, x), rt(va, y))]))


def ordered(s, h, check=False):
    own, idx = s.m(OWN), s.m(IDX)
    return [('elements are ordered and unique',
             FV(s, lambda m, n: Imp(And(own(m) == h, own(n) == h, m != h, n != h, idx(m) < idx(n)), rk(s, m) < rk(s, n)), check), 'contents')]


def wfs(s, l, check=False):
    h = hdr(l)
    bo, own, a_ = s.m(BOWN), s.m(OWN), al(s, l)
    o_ = on(s, h)
    return shape(s, h) + colors(s, h) + ordered(s, h, check) + \
        [('count is the number of nodes', CNT(s, l) == s.m(LEN)(h), 'contents'),
         ('nodes belong to the allocator of the set', FA([I], lambda n: Imp(o_(n), bo(n) == a_), lambda n: [rt(own, n), rt(bo, n)]), 'allocator')]


def world_facts(s):
    own, isb = s.m(OWN), s.m(ISB)
    s.assume(FA([I], lambda n: And(Or(own(n) >= 0, own(n) < LOCLIM), Imp(And(n <= 0, n >= LOCLIM), own(n) == 0),
                                   Or(own(n) == 0, own(n) == n, isb(n))), lambda n: [rt(own, n)]))


def sym_hdr(s, name):
    p = z3.Int(Fresh.name(name))
    s.assume(Or(And(p > 0, p < AMAX), p < LOCLIM))
    return p


# ------------------------------------------------------------------ stepping
class Step(Spec):
    """rb_tree_increment / rb_tree_decrement"""
    internal = True

    def __init__(self, d):
        self.d = d
        self.short = 'rb_tree_increment' if d > 0 else 'rb_tree_decrement'
        self.pattern = r'nestl::impl::detail::%s<' % self.short

    def setup(self, X, s, fn):
        world_facts(s)
        return [sym_hdr(s, 'n')]

    def pre(self, X, s, a):
        n = flat(a[0])
        h = s.m(OWN)(n)
        out = [('iterator into a set', h != 0, 'contents'),
               ('has a successor', n != h, 'contents') if self.d > 0 else ('has a predecessor', s.m(IDX)(n) > 0, 'contents')]
        return out + shape(s, h) + (colors(s, h) if self.d < 0 else [])

    def post(self, o, s, a, case):
        n = flat(a[0])
        return s.m(ATG)(s.m(OWN)(n), s.m(IDX)(n) + self.d)


# ------------------------------------------------------------------ loops
def cellv(env, c):
    return flat(env.cur.cells[c][0])


def descend(c, left):
    """cell c walks down the left (right) spine"""
    def inv(o, s, env):
        s0 = env.s0
        v0 = flat(s0.cells[c][0])
        own, idx, lo, hi = (s0.m(x) for x in (OWN, IDX, LOG, HIG))
        h = own(v0)
        v = cellv(env, c)
        o.ensure(And(own(v) == h, v != h, h != 0, hi(v) >= lo(v)), 'walks over a tree', 'loop')
        o.ensure(And(lo(v) == lo(v0), hi(v) <= hi(v0)) if left else And(hi(v) == hi(v0), lo(v) >= lo(v0)), 'keeps the end', 'loop')

    def measure(s, env):
        v = cellv(env, c)
        return env.s0.m(HIG)(v) - env.s0.m(LOG)(v)
    return LoopSpec('descend ' + ('left' if left else 'right'), inv, measure=measure)


def climb(cx, cy, right):
    """cells x, y = parent of x walk up while x is a right (left) child"""
    def inv(o, s, env):
        s0 = env.s0
        x0 = flat(s0.cells[cx][0])
        own, idx, lo, hi, ln = (s0.m(x) for x in (OWN, IDX, LOG, HIG, LEN))
        h = own(x0)
        x, y = cellv(env, cx), cellv(env, cy)
        up = And(own(x) == h, h != 0, x != h, y == P(s0, x), (hi(x) == hi(x0)) if right else (lo(x) == lo(x0)))
        if right:
            up = Or(up, And(x == h, h != 0, y == P(s0, h), R(s0, h) == y, hi(x0) == ln(h) - 1, ln(h) > 0))
        o.ensure(up, 'climbs', 'loop')

    def measure(s, env):
        s0 = env.s0
        h = s0.m(OWN)(flat(s0.cells[cx][0]))
        x = cellv(env, cx)
        return ite(x == h, z3.IntVal(0), s0.m(LEN)(h) + 1 - (s0.m(HIG)(x) - s0.m(LOG)(x)))
    return LoopSpec('climb ' + ('right' if right else 'left'), inv, measure=measure)


def ptr_cells(L):
    return [c for c in L.free_cells()]


def node_loops(X, L):
    cs = ptr_cells(L)
    out = []
    for c in cs:
        if z3.is_int_value(flat(L.st.cells[c][0])):
            continue
        out += [descend(c, True), descend(c, False)]
    for cx in cs:
        for cy in cs:
            if cx != cy:
                out += [climb(cx, cy, True), climb(cx, cy, False)]
    return out


# ------------------------------------------------------------------ searching
def key_rank(s, x):
    return RANK(s.m(VAL)(x))


def slot_inv(s, h, x, y, k, upper):
    """x is the subtree just below position IDX(y); everything before x is below the key, y is not"""
    own, idx, at, lo, hi = (s.m(g) for g in (OWN, IDX, ATG, LOG, HIG))
    below = (lambda r: r <= k) if upper else (lambda r: r < k)
    return And(own(y) == h, h != 0,
               Or(x == 0, And(own(x) == h, x != h, hi(x) == idx(y) - 1)),
               Let(ite(x == 0, idx(y), lo(x)), lambda f: Or(f == 0, below(rk(s, at(h, f - 1))))),
               Or(y == h, Not(below(rk(s, y)))))


def Let(v, f):
    return f(v)


def size_of(s, x):
    return ite(x == 0, z3.IntVal(0), s.m(HIG)(x) - s.m(LOG)(x) + 1)


def search(cx, cy, key, upper):
    """cells x, y descend towards the bound of a key"""
    def inv(o, s, env):
        s0 = env.s0
        x, y = cellv(env, cx), cellv(env, cy)
        h = s0.m(OWN)(flat(s0.cells[cy][0]))
        o.ensure(slot_inv(s0, h, x, y, key_rank(env.entry, key(env)), upper), 'search range', 'loop')

    def measure(s, env):
        return size_of(env.s0, cellv(env, cx))
    return LoopSpec('search ' + ('upper' if upper else 'lower'), inv, measure=measure)


def equal_search(cx, cy, key):
    """as search, both sides strict until an equal element is met"""
    def inv(o, s, env):
        s0 = env.s0
        x, y = cellv(env, cx), cellv(env, cy)
        h = s0.m(OWN)(flat(s0.cells[cy][0]))
        k = key_rank(env.entry, key(env))
        o.ensure(slot_inv(s0, h, x, y, k, False), 'search range', 'loop')
        o.ensure(Or(y == h, rk(s0, y) > k), 'search range', 'loop')

    def measure(s, env):
        return size_of(env.s0, cellv(env, cx))
    return LoopSpec('search equal', inv, measure=measure)


def insert_search(cx, cy, cc, key):
    """cells x, y = parent of x, comp: x is the left child of y"""
    def inv(o, s, env):
        s0 = env.s0
        x, y = cellv(env, cx), cellv(env, cy)
        c = env.cur.cells[cc][0]
        c = c if c.sort() == B else (c % 2 == 1)
        h = s0.m(OWN)(flat(s0.cells[cy][0]))
        k = key_rank(env.entry, key(env))
        own, idx, at, lo, hi, ln = (s0.m(g) for g in (OWN, IDX, ATG, LOG, HIG, LEN))
        f = ite(y == h, z3.IntVal(0), ite(c, lo(y), idx(y) + 1))
        l = ite(y == h, ln(h) - 1, ite(c, idx(y) - 1, hi(y)))
        o.ensure(And(own(y) == h, h != 0, x == ite(y == h, P(s0, h), ite(c, L(s0, y), R(s0, y))), Imp(y == h, c),
                     Or(y == h, c == (k < rk(s0, y)))), 'search position', 'loop')
        o.ensure(And(Or(f == 0, rk(s0, at(h, f - 1)) <= k), Or(l == ln(h) - 1, rk(s0, at(h, l + 1)) > k)), 'search range', 'loop')

    def measure(s, env):
        return size_of(env.s0, cellv(env, cx))
    return LoopSpec('search insert position', inv, measure=measure)


def search_loops(X, L, key):
    cs = ptr_cells(L)
    out = []
    for cx in cs:
        for cy in cs:
            if cx != cy:
                out += [equal_search(cx, cy, key), search(cx, cy, key, False), search(cx, cy, key, True)]
                for cc in sorted(L.cells):
                    if L.st.cells[cc][1] == 1 and cc not in L.aff:
                        out.append(insert_search(cx, cy, cc, key))
    return out


class Bound(Spec):
    internal = True

    def __init__(self, upper):
        self.upper = upper
        self.short = 'rb_tree::m_%s_bound' % ('upper' if upper else 'lower')
        self.pattern = r'nestl::impl::detail::rb_tree<.*>::m_%s_bound\(' % ('upper' if upper else 'lower')

    def setup(self, X, s, fn):
        world_facts(s)
        return [sym_ptr(s, 'v'), sym_ptr(s, 'x', False), sym_hdr(s, 'y'), sym_ptr(s, 'k')]

    def pre(self, X, s, a):
        v, x, y, k = (flat(q) for q in a)
        h = hdr(v)
        return [('key is a live object', s.m(LIVE)(k), 'lifetime'), ('search range', slot_inv(s, h, x, y, key_rank(s, k), self.upper), 'contents')] + shape(s, h)

    def post(self, o, s, a, case):
        v, x, y, k = (flat(q) for q in a)
        r = o.choose('r', lambda f, r: r)
        o.ensure(slot_inv(s, hdr(v), z3.IntVal(0), r, key_rank(s, k), self.upper), 'bound of the key', 'contents')
        return r

    def loopspecs(self, X, L):
        return search_loops(X, L, lambda env: flat(env.args[3]))


class InsertPos(Spec):
    internal = True
    short = 'rb_tree::m_get_insert_unique_pos'
    pattern = r'nestl::impl::detail::rb_tree<.*>::m_get_insert_unique_pos\('

    def setup(self, X, s, fn):
        world_facts(s)
        return [sym_ptr(s, 'v'), sym_ptr(s, 'k')]

    def pre(self, X, s, a):
        v, k = (flat(q) for q in a)
        h = hdr(v)
        return [('key is a live object', s.m(LIVE)(k), 'lifetime')] + shape(s, h) + colors(s, h)

    def cases(self, X, s, a):
        return ['found', 'new']

    def post(self, o, s, a, case):
        v, k = (flat(q) for q in a)
        h, k = hdr(v), key_rank(s, k)
        x, y = o.choose('x', lambda f, r: r[0]), o.choose('y', lambda f, r: r[1])
        own, idx, at, ln = s.m(OWN), s.m(IDX), s.m(ATG), s.m(LEN)
        if case == 'found':
            o.ensure(y == 0, 'equal element present', 'case')
            o.ensure(And(own(x) == h, x != h, rk(s, x) == k), 'an equal element', 'contents')
        else:
            o.ensure(y != 0, 'no equal element', 'case')
            left = Or(y == h, k < rk(s, y))
            q = ite(left, idx(y), idx(y) + 1)
            o.ensure(And(x == 0, own(y) == h, Imp(y == h, ln(h) == 0), Or(y == h, ite(left, L(s, y), R(s, y)) == 0),
                         Or(q == 0, rk(s, at(h, q - 1)) < k), Or(q == ln(h), rk(s, at(h, q)) > k)), 'insert position', 'contents')
        return [x, y]

    def loopspecs(self, X, L):
        return search_loops(X, L, lambda env: flat(env.args[1]))


class EqualRange(Spec):
    internal = True
    short = 'rb_tree::equal_range'
    pattern = r'nestl::impl::detail::rb_tree<.*>::equal_range\('

    def setup(self, X, s, fn):
        world_facts(s)
        return [sym_ptr(s, 'v'), sym_ptr(s, 'k')]

    def pre(self, X, s, a):
        v, k = (flat(q) for q in a)
        h = hdr(v)
        return [('key is a live object', s.m(LIVE)(k), 'lifetime')] + shape(s, h) + ordered(s, h)

    def cases(self, X, s, a):
        return ['found', 'absent']

    def post(self, o, s, a, case):
        v, k = (flat(q) for q in a)
        h, k = hdr(v), key_rank(s, k)
        x, y = o.choose('x', lambda f, r: r[0]), o.choose('y', lambda f, r: r[1])
        own, idx, at = s.m(OWN), s.m(IDX), s.m(ATG)
        if case == 'found':
            o.ensure(x != y, 'an equal element present', 'case')
            o.ensure(And(own(x) == h, x != h, rk(s, x) == k, y == at(h, idx(x) + 1)), 'the range of the equal element', 'contents')
        else:
            o.ensure(x == y, 'no equal element', 'case')
            o.ensure(slot_inv(s, h, z3.IntVal(0), x, k, False), 'everything before the position is below the key', 'contents')
            o.ensure(Or(x == h, rk(s, x) > k), 'everything from the position is above the key', 'contents')
        return [x, y]

    def loopspecs(self, X, L):
        return search_loops(X, L, lambda env: flat(env.args[1]))


# ------------------------------------------------------------------ rotation
def upd(s, key, n, v):
    s.setm(key, s.m(key).set(n, v))


class Rotate(Spec):
    internal = True

    def __init__(self, left):
        self.left = left
        self.short = 'local_rb_tree_rotate_' + ('left' if left else 'right')
        self.pattern = r'nestl::impl::detail::%s\(' % self.short

    def setup(self, X, s, fn):
        world_facts(s)
        x, h = sym_hdr(s, 'x'), sym_hdr(s, 'h')
        return [x, FP(h, NB, Ly.p, Ly.poff)]

    def info(self, s, a):
        x, h = flat(a[0]), z3.simplify(flat(a[1]) - Ly.poff)
        F, G = (FL(), FR()) if self.left else (FR(), FL())
        y = s.m(G)(x)
        return x, h, F, G, y, s.m(F)(y), P(s, x)

    def pre(self, X, s, a):
        x, h, F, G, y, b, p = self.info(s, a)
        own, isb = s.m(OWN), s.m(ISB)
        ok = lambda n: And(own(n) == h, n != h, isb(n), n != 0)
        return [('rotated nodes', And(ok(x), ok(y), x != y, own(h) == h), 'contents'),
                ('inner child', Or(b == 0, And(ok(b), b != x, b != y, b != p)), 'contents'),
                ('parent', And(own(p) == h, Or(p == h, isb(p)), p != x, p != y, p != 0, (p == h) == (x == P(s, h)),
                               Or(p == h, L(s, p) == x, R(s, p) == x), Or(p == h, L(s, p) != R(s, p))), 'contents')]

    def post(self, o, s, a, case):
        x, h, F, G, y, b, p = self.info(s, a)
        lo, hi, idx = s.m(LOG), s.m(HIG), s.m(IDX)
        root = x == P(s, h)
        isl = s.m(F)(p) == x
        upd(s, G, x, b)
        upd(s, FP_(), b, ite(b != 0, x, P(s, b)))
        upd(s, FP_(), y, p)
        upd(s, F, p, ite(And(Not(root), isl), y, s.m(F)(p)))
        upd(s, G, p, ite(And(Not(root), Not(isl)), y, s.m(G)(p)))
        upd(s, FP_(), h, ite(root, y, P(s, h)))
        upd(s, F, y, x)
        upd(s, FP_(), x, y)
        if self.left:
            upd(s, LOG, y, lo(x))
            upd(s, HIG, x, idx(y) - 1)
        else:
            upd(s, HIG, y, hi(x))
            upd(s, LOG, x, idx(y) + 1)


# ------------------------------------------------------------------ insertion of a node
STRUCT = lambda: [FL(), FR(), FP_(), FC(), LOG, HIG, BHG]


def choose_maps(o, s, keys, wit=None):
    """the maps `keys` take unconstrained new values (their actual final values when checking)"""
    for k in keys:
        m = s.m(k)
        s.setm(k, o.choose_map(str(k[1].split('::')[-1]) + str(k[2]) if isinstance(k, tuple) else k, m.dom, m.rng,
                               lambda f, k=k: wit[k] if wit is not None and k in wit else f.m(k)))


def same_outside(o, s0, s, h, z=None):
    """nodes of other trees keep their links"""
    own = s.m(OWN)
    for nm, k in (('left', FL()), ('right', FR()), ('parent', FP_()), ('colour', FC()), ('ghost', LOG), ('ghost', HIG), ('ghost', BHG)):
        a, b = s0.m(k), s.m(k)
        if a is b:
            continue
        o.ensure(FA([I], lambda n: Imp(own(n) != h if z is None else And(own(n) != h, n != z), b(n) == a(n)), None if o.check else (lambda n: [rt(b, n), rt(a, n)])),
                 'nodes of other trees keep their %s' % nm, 'contents')


def ins_formulas(s0, h, q, x):
    own, idx, at, ln = (s0.m(g) for g in (OWN, IDX, ATG, LEN))
    return {OWN: own.set(x, h),
            IDX: idx.define(lambda f, n: ite(n == x, q, ite(And(own(n) == h, f(n) >= q), f(n) + 1, f(n)))),
            ATG: at.define(lambda f, g, i: ite(g == h, ite(i < q, f(h, i), ite(i == q, x, f(h, i - 1))), f(g, i))),
            LEN: ln.set(h, ln(h) + 1)}


def ins_ghosts(s0, h, q, x, p):
    own, idx, lo, hi = (s0.m(g) for g in (OWN, IDX, LOG, HIG))
    ip = idx(p)
    inh = lambda n: And(own(n) == h, n != h)
    return {LOG: lo.define(lambda f, n: ite(n == x, q, ite(And(inh(n), f(n) > ip), f(n) + 1, f(n)))),
            HIG: hi.define(lambda f, n: ite(n == x, q, ite(And(inh(n), f(n) >= ip), f(n) + 1, f(n)))),
            BHG: s0.m(BHG).set(x, z3.IntVal(0))}


def put_maps(o, s, new, s0):
    """set ghost maps to given formulas (in a check: the actual maps, with the formulas as obligations)"""
    for k, m in new.items():
        c = o.choose_map(k, m.dom, m.rng, lambda f, k=k, m=m: m if f.m(k) is s0.m(k) else f.m(k))
        s.setm(k, c)
        if c is m:
            continue
        o.ensure(FA(list(m.dom), lambda *a, m=m, c=c: c(*a) == m(*a), None if o.check else (lambda *a, c=c: [c.root()(*a)])), 'ghost ' + k, 'contents')


class InsertReb(Spec):
    internal = True
    heavy = join = True
    entry = short = 'rb_tree_insert_and_rebalance'
    pattern = r'nestl::impl::detail::rb_tree_insert_and_rebalance\('

    def setup(self, X, s, fn):
        world_facts(s)
        return [fresh_bool('left'), sym_hdr(s, 'x'), sym_hdr(s, 'p'), sym_hdr(s, 'h')]

    def info(self, s, a):
        left = a[0] if a[0].sort() == B else (a[0] % 2 == 1)
        x, p, h = (flat(q) for q in a[1:])
        return left, x, p, h, ite(left, s.m(IDX)(p), s.m(IDX)(p) + 1)

    def pre(self, X, s, a):
        left, x, p, h, q = self.info(s, a)
        own = s.m(OWN)
        return [('new node is unlinked', And(own(x) == 0, s.m(ISB)(x), x > 0, s.m(LIVE)(x + Lay.voff)), 'lifetime'),
                ('insert position is free', And(own(p) == h, ite(p == h, And(left, s.m(LEN)(h) == 0), ite(left, L(s, p), R(s, p)) == 0)), 'contents'),
                ('set is not too long', s.m(LEN)(h) + 1 < LMAX, 'overflow')] + shape(s, h) + colors(s, h)

    def post(self, o, s, a, case):
        left, x, p, h, q = self.info(s, a)
        s0 = s.clone()
        put_maps(o, s, ins_formulas(s0, h, q, x), s0)
        choose_maps(o, s, STRUCT(), ins_ghosts(s0, h, q, x, p) if o.check and o.final.m(LOG) is s0.m(LOG) else None)
        same_outside(o, s0, s, h)
        for n, f, t in shape(s, h) + colors(s, h):
            o.ensure(f, 'afterwards: ' + n, t)

    def loopspecs(self, X, L):
        return [self.reb(c) for c in ptr_cells(L)]

    def reb(self, c):
        def inv(o, s, env):
            s0, e0 = env.s0, env.entry
            left, x, p, h, q = self.info(e0, env.args)
            xc = cellv(env, c)
            put_maps(o, s, ins_formulas(e0, h, q, x), e0)
            first = o.check and env.k.eq(z3.IntVal(0))
            wit = ins_ghosts(e0, h, q, x, p) if first and o.final.m(LOG) is e0.m(LOG) else None
            if o.check and not first:
                f = o.final
                bh = f.m(BHG)
                l = L(f, xc)
                wit = {BHG: bh.set(xc, ite(l == 0, z3.IntVal(0), bh(l) + C(f, l)))}
            choose_maps(o, s, STRUCT(), wit)
            same_outside(o, e0, s, h)
            o.ensure(And(s.m(OWN)(xc) == h, xc != h, C(s, xc) == RED), 'current node', 'loop')
            for n, f, t in shape(s, h) + colors(s, h, redred=xc, rootred=xc):
                o.ensure(f, n, t)

        def measure(s, env):
            left, x, p, h, q = self.info(env.entry, env.args)
            xc = cellv(env, c)
            return ite(Or(xc == P(s, h), C(s, P(s, xc)) != RED), z3.IntVal(0), s.m(LEN)(h) + 1 - size_of(s, xc))
        return LoopSpec('rebalance after insertion', inv, measure=measure, join=True)


# ------------------------------------------------------------------ removal of a node
def del_formulas(s0, h, z):
    own, idx, at, ln = (s0.m(g) for g in (OWN, IDX, ATG, LEN))
    iz = idx(z)
    return {OWN: own.set(z, z3.IntVal(0)),
            IDX: idx.define(lambda f, n: ite(And(own(n) == h, f(n) > iz), f(n) - 1, f(n))),
            ATG: at.define(lambda f, g, i: ite(g == h, ite(i < iz, f(h, i), f(h, i + 1)), f(g, i))),
            LEN: ln.set(h, ln(h) - 1)}


def del_ghosts(s0, h, z):
    own, idx, lo, hi, at, bh = (s0.m(g) for g in (OWN, IDX, LOG, HIG, ATG, BHG))
    iz = idx(z)
    two = And(L(s0, z) != 0, R(s0, z) != 0)
    y = at(h, iz + 1)
    inh = lambda n: And(own(n) == h, n != h)
    return {LOG: lo.define(lambda f, n: ite(And(two, n == y), f(z), ite(And(inh(n), f(n) > ite(two, iz + 1, iz)), f(n) - 1, f(n)))),
            HIG: hi.define(lambda f, n: ite(And(two, n == y), f(z) - 1, ite(And(inh(n), f(n) >= iz), f(n) - 1, f(n)))),
            BHG: bh.set(y, ite(two, bh(z), bh(y)))}


def succ_hints(o, s0, h, z):
    """when a node has been given z's left subtree, it is the successor of z; what that says about its links"""
    f, lz = o.final, L(s0, z)
    m = f.m(FL())
    while m.prev is not None:
        if m.u[0] == 'pt' and z3.simplify(m.u[2]).eq(z3.simplify(lz)):
            y = m.u[1][0]
            own, idx, at, lo, hi = (s0.m(g) for g in (OWN, IDX, ATG, LOG, HIG))
            iz = idx(z)
            for g in (And(own(y) == h, y != h, idx(y) == iz + 1, lo(y) == iz + 1, y != z, L(s0, y) == 0), y == at(h, iz + 1),
                      And(lz != 0, R(s0, z) != 0, own(lz) == h, lo(R(s0, z)) == iz + 1, hi(lz) == iz - 1),
                      (lambda p: And(own(p) == h, p != h, p != lz, p != P(s0, z), Or(p == z, And(L(s0, p) == y, lo(p) == iz + 1, R(s0, p) != y))))(P(s0, y)),
                      (lambda x: Or(x == 0, And(own(x) == h, x != h, x != lz, x != R(s0, z), lo(x) == iz + 2, hi(x) == hi(y), P(s0, x) == y)))(R(s0, y)),
                      (lambda q: And(own(q) == h, q != y, q != lz, q != R(s0, z), Or(q == h, idx(q) < iz, idx(q) > hi(z))))(P(s0, z))):
                o.X.hint(o.s, g)
            return
        m = m.prev


class EraseReb(Spec):
    internal = True
    heavy = join = True
    entry = short = 'rb_tree_rebalance_for_erase'
    pattern = r'nestl::impl::detail::rb_tree_rebalance_for_erase\('
    win = None

    def setup(self, X, s, fn):
        world_facts(s)
        return [sym_hdr(s, 'z'), sym_hdr(s, 'h')]

    def info(self, a):
        return flat(a[0]), flat(a[1])

    def pre(self, X, s, a):
        z, h = self.info(a)
        return [('node of the set', And(s.m(OWN)(z) == h, z != h, h != 0), 'contents')] + shape(s, h) + colors(s, h)

    def post(self, o, s, a, case):
        z, h = self.info(a)
        s0 = s.clone()
        put_maps(o, s, del_formulas(s0, h, z), s0)
        wit = None
        if o.check:
            f = o.final
            if f.m(LOG) is s0.m(LOG):
                succ_hints(o, s0, h, z)
                wit = del_ghosts(s0, h, z)
            elif self.win is not None and self.win[1] in f.cells:
                # heights after the last step: of the parent of the current node and of the node above
                xp = flat(f.cells[self.win[1]][0])
                bh = f.m(BHG)
                l = L(f, xp)
                b1 = bh.set(xp, ite(l == 0, z3.IntVal(0), bh(l) + C(f, l)))
                w = P(f, xp)
                wit = {BHG: b1.set(w, ite(xp == h, b1(w), b1(xp) + C(f, xp)))}
        choose_maps(o, s, STRUCT(), wit)
        same_outside(o, s0, s, h, z)
        for n, f, t in shape(s, h) + colors(s, h):
            o.ensure(f, 'afterwards: ' + n, t)
        return z

    def loopspecs(self, X, L):
        cs = ptr_cells(L)
        return [self.reb(cx, cp) for cx in cs for cp in cs if cx != cp]

    def reb(self, cx, cp):
        def inv(o, s, env):
            e0 = env.entry
            self.win = (cx, cp)
            z, h = self.info(env.args)
            x, xp = cellv(env, cx), cellv(env, cp)
            put_maps(o, s, del_formulas(e0, h, z), e0)
            first = o.check and env.k.eq(z3.IntVal(0))
            if first:
                succ_hints(o, e0, h, z)
            wit = del_ghosts(e0, h, z) if first and o.final.m(LOG) is e0.m(LOG) else None
            if o.check and not first:
                f = o.final
                bh = f.m(BHG)
                l = L(f, x)
                wit = {BHG: bh.set(x, ite(l == 0, z3.IntVal(0), bh(l) + C(f, l)))}
            choose_maps(o, s, STRUCT(), wit)
            same_outside(o, e0, s, h, z)
            own = s.m(OWN)
            o.ensure(And(own(xp) == h, Or(x == 0, And(own(x) == h, x != h, P(s, x) == xp)),
                         ite(xp == h, x == P(s, h), And(Or(L(s, xp) == x, R(s, xp) == x), L(s, xp) != R(s, xp)))), 'current node', 'loop')
            for n, f, t in shape(s, h) + colors(s, h, redred=x, deficit=(xp, x, z3.IntVal(1)), rootred=x, redpar=x):
                o.ensure(f, n, t)

        def measure(s, env):
            z, h = self.info(env.args)
            return s.m(LEN)(h) + 1 - size_of(s, cellv(env, cx))
        return LoopSpec('rebalance after removal', inv, measure=measure, join=True)


# ------------------------------------------------------------------ destruction of a subtree
def in_sub(s, h, x):
    """node n belongs to the subtree of h at x"""
    own, idx, lo, hi = (s.m(g) for g in (OWN, IDX, LOG, HIG))
    return lambda n: And(x != 0, own(n) == h, n != h, lo(x) <= idx(n), idx(n) <= hi(x))


def inside(s, h):
    """the subtree of a node within the range of another lies inside that range"""
    own, idx, lo, hi = (s.m(g) for g in (OWN, IDX, LOG, HIG))
    return lambda n, m: Imp(And(own(n) == h, n != h, own(m) == h, m != h, lo(n) <= idx(m), idx(m) <= hi(n)), And(lo(n) <= lo(m), hi(m) <= hi(n)))


def subtrees_nest(X, s, h, loc=None):
    lo, hi, own = s.m(LOG), s.m(HIG), s.m(OWN)
    cl = inside(s, h)
    return X.induction(s, 'subtrees nest', lambda n: hi(n) - lo(n), cl, lambda *a: [rt(own, x) for x in a], 1, loc, lambda n, m: [L(s, n), R(s, n), s.m(IDX)(n), s.m(IDX)(m)],
                       [x for x in shape(s, h) if 'parent' not in x[0]])


def parents_in(s, h):
    """the parent of a node within the range of another lies in that range too"""
    own, idx, lo, hi = (s.m(g) for g in (OWN, IDX, LOG, HIG))
    return lambda n, m: Imp(And(own(n) == h, n != h, own(m) == h, m != h, m != n, lo(n) <= idx(m), idx(m) <= hi(n)),
                            And(P(s, m) != h, own(P(s, m)) == h, lo(n) <= idx(P(s, m)), idx(P(s, m)) <= hi(n)))


def parents_nest(X, s, h, loc=None):
    lo, hi, own = s.m(LOG), s.m(HIG), s.m(OWN)
    return X.induction(s, 'parents nest', lambda n: hi(n) - lo(n), parents_in(s, h), lambda *a: [rt(own, a[0])] + [rt(s.m(FP_()), a[1]) for _ in a[1:]], 1, loc,
                       lambda n, m: [L(s, n), R(s, n), s.m(IDX)(n), s.m(IDX)(m), P(s, m)], [x for x in shape(s, h) if 'parent' not in x[0]])


def part_tree(s, h, x, a_):
    """the nodes of h below x are live, allocated and linked downwards; positions without a node are allowed"""
    own, idx, at, lo, hi = (s.m(g) for g in (OWN, IDX, ATG, LOG, HIG))
    lv, isb, bo = s.m(LIVE), s.m(ISB), s.m(BOWN)
    S = in_sub(s, h, x)

    def child(f, l):
        def body(n):
            c = f(s, n)
            iv = And(lo(c) == lo(n), hi(c) == idx(n) - 1) if l else And(lo(c) == idx(n) + 1, hi(c) == hi(n))
            return Imp(S(n), Or(c == 0, And(own(c) == h, c != h, iv, lo(c) <= idx(c), idx(c) <= hi(c))))
        return body

    def gap(f, l):
        def body(n, m):
            return Imp(And(S(n), S(m), f(s, n) == 0, And(idx(m) < idx(n), idx(m) >= lo(n)) if l else And(idx(m) > idx(n), idx(m) <= hi(n))), FALSE)
        return body
    nest = inside(s, h)
    return [('subtrees nest', FA([I, I], lambda n, m: Imp(And(S(n), S(m)), nest(n, m)), lambda n, m: [(rt(own, n), rt(own, m))]), 'contents'),
            ('nodes are in their subtree', FA([I], lambda n: Imp(S(n), And(lo(n) <= idx(n), idx(n) <= hi(n), at(h, idx(n)) == n, n > 0)),
                                              lambda n: [rt(own, n)]), 'contents'),
            ('nodes are live and allocated', FA([I], lambda n: Imp(S(n), And(isb(n), lv(n + Lay.voff), bo(n) == a_)), lambda n: [rt(own, n), rt(isb, n)]), 'lifetime'),
            ('left links', FA([I], child(L, True), lambda n: [rt(s.m(FL()), n)]), 'contents'),
            ('right links', FA([I], child(R, False), lambda n: [rt(s.m(FR()), n)]), 'contents'),
            ('nothing where there is no left link', FA([I, I], gap(L, True), lambda n, m: [(rt(s.m(FL()), n), rt(own, m))]), 'contents'),
            ('nothing where there is no right link', FA([I, I], gap(R, False), lambda n, m: [(rt(s.m(FR()), n), rt(own, m))]), 'contents')]


def free_nodes(s, gone):
    """the nodes for which gone(n) holds: element destroyed, block freed, in no tree"""
    v = Lay.voff
    s.setm(ISB, s.m(ISB).define(lambda f, n: And(f(n), Not(gone(n)))))
    s.setm(LIVE, s.m(LIVE).define(lambda f, a: And(f(a), Not(gone(a - v)))))
    s.setm(OWN, s.m(OWN).define(lambda f, n: ite(gone(n), z3.IntVal(0), f(n))))


class EraseSub(Spec):
    internal = True
    short = 'rb_tree::m_erase'
    pattern = r'nestl::impl::detail::rb_tree<.*>::m_erase\('

    def setup(self, X, s, fn):
        world_facts(s)
        return [sym_ptr(s, 'v'), sym_ptr(s, 'x', False)]

    def info(self, a):
        return flat(a[0]), flat(a[1])

    def pre(self, X, s, a):
        v, x = self.info(a)
        h = hdr(v)
        return [('subtree of the set', Or(x == 0, And(s.m(OWN)(x) == h, x != h, s.m(LOG)(x) <= s.m(IDX)(x), s.m(IDX)(x) <= s.m(HIG)(x))), 'contents')] + \
            part_tree(s, h, x, al(s, v))

    def rank(self, s, a):
        return size_of(s, flat(a[1]))

    def lemmas(self, X, s, a, loc):
        subtrees_nest(X, s, hdr(a[0]), loc)

    def post(self, o, s, a, case):
        v, x = self.info(a)
        s0 = s.clone()
        free_nodes(s, in_sub(s0, hdr(v), x))

    def loopspecs(self, X, L):
        return [self.walk(c) for c in ptr_cells(L)]

    def walk(self, c):
        def inv(o, s, env):
            e0 = env.entry
            v, x = self.info(env.args)
            h = hdr(v)
            cur = cellv(env, c)
            own, idx, lo, hi = (e0.m(g) for g in (OWN, IDX, LOG, HIG))
            S = in_sub(e0, h, x)
            o.ensure(Or(cur == 0, And(S(cur), lo(cur) == lo(x), hi(cur) <= hi(x))), 'current node', 'loop')
            free_nodes(s, lambda n: And(S(n), Or(cur == 0, idx(n) > hi(cur))))

        def measure(s, env):
            return size_of(env.entry, cellv(env, c))
        return LoopSpec('erase subtree', inv, measure=measure)


# ------------------------------------------------------------------ copying a subtree
class CloneNode(Spec):
    internal = True
    short = 'rb_tree::m_clone_node'
    pattern = r'nestl::impl::detail::rb_tree<.*>::m_clone_node<'

    def setup(self, X, s, fn):
        world_facts(s)
        return [sym_ptr(s, 'v'), new_err(X, s), sym_ptr(s, 'x')]

    def pre(self, X, s, a):
        x = flat(a[2])
        return [('err is clear', meq(errv(s, a[1]), 0), 'err'), ('a node', And(s.m(ISB)(x), s.m(LIVE)(x + Lay.voff), s.m(OWN)(x) != x), 'lifetime'),
                ('of a set', s.m(OWN)(hdr(a[0])) == hdr(a[0]), 'contents')]

    def cases(self, X, s, a):
        return ['ok', 'fail']

    def post(self, o, s, a, case):
        v, e, x = flat(a[0]), a[1], flat(a[2])
        h = hdr(v)
        if case == 'fail':
            err_fail(o, s, e)
            return z3.IntVal(0)
        err_ok(o, s, e)
        s0 = s.clone()
        n = o.choose('n', lambda f, r: r)
        new_node(o, s, v, n, s0.m(VAL)(x + Lay.voff))
        o.ensure(n != h, 'a fresh node', 'lifetime')
        upd(s, FC(), n, C(s0, x))
        upd(s, FL(), n, z3.IntVal(0))
        upd(s, FR(), n, z3.IntVal(0))
        upd(s, FP_(), n, o.choose('p', lambda f, r: P(f, r)))
        # ghost: the copy takes the position of the original
        i = s0.m(IDX)(x)
        s.up(OWN, n, h)
        for g in (IDX, LOG, HIG, BHG):
            s.up(g, n, s0.m(g)(x))
        s.up(ATG, (h, i), n)
        return n


def mirror(o, s, h, g, x, p, a_, F, b):
    """h comes to hold fresh copies of the nodes of g at positions F..b (part of the subtree x, whose copy has parent p)"""
    s0 = s.clone()
    at, idx = s0.m(ATG), s0.m(IDX)
    new = o.choose_map('new', [I], I, lambda f: (lambda i: f.m(ATG)(h, i)))
    nidx = o.choose_map('newidx', [I], I, lambda f: (lambda n: ite(And(f.m(OWN)(n) == h, n != h), f.m(IDX)(n), z3.IntVal(-1))))
    isnew = lambda n: And(F <= nidx(n), nidx(n) <= b, new(nidx(n)) == n)
    isb, lv, own, bo, va = s.m(ISB), s.m(LIVE), s.m(OWN), s.m(BOWN), s.m(VAL)
    v_ = Lay.voff
    o.ensure(FA([I], lambda i: Imp(And(F <= i, i <= b), And(nidx(new(i)) == i, new(i) > 0, new(i) != h, Not(isb(new(i))), own(new(i)) == 0, Not(lv(new(i) + v_)))),
                None if o.check else (lambda i: [new(i)])), 'the copies are fresh and distinct', 'lifetime')
    src = lambda n: at(g, nidx(n))
    mir = lambda c: ite(Or(c == 0, idx(c) < F), z3.IntVal(0), new(idx(c)))
    put = lambda k, f: s.setm(k, s.m(k).define(lambda q, n: ite(isnew(n), f(n), q(n))))
    put(OWN, lambda n: h)
    put(IDX, lambda n: nidx(n))
    s.setm(ATG, at.define(lambda q, t, i: ite(And(t == h, F <= i, i <= b), new(i), q(t, i))))
    for k in (LOG, HIG, BHG):
        put(k, lambda n, k=k: s0.m(k)(src(n)))
    put(FC(), lambda n: C(s0, src(n)))
    put(FL(), lambda n: mir(L(s0, src(n))))
    put(FR(), lambda n: mir(R(s0, src(n))))
    put(FP_(), lambda n: ite(src(n) == x, p, new(idx(P(s0, src(n))))))
    put(ISB, lambda n: TRUE)
    put(BOWN, lambda n: a_)
    s.setm(LIVE, lv.define(lambda q, y: ite(isnew(y - v_), TRUE, q(y))))
    s.setm(VAL, va.define(lambda q, y: ite(isnew(y - v_), va(src(y - v_) + v_), q(y))))
    return new


_named = {}


def named(s, e):
    """a constant equal to e (keeps triggers simple)"""
    e = z3.simplify(e)
    if z3.is_const(e):
        return e
    k = e.get_id()
    if k not in _named:
        _named[k] = (e, fresh_int('g'))
    s.assume(_named[k][1] == e)
    return _named[k][1]


class CopySub(Spec):
    internal = heavy = True
    entry = short = 'rb_tree::m_copy'
    pattern = r'nestl::impl::detail::rb_tree<.*>::m_copy<'

    def matches(self, X, name, dem):
        return Spec.matches(self, X, name, dem) and ')::' not in dem

    def setup(self, X, s, fn):
        world_facts(s)
        return [sym_ptr(s, 'v'), new_err(X, s), sym_ptr(s, 'x'), sym_hdr(s, 'p')]

    def info(self, s, a):
        v, x, p = flat(a[0]), flat(a[2]), flat(a[3])
        return v, a[1], x, p, hdr(v), named(s, s.m(OWN)(x))

    def pre(self, X, s, a):
        v, e, x, p, h, g = self.info(s, a)
        own, idx, lo, hi = (s.m(q) for q in (OWN, IDX, LOG, HIG))
        nest = inside(s, g)
        return [('err is clear', meq(errv(s, e), 0), 'err'), ('a node of another set', And(g != 0, x != g, h != g, own(h) == h), 'contents'),
                ('the positions are free', FA([I], lambda n: Imp(And(own(n) == h, n != h), Not(And(lo(x) <= idx(n), idx(n) <= hi(x)))), lambda n: [rt(own, n)]), 'contents'),
                ('subtrees nest', FA([I, I], nest, lambda n, m: [(rt(own, n), rt(own, m))]), 'contents'),
                ('parents nest', FA([I, I], parents_in(s, g), lambda n, m: [(rt(own, n), rt(s.m(FP_()), m))]), 'contents')] + shape(s, g)

    def cases(self, X, s, a):
        return ['ok', 'fail']

    def rank(self, s, a):
        return size_of(s, flat(a[2]))

    def lemmas(self, X, s, a, loc):
        g = named(s, s.m(OWN)(flat(a[2])))
        subtrees_nest(X, s, g, loc)
        parents_nest(X, s, g, loc)

    def post(self, o, s, a, case):
        v, e, x, p, h, g = self.info(s, a)
        if case == 'fail':
            err_fail(o, s, e)
            return z3.IntVal(0)
        err_ok(o, s, e)
        new = mirror(o, s, h, g, x, p, al(s, v), s.m(LOG)(x), s.m(HIG)(x))
        return new(s.m(IDX)(x))

    def loopspecs(self, X, L):
        cs = ptr_cells(L)
        return [self.walk(cx, cp) for cx in cs for cp in cs if cx != cp]

    def walk(self, cx, cp):
        def inv(o, s, env):
            e0 = env.entry
            v, e, x, p, h, g = self.info(e0, env.args)
            cur, par = cellv(env, cx), cellv(env, cp)
            own, idx, lo, hi = (e0.m(q) for q in (OWN, IDX, LOG, HIG))
            F = ite(cur == 0, lo(x), hi(cur) + 1)
            o.ensure(Or(cur == 0, And(own(cur) == g, cur != g, lo(cur) == lo(x), hi(cur) < idx(x), idx(P(e0, cur)) == hi(cur) + 1)), 'current node', 'loop')
            for k in STRUCT() + [OWN, IDX, ATG, ISB, LIVE, BOWN, VAL]:
                s.setm(k, e0.m(k))
            new = mirror(o, s, h, g, x, p, al(e0, v), F, hi(x))
            o.ensure(And(new(idx(x)) == env.s0.m(ATG)(h, idx(x)), Or(cur == 0, par == new(hi(cur) + 1))), 'the copies of the root and of the last node', 'loop')

        def measure(s, env):
            return size_of(env.entry, cellv(env, cx))
        return LoopSpec('copy down the left spine', inv, measure=measure)


# ------------------------------------------------------------------ public operations
class SSpec(Spec):
    """args letters: v set, o other set, w raw memory for a set, e err, x element, p/q positions, a allocator, b bool result, * pointer result"""
    internal = False
    entry = None
    args = ''

    def matches(self, X, name, dem):
        return name == '@' + self.entry if self.entry else Spec.matches(self, X, name, dem)

    def A(self, a):
        return {ch: (x if ch in 'eb*' else flat(x)) for ch, x in zip(self.args, a)}

    def setup(self, X, s, fn):
        world_facts(s)
        out = []
        for ch in self.args:
            if ch == 'e':
                out.append(new_err(X, s))
            elif ch in '*b':
                aid = s.new_cell(PTR_ if ch == '*' else Ty('i', 8), 'out')
                s.cells[(aid, 0)] = (fresh_int('out'), 8 if ch == '*' else 1)
                out.append(LP(aid, 0))
            else:
                out.append(sym_ptr(s, ch))
        if getattr(self, 'variant', None) == 'self':
            out[self.args.index('o')] = out[self.args.index('v')]
        return out

    def pre(self, X, s, a):
        d = self.A(a)
        out = []
        if 'e' in d:
            out.append(('err is clear', meq(errv(s, d['e']), 0), 'err'))
        for ch in 'vo':
            if ch in d:
                out += wfs(s, d[ch])
        if 'v' in d and 'o' in d and not d['v'].eq(d['o']):
            out.append(('distinct sets', d['v'] != d['o'], 'contents'))
        if 'w' in d:
            h = hdr(d['w'])
            own, at = s.m(OWN), s.m(ATG)
            out.append(('raw memory', And(own(h) == h, s.m(LEN)(h) == 0, s.m(IDX)(h) == 0, at(h, 0) == h), 'lifetime'))
            out.append(('raw memory', FA([I], lambda n: Or(own(n) != h, n == h), lambda n: [rt(own, n)]), 'lifetime'))
            if 'o' in d:
                out.append(('distinct sets', d['w'] != d['o'], 'contents'))
        if 'x' in d:
            out.append(('value is a live object', s.m(LIVE)(d['x']), 'lifetime'))
        if 'p' in d and 'v' in d:
            out.append(('position in the set', s.m(OWN)(d['p']) == hdr(d['v']), 'contents'))
        return out + self.pre2(X, s, d)

    def pre2(self, X, s, d):
        return []

    def post(self, o, s, a, case):
        return self.eff(o, s, self.A(a), case)


class Getter(SSpec):
    def __init__(self, entry, fn, args='v', pre=None):
        self.entry = self.short = entry
        self.fn_, self.args, self.p_ = fn, args, pre

    def pre2(self, X, s, d):
        return [('precondition', self.p_(s, d), 'contents')] if self.p_ else []

    def eff(self, o, s, d, case):
        return self.fn_(s, d)


H = lambda d: hdr(d['v'])
GETTERS = [Getter('set_' + n, lambda s, d: s.m(ATG)(H(d), 0)) for n in ('begin', 'begin_c', 'cbegin', 'rend', 'rend_c', 'crend')] + \
          [Getter('set_' + n, lambda s, d: H(d)) for n in ('end', 'end_c', 'cend', 'rbegin', 'rbegin_c', 'crbegin')] + \
          [Getter('set_empty', lambda s, d: meq(s.m(LEN)(H(d)), 0)),
           Getter('set_size', lambda s, d: s.m(LEN)(H(d))),
           Getter('set_get_allocator', lambda s, d: al(s, d['v']))]


class MaxSize(SSpec):
    entry = short = 'set_max_size'
    args = 'v'

    def eff(self, o, s, d, case):
        r = o.choose('r', lambda f, r: o.X.canon_u(f, r))
        o.ensure(r >= s.m(LEN)(H(d)), 'max_size is at least size', 'contents')
        return r


class IterOp(SSpec):
    def __init__(self, entry, fn, args='p', pre=None):
        self.entry = self.short = entry
        self.fn_, self.args, self.p_ = fn, args, pre

    def pre(self, X, s, a):
        d = self.A(a)
        out = []
        for ch in 'pq':
            if ch in d:
                h = s.m(OWN)(d[ch])
                out += [('iterator into a set', h != 0, 'contents')] + shape(s, h) + colors(s, h)
        if self.p_:
            out.append(('precondition', self.p_(s, d), 'contents'))
        return out

    def post(self, o, s, a, case):
        d = self.A(a)
        if '*' in self.args:
            i = self.args.index('*')
            s.wcell(a[i].aid, a[i].off, d['p'], 8)
        return self.fn_(s, d)


def it_next(s, d):
    return s.m(ATG)(s.m(OWN)(d['p']), s.m(IDX)(d['p']) + 1)


def it_prev(s, d):
    return s.m(ATG)(s.m(OWN)(d['p']), s.m(IDX)(d['p']) - 1)


notend = lambda s, d: s.m(OWN)(d['p']) != d['p']
notbeg = lambda s, d: s.m(IDX)(d['p']) > 0
ITERS = []
for _k in ('it', 'ci'):
    ITERS += [IterOp('set_%s_inc' % _k, it_next, pre=notend), IterOp('set_%s_dec' % _k, it_prev, pre=notbeg),
              IterOp('set_%s_postinc' % _k, it_next, 'p*', pre=notend), IterOp('set_%s_postdec' % _k, it_prev, 'p*', pre=notbeg),
              IterOp('set_%s_deref' % _k, lambda s, d: d['p'] + Lay.voff, pre=notend),
              IterOp('set_%s_arrow' % _k, lambda s, d: d['p'] + Lay.voff, pre=notend),
              IterOp('set_%s_eq' % _k, lambda s, d: meq(d['p'], d['q']), 'pq'),
              IterOp('set_%s_ne' % _k, lambda s, d: Not(meq(d['p'], d['q'])), 'pq')]
ITERS.append(IterOp('set_ci_from', lambda s, d: d['p'], 'p'))

class Find(SSpec):
    args = 'vx'

    def __init__(self, entry):
        self.entry = self.short = entry

    def cases(self, X, s, a):
        return ['found', 'absent']

    def eff(self, o, s, d, case):
        h, k = H(d), key_rank(s, d['x'])
        r = o.choose('r', lambda f, r: r)
        own = s.m(OWN)
        if case == 'found':
            o.ensure(r != h, 'found', 'case')
            o.ensure(And(own(r) == h, rk(s, r) == k), 'the element found is equal to the key', 'contents')
        else:
            o.ensure(r == h, 'absent', 'case')
            va, v = s.m(VAL), Lay.voff
            o.ensure(FA([I], lambda n: Imp(And(own(n) == h, n != h), rk(s, n) != k), lambda n: [rt(va, n + v)]), 'no element is equal to the key', 'contents')
        return r

    def loopspecs(self, X, L):
        return search_loops(X, L, lambda env: flat(env.args[1]))


class Op(SSpec):
    def __init__(self, entry, args, eff, variants=None, cases=None, pre=None, loops=None):
        self.entry = self.short = entry
        self.args, self.eff = args, eff
        if variants:
            self.variants = variants
        self.cases_ = cases or (['ok', 'fail'] if 'e' in args else ['ok'])
        self.p_ = pre
        self.l_ = loops

    def cases(self, X, s, a):
        return self.cases_

    def pre2(self, X, s, d):
        return [('precondition', f, 'contents') for f in (self.p_(s, d) if self.p_ else [])]

    def loopspecs(self, X, L):
        return self.l_(self, X, L) if self.l_ else []


def post_wf(o, s, *ls):
    for l in ls:
        for n, f, t in wfs(s, l, o.check):
            o.ensure(f, 'afterwards: ' + n, t)


def new_node(o, s, l, node, val):
    o.ensure(And(node > 0, Not(s.m(ISB)(node)), s.m(OWN)(node) == 0, Not(s.m(LIVE)(node + Lay.voff))), 'a fresh node', 'lifetime')
    s.up(ISB, node, True)
    s.up(BOWN, node, al(s, l))
    s.up(LIVE, node + Lay.voff, True)
    s.up(VAL, node + Lay.voff, val)


def outb(s, d, v):
    s.wcell(d['b'].aid, d['b'].off, v, 1)


def e_insert(move):
    def eff(o, s, d, case):
        h, x = H(d), d['x']
        k = key_rank(s, x)
        xv = s.m(VAL)(x)
        own = s.m(OWN)
        flag = lambda f: (lambda c: c if c.sort() == I else ite(c, z3.IntVal(1), z3.IntVal(0)))(f.cells[(d['b'].aid, d['b'].off)][0])
        if case == 'found':
            r = o.choose('r', lambda f, r: r)
            if o.check:
                o.ensure(And(meq(errv(o.final, d['e']), 0), own(r) == h), 'present', 'case')
            o.ensure(And(own(r) == h, r != h, rk(s, r) == k), 'the iterator refers to the equal element', 'contents')
            if o.check:
                o.ensure(flag(o.final) % 2 == 0, 'reports that nothing was inserted', 'contents')
                outb(s, d, flag(o.final))
            return r
        s1, va, v = s.clone(), s.m(VAL), Lay.voff
        absent = lambda: o.ensure(FA([I], lambda n: Imp(And(own(n) == h, n != h), rk(s1, n) != k), lambda n: [rt(va, n + v)]), 'no element was equal to it', 'contents')
        if move:
            s.up(VAL, x, o.choose('moved', lambda f, r: f.m(VAL)(x)))
        if case == 'fail':
            err_fail(o, s, d['e'])
            absent()
            if o.check:
                outb(s, d, flag(o.final))
            return None
        err_ok(o, s, d['e'])
        r = o.choose('r', lambda f, r: r)
        if o.check:
            o.ensure(own(r) != h, 'inserted', 'case')
            o.ensure(flag(o.final) % 2 == 1, 'reports the insertion', 'contents')
            outb(s, d, flag(o.final))
        absent()
        new_node(o, s, d['v'], r, xv)
        s0 = s.clone()
        q = o.choose('q', lambda f, _: f.m(IDX)(r))
        put_maps(o, s, ins_formulas(s0, h, q, r), s0)
        choose_maps(o, s, STRUCT())
        same_outside(o, s0, s, h)
        s.setfld(Ly.imp, Ly.cnt, d['v'], CNT(s, d['v']) + 1)
        post_wf(o, s, d['v'])
        return r
    return eff


def short_enough(s, d):
    return [s.m(LEN)(H(d)) + 1 < LMAX]


def drop_node(o, s, l, z):
    """the effect of removing node z: its element and block are gone, the rest keeps its order"""
    h = hdr(l)
    s0 = s.clone()
    put_maps(o, s, del_formulas(s0, h, z), s0)
    choose_maps(o, s, STRUCT())
    same_outside(o, s0, s, h, z)
    s.up(ISB, z, False)
    s.up(LIVE, z + Lay.voff, False)
    s.setfld(Ly.imp, Ly.cnt, l, CNT(s, l) - 1)


def e_erase_pos(o, s, d, case):
    nxt = it_next(s, d)
    drop_node(o, s, d['v'], d['p'])
    post_wf(o, s, d['v'])
    return nxt


class EraseKey(SSpec):
    entry = short = 'set_erase_key'
    args = 'vx'
    unroll = 2

    def setup(self, X, s, fn):
        self.z = fresh_int('z')
        return SSpec.setup(self, X, s, fn)

    def pre2(self, X, s, d):
        # z: the element equal to the key, if there is one (elements are unique)
        h, k, own = H(d), key_rank(s, d['x']), s.m(OWN)
        va, v = s.m(VAL), Lay.voff
        s.assume(FA([I], lambda n: Imp(And(own(n) == h, n != h, rk(s, n) == k), n == self.z), lambda n: [rt(va, n + v), rt(own, n)]))
        return []

    def cases(self, X, s, a):
        return ['found', 'absent']

    def eff(self, o, s, d, case):
        h, z = H(d), self.z
        there = And(s.m(OWN)(z) == h, z != h, rk(s, z) == key_rank(s, d['x']))
        if case == 'absent':
            o.ensure(Not(there), 'absent', 'case')
            return z3.IntVal(0)
        o.ensure(there, 'found', 'case')
        drop_node(o, s, d['v'], z)
        post_wf(o, s, d['v'])
        return z3.IntVal(1)


def set_empty(s, l):
    """the set header of an empty set (its nodes have been dealt with)"""
    h = hdr(l)
    z = z3.IntVal(0)
    s.up(LEN, h, z)
    s.up(IDX, h, z)
    s.setm(ATG, s.m(ATG).define(lambda f, g, i: ite(g == h, h, f(g, i))))
    upd(s, FP_(), h, z)
    upd(s, FL(), h, h)
    upd(s, FR(), h, h)
    s.setfld(Ly.imp, Ly.cnt, l, z)


def e_clear(o, s, d, case):
    s0 = s.clone()
    free_nodes(s, on(s0, H(d)))
    set_empty(s, d['v'])
    post_wf(o, s, d['v'])


def e_dtor(o, s, d, case):
    h, l = H(d), d['v']
    s0 = s.clone()
    free_nodes(s, on(s0, h))
    for k in (FP_(), FL(), FR(), FC()):
        upd(s, k, h, o.choose('raw', lambda f, r, k=k: f.m(k)(h)))
    s.setfld(Ly.imp, Ly.cnt, l, o.choose('raw', lambda f, r: CNT(f, l)))
    set_al(s, l, o.choose('raw', lambda f, r: al(f, l)))
    s.up(OWN, h, z3.IntVal(0))


def set_al(s, l, v):
    s.setfld(AT_, 0, z3.simplify(flat(l) + Ly.aoff), v)


def e_ctor(o, s, d, case):
    w = d['w']
    set_empty(s, w)
    upd(s, FC(), hdr(w), z3.IntVal(RED))
    set_al(s, w, s.fld(AT_, 0, d['a']))
    post_wf(o, s, w)


def take(s, dst, src):
    """the (empty) set dst takes the nodes of src, which becomes empty"""
    hd, hs = hdr(dst), hdr(src)
    s0 = s.clone()
    own, idx, at, ln = (s0.m(g) for g in (OWN, IDX, ATG, LEN))
    n_, root = ln(hs), P(s0, hs)
    move = lambda a, b: ite(n_ == 0, b, a)
    set_empty(s, src)
    s.setm(OWN, s.m(OWN).define(lambda f, n: ite(And(f(n) == hs, n != hs), hd, f(n))))
    s.setm(ATG, s.m(ATG).define(lambda f, g, i: ite(g == hd, ite(i == n_, hd, at(hs, i)), f(g, i))))
    s.up(LEN, hd, n_)
    s.up(IDX, hd, n_)
    upd(s, FP_(), hd, root)
    upd(s, FL(), hd, move(L(s0, hs), hd))
    upd(s, FR(), hd, move(R(s0, hs), hd))
    upd(s, FP_(), root, ite(root != 0, hd, P(s, root)))
    s.setfld(Ly.imp, Ly.cnt, dst, CNT(s0, src))


def e_move_ctor(o, s, d, case):
    w, q = d['w'], d['o']
    set_empty(s, w)
    upd(s, FC(), hdr(w), z3.IntVal(RED))
    take(s, w, q)
    set_al(s, w, al(s, q))
    post_wf(o, s, w, q)


def e_move_assign(o, s, d, case):
    v, q = d['v'], d['o']
    if v.eq(q):
        # self move: the set stays valid, empty or as it was
        if o.check:
            e = CNT(o.final, v) == 0
            o.ensure(e if case == 'ok' else Not(e), case, 'case')
        if case == 'kept':
            return
        s0 = s.clone()
        free_nodes(s, on(s0, H(d)))
        set_empty(s, v)
        post_wf(o, s, v)
        return
    if case == 'kept':
        o.dead = True
        return
    s0 = s.clone()
    free_nodes(s, on(s0, H(d)))
    set_empty(s, v)
    take(s, v, q)
    set_al(s, v, al(s, q))
    post_wf(o, s, v, q)


def e_copy(o, s, d, case):
    v, q = d['v'], d['o']
    if v.eq(q):
        # copying a set from itself changes nothing (and cannot fail)
        if case == 'fail':
            err_fail(o, s, d['e'])
            o.ensure(FALSE, 'copy from itself cannot fail', 'err')
            return
        err_ok(o, s, d['e'])
        return
    hv, hq = hdr(v), hdr(q)
    s0 = s.clone()
    free_nodes(s, on(s0, hv))
    set_empty(s, v)
    set_al(s, v, al(s, q))
    if case == 'fail':
        err_fail(o, s, d['e'])
        post_wf(o, s, v)
        return
    err_ok(o, s, d['e'])
    n_, root = s.m(LEN)(hq), P(s, hq)
    new = mirror(o, s, hv, hq, root, hv, al(s, v), z3.IntVal(0), n_ - 1)
    # header
    pos = lambda i: ite(n_ == 0, hv, new(i))
    s.up(LEN, hv, n_)
    s.up(IDX, hv, n_)
    s.up(ATG, (hv, n_), hv)
    upd(s, FP_(), hv, ite(n_ == 0, z3.IntVal(0), new(s.m(IDX)(root))))
    upd(s, FL(), hv, pos(z3.IntVal(0)))
    upd(s, FR(), hv, pos(n_ - 1))
    s.setfld(Ly.imp, Ly.cnt, v, CNT(s, q))
    post_wf(o, s, v)


INSREB, ERAREB, COPYSUB = InsertReb(), EraseReb(), CopySub()
PUBLIC = [ERAREB, COPYSUB, INSREB] + GETTERS + [MaxSize()] + ITERS + [Find('set_find'), Find('set_find_c')] + [
    Op('set_insert_copy', 'vexb', e_insert(False), cases=['found', 'ok', 'fail'], pre=short_enough),
    Op('set_insert_move', 'vexb', e_insert(True), cases=['found', 'ok', 'fail'], pre=short_enough),
    Op('set_clear', 'v', e_clear),
    Op('set_dtor', 'v', e_dtor),
    Op('set_ctor', 'wa', e_ctor),
    Op('set_ctor_comp', 'wa', e_ctor),
    Op('set_move_ctor', 'wo', e_move_ctor),
    Op('set_move_assign', 'vo', e_move_assign, variants=['distinct', 'self'], cases=['ok', 'kept']),
    Op('set_copy', 'veo', e_copy, variants=['distinct', 'self']),
    EraseKey(),
    Op('set_erase_pos', 'vp', e_erase_pos, pre=lambda s, d: [notend(s, d)]),
]
WEIGHT = {'rb_tree_rebalance_for_erase': 100, 'rb_tree::m_copy': 60, 'set_copy': 55, 'rb_tree_insert_and_rebalance': 40, 'set_insert_copy': 30, 'set_insert_move': 30,
          'set_erase_key': 25, 'set_move_assign': 10}
for _s in PUBLIC:
    if WEIGHT.get(_s.entry, 0) >= 25:
        _s.slow = 3
INTERNAL = [ConstructMove(), ConstructCopy(), Destroy(), Step(1), Step(-1), Bound(False), Bound(True), InsertPos(), EqualRange(), Rotate(True), Rotate(False), EraseSub(), CloneNode(), COPYSUB, INSREB, ERAREB]


class TreeWorld(NodeWorld):
    ghosts = dict(GHOSTS, **{OWN: ([I], I), IDX: ([I], I), ATG: ([I, I], I), LEN: ([I], I), LOG: ([I], I), HIG: ([I], I), BHG: ([I], I)})
    HEAP = (r'%struct\.E$', r'%class\.nestl::impl::set$', r'%struct\.nestl::impl::detail::rb_tree_node$')
    specs = [ERank()] + NENV + INTERNAL
    ghost_keys = (OWN, IDX, ATG, LEN, LOG, HIG, BHG, BSZ, SB)
    linkst = (NB,)
    seal = True
    split = by_node = True

    def __init__(self, mod):
        NodeWorld.__init__(self, mod)
        for k, (nm, dflt) in dict(c=('m_color', 0), p=('m_parent', 1), l=('m_left', 2), r=('m_right', 3)).items():
            setattr(Ly, k, mod.member(NB, 'rb_tree_node_base', nm, dflt))
        Ly.imp = [t for t in mod.types if re.search(r'rb_tree<.*::rb_tree_impl$', t)][0]
        el = mod.types[Ly.imp].elems
        offs = mod.layout(Ty('s', name=Ly.imp))[0]
        nm = [e.name if e.k == 's' else None for e in el]
        Ly.hoff = offs[nm.index(NB)]
        Ly.cnt = [i for i, e in enumerate(el) if e.k == 'i' and e.bits == 64][0]
        Ly.aoff = offs[[i for i, n in enumerate(nm) if n and n.startswith(AT_)][0]]
        Ly.poff = mod.layout(Ty('s', name=NB))[0][Ly.p]
        Lay.voff = mod.members.get(('rb_tree_node', 'm_storage'), 32)
        Lay.size = mod.size(Ty('s', name=RN))
        self.lsize = mod.size(Ty('s', name=ST))

    def linked(self, s, n):
        return Or(s.m(OWN)(n) != 0, s.m(ISB)(n))

    def relevant(self, X, s, key, idx, f):
        if isinstance(key, tuple) and key[0] == 'F':
            return Imp(Or(idx[0] > 0, idx[0] < LOCLIM), f)
        return NodeWorld.relevant(self, X, s, key, idx, f)

    def fresh_node(self, o, s, b):
        o.ensure(And(s.m(OWN)(b) != b))

    def on_alloca(self, X, st, addr, size):
        st.assume(Not(st.m(LIVE).root()(z3.IntVal(addr))))

    def ok_access(self, X, st, p):
        if p.st != NB:
            return
        b = p.base
        if z3.is_int_value(b) and b.as_long() < 0:
            return
        X.oblige(st, Or(And(b < 0), st.m(ISB)(b), st.m(OWN)(b) == b), 'access to an allocated node', 'lifetime', 'memory')

    def on_load(self, X, st, p):
        self.ok_access(X, st, p)

    def refine(self, X, st, p, v):
        # representation: a 32-bit field holds its signed value
        if p.st == NB and p.idx == Ly.c and not isinstance(v, GP) and not z3.is_int_value(v):
            st.assume(And(v >= -(1 << 31), v < (1 << 31)))
        return v

    def on_store(self, X, st, p):
        self.ok_access(X, st, p)

    def memset(self, X, st, args):
        d, v, n = args[0], args[1], z3.simplify(args[2])
        if not isinstance(d, (LP, GP)) and z3.is_int_value(n) and z3.is_int_value(v) and v.as_long() == 0 and \
                n.as_long() == X.mod.size(Ty('s', name=NB)):
            for (sn, i, lt, off, coff) in X.leaf_fields(Ty('s', name=NB)):
                X.store(st, FP(flat(d), sn, i, off), z3.IntVal(0), lt)
            return
        return NodeWorld.memset(self, X, st, args)

    def loopspecs(self, X, L):
        return node_loops(X, L)
