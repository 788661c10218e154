"""Contracts for nestl::impl::vector."""
import re, z3
from .sym import *
from .spec import Spec, LoopSpec
from .elem import *

VT = '%class.nestl::impl::vector'
AT = '%struct.A'


class V:
    """indices of the members of the vector object (re-read from the debug info of every build)"""
    s, f, e = 1, 2, 3

    @classmethod
    def all(cls):
        return cls.s, cls.f, cls.e


class Vw:
    """abstract view of the vector object at address v in state s"""

    def __init__(self, s, v):
        v = flat(v)
        self.v = v
        self.start, self.fin, self.eos = (s.fld(VT, i, v) for i in V.all())
        self.al = s.fld(AT, 0, v)
        self.n = self.fin - self.start
        self.cap = self.eos - self.start
        val = s.m(VAL)
        st = self.start
        self.at = lambda i: val(st + i)


def wf(s, v, tag=True):
    w = Vw(s, v)
    lv, sb = s.m(LIVE), s.m(SB)
    A = And(0 <= w.start, w.start <= w.fin, w.fin <= w.eos, w.eos < AMAX)
    blk = Or(And(meq(w.start, 0), meq(w.eos, 0)),
             And(w.start > 0, s.m(ISB)(w.start), s.m(BSZ)(w.start) == w.cap, s.m(BOWN)(w.start) == w.al))
    q = FA([I], lambda j: And(Imp(And(w.start <= j, j < w.fin), lv(j)),
                              Imp(And(w.fin <= j, j < w.eos), Not(lv(j))),
                              Imp(And(w.start <= j, j < w.eos), sb(j) == w.start)),
           lambda j: [rt(lv, j), rt(sb, j)] + ([rt(s.m(VAL), j)]))
    return [('vector well-formed', A, 'lifetime'), ('vector owns its block', blk, 'lifetime'), ('vector slots', q, 'lifetime')]


def sym_vec(X, s, name='v'):
    return sym_ptr(s, name)


def disjoint(s, v, o):
    a, b = Vw(s, v), Vw(s, o)
    return [('distinct vectors', flat(v) != flat(o), 'lifetime'),
            ('vectors own distinct blocks', Or(meq(a.start, 0), a.start != b.start), 'lifetime')]


def set_contents(o, s, v, n, seq, mincap=None, old=None, alloc=None, keep=False, maxcap=None):
    """the vector at v comes to hold n elements seq(i); storage may be kept or replaced by a fresh block"""
    v = flat(v)
    w = old or Vw(s, v)
    lv0, val0, sb0, isb0 = s.m(LIVE), s.m(VAL), s.m(SB), s.m(ISB)
    if keep:
        ns, ne = w.start, w.eos
    else:
        ns = o.choose('start', lambda f, r: f.fld(VT, V.s, v))
        ne = o.choose('eos', lambda f, r: f.fld(VT, V.e, v))
    same = And(meq(ns, w.start), meq(ne, w.eos))
    # state with the old block removed
    def sb_mid(j):
        return ite(And(w.start <= j, j < w.eos), z3.IntVal(0), sb0(j))

    def lv_mid(j):
        return ite(And(w.start <= j, j < w.eos), FALSE, lv0(j))
    if not keep:
        newb = And(ns > 0, Or(Not(isb0(ns)), meq(ns, w.start)))
        o.ensure(And(n >= 0, n <= ne - ns, ns >= 0, ns <= ne, ne < AMAX), 'capacity covers size', 'contents')
        o.ensure(Or(same, And(meq(ns, 0), meq(ne, 0)), newb), 'storage kept or freshly allocated', 'lifetime')
        o.ensure(FA([I], lambda j: Imp(And(Not(same), ns <= j, j < ne), And(sb_mid(j) == 0, Not(lv_mid(j)))),
                    lambda j: [rt(sb0, j), rt(lv0, j)]), 'fresh storage', 'lifetime')
        if mincap is not None:
            o.ensure(ne - ns >= mincap, 'capacity is at least the requested one', 'contents')
    s.setm(LIVE, lv0.define(lambda p, j: ite(And(ns <= j, j < ne), j < ns + n, ite(And(w.start <= j, j < w.eos), FALSE, lv0(j)))))
    s.setm(VAL, val0.define(lambda p, j: ite(And(ns <= j, j < ns + n), seq(j - ns), val0(j))))
    if not keep:
        s.setm(SB, sb0.define(lambda p, j: ite(And(ns <= j, j < ne), ns, sb_mid(j))))
        s.setm(ISB, isb0.define(lambda p, b: ite(And(b > 0, meq(b, ns)), TRUE, ite(And(w.start > 0, meq(b, w.start)), FALSE, isb0(b)))))
        s.setm(BSZ, s.m(BSZ).set(ns, ite(ns > 0, ne - ns, s.m(BSZ)(ns))))
        s.setm(BOWN, s.m(BOWN).set(ns, ite(ns > 0, w.al if alloc is None else alloc, s.m(BOWN)(ns))))
        s.setfld(VT, V.s, v, ns)
        s.setfld(VT, V.e, v, ne)
    s.setfld(VT, V.f, v, ns + n)
    return ns, ne


class VSpec(Spec):
    """public vector operation; entry point in units/vector.cpp"""
    internal = False
    entry = None
    nvec = 1
    args = ''      # letters: e=err n=size x=elem ptr p=position i=index

    def matches(self, X, name, dem):
        return name == '@' + self.entry if self.entry else Spec.matches(self, X, name, dem)

    def setup(self, X, s, fn):
        out = []
        for ch in self.args:
            if ch in 'vow':
                out.append(sym_vec(X, s))
            elif ch == 'e':
                out.append(new_err(X, s))
            elif ch in 'ni':
                n = z3.Int(Fresh.name('n'))
                s.assume(And(n >= 0, n < 1 << 64))
                out.append(n)
            elif ch in 'xpq':
                out.append(sym_ptr(s, ch, ch == 'x'))
            elif ch == 'a':
                out.append(sym_ptr(s, 'al'))
        return out

    def A(self, a):
        d = {}
        for ch, x in zip(self.args, a):
            d[ch] = x
        return d

    def pre(self, X, s, a):
        d = self.A(a)
        out = []
        if 'e' in d:
            out.append(('err is clear', meq(errv(s, d['e']), 0), 'err'))
        for ch in 'vo':
            if ch in d:
                out += wf(s, d[ch])
        if 'v' in d and 'o' in d and not getattr(self, 'alias_ok', False):
            out += disjoint(s, d['v'], d['o'])
        if 'x' in d:
            out += self.elem_pre(s, d)
        if 'p' in d:
            w = Vw(s, d['v'])
            out.append(('position inside the vector', And(w.start <= flat(d['p']), flat(d['p']) <= w.fin), 'contents'))
        return out + self.pre2(X, s, d)

    def elem_pre(self, s, d):
        x = flat(d['x'])
        return [('value is a live object', s.m(LIVE)(x), 'lifetime')]

    def pre2(self, X, s, d):
        return []


class Getter(VSpec):
    def __init__(self, entry, fn, args='v', pre=None, internal_pat=None):
        self.entry, self.fn_, self.args, self.p_ = entry, fn, args, pre
        self.short = entry

    def pre2(self, X, s, d):
        return [(n, f, 'contents') for n, f in self.p_(s, d)] if self.p_ else []

    def post(self, o, s, a, case):
        return self.fn_(s, self.A(a))


def nonempty(s, d):
    w = Vw(s, d['v'])
    return [('not empty', w.start < w.fin)]


def inrange(s, d):
    w = Vw(s, d['v'])
    return [('index in range', d['i'] < w.n)]


GETTERS = [Getter('vec_' + nm, lambda s, d: Vw(s, d['v']).start) for nm in ('begin', 'begin_c', 'cbegin', 'rend', 'rend_c', 'crend')] + \
          [Getter('vec_' + nm, lambda s, d: Vw(s, d['v']).fin) for nm in ('end', 'end_c', 'cend', 'rbegin', 'rbegin_c', 'crbegin')] + \
          [Getter('vec_' + nm, lambda s, d: Vw(s, d['v']).start, pre=nonempty) for nm in ('front', 'cfront', 'data', 'cdata')] + \
          [Getter('vec_' + nm, lambda s, d: Vw(s, d['v']).fin - 1, pre=nonempty) for nm in ('back', 'cback')] + \
          [Getter('vec_' + nm, lambda s, d: Vw(s, d['v']).start + d['i'], args='vi', pre=inrange) for nm in ('index', 'cindex')] + \
          [Getter('vec_empty', lambda s, d: meq(Vw(s, d['v']).start, Vw(s, d['v']).fin)),
           Getter('vec_size', lambda s, d: Vw(s, d['v']).n),
           Getter('vec_capacity', lambda s, d: Vw(s, d['v']).cap),
           Getter('vec_get_allocator', lambda s, d: Vw(s, d['v']).al)]


class MaxSize(VSpec):
    entry = short = 'vec_max_size'
    args = 'v'

    def post(self, o, s, a, case):
        r = o.choose('r', lambda f, r: o.X.canon_u(f, r))
        o.ensure(r >= Vw(s, a[0]).n, 'max_size is at least size', 'contents')
        return r


class Ctor(VSpec):
    entry = short = 'vec_ctor'
    args = 'wa'

    def post(self, o, s, a, case):
        v = flat(a[0])
        for i in V.all():
            s.setfld(VT, i, v, z3.IntVal(0))
        s.setfld(AT, 0, v, s.fld(AT, 0, flat(a[1])))


class MoveCtor(VSpec):
    entry = short = 'vec_move_ctor'
    args = 'wo'

    def pre2(self, X, s, d):
        return [('distinct objects', flat(d['w']) != flat(d['o']), 'contents')]

    def post(self, o, s, a, case):
        v, q = flat(a[0]), flat(a[1])
        w = Vw(s, q)
        s.setfld(AT, 0, v, w.al)
        for i, x in ((V.s, w.start), (V.f, w.fin), (V.e, w.eos)):
            s.setfld(VT, i, v, x)
        # the source is left empty with no storage (capacity may legally remain only if it owned it: it cannot)
        for i in V.all():
            s.setfld(VT, i, q, z3.IntVal(0))
        al = o.choose('al', lambda f, r: f.fld(AT, 0, q))
        s.setfld(AT, 0, q, al)


def free_old(s, w):
    lv, sb, isb = s.m(LIVE), s.m(SB), s.m(ISB)
    s.setm(LIVE, lv.define(lambda p, j: ite(And(w.start <= j, j < w.eos), FALSE, p(j))))
    s.setm(SB, sb.define(lambda p, j: ite(And(w.start <= j, j < w.eos), z3.IntVal(0), p(j))))
    s.setm(ISB, isb.define(lambda p, b: ite(And(w.start > 0, meq(b, w.start)), FALSE, p(b))))


class Dtor(VSpec):
    entry = short = 'vec_dtor'
    args = 'v'

    def post(self, o, s, a, case):
        w = Vw(s, a[0])
        free_old(s, w)
        # the dead object's own fields are unobservable
        v = w.v
        for i in V.all():
            s.setfld(VT, i, v, o.choose('dead', lambda f, r, i=i: f.fld(VT, i, v)))
        s.setfld(AT, 0, v, o.choose('dead', lambda f, r: f.fld(AT, 0, v)))


class MoveAssign(VSpec):
    entry = short = 'vec_move_assign'
    args = 'vo'

    def post(self, o, s, a, case):
        w, q = Vw(s, a[0]), Vw(s, a[1])
        free_old(s, w)
        s.setfld(AT, 0, w.v, q.al)
        for i, x in ((V.s, q.start), (V.f, q.fin), (V.e, q.eos)):
            s.setfld(VT, i, w.v, x)
        for i in V.all():
            s.setfld(VT, i, q.v, z3.IntVal(0))
        al = o.choose('al', lambda f, r: f.fld(AT, 0, q.v))
        s.setfld(AT, 0, q.v, al)


class Swap(VSpec):
    entry = short = 'vec_swap'
    args = 'vo'
    variants = ['distinct', 'self']

    def setup(self, X, s, fn):
        a = VSpec.setup(self, X, s, fn)
        if self.variant == 'self':
            a[1] = a[0]
        return a
    alias_ok = True

    def pre2(self, X, s, d):
        return [] if flat(d['v']).eq(flat(d['o'])) else disjoint(s, d['v'], d['o'])

    def post(self, o, s, a, case):
        w, q = Vw(s, a[0]), Vw(s, a[1])
        for (x, y) in ((w, q), (q, w)):
            s.setfld(AT, 0, x.v, y.al)
            for i, z in ((V.s, y.start), (V.f, y.fin), (V.e, y.eos)):
                s.setfld(VT, i, x.v, z)


class Eq(VSpec):
    entry = short = 'vec_eq'
    args = 'vo'
    alias_ok = True

    def cases(self, X, s, a):
        return ['equal', 'size', 'element']

    def post(self, o, s, a, case):
        w, q = Vw(s, a[0]), Vw(s, a[1])
        if case == 'equal':
            o.ensure(o_ret(o), 'returns true', 'case')
            o.ensure(w.n == q.n, 'sizes agree', 'contents')
            o.ensure(FA([I], lambda i: Imp(And(0 <= i, i < w.n), EQ(w.at(i), q.at(i))), lambda i: [w.at(i), q.at(i)]), 'elements agree', 'contents')
            return TRUE
        o.ensure(Not(o_ret(o)), 'returns false', 'case')
        if case == 'size':
            o.ensure(w.n != q.n, 'sizes differ', 'case')
        else:
            o.ensure(w.n == q.n, 'sizes agree', 'case')
            # existential witness: some index with differing elements
            i = fresh_int('i')
            if o.check:
                o.ensure(z3.Exists([i], And(0 <= i, i < w.n, Not(EQ(w.at(i), q.at(i))))), 'some element differs', 'contents')
        return FALSE


def o_ret(o):
    r = o.ret
    return (r % 2 == 1) if r.sort() == I else r


class Reserve(VSpec):
    args = 'ven'
    entry = short = 'vec_reserve'

    def cases(self, X, s, a):
        return ['ok', 'fail']

    def post(self, o, s, a, case):
        d = self.A(a)
        if case == 'fail':
            err_fail(o, s, d['e'])
            o.ensure(Vw(s, d['v']).cap < o.X.canon_u(s, d['n']), 'a request within capacity cannot fail', 'err')
            return
        err_ok(o, s, d['e'])
        w = Vw(s, d['v'])
        n = o.X.canon_u(s, d['n'])
        ns, ne = set_contents(o, s, d['v'], w.n, w.at, mincap=n)
        o.ensure(Imp(n <= w.cap, And(ns == w.start, ne == w.eos)), 'no reallocation within capacity', 'contents')


class Shrink(VSpec):
    args = 've'
    entry = short = 'vec_shrink'

    def cases(self, X, s, a):
        return ['ok', 'fail']

    def post(self, o, s, a, case):
        d = self.A(a)
        if case == 'fail':
            err_fail(o, s, d['e'])
            return
        err_ok(o, s, d['e'])
        w = Vw(s, d['v'])
        ns, ne = set_contents(o, s, d['v'], w.n, w.at)
        o.ensure(ne - ns <= w.cap, 'capacity never grows', 'contents')


class Insert(VSpec):
    """insert / push_back / emplace_back"""

    def __init__(self, entry, args, move=False):
        self.entry = self.short = entry
        self.args = args
        self.move = move

    def pre2(self, X, s, d):
        if self.move:
            # an rvalue argument is a unique reference: it does not alias an element of the vector
            w = Vw(s, d['v'])
            return [('rvalue argument is not an element', Or(flat(d['x']) < w.start, flat(d['x']) >= w.eos), 'contents')]
        return []

    def cases(self, X, s, a):
        return ['ok', 'fail']

    def post(self, o, s, a, case):
        d = self.A(a)
        w = Vw(s, d['v'])
        pos = flat(d['p']) if 'p' in d else w.fin
        off = pos - w.start
        x = flat(d['x']) if 'x' in d else None
        xv = s.m(VAL)(x) if x is not None else DEFVAL
        old = w.at
        if case == 'fail':
            err_fail(o, s, d['e'])
            m = o.choose('m', lambda f, r: Vw(f, d['v']).n)
            o.ensure(And(off <= m, m <= w.n), 'on failure a prefix containing everything before the position remains', 'err')
            moved(o, s, x, self.move)
            set_contents(o, s, d['v'], m, old)
            return o.choose('r', lambda f, r: r if r is not None else z3.IntVal(0))
        err_ok(o, s, d['e'])
        moved(o, s, x, self.move)
        ns, ne = set_contents(o, s, d['v'], w.n + 1, lambda i: ite(i < off, old(i), ite(meq(i, off), xv, old(i - 1))), old=w)
        o.ensure(Imp(w.n < w.cap, And(ns == w.start, ne == w.eos)), 'no reallocation while capacity suffices', 'contents')
        return ns + off


def moved(o, s, x, mv):
    if mv and x is not None:
        s.up(VAL, x, o.choose('moved', lambda f, r: f.m(VAL)(x)))


class Resize(VSpec):
    def __init__(self, entry, args):
        self.entry = self.short = entry
        self.args = args

    def cases(self, X, s, a):
        return ['ok', 'fail']

    def post(self, o, s, a, case):
        d = self.A(a)
        w = Vw(s, d['v'])
        n = o.X.canon_u(s, d['n'])
        xv = s.m(VAL)(flat(d['x'])) if 'x' in d else DEFVAL
        old = w.at
        seq = lambda i: ite(i < w.n, old(i), xv)
        if case == 'fail':
            err_fail(o, s, d['e'])
            m = o.choose('m', lambda f, r: Vw(f, d['v']).n)
            o.ensure(And(w.n <= m, m < n), 'on failure nothing is lost and the vector stays shorter than requested', 'err')
            set_contents(o, s, d['v'], m, seq)
            return
        err_ok(o, s, d['e'])
        set_contents(o, s, d['v'], n, seq)


class AssignN(VSpec):
    entry = short = 'vec_assign_n'
    args = 'venx'

    def cases(self, X, s, a):
        return ['ok', 'fail']

    def seq(self, s, d):
        x = s.m(VAL)(flat(d['x']))
        return lambda i: x

    def count(self, o, s, d):
        return o.X.canon_u(s, d['n'])

    def post(self, o, s, a, case):
        d = self.A(a)
        n = self.count(o, s, d)
        seq = self.seq(s, d)
        if case == 'fail':
            err_fail(o, s, d['e'])
            m = o.choose('m', lambda f, r: Vw(f, d['v']).n)
            o.ensure(And(0 <= m, m <= n), 'on failure a prefix of the requested contents', 'err')
            set_contents(o, s, d['v'], m, seq)
            return
        err_ok(o, s, d['e'])
        set_contents(o, s, d['v'], n, seq)

    def loopspecs(self, X, L):
        me = self

        def inv(o, s, env):
            d = me.A(env.args)
            seq = me.seq(env.entry, d)
            n = me.count_at_entry(X, env.entry, d)
            o.ensure(And(env.k >= 0, env.k <= n), 'progress', 'loop')
            set_contents(o, s, d['v'], env.k, seq)
        return [LoopSpec('prefix built', inv, measure=lambda s, env: me.count_at_entry(X, env.entry, me.A(env.args)) - env.k)]

    def count_at_entry(self, X, s, d):
        return d['n']


class AssignIt(AssignN):
    entry = short = 'vec_assign_it'
    args = 'vepq'

    def pre(self, X, s, a):
        d = self.A(a)
        f, l = flat(d['p']), flat(d['q'])
        lv = s.m(LIVE)
        return [('err is clear', meq(errv(s, d['e']), 0), 'err')] + wf(s, d['v']) + [
            ('source range is live', FA([I], lambda j: Imp(And(f <= j, j < l), lv(j)), lambda j: [rt(lv, j)]), 'lifetime'),
            ('source range is ordered', f <= l, 'contents')]

    def seq(self, s, d):
        v = s.m(VAL)
        f = flat(d['p'])
        return lambda i: v(f + i)

    def count(self, o, s, d):
        return flat(d['q']) - flat(d['p'])

    def count_at_entry(self, X, s, d):
        return flat(d['q']) - flat(d['p'])


class Copy(AssignN):
    entry = short = 'vec_copy'
    args = 'veo'
    variants = ['distinct', 'self']
    alias_ok = True

    def setup(self, X, s, fn):
        a = VSpec.setup(self, X, s, fn)
        if self.variant == 'self':
            a[2] = a[0]
        return a

    def pre2(self, X, s, d):
        return [] if flat(d['v']).eq(flat(d['o'])) else disjoint(s, d['v'], d['o'])

    def seq(self, s, d):
        return Vw(s, d['o']).at

    def count(self, o, s, d):
        return Vw(s, d['o']).n

    def count_at_entry(self, X, s, d):
        return Vw(s, d['o']).n


# ------------------------------------------------ contracts on private members (used modularly, demoted when absent)
class DoReserve(VSpec):
    internal = True
    entry = None
    short = 'vector::do_reserve'
    pattern = r'nestl::impl::vector<E, A<E> >::do_reserve<'
    args = 'ven'

    def pre2(self, X, s, d):
        return [('new capacity covers the elements', X.canon_u(s, d['n']) >= Vw(s, d['v']).n, 'contents')]

    def cases(self, X, s, a):
        return ['ok', 'fail']

    def post(self, o, s, a, case):
        d = self.A(a)
        if case == 'fail':
            err_fail(o, s, d['e'])
            return
        err_ok(o, s, d['e'])
        w = Vw(s, d['v'])
        n = o.X.canon_u(s, d['n'])
        ns, ne = set_contents(o, s, d['v'], w.n, w.at)
        o.ensure(ne - ns == n, 'capacity is exactly the requested one', 'contents')
        o.ensure(And(ns > 0, ns != w.start), 'fresh block', 'contents')


class InsertValue(Insert):
    internal = True
    short = 'vector::insert_value'

    def __init__(self, pat, args, move):
        self.entry = None
        self.pattern, self.args, self.move = pat, args, move


_ev = r'E\* nestl::impl::vector<E, A<E> >::insert_value<nestl::no_exceptions::errc_based_error'
INTERNAL = [ConstructMove(), ConstructCopy(), Destroy(), UninitCopy(), DoReserve(),
            InsertValue(_ev + r', E const&>\(', 'vepx', False), InsertValue(_ev + r', E>\(', 'vepx', True),
            InsertValue(_ev + r'>\(', 'vep', False)]
PUBLIC = GETTERS + [MaxSize(), Ctor(), MoveCtor(), Dtor(), MoveAssign(), Swap(), Eq(), Reserve(), Shrink(),
                    Insert('vec_insert_copy', 'vepx'), Insert('vec_insert_move', 'vepx', True),
                    Insert('vec_push_copy', 'vex'), Insert('vec_push_move', 'vex', True),
                    Insert('vec_emplace_back', 'vex'), Insert('vec_emplace_back0', 've'),
                    Resize('vec_resize', 'ven'), Resize('vec_resize_val', 'venx'), AssignN(), AssignIt(), Copy()]


class VectorWorld(ElemWorld):
    HEAP = (r'%struct\.E$', r'%class\.nestl::impl::vector', r'%"?struct\.nestl::aligned_buffer')
    specs = ENV + INTERNAL

    def __init__(self, mod):
        ElemWorld.__init__(self, mod)
        V.s, V.f, V.e = (mod.member(VT, 'vector', n, i) for n, i in (('m_start', 1), ('m_finish', 2), ('m_end_of_storage', 3)))
