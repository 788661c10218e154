"""Ghost vocabulary for element lifetime and storage, and the assumed contracts of the environment
(the element type's own operations and the user-supplied allocator)."""
import re, z3
from .sym import *
from .spec import Spec, World, LoopSpec
from .ir import Unsupported

AMAX = 1 << 62
LIVE, VAL, ISB, BSZ, BOWN, SB = 'live', 'val', 'isblk', 'bsz', 'bown', 'sb'
GHOSTS = {LIVE: ([I], B), VAL: ([I], I), ISB: ([I], B), BSZ: ([I], I), BOWN: ([I], I), SB: ([I], I)}
DEFVAL = z3.Int('default_value')
EQ = z3.Function('elem_eq', I, I, B)
LT = z3.Function('elem_less', I, I, B)


def errv(s, e):
    if isinstance(e, LP):
        return s.rcell(e.aid, e.off, 4)
    raise Unsupported('error object not local')


def set_err(s, e, v):
    s.wcell(e.aid, e.off, v, 4)


def err_ok(o, s, e):
    if o.check:
        o.ensure(meq(errv(o.final, e), 0), 'err stays clear', 'case')
        set_err(s, e, errv(o.final, e))


def err_fail(o, s, e):
    v = o.choose('err', lambda f, r: errv(f, e))
    o.ensure(v != 0, 'err set', 'case')
    if not o.check:
        s.assume(And(v > -(1 << 31), v < (1 << 31)))
    set_err(s, e, v)


def new_err(X, s):
    aid = s.new_cell(X.w.err_type(X), 'err')
    s.cells[(aid, 0)] = (z3.IntVal(0), 4)
    return LP(aid, 0)


def rt(m, j):
    return m.root()(j)


def raw_slot(s, p):
    """p is storage that may hold an element"""
    h = getattr(s.X.w, 'raw_slot', None)
    if h is not None:
        return h(s, p)
    return Or(s.m(SB)(p) != 0, p < 0)


class Ext(Spec):
    """assumed contract on an external function"""
    ext = None

    def matches(self, X, name, dem):
        return name == self.ext


class Alloc(Ext):
    ext, short = '@vp_allocate', 'Allocator::allocate'

    def cases(self, X, s, a):
        return ['ok', 'fail']

    def post(self, o, s, a, case):
        id_, err, n, size = a
        if case == 'fail':
            err_fail(o, s, err)
            return o.choose('p', None)
        err_ok(o, s, err)
        n = o.X.canon_u(s, n)
        b = o.choose('blk', None)
        sz = z3.simplify(n * size)
        o.ensure(And(b > 0, sz >= 0, b + sz < AMAX, Not(s.m(ISB)(b)), b % 8 == 0))
        sb, lv = s.m(SB), s.m(LIVE)
        if z3.is_int_value(sz) and sz.as_long() <= 0:
            pass
        else:
            o.ensure(FA([I], lambda j: Imp(And(b <= j, j < b + sz), And(sb(j) == 0, Not(lv(j)))),
                        lambda j: [rt(sb, j), rt(lv, j)]))
        self.extra(o, s, b, sz)
        s.up(ISB, b, True)
        s.up(BSZ, b, sz)
        s.up(BOWN, b, flat(id_))
        s.setm(SB, sb.set_range(b, b + sz, b))
        return b

    def extra(self, o, s, b, sz):
        h = getattr(o.X.w, 'on_alloc', None)
        if h:
            h(o, s, b, sz)


class Dealloc(Ext):
    ext, short = '@vp_deallocate', 'Allocator::deallocate'

    def pre(self, X, s, a):
        id_, p, n, size = a
        p = flat(p)
        n = X.canon_u(s, n)
        sz = z3.simplify(n * size)
        nul = meq(p, 0)
        out = [('block was allocated and not yet freed', Or(nul, s.m(ISB)(p)), 'lifetime'),
               ('block freed with its allocated size', Or(nul, s.m(BSZ)(p) == sz), 'lifetime'),
               ('block freed by the allocator that made it', Or(nul, s.m(BOWN)(p) == flat(id_)), 'allocator')]
        lv = s.m(LIVE)
        out.append(('no live element in freed block',
                    FA([I], lambda j: Imp(And(Not(nul), p <= j, j < p + sz), Not(lv(j))), lambda j: [rt(lv, j)]), 'lifetime'))
        return out

    def post(self, o, s, a, case):
        id_, p, n, size = a
        p = flat(p)
        n = o.X.canon_u(s, n)
        sz = z3.simplify(n * size)
        h = getattr(o.X.w, 'on_free', None)
        if h:
            h(o, s, p, sz)
        nz = Not(meq(p, 0))
        if z3.is_false(nz):
            return None
        s.setm(ISB, s.m(ISB).set(p, ite(nz, FALSE, s.m(ISB)(p))))
        s.setm(SB, s.m(SB).define(lambda pr, j: ite(And(nz, p <= j, j < p + sz), z3.IntVal(0), pr(j))))
        return None


class ECtor(Ext):
    ext, short = '@_ZN1EC1Ev', 'E::E()'

    def pre(self, X, s, a):
        p = flat(a[0])
        return [('constructed in allocated storage', raw_slot(s, p), 'lifetime'),
                ('constructed over dead slot', Not(s.m(LIVE)(p)), 'lifetime')]

    def post(self, o, s, a, case):
        p = flat(a[0])
        s.up(LIVE, p, True)
        s.up(VAL, p, DEFVAL)


class EDtor(Ext):
    ext, short = '@_ZN1ED1Ev', 'E::~E()'

    def pre(self, X, s, a):
        return [('destroyed object is live', s.m(LIVE)(flat(a[0])), 'lifetime')]

    def post(self, o, s, a, case):
        s.up(LIVE, flat(a[0]), False)


class EInitCopy(Ext):
    ext, short = '@vp_E_init_copy', 'E init (copy)'

    def pre(self, X, s, a):
        return [('initialised object is live', s.m(LIVE)(flat(a[1])), 'lifetime'),
                ('copied object is live', s.m(LIVE)(flat(a[2])), 'lifetime')]

    def cases(self, X, s, a):
        return ['ok', 'fail']

    def post(self, o, s, a, case):
        err, d, r = a[0], flat(a[1]), flat(a[2])
        if case == 'fail':
            err_fail(o, s, err)
            s.up(VAL, d, o.choose('garbage', None))
        else:
            err_ok(o, s, err)
            s.up(VAL, d, s.m(VAL)(r))


class EInitMove(EInitCopy):
    ext, short = '@vp_E_init_move', 'E init (move)'

    def post(self, o, s, a, case):
        err, d, r = a[0], flat(a[1]), flat(a[2])
        if case == 'fail':
            err_fail(o, s, err)
            s.up(VAL, d, o.choose('garbage', None))
        else:
            err_ok(o, s, err)
            v = s.m(VAL)(r)
            s.up(VAL, r, o.choose('moved', None))
            s.up(VAL, d, v)


class EEq(Ext):
    ext, short = '@vp_E_eq', 'E =='
    fun = EQ

    def pre(self, X, s, a):
        return [('compared object is live', And(s.m(LIVE)(flat(a[0])), s.m(LIVE)(flat(a[1]))), 'lifetime')]

    def post(self, o, s, a, case):
        return self.fun(s.m(VAL)(flat(a[0])), s.m(VAL)(flat(a[1])))


class ELess(EEq):
    ext, short = '@vp_E_less', 'E <'
    fun = LT


RANK = z3.Function('elem_rank', I, I)


class ERank(ELess):
    """a strict weak ordering; over the finitely many elements of one operation it is the order of an integer rank"""
    fun = staticmethod(lambda a, b: RANK(a) < RANK(b))


ENV = [Alloc(), Dealloc(), ECtor(), EDtor(), EInitCopy(), EInitMove(), EEq(), ELess()]


# ---------------------------------------------------------------- contracts of nestl's element helpers
def sym_ptr(s, name, pos=True):
    p = z3.Int(Fresh.name(name))
    s.assume(And(p > 0, p < AMAX) if pos else And(p >= 0, p < AMAX))
    return p


class Construct(Spec):
    short = 'class_operations::construct'
    pattern = r'nestl::class_operations::construct<E, '

    def kind(self, dem):
        m = re.search(r'construct<E, nestl::no_exceptions::errc_based_error(.*?)>\(nestl::no_exceptions::errc_based_error&, E\*(.*?)\)\s*$', dem)
        if not m:
            return None
        a = m.group(2).strip(', ')
        return {'': 'default', 'E const&': 'copy', 'E&': 'copy', 'E&&': 'move', 'E const&&': 'copy'}.get(a)

    def matches(self, X, name, dem):
        return re.search(self.pattern, dem) is not None and self.kind(dem) is not None

    def setup(self, X, s, fn):
        self.k = self.kind(fn.dem)
        a = [new_err(X, s), sym_ptr(s, 'slot')]
        if self.k != 'default':
            a.append(sym_ptr(s, 'src'))
        return a

    def pre(self, X, s, a):
        p = flat(a[1])
        out = [('err is clear', meq(errv(s, a[0]), 0), 'err'),
               ('constructed in allocated storage', raw_slot(s, p), 'lifetime'),
               ('constructed over dead slot', Not(s.m(LIVE)(p)), 'lifetime')]
        if len(a) > 2:
            out.append(('source object is live', s.m(LIVE)(flat(a[2])), 'lifetime'))
        return out

    def cases(self, X, s, a):
        return ['ok', 'fail']

    def post(self, o, s, a, case):
        p = flat(a[1])
        if case == 'fail':
            err_fail(o, s, a[0])
            return None
        err_ok(o, s, a[0])
        s.up(LIVE, p, True)
        if len(a) == 2:
            s.up(VAL, p, DEFVAL)
        else:
            r = flat(a[2])
            v = s.m(VAL)(r)
            if self.is_move(o, a):
                s.up(VAL, r, o.choose('moved', lambda f, _: f.m(VAL)(r)))
            s.up(VAL, p, v)

    move = False

    def is_move(self, o, a):
        return self.move


class ConstructMove(Construct):
    move = True
    short = 'class_operations::construct(T&&)'

    def matches(self, X, name, dem):
        return re.search(self.pattern, dem) is not None and self.kind(dem) == 'move'


class ConstructCopy(Construct):
    def matches(self, X, name, dem):
        return re.search(self.pattern, dem) is not None and self.kind(dem) in ('copy', 'default')


class Destroy(Spec):
    short = 'detail::destroy(first,last)'
    pattern = r'^void nestl::detail::destroy<E\*>\(E\*, E\*\)'

    def setup(self, X, s, fn):
        return [sym_ptr(s, 'first', False), sym_ptr(s, 'last', False)]

    def pre(self, X, s, a):
        f, l = flat(a[0]), flat(a[1])
        lv = s.m(LIVE)
        return [('first <= last', f <= l, 'lifetime'),
                ('every element of the range is live', FA([I], lambda j: Imp(And(f <= j, j < l), lv(j)), lambda j: [rt(lv, j)]), 'lifetime')]

    def post(self, o, s, a, case):
        s.setm(LIVE, s.m(LIVE).set_range(flat(a[0]), flat(a[1]), False))


class UninitCopy(Spec):
    short = 'detail::uninitialised_copy'
    pattern = r'nestl::detail::uninitialised_copy<nestl::no_exceptions::errc_based_error, E( const)?\*, E\*>'

    def setup(self, X, s, fn):
        return [new_err(X, s), sym_ptr(s, 'first', False), sym_ptr(s, 'last', False), sym_ptr(s, 'out')]

    def pre(self, X, s, a):
        e, f, l, out = a[0], flat(a[1]), flat(a[2]), flat(a[3])
        n = l - f
        lv, sb = s.m(LIVE), s.m(SB)
        return [('err is clear', meq(errv(s, e), 0), 'err'),
                ('first <= last', f <= l, 'lifetime'),
                ('every source element is live', FA([I], lambda j: Imp(And(f <= j, j < l), lv(j)), lambda j: [rt(lv, j)]), 'lifetime'),
                ('destination is dead storage', FA([I], lambda j: Imp(And(out <= j, j < out + n), And(Not(lv(j)), raw_slot(s, j))),
                                                   lambda j: [rt(lv, j), rt(sb, j)]), 'lifetime')]

    def cases(self, X, s, a):
        return ['ok', 'fail']

    def post(self, o, s, a, case):
        e, f, l, out = a[0], flat(a[1]), flat(a[2]), flat(a[3])
        if case == 'fail':
            err_fail(o, s, e)
            return o.choose('r', lambda fi, r: r)
        err_ok(o, s, e)
        n = l - f
        v = s.m(VAL)
        s.setm(LIVE, s.m(LIVE).set_range(out, out + n, True))
        s.setm(VAL, v.set_range(out, out + n, lambda j: v(j - out + f)))
        return out + n


class ElemWorld(World):
    ghosts = GHOSTS
    HEAP = (r'%struct\.E$',)
    ERRT = '%class.nestl::no_exceptions::errc_based_error'

    def err_type(self, X):
        from .ir import Ty
        return Ty('s', name=self.ERRT)

    def relevant(self, X, s, key, idx, f):
        if key == VAL:
            return Imp(s.m(LIVE)(idx[0]), f)
        if key in (BSZ, BOWN):
            return Imp(And(idx[0] > 0, s.m(ISB)(idx[0])), f)
        if isinstance(key, tuple) and key[0] == 'F':
            return Imp(idx[0] > 0, f)
        return f

    def map_tag(self, k):
        if k in (LIVE, ISB, BSZ, SB):
            return 'lifetime'
        if k == BOWN or (isinstance(k, tuple) and k[1].startswith('%struct.A')):
            return 'allocator'
        return 'contents'

    def on_alloca(self, X, st, addr, size):
        # storage of a new automatic object holds no live element yet (its addresses are unused so far)
        root = st.m(LIVE).root()
        for i in range(size):
            st.assume(Not(root(z3.IntVal(addr + i))))

    def load_raw(self, X, st, p, ty):
        raise Unsupported('untyped load at ' + str(p)[:80])
