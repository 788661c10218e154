"""Contracts for nestl::impl::shared_ptr, weak_ptr, the control block and make_shared_a_nothrow."""
import re, z3
from .sym import *
from .spec import Spec, LoopSpec
from .elem import *
from .elem import ENV as _ENV

SPT = '%class.nestl::impl::shared_ptr'
WPT = '%class.nestl::impl::weak_ptr'
SCB = '%class.nestl::impl::shared_count_base'
TSV = '%class.nestl::impl::type_stored_by_value'
TAT = '%struct.TA'
ODEAD, SELFW, SUB = 'odead', 'selfw', 'sub'
CMAX = 1 << 62


class L:
    """layout of the objects (re-read from every build)"""
    vptr, use, weak = 0, 1, 2
    sp_p, sp_r, wp_p, wp_r = 0, 1, 0, 1
    val, al, size = 24, 28, 32
    vtab = None


def U(s, c):
    return s.fld(SCB, L.use, c)


def W(s, c):
    return s.fld(SCB, L.weak, c)


def spR(s, p):
    return s.fld(SPT, L.sp_r, p)


def spP(s, p):
    return s.fld(SPT, L.sp_p, p)


def wpR(s, p):
    return s.fld(WPT, L.wp_r, p)


def wpP(s, p):
    return s.fld(WPT, L.wp_p, p)


def set_sp(s, p, ptr, r):
    s.setfld(SPT, L.sp_p, p, ptr)
    s.setfld(SPT, L.sp_r, p, r)


def set_wp(s, p, ptr, r):
    s.setfld(WPT, L.wp_p, p, ptr)
    s.setfld(WPT, L.wp_r, p, r)


def blk(s, c, cond=TRUE, cmax=CMAX):
    """c (when cond) is a well-formed control block"""
    lv, sb = s.m(LIVE), s.m(SB)
    f = And(c > 0, c % 8 == 0, c + L.size < AMAX, s.m(ISB)(c), s.m(BSZ)(c) == L.size,
            s.m(BOWN)(c) == s.fld(TAT, 0, c + L.al), s.fld(SCB, L.vptr, c) == flat(L.vtab),
            U(s, c) >= 0, W(s, c) >= 0, U(s, c) + W(s, c) > 0, U(s, c) < cmax, W(s, c) < cmax)
    q = FA([I], lambda j: Imp(And(cond, c <= j, j < c + L.size),
                              And(sb(j) == c, lv(j) == Or(And(j == c + L.val, U(s, c) > 0), j == c + L.al))),
           lambda j: [rt(lv, j), rt(sb, j)])
    qv = [And(sb(c + L.val) == c, lv(c + L.val) == (U(s, c) > 0), sb(c + L.al) == c, lv(c + L.al), sb(c) == c)]
    return [('control block well-formed', Imp(cond, And(f, *qv)), 'lifetime'), ('control block storage', q, 'lifetime')]


def nests(s, c, cond, sps=(), wps=(), nested=None, depth=0, cmax=CMAX):
    """what the value of c may itself own: a weak_ptr to c, and a shared_ptr to another block"""
    v = c + L.val
    sw, sub = s.m(SELFW)(v), s.m(SUB)(v)
    live = And(cond, U(s, c) > 0)
    out = []
    if depth:
        return [Imp(live, And(sw == 0, sub == 0))]
    out.append(Imp(live, And(sw >= 0, sub >= 0, sw < AMAX, sub < AMAX)))
    out.append(Imp(And(live, sw != 0), And(Not(s.m(ODEAD)(sw)), wpR(s, sw) == c, wpP(s, sw) == v, *[sw != w for w in wps])))
    out.append(Imp(And(live, sw != 0), sw != sub))
    c2 = spR(s, sub)
    on = And(live, sub != 0)
    out.append(Imp(on, And(Not(s.m(ODEAD)(sub)), Or(And(c2 == 0, spP(s, sub) == 0), And(c2 != c, spP(s, sub) == c2 + L.val)))))
    out.append(Imp(on, And(*[sub != p for p in sps if p is not nested])) if nested is None else sub == nested)
    for n, f, t in blk(s, c2, And(on, c2 != 0), cmax):
        out.append(f)
    out += nests(s, c2, And(on, c2 != 0), depth=1)
    return out


def one(c):
    return ite(c, z3.IntVal(1), z3.IntVal(0))


def accounting(s, sps, wps, nested=None, extra=()):
    """well-formedness of the argument smart pointers (distinct addresses) and of what they point to"""
    out = []
    od = s.m(ODEAD)
    rs = [(spR(s, p), p) for p in sps] + [(c, None) for c in extra]
    ws = [(wpR(s, p), p) for p in wps]
    for r, p in rs:
        if p is not None:
            out.append(('shared_ptr well-formed', And(Not(od(p)), r >= 0, Or(And(r == 0, spP(s, p) == 0), And(r > 0, spP(s, p) == r + L.val))), 'contents'))
    for r, p in ws:
        out.append(('weak_ptr well-formed', And(Not(od(p)), r >= 0, Or(And(r == 0, wpP(s, p) == 0), And(r > 0, wpP(s, p) == r + L.val))), 'contents'))
    top = rs if nested is None else [x for x in rs if x[1] is not nested]
    for r, p in top + ws:
        out += blk(s, r, r != 0, CMAX // 2)
        for f in nests(s, r, r != 0, sps, wps, nested if p is not None and (r, p) in top else None, cmax=CMAX // 2):
            out.append(('what the value owns is well-formed', f, 'lifetime'))
        # subs[r']: references to r held by values of the argument blocks
    blocks = [r for r, _ in top + ws]
    for k, r in enumerate(blocks + ([spR(s, nested)] if nested is not None else [])):
        first = And(*[b != r for b in blocks[:k]])
        n = sum([one(q == r) for q, _ in top], z3.IntVal(0))
        for i, b in enumerate(blocks):
            uniq = And(*[b2 != b for b2 in blocks[:i]])
            sub = s.m(SUB)(b + L.val)
            n = n + one(And(uniq, b != 0, U(s, b) > 0, sub != 0, spR(s, sub) == r))
        w = sum([one(q == r) for q, _ in ws], z3.IntVal(0)) + one(And(U(s, r) > 0, s.m(SELFW)(r + L.val) != 0))
        out.append(('counts cover the references', Imp(r != 0, And(U(s, r) >= n, W(s, r) >= w)), 'contents'))
    # nested blocks that are not argument blocks
    for i, b in enumerate(blocks):
        sub = s.m(SUB)(b + L.val)
        r = spR(s, sub)
        on = And(b != 0, U(s, b) > 0, sub != 0, r != 0)
        n = sum([one(q == r) for q, _ in top], z3.IntVal(0))
        for j, b2 in enumerate(blocks):
            uniq = And(*[b3 != b2 for b3 in blocks[:j]])
            sub2 = s.m(SUB)(b2 + L.val)
            n = n + one(And(uniq, b2 != 0, U(s, b2) > 0, sub2 != 0, spR(s, sub2) == r))
            out.append(('distinct owners', Imp(And(on, b2 != b, b2 != 0, U(s, b2) > 0, sub2 != 0), sub2 != sub), 'contents'))
        w = sum([one(q == r) for q, _ in ws], z3.IntVal(0))
        out.append(('counts cover the nested references', Imp(on, And(U(s, r) >= n, W(s, r) >= w)), 'contents'))
    return out


# ------------------------------------------------------------------ effects
def eff_free(s, c, cond):
    s.up(ISB, c, ite(cond, FALSE, s.m(ISB)(c)))
    s.setm(SB, s.m(SB).define(lambda pr, j: ite(And(cond, c <= j, j < c + L.size), z3.IntVal(0), pr(j))))
    s.up(LIVE, c + L.al, ite(cond, FALSE, s.m(LIVE)(c + L.al)))


def eff_weak_release(s, c, cond=TRUE):
    s.setfld(SCB, L.weak, c, ite(cond, W(s, c) - 1, W(s, c)))
    eff_free(s, c, And(cond, W(s, c) == 0, U(s, c) == 0))


def eff_release(s, c, cond=TRUE, depth=0):
    s.setfld(SCB, L.use, c, ite(cond, U(s, c) - 1, U(s, c)))
    dies = And(cond, U(s, c) == 0)
    v = c + L.val
    s.up(LIVE, v, ite(dies, FALSE, s.m(LIVE)(v)))
    if depth == 0:
        sw, sub = s.m(SELFW)(v), s.m(SUB)(v)
        hw = And(dies, sw != 0)
        s.up(ODEAD, sw, ite(hw, TRUE, s.m(ODEAD)(sw)))
        s.setfld(SCB, L.weak, c, ite(hw, W(s, c) - 1, W(s, c)))
        hs = And(dies, sub != 0)
        s.up(ODEAD, sub, ite(hs, TRUE, s.m(ODEAD)(sub)))
        c2 = spR(s, sub)
        eff_release(s, c2, And(hs, c2 != 0), 1)
    eff_free(s, c, And(dies, W(s, c) == 0))


def eff_add(s, c, cond=TRUE):
    s.setfld(SCB, L.use, c, ite(cond, U(s, c) + 1, U(s, c)))


def eff_wadd(s, c, cond=TRUE):
    s.setfld(SCB, L.weak, c, ite(cond, W(s, c) + 1, W(s, c)))


def dead_sp(o, s, p):
    set_sp(s, p, o.choose('dead', lambda f, r: spP(f, p)), o.choose('dead', lambda f, r: spR(f, p)))


def dead_wp(o, s, p):
    set_wp(s, p, o.choose('dead', lambda f, r: wpP(f, p)), o.choose('dead', lambda f, r: wpR(f, p)))


class PSpec(Spec):
    """args letters: s t = shared_ptr arguments, w x = weak_ptr, r = raw storage for a shared_ptr, q = raw storage for a weak_ptr,
    e err, a allocator, v value"""
    internal = False
    args = ''

    def __init__(self, entry, args, eff, variants=('distinct',)):
        self.entry = self.short = entry
        self.args, self.eff, self.variants = args, eff, list(variants)

    def matches(self, X, name, dem):
        return name == '@' + self.entry

    def setup(self, X, s, fn):
        out = []
        for ch in self.args:
            if ch == 'e':
                out.append(new_err(X, s))
            else:
                out.append(sym_ptr(s, ch))
        if self.variant == 'self':
            out[1] = out[0]
        ps = [flat(x) for ch, x in zip(self.args, out) if ch in 'stwxrq']
        for i in range(len(ps)):
            for j in range(i):
                if not ps[i].eq(ps[j]):
                    s.assume(ps[i] != ps[j])
        return out

    def pre(self, X, s, a):
        d = self.A(a)
        sps = [d[c] for c in 'st' if c in d]
        wps = [d[c] for c in 'wx' if c in d]
        raw = [d[c] for c in 'rq' if c in d]
        if self.variant == 'self':
            sps, wps = sps[:1], wps[:1]
        nested = d['t'] if self.variant == 'nested' else None
        out = []
        if nested is not None:
            out.append(('left hand side owns the value', And(spR(s, d['s']) != 0), 'contents'))
        out += accounting(s, sps, wps, nested)
        for r in raw:
            out.append(('storage is alive', Not(s.m(ODEAD)(r)), 'lifetime'))
            for p, kind in [(p, 0) for p in sps] + [(p, 1) for p in wps]:
                c = spR(s, p) if kind == 0 else wpR(s, p)
                out.append(('storage is not part of the values', Imp(c != 0, And(s.m(SELFW)(c + L.val) != r, s.m(SUB)(c + L.val) != r)), 'contents'))
        if 'e' in d:
            out.append(('err is clear', meq(errv(s, d['e']), 0), 'err'))
        if 'a' in d:
            out.append(('allocator is alive', And(s.m(LIVE)(d['a']), s.m(SB)(d['a']) == 0), 'lifetime'))
        if 'v' in d:
            out.append(('value is alive', And(s.m(LIVE)(d['v'])), 'lifetime'))
        return out

    def A(self, a):
        return {ch: (x if ch == 'e' else flat(x)) for ch, x in zip(self.args, a)}

    def cases(self, X, s, a):
        return ['ok', 'fail'] if 'e' in self.args else ['ok']

    def post(self, o, s, a, case):
        return self.eff(o, s, self.A(a), case, self)


def e_ctor(o, s, d, case, me):
    set_sp(s, d['r'], z3.IntVal(0), z3.IntVal(0))


def e_copy(o, s, d, case, me):
    c = spR(s, d['s'])
    set_sp(s, d['r'], spP(s, d['s']), c)
    eff_add(s, c, c != 0)


def e_move(o, s, d, case, me):
    p, c = spP(s, d['s']), spR(s, d['s'])
    set_sp(s, d['s'], z3.IntVal(0), z3.IntVal(0))
    set_sp(s, d['r'], p, c)


def e_dtor(o, s, d, case, me):
    c = spR(s, d['s'])
    eff_release(s, c, c != 0)
    dead_sp(o, s, d['s'])


def e_assign(o, s, d, case, me):
    if me.variant == 'self':
        return
    c1, c2 = spR(s, d['s']), spR(s, d['t'])
    eff_add(s, c2, c2 != 0)
    set_sp(s, d['s'], spP(s, d['t']), c2)
    eff_release(s, c1, c1 != 0)


def e_massign(o, s, d, case, me):
    c1, c2, p2 = spR(s, d['s']), spR(s, d['t']), spP(s, d['t'])
    set_sp(s, d['t'], z3.IntVal(0), z3.IntVal(0))
    set_sp(s, d['s'], p2, c2)
    eff_release(s, c1, c1 != 0)


def e_reset(o, s, d, case, me):
    c = spR(s, d['s'])
    set_sp(s, d['s'], z3.IntVal(0), z3.IntVal(0))
    eff_release(s, c, c != 0)


def e_swap(o, s, d, case, me):
    p1, c1, p2, c2 = spP(s, d['s']), spR(s, d['s']), spP(s, d['t']), spR(s, d['t'])
    set_sp(s, d['s'], p2, c2)
    set_sp(s, d['t'], p1, c1)


def e_get(o, s, d, case, me):
    c = spR(s, d['s'])
    return ite(c == 0, z3.IntVal(0), c + L.val)


def e_use(o, s, d, case, me):
    c = spR(s, d['s'])
    return ite(c == 0, z3.IntVal(0), U(s, c))


def e_unique(o, s, d, case, me):
    c = spR(s, d['s'])
    return And(c != 0, U(s, c) == 1)


def e_bool(o, s, d, case, me):
    return spR(s, d['s']) != 0


def e_wctor(o, s, d, case, me):
    set_wp(s, d['q'], z3.IntVal(0), z3.IntVal(0))


def e_wcopy(o, s, d, case, me):
    c = wpR(s, d['w'])
    set_wp(s, d['q'], wpP(s, d['w']), c)
    eff_wadd(s, c, c != 0)


def e_wfrom(o, s, d, case, me):
    c = spR(s, d['s'])
    set_wp(s, d['q'], spP(s, d['s']), c)
    eff_wadd(s, c, c != 0)


def e_wmove(o, s, d, case, me):
    p, c = wpP(s, d['w']), wpR(s, d['w'])
    set_wp(s, d['w'], z3.IntVal(0), z3.IntVal(0))
    set_wp(s, d['q'], p, c)


def e_wdtor(o, s, d, case, me):
    c = wpR(s, d['w'])
    eff_weak_release(s, c, c != 0)
    dead_wp(o, s, d['w'])


def e_wassign(o, s, d, case, me):
    if me.variant == 'self':
        return
    c1, c2 = wpR(s, d['w']), wpR(s, d['x'])
    eff_wadd(s, c2, c2 != 0)
    set_wp(s, d['w'], wpP(s, d['x']), c2)
    eff_weak_release(s, c1, c1 != 0)


def e_wassign_sp(o, s, d, case, me):
    c1, c2 = wpR(s, d['w']), spR(s, d['s'])
    eff_wadd(s, c2, c2 != 0)
    set_wp(s, d['w'], spP(s, d['s']), c2)
    eff_weak_release(s, c1, c1 != 0)


def e_wmassign(o, s, d, case, me):
    c1, c2, p2 = wpR(s, d['w']), wpR(s, d['x']), wpP(s, d['x'])
    set_wp(s, d['x'], z3.IntVal(0), z3.IntVal(0))
    set_wp(s, d['w'], p2, c2)
    eff_weak_release(s, c1, c1 != 0)


def e_wreset(o, s, d, case, me):
    c = wpR(s, d['w'])
    set_wp(s, d['w'], z3.IntVal(0), z3.IntVal(0))
    eff_weak_release(s, c, c != 0)


def e_wuse(o, s, d, case, me):
    c = wpR(s, d['w'])
    return ite(c == 0, z3.IntVal(0), U(s, c))


def e_expired(o, s, d, case, me):
    c = wpR(s, d['w'])
    return Or(c == 0, U(s, c) == 0)


def e_lock(o, s, d, case, me):
    c = wpR(s, d['w'])
    live = And(c != 0, U(s, c) > 0)
    set_sp(s, d['r'], ite(live, c + L.val, z3.IntVal(0)), ite(live, c, z3.IntVal(0)))
    eff_add(s, c, live)


def e_make(o, s, d, case, me):
    if case == 'fail':
        err_fail(o, s, d['e'])
        set_sp(s, d['r'], z3.IntVal(0), z3.IntVal(0))
        return
    err_ok(o, s, d['e'])
    c = o.choose('c', lambda f, r: spR(f, d['r']))
    o.ensure(And(c > 0, Not(s.m(ISB)(c))), 'the object gets a fresh control block', 'contents')
    s.up(ISB, c, True)
    s.up(BSZ, c, z3.IntVal(L.size))
    s.up(BOWN, c, s.fld(TAT, 0, d['a']))
    s.setfld(TAT, 0, c + L.al, s.fld(TAT, 0, d['a']))
    s.setm(SB, s.m(SB).set_range(c, c + L.size, c))
    s.up(LIVE, c + L.val, True)
    s.up(LIVE, c + L.al, True)
    s.up(VAL, c + L.val, s.m(VAL)(d['v']) if 'v' in d else DEFVAL)
    s.setfld(SCB, L.vptr, c, flat(L.vtab))
    s.setfld(SCB, L.use, c, z3.IntVal(1))
    s.setfld(SCB, L.weak, c, z3.IntVal(0))
    set_sp(s, d['r'], c + L.val, c)


class Deref(PSpec):
    def pre(self, X, s, a):
        return PSpec.pre(self, X, s, a) + [('not null', spR(s, flat(a[0])) != 0, 'contents')]


# ------------------------------------------------------------------ control block operations
class BSpec(Spec):
    def __init__(self, name, eff, need, cmax):
        self.cmax = cmax
        self.short = 'shared_count_base::' + name
        self.pattern = r'^nestl::impl::shared_count_base::%s\(\)$' % name
        self.eff, self.need = eff, need

    def setup(self, X, s, fn):
        return [sym_ptr(s, 'c')]

    def pre(self, X, s, a):
        c = flat(a[0])
        out = blk(s, c, TRUE, self.cmax)
        out.append(('references exist', self.need(s, c), 'contents'))
        for f in nests(s, c, TRUE, cmax=self.cmax):
            out.append(('what the value owns is well-formed', f, 'lifetime'))
        v = c + L.val
        sub = s.m(SUB)(v)
        c2 = spR(s, sub)
        out.append(('counts cover the references of the value',
                    Imp(U(s, c) > 0, And(Imp(s.m(SELFW)(v) != 0, W(s, c) >= 1), Imp(And(sub != 0, c2 != 0), U(s, c2) >= 1))), 'contents'))
        return out

    def post(self, o, s, a, case):
        self.eff(s, flat(a[0]))


class ObjCtor(Ext):
    ext, short = '@vp_obj_ctor', 'allocator copy constructed'

    def pre(self, X, s, a):
        p = flat(a[0])
        return [('constructed in storage', raw_slot(s, p), 'lifetime'), ('constructed over dead slot', Not(s.m(LIVE)(p)), 'lifetime')]

    def post(self, o, s, a, case):
        s.up(LIVE, flat(a[0]), True)


class ObjDtor(Ext):
    ext, short = '@vp_obj_dtor', 'allocator copy destroyed'

    def pre(self, X, s, a):
        return [('destroyed object is live', s.m(LIVE)(flat(a[0])), 'lifetime')]

    def post(self, o, s, a, case):
        s.up(LIVE, flat(a[0]), False)


class EFresh(ECtor):
    def post(self, o, s, a, case):
        ECtor.post(self, o, s, a, case)
        s.up(SELFW, flat(a[0]), z3.IntVal(0))
        s.up(SUB, flat(a[0]), z3.IntVal(0))


ENV = [EFresh()] + [e for e in _ENV if not isinstance(e, (EDtor, ECtor))] + [ObjCtor(), ObjDtor()]
INTERNAL = [BSpec('release', eff_release, lambda s, c: U(s, c) > 0, CMAX),
            BSpec('weak_release', eff_weak_release, lambda s, c: W(s, c) > 0, 2 * CMAX)]
P = PSpec
PUBLIC = [P('sp_ctor', 'r', e_ctor), P('sp_ctor_null', 'r', e_ctor), P('sp_copy', 'rs', e_copy), P('sp_conv', 'rs', e_copy),
          P('sp_move', 'rs', e_move), P('sp_dtor', 's', e_dtor), P('sp_assign', 'st', e_assign, ('distinct', 'self', 'nested')),
          P('sp_assign_conv', 'st', e_assign, ('distinct', 'nested')), P('sp_massign', 'st', e_massign, ('distinct', 'nested')),
          P('sp_massign_conv', 'st', e_massign, ('distinct', 'nested')), P('sp_reset', 's', e_reset), P('sp_swap', 'st', e_swap, ('distinct', 'self')),
          P('sp_get', 's', e_get), Deref('sp_deref', 's', e_get), Deref('sp_arrow', 's', e_get), P('sp_use_count', 's', e_use),
          P('sp_unique', 's', e_unique), P('sp_bool', 's', e_bool),
          P('wp_ctor', 'q', e_wctor), P('wp_copy', 'qw', e_wcopy), P('wp_from_sp', 'qs', e_wfrom), P('wp_move', 'qw', e_wmove),
          P('wp_dtor', 'w', e_wdtor), P('wp_assign', 'wx', e_wassign, ('distinct', 'self')), P('wp_assign_sp', 'ws', e_wassign_sp),
          P('wp_massign', 'wx', e_wmassign), P('wp_reset', 'w', e_wreset), P('wp_expired', 'w', e_expired), P('wp_use_count', 'w', e_wuse),
          P('wp_lock', 'rw', e_lock), P('sp_make', 'reav', e_make), P('sp_make0', 'rea', e_make)]
ASSUMPTIONS = ['reference counters stay below 2^62 (machine overflow of the counters is not modelled)',
               'the value owns at most one weak_ptr to its own block and at most one shared_ptr to another block, whose value owns neither',
               'operations run on one thread; self-move-assignment of a shared_ptr is not specified']


class SharedWorld(ElemWorld):
    ghosts = dict(GHOSTS, **{ODEAD: ([I], B), SELFW: ([I], I), SUB: ([I], I)})
    HEAP = (r'%struct\.E$', r'%struct\.TA', r'%class\.nestl::impl::(shared|weak)_ptr', r'%struct\.nestl::aligned_buffer')
    specs = ENV + INTERNAL

    def __init__(self, mod):
        ElemWorld.__init__(self, mod)
        L.use = mod.member(SCB, 'shared_count_base', 'm_use_count', 1)
        L.weak = mod.member(SCB, 'shared_count_base', 'm_weak_use_count', 2)
        L.sp_p, L.sp_r = mod.member(SPT, 'shared_ptr', 'm_ptr', 0), mod.member(SPT, 'shared_ptr', 'm_refcount', 1)
        L.wp_p, L.wp_r = mod.member(WPT, 'weak_ptr', 'm_ptr', 0), mod.member(WPT, 'weak_ptr', 'm_refcount', 1)
        from .ir import Ty
        offs, size, _ = mod.layout(Ty('s', name=TSV))
        L.val = mod.members.get(('type_stored_by_value', 'm_value'), offs[1])
        L.al = mod.members.get(('type_stored_by_value', 'm_allocator'), offs[2])
        L.size = size
        L.vtab = GP([g for g in mod.globals if g.startswith('@_ZTVN5nestl4impl20type_stored_by_value')][0], 16)

    def norm_struct(self, n):
        r = self._norm.get(n)
        if r is None:
            if re.match(r'%struct\.TA(\.\d+)?$', n):
                self._norm[n] = r = TAT
            else:
                r = ElemWorld.norm_struct(self, n)
        return r

    def relevant(self, X, s, key, idx, f):
        j = idx[0]
        if isinstance(key, tuple):
            if key[1] == SCB:
                return Imp(And(j > 0, s.m(ISB)(j)), f)
            if key[1] in (SPT, WPT):
                return Imp(And(j > 0, Not(s.m(ODEAD)(j))), f)
            if key[1] == TAT:
                return Imp(And(j > 0, s.m(LIVE)(j)), f)
        if key in (SELFW, SUB):
            return TRUE
        if key == ODEAD:
            return Imp(j > 0, f)
        return ElemWorld.relevant(self, X, s, key, idx, f)

    def map_tag(self, k):
        if k == ODEAD:
            return 'lifetime'
        return ElemWorld.map_tag(self, k)

    def touch(self, X, st, p):
        if p.st == SCB:
            X.oblige(st, Or(p.base < 0, st.m(ISB)(p.base)), 'control block is not used after it was freed', 'lifetime', 'access')
        elif p.st in (SPT, WPT):
            b = z3.simplify(p.base)
            if not (z3.is_int_value(b) and b.as_long() < 0):
                X.oblige(st, And(Not(st.m(ODEAD)(p.base)), p.base != 0), 'smart pointer object is not used after it was destroyed', 'lifetime', 'access')

    def on_load(self, X, st, p):
        self.touch(X, st, p)

    def on_store(self, X, st, p):
        self.touch(X, st, p)

    def refine(self, X, st, p, v):
        if p.st == SCB and p.idx == L.vptr and not isinstance(v, GP) and X.entails(st, v == flat(L.vtab)):
            return L.vtab
        return v

    def extern(self, X, st, name, args, loc):
        if name in ('@_ZN1ED1Ev', '@_ZN1ED2Ev'):
            p = flat(args[0])
            X.oblige(st, st.m(LIVE)(p), 'pre(E::~E()):destroyed object is live', 'lifetime', loc)
            st.up(LIVE, p, False)
            outs = [st]
            for ghost, fn in ((SELFW, '@_ZN5nestl4impl8weak_ptrI1EED2Ev'), (SUB, '@_ZN5nestl4impl10shared_ptrI1EED2Ev')):
                nxt = []
                for s in outs:
                    w = s.m(ghost)(p)
                    if X.feasible(s, w == 0):
                        s2 = s.clone()
                        s2.assume(w == 0)
                        nxt.append(s2)
                    if X.feasible(s, w != 0):
                        s3 = s.clone()
                        s3.assume(w != 0)
                        s3.trace.append('~E() destroys its %s' % ('weak_ptr' if ghost == SELFW else 'shared_ptr'))
                        for (s4, kind, v) in X.call_named(s3, fn, [w], len(X.callstack), None):
                            s4.up(ODEAD, w, True)
                            nxt.append(s4)
                outs = nxt
            return [(s, 'ret', None) for s in outs]
        return None

    def memset(self, X, st, args):
        d, n = flat(args[0]), z3.simplify(args[2])
        if isinstance(args[0], LP) or not z3.is_int_value(n):
            return ElemWorld.memset(self, X, st, args)
        # raw bytes written over storage: no object may live there
        X.oblige(st, And(*[Not(st.m(LIVE)(d + i)) for i in range(n.as_long())]), 'storage cleared while it holds no object', 'lifetime', 'memset')

    # a pointer-sized access to the start of an object that is not a named member is the vptr of a control block
    def load_raw(self, X, st, p, ty):
        if ty.k == 'p':
            return X.load(st, FP(flat(p), SCB, L.vptr, 0), ty)
        raise Unsupported('untyped load at ' + str(p)[:80])

    def store_raw(self, X, st, p, v, ty):
        if ty.k == 'p' and isinstance(v, GP) and v.name.startswith('@_ZTV'):
            return X.store(st, FP(flat(p), SCB, L.vptr, 0), v, ty)
        raise Unsupported('untyped store at ' + str(p)[:80])


