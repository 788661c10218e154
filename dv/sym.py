"""Symbolic values, functional maps (memory fields and ghost state) and the proof back ends."""
import time, os, re, subprocess, tempfile
import z3

z3.set_param('memory_max_size', 6000)
I, B = z3.IntSort(), z3.BoolSort()
TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)


class Fresh:
    n = 0

    @classmethod
    def reset(cls):
        cls.n = 0

    @classmethod
    def name(cls, p):
        cls.n += 1
        return '%s!%d' % (p, cls.n)


def fresh_int(p='v'):
    return z3.Int(Fresh.name(p))


def fresh_bool(p='b'):
    return z3.Bool(Fresh.name(p))


def fresh(sort, p='v'):
    return z3.Const(Fresh.name(p), sort)


def is_num(x):
    return z3.is_int_value(x) or z3.is_rational_value(x)


_eqc = {}


def meq(a, b):
    """a == b with cheap constant folding"""
    if isinstance(a, int):
        a = z3.IntVal(a)
    if isinstance(b, int):
        b = z3.IntVal(b)
    if a.eq(b):
        return TRUE
    if a.sort() == B:
        return a == b
    k = (a.get_id(), b.get_id())
    r = _eqc.get(k)
    if r is None:
        d = z3.simplify(a - b, som=True) if a.sort() == I else None
        if d is not None and z3.is_int_value(d):
            r = TRUE if d.as_long() == 0 else FALSE
        else:
            r = a == b
        _eqc[k] = (r, a, b)
        return r
    return r[0]


def ite(c, a, b):
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if a.eq(b):
        return a
    return z3.If(c, a, b)


def And(*xs):
    l = []
    for x in xs:
        if isinstance(x, (list, tuple)):
            l.extend(x)
        else:
            l.append(x)
    l = [x for x in l if not z3.is_true(x)]
    for x in l:
        if z3.is_false(x):
            return FALSE
    if not l:
        return TRUE
    return l[0] if len(l) == 1 else z3.And(*l)


def Or(*xs):
    l = []
    for x in xs:
        if isinstance(x, (list, tuple)):
            l.extend(x)
        else:
            l.append(x)
    l = [x for x in l if not z3.is_false(x)]
    for x in l:
        if z3.is_true(x):
            return TRUE
    if not l:
        return FALSE
    return l[0] if len(l) == 1 else z3.Or(*l)


def Not(x):
    if z3.is_true(x):
        return FALSE
    if z3.is_false(x):
        return TRUE
    return z3.Not(x)


def Imp(a, b):
    return Or(Not(a), b)


class Map:
    """total function from `dom` sorts to `rng`, as a base symbol plus functional updates.

    upd: list of ('pt', args, val) | ('fn', closure(prevmap, *args)->expr, descr)"""
    __slots__ = ('name', 'dom', 'rng', 'base', 'prev', 'u', 'memo', 'n')

    def __init__(self, name, dom, rng, base=None, prev=None, u=None):
        self.name, self.dom, self.rng, self.base, self.prev, self.u = name, dom, rng, base, prev, u
        self.memo = {}
        self.n = 0 if prev is None else prev.n + 1

    @staticmethod
    def new(name, dom, rng):
        return Map(name, dom, rng, base=z3.Function(Fresh.name(name), *dom, rng))

    def root(self):
        m = self
        while m.prev is not None:
            m = m.prev
        return m

    def __call__(self, *a):
        a = tuple(z3.IntVal(x) if isinstance(x, int) else x for x in a)
        k = tuple(x.get_id() for x in a)
        r = self.memo.get(k)
        if r is not None:
            return r[0]
        if self.prev is None:
            r = self.base(*a)
        elif self.u[0] == 'pt':
            c = And(*[meq(x, y) for x, y in zip(a, self.u[1])])
            if z3.is_true(c):
                r = self.u[2]
            elif z3.is_false(c):
                r = self.prev(*a)
            else:
                r = ite(c, self.u[2], self.prev(*a))
        else:
            r = self.u[1](self.prev, *a)
        self.memo[k] = (r, a)
        return r

    def set(self, args, val):
        if not isinstance(args, tuple):
            args = (args,)
        args = tuple(z3.IntVal(x) if isinstance(x, int) else x for x in args)
        if isinstance(val, bool):
            val = z3.BoolVal(val)
        elif isinstance(val, int):
            val = z3.IntVal(val)
        return Map(self.name, self.dom, self.rng, prev=self, u=('pt', args, val))

    def define(self, fn, d=None):
        return Map(self.name, self.dom, self.rng, prev=self, u=('fn', fn, d))

    def set_range(self, lo, hi, val):
        """val: expr or function of the index"""
        w = z3.simplify(hi - lo)
        if z3.is_int_value(w):
            w = w.as_long()
            if w <= 0:
                return self
            if w == 1:
                return self.set(lo, val(lo) if callable(val) else val)
        if isinstance(val, bool):
            val = z3.BoolVal(val)
        f = val if callable(val) else (lambda j: val)
        return self.define(lambda p, j: ite(And(lo <= j, j < hi), f(j), p(j)), ('rng', lo, hi))

    def chain(self, upto):
        """updates since map `upto` (oldest first) or None"""
        out, m = [], self
        while m is not upto:
            if m.prev is None:
                return None
            out.append(m.u)
            m = m.prev
        return out[::-1]


_badpat = (z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT, z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE,
           z3.Z3_OP_GT)


def patternable(e):
    if z3.is_app(e):
        return e.decl().kind() not in _badpat and all(patternable(c) for c in e.children())
    return not z3.is_quantifier(e)


class FA:
    """forall over fresh variables; body: function -> BoolRef ; pats: function -> list of patterns (term or tuple)"""

    def __init__(self, sorts, body, pats=None, names=None):
        self.sorts, self.body, self.pats, self.names = sorts, body, pats, names

    def hyp(self):
        vs = [fresh(s, 'q') for s in self.sorts]
        b = self.body(*vs)
        if z3.is_true(b):
            return None
        kw = {}
        if self.pats:
            ps = []
            for p in self.pats(*vs):
                if not all(patternable(x) for x in (p if isinstance(p, tuple) else (p,))):
                    continue
                ps.append(z3.MultiPattern(*p) if isinstance(p, tuple) else p)
            if ps:
                kw['patterns'] = ps
        return z3.ForAll(vs, b, **kw)

    def goal(self):
        vs = [fresh(s, 'sk') for s in self.sorts]
        return self.body(*vs)


class LP:
    """pointer into a local cell object"""
    __slots__ = ('aid', 'off')

    def __init__(self, aid, off):
        self.aid, self.off = aid, off

    def __repr__(self):
        return 'LP(%s,%s)' % (self.aid, self.off)


class FP:
    """pointer to a scalar field of a heap object"""
    __slots__ = ('base', 'st', 'idx', 'off')

    def __init__(self, base, st, idx, off):
        self.base, self.st, self.idx, self.off = base, st, idx, off

    def __repr__(self):
        return 'FP(%s,%s,%d)' % (self.base, self.st, self.idx)


class GP:
    """pointer to a global (+constant offset), or a function"""
    __slots__ = ('name', 'off')

    def __init__(self, name, off=0):
        self.name, self.off = name, off

    def __repr__(self):
        return 'GP(%s+%d)' % (self.name, self.off)


LOCAL_STRIDE = 1 << 20


def local_addr(aid):
    return -(aid + 1) * LOCAL_STRIDE


_globs = {}
_globs_rev = {}


def flat(v):
    if isinstance(v, LP):
        return z3.IntVal(local_addr(v.aid) + v.off)
    if isinstance(v, FP):
        return v.base if v.off == 0 else v.base + v.off
    if isinstance(v, GP):
        k = (v.name, v.off)
        if k not in _globs:
            # globals live at distinct addresses far from the heap
            _globs[k] = z3.IntVal((1 << 70) + (len(_globs) << 12))
            _globs_rev[_globs[k].as_long()] = v
        return _globs[k]
    return v


def unflat(v):
    if z3.is_int_value(v) and v.as_long() in _globs_rev:
        return _globs_rev[v.as_long()]
    return v


# ------------------------------------------------------------------ provers
class Stats:
    def __init__(self):
        self.by = {}
        self.solver_s = 0.0
        self.queries = 0


STATS = Stats()


def qf_check(facts, extra, timeout=2000):
    """satisfiability of quantifier-free facts: 'sat' | 'unsat' | 'unknown'"""
    s = z3.SolverFor('QF_UFLIA') if False else z3.Solver()
    s.set('timeout', timeout)
    t = time.time()
    s.add(*facts)
    s.add(extra)
    r = s.check()
    STATS.solver_s += time.time() - t
    STATS.queries += 1
    return str(r)


LIGHT = [] if os.environ.get('DV_NOLIGHT') else [1]


def prove(pc, qs, goal, timeout=8000, deep=True):
    """returns (status, backend, model_text, seconds), status in 'proved','refuted','unknown'"""
    g = z3.simplify(goal)
    if z3.is_true(g):
        return 'proved', 'simplifier', None, 0.0
    t0 = time.time()
    seen = set()
    pc = [x for x in pc if not (x.get_id() in seen or seen.add(x.get_id()))]
    if goal.get_id() in seen:
        return 'proved', 'known', None, 0.0
    neg = Not(goal)
    model = None
    if True:
        s = z3.Solver()
        s.set('timeout', min(timeout, 2500) if not qs else 300)
        s.add(*pc)
        s.add(neg)
        r = s.check()
        STATS.queries += 1
        if r == z3.unsat:
            dt = time.time() - t0
            STATS.solver_s += dt
            return 'proved', 'z3', None, dt
        if r == z3.sat:
            model = s.model()
        if not qs:
            dt = time.time() - t0
            STATS.solver_s += dt
            if r == z3.sat:
                return 'refuted', 'z3', str(model)[:4000], dt
            return 'unknown', 'z3', None, dt
    if LIGHT:
        # first without the quantifiers that relate two nodes: most goals do not need them and they slow the search down
        few = [q for q in qs if not (z3.is_quantifier(q) and q.num_vars() > 1 and q.num_patterns() and q.pattern(0).num_args() > 1)]
        if len(few) < len(qs):
            r, why, md = solve_text(canon_text(list(pc) + few + [neg]), CA, 0, 800)
            if r == 'unsat':
                dt = time.time() - t0
                STATS.solver_s += dt
                STATS.queries += 1
                return 'proved', 'z3', None, dt
    txt = canon_text(list(pc) + list(qs) + [neg])
    status, backend = 'unknown', 'z3'
    # run times are heavy-tailed: several short runs with different strategies and seeds, then long ones
    plan = [(CA, 0, 1500), (CR, 7, 1500), (CC, 0, 1000)] if timeout <= 3000 or not deep else \
        [(CA, 0, 2000), (CR, 7, 2000), (CC, 0, 2000), (CB, 11, 2000), (CA, 23, timeout), (CR, 5, timeout)]
    if timeout < 1000:
        plan = [(CA, 0, timeout)]
    fin = 0
    for cfg, seed, tmo in plan:
        r, why, md = solve_text(txt, cfg, seed, tmo)
        if r == 'unsat':
            status = 'proved'
            break
        if r == 'sat':
            status, model = 'refuted', md
            break
        if why:
            # the instantiation saturated (a candidate counterexample): other seeds will not change that
            model = md or model
            fin += 1
            if fin >= 2:
                break
    if deep and status == 'unknown':
        r, why, md = solve_text(txt, {}, 0, 3000)
        if r == 'unsat':
            status = 'proved'
        elif r == 'sat':
            status, model = 'refuted', md
    dt = time.time() - t0
    STATS.solver_s += dt
    if status == 'unknown' and deep and dt < 60:
        c5 = cvc5_check(txt, 5)
        dt = time.time() - t0
        if c5 == 'unsat':
            return 'proved', 'cvc5', None, dt
    return status, backend, (str(model)[:4000] if status != 'proved' and model is not None else None), dt


CA = {'auto_config': False, 'mbqi': False, 'relevancy': 2}
CB = {'auto_config': False, 'mbqi': False, 'relevancy': 0, 'arith.solver': 2}
CR = dict(CA, **{'restart_strategy': 0})
CC = dict(CA, **{'case_split': 3})
_num = re.compile(r'!(\d+)')


def canon_text(fs):
    """the query as text with symbols numbered by first occurrence: the solver's answer does not depend on what ran before"""
    s = z3.Solver()
    s.add(*fs)
    seen = {}
    return _num.sub(lambda m: '!%d' % seen.setdefault(m.group(1), len(seen)), s.sexpr())


SCALE = [1]   # retries allow more time


def solve_text(txt, cfg, seed, tmo):
    """-> (result, saturated?, model text)"""
    ctx = z3.Context()
    s = z3.Solver(ctx=ctx)
    s.set('timeout', tmo * SCALE[0])
    for k, v in cfg.items():
        s.set(k, v)
    if seed:
        s.set('random_seed', seed)
    s.from_string(txt)
    r = s.check()
    STATS.queries += 1
    r = str(r)
    why, md = False, None
    if r == 'unknown':
        rs = s.reason_unknown()
        why = 'timeout' not in rs and 'cancel' not in rs
    if r == 'sat' or why:
        try:
            md = str(s.model())[:4000]
        except z3.Z3Exception:
            pass
    return r, why, md


def cvc5_check(txt, secs):
    txt = '(set-logic ALL)\n' + txt + '\n(check-sat)\n'
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write(txt)
    try:
        t = time.time()
        out = subprocess.run(['cvc5', '--tlimit=%d' % (secs * 1000), f.name], capture_output=True, text=True,
                             timeout=secs + 5).stdout.strip()
        STATS.solver_s += time.time() - t
        STATS.queries += 1
        return out.split('\n')[0] if out else 'unknown'
    except subprocess.TimeoutExpired:
        return 'unknown'
    finally:
        os.unlink(f.name)
