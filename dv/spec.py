"""Contract base class, world (memory/ghost vocabulary) base class and the function-by-function driver."""
import re, time, os, z3, pickle, select, signal, ctypes
from .sym import *
from .ir import Unsupported, Ty, PTR
from .exec import Exec, State, AssumeOracle, CheckOracle, seal, Undecided, TooManyFailures, DEBUG, Ob

VACUITY = bool(os.environ.get('DV_VACUITY'))


class Spec:
    """One contract.  pre() -> [(name, formula, tag)], cases() -> names of the possible outcomes,
    post(o, s, args, case): transforms s into the outcome, using the oracle o for unconstrained choices."""
    short = '?'
    pattern = None
    internal = True

    def matches(self, X, name, dem):
        return self.pattern is not None and re.search(self.pattern, dem) is not None

    def setup(self, X, s, fn):
        """symbolic arguments for verifying fn"""
        raise NotImplementedError

    def pre(self, X, s, args):
        return []

    def cases(self, X, s, args):
        return ['ok']

    def post(self, o, s, args, case):
        raise NotImplementedError

    def loopspecs(self, X, L):
        return []


class LoopSpec:
    name = 'loop'

    def __init__(self, name, inv, applies=None, measure=None, join=False):
        self.name, self.inv, self.join = name, inv, join
        if applies:
            self.applies = applies
        if measure:
            self.measure = measure

    def applies(self, X, env):
        return True


class World:
    ghosts = {}
    timeout = 8000
    deep = True
    split = False
    check_nsw = False
    specs = []
    HEAP = ()

    def __init__(self, mod):
        self.mod = mod
        self.driver = None
        self._norm = {}

    def norm_struct(self, n):
        """llvm numbers the instances of one template; instances with the same layout share their field maps"""
        r = self._norm.get(n)
        if r is None:
            r = n[:-5] if n.endswith('.base') else n
            m = re.match(r'(.*?)\.\d+$', r)
            if m and m.group(1) in self.mod.types and r in self.mod.types and \
                    repr(self.mod.types[m.group(1)].elems) == repr(self.mod.types[r].elems):
                r = m.group(1)
            self._norm[n] = r
        return r

    def heap_alloca(self, X, ty):
        def has(t, d=0):
            if t.k == 's' and t.name is not None and any(re.match(p, t.name) for p in self.HEAP):
                return True
            r = X.mod.resolve(t)
            if r.k == 'a':
                return has(r.elems)
            if r.k == 's' and r.elems:
                return any(has(e) for e in r.elems)
            return False
        return has(ty)

    def find_spec(self, X, name):
        dem = X.mod.dem.get(name, name)
        for sp in self.specs:
            if sp.matches(X, name, dem):
                return sp
        return None

    def cell_range(self, X, s, v, size, old):
        pass

    def relevant(self, X, s, key, idx, f):
        return f

    def frame(self, X, exp, fin):
        """goals: every map of the final state equals the expected one"""
        keys = set(exp.maps) | set(fin.maps)
        for k in sorted(keys, key=str):
            a, b = exp.m(k), fin.m(k)
            if a is b:
                continue
            yield ('frame %s' % (k if isinstance(k, str) else '%s.%d' % (k[1].split('::')[-1], k[2])),
                   FA(list(a.dom), lambda *j, a=a, b=b, k=k: self.relevant(X, fin, k, j, a(*j) == b(*j))), self.map_tag(k))
        for c, (v, sz) in exp.cells.items():
            if c in fin.cells and c[0] in self.param_cells(exp):
                w = fin.cells[c][0]
                if repr(v) != repr(w):
                    yield ('frame cell', meq(flat(v), flat(w)), 'err')

    def map_tag(self, k):
        return 'contents'

    def param_cells(self, s):
        return getattr(s, 'X').param_aids

    def extern(self, X, st, name, args, loc):
        return None

    def on_alloca(self, X, st, addr, size):
        pass

    def on_load(self, X, st, p):
        pass

    def refine(self, X, st, p, v):
        return v

    def on_store(self, X, st, p):
        pass

    def load_global(self, X, st, p, ty):
        init = X.mod.globals.get(p.name, '')
        if ty.k == 'p' and p.name.startswith('@_ZTV') and p.off % 8 == 0:
            ents = re.findall(r'ptr (null|inttoptr \([^)]*\)|@"[^"]*"|@[-\w$.]+)', init[init.index('{', init.index('}')):] if '}' in init else init)
            if p.off // 8 < len(ents):
                e = ents[p.off // 8]
                if e.startswith('@'):
                    return GP(e.replace('"', ''))
        raise Unsupported('load of global ' + p.name)

    def load_raw(self, X, st, p, ty):
        raise Unsupported('untyped load at ' + str(p)[:80])

    def store_raw(self, X, st, p, v, ty):
        raise Unsupported('untyped store at ' + str(p)[:80])

    def memcpy_dyn(self, X, st, d, s, n):
        raise Unsupported('memcpy of symbolic size')

    def memcpy_type(self, X, n, ins):
        return None

    def memset(self, X, st, args):
        d, v, n = args[0], args[1], args[2]
        if isinstance(d, LP) and z3.is_int_value(z3.simplify(n)) and z3.is_int_value(v) and v.as_long() == 0:
            ty = X.type_at(st.atypes[d.aid][0], d.off, z3.simplify(n).as_long())
            if ty is not None:
                for (_, _, lt, off, _) in X.leaf_fields(ty):
                    st.wcell(d.aid, d.off + off, z3.IntVal(0), X.mod.size(lt))
                return
        raise Unsupported('memset')

    def indirect_call(self, X, st, fr, x, v):
        raise Unsupported('indirect call')


class Result:
    def __init__(self, name):
        self.name = name
        self.status = 'proved'     # proved | failed | undecided
        self.why = ''
        self.obs = []
        self.secs = 0.0
        self.paths = 0
        self.vacuous = False

    def failed(self):
        return [o for o in self.obs if o.status != 'proved']


class Driver:
    def __init__(self, mod, world, budget=None):
        self.mod, self.world = mod, world
        world.driver = self
        self.X = Exec(mod, world)
        self.X.param_aids = set()
        self.results = {}
        self.kids, self.kid_err = [], []
        self.budget = budget

    KIDS = 7

    def defer(self, sp, fn):
        """run an independent part of a large proof in a forked child"""
        X = self.X
        if not getattr(sp, 'heavy', False) or X.dry or X.shallow or X.inloop:
            return fn()
        while len(self.kids) >= self.KIDS:
            self.reap()
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                ctypes.CDLL(None).prctl(1, signal.SIGKILL)
                os.close(r)
                mark, q0, s0 = len(X.obs), STATS.queries, STATS.solver_s
                err = None
                try:
                    fn()
                except TooManyFailures:
                    err = ('failed', 'many obligations fail')
                except Unsupported as e:
                    err = ('undecided', 'unsupported: %s' % e)
                except Undecided as e:
                    err = ('undecided', str(e))
                except z3.Z3Exception as e:
                    err = ('undecided', 'solver: %s' % e)
                except Exception as e:
                    err = ('undecided', 'verifier: %r' % e)
                obs = [{k: getattr(o, k) for k in Ob.__slots__} for o in X.obs[mark:]]
                data = pickle.dumps((obs, err, STATS.queries - q0, STATS.solver_s - s0))
                with os.fdopen(w, 'wb') as f:
                    f.write(data)
            finally:
                os._exit(0)
        os.close(w)
        self.kids.append((pid, r))

    def reap(self):
        X = self.X
        ready, _, _ = select.select([r for _, r in self.kids], [], [])
        for k in [k for k in self.kids if k[1] in ready]:
            self.kids.remove(k)
            with os.fdopen(k[1], 'rb') as f:
                data = f.read()
            os.waitpid(k[0], 0)
            if not data:
                self.kid_err.append(('undecided', 'a proof process ended early'))
                continue
            obs, err, q, sec = pickle.loads(data)
            X.obs += [Ob(**o) for o in obs]
            STATS.queries += q
            STATS.solver_s += sec
            if err:
                self.kid_err.append(err)

    def function_of(self, sp):
        """the function a contract of PUBLIC applies to (None: not in this program)"""
        if not getattr(sp, 'heavy', False):
            return '@' + sp.entry if '@' + sp.entry in self.mod.funcs else None
        return next((n for n in self.mod.funcs if self.X.spec_of(n) is sp), None)

    def verify(self, name, sp, display=None):
        """verify function `name` against contract sp; returns Result"""
        X = self.X
        fn = self.mod.funcs[name]
        R = Result(display or sp.short)
        saved = (X.fname, X.active, X.obs, X.dry, X.param_aids, X.callstack, X.deadline, X.nfail, X.shallow, X.inloop, X.joins, X.entry_mark)
        X.nfail = X.shallow = X.inloop = 0
        X.fname, X.obs, X.dry = R.name, [], 0
        X.callstack = []
        t0 = time.time()
        if self.budget:
            X.deadline = t0 + self.budget
        try:
            for variant in getattr(sp, 'variants', [None]):
                sp.variant = variant
                s = State(X)
                args = sp.setup(X, s, fn)
                X.param_aids = set(range(s.nalloc))
                for nm, f, tag in sp.pre(X, s, args):
                    s.assume(f)
                # vacuity guard
                sv = z3.Solver()
                sv.set('timeout', 3000)
                sv.add(*s.pc)
                sv.add(*s.qs)
                if sv.check() == z3.unsat:
                    R.status, R.why, R.vacuous = 'undecided', 'contradictory precondition', True
                    return R
                entry = s.clone()
                X.joins, X.entry_mark = {}, Fresh.n
                X.active = [(sp, args, entry)]
                outs = X.exec_func(s, fn, args, 0)
                R.paths += len(outs)
                if not outs and not getattr(sp, 'may_not_return', False):
                    R.status, R.why = 'undecided', 'no path reaches the end of the function'
                for (f, kind, ret) in outs:
                    self.defer(sp, lambda: self.check_exit(X, sp, entry, f, kind, ret, args))
                while self.kids:
                    self.reap()
                for st, why in self.kid_err:
                    if R.status != 'failed':
                        R.status, R.why = st, why
        except TooManyFailures:
            R.status, R.why = 'failed', 'many obligations fail'
        except Unsupported as e:
            R.status, R.why = 'undecided', 'unsupported: %s' % e
        except Undecided as e:
            R.status, R.why = 'undecided', str(e)
            best = getattr(e, 'best', None)
            if best:
                X.obs.extend(o for o in best[2])
        except z3.Z3Exception as e:
            R.status, R.why = 'undecided', 'solver: %s' % e
        finally:
            for pid, r in self.kids:
                os.kill(pid, signal.SIGKILL)
                os.close(r)
                os.waitpid(pid, 0)
            self.kids, self.kid_err = [], []
            R.obs = X.obs
            X.fname, X.active, X.obs, X.dry, X.param_aids, X.callstack, X.deadline, X.nfail, X.shallow, X.inloop, X.joins, X.entry_mark = saved
            R.secs = time.time() - t0
        if R.status == 'proved' and any(o.status != 'proved' for o in R.obs):
            R.status = 'failed'
        return R

    def check_exit(self, X, sp, entry, f, kind, ret, args):
        if not X.feasible(f, TRUE):
            return
        conds = []
        if VACUITY:
            st, _, _, _ = prove(f.pc, f.qs, FALSE, timeout=4000, deep=False)
            X.vac = getattr(X, 'vac', [])
            X.vac.append((X.fname, st, f.trace[-6:]))
        for case in sp.cases(X, entry, args):
            e = entry.clone()
            e.pc, e.qs = list(f.pc), list(f.qs)
            o = CheckOracle(X, e, f, ret)
            r = sp.post(o, e, args, case)
            if o.dead or o.unwound != (kind == 'unwind'):
                continue
            sel = And(*[g for (n, g, t) in o.goals if t == 'case']) if any(t == 'case' for _, _, t in o.goals) else TRUE
            if not X.feasible(f, sel):
                continue
            conds.append(sel)
            f2 = f.clone()
            f2.assume(sel)
            # definitional axioms of map symbols introduced while building the expected state
            f2.pc += e.pc[len(f.pc):]
            f2.qs += e.qs[len(f.qs):]
            f2.trace.append('exit-case=' + case)
            if getattr(X.w, 'seal', False):
                seal(e, entry, f2)
            for nm, g, tag in o.goals:
                if tag == 'case':
                    continue
                X.oblige(f2, g, 'post(%s):%s' % (case, nm), tag or 'contents', 'exit')
            if r is not None and ret is not None and kind == 'ret':
                if isinstance(r, list):
                    for i, (x, y) in enumerate(zip(r, ret)):
                        if x is not None:
                            X.oblige(f2, meq(flat(x), flat(y)), 'post(%s):result[%d]' % (case, i), 'contents', 'exit')
                else:
                    rr, yy = flat(r), flat(ret)
                    if rr.sort() != yy.sort():
                        yy = (yy % 2 == 1) if rr.sort() == B else ite(yy, z3.IntVal(1), z3.IntVal(0))
                    if rr.sort() == I and not rr.eq(yy) and not isinstance(ret, (LP, FP, GP)):
                        rr, yy = X.canon_u(f2, rr), X.canon_u(f2, yy)
                    X.oblige(f2, meq(rr, yy), 'post(%s):result' % case, 'contents', 'exit')
            for nm, g, tag in X.w.frame(X, e, f2):
                X.oblige(f2, g, 'post(%s):%s' % (case, nm), tag, 'exit')
        X.oblige(f, Or(*conds), 'an-allowed-outcome', 'err', 'exit')

    def verify_internal(self, X, name, sp):
        """verify an internal function on first use; demote (inline) it when its contract does not hold"""
        X.verified[name] = 'pending'
        R = self.verify(name, sp, sp.short)
        self.results[name] = R
        ok = R.status == 'proved'
        X.verified[name] = ok
        if not ok:
            X.nocontract.add(name)
            if DEBUG:
                print('  DEMOTED %s: %s %s' % (sp.short, R.why, R.failed()[:2]), flush=True)
        return ok
