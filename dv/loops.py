"""Loop treatment: every loop is cut at its header by an inductive invariant over a ghost iteration
counter k.  Invariants are either inferred (affine cells, closed-form map updates, guard-derived
bounds) or supplied by the contract being verified (spec.loopspecs), in terms of abstract state only."""
import re, z3, time, os
from .sym import *
from .ir import Unsupported
from .exec import Undecided, AssumeOracle, CheckOracle, DEBUG, seal, Shallow


def consts_of(e, acc, seen):
    st = [e]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            st.append(x.body())
            continue
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                acc.add(x.decl().name())
            st.extend(x.children())
    return acc


def newer_than(e, mark, allow):
    for n in consts_of(e, set(), set()):
        if n in allow:
            continue
        if '!' in n:
            try:
                if int(n.rsplit('!', 1)[1]) > mark:
                    return n
            except ValueError:
                pass
    return None


class Env:
    pass


def const_diff(a, b):
    if isinstance(a, (LP, FP, GP)) or isinstance(b, (LP, FP, GP)):
        return 0 if repr(a) == repr(b) else None
    if a.sort() != I or b.sort() != I:
        return None
    d = z3.simplify(a - b)
    return d.as_long() if z3.is_int_value(d) else None


def havoc(X, s, cells, maps):
    hv = {}
    for c in cells:
        if c in s.cells:
            v, sz = s.cells[c]
            if isinstance(v, (LP, GP)):
                continue
            nv = fresh_int('c')
            hv[c] = nv
            s.cells[c] = (nv, sz)
            X.w.cell_range(X, s, nv, sz, v)
    for m in maps:
        old = s.m(m)
        nm = Map.new(old.name, old.dom, old.rng)
        s.maps[m] = nm
        hv[m] = nm
    return hv


def discover(X, st, fr, header, prev, region):
    """cells and maps the loop may modify (fixpoint over dry runs)"""
    cells, maps = set(), set()
    res = None
    for _ in range(6):
        s = st.clone()
        hv = havoc(X, s, cells, maps)
        s.writes, s.mwrites = set(), set()
        X.dry += 1
        try:
            res = X.run(s, fr.clone(), header, prev, region, header)
        finally:
            X.dry -= 1
        w = {c for c in s.writes if c[0] < st.nalloc and c in st.cells}
        m = set(s.mwrites)
        if st.writes is not None:
            st.writes |= s.writes
        if st.mwrites is not None:
            st.mwrites |= s.mwrites
        if w <= cells and m <= maps:
            return cells, maps, hv, res
        cells |= w
        maps |= m
    raise Undecided('loop write set does not stabilise at %s' % header)


def literal_guard(X, st, fr, header, prev):
    """the header's exit test has a literal outcome in this state (a loop over a fixed number of objects)"""
    s, f = st.clone(), fr.clone()
    out, work = [], []
    X.dry += 1
    n = X.nlit
    try:
        r = X.step_block(s, f, header, prev, out, work)
    except Exception:
        return False
    finally:
        X.dry -= 1
    last = fr.fn.blocks[header].ins[-1]
    return r is not None and not out and not work and last.op == 'br' and 'c' in last.a and X.nlit == n + 1


def unrolled(X, st, fr, header, prev, region, n):
    """the loop ends after at most n iterations: every longer run is infeasible (no run is cut off)"""
    mark, nf = len(X.obs), X.nfail
    out, work = [], [(st.clone(), fr.clone(), prev)]
    try:
        for _ in range(n + 1):
            nxt = []
            for s, f, p in work:
                for r in X.run(s, f, header, p, region, header):
                    if r[0] != 'back':
                        out.append(r)
                    elif X.feasible(r[1], TRUE):
                        nxt.append((r[1], r[2], r[3]))
            work = nxt
            if not work:
                return out
    except (Undecided, Unsupported, NoInv):
        pass
    del X.obs[mark:]
    X.nfail = nf
    return None


def do_loop(X, st, fr, header, prev, depth=0):
    region = fr.fn.loops()[header]
    if depth < 4 and literal_guard(X, st, fr, header, prev):
        # unroll one iteration; the continuation is treated as a loop again, so nothing is cut off
        out = []
        for r in X.run(st, fr, header, prev, region, header):
            if r[0] == 'back':
                out += do_loop(X, r[1], r[2], header, r[3], depth + 1)
            else:
                out.append(r)
        return out
    spec, args, entry = X.active[-1]
    if getattr(spec, 'unroll', 0) and depth == 0:
        r = unrolled(X, st, fr, header, prev, region, spec.unroll)
        if r is not None:
            return r
    if getattr(spec, 'join', False) and not X.dry and not X.inloop and not fr.depth and not X.shallow:
        try:
            return join_loop(X, st, fr, header, prev, spec, args, entry)
        except (NoInv, Unsupported) as e:
            if DEBUG:
                print('  not joined:', e, flush=True)
    return core(X, st, fr, header, prev, region)


_reg = re.compile(r'%("[^"]*"|[-\w$.]+)')


def regs_after(fn, header):
    """names of values that the loop or the code after it may use and that were computed before it"""
    seen, work = set(), [header]
    while work:
        b = work.pop()
        if b in seen:
            continue
        seen.add(b)
        work += list(fn.blocks[b].succs())
    used, defd = set(), set()
    for b in seen:
        for i in fn.blocks[b].ins:
            used |= set(_reg.findall(i.text))
            if i.res:
                defd.add(i.res.lstrip('%'))
    return {u.strip('"') for u in used} - defd


def join_base(X, st, fr, entry):
    """a state that any arrival at the loop satisfies: the entry state of the function under verification,
    local variables known only where they hold a value determined by the arguments"""
    live = {v.aid for v in fr.regs.values() if isinstance(v, LP)} | set(X.param_aids)
    B = st.clone()
    B.pc, B.qs, B.known = list(entry.pc), list(entry.qs), dict(entry.known)
    B.maps = dict(entry.maps)
    B.cells, unknown = {}, set()
    for c, (v, sz) in st.cells.items():
        if c[0] not in live:
            continue
        if isinstance(v, (LP, GP)) or newer_than(flat(v), X.entry_mark, set()) is None:
            B.cells[c] = (v, sz)
        else:
            B.cells[c] = (fresh_int('j'), sz)
            X.w.cell_range(X, B, B.cells[c][0], sz, v)
            unknown.add(c)
    return B, unknown


def join_loop(X, st, fr, header, prev, spec, args, entry):
    """one proof of the loop for all paths that arrive at it; later arrivals only establish the invariant"""
    if any(i.op == 'phi' for i in fr.fn.blocks[header].ins):
        raise NoInv('phi at the loop head')
    B, unknown = join_base(X, st, fr, entry)
    need = regs_after(fr.fn, header)
    regs = {r: repr(v) for r, v in fr.regs.items() if r.lstrip('%') in need}
    hit = X.joins.get(header)
    if hit is not None:
        L, ls, unk, regs0 = hit
        same = regs == regs0 and set(B.cells) == set(L.st.cells) and \
            all(c in unk or (c in L.cells and c not in L.aff) or (c not in unknown and repr(B.cells[c][0]) == repr(L.st.cells[c][0])) for c in B.cells)
        if same:
            env = Env()
            env.args, env.entry, env.s0, env.L, env.sel = args, entry, L.st, L, None

            def arrive():
                if L.check_inv(ls, env, st, z3.IntVal(0), 'init'):
                    raise Undecided('loop invariant not established at %s' % L.loc)
            X.w.driver.defer(spec, arrive)
            return []
        raise NoInv('a different arrival: %s %s' % ([(r, regs.get(r), regs0.get(r)) for r in set(regs) | set(regs0) if regs.get(r) != regs0.get(r)],
                    [(c, B.cells.get(c), L.st.cells.get(c)) for c in set(B.cells) | set(L.st.cells) if repr(B.cells.get(c)) != repr(L.st.cells.get(c))]))
    win = []
    r = core(X, B, fr, header, prev, fr.fn.loops()[header], st, win)
    if win:
        X.joins[header] = (win[0], win[1], unknown, regs)
    return r


def core(X, st, fr, header, prev, region, actual=None, win=None):
    loc = X.mod.loc(fr.fn.blocks[header].ins[0].dbg)
    cells, maps, hv, res = discover(X, st, fr, header, prev, region)
    # cells that the loop re-initialises before use and that were never set are not in st.cells: drop others' stale temps
    backs = [r for r in res if r[0] == 'back']
    aff = {}
    for c in cells:
        v = st.cells[c][0]
        if isinstance(v, (LP, GP)):
            continue
        ds = set()
        for r in backs:
            cv = r[1].cells.get(c)
            ds.add(None if cv is None else const_diff(cv[0], hv[c]))
        if len(ds) == 1 and None not in ds:
            aff[c] = ds.pop()
    # cells that hold their entry value at every iteration although the body may overwrite them (error objects)
    cand = {c for c in cells if c not in aff and not isinstance(st.cells[c][0], (LP, GP))}
    while cand:
        s = st.clone()
        havoc(X, s, cells - cand, maps)
        X.dry += 1
        try:
            rr = X.run(s, fr.clone(), header, prev, region, header)
        finally:
            X.dry -= 1
        bad = set()
        for r in rr:
            if r[0] != 'back':
                continue
            for c in cand - bad:
                cv = r[1].cells.get(c)
                if cv is None or not (repr(cv[0]) == repr(st.cells[c][0]) or
                                      X.entails(r[1], meq(flat(cv[0]), flat(st.cells[c][0])))):
                    bad.add(c)
        if not bad:
            break
        cand -= bad
    for c in cand:
        aff[c] = 0
    L = LoopCtx(X, st, fr, header, prev, region, cells, maps, aff, loc)
    L.backs0, L.hv0 = backs, hv
    L.actual = actual if actual is not None else st
    if X.dry:
        return L.dry_exits()
    errs = []
    cands = []
    for spec, args, entry in reversed(X.active):
        if actual is not None and spec is not X.active[-1][0]:
            continue
        for ls in getattr(spec, 'loopspecs', lambda X, e: [])(X, L):
            cands.append(('spec', ls, args, entry))
    if actual is not None:
        cands = [c for c in cands if getattr(c[1], 'join', False)]
        if not cands:
            raise NoInv('no invariant for all arrivals')
    for ls in getattr(X.w, 'loopspecs', lambda X, L: [])(X, L) if actual is None else []:
        cands.append(('spec', ls, X.active[-1][1], X.active[-1][2]))
    auto = [('auto', None, None, None)] if actual is None else []
    order = cands + auto if getattr(X.w, 'auto_last', False) else auto + cands
    second = None
    best = None
    # first pass: is there a candidate all of whose obligations go through quickly?
    if len(order) > 1 or X.shallow:
        for kind, ls, args, entry in order:
            mark, nf = len(X.obs), X.nfail
            X.shallow += 1
            try:
                r, bad = L.attempt(kind, ls, args, entry)
                if bad == 0 and all(o.status == 'proved' for o in X.obs[mark:]):
                    X.loopinfo.append((X.fname, loc, kind if ls is None else ls.name))
                    if win is not None:
                        win += [L, ls]
                    return r
                errs.append('%s: not inductive' % (kind if ls is None else ls.name))
            except (Undecided, Unsupported, NoInv, Shallow) as e:
                errs.append('%s: %s' % (kind if ls is None else ls.name, e))
                if isinstance(e, Undecided) and 'time limit' in str(e):
                    raise
            finally:
                X.shallow -= 1
            del X.obs[mark:]
            X.nfail = nf
        if DEBUG:
            print('  quick pass:', errs, flush=True)
        if X.shallow:
            raise Shallow('no quick invariant at %s: %s' % (loc, errs))
        errs = []
    for kind, ls, args, entry in order:
        mark = len(X.obs)
        nf = X.nfail
        try:
            r, bad = L.attempt(kind, ls, args, entry)
        except (Undecided, Unsupported, NoInv) as e:
            errs.append('%s: %s' % (kind if ls is None else ls.name, e))
            del X.obs[mark:]
            X.nfail = nf
            if isinstance(e, Undecided) and 'time limit' in str(e):
                raise
            continue
        obs = X.obs[mark:]
        if bad == 0:
            if all(o.status == 'proved' for o in obs):
                X.loopinfo.append((X.fname, loc, kind if ls is None else ls.name))
                if win is not None:
                    win += [L, ls]
                return r
            # the invariant is inductive but something in the body fails: keep, unless another invariant does better
            if second is None:
                second = (r, obs, X.nfail, kind if ls is None else ls.name, ls)
            del X.obs[mark:]
            X.nfail = nf
            continue
        del X.obs[mark:]
        X.nfail = nf
        errs.append('%s: %d undischarged: %s' % (kind if ls is None else ls.name, bad,
                                                 '; '.join('%s@%s' % (o.name, o.loc) for o in obs if o.status != 'proved')[:400]))
        if best is None or (bad, ) < best[0]:
            best = ((bad, ), r, obs, kind if ls is None else ls.name)
    if second is not None:
        r, obs, X.nfail, nm, ls = second
        if win is not None:
            win += [L, ls]
        X.obs.extend(obs)
        X.loopinfo.append((X.fname, loc, nm))
        return r
    if DEBUG:
        print('  LOOP %s: %s' % (loc, errs), flush=True)
    raise LoopFail('no inductive invariant for the loop at %s (%s)' % (loc, ' | '.join(errs)), best)


def quick(X, st, f):
    f = z3.simplify(f)
    if z3.is_true(f):
        return True
    if z3.is_false(f):
        return False
    r = prove(st.pc, st.qs, f, timeout=4000, deep=False)
    if DEBUG and r[3] > 1:
        print("   quick", r[0], "%.1f" % r[3], flush=True)
    return r[0] == "proved"


class NoInv(Exception):
    pass


class LoopFail(Undecided):
    def __init__(self, msg, best=None):
        Undecided.__init__(self, msg)
        self.best = best


class LoopCtx:
    def __init__(self, X, st, fr, header, prev, region, cells, maps, aff, loc):
        self.X, self.st, self.fr, self.header, self.prev, self.region = X, st, fr, header, prev, region
        self.cells, self.maps, self.aff, self.loc = cells, maps, aff, loc
        self.depth_in_loop = 0

    def dry_exits(self):
        X = self.X
        s = self.st.clone()
        havoc(X, s, self.cells, self.maps)
        res = X.run(s, self.fr.clone(), self.header, self.prev, self.region, self.header)
        return [r for r in res if r[0] != 'back']

    def entry_val(self, c):
        return self.st.cells[c][0]

    def head_state(self, k, keep=()):
        """entry state with affine cells at iteration k and all other modified cells unknown"""
        X = self.X
        H = self.st.clone()
        H.assume(k >= 0)
        for c in self.cells:
            v, sz = self.st.cells[c]
            if isinstance(v, (LP, GP)):
                continue
            if c in self.aff:
                d = self.aff[c]
                nv = flat(v) if d == 0 else z3.simplify(flat(v) + d * k)
                if d == 0 and isinstance(v, FP):
                    nv = v
                H.cells[c] = (nv, sz)
            else:
                nv = fresh_int('t')
                H.cells[c] = (nv, sz)
                X.w.cell_range(X, H, nv, sz, v)
        return H

    def check_cells(self, b, k1):
        """obligations that the affine cells have advanced"""
        X, bad = self.X, 0
        for c in self.cells:
            v, sz = self.st.cells[c]
            bv = b.cells.get(c)
            if isinstance(v, (LP, GP)):
                if bv is None or repr(bv[0]) != repr(v):
                    raise NoInv('pointer cell changes')
                continue
            if c in self.aff:
                d = self.aff[c]
                if bv is None:
                    raise NoInv('cell vanished')
                if not X.oblige(b, meq(flat(bv[0]), z3.simplify(flat(v) + d * k1)), 'loop-inv:cell', 'loop', self.loc):
                    bad += 1
        return bad

    # ---------------------------------------------------------------- attempts
    def attempt(self, kind, ls, args, entry):
        self.X.inloop += 1
        try:
            return self.attempt1(kind, ls, args, entry)
        finally:
            self.X.inloop -= 1

    def attempt1(self, kind, ls, args, entry):
        X = self.X
        if kind == 'auto':
            return self.attempt_auto()
        bad = 0
        env = Env()
        env.args, env.entry, env.s0, env.L = args, entry, self.st, self
        if not ls.applies(X, env):
            raise NoInv('not applicable')
        env.sel = None
        # initialisation
        bad += self.check_inv(ls, env, self.actual, z3.IntVal(0), 'init')
        if bad:
            return [], bad
        if getattr(ls, 'cells', None) is not None:
            if getattr(ls, 'sel', None):
                env.sel = ls.sel
            else:
                self.infer_cells(ls, env)
                ls.sel = env.sel
        k = fresh_int('k')
        H = self.head_spec(ls, env, k)
        for nm, f, tag in (ls.lemmas(X, H, env) if hasattr(ls, 'lemmas') else []):
            if not X.oblige(H, f, 'loop-lemma(%s):%s' % (ls.name, nm), 'loop', self.loc):
                return [], 1
        return self.finish(H, k, ls, env, [], None)

    def head_spec(self, ls, env, k):
        """state at the loop head: entry state transformed by the invariant at iteration k"""
        X = self.X
        H = self.head_state(k)
        o = AssumeOracle(X, H)
        env.k, env.cur, env.base = k, H, H
        ls.inv(o, H, env)
        if getattr(X.w, 'seal', False):
            seal(H, self.st, H)
        if env.sel:
            cc = ls.cells(X, env)
            for c, ixs in env.sel.items():
                for n, ix in enumerate(ixs):
                    e = cc[ix](c)
                    if n == 0 and not (getattr(X.w, 'seal', False) and z3.is_app(e) and e.num_args()):
                        H.cells[c] = (e, H.cells[c][1])
                    else:
                        H.assume(meq(H.cells[c][0], e))
        env.head = H
        return H

    def free_cells(self):
        """modified local cells without a closed form"""
        return [c for c in sorted(self.cells) if c not in self.aff and not isinstance(self.st.cells[c][0], (LP, GP))
                and self.st.cells[c][1] == 8]

    def infer_cells(self, ls, env):
        """which candidate expressions (over the invariant's abstract state) do the modified local cells carry?
        Largest inductive subset; the proof of the loop re-establishes each as an obligation."""
        X = self.X
        env.sel = {}
        env.k, env.cur, env.base = z3.IntVal(0), self.st, self.st
        cc = ls.cells(X, env)
        for c in self.free_cells():
            v = flat(self.st.cells[c][0])
            ok = []
            for i, f in enumerate(cc):
                try:
                    e = f(c)
                except Exception:
                    continue
                if e is not None and quick(X, self.st, meq(v, e)):
                    ok.append(i)
            if ok:
                env.sel[c] = ok
        for _ in range(8):
            k = fresh_int('k')
            H = self.head_spec(ls, env, k)
            # the lemmas are proved when the invariant is; here they only guide the search
            for nm, f, tag in (ls.lemmas(X, H, env) if hasattr(ls, 'lemmas') else []):
                H.assume(f)
            X.dry += 1
            try:
                res = X.run(H.clone(), self.fr.clone(), self.header, self.prev, self.region, self.header)
            finally:
                X.dry -= 1
            drop = False
            for r in res:
                if r[0] != 'back':
                    continue
                b = r[1]
                e = self.st.clone()
                e.pc, e.qs = list(b.pc), list(b.qs)
                env.k, env.cur, env.base = k + 1, b, e
                ls.inv(CheckOracle(X, e, b, None), e, env)
                cc = ls.cells(X, env)
                b = b.clone()
                b.pc, b.qs = e.pc, e.qs
                for c in list(env.sel):
                    bv = b.cells.get(c)
                    keep = [i for i in env.sel[c] if bv is not None and quick(X, b, meq(flat(bv[0]), cc[i](c)))]
                    if len(keep) != len(env.sel[c]):
                        drop = True
                        if keep:
                            env.sel[c] = keep
                        else:
                            del env.sel[c]
            if DEBUG:
                print('  cells of', ls.name, env.sel, flush=True)
            if not drop:
                return

    def check_inv(self, ls, env, actual, k, what):
        X = self.X
        e = self.st.clone()
        e.pc, e.qs = list(actual.pc), list(actual.qs)
        o = CheckOracle(X, e, actual, None)
        env.k, env.cur = k, actual
        env.base = e
        ls.inv(o, e, env)
        bad = 0
        if env.sel:
            cc = ls.cells(X, env)
            for c, ixs in env.sel.items():
                for ix in ixs:
                    o.ensure(meq(flat(actual.cells[c][0]), cc[ix](c)), 'cell %s' % (c,), 'loop')
        if getattr(X.w, 'seal', False):
            actual, a0 = actual.clone(), actual
            actual.pc += e.pc[len(a0.pc):]
            actual.qs += e.qs[len(a0.qs):]
            seal(e, self.st, actual)
        for nm, g, tag in o.goals + list(X.w.frame(X, e, actual)):
            if not X.oblige(actual, g, 'loop-%s(%s):%s' % (what, ls.name, nm), 'loop', self.loc):
                bad += 1
                if bad >= 1:
                    return bad
        return bad

    def finish(self, H, k, ls, env, bounds, closed):
        X = self.X
        bad = 0
        s = H.clone()
        res = X.run(s, self.fr.clone(), self.header, self.prev, self.region, self.header)
        exits = []
        k1 = k + 1
        nb = 0
        for r in res:
            if r[0] != 'back':
                exits.append(r)
                continue
            nb += 1
            b = r[1]
            bad += self.check_cells(b, k1)
            if bad:
                return exits, bad
            if closed is not None:
                want = closed(k1)
                for key in self.maps:
                    g = FA(list(b.m(key).dom), lambda *j, _k=key: X.w.relevant(X, b, _k, j, b.m(_k)(*j) == want[_k](*j)))
                    if not X.oblige(b, g, 'loop-inv:map %s' % (key,), 'loop', self.loc):
                        bad += 1
                        return exits, bad
                for g in bounds:
                    if not X.oblige(b, g(k1), 'loop-inv:bound', 'loop', self.loc):
                        bad += 1
            else:
                bad += self.check_inv(ls, env, b, k1, 'preserved')
                env.k = k
                if bad:
                    return exits, bad
                m = getattr(ls, 'measure', None)
                if m is not None:
                    env.cur, env.k = H, k
                    m0 = m(H, env)
                    env.cur, env.k = b, k1
                    m1 = m(b, env)
                    if m0 is not None and not X.oblige(b, And(m0 >= 0, m1 < m0), 'loop-terminates', 'termination', self.loc):
                        bad += 1
        if closed is not None and not bounds and nb:
            X.oblige(H, FALSE, 'loop-terminates', 'termination', self.loc)
            bad += 1
        return exits, bad

    def attempt_auto(self):
        X, st = self.X, self.st
        mark = Fresh.n
        k = fresh_int('k')
        kname = k.decl().name()
        # probe runs with unknown maps; maps whose closed form is known are replaced by it and the probe repeated
        solved = {}
        allow = {kname}
        for rnd in range(4):
            H = self.head_state(k)
            probe = {}
            fnsub = []
            for m in self.maps:
                old = st.m(m)
                if m in solved:
                    H.maps[m] = solved[m](k, lambda e: e)
                    continue
                nm = Map.new(old.name, old.dom, old.rng)
                probe[m] = nm
                H.maps[m] = nm
                fnsub.append((nm.base, old(*[z3.Var(i, s_) for i, s_ in enumerate(old.dom)])))
            head_maps = dict(H.maps)
            X.dry += 1
            n0 = len(H.pc)
            try:
                res = X.run(H.clone(), self.fr.clone(), self.header, self.prev, self.region, self.header)
            finally:
                X.dry -= 1
            backs = [r for r in res if r[0] == 'back']
            if not backs:
                # body never reaches the header again: not a real loop
                return [r for r in X.run(st.clone(), self.fr.clone(), self.header, self.prev, self.region, self.header)], 0
            allow = {kname} | {m.base.name() for m in probe.values()}

            def to_entry(e, fnsub=fnsub):
                return z3.substitute_funs(e, *fnsub) if fnsub else e
            forms = dict(solved)
            fail = None
            progress = False
            for key in sorted(probe, key=str):
                try:
                    sets = []
                    for r in backs:
                        ch = r[1].m(key).chain(head_maps[key])
                        if ch is None:
                            raise NoInv('map %s rebuilt in loop' % (key,))
                        sets.append(ch)
                    sig = [self.sig(c) for c in sets]
                    if any(s_ != sig[0] for s_ in sig):
                        raise NoInv('map %s updated differently on different paths' % (key,))
                    f = self.closed_form(key, sets[0], k, mark, allow, probe)
                    forms[key] = lambda K, _id, f=f, te=to_entry: f(K, te)
                    if getattr(f, 'additive', False):
                        solved[key] = forms[key]
                        progress = True
                except NoInv as e:
                    fail = e
            if fail is None and len(forms) == len(self.maps):
                break
            if not progress:
                raise fail or NoInv('no closed form')
        else:
            raise NoInv('no closed form')

        def closed(K):
            out = {}
            for key in self.maps:
                out[key] = forms[key](K, to_entry)
            return out
        # guards
        bounds, stays = [], []
        cand_atoms = []
        for r in backs:
            cand_atoms.append(r[1].pc[n0:])
        if cand_atoms:
            for a in cand_atoms[0]:
                if not all(any(a.eq(b) for b in l) for l in cand_atoms[1:]):
                    continue
                b = self.bound_from(a, k)
                if b is not None and newer_than(b(z3.IntVal(0)), mark, set()) is None:
                    bounds.append(b)
                elif newer_than(a, mark, {kname}) is None:
                    stays.append(a)
        bounds = [b for b in bounds if prove(st.pc, st.qs, b(z3.IntVal(0)), timeout=1500, deep=False)[0] == 'proved']

        def mk_head():
            H = self.head_state(k)
            for key, mp in closed(k).items():
                H.maps[key] = mp
            for b in bounds:
                H.assume(b(k))
            for a in stays:
                H.assume(FA([I], lambda i, a=a: Imp(And(0 <= i, i < k), z3.substitute(a, (k, i)))))
            return H
        # Houdini on bounds
        while bounds:
            X.dry += 1
            try:
                res = X.run(mk_head(), self.fr.clone(), self.header, self.prev, self.region, self.header)
            finally:
                X.dry -= 1
            keep = [b for b in bounds if all(prove(r[1].pc, r[1].qs, b(k + 1), timeout=1500, deep=False)[0] == 'proved'
                                             for r in res if r[0] == 'back')]
            if len(keep) == len(bounds):
                break
            bounds = keep
        return self.finish(mk_head(), k, None, None, bounds, closed)

    def sig(self, ch):
        out = []
        for u in ch:
            if u[0] == 'pt':
                out.append(('pt', tuple(str(z3.simplify(x)) for x in u[1]), str(z3.simplify(u[2]))))
            else:
                out.append(('fn', id(u[1])))
        return out

    def closed_form(self, key, ch, k, mark, allow, probe):
        X, st = self.X, self.st
        if any(u[0] != 'pt' for u in ch):
            raise NoInv('non-pointwise update of %s' % (key,))
        ups = []
        for u in ch:
            args, v = u[1], z3.simplify(u[2])
            for e in list(args) + [v]:
                n = newer_than(e, mark, allow)
                if n:
                    raise NoInv('update of %s depends on %s' % (key, n))
            if len(args) != 1:
                raise NoInv('multi-index map update')
            a = z3.simplify(args[0])
            beta = const_diff(z3.substitute(a, (k, k + 1)), a)
            if beta is None or abs(beta) > 1:
                raise NoInv('non-affine index in update of %s' % (key,))
            alpha = z3.simplify(z3.substitute(a, (k, z3.IntVal(0))))
            if newer_than(alpha, mark, set()) is not None:
                raise NoInv('index depends on modified map')
            ups.append((alpha, beta, v))
        entry = st.m(key)
        fixed = [u for u in ups if u[1] == 0]
        moving = [u for u in ups if u[1] != 0]
        if fixed and moving:
            raise NoInv('mixed fixed/moving updates')
        if fixed:
            # loop-invariant addresses: last value per address, additive or constant
            if len(fixed) > 1:
                last = {}
                for (al, be, v) in fixed:
                    last[str(al)] = (al, be, v)
                if len(last) > 1:
                    # several addresses: need pairwise disequality to be exact; accept, the inductive check decides
                    pass
                fixed = list(last.values())
            base = probe[key]

            def form(K, to_entry):
                m = entry
                for al, be, v in fixed:
                    d = const_diff(v, base(al))
                    if d is not None:
                        m = m.set(al, z3.simplify(entry(al) + d * K))
                    else:
                        # value written in the last iteration
                        vv = to_entry(z3.substitute(v, (k, K - 1)))
                        m = m.set(al, ite(meq(K, z3.IntVal(0)), entry(al), ite(K > 0, vv, entry(al))))
                return m
            form.additive = all(const_diff(v, base(al)) is not None for al, be, v in fixed)
            return form
        # moving: iteration that writes index j is t = beta*(j-alpha)

        def form(K, to_entry):
            items = []
            for n, (al, be, v) in enumerate(moving):
                items.append((al, be, v, n))

            def fn(p, j):
                r = p(j)
                # order by constant offset of t: later writers first
                lst = []
                for al, be, v, n in items:
                    t = z3.simplify(be * (j - al))
                    lst.append((t, v, n))
                ref = lst[0][0]
                offs = []
                for t, v, n in lst:
                    d = const_diff(t, ref)
                    offs.append((d if d is not None else 0, n, t, v))
                offs.sort(key=lambda q: (q[0], q[1]))
                for d, n, t, v in offs:
                    vv = to_entry(z3.substitute(v, (k, t)))
                    r = ite(And(t >= 0, t < K), vv, r)
                return r
            return entry.define(fn)
        return form

    def bound_from(self, a, k):
        neg = False
        x = a
        if z3.is_not(x):
            neg = True
            x = x.arg(0)
        if not (z3.is_eq(x) or z3.is_le(x) or z3.is_lt(x) or z3.is_ge(x) or z3.is_gt(x)):
            return None
        if x.arg(0).sort() != I:
            return None
        if z3.is_eq(x) and not neg:
            return None
        D = z3.simplify(x.arg(0) - x.arg(1))
        c1 = const_diff(z3.substitute(D, (k, k + 1)), D)
        if c1 not in (1, -1):
            return None
        c0 = z3.simplify(z3.substitute(D, (k, z3.IntVal(0))))
        if c1 == -1:
            return lambda K: K <= c0
        return lambda K: K <= -c0
