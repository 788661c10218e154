"""Verification-condition generator: path-splitting forward symbolic execution of LLVM IR, one
function at a time.  Callees that carry a verified contract are replaced by it, other callees are
inlined, loops are cut by invariants (inferred closed forms or a contract's loop clause)."""
import time, re, os
import z3
from .ir import Unsupported, Ty, PTR
from .sym import *

DEBUG = bool(os.environ.get('DV_DEBUG'))
M64 = 1 << 64


class Undecided(Exception):
    pass


class Shallow(Exception):
    """an obligation needs more than the quick pass over the candidate invariants"""


class TooManyFailures(Exception):
    pass


class State:
    __slots__ = ('pc', 'qs', 'cells', 'maps', 'nalloc', 'atypes', 'trace', 'X', 'writes', 'mwrites', 'known')

    def __init__(self, X):
        self.X = X
        self.pc, self.qs = [], []
        self.cells, self.maps, self.atypes = {}, {}, {}
        self.nalloc = 0
        self.trace = []
        self.writes = None
        self.mwrites = None
        self.known = {}

    def clone(self):
        s = State.__new__(State)
        s.X = self.X
        s.pc, s.qs = list(self.pc), list(self.qs)
        s.cells, s.maps, s.atypes = dict(self.cells), dict(self.maps), dict(self.atypes)
        s.nalloc = self.nalloc
        s.trace = list(self.trace)
        s.writes = self.writes
        s.mwrites = self.mwrites
        s.known = dict(self.known)
        return s

    # --- maps
    def m(self, key):
        r = self.maps.get(key)
        if r is None:
            r = self.X.basemap(key)
            self.maps[key] = r
        return r

    def setm(self, key, mp):
        self.maps[key] = mp
        if self.mwrites is not None:
            self.mwrites.add(key)

    def fld(self, st, idx, base):
        return self.m(('F', st, idx))(base)

    def setfld(self, st, idx, base, v):
        k = ('F', st, idx)
        self.setm(k, self.m(k).set(base, v))

    def up(self, key, args, v):
        self.setm(key, self.m(key).set(args, v))

    def assume(self, f):
        if isinstance(f, FA):
            h = f.hyp()
            if h is not None:
                self.qs.append(h)
        elif isinstance(f, (list, tuple)):
            for x in f:
                self.assume(x)
        elif not z3.is_true(f):
            if z3.is_and(f):
                self.pc.extend(f.children())
            else:
                self.pc.append(f)

    # --- cells
    def new_cell(self, ty, name='a'):
        aid = self.nalloc
        self.nalloc += 1
        self.atypes[aid] = (ty, name)
        return aid

    def wcell(self, aid, off, v, size):
        if self.writes is not None:
            self.writes.add((aid, off))
        # drop overlapping cells
        c = self.cells.get((aid, off))
        if c is None or c[1] != size:
            for (a, o) in [k for k in self.cells if k[0] == aid and k[1] < off + size and k[1] + self.cells[k][1] > off]:
                del self.cells[(a, o)]
        self.cells[(aid, off)] = (v, size)

    def rcell(self, aid, off, size):
        c = self.cells.get((aid, off))
        if c is not None and c[1] == size:
            return c[0]
        if c is None:
            for (a, o) in self.cells:
                if a == aid and o < off + size and o + self.cells[(a, o)][1] > off:
                    raise Unsupported('partial load of local')
            v = fresh_int('uninit')
            self.cells[(aid, off)] = (v, size)
            return v
        if c[1] > size and size in (1, 4) and not isinstance(c[0], (LP, FP, GP)):
            raise Unsupported('narrowing load of local')
        raise Unsupported('mismatched load of local size %d vs %d' % (c[1], size))


class Frame:
    __slots__ = ('fn', 'regs', 'depth', 'aids')

    def __init__(self, fn, depth):
        self.fn, self.regs, self.depth = fn, {}, depth

    def clone(self):
        f = Frame(self.fn, self.depth)
        f.regs = dict(self.regs)
        return f


class Ob:
    __slots__ = ('func', 'name', 'tag', 'status', 'backend', 'secs', 'model', 'loc', 'trace')

    def __init__(self, **k):
        for a in self.__slots__:
            setattr(self, a, k.get(a))

    def __repr__(self):
        return '<%s %s/%s [%s] %s %.2fs %s>' % (self.status, self.func, self.name, self.tag, self.backend, self.secs or 0, self.loc)


class Exec:
    MAXDEPTH = 40

    def __init__(self, mod, world):
        self.mod, self.w = mod, world
        self.obs = []
        self.dry = 0
        self.base = {}
        self.active = []      # stack of (spec, args, entry state) being verified
        self.fname = '?'
        self.inloop = 0           # inside the proof of a loop
        self.joins, self.entry_mark = {}, 0
        self.nocontract = set()   # demoted function names
        self.verified = {}        # fn name -> True/False/'pending'
        self.specfor = {}
        self.inlined = set()
        self.used_contracts = set()
        self.loopinfo = []
        self.deadline = None
        self.steps = 0
        self.nfail = 0
        self.shallow = 0
        self.nlit = 0

    def basemap(self, key):
        if key not in self.base:
            if key[0] == 'F':
                self.base[key] = Map.new('%s.%d' % (key[1].split('::')[-1].strip('%'), key[2]), [I], I)
            else:
                dom, rng = self.w.ghosts[key]
                self.base[key] = Map.new(str(key), dom, rng)
        return self.base[key]

    def field_type(self, st, idx):
        t = self.mod.types[st]
        return t.elems[idx]

    # ------------------------------------------------------------- obligations
    def oblige(self, st, goal, name, tag='safety', loc=None, keep=True):
        if self.dry:
            if not isinstance(goal, FA):
                st.assume(goal)
            return True
        if self.deadline and time.time() > self.deadline:
            raise Undecided('time limit')
        g = goal.goal() if isinstance(goal, FA) else goal
        if g.get_id() in st.known:
            self.obs.append(Ob(func=self.fname, name=name, tag=tag, status='proved', backend='known', secs=0.0, model=None, loc=loc, trace=None))
            return True
        nf = self.nfail
        if self.shallow:
            status, be, model, secs = prove(st.pc, st.qs, g, timeout=3000, deep=False)
            if status != 'proved':
                raise Shallow('%s @%s' % (name, loc))
        else:
            done = None
            if isinstance(goal, FA) and getattr(self.w, 'linkst', ()) and self.w.split:
                done = self.split_proof(st, goal)
            if done is not None:
                status, be, model, secs = done
            else:
                status, be, model, secs = prove(st.pc, st.qs, g, timeout=self.w.timeout if nf < 3 else min(self.w.timeout, 2500),
                                                deep=self.w.deep and nf < 6)
        o = Ob(func=self.fname, name=name, tag=tag, status=status, backend=be, secs=secs, model=model, loc=loc,
               trace=list(st.trace[-30:]) if status != 'proved' else None)
        self.obs.append(o)
        if DEBUG and status != 'proved':
            print('   OBLIGATION', o, st.trace[-8:], flush=True)
            if os.environ.get('DV_DEBUG') == '2' and model:
                print(model)
        if status != 'proved':
            self.nfail += 1
            if self.nfail > 40:
                raise TooManyFailures()
        if status == 'proved':
            st.known[g.get_id()] = g
        if not z3.is_false(g) and (keep or status != 'proved') and not (self.w.split and isinstance(goal, FA) and ':frame ' in name):
            st.assume(goal)
        return status == 'proved'

    def split_proof(self, st, goal):
        """proof of a quantified goal by cases over the places that were written to"""
        if not all(s == I for s in goal.sorts) or len(goal.sorts) > 2:
            return None
        t0 = time.time()
        vs = [fresh_int('sk') for _ in goal.sorts]
        r = prove(st.pc, st.qs, goal.body(*vs), timeout=2500, deep=False)
        if r[0] != 'unknown':
            return r if r[0] == 'proved' else None
        pts = []
        for k, m in st.maps.items():
            if isinstance(k, tuple) and k[1] in self.w.linkst:
                while m.prev is not None:
                    if m.u[0] == 'pt':
                        a = z3.simplify(m.u[1][0])
                        if not any(a.eq(b) for b in pts):
                            pts.append(a)
                    m = m.prev
        if not pts or len(pts) > 14:
            return None

        def cases(i, sub):
            if i == len(vs):
                yield [], sub
                return
            for a in pts:
                for c, s2 in cases(i + 1, sub + [a]):
                    yield c, s2
                if i == 0 and len(vs) == 2:
                    pass
            for c, s2 in cases(i + 1, sub + [vs[i]]):
                yield [vs[i] != a for a in pts] + c, s2
        for c, sub in cases(0, []):
            if len(vs) == 2 and not sub[0].eq(vs[0]):
                # the first variable is fixed: no need to fix the second
                if not sub[1].eq(vs[1]):
                    continue
                c = []
            q = prove(st.pc + c, st.qs, goal.body(*sub), timeout=6000)
            if q[0] != 'proved':
                return None
        return 'proved', 'z3 (by cases)', None, time.time() - t0

    def hint(self, st, goal):
        """an optional lemma: used when it can be proved quickly"""
        if self.dry:
            return False
        g = goal.goal() if isinstance(goal, FA) else goal
        if prove(st.pc, st.qs, g, timeout=3000, deep=False)[0] == 'proved':
            st.assume(goal)
            return True
        if DEBUG:
            print('   hint not proved', self.fname, st.trace[-2:], flush=True)
        return False

    def induction(self, st, name, measure, claim, trig, nparams=0, loc=None, terms=None, premises=()):
        """lemma `for all n, ps: claim(n, *ps)` by well-founded induction (c before n iff 0 <= measure(c) < measure(n)): the step is
        proved for arbitrary n, ps from the claim for everything before n and the same ps; the lemma is used only when that succeeds"""
        if self.dry:
            return False
        for nm, f, tag in premises:
            g = f.goal() if isinstance(f, FA) else f
            if g.get_id() not in st.known and prove(st.pc, st.qs, g, timeout=1500, deep=False)[0] != 'proved':
                if DEBUG:
                    print('   lemma not applicable', name, nm, flush=True)
                return False
        n, ps = fresh_int('ind'), [fresh_int('par') for _ in range(nparams)]
        t = st.clone()
        if premises:
            t.pc, t.qs, t.known = [], [], {}
            for nm, f, tag in premises:
                t.assume(f)
        t.assume(FA([I], lambda c: Imp(And(measure(c) >= 0, measure(c) < measure(n)), claim(c, *ps)), lambda c: trig(c)[:1]))
        for x in (terms(n, *ps) if terms else []):
            t.assume(z3.Function('mentioned', I, B)(x))
        status, be, model, secs = prove(t.pc, t.qs, claim(n, *ps), timeout=3001)
        if status != 'proved':
            if DEBUG:
                print('   lemma not proved', name, status, flush=True)
            return False
        if not all(self.oblige(st, f, 'lemma %s: %s' % (name, nm), tag, loc) for nm, f, tag in premises):
            return False
        self.obs.append(Ob(func=self.fname, name='induction step: ' + name, tag='contents', status='proved', backend=be, secs=secs, model=None, loc=loc, trace=None))
        st.assume(FA([I] * (1 + nparams), claim, lambda *a: [tuple(trig(*a))]))
        return True

    def feasible(self, st, c):
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        return qf_check(st.pc, c) != 'unsat'

    def entails(self, st, c):
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        return qf_check(st.pc, Not(c)) == 'unsat'

    # ------------------------------------------------------------- integers
    def canon_u(self, st, v, bits=64):
        if z3.is_int_value(v):
            return z3.IntVal(v.as_long() % (1 << bits))
        m = 1 << bits
        if z3.is_app_of(v, z3.Z3_OP_ITE) and z3.is_int_value(v.arg(1)) and z3.is_int_value(v.arg(2)):
            return v
        if self.entails(st, And(v >= 0, v < m)):
            return v
        return v % m

    def canon_s(self, st, v, bits=64):
        h = 1 << (bits - 1)
        if z3.is_int_value(v):
            x = v.as_long() % (1 << bits)
            return z3.IntVal(x - (1 << bits) if x >= h else x)
        if self.entails(st, And(v >= -h, v < h)):
            return v
        u = v % (1 << bits)
        return z3.If(u >= h, u - (1 << bits), u)

    # ------------------------------------------------------------- operands
    def val(self, st, fr, op, ty):
        k = op[0]
        if k == 'reg':
            return fr.regs[op[1]]
        if k == 'int':
            if ty.k == 'i' and ty.bits == 1:
                return z3.BoolVal(bool(op[1]))
            return z3.IntVal(op[1])
        if k == 'null':
            return z3.IntVal(0)
        if k == 'glob':
            return GP(op[1])
        if k == 'undef':
            if ty.k == 's':
                return [self.val(st, fr, ('undef',), e) for e in self.mod.resolve(ty).elems]
            if ty.k == 'i' and ty.bits == 1:
                return fresh_bool('undef')
            return fresh_int('undef')
        if k == 'zero':
            if ty.k == 's':
                return [self.val(st, fr, ('zero',), e) for e in self.mod.resolve(ty).elems]
            return z3.IntVal(0)
        if k == 'ce':
            if op[1] == 'gep':
                return self.gep(st, op[2], self.val(st, fr, op[3], PTR), [z3.IntVal(x[1]) for x in op[4]])
            if op[1] in ('inttoptr', 'ptrtoint', 'bitcast'):
                return self.val(st, fr, op[2], PTR)
        raise Unsupported('operand %r' % (op,))

    # ------------------------------------------------------------- memory
    def gep(self, st, bt, p, idx):
        mod = self.mod
        off0 = z3.simplify(idx[0])
        t = bt
        if isinstance(p, GP):
            o = 0
            if not all(z3.is_int_value(z3.simplify(i)) for i in idx):
                raise Unsupported('dynamic gep on global')
            o = idx[0].as_long() * mod.size(t) if not (z3.is_int_value(off0) and off0.as_long() == 0) else 0
            for i in idx[1:]:
                i = i.as_long()
                r = mod.resolve(t)
                if r.k == 'a':
                    o += i * mod.size(r.elems)
                    t = r.elems
                else:
                    o += mod.layout(t)[0][i]
                    t = r.elems[i]
            return GP(p.name, p.off + o)
        if isinstance(p, LP):
            o = 0
            for n, i in enumerate(idx):
                i = z3.simplify(i)
                if not z3.is_int_value(i):
                    raise Unsupported('dynamic index into local object')
                i = i.as_long()
                if n == 0:
                    o += i * mod.size(t) if i else 0
                else:
                    r = mod.resolve(t)
                    if r.k == 'a':
                        o += i * mod.size(r.elems)
                        t = r.elems
                    else:
                        o += mod.layout(t)[0][i]
                        t = r.elems[i]
            return LP(p.aid, p.off + o)
        if isinstance(p, FP):
            if z3.is_int_value(off0) and off0.as_long() == 0 and len(idx) == 1:
                return p
            addr = flat(p)
        else:
            addr = p
        if not (z3.is_int_value(off0) and off0.as_long() == 0):
            sz = mod.size(t)
            addr = addr + (idx[0] if sz == 1 else idx[0] * sz)
        cur = addr
        for i in idx[1:]:
            i = z3.simplify(i)
            r = mod.resolve(t)
            if r.k == 'a':
                sz = mod.size(r.elems)
                cur = flat(cur)
                if not (z3.is_int_value(i) and i.as_long() == 0):
                    cur = cur + i * sz
                t = r.elems
            else:
                i = i.as_long()
                o = mod.layout(t)[0][i]
                et = r.elems[i]
                ret = mod.resolve(et)
                a = flat(cur)
                if ret.k in ('i', 'p'):
                    if t.name is None:
                        raise Unsupported('scalar field of anonymous struct')
                    cur = FP(a, self.w.norm_struct(t.name), i, o)
                else:
                    cur = a if o == 0 else a + o
                t = et
        return cur

    def load(self, st, p, ty):
        size = self.mod.size(ty)
        if isinstance(p, LP):
            if ty.k == 's':
                return self.load_agg(st, p, ty)
            v = st.rcell(p.aid, p.off, size)
        elif isinstance(p, FP):
            self.w.on_load(self, st, p)
            v = st.fld(p.st, p.idx, p.base)
            v = self.w.refine(self, st, p, unflat(v))
        elif isinstance(p, GP):
            return self.w.load_global(self, st, p, ty)
        else:
            v = self.w.load_raw(self, st, p, ty)
        if ty.k == 'i' and ty.bits == 1 and v.sort() == I:
            v = v % 2 == 1
        return v

    def load_agg(self, st, p, ty):
        r = self.mod.resolve(ty)
        offs = self.mod.layout(ty)[0]
        return [self.load(st, self.addp(p, o), e) for o, e in zip(offs, r.elems)]

    def addp(self, p, o):
        if isinstance(p, LP):
            return LP(p.aid, p.off + o)
        if isinstance(p, GP):
            return GP(p.name, p.off + o)
        return flat(p) + o if o else p

    def store(self, st, p, v, ty):
        if isinstance(v, list):
            r = self.mod.resolve(ty)
            offs = self.mod.layout(ty)[0]
            for o, e, x in zip(offs, r.elems, v):
                self.store(st, self.addp(p, o), x, e)
            return
        size = self.mod.size(ty)
        if not isinstance(v, (LP, FP, GP)) and v.sort() == B:
            v = ite(v, z3.IntVal(1), z3.IntVal(0))
        if isinstance(p, LP):
            st.wcell(p.aid, p.off, v, size)
        elif isinstance(p, FP):
            self.w.on_store(self, st, p)
            st.setfld(p.st, p.idx, p.base, flat(v))
        elif isinstance(p, GP):
            raise Unsupported('store to global ' + p.name)
        else:
            self.w.store_raw(self, st, p, v, ty)

    def leaf_fields(self, ty, off=0, base=None):
        """scalar leaves of a type: (struct, idx, ty, off, off-of-containing-struct)"""
        r = self.mod.resolve(ty)
        if r.k in ('i', 'p'):
            return [(None, 0, r, off, off)]
        if r.k == 'a':
            es = self.mod.size(r.elems)
            out = []
            for i in range(r.n):
                out += self.leaf_fields(r.elems, off + i * es)
            return out
        out = []
        for i, (o, e) in enumerate(zip(self.mod.layout(ty)[0], r.elems)):
            re_ = self.mod.resolve(e)
            if re_.k in ('i', 'p'):
                out.append((self.w.norm_struct(ty.name) if ty.name else None, i, re_, off + o, off))
            else:
                out += self.leaf_fields(e, off + o)
        return out

    def memcpy(self, st, d, s, n, ins):
        n = z3.simplify(n)
        if not z3.is_int_value(n):
            return self.w.memcpy_dyn(self, st, d, s, n)
        n = n.as_long()
        if isinstance(s, LP) and isinstance(d, LP):
            items = [(o, c) for (a, o), c in st.cells.items() if a == s.aid and s.off <= o < s.off + n]
            for o, (v, sz) in items:
                st.wcell(d.aid, d.off + o - s.off, v, sz)
            return
        # typed copy: find a struct type at either side
        ty = None
        for q in (s, d):
            if isinstance(q, LP):
                ty = self.type_at(st.atypes[q.aid][0], q.off, n)
                if ty is not None:
                    break
        if ty is None and isinstance(s, FP) and isinstance(d, FP) and n == self.mod.size(self.field_type(s.st, s.idx)):
            self.store(st, d, self.load(st, s, self.field_type(s.st, s.idx)), self.field_type(s.st, s.idx))
            return
        if ty is None:
            ty = self.w.memcpy_type(self, n, ins)
        if ty is None:
            raise Unsupported('memcpy without type, n=%d' % n)
        for (sn, i, lt, off, coff) in self.leaf_fields(ty):
            def at(q):
                if isinstance(q, LP):
                    return LP(q.aid, q.off + off)
                b = flat(q)
                if sn is None:
                    raise Unsupported('raw memcpy leaf')
                return FP(b if coff == 0 else b + coff, sn, i, off - coff)
            self.store(st, at(d), self.load(st, at(s), lt), lt)

    def type_at(self, ty, off, n):
        if off == 0 and self.mod.size(ty) == n and self.mod.resolve(ty).k == 's':
            return ty
        r = self.mod.resolve(ty)
        if r.k == 's':
            for o, e in zip(self.mod.layout(ty)[0], r.elems):
                if o <= off < o + self.mod.size(e):
                    return self.type_at(e, off - o, n)
        return None

    # ------------------------------------------------------------- execution
    def exec_func(self, st, fn, args, depth):
        if depth > self.MAXDEPTH:
            raise Undecided('call depth')
        if fn.name in [f for f in self.callstack] and self.callstack.count(fn.name) > 2:
            raise Undecided('recursion of ' + fn.dem)
        self.callstack.append(fn.name)
        try:
            fr = Frame(fn, depth)
            if len(args) != len(fn.params):
                raise Unsupported('arity')
            for (t, nm, _), a in zip(fn.params, args):
                fr.regs[nm] = a
            out = []
            for r in self.run(st, fr, fn.order[0], None):
                if r[0] in ('ret', 'unwind'):
                    out.append((r[1], r[0], r[2]))
                else:
                    raise Unsupported('stray exit')
            return out
        finally:
            self.callstack.pop()

    callstack = []

    def run(self, st, fr, block, prev, region=None, header=None):
        """results: ('ret',st,val) ('unwind',st,exc) ('back',st,fr) ('exit',st,fr,block,prev)"""
        out = []
        work = [(st, fr, block, prev, True)]
        loops = fr.fn.loops()
        while work:
            st, fr, block, prev, first = work.pop()
            while True:
                if self.deadline and time.time() > self.deadline:
                    raise Undecided('time limit')
                if region is not None and not first:
                    if block == header:
                        out.append(('back', st, fr, prev))
                        break
                    if block not in region:
                        out.append(('exit', st, fr, block, prev))
                        break
                if block in loops and not (first and block == header):
                    for r in self.do_loop(st, fr, block, prev):
                        if r[0] == 'exit':
                            work.append((r[1], r[2], r[3], r[4], False))
                        else:
                            out.append(r)
                    break
                first = False
                nxt = self.step_block(st, fr, block, prev, out, work)
                if nxt is None:
                    break
                st, fr, block, prev = nxt
        return out

    def step_block(self, st, fr, block, prev, out, work):
        """executes one block; returns continuation or None. forks pushed on work as (st,fr,block,prev,False)
        by splitting at calls through a recursive continuation."""
        return self.step_from(st, fr, block, prev, 0, out, work)

    def step_from(self, st, fr, block, prev, i, out, work):
        ins = fr.fn.blocks[block].ins
        mod = self.mod
        while i < len(ins):
            x = ins[i]
            a = x.a
            op = x.op
            self.steps += 1
            if op == 'alloca':
                ty = a['ty']
                if 'n' in a and a['n'] != ('int', 1):
                    raise Unsupported('array alloca')
                aid = st.new_cell(ty, fr.fn.name + x.res)
                if self.w.heap_alloca(self, ty):
                    fr.regs[x.res] = z3.IntVal(local_addr(aid))
                    self.w.on_alloca(self, st, local_addr(aid), mod.size(ty))
                else:
                    fr.regs[x.res] = LP(aid, 0)
            elif op == 'load':
                fr.regs[x.res] = self.load(st, self.val(st, fr, a['p'], PTR), a['ty'])
            elif op == 'store':
                self.store(st, self.val(st, fr, a['p'], PTR), self.val(st, fr, a['v'], a['ty']), a['ty'])
            elif op == 'getelementptr':
                idx = []
                for t, v in a['idx']:
                    q = self.val(st, fr, v, t)
                    if not z3.is_int_value(z3.simplify(q)):
                        q = self.canon_s(st, q, t.bits)
                    idx.append(q)
                fr.regs[x.res] = self.gep(st, a['bt'], self.val(st, fr, a['p'], PTR), idx)
            elif op in ('add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
                fr.regs[x.res] = self.arith(st, op, a['ty'], self.val(st, fr, a['x'], a['ty']), self.val(st, fr, a['y'], a['ty']), a['flags'], x)
            elif op == 'icmp':
                fr.regs[x.res] = self.icmp(st, a['pred'], a['ty'], self.val(st, fr, a['x'], a['ty']), self.val(st, fr, a['y'], a['ty']))
            elif op in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'freeze'):
                fr.regs[x.res] = self.cast(st, op, a, self.val(st, fr, a['x'], a['from']))
            elif op == 'phi':
                for v, b in a['in']:
                    if b == prev:
                        fr.regs[x.res] = self.val(st, fr, v, a['ty'])
                        break
                else:
                    raise Unsupported('phi')
            elif op == 'select':
                c = self.val(st, fr, a['c'], Ty('i', 1))
                p, q = self.val(st, fr, a['x'], a['ty']), self.val(st, fr, a['y'], a['ty'])
                if z3.is_true(z3.simplify(c)):
                    fr.regs[x.res] = p
                elif z3.is_false(z3.simplify(c)):
                    fr.regs[x.res] = q
                else:
                    # fork
                    s2, f2 = st.clone(), fr.clone()
                    s2.assume(Not(c))
                    f2.regs[x.res] = q
                    r = self.step_from(s2, f2, block, prev, i + 1, out, work)
                    if r is not None:
                        work.append(r + (False,))
                    st.assume(c)
                    fr.regs[x.res] = p
            elif op == 'extractvalue':
                v = self.val(st, fr, a['v'], a['ty'])
                for k in a['idx']:
                    v = v[k]
                fr.regs[x.res] = v
            elif op == 'insertvalue':
                v = list(self.val(st, fr, a['v'], a['ty']))
                if len(a['idx']) != 1:
                    raise Unsupported('nested insertvalue')
                v[a['idx'][0]] = self.val(st, fr, a['e'], a['ety'])
                fr.regs[x.res] = v
            elif op == 'br':
                if 'c' not in a:
                    return st, fr, a['t'], block
                c = self.val(st, fr, a['c'], Ty('i', 1))
                return self.branch(st, fr, c, a['t'], a['f'], block, work, x)
            elif op == 'switch':
                v = self.val(st, fr, a['v'], a['ty'])
                conts = []
                rest = st
                for cv, tgt in a['cases']:
                    c = meq(v, z3.IntVal(cv))
                    if self.feasible(rest, c):
                        s2 = rest.clone()
                        s2.assume(c)
                        conts.append((s2, fr.clone(), tgt, block, False))
                    rest = rest.clone()
                    rest.assume(Not(c))
                if self.feasible(rest, TRUE):
                    conts.append((rest, fr.clone(), a['d'], block, False))
                work.extend(conts)
                return None
            elif op in ('call', 'invoke'):
                res = self.do_call(st, fr, x)
                conts = []
                for (s2, kind, v) in res:
                    conts.append((s2, kind, v))
                last = None
                for n, (s2, kind, v) in enumerate(conts):
                    f2 = fr if n == len(conts) - 1 else fr.clone()
                    if kind == 'unwind':
                        if op == 'invoke':
                            f2.regs['!exc'] = v
                            work.append((s2, f2, a['unwind'], block, False))
                        else:
                            out.append(('unwind', s2, v))
                        continue
                    if x.res is not None:
                        f2.regs[x.res] = v
                    if op == 'invoke':
                        work.append((s2, f2, a['normal'], block, False))
                    else:
                        if n == len(conts) - 1:
                            last = (s2, f2)
                        else:
                            r = self.step_from(s2, f2, block, prev, i + 1, out, work)
                            if r is not None:
                                work.append(r + (False,))
                if last is None:
                    return None
                st, fr = last
            elif op == 'landingpad':
                exc = fr.regs.get('!exc', fresh_int('exc'))
                fr.regs[x.res] = [flat(exc), z3.IntVal(1)]
            elif op == 'resume':
                out.append(('unwind', st, self.val(st, fr, a['v'], a['ty'])[0]))
                return None
            elif op == 'ret':
                out.append(('ret', st, None if a['v'] is None else self.val(st, fr, a['v'], a['ty'])))
                return None
            elif op == 'unreachable':
                self.oblige(st, FALSE, 'unreachable-not-reached', 'assert', self.mod.loc(x.dbg))
                return None
            else:
                raise Unsupported(op + ' ' + a.get('why', '') + ' : ' + x.text[:120])
            i += 1
        raise Unsupported('fell off block')

    def branch(self, st, fr, c, t, f, block, work, x):
        cs = z3.simplify(c)
        if z3.is_true(cs):
            self.nlit += 1
            return st, fr, t, block
        if z3.is_false(cs):
            self.nlit += 1
            return st, fr, f, block
        ft = self.feasible(st, c)
        ff = self.feasible(st, Not(c)) if ft else True
        if ft and ff:
            s2, f2 = st.clone(), fr.clone()
            s2.assume(Not(c))
            s2.trace.append('%s:F' % self.mod.loc(x.dbg))
            work.append((s2, f2, f, block, False))
            st.assume(c)
            st.trace.append('%s:T' % self.mod.loc(x.dbg))
            return st, fr, t, block
        if ft:
            st.assume(c)
            return st, fr, t, block
        st.assume(Not(c))
        return st, fr, f, block

    def arith(self, st, op, ty, x, y, flags, ins):
        if ty.k == 'i' and ty.bits == 1:
            return {'and': And, 'or': Or, 'xor': lambda p, q: z3.Xor(p, q)}[op](x, y)
        x, y = flat(x), flat(y)
        bits = ty.bits
        if op in ('add', 'sub', 'mul'):
            r = {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y}[op]()
            r = z3.simplify(r)
            if z3.is_int_value(r):
                pass
            elif op == 'mul' and not (z3.is_int_value(x) or z3.is_int_value(y)):
                pass
            if 'nsw' in flags and self.w.check_nsw:
                h = 1 << (bits - 1)
                if not self.entails(st, And(r >= -h, r < h)):
                    self.oblige(st, And(r >= -h, r < h), 'no-signed-overflow', 'overflow', self.mod.loc(ins.dbg))
            return r
        if op in ('udiv', 'urem', 'lshr'):
            x, y = self.canon_u(st, x, bits), self.canon_u(st, y, bits)
            if op == 'lshr':
                if not z3.is_int_value(y):
                    raise Unsupported('dynamic shift')
                return x / z3.IntVal(1 << y.as_long())
            return x / y if op == 'udiv' else x % y
        if op in ('sdiv', 'srem', 'ashr'):
            xs = self.canon_s(st, x, bits)
            if op == 'ashr':
                if not z3.is_int_value(y):
                    raise Unsupported('dynamic shift')
                return xs / z3.IntVal(1 << y.as_long())
            if not (z3.is_int_value(y) and y.as_long() > 0):
                raise Unsupported('sdiv by non-constant')
            if self.entails(st, xs >= 0) or ('exact' in flags):
                return xs / y if op == 'sdiv' else xs % y
            q = z3.If(xs >= 0, xs / y, -((-xs) / y))
            return q if op == 'sdiv' else xs - q * y
        if op == 'shl':
            if not z3.is_int_value(y):
                raise Unsupported('dynamic shift')
            return x * z3.IntVal(1 << y.as_long())
        if op == 'and' and z3.is_int_value(y):
            m = y.as_long()
            x = self.canon_u(st, x, bits)
            if m & (m + 1) == 0:
                return x % (m + 1)
        if op == 'xor' and z3.is_int_value(y) and y.as_long() == -1:
            return -1 - x
        if z3.is_int_value(x) and z3.is_int_value(y):
            f = {'and': int.__and__, 'or': int.__or__, 'xor': int.__xor__}[op]
            return z3.IntVal(f(x.as_long(), y.as_long()))
        raise Unsupported('bitop ' + op)

    def icmp(self, st, pred, ty, x, y):
        if ty.k == 'p':
            if isinstance(x, LP) and isinstance(y, LP) and x.aid == y.aid:
                x, y = z3.IntVal(x.off), z3.IntVal(y.off)
            x, y = flat(x), flat(y)
            bits = 64
            if pred in ('eq', 'ne'):
                c = meq(x, y)
                return c if pred == 'eq' else Not(c)
            return {'ult': x < y, 'ule': x <= y, 'ugt': x > y, 'uge': x >= y, 'slt': x < y, 'sle': x <= y,
                    'sgt': x > y, 'sge': x >= y}[pred]
        bits = ty.bits
        if bits == 1:
            return x == y if pred == 'eq' else x != y
        x, y = flat(x), flat(y)
        if pred in ('eq', 'ne'):
            # congruence; canonicalise only when needed
            d = z3.simplify(x - y)
            if z3.is_int_value(d):
                c = z3.BoolVal(d.as_long() % (1 << bits) == 0)
            elif self.entails(st, And(d > -(1 << bits), d < (1 << bits))):
                c = x == y
            else:
                c = self.canon_u(st, x, bits) == self.canon_u(st, y, bits)
            return c if pred == 'eq' else Not(c)
        if pred[0] == 'u':
            x, y = self.canon_u(st, x, bits), self.canon_u(st, y, bits)
        else:
            x, y = self.canon_s(st, x, bits), self.canon_s(st, y, bits)
        return {'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[pred[1:]]

    def cast(self, st, op, a, v):
        if op in ('ptrtoint',):
            return flat(v)
        if op in ('inttoptr', 'bitcast', 'freeze'):
            return v
        fb, tb = a['from'].bits, a['to'].bits
        if op == 'trunc':
            if tb == 1:
                if z3.is_app_of(v, z3.Z3_OP_ITE) and z3.is_int_value(v.arg(1)) and z3.is_int_value(v.arg(2)):
                    p, q = v.arg(1).as_long() & 1, v.arg(2).as_long() & 1
                    if p == q:
                        return z3.BoolVal(bool(p))
                    return v.arg(0) if p else Not(v.arg(0))
                if z3.is_int_value(v):
                    return z3.BoolVal(bool(v.as_long() & 1))
                return v % 2 == 1
            return self.canon_u(st, v, tb)
        if fb == 1:
            if op == 'zext':
                return ite(v, z3.IntVal(1), z3.IntVal(0))
            return ite(v, z3.IntVal(-1), z3.IntVal(0))
        if op == 'zext':
            return self.canon_u(st, v, fb)
        return self.canon_s(st, v, fb)

    # ------------------------------------------------------------- calls
    def do_call(self, st, fr, x):
        a = x.a
        cal = a['callee']
        if cal[0] == 'glob':
            name = cal[1]
        else:
            v = self.val(st, fr, cal, PTR)
            v = unflat(v) if not isinstance(v, (LP, FP, GP)) else v
            if not isinstance(v, GP):
                return self.w.indirect_call(self, st, fr, x, v)
            name = v.name
        if name.startswith('@llvm.dbg') or name.startswith('@llvm.lifetime') or name == '@llvm.assume':
            return [(st, 'ret', None)]
        args = [self.val(st, fr, v, t) for t, v in a['args']]
        return self.call_named(st, name, args, fr.depth, x)

    def call_named(self, st, name, args, depth, x):
        loc = self.mod.loc(x.dbg) if x is not None else '?'
        if name.startswith('@llvm.memcpy') or name.startswith('@llvm.memmove'):
            self.memcpy(st, args[0], args[1], args[2], x)
            return [(st, 'ret', None)]
        if name == '@memcpy' or name == '@memmove':
            self.memcpy(st, args[0], args[1], args[2], x)
            return [(st, 'ret', args[0])]
        if name.startswith('@llvm.memset'):
            self.w.memset(self, st, args)
            return [(st, 'ret', None)]
        if name == '@llvm.trap':
            self.oblige(st, FALSE, 'no-trap', 'assert', loc)
            return []
        if name == '@__assert_fail':
            self.oblige(st, FALSE, 'assertion-holds', 'assert', loc)
            return []
        if name in ('@_ZSt9terminatev', '@__clang_call_terminate'):
            self.oblige(st, FALSE, 'no-terminate', 'assert', loc)
            return []
        fn = self.mod.funcs.get(name)
        sp = self.spec_of(name)
        if fn is None:
            if sp is not None:
                return self.call_contract(st, sp, name, args, loc)
            r = self.w.extern(self, st, name, args, loc)
            if r is None:
                raise Unsupported('external function ' + self.mod.dem.get(name, name))
            return r
        if sp is not None and self.usable(name, sp):
            return self.call_contract(st, sp, name, args, loc)
        self.inlined.add(name)
        return self.exec_func(st, fn, args, depth + 1)

    def spec_of(self, name):
        if name in self.nocontract:
            return None
        if name not in self.specfor:
            self.specfor[name] = self.w.find_spec(self, name)
        return self.specfor[name]

    def usable(self, name, sp):
        v = self.verified.get(name)
        if v is None:
            if not getattr(sp, 'internal', True):
                return False
            if getattr(sp, 'heavy', False):
                # verified as an entry of its own
                self.verified[name] = True
                return True
            v = self.w.driver.verify_internal(self, name, sp)
        if v == 'pending' and not any(sp is a[0] for a in self.active):
            raise Undecided('mutual recursion through ' + sp.short)
        return v is True or v == 'pending'

    def call_contract(self, st, sp, name, args, loc):
        self.used_contracts.add(name)
        out = []
        s = st
        if hasattr(sp, 'lemmas') and not any(sp is a[0] for a in self.active):
            sp.lemmas(self, s, args, loc)
        for nm, f, tag in sp.pre(self, s, args):
            self.oblige(s, f, 'pre(%s):%s' % (sp.short, nm), tag, loc)
        for sp0, args0, entry0 in self.active:
            if sp0 is sp:
                # recursive use of the contract being verified: the measure must decrease
                if not hasattr(sp, 'rank'):
                    raise Undecided('recursion without a measure in ' + sp.short)
                r1, r0 = sp.rank(st, args), sp.rank(entry0, args0)
                self.oblige(s, And(r1 >= 0, r1 < r0), 'recursion terminates', 'termination', loc)
        for cname in sp.cases(self, s, args):
            s2 = st.clone()
            o = AssumeOracle(self, s2)
            ret = sp.post(o, s2, args, cname)
            if o.dead:
                continue
            if getattr(self.w, 'seal', False):
                seal(s2, st, s2)
            if not self.feasible(s2, TRUE):
                continue
            s2.trace.append('%s:%s=%s' % (loc, sp.short, cname))
            kind = 'unwind' if o.unwound else 'ret'
            out.append((s2, kind, ret))
        return out

    # ------------------------------------------------------------- loops
    def do_loop(self, st, fr, header, prev):
        from . import loops
        return loops.do_loop(self, st, fr, header, prev)


def seal(s, old, into):
    """replace maps redefined since state `old` by fresh symbols with definitional axioms (keeps terms small)"""
    for k in sorted(s.maps, key=str):
        m, o = s.maps[k], old.m(k)
        if m is o or m.prev is None:
            continue
        n, x = 0, m
        while x is not o and x.prev is not None:
            n += 1 if x.u[0] == 'fn' else 0
            x = x.prev
        if n == 0:
            continue
        new = Map.new(m.name, m.dom, m.rng)
        into.assume(FA(list(m.dom), lambda *a, m=m, new=new: new(*a) == m(*a), lambda *a, new=new: [new(*a)]))
        s.maps[k] = new


class AssumeOracle:
    """interprets a contract's postcondition at a call site: choices are fresh, facts are assumed"""
    check = False

    def __init__(self, X, s):
        self.X, self.s, self.dead, self.unwound = X, s, False, False

    def choose(self, name, witness, sort=None):
        return fresh(sort or I, name)

    def choose_map(self, name, dom, rng, witness):
        return Map.new(name, dom, rng)

    def ensure(self, f, name='', tag=None):
        self.s.assume(f)

    def unwind(self, f=None):
        self.unwound = True


class CheckOracle:
    """interprets a contract's postcondition at function exit: choices are read off the final state, facts are obligations"""
    check = True

    def __init__(self, X, s, final, ret):
        self.X, self.s, self.final, self.ret = X, s, final, ret
        self.goals = []
        self.dead, self.unwound = False, False

    def choose(self, name, witness, sort=None):
        r = witness(self.final, self.ret)
        if isinstance(r, (LP, FP, GP)):
            r = flat(r)
        return r

    def choose_map(self, name, dom, rng, witness):
        return witness(self.final)

    def ensure(self, f, name='post', tag=None):
        self.goals.append((name, f, tag))

    def unwind(self, f=None):
        self.unwound = True
