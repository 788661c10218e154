"""Parser for the textual LLVM IR that clang -O0 emits for the client units.

Nothing is dropped silently: an instruction or operand form the parser does not know raises
Unsupported when (and only when) it is executed."""
import re, subprocess


class Unsupported(Exception):
    pass


# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ('k', 'bits', 'name', 'elems', 'n', 'packed')

    def __init__(self, k, bits=0, name=None, elems=None, n=0, packed=False):
        self.k, self.bits, self.name, self.elems, self.n, self.packed = k, bits, name, elems, n, packed

    def __repr__(self):
        return {'i': 'i%d' % self.bits, 'p': 'ptr', 's': self.name or 'anon', 'a': '[%d x %r]' % (self.n, self.elems),
                'v': 'void', 'f': 'fp', 'o': 'opaque', 'l': 'label', 'm': 'metadata'}[self.k]


PTR = Ty('p')
VOID = Ty('v')

TOK = re.compile(r'''\s*(?:
   (?P<str>c?"(?:[^"\\]|\\.)*") |
   (?P<qid>[%@$]"(?:[^"\\]|\\.)*") |
   (?P<id>[%@$!\#][-a-zA-Z$._0-9]+|!) |
   (?P<num>-?\d+(?![\w.])) |
   (?P<word>[-a-zA-Z$._0-9]+) |
   (?P<dots>\.\.\.) |
   (?P<p>[()\[\]{}<>,=*|:])
)''', re.X)


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == '' or s[i:].lstrip().startswith(';'):
                break
            raise Unsupported('tokenize: ' + s[i:i + 40])
        if m.lastgroup is None:
            break
        t = m.group(m.lastgroup)
        if t == '' and i == m.end():
            break
        out.append(t)
        i = m.end()
    return out


PARAM_ATTRS = {'noundef', 'nonnull', 'zeroext', 'signext', 'noalias', 'nocapture', 'writeonly', 'readonly',
               'immarg', 'returned', 'inreg', 'readnone', 'nest', 'swiftself', 'nofree', 'dso_local', 'unnamed_addr',
               'local_unnamed_addr', 'noreturn', 'allocalign', 'allocptr', 'nounwind', 'dead_on_unwind', 'writable'}


class P:
    """token stream with type/operand parsing"""

    def __init__(self, mod, toks):
        self.m, self.t, self.i = mod, toks, 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def eat(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        y = self.next()
        if y != x:
            raise Unsupported('expected %r got %r in %r' % (x, y, ' '.join(self.t)[:200]))

    def skip_attrs(self):
        while True:
            w = self.peek()
            if w in PARAM_ATTRS:
                self.next()
            elif w in ('dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'align', 'captures', 'allocsize',
                       'memory', 'elementtype', 'byref', 'preallocated', 'inalloca', 'range'):
                self.next()
                if self.eat('('):
                    d = 1
                    while d:
                        x = self.next()
                        d += (x == '(') - (x == ')')
                elif w == 'align':
                    self.next()
            else:
                return

    def type(self):
        w = self.next()
        if w == 'ptr':
            t = PTR
        elif w == 'void':
            t = VOID
        elif w == 'label':
            t = Ty('l')
        elif w == 'metadata':
            t = Ty('m')
        elif w in ('float', 'double', 'x86_fp80', 'half'):
            t = Ty('f')
        elif re.fullmatch(r'i\d+', w):
            t = Ty('i', int(w[1:]))
        elif w[0] == '%':
            t = Ty('s', name=norm(w))
        elif w == '[':
            n = int(self.next())
            self.expect('x')
            e = self.type()
            self.expect(']')
            t = Ty('a', elems=e, n=n)
        elif w == '{':
            el = []
            if not self.eat('}'):
                while True:
                    el.append(self.type())
                    if self.eat('}'):
                        break
                    self.expect(',')
            t = Ty('s', elems=el)
        elif w == '<':
            if self.peek() == '{':
                t = self.type()
                t.packed = True
                self.expect('>')
            else:
                raise Unsupported('vector type')
        elif w == 'opaque':
            t = Ty('o')
        else:
            raise Unsupported('type ' + w + ' in ' + ' '.join(self.t)[:160])
        if self.peek() == '(':  # function type
            d = 0
            while True:
                x = self.next()
                d += (x == '(') - (x == ')')
                if d == 0:
                    break
        return t

    def operand(self, ty):
        """returns ('reg',name) ('int',v) ('null',) ('glob',name) ('undef',) ('zero',) ('ce',op,...)"""
        w = self.next()
        if w[0] == '%':
            return ('reg', norm(w))
        if w[0] == '@':
            return ('glob', norm(w))
        if w == 'null':
            return ('null',)
        if w in ('undef', 'poison'):
            return ('undef',)
        if w == 'zeroinitializer':
            return ('zero',)
        if w == 'true':
            return ('int', 1)
        if w == 'false':
            return ('int', 0)
        if w == 'none':
            return ('undef',)
        if re.fullmatch(r'-?\d+', w):
            return ('int', int(w))
        if w == 'getelementptr':
            self.eat('inbounds')
            if self.eat('inrange'):
                pass
            self.expect('(')
            bt = self.type()
            self.expect(',')
            self.type()
            base = self.operand(PTR)
            idx = []
            while self.eat(','):
                self.eat('inrange')
                it = self.type()
                idx.append(self.operand(it))
            self.expect(')')
            return ('ce', 'gep', bt, base, idx)
        if w in ('inttoptr', 'ptrtoint', 'bitcast'):
            self.expect('(')
            t = self.type()
            v = self.operand(t)
            self.expect('to')
            self.type()
            self.expect(')')
            return ('ce', w, v)
        if w == '{':
            d = 1
            vals = []
            while True:
                if self.eat('}'):
                    break
                t = self.type()
                vals.append((t, self.operand(t)))
                self.eat(',')
            return ('agg', vals)
        if w == '[':
            vals = []
            while True:
                if self.eat(']'):
                    break
                t = self.type()
                vals.append((t, self.operand(t)))
                self.eat(',')
            return ('agg', vals)
        if w.startswith('c"') or w[0] == '"':
            return ('undef',)
        return ('unk', w)

    def tyval(self):
        t = self.type()
        self.skip_attrs()
        return t, self.operand(t)


def norm(w):
    pre, rest = w[0], w[1:]
    if rest.startswith('"'):
        rest = rest[1:-1]
    return pre + rest


class Instr:
    __slots__ = ('op', 'res', 'a', 'dbg', 'text')

    def __init__(self, op, res, a, dbg, text):
        self.op, self.res, self.a, self.dbg, self.text = op, res, a, dbg, text


class Block:
    def __init__(self, name):
        self.name = name
        self.ins = []

    def succs(self):
        t = self.ins[-1]
        if t.op == 'br':
            return [t.a['t']] if 'c' not in t.a else [t.a['t'], t.a['f']]
        if t.op == 'switch':
            return [t.a['d']] + [x for _, x in t.a['cases']]
        if t.op == 'invoke':
            return [t.a['normal'], t.a['unwind']]
        return []


class Func:
    def __init__(self, name):
        self.name = name
        self.params = []   # (Ty, regname, is_sret)
        self.ret = VOID
        self.blocks = {}
        self.order = []
        self.dem = name
        self.dbg = None
        self._loops = None

    def loops(self):
        """header -> set of blocks (natural loops, merged per header)"""
        if self._loops is not None:
            return self._loops
        entry = self.order[0]
        # iterative DFS for back edges
        color, back = {}, []
        stack = [(entry, iter(self.blocks[entry].succs()))]
        color[entry] = 1
        while stack:
            b, it = stack[-1]
            for s in it:
                c = color.get(s, 0)
                if c == 0:
                    color[s] = 1
                    stack.append((s, iter(self.blocks[s].succs())))
                    break
                elif c == 1:
                    back.append((b, s))
            else:
                color[b] = 2
                stack.pop()
        preds = {}
        for b in self.blocks:
            for s in self.blocks[b].succs():
                preds.setdefault(s, []).append(b)
        loops = {}
        for b, h in back:
            body = loops.setdefault(h, {h})
            w = [b]
            while w:
                x = w.pop()
                if x in body:
                    continue
                body.add(x)
                w.extend(p for p in preds.get(x, []) if p in color)
        self._loops = loops
        return loops


class Module:
    def __init__(self, text):
        self.types = {}
        self.funcs = {}
        self.decls = {}
        self.globals = {}
        self.dloc = {}
        self.dscope = {}
        self.dfile = {}
        self.parse(text)
        self._lay = {}
        self.parse_members(text)

    def member(self, st, cls, name, default):
        """index of a data member in an llvm struct, by name through the debug info (the position if the name is gone)"""
        off = self.members.get((cls, name))
        if off is None:
            return default
        offs = self.layout(Ty('s', name=st))[0]
        return offs.index(off) if off in offs else default

    def parse_members(self, text):
        cls = {}
        self.members = {}
        for m in re.finditer(r'^(!\d+) = distinct !DICompositeType\(tag: DW_TAG_(?:class|structure)_type, name: "([^"<]*)', text, re.M):
            cls[m.group(1)] = m.group(2)
        for m in re.finditer(r'^!\d+ = !DIDerivedType\(tag: DW_TAG_member, name: "(\w+)", scope: (!\d+),[^\n]*?(?:offset: (\d+))?[,)][^\n]*$', text, re.M):
            c = cls.get(m.group(2))
            if c and (c, m.group(1)) not in self.members:
                o = re.search(r'offset: (\d+)', m.group(0))
                self.members[(c, m.group(1))] = int(o.group(1)) // 8 if o else 0

    # ---- layout
    def resolve(self, t):
        if t.k == 's' and t.name is not None:
            return self.types[t.name]
        return t

    def size_align(self, t):
        if t.k == 'i':
            b = max(1, (t.bits + 7) // 8)
            s = 1
            while s < b:
                s *= 2
            return (b if b in (1, 2, 4, 8, 16) else s, min(s, 16))
        if t.k == 'p':
            return 8, 8
        if t.k == 'f':
            return 8, 8
        if t.k == 'a':
            s, a = self.size_align(t.elems)
            return s * t.n, a
        if t.k == 's':
            offs, s, a = self.layout(t)
            return s, a
        raise Unsupported('size of %r' % t)

    def size(self, t):
        return self.size_align(t)[0]

    def layout(self, t):
        key = t.name
        if key is not None and key in self._lay:
            return self._lay[key]
        r = self.resolve(t)
        if r.k != 's':
            raise Unsupported('layout of opaque %r' % t)
        o, al, offs = 0, 1, []
        for e in r.elems:
            s, a = self.size_align(e)
            if r.packed:
                a = 1
            o = (o + a - 1) // a * a
            offs.append(o)
            o += s
            al = max(al, a)
        o = (o + al - 1) // al * al
        res = (offs, o, al)
        if key is not None:
            self._lay[key] = res
        return res

    # ---- parsing
    def parse(self, text):
        lines = [l for l in text.split('\n') if '@llvm.dbg.' not in l]
        i, n = 0, len(lines)
        names = []
        while i < n:
            l = lines[i]
            if l.startswith('%'):
                m = re.match(r'(%(?:"[^"]*"|[-\w.$]+)) = type (.*)', l)
                body = m.group(2)
                nm = norm(m.group(1))
                if body.strip() == 'opaque':
                    self.types[nm] = Ty('o')
                else:
                    self.types[nm] = P(self, tokenize(body)).type()
                    self.types[nm].name = None
                i += 1
            elif l.startswith('define'):
                j = i
                while lines[j] != '}':
                    j += 1
                f = self.parse_func(lines[i:j])
                self.funcs[f.name] = f
                names.append(f.name)
                i = j + 1
            elif l.startswith('declare'):
                m = re.search(r'@("[^"]*"|[-\w.$]+)\(', l)
                nm = norm('@' + m.group(1))
                self.decls[nm] = l
                names.append(nm)
                i += 1
            elif l.startswith('@'):
                m = re.match(r'(@(?:"[^"]*"|[-\w.$]+)) = (.*)', l)
                self.globals[norm(m.group(1))] = m.group(2)
                i += 1
            elif l.startswith('!'):
                m = re.match(r'(!\d+) = (?:distinct )?!DILocation\(line: (\d+), .*?scope: (!\d+)', l)
                if m:
                    self.dloc[m.group(1)] = (int(m.group(2)), m.group(3))
                else:
                    m = re.match(r'(!\d+) = (?:distinct )?!DI(?:Subprogram|LexicalBlock|LexicalBlockFile|File)\((.*)\)', l)
                    if m:
                        b = m.group(2)
                        mf = re.search(r'filename: "([^"]*)"', b)
                        if mf:
                            self.dfile[m.group(1)] = mf.group(1)
                        ms = re.search(r'file: (!\d+)', b)
                        if ms:
                            self.dscope[m.group(1)] = ms.group(1)
                i += 1
            else:
                i += 1
        # demangle
        if names:
            raw = [x[1:] for x in names]
            out = subprocess.run(['c++filt'], input='\n'.join(raw), capture_output=True, text=True).stdout.split('\n')
            self.dem = dict(zip(names, out))
        else:
            self.dem = {}
        for nm, f in self.funcs.items():
            f.dem = self.dem.get(nm, nm)

    def loc(self, dbg):
        if dbg is None or dbg not in self.dloc:
            return '?'
        line, sc = self.dloc[dbg]
        f = self.dfile.get(self.dscope.get(sc, ''), '?')
        return '%s:%d' % (f.split('/repo/')[-1], line)

    def parse_func(self, lines):
        head = lines[0]
        m = re.search(r'@("[^"]*"|[-\w.$]+)\(', head)
        f = Func(norm('@' + m.group(1)))
        p = P(self, tokenize(head[m.end() - 1:]))
        hp = P(self, tokenize(head[len('define'):m.start()]))
        while hp.peek() in ('linkonce_odr', 'dso_local', 'internal', 'noundef', 'nonnull', 'zeroext', 'signext', 'weak_odr',
                            'align', 'dereferenceable', 'noalias', 'hidden', 'unnamed_addr', 'linkonce', 'weak', 'available_externally', 'mustprogress'):
            if hp.peek() in ('align', 'dereferenceable'):
                hp.skip_attrs()
            else:
                hp.next()
            hp.skip_attrs()
        f.ret = hp.type()
        p.expect('(')
        if not p.eat(')'):
            while True:
                if p.eat('...'):
                    p.expect(')')
                    break
                t = p.type()
                sret = 'sret' in p.t[p.i:p.i + 5]
                p.skip_attrs()
                nm = p.next()
                f.params.append((t, norm(nm), sret))
                if p.eat(')'):
                    break
                p.expect(',')
        md = re.search(r'!dbg (!\d+)', head)
        f.dbg = md.group(1) if md else None
        # first block name: explicit label or number
        cur = None
        k = 1
        body = lines[1:]
        joined = []
        for l in body:
            if not l.strip():
                continue
            if l.startswith('    ') and joined and not re.match(r'^\S', l):
                joined[-1] += ' ' + l.strip()
            else:
                joined.append(l)
        # switch spans several lines terminated by ']'
        out = []
        for l in joined:
            if out and out[-1].lstrip().startswith('switch') and ']' not in out[-1]:
                out[-1] += ' ' + l.strip()
            else:
                out.append(l)
        for l in out:
            ml = re.match(r'^("[^"]*"|[-\w.$]+):', l)
            if ml:
                cur = Block(norm('%' + ml.group(1)))
                f.blocks[cur.name] = cur
                f.order.append(cur.name)
                continue
            if cur is None:
                cur = Block('%entry.implicit')
                # numeric first label: number of unnamed params
                nums = [int(x[1][1:]) for x in f.params if x[1][1:].isdigit()]
                cur.name = '%' + str((max(nums) + 1) if nums else 0)
                f.blocks[cur.name] = cur
                f.order.append(cur.name)
            cur.ins.append(self.parse_instr(l.strip()))
        return f

    def parse_instr(self, l):
        md = re.search(r', !dbg (!\d+)', l)
        dbg = md.group(1) if md else None
        text = re.sub(r'(, ![a-zA-Z_.]+ !\d+)+\s*$', '', l)
        text = re.sub(r' #\d+\s*$', '', text)
        try:
            return self._instr(text, dbg)
        except (Unsupported, IndexError) as e:
            return Instr('unsupported', None, {'why': str(e)}, dbg, text)

    def _instr(self, s, dbg):
        res = None
        m = re.match(r'(%(?:"[^"]*"|[-\w.$]+)) = ', s)
        body = s
        if m:
            res = norm(m.group(1))
            body = s[m.end():]
        p = P(self, tokenize(body))
        op = p.next()
        if op in ('tail', 'musttail', 'notail'):
            op = p.next()
        a = {}
        if op == 'alloca':
            a['ty'] = p.type()
            if p.eat(','):
                if p.peek() != 'align':
                    t, v = p.tyval()
                    a['n'] = v
        elif op == 'load':
            if p.eat('atomic') or p.eat('volatile'):
                pass
            a['ty'] = p.type()
            p.expect(',')
            _, a['p'] = p.tyval()
        elif op == 'store':
            if p.eat('atomic') or p.eat('volatile'):
                pass
            a['ty'], a['v'] = p.tyval()
            p.expect(',')
            _, a['p'] = p.tyval()
        elif op == 'getelementptr':
            p.eat('inbounds')
            a['bt'] = p.type()
            p.expect(',')
            _, a['p'] = p.tyval()
            a['idx'] = []
            while p.eat(','):
                t, v = p.tyval()
                a['idx'].append((t, v))
        elif op in ('add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
            a['flags'] = set()
            while p.peek() in ('nsw', 'nuw', 'exact', 'disjoint'):
                a['flags'].add(p.next())
            a['ty'], a['x'] = p.tyval()
            p.expect(',')
            a['y'] = p.operand(a['ty'])
        elif op == 'icmp':
            a['pred'] = p.next()
            a['ty'], a['x'] = p.tyval()
            p.expect(',')
            a['y'] = p.operand(a['ty'])
        elif op in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'freeze'):
            while p.peek() in ('nneg', 'nuw', 'nsw'):
                p.next()
            a['from'], a['x'] = p.tyval()
            if op != 'freeze':
                p.expect('to')
                a['to'] = p.type()
        elif op == 'br':
            if p.peek() == 'label':
                p.next()
                a['t'] = norm(p.next())
            else:
                _, a['c'] = p.tyval()
                p.expect(',')
                p.next()
                a['t'] = norm(p.next())
                p.expect(',')
                p.next()
                a['f'] = norm(p.next())
        elif op == 'switch':
            a['ty'], a['v'] = p.tyval()
            p.expect(',')
            p.next()
            a['d'] = norm(p.next())
            p.expect('[')
            a['cases'] = []
            while not p.eat(']'):
                t, v = p.tyval()
                p.expect(',')
                p.next()
                a['cases'].append((v[1], norm(p.next())))
        elif op in ('call', 'invoke'):
            while p.peek() in ('fastcc', 'ccc', 'coldcc', 'nsw'):
                p.next()
            p.skip_attrs()
            a['ty'] = p.type()
            p.skip_attrs()
            a['callee'] = p.operand(PTR)
            p.expect('(')
            args = []
            if not p.eat(')'):
                while True:
                    t = p.type()
                    if t.k == 'm':
                        p.next()
                        args.append((t, ('undef',)))
                    else:
                        p.skip_attrs()
                        args.append((t, p.operand(t)))
                    if p.eat(')'):
                        break
                    p.expect(',')
            a['args'] = args
            if op == 'invoke':
                while p.peek() != 'to':
                    p.next()
                p.next()
                p.next()
                a['normal'] = norm(p.next())
                p.expect('unwind')
                p.next()
                a['unwind'] = norm(p.next())
        elif op == 'ret':
            if p.peek() == 'void':
                a['v'] = None
            else:
                a['ty'], a['v'] = p.tyval()
        elif op == 'phi':
            a['ty'] = p.type()
            a['in'] = []
            while True:
                p.expect('[')
                v = p.operand(a['ty'])
                p.expect(',')
                b = norm(p.next())
                p.expect(']')
                a['in'].append((v, b))
                if not p.eat(','):
                    break
        elif op == 'select':
            _, a['c'] = p.tyval()
            p.expect(',')
            a['ty'], a['x'] = p.tyval()
            p.expect(',')
            _, a['y'] = p.tyval()
        elif op == 'extractvalue':
            a['ty'], a['v'] = p.tyval()
            a['idx'] = []
            while p.eat(','):
                a['idx'].append(int(p.next()))
        elif op == 'insertvalue':
            a['ty'], a['v'] = p.tyval()
            p.expect(',')
            a['ety'], a['e'] = p.tyval()
            a['idx'] = []
            while p.eat(','):
                a['idx'].append(int(p.next()))
        elif op == 'landingpad':
            a['ty'] = p.type()
            a['cleanup'] = p.eat('cleanup')
            a['clauses'] = []
            while p.peek() in ('catch', 'filter'):
                k = p.next()
                t, v = p.tyval()
                a['clauses'].append((k, v))
        elif op == 'resume':
            a['ty'], a['v'] = p.tyval()
        elif op == 'unreachable':
            pass
        elif op == 'atomicrmw':
            p.eat('volatile')
            a['op'] = p.next()
            _, a['p'] = p.tyval()
            p.expect(',')
            a['ty'], a['v'] = p.tyval()
        else:
            raise Unsupported('instr ' + op)
        return Instr(op, res, a, dbg, s)
