"""Parser for the textual LLVM IR (clang 18) that the contract translation units compile to.

Only what the VC generator needs is kept: functions, basic blocks, instructions with typed
operands, integer constant globals.  Anything not understood becomes an instruction with
op='unsupported', which the executor rejects only if a feasible path reaches it.
"""
import re

TOK = re.compile(r'''
    "(?:[^"\\]|\\.)*"            |
    c"(?:[^"\\]|\\.)*"           |
    [%@][-a-zA-Z$._0-9]+         |
    [%@]"(?:[^"\\]|\\.)*"        |
    ![-a-zA-Z$._0-9]*            |
    \#\d+                        |
    -?\d+\.\d+(?:e[+-]?\d+)?     |
    -?\d+                        |
    [a-zA-Z_][a-zA-Z_0-9.]*      |
    \.\.\.                       |
    [()\[\]{}<>,=*:|]
''', re.X)


def tokenize(s):
    return TOK.findall(s)


class Ty:
    """Type: kind in int/ptr/void/float/array/struct/vector/other"""
    __slots__ = ('kind', 'w', 'elem', 'n', 'elems', 'packed')

    def __init__(self, kind, w=0, elem=None, n=0, elems=None, packed=False):
        self.kind, self.w, self.elem, self.n, self.elems, self.packed = kind, w, elem, n, elems, packed

    def __repr__(self):
        if self.kind == 'int':
            return 'i%d' % self.w
        if self.kind == 'array':
            return '[%d x %r]' % (self.n, self.elem)
        if self.kind == 'struct':
            return '{%s}' % ', '.join(map(repr, self.elems))
        return self.kind

    def align(self):
        if self.kind == 'int':
            return {1: 1, 8: 1, 16: 2, 32: 4, 64: 8, 128: 16}.get(self.w, max(1, (self.w + 7) // 8))
        if self.kind == 'ptr':
            return 8
        if self.kind == 'float':
            return max(1, self.w // 8)
        if self.kind in ('array', 'vector'):
            return self.elem.align()
        if self.kind == 'struct':
            return 1 if self.packed else max([1] + [e.align() for e in self.elems])
        return 1

    def size(self):
        if self.kind == 'int':
            return max(1, (self.w + 7) // 8)
        if self.kind == 'ptr':
            return 8
        if self.kind == 'float':
            return self.w // 8
        if self.kind in ('array', 'vector'):
            return self.n * self.elem.size()
        if self.kind == 'struct':
            o = 0
            for e in self.elems:
                if not self.packed:
                    a = e.align()
                    o = (o + a - 1) // a * a
                o += e.size()
            a = self.align()
            return (o + a - 1) // a * a
        raise ValueError('size of ' + self.kind)

    def field_offset(self, i):
        o = 0
        for k, e in enumerate(self.elems):
            if not self.packed:
                a = e.align()
                o = (o + a - 1) // a * a
            if k == i:
                return o
            o += e.size()
        raise IndexError


class Instr:
    __slots__ = ('op', 'res', 'ty', 'args', 'x', 'text')

    def __init__(self, op, res=None, ty=None, args=(), text='', **x):
        self.op, self.res, self.ty, self.args, self.text, self.x = op, res, ty, list(args), text, x

    def __repr__(self):
        return self.text.strip()


class Func:
    def __init__(self, name, ret, params):
        self.name, self.ret, self.params = name, ret, params
        self.blocks = {}
        self.order = []
        self.entry = None


class Module:
    def __init__(self):
        self.types = {}
        self.funcs = {}
        self.decls = {}
        self.globals = {}


class P:
    """token cursor"""

    def __init__(self, toks, mod):
        self.t, self.i, self.m = toks, 0, mod

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def next(self):
        v = self.t[self.i]
        self.i += 1
        return v

    def accept(self, *v):
        if self.peek() in v:
            return self.next()
        return None

    def expect(self, v):
        x = self.next()
        if x != v:
            raise SyntaxError('expected %s got %s in %s' % (v, x, ' '.join(self.t)))

    def type(self):
        t = self.next()
        if re.fullmatch(r'i\d+', t):
            ty = Ty('int', int(t[1:]))
        elif t == 'ptr':
            ty = Ty('ptr')
            if self.peek() == 'addrspace':
                self.skip_parens_attr()
        elif t == 'void':
            ty = Ty('void')
        elif t in ('float', 'double', 'half', 'x86_fp80', 'fp128'):
            ty = Ty('float', {'float': 32, 'double': 64, 'half': 16, 'x86_fp80': 128, 'fp128': 128}[t])
        elif t in ('label', 'metadata', 'token', 'opaque'):
            ty = Ty(t)
        elif t == '[':
            n = int(self.next())
            self.expect('x')
            e = self.type()
            self.expect(']')
            ty = Ty('array', elem=e, n=n)
        elif t == '{':
            es = []
            while not self.accept('}'):
                es.append(self.type())
                self.accept(',')
            ty = Ty('struct', elems=es)
        elif t == '<':
            if self.accept('{'):
                es = []
                while not self.accept('}'):
                    es.append(self.type())
                    self.accept(',')
                self.expect('>')
                ty = Ty('struct', elems=es, packed=True)
            else:
                n = int(self.next())
                self.expect('x')
                e = self.type()
                self.expect('>')
                ty = Ty('vector', elem=e, n=n)
        elif t.startswith('%'):
            ty = self.m.types.get(t)
            if ty is None:
                ty = Ty('opaque')
        else:
            raise SyntaxError('type? %s in %s' % (t, ' '.join(self.t)))
        # function type "T (args)" only appears in calls of varargs / fn ptr
        return ty

    def skip_parens_attr(self):
        self.next()
        if self.peek() == '(':
            d = 0
            while True:
                x = self.next()
                if x == '(':
                    d += 1
                elif x == ')':
                    d -= 1
                    if d == 0:
                        return

    PATTR = {'noundef', 'zeroext', 'signext', 'nonnull', 'nocapture', 'readonly', 'readnone', 'writeonly', 'returned',
             'noalias', 'immarg', 'nofree', 'inreg', 'nest', 'swiftself', 'allocptr', 'allocalign', 'writable', 'dead_on_unwind'}
    PATTR_P = {'dereferenceable', 'dereferenceable_or_null', 'byval', 'sret', 'inalloca', 'preallocated', 'elementtype',
               'nofpclass', 'byref', 'range', 'captures'}

    def pattrs(self):
        while True:
            p = self.peek()
            if p in self.PATTR:
                self.next()
            elif p in self.PATTR_P:
                self.skip_parens_attr()
            elif p == 'align':
                self.next()
                if self.peek() == '(':
                    self.i -= 1
                    self.skip_parens_attr()
                else:
                    self.next()
            else:
                return

    def value(self, ty):
        """operand -> ('reg',name) | ('int',v) | ('global',name) | ('undef',) | ('null',) | ('zero',) | ('cexpr',...)|('agg',[..])"""
        t = self.next()
        if t.startswith('%'):
            return ('reg', t)
        if t.startswith('@'):
            return ('global', t)
        if re.fullmatch(r'-?\d+', t):
            return ('int', int(t))
        if t == 'true':
            return ('int', 1)
        if t == 'false':
            return ('int', 0)
        if t in ('undef', 'poison'):
            return ('undef',)
        if t == 'null':
            return ('int', 0)
        if t == 'zeroinitializer':
            return ('zero',)
        if t == 'none':
            return ('undef',)
        if t.startswith('c"'):
            return ('str', unescape(t[2:-1]))
        if t in ('{', '[', '<'):
            close = {'{': '}', '[': ']', '<': '>'}[t]
            if t == '<' and self.peek() == '{':
                self.next()
                vs = self.tvals('}')
                self.expect('>')
                return ('agg', vs)
            return ('agg', self.tvals(close))
        if t in ('getelementptr', 'ptrtoint', 'inttoptr', 'bitcast', 'add', 'sub', 'trunc', 'zext', 'sext', 'icmp', 'mul'):
            return self.cexpr(t)
        if re.fullmatch(r'-?\d+\.\d+(e[+-]?\d+)?', t) or t.startswith('0x'):
            return ('float', t)
        return ('unknown', t)

    def tvals(self, close):
        vs = []
        while not self.accept(close):
            ty = self.type()
            vs.append((ty, self.value(ty)))
            self.accept(',')
        return vs

    def cexpr(self, op):
        flags = []
        while self.peek() not in ('(',):
            flags.append(self.next())
        self.expect('(')
        if op == 'getelementptr':
            sty = self.type()
            self.expect(',')
            args = []
            while True:
                while self.peek() in ('inrange',):
                    self.next()
                ty = self.type()
                args.append((ty, self.value(ty)))
                if not self.accept(','):
                    break
            self.expect(')')
            return ('cgep', sty, args)
        args = []
        while True:
            ty = self.type()
            args.append((ty, self.value(ty)))
            if self.accept('to'):
                dt = self.type()
                self.expect(')')
                return ('ccast', op, args[0], dt)
            if not self.accept(','):
                break
        self.expect(')')
        return ('cbin', op, args)


def unescape(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
       'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CAST = {'zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'uitofp', 'sitofp', 'fptoui', 'fptosi', 'fpext', 'fptrunc',
        'addrspacecast'}
FLAGS = {'nuw', 'nsw', 'exact', 'disjoint', 'nneg', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc',
         'samesign'}


def parse_instr(line, mod):
    text = line
    # strip metadata suffix
    m = re.search(r', ![a-zA-Z.]+ !?', line)
    if m and '"' not in line[:m.start()]:
        line = line[:m.start()]
    toks = tokenize(line)
    p = P(toks, mod)
    res = None
    if len(toks) > 2 and toks[0].startswith('%') and toks[1] == '=':
        res = p.next()
        p.next()
    while p.peek() in ('tail', 'musttail', 'notail'):
        p.next()
    op = p.next()
    flags = []
    if op in BIN:
        while p.peek() in FLAGS:
            flags.append(p.next())
        ty = p.type()
        a = p.value(ty)
        p.expect(',')
        b = p.value(ty)
        return Instr(op, res, ty, [a, b], text, flags=flags)
    if op in ('icmp', 'fcmp'):
        while p.peek() in FLAGS:
            flags.append(p.next())
        pred = p.next()
        ty = p.type()
        a = p.value(ty)
        p.expect(',')
        b = p.value(ty)
        return Instr(op, res, ty, [a, b], text, pred=pred)
    if op in CAST:
        while p.peek() in FLAGS:
            flags.append(p.next())
        ty = p.type()
        a = p.value(ty)
        p.expect('to')
        dt = p.type()
        return Instr(op, res, dt, [a], text, src=ty, flags=flags)
    if op == 'freeze':
        ty = p.type()
        return Instr(op, res, ty, [p.value(ty)], text)
    if op == 'select':
        while p.peek() in FLAGS:
            flags.append(p.next())
        ct = p.type()
        c = p.value(ct)
        p.expect(',')
        ty = p.type()
        a = p.value(ty)
        p.expect(',')
        p.type()
        b = p.value(ty)
        return Instr(op, res, ty, [c, a, b], text, cty=ct)
    if op == 'phi':
        while p.peek() in FLAGS:
            flags.append(p.next())
        ty = p.type()
        inc = []
        while p.accept('['):
            v = p.value(ty)
            p.expect(',')
            b = p.next()
            p.expect(']')
            inc.append((v, b))
            p.accept(',')
        return Instr(op, res, ty, [], text, inc=inc)
    if op == 'br':
        if p.peek() == 'label':
            p.next()
            return Instr('br', text=text, targets=[p.next()])
        ty = p.type()
        c = p.value(ty)
        p.expect(',')
        p.expect('label')
        t = p.next()
        p.expect(',')
        p.expect('label')
        f = p.next()
        return Instr('br', args=[c], text=text, targets=[t, f])
    if op == 'switch':
        ty = p.type()
        c = p.value(ty)
        p.expect(',')
        p.expect('label')
        d = p.next()
        p.expect('[')
        cases = []
        while not p.accept(']'):
            p.type()
            v = int(p.next())
            p.expect(',')
            p.expect('label')
            cases.append((v, p.next()))
        return Instr('switch', ty=ty, args=[c], text=text, default=d, cases=cases)
    if op == 'ret':
        ty = p.type()
        if ty.kind == 'void':
            return Instr('ret', ty=ty, text=text)
        return Instr('ret', ty=ty, args=[p.value(ty)], text=text)
    if op == 'unreachable':
        return Instr('unreachable', text=text)
    if op in ('call', 'invoke'):
        while p.peek() in FLAGS or p.peek() in ('fastcc', 'coldcc', 'ccc'):
            p.next()
        p.pattrs()
        rt = p.type()
        if p.peek() == '(':  # function type
            d = 0
            while True:
                x = p.next()
                if x == '(':
                    d += 1
                elif x == ')':
                    d -= 1
                    if d == 0:
                        break
        callee = p.next()
        p.expect('(')
        args = []
        while not p.accept(')'):
            ty = p.type()
            if ty.kind == 'metadata':
                # skip to matching
                d = 0
                while not (d == 0 and p.peek() in (',', ')')):
                    x = p.next()
                    if x in '([{<':
                        d += 1
                    elif x in ')]}>':
                        d -= 1
                args.append((ty, ('undef',)))
            else:
                p.pattrs()
                args.append((ty, p.value(ty)))
            p.accept(',')
        ins = Instr('call', res, rt, args, text, callee=callee)
        if op == 'invoke':
            # treat as a call followed by branch to normal dest
            rest = toks[p.i:]
            k = rest.index('to')
            ins.x['normal'] = rest[k + 2]
            ins.op = 'invoke'
        return ins
    if op == 'alloca':
        p.accept('inalloca')
        ty = p.type()
        n = None
        if p.accept(','):
            if p.peek() != 'align':
                t2 = p.type()
                n = p.value(t2)
        return Instr('alloca', res, ty, [n] if n else [], text)
    if op == 'load':
        p.accept('volatile')
        p.accept('atomic')
        ty = p.type()
        p.expect(',')
        pt = p.type()
        return Instr('load', res, ty, [p.value(pt)], text)
    if op == 'store':
        p.accept('volatile')
        p.accept('atomic')
        ty = p.type()
        v = p.value(ty)
        p.expect(',')
        pt = p.type()
        return Instr('store', None, ty, [v, p.value(pt)], text)
    if op == 'getelementptr':
        while p.peek() in ('inbounds', 'nuw', 'nusw'):
            p.next()
        sty = p.type()
        args = []
        while p.accept(','):
            ty = p.type()
            args.append((ty, p.value(ty)))
        return Instr('getelementptr', res, sty, args, text)
    if op == 'extractvalue':
        ty = p.type()
        v = p.value(ty)
        idx = []
        while p.accept(','):
            idx.append(int(p.next()))
        return Instr('extractvalue', res, ty, [v], text, idx=idx)
    if op == 'insertvalue':
        ty = p.type()
        v = p.value(ty)
        p.expect(',')
        et = p.type()
        e = p.value(et)
        idx = []
        while p.accept(','):
            idx.append(int(p.next()))
        return Instr('insertvalue', res, ty, [v, e], text, idx=idx, ety=et)
    return Instr('unsupported', res, None, [], text)


def parse_module(text):
    m = Module()
    lines = text.split('\n')
    # types first (may be recursive in order) -- iterate twice
    for _ in range(3):
        for l in lines:
            mm = re.match(r'(%[-a-zA-Z$._0-9]+|%"[^"]*") = type (.*)$', l)
            if mm:
                try:
                    m.types[mm.group(1)] = P(tokenize(mm.group(2)), m).type()
                except Exception:
                    m.types[mm.group(1)] = Ty('opaque')
    i = 0
    while i < len(lines):
        l = lines[i]
        if l.startswith('define '):
            f = parse_header(l, m)
            i += 1
            cur = None
            while lines[i] != '}':
                s = lines[i]
                i += 1
                if not s.strip() or s.lstrip().startswith(';'):
                    continue
                lm = re.match(r'^([-a-zA-Z$._0-9]+|"[^"]*"):', s)
                if lm:
                    cur = '%' + lm.group(1)
                    f.blocks[cur] = []
                    f.order.append(cur)
                    continue
                if cur is None:
                    cur = '%<entry>'
                    f.blocks[cur] = []
                    f.order.append(cur)
                s2 = s
                # join multi-line switch
                if s.strip().startswith('switch') and not s.strip().endswith(']'):
                    while not lines[i].strip().startswith(']'):
                        s2 += ' ' + lines[i].strip()
                        i += 1
                    s2 += ' ]'
                    i += 1
                elif ' invoke ' in s2 or s2.strip().startswith('invoke'):
                    s2 += ' ' + lines[i].strip()
                    i += 1
                elif 'landingpad' in s2:
                    while lines[i].startswith('          '):
                        i += 1
                try:
                    ins = parse_instr(s2, m)
                except (SyntaxError, IndexError, ValueError, KeyError) as e:
                    ins = Instr('unsupported', None, None, [], s2 + ' ;parse: ' + str(e))
                    mm = re.match(r'\s*(%[-\w.$]+) =', s2)
                    if mm:
                        ins.res = mm.group(1)
                f.blocks[cur].append(ins)
            f.entry = f.order[0]
            # unnamed entry block number: find phi references not in blocks
            names = set(f.blocks)
            for b in f.order:
                for ins in f.blocks[b]:
                    if ins.op == 'phi':
                        for k, (v, lab) in enumerate(ins.x['inc']):
                            if lab not in names:
                                ins.x['inc'][k] = (v, f.entry)
            m.funcs[f.name] = f
        elif l.startswith('declare '):
            try:
                f = parse_header(l, m)
                m.decls[f.name] = f
            except Exception:
                pass
        elif l.startswith('@'):
            mm = re.match(r'(@[-a-zA-Z$._0-9]+|@"[^"]*") = (.*)$', l)
            if mm:
                rest = mm.group(2)
                const = bool(re.search(r'\bconstant\b', rest))
                k = re.search(r'\b(constant|global)\b', rest)
                ent = {'const': const, 'ty': None, 'init': None}
                if k:
                    try:
                        p = P(tokenize(rest[k.end():]), m)
                        ent['ty'] = p.type()
                        if p.peek() is not None and p.peek() != ',':
                            ent['init'] = p.value(ent['ty'])
                    except Exception:
                        pass
                m.globals[mm.group(1)] = ent
        i += 1
    return m


LINK = {'define', 'declare', 'dso_local', 'internal', 'linkonce_odr', 'weak_odr', 'linkonce', 'weak', 'private', 'external',
        'hidden', 'protected', 'local_unnamed_addr', 'unnamed_addr', 'fastcc', 'coldcc', 'available_externally', 'default',
        'noundef', 'zeroext', 'signext'}


def parse_header(l, m):
    p = P(tokenize(l), m)
    while p.peek() in LINK:
        p.next()
    p.pattrs()
    rt = p.type()
    name = p.next()
    p.expect('(')
    params = []
    k = 0
    while not p.accept(')'):
        if p.accept('...'):
            continue
        ty = p.type()
        p.pattrs()
        nm = None
        if p.peek() and p.peek().startswith('%'):
            nm = p.next()
        if nm is None:
            nm = '%' + str(k)
        params.append((ty, nm))
        k += 1
        p.accept(',')
    return Func(name, rt, params)
