"""Integer polynomials over symbolic atoms and a small boolean AST over them."""


class Poly:
    __slots__ = ('t', '_k')

    def __init__(self, t):
        self.t = t
        self._k = None

    @staticmethod
    def const(c):
        return Poly({(): c} if c else {})

    @staticmethod
    def atom(a):
        return Poly({(a,): 1})

    def key(self):
        if self._k is None:
            self._k = tuple(sorted(self.t.items()))
        return self._k

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def cval(self):
        return self.t.get((), 0)

    def __add__(self, o):
        r = dict(self.t)
        for m, c in o.t.items():
            v = r.get(m, 0) + c
            if v:
                r[m] = v
            else:
                r.pop(m, None)
        return Poly(r)

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-o)

    def scale(self, k):
        return Poly({m: c * k for m, c in self.t.items()} if k else {})

    def __mul__(self, o):
        r = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = tuple(sorted(m1 + m2))
                v = r.get(m, 0) + c1 * c2
                if v:
                    r[m] = v
                else:
                    r.pop(m, None)
        return Poly(r)

    def addc(self, c):
        return self + Poly.const(c)

    def monos(self):
        return self.t.keys()

    def atoms(self):
        s = set()
        for m in self.t:
            s.update(m)
        return s

    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t

    def __hash__(self):
        return hash(self.key())


# ---- booleans: True/False, ('le',p) p<=0, ('eq',p) p==0, ('ne',p), ('and',(..)), ('or',(..)), ('bv', name)
def le0(p):
    if p.is_const():
        return p.cval() <= 0
    # normalise by gcd
    return ('le', p)


def le(a, b):
    return le0(a - b)


def lt(a, b):
    return le0(a - b + Poly.const(1))


def eq(a, b):
    p = a - b
    if p.is_const():
        return p.cval() == 0
    return ('eq', p)


def ne(a, b):
    return bnot(eq(a, b))


def bnot(b):
    if b is True:
        return False
    if b is False:
        return True
    if b[0] == 'le':
        return le0(Poly.const(1) - b[1])
    if b[0] == 'eq':
        return ('ne', b[1])
    if b[0] == 'ne':
        return ('eq', b[1])
    if b[0] == 'and':
        return bor(*[bnot(x) for x in b[1]])
    if b[0] == 'or':
        return band(*[bnot(x) for x in b[1]])
    if b[0] == 'bv':
        return ('nbv', b[1])
    if b[0] == 'nbv':
        return ('bv', b[1])
    raise ValueError(b)


def band(*xs):
    r = []
    for x in xs:
        if x is True:
            continue
        if x is False:
            return False
        if x[0] == 'and':
            r.extend(x[1])
        else:
            r.append(x)
    if not r:
        return True
    if len(r) == 1:
        return r[0]
    return ('and', tuple(r))


def bor(*xs):
    r = []
    for x in xs:
        if x is False:
            continue
        if x is True:
            return True
        if x[0] == 'or':
            r.extend(x[1])
        else:
            r.append(x)
    if not r:
        return False
    if len(r) == 1:
        return r[0]
    return ('or', tuple(r))


def implies(a, b):
    return bor(bnot(a), b)


def iff(a, b):
    return band(implies(a, b), implies(b, a))


def bpolys(b, out=None):
    if out is None:
        out = []
    if isinstance(b, bool):
        return out
    if b[0] in ('le', 'eq', 'ne'):
        out.append(b[1])
    elif b[0] in ('and', 'or'):
        for x in b[1]:
            bpolys(x, out)
    return out


def bkey(b):
    if isinstance(b, bool):
        return b
    if b[0] in ('le', 'eq', 'ne'):
        return (b[0], b[1].key())
    if b[0] in ('and', 'or'):
        return (b[0], tuple(bkey(x) for x in b[1]))
    return b


def beval(b, asg):
    """evaluate under dict atom->int (and ('b',name)->bool)"""
    if isinstance(b, bool):
        return b
    if b[0] in ('le', 'eq', 'ne'):
        v = peval(b[1], asg)
        return v <= 0 if b[0] == 'le' else (v == 0 if b[0] == 'eq' else v != 0)
    if b[0] == 'and':
        return all(beval(x, asg) for x in b[1])
    if b[0] == 'or':
        return any(beval(x, asg) for x in b[1])
    if b[0] == 'bv':
        return asg.get(('b', b[1]), False)
    if b[0] == 'nbv':
        return not asg.get(('b', b[1]), False)


def peval(p, asg):
    s = 0
    for m, c in p.t.items():
        v = c
        for a in m:
            v *= asg.get(a, 0)
        s += v
    return s
