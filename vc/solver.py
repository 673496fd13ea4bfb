"""Discharging verification conditions.

A VC is  facts => goal  over integer polynomials.  Back ends, in order:
 1. z3, linear integer arithmetic: every non-linear monomial is an opaque integer constrained by
    instances of the (universally valid) product lemmas below;
 2. z3, non-linear integer arithmetic (the monomials are given their definition);
 3. cvc5, non-linear integer arithmetic.
Only 'unsat' of facts & lemmas & not goal counts as discharged.
"""
import itertools
import time
import z3
from poly import *


class Atoms:
    def __init__(self):
        self.names = []
        self.nonneg = []
        self.z = []
        self.mz = {}
        self.lo = []
        self.bz = {}
        self.bzk = {}
        self.bnd = {}
        self.hi = []

    def new(self, name, lo=0, hi=None):
        i = len(self.names)
        self.lo.append(lo)
        self.hi.append(hi)
        nonneg = lo is not None and lo >= 0
        nm = '%s!%d' % (name, i)
        self.names.append(nm)
        self.nonneg.append(nonneg)
        v = z3.Int(nm)
        self.z.append(v)
        self.mz[(i,)] = v
        return i

    def mono(self, m):
        v = self.mz.get(m)
        if v is None:
            v = z3.Int('m!' + '*'.join(str(x) for x in m))
            self.mz[m] = v
        return v

    def lin(self, p):
        ts = []
        for m, c in p.t.items():
            if m == ():
                ts.append(z3.IntVal(c))
            else:
                v = self.mono(m)
                ts.append(v if c == 1 else z3.IntVal(c) * v)
        if not ts:
            return z3.IntVal(0)
        return z3.Sum(ts) if len(ts) > 1 else ts[0]

    def b2z(self, b):
        if isinstance(b, tuple):
            c = self.bz.get(id(b))
            if c is not None:
                return c[1]
            k = bkey(b)
            z = self.bzk.get(k)
            if z is None:
                z = self._b2z(b)
                self.bzk[k] = z
            self.bz[id(b)] = (b, z)
            return z
        return self._b2z(b)

    def _b2z(self, b):
        if b is True:
            return z3.BoolVal(True)
        if b is False:
            return z3.BoolVal(False)
        k = b[0]
        if k in ('le', 'eq', 'ne'):
            # split into positive and negative sides
            pos, neg = {}, {}
            for m, c in b[1].t.items():
                if c > 0:
                    pos[m] = c
                else:
                    neg[m] = -c
            l, r = self.lin(Poly(pos)), self.lin(Poly(neg))
            return l <= r if k == 'le' else (l == r if k == 'eq' else l != r)
        if k == 'and':
            return z3.And([self.b2z(x) for x in b[1]])
        if k == 'or':
            return z3.Or([self.b2z(x) for x in b[1]])
        if k == 'bv':
            return z3.Bool(b[1])
        if k == 'nbv':
            return z3.Not(z3.Bool(b[1]))
        raise ValueError(k)


class Stats:
    def __init__(self):
        self.queries = 0
        self.t = {'z3-lia': 0.0, 'z3-nia': 0.0, 'cvc5-nia': 0.0, 'syntactic': 0.0, 'z3-bv': 0.0}
        self.n = {'z3-lia': 0, 'z3-nia': 0, 'cvc5-nia': 0, 'syntactic': 0, 'z3-bv': 0}


def sub_mono(m, f):
    """m / f as tuple or None"""
    r = list(m)
    for x in f:
        if x in r:
            r.remove(x)
        else:
            return None
    return tuple(r)


def lemmas(at, facts, goal_polys, maxpairs=1200, hints=()):
    """valid product facts over the monomials in the query (as boolean AST)"""
    monos = set()
    for p in goal_polys:
        monos.update(m for m in p.t if len(m) >= 2)
    units_le = []
    units_eq = []
    for f in facts:
        for p in bpolys(f):
            monos.update(m for m in p.t if len(m) >= 2)
        if isinstance(f, tuple):
            if f[0] == 'le':
                units_le.append(f[1])
            elif f[0] == 'eq':
                units_eq.append(f[1])
    if not monos:
        return []
    out = []
    atoms = set()
    for m in monos:
        atoms.update(m)
    # products of unit facts with atoms occurring in monomials
    extra = set()
    seen = set()

    def allnn(m):
        return all(at.nonneg[a] for a in m)

    factors = set()
    for m in monos:
        for a in set(m):
            factors.add((a,))
            if len(m) >= 3:
                r = sub_mono(m, (a,))
                factors.add(r)
    for p in units_le:
        if len(p.t) > 8:
            continue
        for f in factors:
            if not allnn(f):
                continue
            q = p * Poly({f: 1})
            nl = [m for m in q.t if len(m) >= 2]
            have = sum(1 for m in nl if m in monos)
            if nl and have >= 1 and len(nl) - have <= 1:
                k = ('le', q.key())
                if k not in seen:
                    seen.add(k)
                    out.append(('le', q))
                    extra.update(nl)
    for p in units_eq:
        if len(p.t) > 8:
            continue
        for f in factors:
            q = p * Poly({f: 1})
            nl = [m for m in q.t if len(m) >= 2]
            have = sum(1 for m in nl if m in monos)
            if nl and have >= 1 and len(nl) - have <= 1:
                k = ('eq', q.key())
                if k not in seen:
                    seen.add(k)
                    out.append(('eq', q))
                    extra.update(nl)
    # second round: unit facts times factors over the extended monomial set, nothing new introduced
    monos2 = set(monos) | extra
    for p in units_le + units_eq:
        pass
    monos = monos2
    M = lambda m: Poly({m: 1}) if m else Poly.const(1)
    groups = {}
    for m in monos:
        fs = set()
        n = len(m)
        for r in range(1, n):
            for c in itertools.combinations(range(n), r):
                fs.add(tuple(m[i] for i in c))
        for f in fs:
            groups.setdefault(f, set()).add(m)
        if allnn(m):
            out.append(le0(-M(m)))
    npairs = 0
    for f, ms in groups.items():
        if not allnn(f):
            continue
        lst = sorted(ms | {f})
        for m1, m2 in itertools.combinations(lst, 2):
            c1, c2 = sub_mono(m1, f), sub_mono(m2, f)
            npairs += 1
            if npairs > maxpairs:
                break
            P1, P2, F = M(m1), M(m2), M(f)
            C1, C2 = M(c1), M(c2)
            out.append(implies(le(C1, C2), le(P1, P2)))
            out.append(implies(le(C2, C1), le(P2, P1)))
            out.append(implies(lt(C1, C2), le(P1 + F, P2)))
            out.append(implies(lt(C2, C1), le(P2 + F, P1)))
        for m1 in ms:
            c1 = sub_mono(m1, f)
            out.append(implies(eq(M(c1), Poly.const(0)), eq(M(m1), Poly.const(0))))
    return [x for x in out if x is not True]


class Prover:
    def __init__(self, atoms, stats, t_lia=20000, t_nia=15000, t_cvc5=20, use_cvc5=True):
        self.at, self.st = atoms, stats
        self.t_lia, self.t_nia, self.t_cvc5, self.use_cvc5 = t_lia, t_nia, t_cvc5, use_cvc5
        self.seed = 0
        self.cache = {}

    def bounds(self, bs):
        s = set()
        for b in bs:
            for p in bpolys(b):
                s |= p.atoms()
        out = []
        for a in s:
            c = self.at.bnd.get(a)
            if c is None:
                c = []
                if self.at.lo[a] is not None:
                    c.append(self.at.z[a] >= self.at.lo[a])
                if self.at.hi[a] is not None:
                    c.append(self.at.z[a] <= self.at.hi[a])
                self.at.bnd[a] = c
            out += c
        return out

    def _mk(self, facts, neg):
        polys = []
        for f in facts:
            bpolys(f, polys)
        gp = bpolys(neg)
        lem = lemmas(self.at, facts + ([neg] if isinstance(neg, tuple) else []), gp)
        return lem

    def coi(self, facts, goal):
        """cone of influence (sound: dropping facts only weakens)"""
        at = set()
        for p in bpolys(goal):
            at |= p.atoms()
        todo = [(f, set().union(*[p.atoms() for p in bpolys(f)]) if bpolys(f) else set()) for f in facts]
        ch = True
        keep = [False] * len(todo)
        while ch:
            ch = False
            for i, (f, a) in enumerate(todo):
                if not keep[i] and (a & at or not a):
                    keep[i] = True
                    if not a <= at:
                        at |= a
                        ch = True
        return [todo[i][0] for i in range(len(todo)) if keep[i]]

    def prove(self, facts, goal, quick=False):
        if goal is True:
            self.st.n['syntactic'] += 1
            return 'proved', None
        key = (frozenset(bkey(f) for f in facts), bkey(goal), quick)
        r = self.cache.get(key)
        if r is None:
            r = self._prove(facts, goal, quick)
            self.cache[key] = r
        return r

    def _prove(self, facts, goal, quick=False):
        """-> (status, model) status in 'proved','sat','unknown'; model atom->int from NIA/LIA"""
        if goal is True:
            self.st.n['syntactic'] += 1
            return 'proved', None
        fk = set(bkey(f) for f in facts)
        if bkey(goal) in fk:
            self.st.n['syntactic'] += 1
            return 'proved', None
        self.st.queries += 1
        facts = self.coi(facts, goal) if goal is not False else list(facts)
        neg = bnot(goal)
        lem = self._mk(facts, neg)
        t0 = time.time()
        s = z3.SolverFor('QF_LIA')
        s.set('timeout', 3000 if quick else self.t_lia)
        fz = [self.at.b2z(f) for f in facts] + self.bounds(facts + lem + [neg])
        s.add(fz)
        s.add([self.at.b2z(l) for l in lem])
        s.add(self.at.b2z(neg))
        r = s.check()
        self.st.t['z3-lia'] += time.time() - t0
        if r == z3.unsat:
            self.st.n['z3-lia'] += 1
            return 'proved', None
        # non-linear monomials?
        monos = set()
        for f in facts + lem + [neg]:
            for p in bpolys(f):
                monos.update(m for m in p.t if len(m) >= 2)
        if r == z3.sat and not monos:
            return 'sat', self._model(s.model())
        lia_model = self._model(s.model()) if r == z3.sat else None
        t0 = time.time()
        s2 = z3.SolverFor('QF_NIA')
        s2.set('timeout', 1500 if quick else self.t_nia)
        s2.add(fz)
        for m in monos:
            e = self.at.z[m[0]]
            for a in m[1:]:
                e = e * self.at.z[a]
            s2.add(self.at.mono(m) == e)
        s2.add(self.at.b2z(neg))
        s2.add([self.at.b2z(l) for l in lem[:400]])
        r2 = s2.check()
        self.st.t['z3-nia'] += time.time() - t0
        if r2 == z3.unsat:
            self.st.n['z3-nia'] += 1
            return 'proved', None
        if r2 == z3.sat:
            return 'sat', self._model(s2.model())
        if not quick and self.use_cvc5:
            t0 = time.time()
            r3 = self._cvc5(s2)
            self.st.t['cvc5-nia'] += time.time() - t0
            if r3 == 'unsat':
                self.st.n['cvc5-nia'] += 1
                return 'proved', None
        return 'unknown', lia_model

    def _cvc5(self, s):
        import subprocess
        txt = '(set-logic QF_NIA)\n' + s.sexpr() + '\n(check-sat)\n'
        try:
            p = subprocess.run(['cvc5', '--lang=smt2', '--tlimit=%d' % (self.t_cvc5 * 1000)], input=txt, text=True,
                               capture_output=True, timeout=self.t_cvc5 + 5)
            return p.stdout.strip().split('\n')[0] if p.stdout else 'unknown'
        except Exception:
            return 'unknown'

    def _model(self, m):
        d = {}
        for i, v in enumerate(self.at.z):
            x = m.eval(v)
            if z3.is_int_value(x):
                d[i] = x.as_long()
        for dd in m.decls():
            if z3.is_bool(m[dd]) and dd.arity() == 0:
                d[('b', dd.name())] = z3.is_true(m[dd])
        return d

    def feasible(self, facts):
        """False only if the facts are proved contradictory"""
        if any(f is False for f in facts):
            return False
        key = frozenset(bkey(f) for f in facts)
        r = self.cache.get(key)
        if r is None:
            r = self._feasible(facts)
            self.cache[key] = r
        return r

    def _feasible(self, facts):
        t0 = time.time()
        lem = self._mk(facts, True)
        s = z3.SolverFor('QF_LIA')
        s.set('timeout', 3000)
        s.add([self.at.b2z(f) for f in facts])
        s.add([self.at.b2z(l) for l in lem])
        s.add(self.bounds(facts + lem))
        r = s.check()
        self.st.t['z3-lia'] += time.time() - t0
        return r != z3.unsat


def _filter(self, facts, cands):
    """which of cands are not entailed by facts (list of bool)"""
    bad = [False] * len(cands)
    fk = set(bkey(f) for f in facts)
    todo = []
    for i, c in enumerate(cands):
        if c is True or bkey(c) in fk:
            continue
        if c is False:
            bad[i] = True
            continue
        todo.append(i)
    if not todo:
        return bad
    t0 = time.time()
    allb = list(facts) + [cands[i] for i in todo]
    gp = []
    for i in todo:
        bpolys(cands[i], gp)
    lem = lemmas(self.at, facts, gp)
    s = z3.SolverFor('QF_LIA')
    s.set('timeout', 5000)
    s.add([self.at.b2z(f) for f in facts])
    s.add([self.at.b2z(l) for l in lem])
    s.add(self.bounds(allb + lem))
    lits = {}
    for i in todo:
        v = z3.Bool('cand!%d' % i)
        lits[i] = v
        s.add(v == self.at.b2z(cands[i]))
    live = set(todo)
    while live:
        s.push()
        s.add(z3.Or([z3.Not(lits[i]) for i in live]))
        r = s.check()
        if r == z3.unsat:
            s.pop()
            break
        if r == z3.sat:
            m = s.model()
            out = [i for i in live if z3.is_false(m.eval(lits[i], model_completion=True))]
            if not out:
                out = list(live)
        else:
            out = list(live)
        s.pop()
        for i in out:
            bad[i] = True
            live.discard(i)
    self.st.queries += 1
    self.st.t['z3-lia'] += time.time() - t0
    return bad


Prover.filter = _filter
