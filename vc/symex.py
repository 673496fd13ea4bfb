"""Verification-condition generation: symbolic execution of one contract function (LLVM IR of the real
headers instantiated by the contract TU), all paths, loops cut at inductive invariants.

Integers of width w are polynomials over Z that are congruent to the machine value mod 2^w; at every
point where the machine value is observed (division, comparison, shift right, extension, call, return)
the representative in [0,2^w) (or the signed range) is taken: if the solver proves that the polynomial is in range it
is used as is, otherwise a fresh remainder is introduced.  So machine arithmetic is modelled exactly.
"""
import re
import time
from poly import *
import ir


class Unsupported(Exception):
    pass


class Fork(Exception):
    def __init__(self, cond):
        self.cond = cond


class NeedInvariant(Exception):
    def __init__(self, header):
        self.header = header


class Restart(Exception):
    """a loop turned out to change a local object it was not known to change"""


class Obligation(Exception):
    pass


class State:
    __slots__ = ('env', 'facts', 'fkeys', 'ghosts', 'block', 'prev', 'pc', 'loops', 'unroll', 'apps', 'mem', 'trail', 'frames')

    def copy(self):
        s = State()
        s.env = dict(self.env)
        s.facts = list(self.facts)
        s.fkeys = set(self.fkeys)
        s.ghosts = dict(self.ghosts)
        s.block, s.prev, s.pc = self.block, self.prev, self.pc
        s.loops = list(self.loops)
        s.unroll = dict(self.unroll)
        s.apps = list(self.apps)
        s.mem = dict(self.mem)
        s.trail = list(self.trail)
        s.frames = list(self.frames)
        return s


def C(c):
    return Poly.const(c)


def cfg_info(f):
    succ = {}
    for b in f.order:
        t = f.blocks[b][-1]
        if t.op == 'br':
            succ[b] = list(t.x['targets'])
        elif t.op == 'switch':
            succ[b] = [t.x['default']] + [x for _, x in t.x['cases']]
        elif t.op == 'invoke':
            succ[b] = [t.x['normal']]
        else:
            succ[b] = []
    # reachable, dominators
    reach = []
    st = [f.entry]
    seen = {f.entry}
    while st:
        b = st.pop()
        reach.append(b)
        for s in succ[b]:
            if s not in seen:
                seen.add(s)
                st.append(s)
    preds = {b: [] for b in reach}
    for b in reach:
        for s in succ[b]:
            preds[s].append(b)
    dom = {b: set(reach) for b in reach}
    dom[f.entry] = {f.entry}
    ch = True
    while ch:
        ch = False
        for b in reach:
            if b == f.entry:
                continue
            n = set.intersection(*[dom[p] for p in preds[b]]) | {b} if preds[b] else {b}
            if n != dom[b]:
                dom[b] = n
                ch = True
    loops = {}
    for b in reach:
        for s in succ[b]:
            if s in dom[b]:
                body = loops.setdefault(s, {s})
                st = [b]
                while st:
                    x = st.pop()
                    if x not in body:
                        body.add(x)
                        st.extend(preds[x])
    return succ, preds, dom, loops


class Exec:
    def __init__(self, mod, fname, atoms, prover, opts=None):
        self.mod, self.fname = mod, fname
        self.f = mod.funcs['@' + fname]
        self.at, self.pr = atoms, prover
        self.opts = opts or {}
        self.inv = {}            # header -> list of (desc, fn(view)->bool)
        self.need_inv = set()
        self.obligations = []    # dict(name, kind, line, status, ...)
        self.mode = 'verify'
        self.dropped = False
        self.nsteps = 0
        self.maxsteps = self.opts.get('maxsteps', 400000)
        self.maxpaths = self.opts.get('maxpaths', 3000)
        self.appcache = {}
        self.obscache = {}
        self.divcache, self.divs = {}, {}
        self.fieldreg = {}
        self.cfgs = {}
        self.fresh_n = 0
        self.wobj, self.origin = {}, {}
        self.objsize, self.nbounds = {}, 0
        self.covered = set()
        self.deadline = self.opts.get('deadline')
        self.inlined = set()
        self.used = {}
        self.pool = {}
        self.sampler = None
        self.memread = False
        self.memtrack = False
        self.unrolled = 0
        self.case_bits = []
        self.case_seen = 0
        self.stop_on_fail = self.opts.get('stop_on_fail', False)

    # ------------------------------------------------------------------ helpers
    def cfg(self, f):
        if f.name not in self.cfgs:
            self.cfgs[f.name] = cfg_info(f)
        return self.cfgs[f.name]

    def fresh(self, name, w=64, lo=0, hi='w'):
        if hi == 'w':
            hi = (1 << w) - 1
        # atoms are reused between runs of the same contract (same creation order), so that query
        # results can be shared; within one run every atom is distinct
        k = (name, lo, hi)
        n = self.used.get(k, 0)
        self.used[k] = n + 1
        pool = self.pool.setdefault(k, [])
        if n == len(pool):
            pool.append(Poly.atom(self.at.new(name, lo, hi)))
        return pool[n]

    def assume(self, st, b):
        if b is True:
            return True
        if isinstance(b, tuple) and b[0] == 'and':
            ok = True
            for x in b[1]:
                ok = self.assume(st, x) and ok
            return ok
        k = bkey(b)
        if k in st.fkeys:
            return True
        st.fkeys.add(k)
        st.facts.append(b)
        return b is not False

    def known(self, st, b):
        """cheap entailment"""
        if isinstance(b, bool):
            return b
        if bkey(b) in st.fkeys:
            return True
        if bkey(bnot(b)) in st.fkeys:
            return False
        if b[0] in ('and', 'or'):
            ks = [self.known(st, x) for x in b[1]]
            if b[0] == 'and':
                return False if False in ks else True if None not in ks else None
            return True if True in ks else False if None not in ks else None
        return None

    def decide(self, st, b):
        k = self.known(st, b)
        if k is not None:
            return k
        raise Fork(b)

    def in_range(self, st, p, lo, hi):
        if p.is_const():
            return lo <= p.cval() <= hi
        # interval quick check
        l = u = 0
        for m, c in p.t.items():
            ml, mh = 1, 1
            for a in m:
                al, ah = self.at.lo[a], self.at.hi[a]
                if al is None or ah is None or al < 0:
                    ml = mh = None
                    break
                ml *= al
                mh *= ah
            if ml is None:
                l = u = None
                break
            if c > 0:
                l += c * ml
                u += c * mh
            else:
                l += c * mh
                u += c * ml
        if l is not None and lo <= l and u <= hi:
            return True
        r, _ = self.pr.prove(st.facts, band(le(C(lo), p), le(p, C(hi))), quick=True)
        return r == 'proved'

    def obs(self, st, p, w, signed=False):
        M = 1 << w
        lo, hi = (-(M >> 1), (M >> 1) - 1) if signed else (0, M - 1)
        if p.is_const():
            v = p.cval() % M
            if signed and v > hi:
                v -= M
            return C(v)
        # reduce coefficients mod M to smallest absolute value (helps -1 encodings)
        q = Poly({m: c for m, c in ((m, ((c + (M >> 1)) % M) - (M >> 1)) for m, c in p.t.items()) if c})
        key = (q.key(), w, signed)
        c = self.obscache.get(key)
        if c is not None and c[1] <= len(st.facts) and st.facts[:c[1]] == c[2]:
            r, facts = c[0], c[3]
            for fct in facts:
                self.assume(st, fct)
            return r
        for cand in (q, p):
            if self.in_range(st, cand, lo, hi):
                self.obscache[key] = (cand, len(st.facts), list(st.facts), [])
                return cand
        # single wrap forms: q + M or q - M
        if not signed:
            for cand in (q.addc(M), q.addc(-M)):
                if self.in_range(st, cand, lo, hi):
                    self.obscache[key] = (cand, len(st.facts), list(st.facts), [])
                    return cand
        r = self.fresh('wrap', w, lo, hi)
        k = self.fresh('k', 64, None, None)
        fct = eq(q, r + k.scale(M))
        n = len(st.facts)
        self.obscache[key] = (r, n, list(st.facts), [fct])
        self.assume(st, fct)
        return r

    def udivrem(self, st, a, b, w):
        """a, b observed unsigned; returns q, r (b>0 must be established)"""
        if a.is_const() and b.is_const():
            if b.cval() == 0:
                raise Unsupported('division by constant zero')
            return C(a.cval() // b.cval()), C(a.cval() % b.cval())
        if b.is_const() and b.cval() == 1:
            return a, C(0)
        if b.is_const() and b.cval() > 0:  # b divides some terms and the rest lies in [0, b)
            d = b.cval()
            qt = {m: c // d for m, c in a.t.items() if c % d == 0}
            rest = Poly({m: c for m, c in a.t.items() if c % d != 0})
            iv = self.interval(rest)
            if iv is not None and 0 <= iv[0] and iv[1] < d:
                return Poly(qt), rest
        return self.zdivrem(st, a, b, nonneg=True)

    def interval(self, p):
        l = u = 0
        for m, c in p.t.items():
            ml = mh = 1
            for a in m:
                al, ah = self.at.lo[a], self.at.hi[a]
                if al is None or ah is None or al < 0:
                    return None
                ml *= al
                mh *= ah
            if c > 0:
                l += c * ml
                u += c * mh
            else:
                l += c * mh
                u += c * ml
        return l, u

    def zdivrem(self, st, a, b, nonneg=False):
        key = (a.key(), b.key(), nonneg)
        if key in self.divcache:
            q, r = self.divcache[key]
        else:
            if nonneg:
                q = Poly.atom(self.at.new('q', 0, None))
            else:
                q = Poly.atom(self.at.new('q', None, None))
            if b.is_const():
                r = Poly.atom(self.at.new('r', 0, b.cval() - 1))
            else:
                r = Poly.atom(self.at.new('r', 0, None))
            self.divcache[key] = (q, r)
        # a == q*b + r, 0<=r<b    (only sound when b>0: guarded)
        pos = lt(C(0), b)
        d = band(eq(a, q * b + r), lt(r, b), le(C(0), r))
        if not (pos is True or self.known(st, pos)):
            self.assume(st, implies(pos, d))
            return q, r
        self.assume(st, d)
        if not b.is_const():
            # two quotients by the same divisor: how far they are apart (each step is worth one divisor)
            for (ka, kb, _), (a2, q2, r2) in list(self.divs.items()):
                if kb != b.key() or ka == a.key():
                    continue
                diff = a - a2
                if len(diff.t) > 3 or bkey(eq(a2, q2 * b + r2)) not in st.fkeys:
                    continue
                dq, v = q - q2, diff + r2 - r
                self.assume(st, implies(eq(dq, C(0)), eq(v, C(0))))
                for k in (1, 2):
                    self.assume(st, implies(le(C(k), dq), le(b.scale(k), v)))
                    self.assume(st, implies(le(dq, C(-k)), le(v, b.scale(-k))))
            self.divs[key] = (a, q, r)
        return q, r

    # ------------------------------------------------------------------ obligations
    def oblige(self, st, name, goal, kind, line=None):
        if self.sampler is not None:
            if goal is not True:
                self.sample_fail.append((name, line))
            return
        if self.mode != 'verify':
            self.assume(st, goal)
            return
        t0 = time.time()
        status, model = self.pr.prove(st.facts, goal)
        rec = dict(name=name, kind=kind, line=line, status=status, t=round(time.time() - t0, 3))
        if status != 'proved':
            # is the path itself contradictory?
            if not self.pr.feasible(st.facts):
                rec['status'] = 'proved'
            else:
                rec['model'] = self.model_inputs(model)
                rec['path'] = list(st.trail)[-30:]
        self.obligations.append(rec)
        # assert-then-assume
        self.assume(st, goal)

    def model_inputs(self, model):
        if not model:
            return None
        d = {}
        for nm, p in self.inputs.items():
            d[nm] = peval(p, model) % (1 << 64)
        return d

    # ------------------------------------------------------------------ run
    def run(self):
        f = self.f
        st = State()
        st.env, st.facts, st.fkeys, st.ghosts = {}, [], set(), {}
        st.block, st.prev, st.pc = f.entry, None, 0
        st.loops, st.unroll, st.apps, st.mem, st.trail, st.frames = [], {}, [], {}, [], []
        if not hasattr(self, 'inputs'):
            self.inputs = {}
            for ty, nm in f.params:
                if ty.kind == 'int':
                    self.inputs[nm] = Poly.atom(self.at.new(nm.strip('%'), 0, (1 << ty.w) - 1))
                elif ty.kind == 'ptr':
                    self.inputs[nm] = Poly.atom(self.at.new(nm.strip('%'), 0, (1 << 64) - 1))
                else:
                    raise Unsupported('parameter type')
        for ty, nm in f.params:
            p = self.inputs[nm]
            st.env[nm] = ne(p, C(0)) if ty.kind == 'int' and ty.w == 1 else p
        st.frames = [(f, None, None)]
        self.used = {}
        self.obscache = {}
        self.fresh_n = 0
        work = [st]
        npaths = 0
        while work:
            s = work.pop()
            while True:
                self.nsteps += 1
                if self.nsteps > self.maxsteps:
                    raise Unsupported('step budget exceeded (mode %s, %d paths, at %s, trail %s)' % (getattr(self, 'mode', ''), npaths, s.block[:30], [t[-12:] for t in s.trail[-6:]]))
                if self.deadline and time.time() > self.deadline:
                    raise Unsupported('time budget exceeded')
                try:
                    more = self.step(s)
                except Fork as fk:
                    if fk.cond is False:
                        break
                    a, b = s.copy(), s
                    oka = self.assume(a, fk.cond) and self.pr.feasible(a.facts)
                    okb = self.assume(b, bnot(fk.cond)) and self.pr.feasible(b.facts)
                    if oka and okb:
                        work.append(a)
                        continue
                    elif oka:
                        s = a
                        continue
                    elif okb:
                        continue
                    else:
                        break
                if more is None:
                    npaths += 1
                    if npaths > self.maxpaths:
                        raise Unsupported('path budget exceeded')
                    break
        self.npaths = npaths

    # value of operand
    def val(self, st, ty, v):
        k = v[0]
        if k == 'reg':
            r = st.env.get(v[1])
            if r is None:
                raise Unsupported('undefined register %s' % v[1])
            return r
        if k == 'int':
            if ty.kind == 'int' and ty.w == 1:
                return bool(v[1])
            return C(v[1])
        if k == 'undef':
            return self.undef(ty)
        if k == 'zero':
            return self.zero(ty)
        if k == 'global':
            return ('gptr', v[1], C(0))
        if k == 'cgep':
            base = self.val(st, v[2][0][0], v[2][0][1])
            return self.gep(st, v[1], base, [(t, self.val(st, t, x)) for t, x in v[2][1:]])
        if k == 'agg':
            return [self.val(st, t, x) for t, x in v[1]]
        if k == 'float':
            return ('float', v[1])
        raise Unsupported('operand %r' % (v,))

    def undef(self, ty):
        if ty.kind == 'int':
            if ty.w == 1:
                return ne(self.fresh('undef', 1), C(0))
            return self.fresh('undef', ty.w)
        if ty.kind == 'ptr':
            return self.fresh('undef', 64)
        if ty.kind in ('struct',):
            return [self.undef(e) for e in ty.elems]
        if ty.kind == 'array':
            return [self.undef(ty.elem) for _ in range(ty.n)]
        return ('opaque',)

    def zero(self, ty):
        if ty.kind == 'int':
            return False if ty.w == 1 else C(0)
        if ty.kind == 'ptr':
            return C(0)
        if ty.kind == 'struct':
            return [self.zero(e) for e in ty.elems]
        if ty.kind == 'array':
            return [self.zero(ty.elem) for _ in range(ty.n)]
        return ('opaque',)

    def gep(self, st, sty, base, idx):
        if isinstance(base, tuple) and base[0] in ('gptr', 'aptr'):
            off = base[2]
        else:
            off = base
        ty = sty
        first = True
        for t, i in idx:
            if first:
                off = off + self.signed(i, t.w).scale(ty.size())
                first = False
            elif ty.kind == 'struct':
                off = off.addc(ty.field_offset(i.cval()))
                ty = ty.elems[i.cval()]
            elif ty.kind in ('array', 'vector'):
                ty = ty.elem
                off = off + self.signed(i, t.w).scale(ty.size())
            else:
                raise Unsupported('gep into %r' % ty)
        if isinstance(base, tuple):
            return (base[0], base[1], off)
        return off

    def signed(self, p, w):
        if p.is_const():
            v = p.cval() % (1 << w)
            return C(v - (1 << w) if v >= 1 << (w - 1) else v)
        if w != 64:
            raise Unsupported('gep index width')
        return p  # address arithmetic is mod 2^64 anyway

    def jump(self, st, target):
        f = st.frames[-1][0]
        succ, preds, dom, loops = self.cfg(f)
        src = st.block
        # leave loops that do not contain target
        while st.loops and st.loops[-1][0] == f.name and target not in loops[st.loops[-1][1]]:
            st.loops.pop()
        phis = [i for i in f.blocks[target] if i.op == 'phi']
        vals = {}
        for ph in phis:
            for v, lab in ph.x['inc']:
                if lab == src:
                    vals[ph.res] = self.val(st, ph.ty, v)
                    break
            else:
                raise Unsupported('phi without incoming edge')
        if target in loops and self.sampler is not None:
            self.sampler(st, (f.name, target), vals)
            self.unrolled += 1
            if self.unrolled > 20000:
                raise Unsupported('concrete run too long')
        elif target in loops:
            key = (f.name, target)
            active = any(l == key for l in st.loops)
            if key in self.need_inv:
                if active:
                    self.check_inv(st, f, target, phis, vals, 'preservation')
                    return None
                self.check_inv(st, f, target, phis, vals, 'initiation')
                self.havoc(st, f, target, phis, loops)
                st.loops.append(key)
                st.block, st.prev, st.pc = target, src, len(phis)
                return st
            else:
                if not active:
                    st.loops.append(key)
                    st.unroll[key] = 0
                else:
                    st.unroll[key] += 1
                    if st.unroll[key] > self.opts.get('maxunroll', 300):
                        raise NeedInvariant(key)
        for r, v in vals.items():
            st.env[r] = v
        st.prev, st.block, st.pc = src, target, len(phis)
        st.trail.append(target[:40])
        return st

    # ------------------------------------------------------------------ loops
    def loop_effects(self, f, header, loops):
        slots = set()
        for b in loops[header]:
            for i in f.blocks[b]:
                if i.op == 'call':
                    if i.x['callee'] == '@vg_set':
                        a = i.args[0][1]
                        if a[0] != 'int':
                            raise Unsupported('ghost slot not constant')
                        slots.add(a[1])
                    elif i.x['callee'] == '@vc_expect':
                        slots.update((200, 201, 202, 203))
                    elif i.x['callee'] in self.mod.funcs:
                        slots.add('all')
                elif i.op == 'store':
                    if self.memtrack:
                        slots.add(200)
        return slots

    def touch(self, st, obj):
        """a store to a local object: every loop around it has to know"""
        if self.sampler is not None:
            return
        o = self.origin[obj]
        new = False
        for l in st.loops:
            if l in self.need_inv and o not in self.wobj.setdefault(l, set()):
                self.wobj[l].add(o)
                new = True
        if new:
            raise Restart()

    def havoc(self, st, f, header, phis, loops):
        for ph in phis:
            nm = ph.res.strip('%"')[:24]
            if ph.ty.kind == 'int' and ph.ty.w == 1:
                st.env[ph.res] = ne(self.fresh(nm, 1), C(0))
            elif ph.ty.kind == 'int':
                st.env[ph.res] = self.fresh(nm, ph.ty.w)
            elif ph.ty.kind == 'ptr':
                st.env[ph.res] = self.fresh(nm, 64)
            else:
                raise Unsupported('phi type')
        slots = self.loop_effects(f, header, loops)
        for s in list(st.ghosts):
            if s in slots or 'all' in slots:
                st.ghosts[s] = self.fresh('g%s' % s, 64)
        for s in slots:
            if s != 'all' and s not in st.ghosts:
                st.ghosts[s] = self.fresh('g%s' % s, 64)
        # the local objects some path through the loop stores to (found by exploring; see touch)
        written = self.wobj.get((f.name, header), ())
        for k in list(st.mem):
            if self.origin.get(k[0]) in written:
                v, w = st.mem[k]
                if isinstance(v, Poly):
                    st.mem[k] = (self.fresh('mem', w), w)
                elif w == 1:
                    st.mem[k] = (ne(self.fresh('mem', 1), C(0)), w)
                else:
                    st.mem[k] = (('opaque', 'changed in a loop'), w)
        view = self.view(st)
        # use the invariants 'ghost == variable' and 'ghost == variable + 1' as definitions of the ghost
        hav = {('g', s) for s in st.ghosts if s in slots or 'all' in slots}
        done = set()
        for c in self.inv.get((f.name, header), []):
            if len(c) > 2 and c[2][0] in ('eq', 'eq+1'):
                k, a, b = c[2]
                if a in hav and a not in done and b[0] in 'vc':
                    v = view(b)
                    if isinstance(v, Poly):
                        st.ghosts[a[1]] = v + C(1) if k == 'eq+1' else v
                        done.add(a)
                elif b in hav and b not in done and a[0] in 'vc' and k == 'eq':
                    v = view(a)
                    if isinstance(v, Poly):
                        st.ghosts[b[1]] = v
                        done.add(b)
        for c in self.inv.get((f.name, header), []):
            b = c[1](view)
            if b is not None:
                self.assume(st, b)

    def view(self, st, over=None):
        def get(term):
            if term[0] == 'c':
                return C(term[1])
            if term[0] == 'g':
                return st.ghosts.get(term[1])
            if term[0] == 'd':
                x, y = get(term[1]), get(term[2])
                return x - y if isinstance(x, Poly) and isinstance(y, Poly) else None
            if over is not None and term[1] in over:
                v = over[term[1]]
            else:
                v = st.env.get(term[1])
            if v is None or not isinstance(v, (Poly, bool, tuple)):
                return None
            if isinstance(v, Poly):
                return self.obs(st, v, 64)
            if isinstance(v, tuple) and v[0] in ('gptr', 'aptr', 'float', 'opaque'):
                return None
            return ('B', v)
        return get

    def check_inv(self, st, f, header, phis, vals, what):
        key = (f.name, header)
        view = self.view(st, vals)
        cands = self.inv.get(key, [])
        if self.mode == 'infer':
            alive = []
            for c in cands:
                b = c[1](view)
                if b is None or b is False:
                    self.dropped = True
                    continue
                alive.append((c, b))
            bad = self.pr.filter(st.facts, [b for _, b in alive])
            keep = []
            for (c, b), isbad in zip(alive, bad):
                if isbad:
                    self.dropped = True
                else:
                    keep.append(c)
            self.inv[key] = keep
        else:
            bs = [c[1](view) for c in cands]
            if all(b is not None for b in bs):
                st_, _ = self.pr.prove(st.facts, band(*bs))
                if st_ == 'proved':
                    for c in cands:
                        self.obligations.append(dict(name='loop invariant %s: %s' % (what, c[0]), kind='invariant-' + what,
                                                     line=None, status='proved', t=0))
                    return
            for c, b in zip(cands, bs):
                if b is None:
                    b = False
                self.oblige(st, 'loop invariant %s: %s' % (what, c[0]), b, 'invariant-' + what)

    # ------------------------------------------------------------------ step
    def step(self, st):
        f = st.frames[-1][0]
        ins = f.blocks[st.block][st.pc]
        op = ins.op
        if op == 'br':
            if len(ins.x['targets']) == 1:
                return self.jump(st, ins.x['targets'][0])
            ty = ir.Ty('int', 1)
            c = self.val(st, ty, ins.args[0])
            succ, preds, dom, loops = self.cfg(f)
            if not isinstance(c, bool) and self.known(st, c) is None:
                # undecided exit/branch of a loop under unrolling -> needs an invariant
                for l in reversed(st.loops):
                    if l[0] == f.name and l not in self.need_inv:
                        ts = ins.x['targets']
                        body = loops[l[1]]
                        if any(t not in body for t in ts) or st.unroll.get(l, 0) > 40:
                            # try the solver first
                            if self.pr.prove(st.facts, c, quick=True)[0] == 'proved':
                                self.assume(st, c)
                            elif self.pr.prove(st.facts, bnot(c), quick=True)[0] == 'proved':
                                self.assume(st, bnot(c))
                            elif not self.opts.get('forkloops'):
                                raise NeedInvariant(l)
            d = self.decide(st, c)
            return self.jump(st, ins.x['targets'][0 if d else 1])
        if op == 'switch':
            v = self.val(st, ins.ty, ins.args[0])
            v = self.obs(st, v, ins.ty.w)
            for cv, tgt in ins.x['cases']:
                if self.decide(st, eq(v, C(cv % (1 << ins.ty.w)))):
                    return self.jump(st, tgt)
            return self.jump(st, ins.x['default'])
        if op == 'ret':
            rv = self.val(st, ins.ty, ins.args[0]) if ins.args else None
            fr = st.frames[-1]
            if len(st.frames) == 1:
                self.covered.add('ret')
                return None
            st.frames = st.frames[:-1]
            _, saved, callins = fr
            env, block, prev, pc, lps = saved
            st.env, st.block, st.prev, st.pc = dict(env), block, prev, pc + 1
            st.loops = list(lps)
            if callins.res:
                st.env[callins.res] = rv
            return st
        if op == 'unreachable':
            self.oblige(st, 'unreachable code is not reached', False, 'unreachable')
            return None
        r = self.exec(st, ins)
        if r is PUSHED:
            return st
        if ins.res is not None:
            st.env[ins.res] = r
        st.pc += 1
        return st

    def exec(self, st, ins):
        op = ins.op
        m = getattr(self, 'x_' + op, None)
        if m:
            return m(st, ins)
        if op in ('add', 'sub', 'mul', 'udiv', 'urem', 'sdiv', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'):
            return self.x_bin(st, ins)
        raise Unsupported(ins.text.strip()[:160])

    def x_bin(self, st, ins):
        ty = ins.ty
        if ty.kind != 'int':
            raise Unsupported(ins.text.strip()[:120])
        w = ty.w
        a, b = self.val(st, ty, ins.args[0]), self.val(st, ty, ins.args[1])
        op = ins.op
        if w == 1:
            if op == 'and' or op == 'mul':
                return band(a, b)
            if op == 'or':
                return bor(a, b)
            if op in ('xor', 'add', 'sub'):
                return bnot(iff(a, b)) if not isinstance(b, bool) else (bnot(a) if b else a)
            raise Unsupported(ins.text.strip()[:120])
        return self.binop(st, op, a, b, w, ins.x.get('flags', ()))

    def binop(self, st, op, a, b, w, flags=()):
        M = 1 << w
        if op == 'add':
            return a + b
        if op == 'sub':
            return a - b
        if op == 'mul':
            return a * b
        if op == 'shl':
            bo = self.obs(st, b, w)
            if bo.is_const():
                if self.multi(a):
                    k = bo.cval()
                    return self.from_fields(st, [(p + k, n, v, sb) for p, n, v, sb in self.mask_fields(self.fieldreg[a.key()], (M - 1) >> k)], w)
                return a.scale(1 << bo.cval())
            return a * self.pow2(st, bo, w)
        if op in ('udiv', 'urem'):
            a, b = self.obs(st, a, w), self.obs(st, b, w)
            if b.is_const() and b.cval() == 0:
                self.oblige(st, 'division by zero', False, 'div')
                return self.fresh('div0', w)
            if not b.is_const():
                self.oblige(st, 'divisor is nonzero', lt(C(0), b), 'div')
            q, r = self.udivrem(st, a, b, w)
            return q if op == 'udiv' else r
        if op in ('sdiv', 'srem'):
            a, b = self.obs(st, a, w, True), self.obs(st, b, w, True)
            if not b.is_const():
                self.oblige(st, 'divisor is nonzero', ne(C(0), b), 'div')
            sa = self.decide(st, le(C(0), a))
            sb = self.decide(st, le(C(0), b))
            q, r = self.zdivrem(st, a if sa else -a, b if sb else -b, nonneg=True)
            if op == 'sdiv':
                return q if sa == sb else -q
            return r if sa else -r
        if op == 'lshr':
            bo = self.obs(st, b, w)
            if bo.is_const() and self.multi(a):
                k = bo.cval()
                return self.from_fields(st, [(p - k, n, v, sb) for p, n, v, sb in self.mask_fields(self.fieldreg[a.key()], (M - 1) >> k << k)], w)
            if bo.is_const() and 0 < bo.cval() < w and not a.is_const() and all(c % (1 << bo.cval()) == 0 for c in a.t.values()):
                # (x * 2^k mod 2^w) / 2^k == x mod 2^(w-k)
                return self.obs(st, Poly({m: c >> bo.cval() for m, c in a.t.items()}), w - bo.cval())
            a = self.obs(st, a, w)
            if bo.is_const():
                q, r = self.udivrem(st, a, C(1 << bo.cval()), w)
                if not q.is_const() and q.key() not in self.fieldreg:
                    self.fieldreg[q.key()] = [(p - bo.cval(), n, v, sb) for p, n, v, sb in self.mask_fields(self.fieldreg.get(a.key()) or [(0, w, a, 0)], (M - 1) >> bo.cval() << bo.cval())]
                return q
            q, r = self.udivrem(st, a, self.pow2(st, bo, w), w)
            return q
        if op == 'ashr':
            bo = self.obs(st, b, w)
            if bo.is_const() and 0 < bo.cval() < w and not a.is_const() and all(c % (1 << bo.cval()) == 0 for c in a.t.values()):
                return self.obs(st, Poly({m: c >> bo.cval() for m, c in a.t.items()}), w - bo.cval(), True)
            a = self.obs(st, a, w, True)
            if bo.is_const():
                q, r = self.zdivrem(st, a, C(1 << bo.cval()))
                return q
        if op in ('and', 'or', 'xor'):
            ca, cb = a.is_const(), b.is_const()
            if ca and not cb:
                a, b, ca, cb = b, a, cb, ca
            if ca and cb:
                x, y = a.cval() % M, b.cval() % M
                return C({'and': x & y, 'or': x | y, 'xor': x ^ y}[op])
            if op == 'or' and not ca and not cb and (self.multi(a) or self.multi(b)):
                m = self.merge_fields(self.fields(st, a, w), self.fields(st, b, w))
                if m is not None:
                    return self.from_fields(st, m, w)
            if op == 'and' and cb and self.multi(a):
                return self.from_fields(st, self.mask_fields(self.fieldreg[a.key()], b.cval() % M), w)
            if op == 'or' and 'disjoint' in flags:
                r = a + b
                fa, fb = self.fieldreg.get(a.key()), self.fieldreg.get(b.key())
                if fa and fb:
                    m = self.merge_fields(fa, fb)
                    if m is not None:
                        return self.from_fields(st, m, w)
                return r
            if cb:
                c = b.cval() % M
                if op == 'xor' and c == M - 1:
                    return C(-1) - a
                if op == 'or' and c == 0 or op == 'xor' and c == 0:
                    return a
                if op == 'and':
                    if c == 0:
                        return C(0)
                    if (c + 1) & c == 0:  # low mask
                        ao = self.obs(st, a, w)
                        q, r = self.udivrem(st, ao, C(c + 1), w)
                        if not r.is_const() and r.key() not in self.fieldreg:
                            self.fieldreg[r.key()] = self.mask_fields(self.fieldreg.get(ao.key()) or [(0, w, ao, 0)], c)
                        return r
                    nc = (M - 1) ^ c
                    if (nc + 1) & nc == 0:  # high mask
                        ao = self.obs(st, a, w)
                        q, r = self.udivrem(st, ao, C(nc + 1), w)
                        return ao - r
                    lowz = (c & -c)
                    if ((c // lowz) + 1) & (c // lowz) == 0:  # contiguous field
                        ao = self.obs(st, a, w)
                        q, r = self.udivrem(st, ao, C(lowz), w)
                        q2, r2 = self.udivrem(st, q, C(c // lowz + 1), w)
                        r = r2.scale(lowz)
                        if not r.is_const() and r.key() not in self.fieldreg:
                            self.fieldreg[r.key()] = self.mask_fields(self.fieldreg.get(ao.key()) or [(0, w, ao, 0)], c)
                        return r
                    return self.from_fields(st, self.mask_fields(self.fields(st, a, w), c), w)
                lowz = c & -c
                if op in ('or', 'xor') and ((c // lowz) + 1) & (c // lowz) == 0:  # contiguous field, kept apart
                    ao = self.obs(st, a, w)
                    q = ao if lowz == 1 else self.udivrem(st, ao, C(lowz), w)[0]
                    q2, r2 = self.udivrem(st, q, C(c // lowz + 1), w)
                    return ao - r2.scale(lowz if op == 'or' else 2 * lowz) + C(c)
            if not ca and not cb and a == b:
                return a if op != 'xor' else C(0)
            if op == 'and':
                # x & -x etc. not modelled
                pass
            r = self.fresh('bit', w)
            ao, bo = self.obs(st, a, w), self.obs(st, b, w)
            # sound over-approximation
            if op == 'and':
                self.assume(st, band(le(r, ao), le(r, bo)))
            elif op == 'or':
                self.assume(st, band(le(ao, r), le(bo, r), le(r, ao + bo)))
            else:
                self.assume(st, le(r, ao + bo))
            return r
        raise Unsupported('binop ' + op)

    # -- values known as sums of bit fields of other values: [(position, length, source, first source bit)], disjoint
    def fields(self, st, a, w):
        f = self.fieldreg.get(a.key())
        if f is not None:
            return f
        ao = self.obs(st, a, w)
        return self.fieldreg.get(ao.key()) or [(0, w, ao, 0)]

    def mask_fields(self, f, c):
        out = []
        for pos, ln, src, sb in f:
            i = 0
            while i < ln:
                if not (c >> (pos + i)) & 1:
                    i += 1
                    continue
                j = i
                while j < ln and (c >> (pos + j)) & 1:
                    j += 1
                out.append((pos + i, j - i, src, sb + i))
                i = j
        return out

    def from_fields(self, st, f, w):
        # canonical: split where sources differ, merge neighbours
        f = sorted((x for x in f if x[1] > 0), key=lambda x: x[0])
        m = []
        for pos, ln, src, sb in f:
            if m and m[-1][0] + m[-1][1] == pos and m[-1][2] == src and m[-1][3] + m[-1][1] == sb:
                m[-1] = (m[-1][0], m[-1][1] + ln, src, m[-1][3])
            else:
                m.append((pos, ln, src, sb))
        r = C(0)
        for pos, ln, src, sb in m:
            v = src
            if sb:
                v = self.udivrem(st, v, C(1 << sb), w)[0]
            if sb + ln < 64:
                v = self.udivrem(st, v, C(1 << ln), w)[1]
            r = r + v.scale(1 << pos)
        if not r.is_const():
            self.fieldreg[r.key()] = m
        return r

    def merge_fields(self, fa, fb):
        bits = {}
        for pos, ln, src, sb in fa + fb:
            for i in range(ln):
                x = (src.key(), sb + i, src)
                if pos + i in bits and bits[pos + i][:2] != x[:2]:
                    return None
                bits[pos + i] = x
        return [(p_, 1, x[2], x[1]) for p_, x in bits.items()]

    def multi(self, a):
        f = self.fieldreg.get(a.key())
        return f is not None and len(f) > 1

    def pow2(self, st, b, w):
        key = ('pow2', b.key())
        if key not in self.appcache:
            self.appcache[key] = Poly.atom(self.at.new('pow2', 1, (1 << w)))
        return self.appcache[key]

    def x_icmp(self, st, ins):
        ty = ins.ty
        pred = ins.x['pred']
        if ty.kind == 'ptr':
            a, b = self.addr(st, self.val(st, ty, ins.args[0])), self.addr(st, self.val(st, ty, ins.args[1]))
            w = 64
        elif ty.kind == 'int':
            w = ty.w
            a, b = self.val(st, ty, ins.args[0]), self.val(st, ty, ins.args[1])
            if w == 1:
                if pred == 'eq':
                    return iff(a, b)
                if pred == 'ne':
                    return bnot(iff(a, b))
                raise Unsupported('icmp i1 ' + pred)
        else:
            raise Unsupported(ins.text.strip()[:100])
        if pred in ('eq', 'ne'):
            d = a - b
            if d.is_const():
                r = d.cval() % (1 << w) == 0
                return r if pred == 'eq' else not r
            r = eq(self.obs(st, a, w), self.obs(st, b, w))
            return r if pred == 'eq' else bnot(r)
        sg = pred[0] == 's'
        a, b = self.obs(st, a, w, sg), self.obs(st, b, w, sg)
        k = pred[1:]
        return {'lt': lt(a, b), 'le': le(a, b), 'gt': lt(b, a), 'ge': le(b, a)}[k]

    def addr(self, st, v):
        if isinstance(v, Poly):
            return v
        if isinstance(v, tuple) and v[0] in ('gptr', 'aptr'):
            key = ('addr', v[0], v[1])
            if key not in self.appcache:
                self.appcache[key] = Poly.atom(self.at.new('&' + str(v[1])[:12], 4096, (1 << 47)))
            return self.appcache[key] + v[2]
        raise Unsupported('pointer value')

    def x_select(self, st, ins):
        c = self.val(st, ir.Ty('int', 1), ins.args[0])
        if ins.x['cty'].kind != 'int':
            raise Unsupported('vector select')
        a, b = self.val(st, ins.ty, ins.args[1]), self.val(st, ins.ty, ins.args[2])
        if isinstance(c, bool):
            return a if c else b
        if ins.ty.kind == 'int' and ins.ty.w == 1:
            return bor(band(c, a), band(bnot(c), b))
        return a if self.decide(st, c) else b

    def x_zext(self, st, ins):
        s = ins.x['src']
        a = self.val(st, s, ins.args[0])
        if s.kind != 'int':
            raise Unsupported(ins.text)
        if s.w == 1:
            if isinstance(a, bool):
                return C(int(a))
            k = self.known(st, a)
            if k is not None:
                return C(int(k))
            key = ('b2i', bkey(a))
            if key not in self.appcache:
                self.appcache[key] = Poly.atom(self.at.new('b2i', 0, 1))
            t = self.appcache[key]
            self.assume(st, iff(a, eq(t, C(1))))
            return t
        return self.obs(st, a, s.w)

    def x_sext(self, st, ins):
        s = ins.x['src']
        a = self.val(st, s, ins.args[0])
        if s.w == 1:
            return C(-1) if self.decide(st, a) else C(0)
        return self.obs(st, a, s.w, True)

    def x_trunc(self, st, ins):
        a = self.val(st, ins.x['src'], ins.args[0])
        if ins.ty.w == 1:
            ao = self.obs(st, a, ins.x['src'].w)
            q, r = self.udivrem(st, ao, C(2), 64)
            return eq(r, C(1))
        return a

    def x_ptrtoint(self, st, ins):
        return self.addr(st, self.val(st, ins.x['src'], ins.args[0]))

    def x_inttoptr(self, st, ins):
        return self.val(st, ins.x['src'], ins.args[0])

    def x_bitcast(self, st, ins):
        return self.val(st, ins.x['src'], ins.args[0])

    def x_freeze(self, st, ins):
        return self.val(st, ins.ty, ins.args[0])

    def x_getelementptr(self, st, ins):
        base = self.val(st, ins.args[0][0], ins.args[0][1])
        return self.gep(st, ins.ty, base, [(t, self.val(st, t, v)) for t, v in ins.args[1:]])

    def x_extractvalue(self, st, ins):
        v = self.val(st, ins.ty, ins.args[0])
        for i in ins.x['idx']:
            v = v[i]
        return v

    def x_insertvalue(self, st, ins):
        v = self.val(st, ins.ty, ins.args[0])
        e = self.val(st, ins.x['ety'], ins.args[1])

        def ins_(v, idx):
            v = list(v)
            v[idx[0]] = e if len(idx) == 1 else ins_(v[idx[0]], idx[1:])
            return v
        return ins_(v, ins.x['idx'])

    def x_alloca(self, st, ins):
        self.fresh_n += 1
        n = self.val(st, ir.Ty('int', w=64), ins.args[0]) if ins.args else C(1)
        if isinstance(n, Poly) and n.is_const():
            self.objsize['al%d' % self.fresh_n] = ins.ty.size() * n.cval()
        self.origin['al%d' % self.fresh_n] = (st.frames[-1][0].name, ins.res)
        return ('aptr', 'al%d' % self.fresh_n, C(0))

    def bounds(self, st, p, n):
        # an access through a pointer to a local object stays inside the object
        size = self.objsize.get(p[1])
        if size is None or not p[2].is_const():
            raise Unsupported('access to a local object of unknown size')
        off = p[2].cval()
        self.nbounds += 1
        if off < 0 or off + n > size:
            self.oblige(st, 'access within the bounds of a local object (bytes %d..%d of %d)' % (off, off + n, size), False, 'bounds')
            raise Fork(False)

    def flat(self, ty, off=0):
        if ty.kind in ('int', 'ptr'):
            return [(off, ty)]
        if ty.kind == 'struct':
            r = []
            for i, e in enumerate(ty.elems):
                r += self.flat(e, off + ty.field_offset(i))
            return r
        if ty.kind == 'array':
            r = []
            for i in range(ty.n):
                r += self.flat(ty.elem, off + i * ty.elem.size())
            return r
        raise Unsupported('memory type %r' % ty)

    def x_store(self, st, ins):
        p = self.val(st, ir.Ty('ptr'), ins.args[1])
        v = self.val(st, ins.ty, ins.args[0])
        if isinstance(p, tuple) and p[0] == 'aptr':
            if not p[2].is_const():
                raise Unsupported('store at symbolic offset of a local object')
            off = p[2].cval()
            self.bounds(st, p, ins.ty.size())
            self.touch(st, p[1])
            self.store_cell(st, p[1], off, ins.ty, v)
            return None
        if isinstance(p, tuple) and p[0] == 'gptr':
            raise Unsupported('store to global')
        # memory outside of the function's locals
        if self.memtrack:
            self.tracked_store(st, p, ins.ty, v)
            return None
        if not isinstance(p, Poly):
            raise Unsupported('store through an unknown pointer')
        if self.memread:
            raise Unsupported('store to memory the contract takes as unchanging')
        return None

    def tracked_store(self, st, p, ty, v):
        # frame condition: only the announced value may be stored, and only at the announced place
        if not isinstance(p, Poly) or ty.kind not in ('int', 'ptr') or not isinstance(v, (Poly, bool)):
            raise Unsupported('store of this type to tracked memory')
        w = ty.w if ty.kind == 'int' else 64
        g = st.ghosts
        goal = band(eq(self.obs(st, p, 64), g[201]), band(eq(g[203], C(ty.size())), eq(self.obs(st, v, w), g[202])))
        self.oblige(st, 'a store to memory has the announced address, width and value', goal, 'store')
        g[200] = C(1)

    def store_cell(self, st, obj, off, ty, v):
        if ty.kind in ('struct', 'array'):
            elems = ty.elems if ty.kind == 'struct' else [ty.elem] * ty.n
            for i, e in enumerate(elems):
                o = ty.field_offset(i) if ty.kind == 'struct' else i * ty.elem.size()
                self.store_cell(st, obj, off + o, e, v[i])
            return
        self.clear_cells(st, obj, off, ty.size())
        st.mem[(obj, off)] = (v, ty.w if ty.kind == 'int' else 64)

    @staticmethod
    def clear_cells(st, obj, off, n):
        for (o2, k) in list(st.mem):
            if o2 == obj:
                w2 = st.mem[(o2, k)][1]
                if k < off + n and off < k + max(1, (w2 + 7) // 8):
                    del st.mem[(o2, k)]

    def load_cell(self, st, obj, off, ty):
        if ty.kind in ('struct', 'array'):
            elems = ty.elems if ty.kind == 'struct' else [ty.elem] * ty.n
            return [self.load_cell(st, obj, off + (ty.field_offset(i) if ty.kind == 'struct' else i * ty.elem.size()), e)
                    for i, e in enumerate(elems)]
        w = ty.w if ty.kind == 'int' else 64
        c = st.mem.get((obj, off))
        if c is not None:
            if c[1] == w:
                return c[0]
            raise Unsupported('load of different width')
        for (o2, k) in st.mem:
            if o2 == obj:
                w2 = st.mem[(o2, k)][1]
                if k < off + ty.size() and off < k + max(1, (w2 + 7) // 8):
                    raise Unsupported('overlapping load')
        return self.undef(ty)

    def gbytes(self, g):
        e = self.mod.globals.get(g)
        if not e or not e['const'] or e['init'] is None:
            raise Unsupported('global ' + g)
        out = {}

        def put(ty, v, off):
            if v[0] == 'str':
                for i, c in enumerate(v[1]):
                    out[off + i] = (8, c)
            elif v[0] == 'int':
                out[off] = (ty.w if ty.kind == 'int' else 64, v[1])
            elif v[0] == 'zero':
                for o, t in self.flat(ty, off):
                    out[o] = (t.w if t.kind == 'int' else 64, 0)
            elif v[0] == 'agg':
                for i, (t, x) in enumerate(v[1]):
                    put(t, x, off + (ty.field_offset(i) if ty.kind == 'struct' else i * ty.elem.size()))
            elif v[0] == 'undef':
                pass
            else:
                raise Unsupported('global init')
        put(e['ty'], e['init'], 0)
        return out

    def x_load(self, st, ins):
        p = self.val(st, ir.Ty('ptr'), ins.args[0])
        ty = ins.ty
        if isinstance(p, tuple) and p[0] == 'aptr':
            if not p[2].is_const():
                raise Unsupported('load at symbolic offset of a local object')
            self.bounds(st, p, ty.size())
            return self.load_cell(st, p[1], p[2].cval(), ty)
        if isinstance(p, tuple) and p[0] == 'gptr':
            if not p[2].is_const():
                raise Unsupported('load at symbolic offset of a global')
            t = self.gbytes(p[1])
            o = p[2].cval()
            if o in t and ty.kind == 'int' and t[o][0] == ty.w:
                return bool(t[o][1]) if ty.w == 1 else C(t[o][1])
            raise Unsupported('global load')
        if self.memtrack:
            raise Unsupported('load from tracked memory')
        if self.memread and (ty.kind == 'ptr' or ty.kind == 'int' and ty.w > 1):
            # unchanging memory: a function of the address (aligned access of one width per contract)
            w = ty.w if ty.kind == 'int' else 64
            return self.app(st, 'vmem%d' % w, [self.obs(st, p, 64)], (1 << w) - 1)[0]
        return self.undef(ty)

    # ------------------------------------------------------------------ calls
    def x_call(self, st, ins):
        name = ins.x['callee']
        if name.startswith('@'):
            name = name[1:].strip('"')
        h = getattr(self, 'c_' + name.replace('.', '_'), None)
        if h is None and name.startswith('llvm.'):
            base = re.sub(r'(\.(i\d+|p0|v\d+i\d+|sl_\w+))+$', '', name)
            h = getattr(self, 'c_' + base.replace('.', '_'), None)
        args = None
        if h:
            args = [self.val(st, t, v) for t, v in ins.args if t.kind != 'metadata']
            return h(st, ins, args)
        if name.startswith('llvm.'):
            if any(name.startswith(p) for p in ('llvm.lifetime', 'llvm.dbg', 'llvm.experimental.noalias', 'llvm.donothing',
                                                'llvm.stacksave', 'llvm.stackrestore', 'llvm.invariant', 'llvm.prefetch')):
                return None
            raise Unsupported(name)
        f = self.mod.funcs.get('@' + name) or self.mod.funcs.get(ins.x['callee'])
        if f is not None:
            if len(st.frames) > 40:
                raise Unsupported('call depth')
            args = [self.val(st, t, v) for t, v in ins.args]
            saved = (dict(st.env), st.block, st.prev, st.pc, list(st.loops))
            st.frames = st.frames + [(f, saved, ins)]
            st.env = {nm: a for (ty, nm), a in zip(f.params, args)}
            st.block, st.prev, st.pc = f.entry, None, 0
            self.inlined.add(f.name)
            return PUSHED
        raise Unsupported('call to ' + name)

    # contract vocabulary
    def c_vc_requires(self, st, ins, a):
        self.assume(st, a[0])
        if a[0] is False or (self.sampler is None and self.known(st, bnot(a[0]))):
            raise Fork(False)
        return None

    def c_vc_ensures(self, st, ins, a):
        line = a[0].cval()
        self.covered.add(line)
        self.oblige(st, 'line %d' % line, a[1], 'ensures', line)

    def c_vc_case(self, st, ins, a):
        if self.sampler is not None:
            if a[1] is not self.case_bits[a[0].cval()]:
                raise Fork(False)
            return None
        k = a[0].cval()
        while len(self.case_bits) <= k:
            self.case_bits.append(True)
        b = a[1] if self.case_bits[k] else bnot(a[1])
        self.assume(st, b)
        if b is False or not self.pr.feasible(st.facts):
            raise Fork(False)
        return None

    def c_vc_reach(self, st, ins, a):
        self.covered.add(a[0].cval())

    def c_vz_u(self, st, ins, a):
        return self.obs(st, a[0], 64)

    def c_vz_s(self, st, ins, a):
        return self.obs(st, a[0], 64, True)

    def c_vz_add(self, st, ins, a):
        return a[0] + a[1]

    def c_vz_sub(self, st, ins, a):
        return a[0] - a[1]

    def c_vz_mul(self, st, ins, a):
        return a[0] * a[1]

    def c_vz_div(self, st, ins, a):
        if a[0].is_const() and a[1].is_const() and a[1].cval() > 0:
            return C(a[0].cval() // a[1].cval())
        return self.zdivrem(st, a[0], a[1], nonneg=self.nonneg(st, a[0]))[0]

    def c_vz_mod(self, st, ins, a):
        if a[0].is_const() and a[1].is_const() and a[1].cval() > 0:
            return C(a[0].cval() % a[1].cval())
        return self.zdivrem(st, a[0], a[1], nonneg=self.nonneg(st, a[0]))[1]

    def nonneg(self, st, p):
        # the nonneg flag of the quotient atom is only set when known for every path: syntactic
        return all(c >= 0 and all(self.at.nonneg[x] for x in m) for m, c in p.t.items())

    def c_vz_ite(self, st, ins, a):
        if isinstance(a[0], bool):
            return a[1] if a[0] else a[2]
        return a[1] if self.decide(st, a[0]) else a[2]

    def c_vz_eq(self, st, ins, a):
        return eq(a[0], a[1])

    def c_vz_le(self, st, ins, a):
        return le(a[0], a[1])

    def c_vz_lt(self, st, ins, a):
        return lt(a[0], a[1])

    def c_vb_and(self, st, ins, a):
        return band(a[0], a[1])

    def c_vb_or(self, st, ins, a):
        return bor(a[0], a[1])

    def c_vb_not(self, st, ins, a):
        return bnot(a[0])

    def c_vb_id(self, st, ins, a):
        return a[0]

    def c_vg_get(self, st, ins, a):
        s = a[0].cval()
        if s not in st.ghosts:
            st.ghosts[s] = C(0)
        return st.ghosts[s]

    def c_vg_set(self, st, ins, a):
        st.ghosts[a[0].cval()] = self.obs(st, a[1], 64)

    # abstract structure
    def app(self, st, fn, args, hi):
        if self.sampler is not None:
            if fn.startswith('abs_size'):
                r = C(1)
                for x in args:
                    r = r * x
                return r, False
            return C(hash(tuple(x.cval() for x in args)) % 100003), False
        key = (fn,) + tuple(x.key() for x in args)
        if key not in self.appcache:
            self.appcache[key] = Poly.atom(self.at.new(fn, 0, hi))
        r = self.appcache[key]
        if any(x[0] == key for x in st.apps):
            return r, False
        for (k2, fn2, args2, r2) in st.apps:
            if fn2 == fn and len(args2) == len(args):
                self.assume(st, implies(band(*[eq(x, y) for x, y in zip(args, args2)]), eq(r, r2)))
        st.apps.append((key, fn, args, r))
        return r, True

    def abs_off(self, st, a, code):
        id_, E, l, i = a[0].cval(), a[1], a[2:5], a[5:8]
        if self.sampler is not None:
            return ((i[0] * l[1] + i[1]) * l[2] + i[2]) * E
        rng = band(*[band(lt(x, y), le(C(0), x)) for x, y in zip(i, l)])
        if code and (id_ < 100 or id_ >= 200):
            for k in range(3):
                self.oblige(st, 'sub-structure call precondition: index %d within its length' % k, lt(i[k], l[k]), 'callee-pre')
        prev = [x for x in st.apps if x[1] == 'abs_off%d' % id_]
        r, new = self.app(st, 'abs_off%d' % id_, [E] + l + i, (1 << 64) - 1)
        if new and id_ < 200:
            s, _ = self.app(st, 'abs_size%d' % id_, [E] + l, (1 << 64) - 1)
            self.assume(st, implies(rng, le(r + E, s)))
            for (k2, fn2, a2, r2) in prev:
                E2, l2, i2 = a2[0], a2[1:4], a2[4:7]
                rng2 = band(*[band(lt(x, y), le(C(0), x)) for x, y in zip(i2, l2)])
                same = band(*[eq(x, y) for x, y in zip(l, l2)])
                diff = bor(*[ne(x, y) for x, y in zip(i, i2)])
                self.assume(st, implies(band(rng, rng2, same, diff, eq(E, E2)), bor(le(r + E, r2), le(r2 + E, r))))
        return r

    def c_abs_off(self, st, ins, a):
        return self.abs_off(st, [a[0]] + [self.obs(st, x, 64) for x in a[1:]], True)

    def c_vz_abs_off(self, st, ins, a):
        return self.abs_off(st, a, False)

    def c_abs_size(self, st, ins, a):
        r, _ = self.app(st, 'abs_size%d' % a[0].cval(), [self.obs(st, x, 64) for x in a[1:]], (1 << 64) - 1)
        return r

    def c_vz_abs_size(self, st, ins, a):
        r, _ = self.app(st, 'abs_size%d' % a[0].cval(), list(a[1:]), (1 << 64) - 1)
        return r

    def c_vc_memory(self, st, ins, a):
        # an arbitrary address of memory that nobody writes to in this contract
        self.memread = True
        return C(4096) if self.sampler is not None else self.fresh('mem', 64)

    def c_vc_track(self, st, ins, a):
        # from here on every store outside of the contract's own objects has to be announced
        self.memtrack = True
        for k, v in ((200, 1), (201, 0), (202, 0), (203, 0)):
            st.ghosts[k] = C(v)

    def c_vc_expect(self, st, ins, a):
        line = a[0].cval()
        self.covered.add(line)
        self.oblige(st, 'line %d: the announced store has happened' % line, eq(st.ghosts[200], C(1)), 'store', line)
        st.ghosts[200], st.ghosts[201] = C(0), self.obs(st, a[1], 64)
        st.ghosts[202], st.ghosts[203] = self.obs(st, a[3], 64), a[2]

    def c_vc_expect_done(self, st, ins, a):
        line = a[0].cval()
        self.covered.add(line)
        self.oblige(st, 'line %d: the announced store has happened' % line, eq(st.ghosts[200], C(1)), 'store', line)

    def c_vu_fun(self, st, ins, a):
        r, _ = self.app(st, 'vu_fun%d' % a[0].cval(), [self.obs(st, x, 64) for x in a[1:]], (1 << 64) - 1)
        return r

    # intrinsics
    def c_llvm_assume(self, st, ins, a):
        # compiler-derived facts about the source's undefined behaviour: not used
        return None

    def minmax(self, st, ins, a, sg, mn):
        w = ins.ty.w
        x, y = self.obs(st, a[0], w, sg), self.obs(st, a[1], w, sg)
        return (x if self.decide(st, le(x, y)) else y) if mn else (y if self.decide(st, le(x, y)) else x)

    def c_llvm_umin(self, st, ins, a):
        return self.minmax(st, ins, a, False, True)

    def c_llvm_umax(self, st, ins, a):
        return self.minmax(st, ins, a, False, False)

    def c_llvm_smin(self, st, ins, a):
        return self.minmax(st, ins, a, True, True)

    def c_llvm_smax(self, st, ins, a):
        return self.minmax(st, ins, a, True, False)

    def c_llvm_abs(self, st, ins, a):
        x = self.obs(st, a[0], ins.ty.w, True)
        return x if self.decide(st, le(C(0), x)) else -x

    def c_llvm_usub_sat(self, st, ins, a):
        w = ins.ty.w
        x, y = self.obs(st, a[0], w), self.obs(st, a[1], w)
        return x - y if self.decide(st, le(y, x)) else C(0)

    def c_llvm_uadd_sat(self, st, ins, a):
        w = ins.ty.w
        x, y = self.obs(st, a[0], w), self.obs(st, a[1], w)
        return x + y if self.decide(st, le(x + y, C((1 << w) - 1))) else C((1 << w) - 1)

    def c_llvm_ucmp(self, st, ins, a):
        raise Unsupported('ucmp')

    def ovf(self, st, ins, a, f, sg):
        w = ins.ty.elems[0].w
        x, y = self.obs(st, a[0], w, sg), self.obs(st, a[1], w, sg)
        r = f(x, y)
        M = 1 << w
        lo, hi = (-(M >> 1), (M >> 1) - 1) if sg else (0, M - 1)
        return [r, bnot(band(le(C(lo), r), le(r, C(hi))))]

    def c_llvm_umul_with_overflow(self, st, ins, a):
        return self.ovf(st, ins, a, lambda x, y: x * y, False)

    def c_llvm_uadd_with_overflow(self, st, ins, a):
        return self.ovf(st, ins, a, lambda x, y: x + y, False)

    def c_llvm_usub_with_overflow(self, st, ins, a):
        return self.ovf(st, ins, a, lambda x, y: x - y, False)

    def c_llvm_sadd_with_overflow(self, st, ins, a):
        return self.ovf(st, ins, a, lambda x, y: x + y, True)

    def c_llvm_ssub_with_overflow(self, st, ins, a):
        return self.ovf(st, ins, a, lambda x, y: x - y, True)

    def c_llvm_memset(self, st, ins, a):
        p, v, n = a[0], a[1], a[2]
        if isinstance(p, tuple) and p[0] == 'aptr' and p[2].is_const() and n.is_const():
            off, nn = p[2].cval(), n.cval()
            self.bounds(st, p, nn)
            self.touch(st, p[1])
            self.clear_cells(st, p[1], off, nn)
            if v.is_const() and v.cval() == 0:
                for k in range(0, nn, 8):
                    if nn - k >= 8:
                        st.mem[(p[1], off + k)] = (C(0), 64)
                    else:
                        for j in range(nn - k):
                            st.mem[(p[1], off + k + j)] = (C(0), 8)
                return None
            return None
        raise Unsupported('memset')

    def c_llvm_memcpy(self, st, ins, a):
        d, s, n = a[0], a[1], a[2]
        if not (isinstance(d, tuple) and d[0] == 'aptr' and d[2].is_const() and n.is_const()):
            if isinstance(d, Poly) and not self.memtrack:
                return None
            raise Unsupported('memcpy')
        off, nn = d[2].cval(), n.cval()
        self.bounds(st, d, nn)
        if isinstance(s, tuple) and s[0] == 'aptr' and s[2].is_const():
            self.bounds(st, s, nn)
        # the source is read before the target is written: the two may be the same object
        if isinstance(s, tuple) and s[0] == 'aptr' and s[2].is_const():
            so = s[2].cval()
            cells = {k - so: c for (o2, k), c in st.mem.items()
                     if o2 == s[1] and so <= k and k + max(1, (c[1] + 7) // 8) <= so + nn}
        elif isinstance(s, tuple) and s[0] == 'gptr' and s[2].is_const():
            so = s[2].cval()
            cells = {k - so: (C(v), w) for k, (w, v) in self.gbytes(s[1]).items()
                     if so <= k and k + max(1, (w + 7) // 8) <= so + nn}
        else:
            raise Unsupported('memcpy source')
        self.touch(st, d[1])
        self.clear_cells(st, d[1], off, nn)
        for k, c in cells.items():
            st.mem[(d[1], off + k)] = c
        return None

    c_llvm_memmove = c_llvm_memcpy


PUSHED = object()
