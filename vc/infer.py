"""Invariant inference (Houdini) for the loops of a contract function."""
from poly import *
import symex
from symex import C


def countdown(f, body, phi):
    """the start of a counter that only decreases by one: its distance from the start is a useful term"""
    start = None
    for v, lab in phi.x['inc']:
        if lab in body:
            if v[0] != 'reg':
                return None
            for b in body:
                for i in f.blocks[b]:
                    if i.res == v[1]:
                        if not (i.op == 'add' and i.args[0] == ('reg', phi.res) and i.args[1][0] == 'int'
                                and i.args[1][1] in (-1, (1 << 64) - 1)):
                            return None
        else:
            start = ('v', v[1]) if v[0] == 'reg' else ('c', v[1]) if v[0] == 'int' else None
    return start


def candidates(ex, key):
    fname, header = key
    f = ex.mod.funcs[fname]
    succ, preds, dom, loops = ex.cfg(f)
    body = loops[header]
    terms = []
    btypes = []
    phis = []
    downs = []
    # phis of this and enclosing loops
    for h, bd in loops.items():
        if header in bd:
            for i in f.blocks[h]:
                if i.op == 'phi' and i.ty.kind in ('int', 'ptr'):
                    if i.ty.kind == 'int' and i.ty.w == 1:
                        btypes.append(('v', i.res))
                    else:
                        phis.append(('v', i.res))
                        down = countdown(f, bd, i)
                        if down is not None:
                            downs.append(('d', down, ('v', i.res)))
    phis += downs
    gs = set()
    for b in f.order:
        for i in f.blocks[b]:
            if i.op == 'call' and i.x['callee'] in ('@vg_set', '@vg_get') and i.args[0][1][0] == 'int':
                gs.add(i.args[0][1][1])
            if i.op == 'call' and i.x['callee'] == '@vc_expect':
                gs.add(200)
    ghosts = [('g', g) for g in sorted(gs)]
    args = [('v', nm) for ty, nm in f.params if ty.kind in ('int', 'ptr') and (ty.kind == 'ptr' or ty.w > 1)]
    # outer SSA values used in the loop
    defs = {}
    for b in f.order:
        for i in f.blocks[b]:
            if i.res:
                defs[i.res] = (b, i)
    used = set()

    def scan(v):
        if isinstance(v, tuple):
            if v and v[0] == 'reg':
                used.add(v[1])
            else:
                for x in v:
                    scan(x)
        elif isinstance(v, list):
            for x in v:
                scan(x)
    for b in body:
        for i in f.blocks[b]:
            scan(i.args)
            if i.op == 'phi':
                scan(i.x['inc'])
    extra = []
    for r in sorted(used):
        if r in defs:
            b, i = defs[r]
            if b in dom[header] and b not in body and i.ty is not None and i.ty.kind == 'int' and i.ty.w == 64:
                if i.op == 'call' and (i.x['callee'].startswith('@vz_') or i.x['callee'].startswith('@vg_')):
                    continue
                if i.op == 'phi' and ('v', r) in phis:
                    continue
                extra.append(('v', r))
    extra = extra[:10]
    own = [('v', i.res) for i in f.blocks[header] if i.op == 'phi' and ('v', i.res) in phis]
    movers = phis + ghosts
    others = args + extra
    cands = []

    def add(desc, fn, tag=None):
        cands.append((desc, fn, tag) if tag else (desc, fn))

    def nm(t):
        return '(%s-%s)' % (nm(t[1]), nm(t[2])) if t[0] == 'd' else str(t[1]) if t[0] != 'g' else 'ghost%s' % t[1]

    def rel(a, b, k):
        def fn(view):
            x, y = view(a), view(b)
            if not isinstance(x, Poly) or not isinstance(y, Poly):
                return None
            if k == 'eq':
                return eq(x, y)
            if k == 'le':
                return le(x, y)
            if k == 'lt':
                return lt(x, y)
            if k == 'eq+1':
                return eq(x, y + C(1))
            if k == 'le+1':
                return le(x, y + C(1))
        add('%s %s %s' % (nm(a), k, nm(b)), fn, (k, a, b))

    consts = [('c', 0), ('c', 1)]
    for i, a in enumerate(movers):
        for b in movers[i + 1:]:
            for k in ('eq',):
                rel(a, b, k)
            for k in ('le', 'lt', 'eq+1'):
                rel(a, b, k)
                rel(b, a, k)
        for b in others:
            for k in ('eq', 'le', 'lt', 'le+1'):
                rel(a, b, k)
            rel(b, a, 'le')
        for b in consts:
            rel(a, b, 'eq')
        rel(('c', 1), a, 'le')
    for a in others:
        rel(('c', 1), a, 'le')
    # affine triples: a + b == c, a + b == c + d
    tri = movers + others

    def tri_c(a, b, c, off):
        def fn(view):
            x, y, z = view(a), view(b), view(c)
            if not all(isinstance(t, Poly) for t in (x, y, z)):
                return None
            return eq(x + y, z + C(off))
        add('%s + %s == %s + %d' % (nm(a), nm(b), nm(c), off), fn)
    if ex.opts.get('triples'):
        for i, a in enumerate(movers):
            for b in tri:
                if b == a or (b in movers and movers.index(b) < i):
                    continue
                for c in tri:
                    if c in (a, b):
                        continue
                    tri_c(a, b, c, 0)
                    tri_c(a, b, c, -1)
                    tri_c(a, b, c, 1)
    if ex.opts.get('products'):
        # ghost == phi_i * len + phi_j
        def prod(g, a, b, c):
            def fn(view):
                w, x, y, z = view(g), view(a), view(b), view(c)
                if not all(isinstance(t, Poly) for t in (w, x, y, z)):
                    return None
                return eq(w, x * y + z)
            add('%s == %s*%s + %s' % (nm(g), nm(a), nm(b), nm(c)), fn)
        def capped(g, a, b, c, n):
            def fn(view):
                w, x, y, z, m = view(g), view(a), view(b), view(c), view(n)
                if not all(isinstance(t, Poly) for t in (w, x, y, z, m)):
                    return None
                p = x * y + z
                return band(implies(le(p, m), eq(w, p)), implies(le(m, p), eq(w, m)))
            add('%s == min(%s*%s + %s, %s)' % (nm(g), nm(a), nm(b), nm(c), nm(n)), fn)
        def ple(a, b, c, n):
            def fn(view):
                x, y, z, m = view(a), view(b), view(c), view(n)
                if not all(isinstance(t, Poly) for t in (x, y, z, m)):
                    return None
                return le(x * y + z, m)
            add('%s*%s + %s <= %s' % (nm(a), nm(b), nm(c), nm(n)), fn)
        for a in phis:
            for b in others:
                for c in phis + consts[:1]:
                    if a != c:
                        for n in args:
                            ple(a, b, c, n)
        for g in ghosts:
            for a in phis + extra:
                for b in others:
                    for c in phis + extra + consts[:1]:
                        if a != c:
                            prod(g, a, b, c)
                            if c in phis + consts[:1] and a in phis:
                                for n in args:
                                    if n != b:
                                        capped(g, a, b, c, n)
    for b in btypes:
        for v in (True, False):
            def fn(view, b=b, v=v):
                x = view(b)
                if not (isinstance(x, tuple) and x[0] == 'B'):
                    return None
                return x[1] if v else bnot(x[1])
            add('%s is %s' % (nm(b), v), fn)
    return cands


import random
import symex as _sx


def sample(ex, cands, runs=40, tries=4000, maxval=5):
    """drop candidates falsified by concrete executions of the IR (an inference heuristic only)"""
    rng = random.Random(12345)
    e2 = _sx.Exec(ex.mod, ex.fname, ex.at, ex.pr, dict(ex.opts))
    e2.case_bits = list(ex.case_bits)
    e2.sample_fail = []
    alive = {k: list(v) for k, v in cands.items()}

    def hook(st, key, vals):
        if key not in alive:
            return
        view = e2.view(st, vals)
        keep = []
        for c in alive[key]:
            b = c[1](view)
            if b is True or (b is None):
                keep.append(c)
        alive[key] = keep
    e2.sampler = hook
    names = [nm for ty, nm in ex.f.params]
    ok = 0
    for t in range(tries):
        e2.inputs = {nm: C(rng.randint(0, maxval + (t % 3) * 3)) for nm in names}
        e2.covered = set()
        e2.nsteps = 0
        e2.unrolled = 0
        try:
            e2.run()
        except (_sx.Unsupported, _sx.NeedInvariant):
            continue
        if 'ret' in e2.covered:
            ok += 1
            if ok >= runs:
                break
    if not ex.opts.get('noprune'):
        for k in alive:
            alive[k] = prune(alive[k])
    return alive, ok


def prune(cs):
    tags = {c[2]: c for c in cs if len(c) > 2}
    zero = {a for (k, a, b) in tags if k == 'eq' and b == ('c', 0)}
    out = []
    for c in cs:
        if len(c) > 2:
            k, a, b = c[2]
            if k != 'eq' and (('eq', a, b) in tags or ('eq', b, a) in tags):
                continue
            if k in ('le', 'le+1') and ('lt', a, b) in tags:
                continue
            if k == 'le+1' and ('le', a, b) in tags:
                continue
            if (a in zero or b in zero) and not (k == 'eq' and b == ('c', 0)):
                continue
        out.append(c)
    return out


def solve_case(ex, maxiter=60):
    """run until invariants are found; leaves ex.inv filled"""
    for _ in range(100):
        try:
            if ex.need_inv:
                ex.mode = 'infer'
                for key in ex.need_inv:
                    if key not in ex.inv:
                        ex.inv[key] = candidates(ex, key)
                ex.inv, ex.samples = sample(ex, ex.inv)
                for it in range(maxiter):
                    ex.dropped = False
                    ex.nsteps = 0
                    ex.run()
                    if not ex.dropped:
                        break
                else:
                    raise symex.Unsupported('invariant inference did not converge')
            ex.mode = 'verify'
            n0 = len(ex.obligations)
            ex.nsteps = 0
            ex.run()
            return
        except symex.NeedInvariant as n:
            ex.need_inv.add(n.header)
            ex.inv = {}
        except symex.Restart:
            ex.inv = {}
    raise symex.Unsupported('too many loops')


def solve(ex):
    """all combinations of the contract's case splits"""
    import itertools
    ex.case_bits = []
    obs = []
    paths = 0
    cov = set()
    ex.allinv = []
    solve_case(ex)
    n = len(ex.case_bits)
    combos = list(itertools.product([True, False], repeat=n))
    for c in combos:
        if c != combos[0]:
            ex.case_bits = list(c)
            ex.need_inv, ex.inv = set(), {}
            ex.obligations = []
            solve_case(ex)
        obs += ex.obligations
        paths += ex.npaths
        ex.allinv.append((c, {k: [x[0] for x in v] for k, v in ex.inv.items()}))
    ex.obligations = obs
    ex.npaths = paths
