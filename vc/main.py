#!/usr/bin/env python3
"""check driver:  main.py <PROPERTY> [--tier quick|thorough] [--only ct_name,...] [-v]"""
import argparse
import concurrent.futures as cf
import glob
import hashlib
import json
import multiprocessing as mp
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('NOARR_REPO', '/repo')
CON = os.path.join(VERIF, 'contracts')
sys.path.insert(0, HERE)
CXX = 'clang++-18' if shutil.which('clang++-18') else 'clang++'
COMMON = ['-std=c++20', '-I' + os.path.join(REPO, 'include'), '-I' + CON, '-I' + os.path.join(CON, 'stub'), '-w']
IRFLAGS = ['-O2', '-fno-discard-value-names', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-fno-exceptions',
           '-fno-strict-aliasing', '-mllvm', '-inline-threshold=200000', '-mllvm', '-inlinehint-threshold=200000', '-S',
           '-emit-llvm']


def extra_assumptions(pid):
    try:
        return json.load(open(os.path.join(VERIF, 'assumptions.json'))).get(pid, [])
    except OSError:
        return []


def run1(cmd):
    # a run that overwrites its own memory may ignore its time limit
    try:
        return sh(cmd, timeout=40)
    except subprocess.TimeoutExpired:
        return subprocess.CompletedProcess(cmd, 9, '', '')


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, errors="replace", **kw)


# ---------------------------------------------------------------- building
def build_ir(src, out, defs):
    return sh([CXX] + COMMON + defs + IRFLAGS + [src, '-o', out])


ASAN_ENV = ['env', 'ASAN_OPTIONS=abort_on_error=1:handle_abort=0:detect_leaks=0:detect_stack_use_after_return=0:use_sigaltstack=0']


def build_native(src, work, names, defs, san=False):
    base = os.path.splitext(os.path.basename(src))[0] + ('_san' if san else '')
    fl = ['-fsanitize=address', '-O0', '-g'] if san else ['-O1']
    gen = os.path.join(work, base + '_tab.cpp')
    with open(gen, 'w') as f:
        for n, k in names:
            f.write('extern "C" void %s(%s);\n' % (n, ','.join(['unsigned long'] * k)))
        f.write('struct entry { const char* name; int nargs; void* fn; };\nextern entry vc_table[]; entry vc_table[] = {\n')
        for n, k in names:
            f.write('{"%s",%d,(void*)&%s},\n' % (n, k, n))
        f.write('{nullptr,0,nullptr}};\n')
    o1 = os.path.join(work, base + '.o')
    p = sh([CXX] + COMMON + defs + fl + ['-fno-exceptions', '-c', src, '-o', o1])
    if p.returncode:
        return None, p.stderr
    exe = os.path.join(work, base + '_drv')
    nat = os.path.join(work, 'native.o')
    p = sh([CXX, '-std=c++20', '-w'] + fl + [gen, o1, nat, '-o', exe])
    if p.returncode:
        return None, p.stderr
    return exe, ''


def covered_functions(src, defs):
    """noarr functions whose real bodies are reachable from the contracts of a TU (from unoptimised IR)"""
    p = sh([CXX] + COMMON + defs + ['-O0', '-fno-exceptions', '-S', '-emit-llvm', src, '-o', '-'])
    if p.returncode:
        return set()
    funcs = {}
    cur = None
    for l in p.stdout.split('\n'):
        m = re.match(r'define .*?@("[^"]+"|[-\w$.]+)\(', l)
        if m:
            cur = m.group(1).strip('"')
            funcs[cur] = set()
        elif l == '}':
            cur = None
        elif cur:
            for m in re.finditer(r'@("[^"]+"|[-\w$.]+)', l):
                funcs[cur].add(m.group(1).strip('"'))
    seen = set()
    st = [f for f in funcs if f.startswith('ct_')]
    while st:
        x = st.pop()
        if x in seen or x not in funcs:
            continue
        seen.add(x)
        st.extend(funcs[x])
    names = [x for x in seen if '5noarr' in x]
    if not names:
        return set()
    d = sh(['c++filt', '-p'], input='\n'.join(names)).stdout.split('\n')
    out = set()
    for x in d:
        # strip template arguments
        y, depth = '', 0
        x = x.replace('operator<<', 'operatorSHL').replace('operator<=', 'operatorLE').replace('operator<', 'operatorLT')
        x = x.replace('operator->', 'operatorARROW').replace('operator>', 'operatorGT')
        for c in x:
            if c == '<':
                depth += 1
            elif c == '>':
                depth -= 1
            elif depth == 0:
                y += c
        m = re.search(r'(noarr::[\w:~]+(?:operator\S*)?[^\s(]*)', y)
        if m and 'lambda' not in m.group(1):
            out.add(m.group(1))
    return out


# ---------------------------------------------------------------- verifying one contract (child process)
def verify_contract(args):
    ll, fn, opts = args
    import ir
    import symex
    import infer
    import solver
    t0 = time.time()
    res = dict(fn=fn, obligations=[], error=None, paths=0, stats={}, loops=0, inv=[], t=0, attempts=0)
    try:
        mod = ir.parse_module(open(ll).read())
        bits = opts.get('bv')
        best = None
        attempts = [dict(), dict(noprune=True), dict(triples=True), dict(triples=True, slow=True)]
        if fn.endswith('_pd'):
            attempts = [dict(products=True), dict(products=True, noprune=True), dict(products=True, triples=True), dict(products=True, triples=True, slow=True)]
        if fn.endswith('_un'):
            # loops with a small bound: every iteration explored; that no path needs more is proved (it is infeasible)
            attempts = [dict(forkloops=True), dict(forkloops=True, slow=True)]
        for k, extra in enumerate(attempts):
            if time.time() - t0 > opts['budget'] * 0.5 and best is not None:
                break
            at, stt = solver.Atoms(), solver.Stats()
            pr = solver.Prover(at, stt)
            if extra.get('slow'):
                pr.t_lia, pr.t_nia, pr.t_cvc5 = 60000, 60000, 60
            o = dict(extra)
            o['deadline'] = t0 + opts['budget']
            ex = symex.Exec(mod, fn, at, pr, o)
            err = None
            try:
                infer.solve(ex)
            except symex.Unsupported as e:
                err = str(e)
            cur = dict(fn=fn, obligations=ex.obligations, error=err, paths=getattr(ex, 'npaths', 0), loops=len(ex.need_inv),
                       inv=[[c, {str(kk): v for kk, v in iv.items()}] for c, iv in getattr(ex, 'allinv', [])],
                       stats=dict(n=stt.n, t={a: round(b, 3) for a, b in stt.t.items()}, q=stt.queries), attempts=k + 1,
                       lines=sorted(x for x in ex.covered if isinstance(x, int)))
            nbad = sum(o['status'] != 'proved' for o in ex.obligations) + (1000000 if err else 0)
            if best is None or nbad < best[0]:
                best = (nbad, cur)
            if nbad == 0:
                break
            if not ex.need_inv and not err and k < 3:
                # straight-line: only the slow attempt differs
                if all(o['status'] == 'sat' for o in ex.obligations if o['status'] != 'proved'):
                    break
                attempts[k + 1:3] = []
                continue
        res = best[1]
    except Exception:
        res['error'] = 'internal: ' + traceback.format_exc()[-1500:]
    res['t'] = round(time.time() - t0, 2)
    return res


def worker(q_in, q_out):
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    while True:
        a = q_in.get()
        if a is None:
            return
        q_out.put((a[1], verify_contract(a)))


def run_pool(tasks, jobs, hard, stop_at, after_failure=1e9):
    """run verify_contract on tasks in child processes, each with a hard time limit, and one for all together"""
    results = {}
    pend = list(tasks)
    running = []
    ctx = mp.get_context('fork')
    while pend or running:
        if time.time() > stop_at:
            for t in pend:
                results[t[1]] = dict(fn=t[1], obligations=[], error='not reached within the time limit of the whole check', paths=0, stats={}, loops=0, inv=[], t=0, attempts=0)
            pend = []
        while pend and len(running) < jobs:
            t = pend.pop(0)
            rc, wc = ctx.Pipe(False)

            def target(t=t, wc=wc):
                try:
                    import resource
                    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
                    r = verify_contract(t)
                except BaseException as e:
                    r = dict(fn=t[1], obligations=[], error='internal: %r' % e, paths=0, stats={}, loops=0, inv=[], t=0, attempts=0)
                wc.send(r)
                wc.close()
            p = ctx.Process(target=target)
            p.start()
            wc.close()
            running.append((p, rc, t, time.time()))
        nr = []
        for p, rc, t, ts in running:
            if rc.poll(0.0):
                try:
                    results[t[1]] = rc.recv()
                except EOFError:
                    results[t[1]] = dict(fn=t[1], obligations=[], error='worker died', paths=0, stats={}, loops=0, inv=[], t=0, attempts=0)
                p.join()
            elif not p.is_alive():
                results[t[1]] = dict(fn=t[1], obligations=[], error='worker died', paths=0, stats={}, loops=0, inv=[], t=0, attempts=0)
            elif time.time() - ts > t[2].get('budget', hard) + hard or time.time() > stop_at:
                p.kill()
                p.join()
                results[t[1]] = dict(fn=t[1], obligations=[], error='time limit', paths=0, stats={}, loops=0, inv=[], t=round(time.time() - ts, 1), attempts=0)
            else:
                nr.append((p, rc, t, ts))
        running = nr
        if any(r['error'] or any(o['status'] != 'proved' for o in r['obligations']) for r in results.values()):
            # the verdict is settled; name further obligations only as long as that is cheap
            stop_at = min(stop_at, time.time() + after_failure)
            after_failure = 1e9
        time.sleep(0.02)
    return results


def functions_with_loops(text):
    """contract functions whose body, or a function they call, has a cycle in its control flow"""
    import ir
    import symex
    mod = ir.parse_module(text)
    own, calls = {}, {}
    for name, f in mod.funcs.items():
        if not f.order:
            continue
        own[name] = bool(symex.cfg_info(f)[3])
        calls[name] = {i.x['callee'] for b in f.order for i in f.blocks[b] if i.op == 'call' and isinstance(i.x.get('callee'), str)}
    bad = {n for n, v in own.items() if v}
    while True:
        more = {n for n in own if n not in bad and any(c in bad or c.lstrip('@') in bad for c in calls[n])}
        if not more:
            break
        bad |= more
    return {n.lstrip('@') for n in bad}


# ---------------------------------------------------------------- main
def load_props():
    r = {}
    with open(os.path.join(VERIF, 'properties.jsonl')) as f:
        for l in f:
            if l.strip():
                d = json.loads(l)
                r[d['id']] = d
    return r


def contract_src_info(src):
    """contract name -> (first line, arg count); file text lines (macros may hide contracts -> names come from the IR)"""
    return open(src).read().split('\n')


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('--src')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    pid = a.prop
    defs = ['-DVC_THOROUGH=1'] if tier == 'thorough' else []
    if a.src:
        srcs = a.src.split(',')
    else:
        srcs = sorted(glob.glob(os.path.join(CON, pid + '.cpp')) + glob.glob(os.path.join(CON, pid + '_*.cpp')))
        if tier == 'quick':
            srcs = [s for s in srcs if not s.endswith('_thorough.cpp')]
    if not srcs:
        print('no contracts for', pid)
        return 2
    outdir = os.path.join(VERIF, 'out', pid)
    shutil.rmtree(outdir, ignore_errors=True)
    os.makedirs(outdir, exist_ok=True)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    work = tempfile.mkdtemp(prefix='vc_%s_' % pid)
    try:
        return check(a, pid, tier, seed, srcs, defs, outdir, work, t0)
    finally:
        os.environ.get("VC_KEEP") or shutil.rmtree(work, ignore_errors=True)


def known_findings():
    """entries: {"property","contract","line", "what", "status":"known"|"fixed"}"""
    r = []
    p = os.path.join(VERIF, 'known_findings.jsonl')
    if os.path.exists(p):
        for l in open(p):
            if l.strip() and not l.startswith('#'):
                r.append(json.loads(l))
    return r


def check(a, pid, tier, seed, srcs, defs, outdir, work, t0):
    jobs = min(8, os.cpu_count() or 4)
    budget = 240 if tier == 'quick' else 900
    violations = []   # (title, replay path, suffix)
    nrep = [0]

    def replay_file(obj):
        nrep[0] += 1
        p = os.path.join(outdir, 'violation_%d.json' % nrep[0])
        with open(p, 'w') as f:
            json.dump(obj, f, indent=1)
        return p

    # sanity of the environment: the toolchain works at all
    tst = os.path.join(work, 'env.cpp')
    open(tst, 'w').write('int f(int x){return x+1;}\n')
    p = sh([CXX, '-std=c++20', '-S', '-emit-llvm', tst, '-o', os.path.join(work, 'env.ll')])
    if p.returncode:
        print('ENVIRONMENT: compiler does not work:', p.stderr[:500])
        return 2
    if not os.path.isdir(os.path.join(REPO, 'include', 'noarr')):
        print('ENVIRONMENT: no', REPO)
        return 2

    # compile
    irs = {}
    natives = {}
    funcs = set()
    texts = {}
    with cf.ThreadPoolExecutor(jobs) as ex:
        nat_fut = ex.submit(sh, [CXX, '-std=c++20', '-w', '-O1', '-c', os.path.join(HERE, 'native.cpp'), '-o', os.path.join(work, 'native.o')])
        fut = {}
        cov = {}
        for s in srcs:
            b = os.path.splitext(os.path.basename(s))[0]
            fut[s] = ex.submit(build_ir, s, os.path.join(work, b + '.ll'), defs)
            cov[s] = ex.submit(covered_functions, s, defs)
        compile_errs = []
        nat = {}
        pn = nat_fut.result()
        if pn.returncode:
            print('ENVIRONMENT: native runtime does not build', pn.stderr[:2000])
            return 2
        for s in srcs:
            p = fut[s].result()
            texts[s] = open(s).read().split('\n')
            if p.returncode:
                compile_errs.append((s, p.stderr))
                continue
            ll = os.path.join(work, os.path.splitext(os.path.basename(s))[0] + '.ll')
            names = []
            for m in re.finditer(r'^define [^@\n]*@(ct_\w+)\(([^\n]*)$', open(ll).read(), re.M):
                args_ = m.group(2)
                names.append((m.group(1), len(re.findall(r'(?:i64|ptr) noundef', args_.split(') ')[0]))))
            irs[s] = (ll, names)
            nat[s] = ex.submit(build_native, s, work, names, defs)
        for s in nat:
            exe, err = nat[s].result()
            if exe is None:
                compile_errs.append((s, 'native: ' + err))
            natives[s] = exe
        for s in srcs:
            funcs |= cov[s].result()
    for s, err in compile_errs:
        rp = replay_file(dict(property=pid, kind='contract-program-does-not-compile', program=os.path.relpath(s, VERIF),
                              explanation='The contract program uses only the documented interface of the library; it compiled on the '
                              'original tree and is now rejected, so none of its obligations can be generated.',
                              command=' '.join([CXX] + COMMON + defs + ['-fsyntax-only', s]), compiler_output=err[:6000]))
        if a.v:
            print(err[:2500])
        violations.append(('%s does not compile against the tree' % os.path.basename(s), rp, False))

    # verify
    tasks = []
    src_of = {}
    for s, (ll, names) in irs.items():
        for n, k in names:
            if a.only and n not in a.only.split(','):
                continue
            src_of[n] = s
            tasks.append((ll, n, dict(budget=budget)))
    # native search in parallel with proofs: started first, cheap
    has_loop = {}

    def native_search(n, count, secs, sd):
        s = src_of[n]
        exe = natives.get(s)
        if not exe:
            return None
        try:
            p = sh([exe, 'search', n, str(sd), str(count), '1' if not has_loop.get(n) else '0', str(secs)], timeout=secs + 20)
        except subprocess.TimeoutExpired:
            return ''
        return p.stdout

    for s, (ll, names) in irs.items():
        loopy = functions_with_loops(open(ll).read())
        for n, k in names:
            has_loop[n] = n in loopy
    ncount, nsecs = (20000, 2.0) if tier == 'quick' else (400000, 20.0)
    nres = {}
    with cf.ThreadPoolExecutor(jobs) as ex:
        fs = {t[1]: ex.submit(native_search, t[1], ncount, nsecs, seed) for t in tasks}
        for n, f in fs.items():
            nres[n] = f.result()
    # where the contract already fails on a concrete input, the proof attempt only serves to name the obligation
    broken = [n for n in nres if 'FAIL' in (nres[n] or '')]
    for t in tasks:
        if t[1] in broken:
            t[2]['budget'] = 20
        elif broken:
            t[2]['budget'] = min(t[2]['budget'], 90)
    tasks.sort(key=lambda t: t[1] in broken)
    results = run_pool(tasks, jobs, 60, t0 + (180 if broken else 480) if tier == 'quick' else t0 + 7200, 100 if tier == 'quick' else 1e9)

    kn = [k for k in known_findings() if k['property'] == pid]
    known_hit = []
    total = disc = 0
    by_kind = {}
    backend = {}
    btime = {}
    vac = []
    undecided = []
    sanexe = {}
    samples_ok = 0
    for n in sorted(results, key=lambda n: (n not in broken, n)):
        r = results[n]
        s = src_of[n]
        src = texts[s]
        tot = len(r['obligations'])
        bad = [o for o in r['obligations'] if o['status'] != 'proved']
        total += tot
        disc += tot - len(bad)
        for o in r['obligations']:
            by_kind[o['kind']] = by_kind.get(o['kind'], 0) + 1
        for k, v in r.get('stats', {}).get('n', {}).items():
            backend[k] = backend.get(k, 0) + v
        for k, v in r.get('stats', {}).get('t', {}).items():
            btime[k] = round(btime.get(k, 0) + v, 2)
        out = nres.get(n) or ''
        mf = re.search(r'FAIL kind=(\d) line=(-?\d+) args=([\d,]*)', out)
        ms = re.search(r'STATS ok=(\d+) pre=(\d+) hits=(\d+) lines=([\d,]*)', out)
        okn = int(ms.group(1)) if ms else 0
        samples_ok += okn
        names = None
        if a.v:
            print('%-40s paths=%d obligations=%d bad=%d loops=%d t=%.1fs native_ok=%d %s' % (
                n, r['paths'], tot, len(bad), r['loops'], r['t'], okn, r['error'] or ''))
            for o in bad[:6]:
                print('     BAD', o['name'], o['status'], (src[o['line'] - 1].strip()[:110] if o.get('line') else ''), o.get('model'))
        if not bad and not r['error'] and not mf:
            if tot == 0:
                vac.append(n)
            if okn == 0:
                vac.append(n)
            continue

        # a failed obligation: find a concrete failing input and replay it on the real code
        argn = dict(irs[s][1])[n]
        exe = natives.get(s)
        found = None
        if exe:
            cands = []
            for o in bad:
                if o.get('model'):
                    vs = list(o['model'].values())
                    if len(vs) == argn:
                        cands.append([str(v) for v in vs])
            if mf and mf.group(3):
                cands.append(mf.group(3).split(','))
            elif mf and argn == 0:
                cands.append([])
            for c in cands[:20]:
                p = run1([exe, 'run', n] + c)
                if p.returncode == 1:
                    found = (c, p.stdout.strip())
                    break
            if not found and (tier != 'quick' or time.time() - t0 < (200 if broken else 500)):
                with cf.ThreadPoolExecutor(3) as ex:
                    outs = list(ex.map(lambda sd: native_search(n, 400000, 10.0, seed * 1000 + sd) or '', range(1, 4)))
                for o2 in outs:
                    m2 = re.search(r'FAIL kind=(\d) line=(-?\d+) args=([\d,]*)', o2)
                    if m2:
                        c = [x for x in m2.group(3).split(',') if x]
                        p = run1([exe, 'run', n] + c)
                        if p.returncode == 1:
                            found = (c, p.stdout.strip())
                            break
        sanitized = False
        if not found and exe and any(o['kind'] == 'bounds' for o in bad) and time.time() - t0 < 600:
            # an access outside of a local object: observed by an instrumented build of the same contract program
            if s not in sanexe:
                sanexe[s] = build_native(s, work, irs[s][1], defs, san=True)[0]
            if sanexe[s]:
                o2 = run1(ASAN_ENV + [sanexe[s], 'search', n, str(seed), '20000', '1', '20']).stdout
                m2 = re.search(r'FAIL kind=(\d) line=(-?\d+) args=([\d,]*)', o2)
                if m2:
                    c = [x for x in m2.group(3).split(',') if x]
                    p = run1(ASAN_ENV + [sanexe[s], 'run', n] + c)
                    if p.returncode == 1:
                        ma = re.search(r'ERROR: AddressSanitizer: ([\w-]+)', p.stderr)
                        found = (c, (p.stdout.strip() + (' ' + ma.group(1) if ma else '')))
                        sanitized = True
        fail_lines = sorted(set(o['line'] for o in bad if o.get('line')))
        if found:
            ml = re.search(r'line=(-?\d+)', found[1])
            if ml and int(ml.group(1)) > 0:
                fail_lines = sorted(set(fail_lines) | {int(ml.group(1))})
        # known finding?
        k = None
        for e in kn:
            if e.get('status') == 'known' and e.get('contract') == n and bad and not r['error'] and all(
                    o.get('line') and src[o['line'] - 1].strip() in e.get('obligations', []) for o in bad):
                k = e
        if k:
            known_hit.append(k)
            total -= len(bad)  # reported as known_findings, not among the obligations of the proof
            continue
        obl = [dict(obligation=o['name'], kind=o['kind'], source=(src[o['line'] - 1].strip() if o.get('line') else None),
                    status=o['status'], model=o.get('model'), path=o.get('path')) for o in bad[:20]]
        if r['error']:
            obl.append(dict(obligation='(generation of the remaining obligations)', status='undecided', reason=r['error']))
        obj = dict(property=pid, contract=n, program=os.path.relpath(s, VERIF), failed_obligations=obl)
        if found:
            obj['failing_input'] = found[0]
            obj['sanitized'] = sanitized
            obj['replay_result'] = found[1]
            obj['violated_source'] = [src[l - 1].strip() for l in fail_lines if l > 0]
            obj['replay'] = 'python3-vt /verif/vc/replay.py <this file>   (builds %s from /repo and runs contract %s natively on the failing input)' % (os.path.relpath(s, VERIF), n)
        else:
            obj['note'] = 'the verifier does not accept these obligations; no concrete failing input was found by replaying its models and by search'
        rp = replay_file(obj)
        violations.append((n + ': ' + (obl[0].get('source') or obl[0]['obligation'] if obl else found[1]), rp, not found))

    # vacuity
    for n in vac:
        rp = replay_file(dict(property=pid, contract=n, kind='vacuous', note='no concrete input satisfies the precondition and reaches the end, or no obligation was generated'))
        violations.append((n + ': vacuous', rp, True))

    wall = round(time.time() - t0, 1)

    slow = sorted(results.values(), key=lambda r: -r['t'])[:3]
    ev = dict(property=pid, tier=tier, seed=seed, level='proof', wall_s=wall,
              coverage=dict(
                  obligations=total, discharged=disc, checker_cmd='python3-vt /verif/vc/main.py %s --tier %s' % (pid, tier),
                  trusted_base=TRUSTED,
                  contracts=len(results), obligations_by_kind=by_kind, discharged_by_backend=backend, solver_seconds=btime,
                  paths=sum(r['paths'] for r in results.values()), loops_with_inferred_invariants=sum(r['loops'] for r in results.values()),
                  functions_under_contract=len(funcs), functions=sorted(funcs)[:400],
                  programs=[os.path.relpath(s, VERIF) for s in srcs],
                  precondition_witness_runs=samples_ok,
                  slowest=[dict(contract=r['fn'], s=r['t']) for r in slow],
                  samples=[dict(contract=n, obligations=len(results[n]['obligations']), paths=results[n]['paths'],
                                loop_invariants=results[n]['inv'][:1]) for n in sorted(results)[:4]]),
              assumptions=ASSUME + extra_assumptions(pid), violations=len(violations), violation_list=[dict(what=v[0], replay=v[1]) for v in violations],
              known_findings=[k.get('what') for k in known_hit])
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for k in known_hit:
        print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    print('%s %s: %d contracts, %d/%d obligations discharged, %d paths, %.1fs' % (
        pid, tier, len(results), disc, total, ev['coverage']['paths'], wall))
    if violations:
        for w, rp, nf in violations:
            print('FAILED: ' + w)
        # a violation with a replayed failing input first
        violations.sort(key=lambda v: v[2])
        concrete = [v for v in violations if not v[2]]
        for w, rp, nf in (concrete or violations)[:5]:
            print('VIOLATION property=%s replay=%s%s' % (pid, rp, ' no-failing-input-found' if nf else ''))
        return 1
    return 0


TRUSTED = ['clang 18 front end and -O2 middle end (the verified text is the LLVM IR it emits for the real headers)',
           'the VC generator /verif/vc/{ir,symex,infer,solver}.py', 'z3 5.3 / cvc5 1.1 (unsat answers)']
ASSUME = ['template parameters (dimension names, static lengths) are those instantiated by the contract programs; all run-time values are universally quantified',
          'the abstract sub-structure satisfies the structure contract (offset+element within size, distinct indices disjoint); proved for the library structures by C01/C02',
          'signed overflow / other source-level undefined behaviour exploited by the compiler is not separately checked',
          'termination is not part of the obligations (partial correctness; every loop exits in the concrete witness runs)']


if __name__ == '__main__':
    sys.exit(main())
