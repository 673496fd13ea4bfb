#!/usr/bin/env python3
"""setup: nothing is installed; the tools the checks need are present, and the generator decides obligations with a known answer"""
import concurrent.futures as cf
import os
import re
import shutil
import subprocess
import sys
import tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def one(a):
    import main as M
    return M.verify_contract(a)


def cases():
    import main as M
    w = tempfile.mkdtemp(prefix='vcself_')
    try:
        ll = os.path.join(w, 's.ll')
        p = M.build_ir(os.path.join(M.HERE, 'selftest_cases.cpp'), ll, [])
        if p.returncode:
            print(p.stderr[:3000])
            return False
        names = re.findall(r'^define [^@\n]*@(ct_\w+)\(', open(ll).read(), re.M)
        bad = []
        with cf.ProcessPoolExecutor(8) as ex:
            for n, r in zip(names, ex.map(one, [(ll, n, dict(budget=60)) for n in names])):
                proved = not r['error'] and bool(r['obligations']) and all(o['status'] == 'proved' for o in r['obligations'])
                if r['error']:
                    print('not decided:', n, r['error'])
                if proved != n.startswith('ct_good_'):
                    bad.append((n, r['error'], [(o['name'], o['status']) for o in r['obligations'] if o['status'] != 'proved'][:3]))
        print('%d obligations sets with a known answer, %d decided wrongly' % (len(names), len(bad)))
        for b in bad:
            print('WRONG', *b)
        # a valid obligation that is not discharged (slow machine) is no danger; an invalid one that is accepted would be
        return not any(n.startswith('ct_bad_') for n, _, _ in bad)
    finally:
        shutil.rmtree(w, ignore_errors=True)


def main():
    ok = True
    try:
        import z3
        print('z3', z3.get_version_string())
    except ImportError as e:
        print('no z3 python bindings:', e)
        ok = False
    for t in ('clang++-18', 'clang++'):
        if shutil.which(t):
            print(t, subprocess.run([t, '--version'], capture_output=True, text=True).stdout.split('\n')[0])
            break
    else:
        ok = False
    print('cvc5', shutil.which('cvc5'))
    return 0 if ok and cases() else 1


if __name__ == '__main__':
    sys.exit(main())
