#!/usr/bin/env python3
"""replay a violation file: builds the contract program natively against /repo and runs it on the failing input"""
import json
import os
import re
import shutil
import sys
import tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import main as M
o = json.load(open(sys.argv[1]))
if 'failing_input' not in o:
    print('no failing input recorded; failed obligations:')
    print(json.dumps(o, indent=1))
    sys.exit(3)
src = os.path.join(M.VERIF, o['program'])
w = tempfile.mkdtemp(prefix='vcreplay_')
try:
    p = M.sh([M.CXX, '-std=c++20', '-w', '-O1', '-c', os.path.join(M.HERE, 'native.cpp'), '-o', os.path.join(w, 'native.o')])
    p = M.build_ir(src, os.path.join(w, 'a.ll'), [])
    names = [(m.group(1), len(re.findall('i64 noundef', m.group(2).split(') ')[0]))) for m in
             re.finditer(r'^define [^@\n]*@(ct_\w+)\(([^\n]*)$', open(os.path.join(w, 'a.ll')).read(), re.M)]
    exe, err = M.build_native(src, w, names, [], san=o.get('sanitized', False))
    p = M.sh((M.ASAN_ENV if o.get('sanitized') else []) + [exe, 'run', o['contract']] + o['failing_input'])
    print(o['contract'], o['failing_input'], '->', p.stdout.strip())
    sys.exit(p.returncode)
finally:
    shutil.rmtree(w, ignore_errors=True)
