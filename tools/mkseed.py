#!/usr/bin/env python3
"""mkseed.py ID PROP FILE 'old' 'new' needs breaks < demo.cpp : makes /verif/seeded/ID (patch.diff from a text replacement, demo.sh + demo.cpp)"""
import sys, os, json, subprocess, tempfile, shutil
def mk(ID, prop, edits, needs, breaks, demo, flags='', libs=''):
    d = '/verif/seeded/' + ID
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp()
    subprocess.run(['git', '-C', '/repo', 'worktree', 'add', '-q', '--detach', w + '/r', 'HEAD'], check=True)
    for f, old, new in edits:
        p = w + '/r/' + f
        s = open(p).read()
        assert s.count(old) == 1, (f, old, s.count(old))
        open(p, 'w').write(s.replace(old, new))
    diff = subprocess.run(['git', '-C', w + '/r', 'diff'], capture_output=True, text=True).stdout
    subprocess.run(['git', '-C', '/repo', 'worktree', 'remove', '--force', w + '/r'], check=True)
    shutil.rmtree(w)
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.cpp', 'w').write(demo)
    open(d + '/demo.sh', 'w').write(r'''#!/bin/bash
# compiles demo.cpp against the headers in the current directory; exit 0 when the property holds on the demonstrated input
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
T=$(mktemp -d); trap 'rm -r -f "$T"' EXIT
g++ -std=gnu++17 -O1 -DNDEBUG -w '-DRICHDEM_GIT_HASH="x"' '-DRICHDEM_COMPILE_TIME="x"' -I"$R/include" %s "$D/demo.cpp" %s -o "$T/demo" >/dev/null 2>&1 || exit 3
cd "$T" && timeout 120 ./demo >/dev/null 2>&1
''' % (flags, libs))
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
