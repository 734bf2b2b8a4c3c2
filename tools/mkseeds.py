#!/usr/bin/env python3
"""Regenerates seeded/<id>/ from tools/seeds/*.py against /repo's HEAD.
Each spec file calls seed(id, prop, [(file, old, new), ...], needs, breaks, demo_cpp, libs='')."""
import glob, json, os, subprocess, sys, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# Exit 0 when the property holds, non-zero otherwise; everything it writes stays in a scratch directory.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
export TZ=UTC
g++ -std=c++11 -O1 -g -w -DLINUX %(flags)s -Isrc -Iapps "$d/demo.cpp" $(ls src/*.cpp | grep -v db_mongoc) -o "$t/demo" %(libs)s || exit 3
cd "$t" && mkdir work && cd work && timeout 120 ../demo
'''
PRE = '''#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#define EXPECT(c) do { if (!(c)) { printf("broken: %s (line %d)\\n", #c, __LINE__); fails++; } } while (0)
static int fails = 0;
'''
only = sys.argv[1:]
n = 0
def seed(id, prop, edits, needs, breaks, demo, libs='', extra=None, flags='-fsanitize=address,undefined -fno-sanitize=vptr -fno-sanitize-recover=undefined'):
    global n
    if only and id not in only:
        return
    d = os.path.join(V, 'seeded', id)
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp()
    try:
        subprocess.check_call('git -C /repo archive HEAD src apps | tar x -C %s && cd %s && git init -q && git add -A && git -c user.name=x -c user.email=x commit -qm x' % (w, w), shell=True)
        for f, a, b in edits:
            p = os.path.join(w, f)
            s = open(p).read()
            if s.count(a) != 1:
                print('SPEC %s: %d matches in %s for %r' % (id, s.count(a), f, a[:80])); return
            open(p, 'w').write(s.replace(a, b))
        diff = subprocess.check_output(['git', '-C', w, 'diff']).decode()
    finally:
        shutil.rmtree(w)
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    open(os.path.join(d, 'demo.cpp'), 'w').write(PRE + demo)
    open(os.path.join(d, 'demo.sh'), 'w').write(DEMO % {'libs': libs, 'flags': flags})
    for k, v in (extra or {}).items(): open(os.path.join(d, k), 'w').write(v)
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    n += 1
for f in sorted(glob.glob(os.path.join(V, 'tools', 'seeds', '*.py'))):
    exec(open(f).read())
print(n, 'seeds written')
