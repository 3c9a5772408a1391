#!/usr/bin/env python3
"""mkseed.py ID PROPERTY FILE: reads a spec on stdin:
<<<OLD / === / >>>NEW blocks, NEEDS: / BREAKS: lines, then DEMO: followed by demo.cpp. Writes seeded/ID."""
import sys, os, json, subprocess, re
R = os.environ.get('R', '/repo'); V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sid, prop = sys.argv[1:3]; t = sys.stdin.read(); d = V + '/seeded/' + sid; os.makedirs(d, exist_ok=True)
head, demo = t.split('\nDEMO:\n', 1)
fl = None
for part in re.split(r'(?m)^FILE: ', head)[1:]:
    fl, body = part.split('\n', 1)
    for old, new in re.findall(r'<<<\n(.*?)\n===\n(.*?)\n?>>>', body, re.S):
        p = R + '/' + fl.strip(); s = open(p).read()
        if s.count(old) != 1: print('pattern occurs %d times in %s:\n%s' % (s.count(old), fl, old)); subprocess.run(['git', '-C', R, 'checkout', '--', '.']); sys.exit(1)
        open(p, 'w').write(s.replace(old, new))
diff = subprocess.run(['git', '-C', R, 'diff'], stdout=subprocess.PIPE, text=True).stdout
subprocess.run(['git', '-C', R, 'checkout', '--', '.'])
open(d + '/patch.diff', 'w').write(diff); open(d + '/demo.cpp', 'w').write(demo)
m = dict(property=prop, needs=re.search(r'NEEDS: (.*)', head).group(1), what_it_breaks=re.search(r'BREAKS: (.*)', head).group(1))
json.dump(m, open(d + '/meta.json', 'w'), indent=1)
open(d + '/demo.sh', 'w').write('''#!/bin/bash
# builds demo.cpp against the library of the current build and runs it
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
g++ -std=c++11 -O0 -w -I"$D" -Iinclude -Isrc -DTS_USE_DEBUG_API -DTS_DISABLE_PARALLEL "$D/demo.cpp" -o "$T/demo" -Llib -ltennis -Wl,-rpath,"$PWD/lib" -lpthread -ldl || exit 3
cd "$T" && timeout 60 ./demo
''')
h = V + '/tools/demo.h'
if '"demo.h"' in demo: open(d + '/demo.h', 'w').write(open(h).read())
print(diff)
fl = None
for l in diff.splitlines():  # the changed lines must be original ones
    if l.startswith('--- a/'): fl = l[6:]
    m = re.match(r'@@ -(\d+)', l)
    if m: n = int(m.group(1)); continue
    if l.startswith('-') and not l.startswith('---'):
        b = subprocess.run(['git', '-C', R, 'blame', '-s', '-l', '-L', '%d,%d' % (n, n), 'HEAD', '--', fl], stdout=subprocess.PIPE, text=True).stdout.split()[0].lstrip('^')
        if subprocess.run(['git', '-C', R, 'log', '-1', '--format=%s', b], stdout=subprocess.PIPE, text=True).stdout.startswith('fix:'): print('WARNING: line %s:%d was written by a fix' % (fl, n))
        n += 1
    elif l.startswith(' '): n += 1
