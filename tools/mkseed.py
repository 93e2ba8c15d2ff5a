"""mkseed.py <id> <property> <file> <<< JSON {old,new,needs,breaks,demo}: plant a bug from an exact text replacement (dev helper)."""
import sys, json, os, subprocess, re
DEMO = r'''#!/bin/bash
# builds the demo against /repo's headers and built library; exit 0 when the property's example holds
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
g++ -std=c++11 -O1 -w -I/opt/vp/cmake/compat -include compat.hpp -isystem /usr/include/eigen3 -I/repo/cppcore/include \
    "$d/demo.cpp" %s /repo/_build/libcppcore.a -lfmt -pthread -o "$t/demo" || exit 3
"$t/demo"
'''
sid, prop = sys.argv[1:3]
spec = json.load(sys.stdin)
d = '/verif/seeded/' + sid
os.makedirs(d, exist_ok=True)
edits = spec['edits']
try:
    for f, old, new in edits:
        p = '/repo/cppcore/' + f
        s = open(p).read()
        assert s.count(old) == 1, (f, old, s.count(old))
        open(p, 'w').write(s.replace(old, new))
    open(d + '/patch.diff', 'w').write(subprocess.run(['git', '-C', '/repo', 'diff'], stdout=subprocess.PIPE, text=True, check=True).stdout)
finally:
    subprocess.run(['git', '-C', '/repo', 'checkout', '-q', '--', '.'], check=True)
open(d + '/demo.cpp', 'w').write(spec['demo'])
open(d + '/demo.sh', 'w').write(DEMO % spec.get('extra', ''))
os.chmod(d + '/demo.sh', 0o755)
json.dump({'property': prop, 'needs': spec['needs'], 'what_it_breaks': spec['breaks']}, open(d + '/meta.json', 'w'), indent=1)
