#!/usr/bin/env python3
"""mkseed.py ID PROPERTY SNARK(0|1) NEEDS WHAT    (patch from /repo's uncommitted diff, demo.cpp from stdin)"""
import sys, os, json, subprocess
i, prop, snark, needs, what = sys.argv[1:6]
d = '/verif/seeded/' + i
os.makedirs(d, exist_ok=True)
open(d + '/patch.diff', 'w').write(subprocess.run(['git', '-C', '/repo', 'diff'], capture_output=True, text=True).stdout)
open(d + '/demo.cpp', 'w').write(sys.stdin.read())
json.dump(dict(property=prop, needs=needs, what_it_breaks=what), open(d + '/meta.json', 'w'), indent=1)
open(d + '/demo.sh', 'w').write('''#!/bin/bash
# run with cwd = the repository; compiles demo.cpp against its sources
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
g++ -O1 -std=gnu++11 -w -DNDEBUG -DMIE_ATE_USE_GMP %s -Iinclude -Isrc "$d/demo.cpp" src/zm.cpp src/zm2.cpp -lgmpxx -lgmp -o "$t/demo" || exit 0
timeout 250 "$t/demo"
''' % ('-DBN_SUPPORT_SNARK' if snark == '1' else ''))
os.chmod(d + '/demo.sh', 0o755)
