#!/usr/bin/env python3
"""mkseed.py <id> <property> <file> : reads from stdin a JSON-free block:
OLD<<<...>>>NEW<<<...>>> pairs, NEEDS: line, BREAKS: line; edits a scratch copy
(/tmp/sd/repo), writes seeded/<id>/{patch.diff,meta.json}."""
import json
import os
import re
import subprocess
import sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SD = '/tmp/sd/repo'
sid, prop = sys.argv[1:3]
txt = sys.stdin.read()
subprocess.check_call(['git', '-C', SD, 'checkout', '-q', '--', '.'])
for f, old, new in re.findall(r'FILE (\S+)\nOLD<<<\n(.*?)\n>>>\nNEW<<<\n(.*?)\n?>>>', txt, re.S):
    p = os.path.join(SD, f)
    s = open(p).read()
    assert s.count(old) == 1, (f, s.count(old), old)
    s = s.replace(old, new)
    open(p, 'w').write(s)
d = os.path.join(ROOT, 'seeded', sid)
os.makedirs(d, exist_ok=True)
diff = subprocess.check_output(['git', '-C', SD, 'diff'], text=True)
open(os.path.join(d, 'patch.diff'), 'w').write(diff)
needs = re.search(r'^NEEDS: (.*)$', txt, re.M).group(1)
br = re.search(r'^BREAKS: (.*)$', txt, re.M).group(1)
json.dump({'property': prop, 'needs': needs, 'what_it_breaks': br}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
subprocess.check_call(['git', '-C', SD, 'checkout', '-q', '--', '.'])
open(os.path.join(d, 'demo.sh'), 'w').write('''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
w=$(mktemp -d) || exit 2
trap 'rm -rf "$w"' EXIT
cd "$w" || exit 2
timeout 250 $PY "$here/demo.py"
''')
print(diff)
