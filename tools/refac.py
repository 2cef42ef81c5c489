#!/usr/bin/env python3
"""refac.py [-n] [-x] FILE [IDs...]: apply the behaviour-preserving edits of FILE (FILE/OLD/NEW blocks as in
mkseed.py) to a copy of /repo's HEAD and run the checks on it: every check must stay quiet.
-n: keep the copy and print its path, run nothing;  -x: also build + run the test suite in the copy."""
import os
import re
import subprocess
import sys
import tempfile
import shutil
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def apply(txt, d):
    n = 0
    for f, old, new in re.findall(r'FILE (\S+)\nOLD<<<\n(.*?)\n>>>\nNEW<<<\n(.*?)\n?>>>', txt, re.S):
        p = os.path.join(d, f)
        s = open(p).read()
        if s.count(old) != 1:
            print('!! %d matches in %s: %s' % (s.count(old), f, old[:120]))
            continue
        open(p, 'w').write(s.replace(old, new))
        n += 1
    return n


def main():
    a = sys.argv[1:]
    keep = '-n' in a
    a = [x for x in a if not x.startswith('-')]
    d = tempfile.mkdtemp(prefix='refac')
    subprocess.check_call('git -C /repo archive HEAD | tar x -C ' + d, shell=True)
    print(apply(open(a[0]).read(), d), 'edits in', d)
    for f in subprocess.check_output('grep -rl "" --include=*.py %s/spectralDNS' % d, shell=True, text=True).split():
        compile(open(f).read(), f, 'exec')
    if keep:
        return
    subprocess.call([sys.executable, os.path.join(ROOT, 'tools/all.py')] + a[1:], env=dict(os.environ, VERIF_REPO=d))
    shutil.rmtree(d)


main()
