#!/usr/bin/env python3
"""Confirm a planted bug in a scratch copy of /repo: tools/plant.py ID [--checks C01,C02] [--make]

--make   write seeded/ID/patch.diff from the working tree of the scratch copy (then restore it)
Scratch copy: /tmp/wt (made from /repo when missing)."""
import os, subprocess, sys, json
V = '/verif'
W = '/tmp/wt'
def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, **k)
def main():
    ident = sys.argv[1]
    d = f'{V}/seeded/{ident}'
    if not os.path.isdir(W):
        sh(f'cp -a /repo {W}')
    if '--make' in sys.argv:
        p = sh(f'git -C {W} diff').stdout
        if not p.strip(): sys.exit('no change in the scratch copy')
        open(f'{d}/patch.diff', 'w').write(p)
    sh(f'git -C {W} checkout -- .')
    clean = sh(f'sh {d}/demo.sh', cwd=W)
    print('demo clean:', clean.returncode, clean.stdout[-300:] if clean.returncode else '')
    a = sh(f'git -C {W} apply {d}/patch.diff')
    if a.returncode: sys.exit(a.stdout)
    try:
        lib = ' b/src/' in open(f'{d}/patch.diff').read()
        if lib: print(sh(f'cmake --build {W}/_build --target Vc -j8 2>&1 | grep -i "error" | head').stdout)
        bug = sh(f'sh {d}/demo.sh', cwd=W)
        print('demo bug  :', bug.returncode, bug.stdout[-300:])
        prop = json.load(open(f'{d}/meta.json'))['property']
        checks = [prop]
        for i, x in enumerate(sys.argv):
            if x == '--checks': checks = [c for c in sys.argv[i + 1].split(',') if c]
        for c in checks:
            r = sh(f'VC_REPO={W} VC_OUT=/tmp/wtout python3 {V}/check.py {c}')
            print(c, r.returncode, r.stdout[-400:])
    finally:
        sh(f'git -C {W} checkout -- .')
        if lib: sh(f'cmake --build {W}/_build --target Vc -j8')
main()
