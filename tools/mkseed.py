#!/usr/bin/env python3
"""Builds /verif/seeded/<id>/ from tools/seeds.py and confirms every planted bug in a scratch copy.
usage: mkseed.py [-c] [id...]   (-c: also run the property's check against the changed copy)"""
import json, os, subprocess, sys, shutil, re
sys.path.insert(0, os.path.dirname(__file__))
ROOT = '/verif/seeded'
W = '/tmp/w/seed'
BASE = 'd734881'
def sh(c, cwd=None, t=600):
    return subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
GO = '''#!/bin/bash
# runs the test beside this file inside the package it demonstrates
D=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
printf '{"Replace": {"%%s": "%%s"}}' "$PWD/%(pkg)s/zz_demo_test.go" "$D/demo.go.txt" > "$T/o.json"
timeout 250 go test -vet=off -count=1 %(flags)s -overlay "$T/o.json" -run '^TestZZ' "./%(pkg)s"
'''
SH = '''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
'''
def orig_lines(patch):
    """deleted lines that are in the original repository / that are not"""
    yes = no = 0
    f = None; ln = 0
    blame = {}
    for l in patch.splitlines():
        if l.startswith('--- a/'):
            f = l[6:]
            b = sh(f'git blame -s {f}', '/repo').stdout.splitlines()
            blame[f] = [x.lstrip('^')[:7] == BASE for x in b]
        elif l.startswith('@@'):
            ln = int(re.match(r'@@ -(\d+)', l).group(1))
        elif l.startswith('-') and not l.startswith('---'):
            if blame[f][ln-1]: yes += 1
            else: no += 1
            ln += 1
        elif l.startswith(' '): ln += 1
    return yes, no
def fresh():
    sh(f'rm -rf {W}'); os.makedirs(W)
    sh(f'cp -a /repo/. {W}/', t=60); sh('git checkout -q -- . ; git clean -fdq', W)
def main():
    import seeds
    args = sys.argv[1:]
    chk = '-c' in args
    ids = [a for a in args if not a.startswith('-')]
    fresh()
    bad = 0
    for s in seeds.SEEDS:
        if ids and s['id'] not in ids: continue
        d = f"{ROOT}/{s['id']}"
        sh('git checkout -q -- . && git clean -fdq', W)
        err = None
        for f, o, n in s['edits']:
            p = f'{W}/{f}'; t = open(p).read()
            k = t.count(o)
            if k == 0: err = f'{f}: text not found: {o[:60]!r}'; break
            if k > 1: err = f'{f}: text not unique: {o[:60]!r}'; break
            open(p, 'w').write(t.replace(o, n))
        if err: print(s['id'], 'BAD', err); bad += 1; continue
        sh('gofmt -w ' + ' '.join({f for f,_,_ in s['edits']}), W)
        patch = sh('git diff', W).stdout
        y, no = orig_lines(patch)
        os.makedirs(d, exist_ok=True)
        for x in os.listdir(d): os.remove(f'{d}/{x}')
        open(f'{d}/patch.diff', 'w').write(patch)
        if 'go' in s:
            open(f'{d}/demo.go.txt', 'w').write(s['go'])
            open(f'{d}/demo.sh', 'w').write(GO % {'pkg': s['pkg'], 'flags': s.get('flags', '')})
        else:
            open(f'{d}/demo.sh', 'w').write(SH + s['sh'])
            for k, v in s.get('files', {}).items(): open(f'{d}/{k}', 'w').write(v)
        os.chmod(f'{d}/demo.sh', 0o755)
        json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(f'{d}/meta.json', 'w'), indent=1)
        env = '. /opt/vp/env.sh; '
        r = sh(env + 'go build ./... && go vet ./pkg/... >/dev/null; timeout -s KILL 60 go test -timeout 50s -count=1 ./... ', W)
        msgs = []
        if y == 0: msgs.append('NO ORIGINAL LINE CHANGED')
        if no: msgs.append(f'({no} lines of fixes touched)')
        if 'FAIL' in r.stdout or r.returncode: msgs.append('TESTS FAIL: ' + ' '.join(re.findall(r'--- FAIL: (\S+)', r.stdout)) + ' ' + r.stdout[-300:] if 'build failed' in r.stdout or '--- FAIL' not in r.stdout else 'TESTS FAIL: '+' '.join(re.findall(r'--- FAIL: (\S+)', r.stdout)))
        b = sh(f'bash {d}/demo.sh', W)
        if b.returncode == 0: msgs.append('DEMO PASSES WITH BUG')
        sh('git stash -q', W)
        g = sh(f'bash {d}/demo.sh', W)
        if g.returncode != 0: msgs.append('DEMO FAILS ON CLEAN: ' + g.stdout[-800:])
        sh('git stash pop -q', W)
        res = ''
        if chk:
            c = sh(f"/tmp/dsa -prop {s['prop']} -repo {W} -verif /tmp/w/ev", '/verif/sa')
            res = 'CAUGHT' if 'VIOLATION' in c.stdout else 'MISSED'
            if res == 'MISSED' : res += ' ' + c.stdout[-300:]
        fails = [m for m in msgs if m[0].isupper()]
        if fails: bad += 1
        print(s['id'], s['prop'], 'BAD' if fails else 'ok', '; '.join(msgs), res, flush=True)
    print('bad', bad)
main()
