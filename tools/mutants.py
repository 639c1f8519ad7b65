#!/usr/bin/env python3
"""Campaign of generated small edits: which of those that compile and pass the tests does no check report?
usage: mutants.py OUT.jsonl COUNT [file-substring] [seed]   (needs /tmp/dsa and /tmp/mutate)"""
import subprocess, sys, os, json, random, threading
ORDER = {
 'cmd/dukptcli': [28, 29, 30, 39], 'cmd/server': [32, 30, 39],
 'pkg/server/handlers.go': [26, 27, 30, 37, 38, 39], 'pkg/server/routing.go': [26, 27, 30, 37, 38, 39],
 'pkg/server/wrapper.go': [39, 40, 16, 17, 15, 25, 30, 18],
 'pkg/server/service.go': [39, 25, 18, 19, 23, 20, 21, 22, 24, 17, 30, 34],
 'pkg/server/repository.go': [23, 18, 21, 22, 24, 17, 30, 34],
 'pkg/server/machine.go': [23, 18, 22],
 'pkg/util.go': [13, 14, 15, 11, 12, 1, 4, 3, 10, 2, 5, 6, 7, 8, 9, 17, 30, 34],
 'encryption/': [31, 11, 12, 9, 8, 1, 4, 17, 30, 34],
 'pkg/aes': [1, 2, 3, 10, 6, 8, 9, 7, 11, 12, 17, 30, 34],
 'pkg/des': [4, 5, 10, 6, 8, 9, 7, 11, 12, 17, 30, 34],
}
out, count = sys.argv[1], int(sys.argv[2])
sub = sys.argv[3] if len(sys.argv) > 3 else ''
random.seed(int(sys.argv[4]) if len(sys.argv) > 4 else 1)
ms = [json.loads(l) for l in subprocess.run('. /opt/vp/env.sh; /tmp/mutate', shell=True, stdout=subprocess.PIPE, text=True).stdout.splitlines()]
ms = [m for m in ms if sub in m['file'] and 'doc.go' not in m['file'] and m['file'] != 'version.go']
# stratify: by function and kind
by = {}
for m in ms: by.setdefault((m['file'], m['fn'], m['kind']), []).append(m)
for v in by.values(): random.shuffle(v)
ks = list(by); random.shuffle(ks)
q = []
while any(by.values()):
    for k in ks:
        if by[k]: q.append(by[k].pop())
lock = threading.Lock(); done = [0]; tried = [0]
f = open(out, 'a')
def sh(c, cwd, t=900):
    try: return subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
    except subprocess.TimeoutExpired: return subprocess.CompletedProcess(c, 99, '')
def work(i):
    W = f'/tmp/w/mut{i}'
    sh(f'rm -rf {W}; cp -a /repo/. {W}/', '/')
    while True:
        with lock:
            if done[0] >= count or not q: return
            m = q.pop(0)
        p = f'{W}/{m["file"]}'
        src = open(f'/repo/{m["file"]}', 'rb').read()
        open(p, 'wb').write(src[:m['start']] + m['text'].encode() + src[m['end']:])
        r = sh('. /opt/vp/env.sh; go build ./... && timeout 60 go test -count=1 ./...', W, 200)
        tried[0] += 1
        if r.returncode == 0:
            m['found'] = None; m['undecided'] = []
            for k, o in ORDER.items():
                if m['file'].startswith(k):
                    for n in o:
                        c = sh(f'. /opt/vp/env.sh; timeout 600 /tmp/dsa -prop P{n:02d} -repo {W} -verif /tmp/w/evm{i}', W)
                        if 'UNDECIDED' in c.stdout: m['undecided'].append(n)
                        if 'VIOLATION' in c.stdout:
                            m['found'] = n; m['how'] = c.stdout[:500]; break
                        if c.returncode: m['undecided'].append(f'{n} rc={c.returncode}')
            with lock:
                done[0] += 1
                f.write(json.dumps(m) + '\n'); f.flush()
        open(p, 'wb').write(src)
ts = [threading.Thread(target=work, args=(i,)) for i in range(3)]
for t in ts: t.start()
for t in ts: t.join()
print('tried', tried[0], 'kept', done[0])
