"""Runs each planted bug's check on a scratch copy of /repo with the bug in it: seedcheck.py [workers] [id...]; uses /tmp/dsa."""
import sys, os, json, subprocess, shutil, time, queue, threading
here = os.path.dirname(os.path.abspath(__file__)); seeded = os.path.join(here, '..', 'seeded')
w = int(sys.argv[1]) if len(sys.argv) > 1 else 3
ids = sys.argv[2:] or sorted(os.listdir(seeded))
q = queue.Queue()
for i in ids: q.put(i)
bin = os.environ.get('DSA', '/tmp/dsa')
def run(n):
    d = f'/tmp/w/sc{n}'; ev = f'/tmp/w/sce{n}'
    shutil.rmtree(d, ignore_errors=True); shutil.copytree('/repo', d); os.makedirs(ev + '/evidence', exist_ok=True)
    shutil.rmtree(ev, ignore_errors=True); os.makedirs(ev + '/sa'); shutil.copytree('/verif/sa/spec', ev + '/sa/spec')
    while True:
        try: i = q.get_nowait()
        except queue.Empty: break
        p = json.load(open(f'{seeded}/{i}/meta.json'))['property']
        subprocess.run(['git', '-C', d, 'checkout', '-q', '--', '.']); subprocess.run(['git', '-C', d, 'apply', f'{seeded}/{i}/patch.diff'], check=True)
        t = time.time()
        r = subprocess.run([bin, '-prop', p, '-repo', d, '-verif', ev], capture_output=True, text=True)
        print(i, p, 'CAUGHT' if r.returncode == 1 else 'MISSED %d' % r.returncode, '%.0f s' % (time.time() - t), flush=True)
    shutil.rmtree(d); shutil.rmtree(ev)
ts = [threading.Thread(target=run, args=(n,)) for n in range(w)]
for t in ts: t.start()
for t in ts: t.join()
