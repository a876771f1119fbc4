"""seedtest.py [NAME...]: applies each planted change to /repo, runs the check of
its property, undoes it, and prints what was caught."""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, 'seeded')
names = sys.argv[1:] or sorted(os.listdir(S))
if subprocess.run(['git', '-C', '/repo', 'status', '--porcelain'], capture_output=True, text=True).stdout.strip():
    sys.exit('/repo is not clean')
bad = 0
for n in names:
    p = json.load(open(os.path.join(S, n, 'meta.json')))['property']
    t = time.time()
    try:
        r = subprocess.run(['git', '-C', '/repo', 'apply', os.path.join(S, n, 'patch.diff')], capture_output=True, text=True)
        if r.returncode:
            print('%-50s does not apply' % n)
            continue
        r = subprocess.run(['python3', os.path.join(V, 'tools/check.py'), p, 'quick'], cwd=V, capture_output=True, text=True)
    finally:
        subprocess.run(['git', '-C', '/repo', 'checkout', '--', '.'])
    ok = r.returncode == 1 and 'VIOLATION property=%s ' % p in r.stdout
    bad += not ok
    print('%-60s %s rc=%d %.0fs' % (n, 'caught' if ok else 'MISSED', r.returncode, time.time() - t), flush=True)
    if not ok:
        print(r.stdout[-1500:], r.stderr[-1500:])
sys.exit(bad > 0)
