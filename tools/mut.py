"""mut.py FILE [-j N] [NAME...]: self-test. FILE defines mutants, a list of
(name, [properties], [(path, old, new), ...]). Each is made in a scratch copy of
/repo; if it builds and passes the stable tests, the checks of the properties
are run against the copy. Prints which checks report a violation."""
import json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def run(m):
    name, props, edits = m
    w = tempfile.mkdtemp(prefix='mut-', dir='/tmp')
    try:
        repo = os.path.join(w, 'repo')
        subprocess.run(['git', 'clone', '-q', '/repo', repo])
        for path, old, new in edits:
            p = os.path.join(repo, path)
            s = open(p).read()
            if s.count(old) != 1:
                return name, 'text occurs %d times: %s' % (s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        gp = os.path.join(w, 'gp/src/github.com/Symantec')
        os.makedirs(gp)
        link = os.path.join(gp, 'tricorder')
        os.symlink(repo, link)
        e = dict(os.environ, PATH='/opt/veriftools/go1.27.3/bin:' + os.environ['PATH'], GOTOOLCHAIN='local',
                 GO111MODULE='off', GOPROXY='off', GOFLAGS='', GOWORK='off', GOENV='off',
                 GOPATH=os.path.join(w, 'gp'), GOCACHE='/tmp/seedcache', TZ='UTC')
        r = subprocess.run(['go', 'test', '-vet=off', '-count=1', '-timeout=60s', '-json', './...'], cwd=link, env=e, capture_output=True, text=True)
        passed = set()
        for l in r.stdout.splitlines():
            try:
                x = json.loads(l)
            except ValueError:
                continue
            if x.get('Action') == 'pass' and x.get('Test'):
                passed.add(x['Test'])
        base = json.dumps(json.load(open('/opt/vp/BASELINE.json')))
        miss = [t for t in set(re.findall(r'\bTest\w+', base)) if t not in passed]
        if miss:
            return name, 'tests fail: %s %s' % (miss[:4], r.stderr[-300:])
        out = []
        for p in props:
            t = time.time()
            e = dict(os.environ, VERIF_REPO=repo, VERIF_EVIDENCE=os.path.join(w, 'ev'))
            r = subprocess.run(['python3', os.path.join(V, 'tools/check.py'), p, 'quick'], cwd=V, capture_output=True, text=True, env=e)
            ok = r.returncode == 1 and 'VIOLATION property=%s ' % p in r.stdout
            out.append('%s %s %.0fs' % (p, 'caught' if ok else 'MISSED rc=%d' % r.returncode, time.time() - t))
            if r.returncode not in (0, 1) or (not ok and '-v' in sys.argv):
                out.append(r.stdout[-800:] + r.stderr[-800:])
        return name, '; '.join(out)
    finally:
        shutil.rmtree(w, True)


a = [x for x in sys.argv[1:] if x != '-v']
j = 2
if '-j' in a:
    k = a.index('-j')
    j = int(a[k + 1])
    del a[k:k + 2]
d = {}
exec(open(a[0]).read(), d)
ms = [m for m in d['mutants'] if not a[1:] or m[0] in a[1:]]
with ThreadPoolExecutor(j) as ex:
    for n, t in ex.map(run, ms):
        print('%-45s %s' % (n, t), flush=True)
