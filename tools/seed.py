"""seed.py NAME: confirms the planted change seeded/NAME in a scratch copy of
/repo: the patch applies, builds, the stable tests pass with it, demo.sh exits 0
without and nonzero with it. With --make FILE the entry is first written from
FILE, a Python file defining property, needs, breaks, edits [(path, old, new)]
and demo (Go source of a main package)."""
import json, os, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = r'''#!/bin/bash
# Builds the program beside this script against the working tree in the current
# directory and runs it. Exit 0: the property's behaviour is as it should be.
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
W=$(mktemp -d) || exit 2
trap 'rm -rf "$W"' EXIT
mkdir -p "$W/src/github.com/Symantec" "$W/src/demo"
ln -s "$R" "$W/src/github.com/Symantec/tricorder"
cp "$D"/*.go "$W/src/demo/"
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GO111MODULE=off GOPROXY=off GOFLAGS= GOWORK=off GOENV=off
export GOPATH=$W GOCACHE=$W/cache TZ=UTC
cd "$W/src/demo" || exit 2
go build -o "$W/demo" . || exit 2
timeout 250 "$W/demo"
'''


def sh(cmd, cwd, timeout=300):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, timeout=timeout)


ENV = None


def goenv(w, repo):
    gp = os.path.join(w, 'gp')
    d = os.path.join(gp, 'src/github.com/Symantec')
    os.makedirs(d)
    os.symlink(repo, os.path.join(d, 'tricorder'))
    e = dict(os.environ)
    e.update(PATH='/opt/veriftools/go1.27.3/bin:' + e['PATH'], GOTOOLCHAIN='local', GO111MODULE='off', GOPROXY='off',
             GOFLAGS='', GOWORK='off', GOENV='off', GOPATH=gp, GOCACHE='/tmp/seedcache', TZ='UTC')
    return e, os.path.join(d, 'tricorder')


def main():
    make = None
    a = sys.argv[1:]
    if a[0] == '--make':
        make = {}
        exec(open(a[1]).read(), make)
        name = make['name']
    else:
        name = a[0]
    d = os.path.join(V, 'seeded', name)
    w = tempfile.mkdtemp(prefix='seed-', dir='/tmp')
    try:
        repo = os.path.join(w, 'repo')
        sh(['git', 'clone', '-q', '/repo', repo], w)
        if make:
            os.makedirs(d, exist_ok=True)
            for path, old, new in make['edits']:
                p = os.path.join(repo, path)
                s = open(p).read()
                if s.count(old) != 1:
                    sys.exit('%s: text occurs %d times in %s:\n%s' % (name, s.count(old), path, old))
                open(p, 'w').write(s.replace(old, new))
            r = sh(['gofmt', '-l', '.'], repo)
            patch = sh(['git', 'diff'], repo).stdout
            open(os.path.join(d, 'patch.diff'), 'w').write(patch)
            open(os.path.join(d, 'main.go'), 'w').write(make['demo'])
            open(os.path.join(d, 'demo.sh'), 'w').write(DEMO)
            os.chmod(os.path.join(d, 'demo.sh'), 0o755)
            json.dump(dict(property=make['property'], needs=make['needs'], what_it_breaks=make['breaks']),
                      open(os.path.join(d, 'meta.json'), 'w'), indent=1)
            sh(['git', 'checkout', '-q', '--', '.'], repo)
        demo = os.path.join(d, 'demo.sh')
        r = sh(['bash', demo], repo)
        if r.returncode != 0:
            sys.exit('%s: demo fails on the unchanged tree (%d)\n%s%s' % (name, r.returncode, r.stdout[-1500:], r.stderr[-1500:]))
        r = sh(['git', 'apply', os.path.join(d, 'patch.diff')], repo)
        if r.returncode:
            sys.exit('%s: patch does not apply: %s' % (name, r.stderr))
        e, link = goenv(w, repo)
        r = subprocess.run(['go', 'test', '-vet=off', '-count=1', '-json', './...'], cwd=link, env=e, capture_output=True, text=True)
        passed = set()
        for l in r.stdout.splitlines():
            try:
                x = json.loads(l)
            except ValueError:
                continue
            if x.get('Action') == 'pass' and x.get('Test'):
                passed.add(x['Test'])
        base = json.dumps(json.load(open('/opt/vp/BASELINE.json')))
        miss = [t for t in set(re.findall(r'\bTest\w+', base)) if t not in passed]
        if miss:
            sys.exit('%s: tests fail with the patch: %s' % (name, miss[:8]))
        r = sh(['bash', demo], repo)
        if r.returncode == 0:
            sys.exit('%s: demo passes with the patch\n%s' % (name, r.stdout[-800:]))
        print('%s: confirmed (demo: %s)' % (name, (r.stdout + r.stderr).strip()[-300:]))
    finally:
        shutil.rmtree(w, True)


main()
