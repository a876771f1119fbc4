"""Common machinery of the checks: build the driver from /repo's working tree,
run TLC, run the driver, collect mismatches, write evidence."""
import atexit, json, os, re, shutil, subprocess, sys, tempfile, time, hashlib
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')  # another tree only in self-tests (tools/mut.py)
EVIDENCE = os.environ.get('VERIF_EVIDENCE', os.path.join(VERIF, 'evidence'))
SPEC = os.path.join(VERIF, 'spec')
SEED = int(os.environ.get('VERIF_SEED', '1') or '1')
NCPU = os.cpu_count() or 4
JAVA = 'java'
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


def next_event(d, at):
    """the first event of a rejected history that was not explained"""
    try:
        return dict(event=d['ev'][int(at) - 1])
    except (TypeError, KeyError, IndexError, ValueError):
        return None


class CheckError(Exception):
    """The check could not be carried out (never a verdict)."""


class Found(Exception):
    """A violation of the property was found; nothing more needs to be run."""


class Ctx:
    def __init__(self, prop, tier):
        self.prop = prop
        self.tier = tier
        self.quick = tier == 'quick'
        self.seed = SEED
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix='verif-%s-' % prop, dir='/tmp')
        atexit.register(shutil.rmtree, self.dir, True)
        self.bins = {}
        self.goenv_ready = False
        self.mismatches = []
        self.notes = []
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0,
                        samples=[], components=[])
        self.assumptions = []

    def log(self, *a):
        print('[%6.1fs] %s' % (time.time() - self.t0, ' '.join(map(str, a))), flush=True)

    # ---------------------------------------------------------------- build
    def goenv(self):
        gp = os.path.join(self.dir, 'gp')
        cache = os.path.join(self.dir, 'gocache')
        if not self.goenv_ready:
            link = os.path.join(gp, 'src/github.com/Symantec')
            os.makedirs(link)
            os.symlink(REPO, os.path.join(link, 'tricorder'))
            if os.path.isdir('/opt/vp/gocache'):
                shutil.copytree('/opt/vp/gocache', cache, symlinks=True)
            else:
                os.makedirs(cache)
            self.goenv_ready = True
        e = dict(os.environ)
        e.update(GOTOOLCHAIN='local', GO111MODULE='off', GOPROXY='off', GOFLAGS='',
                 GOWORK='off', GOENV='off', TZ='UTC', GOCACHE=cache,
                 GOPATH=os.path.join(VERIF, 'harness/gopath') + ':' + gp,
                 PATH='/opt/veriftools/go1.27.3/bin:' + e.get('PATH', '/usr/bin:/bin'))
        e.pop('GOROOT', None)
        return e

    def build(self, yields=False):
        """Builds the driver against /repo's working tree. With yields, the
        code under test gets a preemption point before every statement; with
        yields='clock', it uses a clock that runs a hundred times as fast."""
        key = 'c' if yields == 'clock' else 'y' if yields else 'p'
        if key in self.bins:
            return self.bins[key]
        env = self.goenv()
        out = os.path.join(self.dir, 'vdriver-' + key)
        args = []
        if yields:
            yd = os.path.join(self.dir, 'yield-' + key)
            os.makedirs(yd)
            yg = os.path.join(self.dir, 'yieldgen-' + key)
            r = subprocess.run(['go', 'build', '-o', yg, 'yieldgen'], env=env, cwd=self.dir,
                               capture_output=True, text=True)
            if r.returncode:
                raise CheckError('building yieldgen failed:\n' + r.stderr)
            pk = [p for p in ('go/tricorder', 'go/healthserver') if os.path.isdir(os.path.join(REPO, p))]
            r = subprocess.run([yg] + (['-clock'] if key == 'c' else []) + [yd, REPO, os.path.join(self.dir, 'gp/src/github.com/Symantec/tricorder')] + pk,
                               capture_output=True, text=True)
            if r.returncode:
                raise CheckError('yieldgen failed:\n' + r.stderr)
            args = ['-overlay', os.path.join(yd, 'overlay.json')]
        r = subprocess.run(['go', 'build'] + args + ['-o', out, 'vdriver'], env=env, cwd=self.dir,
                           capture_output=True, text=True, timeout=600)
        if r.returncode and yields:
            self.log('overlay build failed, using the plain build:', r.stderr[:300])
            self.notes.append(('clock' if key == 'c' else 'preemption-point') + ' overlay could not be built')
            out = self.build(False)
        elif r.returncode:
            raise CheckError('building the driver against /repo failed:\n' + r.stdout + r.stderr)
        self.bins[key] = out
        return out

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, cfg=None, consts=None, env=None, workers=None, timeout=800,
            simulate=None, extra=(), heap='6g', dfs=False, allow_error=False, keep=None, small=False):
        """Runs TLC on /verif/spec/<module>.tla. cfg: a file in spec/ (default
        <module>.cfg); consts: text of extra config lines. Returns a dict."""
        n = len(os.listdir(self.dir))
        wd = os.path.join(self.dir, 'tlc%d-%s-%d' % (n, module, time.monotonic_ns() % 10**9))
        os.makedirs(wd)
        for f in os.listdir(SPEC):
            if f.endswith('.tla'):
                shutil.copy(os.path.join(SPEC, f), wd)
        text = open(os.path.join(SPEC, cfg or module + '.cfg')).read()
        for k, v in (consts or {}).items():
            text, c = re.subn(r'(?m)^(\s*(?:CONSTANTS?\s+)?)%s\s*=.*$' % re.escape(k),
                              lambda m: '%s%s = %s' % (m.group(1), k, v), text)
            if c != 1:
                raise CheckError('constant %s not found once in config of %s' % (k, module))
        open(os.path.join(wd, 'run.cfg'), 'w').write(text)
        outf = keep or os.path.join(wd, 'out.txt')
        cmd = [JAVA] + (['-XX:+UseSerialGC', '-XX:TieredStopAtLevel=1'] if small else ['-XX:+UseParallelGC']) + [ '-Xmx' + heap, '-Xss16m', '-Djava.io.tmpdir=' + wd]
        if dfs:
            cmd.append('-Dtlc2.tool.queue.IStateQueue=StateDeque')
        cmd += ['-cp', CP, 'tlc2.TLC', '-config', 'run.cfg', '-metadir', os.path.join(wd, 'meta'),
                '-workers', str(workers or NCPU), '-noGenerateSpecTE']
        if simulate:
            cmd += ['-simulate', simulate, '-seed', str(self.seed)]
        cmd += list(extra) + [module + '.tla']
        e = dict(os.environ)
        e.update(env or {})
        with open(outf, 'w') as fo:
            try:
                r = subprocess.run(cmd, cwd=wd, stdout=fo, stderr=subprocess.STDOUT, env=e, timeout=timeout)
            except subprocess.TimeoutExpired:
                raise CheckError('TLC on %s exceeded %d s' % (module, timeout))
        res = dict(rc=r.returncode, out=outf, generated=0, distinct=0, inits=0, lines=[])
        tail = []
        with open(outf) as f:
            for line in f:
                if line.startswith('"'):
                    if line[1] in 'EIS':
                        continue
                    try:
                        res['lines'].append(json.loads(line))
                        continue
                    except ValueError:
                        pass  # part of an error message
                if not line.startswith(('Parsing file', 'Semantic processing')):
                    tail.append(line)
        tail = ''.join(tail)
        m = re.search(r'(\d+) states generated, (\d+) distinct states found', tail)
        if m:
            res['generated'], res['distinct'] = int(m.group(1)), int(m.group(2))
        m = re.search(r'Finished computing initial states: (\d+) (?:distinct )?state', tail)
        if m:
            res['inits'] = int(m.group(1))
        res['tail'] = tail[-6000:]
        if r.returncode and not allow_error:
            raise CheckError('TLC on %s ended with %d:\n%s' % (module, r.returncode, tail[-3000:]))
        return res

    def graph(self, module, cfg=None, consts=None, **kw):
        """Model checks module and keeps the printed state graph for replay."""
        out = os.path.join(self.dir, 'graph-%s-%d.txt' % (module, time.monotonic_ns() % 10**9))
        r = self.tlc(module, cfg, consts, keep=out, **kw)
        edges = 0
        with open(out) as f:
            for line in f:
                if line.startswith('"E'):
                    edges += 1
        if edges == 0 or edges != r['generated'] - r['inits']:
            raise CheckError('%s: printed %d transitions, TLC generated %d states (%d initial)' %
                             (module, edges, r['generated'], r['inits']))
        self.cov['states'] += r['distinct']
        self.cov['transitions'] += edges
        self.log('%s: %d states, %d transitions checked and emitted' % (module, r['distinct'], edges))
        r['edges'] = edges
        return out, r

    def table(self, name, module, cmd, cfg=None, consts=None, args=(), shards=None, crash_props=(),
              select=None, env=None, yields=False):
        """Model -> code: the cases (with expected results) that the
        specification computes are run against the code."""
        r = self.tlc(module, cfg, consts)
        cs = [x[1:] for x in r['lines'] if isinstance(x, str) and x.startswith('C')]
        if len(cs) < 0.9 * r['distinct'] or not cs:
            raise CheckError('%s: %d cases printed for %d states' % (module, len(cs), r['distinct']))
        cs = sorted(set(cs))
        if select:
            cs = [c for c in cs if select(c)]
        f = os.path.join(self.dir, 'cases-%s-%d' % (module, time.monotonic_ns()))
        with open(f, 'w') as fo:
            fo.write('\n'.join(cs) + '\n')
        d = self.shards(self.build(yields), cmd, ['-in', f] + list(args), shards, env=env)
        self.take(d, crash_props)
        self.cov['states'] += r['distinct']
        self.cov['traces_validated_against_impl'] += d['counts'].get('cases', 0)
        self.cov['components'].append(dict(component=name, spec=module, direction='specification -> code (cases)',
                                           spec_states=r['distinct'], counts=d['counts']))
        if len(self.cov['samples']) < 8:
            self.cov['samples'].append(dict(component=name, case=cs[len(cs) // 2][:2000]))
        self.log('%s: %d cases of %s run, %d mismatches' % (name, len(cs), module, len(d['mismatches'])))
        if not d['counts'].get('cases') and not d['mismatches']:
            raise CheckError('%s: no case was run' % name)
        return d

    # --------------------------------------------------------------- driver
    def run1(self, binary, cmd, args, timeout=600, env=None, wrapper=()):
        out = os.path.join(self.dir, 'res-%s-%d.json' % (cmd, time.monotonic_ns()))
        a = list(wrapper) + [binary, cmd, '-out', out, '-seed', str(self.seed)] + [str(x) for x in args]
        e = dict(os.environ)
        e.update(TZ='UTC', GOTRACEBACK='all')
        e.update(env or {})
        try:
            r = subprocess.run(a, cwd=self.dir, capture_output=True, text=True, errors='replace', timeout=timeout, env=e)
        except subprocess.TimeoutExpired:
            raise CheckError('driver %s exceeded %d s' % (cmd, timeout))
        if r.returncode != 0:
            crash = crashed(r.stderr)
            if crash and r.returncode == 2:
                return dict(counts={}, samples=[], done=False, crash=crash,
                            mismatches=[dict(props=['*crash'], what='the process died: ' + crash,
                                             detail=r.stderr[-3000:], replay=' '.join(a[1:]))])
            raise CheckError('driver %s %s ended with %d:\n%s' % (cmd, args, r.returncode, r.stderr[-3000:]))
        d = json.load(open(out))
        os.unlink(out)
        if not d.get('done'):
            raise CheckError('driver %s did not finish' % cmd)
        for k in ('mismatches', 'samples'):
            d[k] = d.get(k) or []
        return d

    def shards(self, binary, cmd, args, shards=None, timeout=600, env=None):
        n = shards or NCPU
        with ThreadPoolExecutor(NCPU) as ex:
            fs = [ex.submit(self.run1, binary, cmd, args + ['-shard', i, '-shards', n], timeout, env)
                  for i in range(n)]
            rs = [f.result() for f in fs]
        return merge(rs)

    def replay(self, name, module, cmd, cfg=None, consts=None, args=(), shards=None, yields=False,
               crash_props=(), extra=None, env=None, tlc_kw=None, timeout=800):
        """Model -> code: model check, then replay every transition."""
        g, tr = self.graph(module, cfg, consts, **(tlc_kw or {}))
        r = self.shards(self.build(yields), cmd, ['-graph', g] + list(args), shards, timeout, env)
        os.unlink(g)
        self.take(r, crash_props)
        c = r['counts']
        cov, left = c.get('edges_covered', 0), c.get('edges_left', 0)
        if not r['mismatches'] and cov + left == 0:
            raise CheckError('%s: nothing was replayed' % name)
        self.cov['traces_validated_against_impl'] += c.get('walks', 0)
        self.cov['components'].append(dict(component=name, spec=module, direction='specification -> code',
                                           spec_states=tr['distinct'], spec_transitions=tr['edges'],
                                           transitions_replayed=cov, transitions_not_replayed=left,
                                           counts=c))
        self.log('%s: replayed %d transitions in %d steps, %d mismatches' %
                 (name, cov, c.get('steps', 0), c.get('mismatches', len(r['mismatches']))))
        self.samples(name, r)
        return r

    def samples(self, name, r):
        for s in r.get('samples', [])[:2]:
            if len(self.cov['samples']) < 8:
                t = json.dumps(s)
                self.cov['samples'].append(dict(component=name, case=s if len(t) < 3000 else t[:3000]))

    def take(self, r, crash_props=()):
        for m in r['mismatches']:
            if m['props'] == ['*crash']:
                m['props'] = list(crash_props)
                if not crash_props:
                    raise CheckError('driver crashed: %s\n%s' % (m['what'], m['detail']))
            self.mismatches.append(m)
        self.stop_if_found()

    def stop_if_found(self):
        if any(self.prop in m['props'] and not m.get('finding') for m in self.mismatches):
            raise Found()

    # ------------------------------------------------------------ histories
    def validate(self, name, module, lines, props, cfg=None, consts=None, batch=None, env=None,
                 describe=None, classify=None, workers=1, parallel=None, timeout=700, dfs=False, off=None, reduce=None):
        """Code -> model: TLC decides for every recorded history whether the
        specification explains it. The trace spec prints "OK<k>" for each
        history k (from 1) it explains completely. Returns rejected indexes."""
        if not lines:
            raise CheckError('%s: no histories recorded' % name)
        parallel = parallel or NCPU
        batch = batch or max(1, (len(lines) + parallel - 1) // parallel)
        jobs = [(i, lines[i:i + batch]) for i in range(0, len(lines), batch)]

        told = {}  # rejected history -> property -> first event that breaks it

        def run(job, at=False, without='none', timeout=timeout):
            base, ls = job
            f = os.path.join(self.dir, 'hist-%s-%d-%d.ndjson' % (module, base, time.monotonic_ns()))
            with open(f, 'w') as fo:
                for l in ls:
                    fo.write((l if isinstance(l, str) else json.dumps(l)) + '\n')
            e = dict(VERIF_TRACE=f, VERIF_AT='1' if at else '0', VERIF_OFF=without)
            e.update(env or {})
            r = self.tlc(module, cfg, consts, env=e, workers=workers, timeout=timeout, heap='3g', dfs=dfs, small=self.quick)
            ok = set()
            far = {}
            for x in r['lines']:
                if isinstance(x, str) and x.startswith('PR'):
                    k, l, p = x[2:].split(',')
                    m = told.setdefault(base + int(k) - 1, {})
                    m[p] = min(m.get(p, 10**9), int(l))
                elif isinstance(x, str) and x.startswith('OK'):
                    ok.add(int(x[2:]))
                elif isinstance(x, str) and x.startswith('AT'):
                    k, l = x[2:].split(',')
                    far[int(k)] = max(far.get(int(k), 0), int(l))
            os.unlink(f)
            rej = [(base + k - 1, far.get(k)) for k in range(1, len(ls) + 1) if k not in ok]
            return r['distinct'], r['generated'], rej, len(ls)

        with ThreadPoolExecutor(parallel) as ex:
            rs = list(ex.map(run, jobs))
        st, gen = sum(r[0] for r in rs), sum(r[1] for r in rs)
        rej = [x for r in rs for x in r[2]]
        self.cov['states'] += st
        self.cov['transitions'] += gen
        self.cov['traces_validated_against_impl'] += len(lines) - len(rej)
        self.cov['components'].append(dict(component=name, spec=module, direction='code -> specification',
                                           histories=len(lines), rejected=len(rej), spec_states=st))
        self.log('%s: %d histories checked by TLC (%d states), %d rejected' % (name, len(lines), st, len(rej)))
        rej.sort(key=lambda x: self.prop not in told.get(x[0], ()))
        for i, (k, at) in enumerate(rej[:24]):
            if i >= (4 if off else 6) and any(self.prop in m['props'] for m in self.mismatches):
                break
            l = lines[k]
            d = json.loads(l) if isinstance(l, str) else l
            if k in told:
                ps = sorted(told[k])
                at = told[k].get(self.prop, min(told[k].values()))
                self.mismatches.append(dict(props=ps, what='%s: recorded history is not a behaviour of %s (event %d)' % (name, module, at),
                                            detail=d[at - 1], replay=d))
                continue
            # how far the specification explains it
            again = run((0, [l]), True)[2]
            if not again:
                raise CheckError('%s: TLC rejected a history and then explained it' % name)
            at = again[0][1]
            if off:
                # the properties whose guards alone explain the rejection
                def explains(p):
                    try:
                        return not run((0, [l]), False, p, timeout=40)[2]
                    except CheckError:
                        return False
                with ThreadPoolExecutor(parallel) as ex:
                    ps = [p for p, x in zip(off, ex.map(explains, off)) if x] or list(off)
            elif classify:
                ps = classify(d, at)
            else:
                ps = list(props)
            self.mismatches.append(dict(props=ps, what='%s: recorded history is not a behaviour of %s'
                                        % (name, module) + (' (explained up to event %s)' % at if at else ''),
                                        detail=describe(d) if describe else next_event(d, at), replay=d))
        if rej and reduce and not any(self.prop in m['props'] for m in self.mismatches):
            # without the observations that do not bear on this property
            red = [reduce(json.loads(lines[k]) if isinstance(lines[k], str) else lines[k]) for k, _ in rej[:64]]
            for k, at in run((0, red), True)[2]:
                ps = classify(red[k], at)
                self.mismatches.append(dict(props=ps, what='%s: recorded history, without observations that concern other properties, is not a behaviour of %s (explained up to event %s)'
                                            % (name, module, at), detail=None, replay=red[k]))
        if lines and len(self.cov['samples']) < 8:
            l = lines[0]
            t = l if isinstance(l, str) else json.dumps(l)
            self.cov['samples'].append(dict(component=name, case=t[:2000]))
        self.stop_if_found()
        return rej

    # --------------------------------------------------------------- verdict
    def finish(self, level):
        mine = [m for m in self.mismatches if self.prop in m['props']]
        other = [m for m in self.mismatches if self.prop not in m['props']]
        for m in other[:5]:
            self.log('note: deviation that concerns other properties %s: %s' % (m['props'], m['what']))
        ed = EVIDENCE
        os.makedirs(ed, exist_ok=True)
        known, reported = known_findings(self.prop), []
        new = []
        for m in mine:
            for k in known:
                if m.get('finding') == k['id']:
                    reported.append(k)
                    break
            else:
                new.append(m)
        self.cov['seed'] = self.seed
        if self.notes:
            self.cov['notes'] = self.notes
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=level, coverage=self.cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(new))
        with open(os.path.join(ed, self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        for k in {k['id']: k for k in reported}.values():
            print('KNOWN-FINDING: property=%s %s' % (self.prop, k['what']))
        if new:
            path = os.path.join(ed, '%s-violation.json' % self.prop)
            with open(path, 'w') as f:
                json.dump(new[:20], f, indent=1, default=str)
            for m in new[:5]:
                print('  %s\n    %s' % (m['what'], json.dumps(m.get('detail'), default=str)[:700]))
            print('VIOLATION property=%s replay=%s' % (self.prop, path))
            return 1
        print('OK property=%s tier=%s states=%d transitions=%d validated=%d wall=%.1fs' % (
            self.prop, self.tier, self.cov['states'], self.cov['transitions'],
            self.cov['traces_validated_against_impl'], time.time() - self.t0))
        return 0


def known_findings(prop):
    p = os.path.join(VERIF, 'known_findings.jsonl')
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l:
                d = json.loads(l)
                if d.get('status') == 'known' and d['property'] == prop:
                    out.append(d)
    return out


def crashed(err):
    """The Go runtime's reason, if the process died inside tricorder's code."""
    m = re.search(r'(?m)^(fatal error: .*|panic: .*)$', err)
    if not m:
        return None
    body = err[m.start():]
    if 'out of memory' in m.group(1):
        return None
    if m.group(1).startswith('panic'):
        # the goroutine that panicked, and where
        g = re.search(r'(?ms)^goroutine \d+ .*?(?:\n\n|\Z)', body)
        body = g.group(0) if g else body
        for f in re.findall(r'(?m)^(\S+)\(', body):
            if f.startswith('main.') and not re.search('callback panics|connection gone', m.group(1)):
                return None  # our own mistake
            if f.startswith('github.com/Symantec/'):
                break
    if 'github.com/Symantec/tricorder/go/' not in body:
        return None
    return m.group(1)[:300]


def merge(rs):
    out = dict(counts={}, mismatches=[], samples=[])
    for r in rs:
        for k, v in r['counts'].items():
            out['counts'][k] = out['counts'].get(k, 0) + v
        out['mismatches'] += r['mismatches']
        out['samples'] += r['samples']
    return out
