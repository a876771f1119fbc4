"""What is run for each property."""
import json, os
from vlib import CheckError

CHECKS = {}


def check(*ids):
    def d(f):
        for i in ids:
            CHECKS[i] = f
        return f
    return d


@check('C21')
def health(c):
    c.replay('health replay', 'Health', 'health-mbt', args=['-extra', 2000 if c.quick else 50000],
             shards=4, crash_props=['C21'])
    n = 800 if c.quick else 20000
    lines, r = record(c, 'health-conc', n, crash_props=['C21'])
    if not any('C21' in m['props'] for m in c.mismatches):
        c.validate('health histories', 'HealthConc', lines, ['C21'])


def record(c, cmd, n, shards=None, args=(), crash_props=(), yields=True, timeout=600, split=True):
    """Records n histories with the driver; returns the trace lines."""
    from concurrent.futures import ThreadPoolExecutor
    import vlib
    b = c.build(yields)
    shards = shards or vlib.NCPU
    files = [os.path.join(c.dir, 'tr-%s-%s-%d' % (cmd, yields, i)) for i in range(shards)]

    def one(i):
        return c.run1(b, cmd, ['-trace', files[i], '-n', (n + shards - 1) // shards if split else n,
                               '-shard', i, '-shards', shards] + list(args), timeout)
    with ThreadPoolExecutor(vlib.NCPU) as ex:
        rs = list(ex.map(one, range(shards)))
    r = vlib.merge(rs)
    c.take(r, crash_props)
    lines = []
    for f in files:
        if os.path.exists(f):
            ls = [x for x in open(f, newline='\n').read().split('\n') if x]
            lines += ls
    c.samples(cmd, r)
    return lines, r


PRIM = {'RegMetric': 'C06', 'RegMany': 'C06', 'RegDir': 'C07', 'GetDir': 'C07', 'Abs': 'C07', 'Unreg': 'C08', 'UnregDir': 'C08'}


def reg_classify(ev, at):
    """Which properties the first unexplained event of a registry history bears on."""
    e = ev[at - 1]
    if e['op'] in PRIM:
        # wrong handles and lookups can be the late effect of an unregistration
        last = [x['op'] for x in ev[:at - 1] if x['op'] in PRIM and x['op'] not in ('GetDir', 'Abs')]
        return [PRIM[e['op']]] + ([PRIM[last[-1]]] if last and e['op'] in ('GetDir', 'Abs') else [])
    last = [x['op'] for x in ev[:at - 1] if x['op'] in PRIM and x['op'] not in ('GetDir', 'Abs')]
    ps = ['C09'] if e['op'] == 'List' else ['C11']
    if e.get('if'):
        ps.append('C11')
    # a deviation of the listing right after a change belongs to the change, too
    if last and e['op'] == 'List' and at >= 2 and ev[at - 2]['op'] == last[-1]:
        ps.append(PRIM[last[-1]])
    return ps


FOREIGN = {'C06': ('Page', 'Get', 'Abs'), 'C07': ('List', 'Page', 'Get'), 'C08': ('Page', 'Get', 'Abs'),
           'C09': ('Page', 'Get', 'Abs'), 'C11': ('Abs',)}


def conc_classify(ev, at):
    """Which properties an unexplained concurrent history of the registry bears on."""
    ev = ev['ev']
    e = ev[at - 1]
    call = ev[e['c'] - 1] if e['k'] == 'r' else e
    ps = {'C10'}
    calls = [x for x in ev if x['k'] == 'c']
    last = max([i for i, x in enumerate(ev) if x['k'] == 'c' and x['op'] not in ('List', 'Get', 'GetDir', 'Abs')] or [0])
    if at - 1 > last and any(x['op'] in ('Unreg', 'UnregDir') for x in calls):
        ps.add('C08')
    if call['op'] in PRIM:
        ps.add(PRIM[call['op']])
    else:
        ok = [(x['b'], str(x['rel'])) for x in calls if x['op'] == 'RegMetric' and x['res'] == 'ok']
        if len(ok) != len(set(ok)):
            ps.add('C06')
        # nothing but the listing was going on
        if not any(x['k'] == 'c' for x in ev[at:]):
            ps.add('C09')
    return sorted(ps)


def reg_conc(c, n):
    r = c.tlc('RegistryConcMC', consts={} if c.quick else {'K': '3'}, timeout=1500)
    c.cov['states'] += r['distinct']
    c.cov['transitions'] += r['generated']
    c.log('RegistryConcMC: %d states' % r['distinct'])
    pl, r = record(c, 'reg-preempt', 1, crash_props=['C10', 'C06'], args=['-mode', c.prop])
    c.log('interrupted operations: %s' % r['counts'])
    lines, r = record(c, 'reg-conc', n, crash_props=['C10', 'C06'], args=['-mode', c.prop])
    c.validate('concurrent registry histories', 'RegistryConcTrace', pl + lines, [], classify=conc_classify)


@check('C10')
def registry_conc(c):
    reg_conc(c, 6000 if c.quick else 200000)


@check('C06', 'C07', 'C08', 'C09', 'C11')
def registry(c):
    if c.prop in ('C06', 'C07', 'C08'):
        reg_conc(c, 1600 if c.quick else 60000)
    c.replay('registry replay', 'Registry', 'registry-mbt', args=['-extra', 4000 if c.quick else 50000, '-maxlen', 60],
             crash_props=[c.prop])
    lines, r = record(c, 'registry-trace', 64 if c.quick else 1600, crash_props=[c.prop], yields=False)
    c.validate('registry traces', 'RegistryTrace', [l for i in range(8) for l in lines[i::8]], [], classify=reg_classify,
               reduce=lambda ev: [e for e in ev if e['op'] not in FOREIGN[c.prop]])
    if c.prop in ('C06', 'C11'):
        metrics(c)


SESS = ['C01', 'C02', 'C03', 'C04', 'C05']


@check(*SESS)
def sessions(c):
    if not c.quick:
        # the design itself, with all interleavings
        r = c.tlc('SessionsMC', 'SessionsDesign.cfg', {'Reqs': '{1, 2, 3}', 'MaxWant': '2', 'Fns': '1'}, timeout=3000, heap='16g')
        c.cov['states'] += r['distinct']
        r2 = c.tlc('SessionsMC', 'SessionsLive.cfg', timeout=1500)
        c.log('design: %d states with 3 requests, %d states for termination' % (r['distinct'], r2['distinct']))
    lines = []
    # requests that take real time, while everything else is recorded
    c.build(False)
    from concurrent.futures import ThreadPoolExecutor
    ex = ThreadPoolExecutor(2)
    slow = ex.submit(record, c, 'sessions-slow', 1, shards=8, args=['-extra', 12000 if c.quick else 100000],
                     yields=False, split=False, crash_props=SESS)
    # the same with a clock that runs fast: twenty minutes, thorough five hours
    c.build('clock')
    fast = ex.submit(record, c, 'sessions-slow', 1, shards=8, args=['-extra', 12000 if c.quick else 180000],
                     yields='clock', split=False, crash_props=SESS)
    g, tr = c.graph('SessionsMC')
    ls, r = record(c, 'sessions-mbt', 1, args=['-graph', g, '-maxlen', 60, '-extra', 0 if c.quick else 20000],
                   yields=False, crash_props=SESS)
    lines += ls
    c.cov['components'].append(dict(component='schedules of requests', spec='SessionsMC', direction='specification -> code',
                                    spec_states=tr['distinct'], spec_transitions=tr['edges'], counts=r['counts']))
    c.log('schedules: %s' % r['counts'])
    ls, r = record(c, 'sessions-race', 1600 if c.quick else 40000, crash_props=SESS)
    c.log('races: %s' % r['counts'])
    lines += ls
    ls, r = record(c, 'sessions-cut', 10 if c.quick else 400, args=['-extra', 0 if c.quick else 1], crash_props=SESS)
    c.log('interrupted requests: %s' % r['counts'])
    lines += ls
    ls, r = record(c, 'sessions-many', 400 if c.quick else 1500, shards=4, yields=False, crash_props=SESS, split=False)
    lines += ls
    ls, r = record(c, 'sessions-wide', 3 if c.quick else 40, shards=8 if c.quick else 16, yields=False, crash_props=SESS, split=False)
    lines += ls
    for x in slow, fast:
        ls, r = x.result()
        lines += ls
    # in batches of the same effort
    c.validate('request histories', 'SessionsTrace', [l for i in range(8) for l in lines[i::8]], SESS, off=SESS)
    if c.prop == 'C04':
        r = c.tlc('IdsMC', consts={} if c.quick else {'MaxT': '2', 'Paths': '{0, 1, 2, 3, 4}'})
        c.cov['states'] += r['distinct']
        c.cov['transitions'] += r['generated']
        ls, r = record(c, 'ids', 400 if c.quick else 20000, crash_props=['C04'])
        c.log('ids: %s' % r['counts'])
        c.validate('ids and times in responses', 'IdsTrace', ls, ['C04'])


DIST = ['C15', 'C16', 'C18', 'C19']


@check(*DIST)
def dist(c):
    c.replay('distribution replay', 'DistMC', 'dist-mbt', args=['-extra', 2000 if c.quick else 100000],
             consts={} if c.quick else {'MaxN': '5'}, crash_props=[c.prop])
    if c.prop in ('C19', 'C16'):
        c.replay('distribution units replay', 'DistMC', 'dist-mbt', cfg='DistUnitMC.cfg', shards=4,
                 consts={} if c.quick else {'MaxN': '4'},
                 args=['-extra', 1000 if c.quick else 50000], crash_props=[c.prop])
    if c.prop == 'C15':
        c.table('bucketers', 'Bucketer', 'buckets', crash_props=['C15'])
    if c.prop == 'C19':
        c.table('durations', 'TimeConv', 'dist-dur', crash_props=['C19'])
        lines, r = record(c, 'unit-conc', 1500 if c.quick else 60000, crash_props=['C19'])
        c.log('concurrent registrations: %s' % r['counts'])
        c.validate('concurrent registrations of a distribution', 'UnitConc', lines, ['C19'])
    lines, r = record(c, 'dist-trace', 600 if c.quick else 30000, crash_props=[c.prop], yields=False)
    c.validate('distribution traces', 'DistTrace', lines, DIST, off=DIST)


@check('C17')
def dist_conc(c):
    c.replay('distribution replay', 'DistMC', 'dist-mbt', crash_props=['C17'], args=['-extra', 0])
    pl, r = record(c, 'dist-preempt', 1, crash_props=['C17'])
    c.log('interrupted operations: %s' % r['counts'])
    lines, r = record(c, 'dist-conc', 3000 if c.quick else 100000, crash_props=['C17'])
    c.validate('concurrent distribution histories', 'DistConc', pl + lines, ['C17'])


@check('C20')
def lists(c):
    c.replay('list replay', 'List', 'list-mbt', args=['-extra', 10000 if c.quick else 200000, '-maxlen', 40], crash_props=['C20'],
             consts={} if c.quick else {'Elems': '{1, 2, 3}', 'MaxLen': '3'})
    pl, r = record(c, 'list-preempt', 1, crash_props=['C20'])
    c.log('interrupted operations: %s' % r['counts'])
    lines, r = record(c, 'list-conc', 3000 if c.quick else 100000, crash_props=['C20'])
    c.validate('concurrent list histories', 'ListConc', pl + lines, ['C20'])


@check('C13')
def times(c):
    c.table('times and durations', 'TimeConv', 'timeconv', crash_props=['C13'])
    lines, r = record(c, 'timeconv-rand', 400 if c.quick else 20000, crash_props=['C13'], yields=False)
    c.validate('random times and durations', 'TimeConvTrace', lines, ['C13'])


@check('C27')
def pretty(c):
    c.table('numbers, durations and times in HTML', 'PrettyMC', 'pretty', crash_props=['C27'], consts={} if c.quick else {'More': 'TRUE'})
    lines, r = record(c, 'pretty-rand', 400 if c.quick else 20000, crash_props=['C27'], yields=False)
    c.validate('random values in HTML', 'PrettyTrace', lines, ['C27'])


@check('C26')
def types(c):
    c.table('kinds and conversions', 'Types', 'types', crash_props=['C26'])
    lines, r = record(c, 'types-rand', 400 if c.quick else 30000, crash_props=['C26'], yields=False)
    c.validate('random conversions', 'TypesTrace', lines, ['C26'])


@check('C12', 'C14')
def values(c):
    c.table('all Go types and ways', 'Values', 'values', args=['-n', 6 if c.quick else 400], crash_props=[c.prop])
    metrics(c)


@check('C25')
def nonfinite(c):
    c.replay('finite and non-finite values', 'MetricsMC', 'nonfinite-mbt', args=['-extra', 2000 if c.quick else 100000, '-maxlen', 60], crash_props=['C25'],
             consts={} if c.quick else {'MaxReg': '6'})
    metrics(c)


def metrics(c):
    lines, r = record(c, 'metrics-trace', 320 if c.quick else 20000, args=['-maxlen', 60], crash_props=[c.prop], yields=False)
    c.validate('histories of all sorts of metrics', 'MetricsTrace', lines, [])


@check('C28')
def resources(c):
    r = c.tlc('ResourcesLife', consts={} if c.quick else {'Things': '{t1, t2, t3, t4}', 'Requests': '{r1, r2, r3}'})
    c.cov['states'] += r['distinct']
    g, tr = c.graph('ResourcesMC', consts={} if c.quick else {'MaxGroups': '2'})
    lines, r = record(c, 'resources-mbt', 1, args=['-graph', g, '-maxlen', 80, '-extra', 50 if c.quick else 5000], yields=False, crash_props=['C28'])
    c.cov['components'].append(dict(component='bulk steps', spec='ResourcesMC', direction='specification -> code',
                                    spec_states=tr['distinct'], spec_transitions=tr['edges'], counts=r['counts']))
    c.log('bulk steps: %s' % r['counts'])
    c.validate('what is kept after bulk steps', 'ResourcesTrace', lines, ['C28'])
    c.stop_if_found()
    lines, r = record(c, 'resources', 80 if c.quick else 3000, yields=False, crash_props=['C28'])
    c.validate('what is kept after long histories', 'ResourcesTrace', lines, ['C28'])


@check('C22')
def http(c):
    import vlib
    r = c.tlc('HttpMC')
    cs = sorted(set(x[1:] for x in r['lines'] if isinstance(x, str) and x.startswith('C')))
    f = os.path.join(c.dir, 'http-cases')
    open(f, 'w').write('\n'.join(cs) + '\n')
    c.cov['states'] += r['distinct']
    c.log('HttpMC: %d requests' % len(cs))
    lines, r = record(c, 'http', 48 if c.quick else 2000, args=['-in', f], crash_props=['C22'], yields=False)
    c.log('requests: %s' % r['counts'])
    c.validate('requests over HTTP', 'HttpTrace', lines, ['C22'])


@check('C23')
def flags(c):
    c.replay('flags replay', 'FlagsMC', 'flags-mbt', args=['-extra', 2000 if c.quick else 100000, '-maxlen', 40], crash_props=['C23'],
             consts={} if c.quick else {'Units': '{"Milliseconds", "None"}', 'OtherTypes': '{"int", "duration", "nogetter", "gettime"}'})
    lines, r = record(c, 'flags-trace', 400 if c.quick else 20000, crash_props=['C23'], yields=False)
    c.validate('flags histories', 'FlagsTrace', lines, ['C23'])


@check('C24')
def process(c):
    lines, r = record(c, 'process', 40 if c.quick else 1000, crash_props=['C24'], yields=False)
    c.validate('reports of the process', 'ProcessTrace', lines, ['C24'])


# technique and level note per property, for MANIFEST.json
REPLAY = 'TLC checks the TLA+ specification exhaustively within its bounds and every transition of its state graph is replayed into the real code'
TRACE = 'recorded behaviours of the real code are checked by TLC against the specification'
CONF = 'The conformance part covers the transitions, inputs and schedules counted in the evidence; within those it is exact, beyond them it is sampling by seed. Trusted: TLC, the Go toolchain, the harness in /verif/harness.'
NOTES = {
    'C06': ('TLA+ model checking (Registry) with exhaustive replay and trace validation', REPLAY + '; long random ' + TRACE + '. ' + CONF),
    'C21': ('TLA+ model checking (Health) with exhaustive replay and linearizability of recorded histories', REPLAY + '; concurrent ' + TRACE + '. ' + CONF),
}
NOTES['C10'] = ('TLA+ model checking (RegistryConc) with concurrent histories validated by TLC', 'TLC explores all interleavings of a few operations at the grain of one directory; histories of concurrent operations of the real code (with preemption points before every statement, and with operations run from callbacks inside listings) are checked by TLC to be interleavings of those steps. ' + CONF)
_s = ('TLA+ model checking (Sessions) with schedules replayed and histories validated by TLC', 'TLC explores the interleavings of requests, updates and registrations in the specification; every transition of its eager graph becomes a schedule forced on the real code with gates in callbacks and update functions, and TLC decides whether the recorded histories (also of free-running and of failing requests) are behaviours of the specification. ' + CONF)
for _p in SESS:
    NOTES[_p] = _s
_d = ('TLA+ model checking (Dist) with exhaustive replay, case tables and trace validation', REPLAY + '; long random ' + TRACE + ', and tables of cases computed by the specification are run against the code. ' + CONF)
for _p in DIST:
    NOTES[_p] = _d
NOTES['C17'] = ('TLA+ model checking (Dist) with linearizability of recorded concurrent histories', 'Concurrent histories of the real code, each operation interrupted at every statement by others or with random preemptions, are checked by TLC to be linearizable with respect to the specification. ' + CONF)
for _p in ('C07', 'C08', 'C09', 'C11'):
    NOTES[_p] = NOTES['C06']
NOTES['C20'] = ('TLA+ model checking (List) with exhaustive replay and linearizability of recorded concurrent histories', REPLAY + ', for every element type; concurrent histories of the real code, each operation interrupted at every statement by others or with random preemptions, are checked by TLC to be linearizable. ' + CONF)
CASES = 'The specification defines the result for every input and TLC computes a table of cases (checking on each what the specification itself must satisfy) that is run against the real code; random inputs and the results the real code gave are recorded and TLC decides whether they are what the specification says. '
NOTES['C13'] = ('TLA+ specification of the conversions (TimeConv) with computed case tables and recorded conversions validated by TLC', CASES + CONF)
NOTES['C27'] = ('TLA+ specification of the renderings (Pretty) with computed case tables and recorded renderings validated by TLC', CASES + CONF)
NOTES['C26'] = ('TLA+ specification of kinds and conversions (Types) with computed case tables and recorded conversions validated by TLC', CASES + CONF)
_m = ('TLA+ specification of metrics and their values (Metrics) with computed case tables and histories validated by TLC', 'TLC computes a table of all Go types and ways of registering them with what must come of each, which is run against the real code through every function and interface; random histories of registering, refusing, changing, updating and reading metrics of all sorts through every interface are recorded and TLC decides whether they are behaviours of the specification. ' + CONF)
NOTES['C12'] = _m
NOTES['C14'] = _m
NOTES['C25'] = ('TLA+ model checking (MetricsMC) with exhaustive replay and trace validation', REPLAY + ' through every interface; random histories with metrics of all sorts are recorded and ' + 'checked by TLC against the specification. ' + CONF)
NOTES['C11'] = ('TLA+ model checking (Registry, Metrics) with exhaustive replay and trace validation', REPLAY + ' through every interface; long random histories with metrics of all sorts, with names, units, descriptions, groups and times, are recorded and checked by TLC against the specification, which has every interface report the same. ' + CONF)
NOTES['C28'] = ('TLA+ specification of what a process keeps (Resources, ResourcesLife) with all bulk steps made and the figures validated by TLC', 'TLC shows on the lifecycle model that nothing is kept once no request is in progress but what is registered; every transition of the graph of bulk steps (registering, refusing, removing, replacing, looking up, requesting through each interface with each ending) is made on the real code, and longer random histories, and TLC decides after each step whether goroutines, open files, memory and the things still reachable (weak pointers) are within the specification. ' + CONF)
NOTES['C22'] = ('TLA+ specification of HTTP responses (Http) with all its requests made and the responses validated by TLC', 'TLC enumerates all requests of the specification (page, sort of target, accepted encodings); the harness makes them, one at a time and concurrently, in process and over TCP, against worlds of metrics with all sorts of names, units, descriptions and values, and TLC decides whether status, labels, encoding, shape and tags of each response are what the specification says. ' + CONF)
NOTES['C23'] = ('TLA+ model checking (FlagsMC) with exhaustive replay and trace validation', REPLAY + ', for every sort of flag; random histories of many flags are recorded and checked by TLC against the specification. ' + CONF)
NOTES['C24'] = ('TLA+ specification of the process metrics (Process) with recorded reports validated by TLC', 'Child processes with various names, arguments and loads record what they report between two looks at the figures of the operating system and the runtime; TLC decides whether every report is one the specification allows between them. This is sampling: schedules and loads are random by seed. ' + CONF)
