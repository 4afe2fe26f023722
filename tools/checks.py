import json, os, sys, traceback
from vlib import *
import engine, graph, simple, random, vptrgen, progs, errgen, dyngen, worlds

ALL = tuple(range(12))

# Kinds of mismatch (see spec/TraceRegistry.tla)
SELECT = ['call.select', 'call.args', 'call.ret']
ANYCALL = ['call.*', 'n2216.*', 'init.error']

CHECKS = {}


def check(f):
    CHECKS[f.__name__.upper()] = f
    return f


def E(*specs):
    """engine campaigns: (name, variant, shapes, scenarios, profile)"""
    return list(specs)


def world_campaigns(chk, cats, quick, thorough, variant=2, part=1, layouts=0, **kw):
    """The worlds of models MCWorlds<name>, or 1/part of them."""
    names = quick if chk.tier == 'quick' else thorough
    with ThreadPoolExecutor(4) as ex:
        texts = list(ex.map(lambda n: model_check(chk, 'MCWorlds.tla', 'MCWorlds%s.cfg' % n,
                                                  workers=4), names))
        if layouts:
            model_check(chk, 'MCCompiler.tla', 'MCCompiler%d.cfg' % layouts)
    ws = [w for t in texts for w in worlds.parse(t)]
    r = random.Random('worlds-%d' % chk.seed)
    if part > 1 and chk.tier == 'quick':
        ws = r.sample(ws, len(ws) // part)
    chk.extra['worlds_replayed'] = len(ws)
    shapes = (6, 12, 14)
    b = build_engines([(variant, shapes)])[(variant, shapes)]
    scen = worlds.scripts(r, ws, variant, **kw)
    engine.campaign(chk, 'worlds', b, variant, shapes, simple.spread(scen), cats)
    if layouts and not chk.found:
        hs = sorted({w[0] for w in ws if len(w[0]) > 2})
        scen = worlds.layouts(r, [h for h in hs if len(h) < 5], 2500 if chk.tier == 'quick' else 0,
                              variant)
        chk.extra['layouts'] = len(scen)
        engine.campaign(chk, 'layouts', b, variant, shapes, simple.spread(scen), cats)


SMALL = ('324', '414', '422', '233')
DEEP = ('324', '414', '422', '233', '423', '332', '515')


@check
def c01(chk, q):
    P = dict(history=0.05, steps=1, n2216=0.0, once=0.5, oncet=40, trace=0.0, alias=0.1)
    engine.run_campaigns(chk, [
        ('hash', 1, ALL, 2400 * q, dict(P, n=(2, 9))),
        ('large', 0, (2, 4, 8, 9, 13), 400 * q, dict(P, n=(8, 14), maxt=120)),
    ], SELECT + ['init.error'])
    if not chk.found:
        world_campaigns(chk, SELECT + ['init.error'], SMALL, DEEP, variant=1, layouts=2, once=0.3)


@check
def c02(chk, q):
    P = dict(history=0.05, steps=1, n2216=0.0, once=0.1, trace=0.0)
    engine.run_campaigns(chk, [
        ('map', 2, ALL, 2000 * q, dict(P, n=(2, 9), abcall=0.05)),
        ('indirect', 3, (1, 2, 5, 8, 13), 400 * q, dict(P, n=(3, 10), abcall=0.1)),
    ], ['call.error', 'call.report', 'call.abort'])
    if not chk.found:
        world_campaigns(chk, ['call.error', 'call.report'], SMALL, DEEP, part=3)
    if not chk.found:  # the static types of the arguments of real methods
        progs.campaign(chk, 'dispatch', 'TraceRegistry.tla', 16 * q,
                       ['call.error', 'call.report', 'call.abort'])


@check
def c03(chk, q):
    P = dict(n=(2, 10), maxt=30, alias=0.15, bad=0.08)
    engine.run_campaigns(chk, [
        ('groups', 1, (0, 1, 2, 3, 4, 5, 6, 7, 9, 10), 700 * q, dict(P, groups=5)),
        ('groups-vector', 0, (0, 2, 8, 11), 200 * q, dict(P, groups=5)),
    ], ['order', 'init.*', 'call.*'])


@check
def c04(chk, q):
    P = dict(history=0.05, steps=1, n2216=0.0, once=0.0, trace=0.0)
    engine.run_campaigns(chk, [
        ('map', 2, ALL, 1600 * q, dict(P, n=(2, 9))),
        ('deep', 5, (4, 7, 8, 9, 11), 500 * q,
         dict(P, n=(4, 10), kinds=['chain', 'forest', 'dense', 'mi'], maxt=80)),
        ('n2216', 2, (2, 4, 9, 11), 400 * q, dict(P, n=(3, 9), n2216=1.0)),
    ], ['call.next'])
    if not chk.found:
        world_campaigns(chk, ['call.next'], ('324', '422', '233'), DEEP, part=2, n2216=0.2)


@check
def c05(chk, q):
    P = dict(history=0.3, steps=2, once=0.1, trace=0.0, covariant=0.6)
    engine.run_campaigns(chk, [
        ('map', 2, ALL, 1600 * q, dict(P, n=(2, 9), n2216=0.9)),
        ('many', 1, (2, 4, 8, 9, 11), 500 * q, dict(P, n=(4, 10), n2216=0.8, maxt=80)),
        ('runs', 2, (2, 4, 8, 9, 11), 250 * q,
         dict(P, n=(3, 9), n2216=1.0, runs=3, maxt=40, alias=0.0)),
    ], ['n2216.*', 'call.next', 'init.report', 'init.error', 'call.error', 'call.select'])
    if not chk.found:
        world_campaigns(chk, ['n2216.*', 'call.*', 'init.report'], ('324', '422'), DEEP, part=2,
                        n2216=0.9)


@check
def c06(chk, q):
    P = dict(history=0.2, steps=3, n2216=0.2, once=0.0, trace=0.0, maxt=2)
    engine.run_campaigns(chk, [
        ('map', 2, ALL, 4000 * q, dict(P, n=(1, 9))),
        ('large', 0, (2, 4, 8, 9, 11, 13), 1000 * q, dict(P, n=(6, 14))),
    ], ['init.report'])
    if not chk.found:
        world_campaigns(chk, ['init.report'], SMALL, DEEP, part=2, n2216=0.3)


@check
def c07(chk, q):
    P = dict(history=1.0, steps=6, n2216=0.1, once=0.2, trace=0.05, early=0.1, maxt=20, bad=0.05)
    engine.run_campaigns(chk, [
        ('indirect', 3, ALL, 500 * q, dict(P, n=(2, 9))),
        ('vector', 0, (0, 2, 5, 8), 200 * q, dict(P, n=(2, 9))),
        ('map', 6, (1, 3, 7, 10), 200 * q, dict(P, n=(2, 9))),
    ], ANYCALL + ['init.report', 'init.policy'])
    dyn_campaigns(chk, range(4 if q == 1 else 24), 60 if q == 1 else 200,
                  ANYCALL + ['init.report'])


@check
def c08(chk, q):
    progs.campaign(chk, 'dispatch', 'TraceRegistry.tla', 72 * q,
                   ['call.*', 'init.*'])
    if not chk.found:
        progs.campaign(chk, 'files', 'TraceRegistry.tla', 20 * q, ['call.*', 'init.*'])


@check
def c09(chk, q):
    P = dict(history=0.3, steps=3, n2216=0.0, once=0.1, trace=0.0, maxt=12, alias=0.5, n=(2, 20))
    T = ['ptr', 'rand', 'step', 'small', 'dense']
    model_check(chk, 'MCPerfectHash.tla')
    b = build_one('hash.cpp', HASH)
    r = random.Random('hash-%d' % chk.seed)
    simple.campaign(chk, 'hash-policy', b, 'TraceHash.tla',
                    simple.spread(hash_scripts(r, 160 * q, 8)), ['hash.*'],
                    source=['hash.cpp', HASH, []])
    engine.run_campaigns(chk, [
        ('hash', 1, (0, 1, 5), 500 * q, dict(P, tids=T)),
        ('hash-nochecks', 5, (0, 5), 200 * q, dict(P, tids=T)),
        ('hash-indirect', 3, (0, 5), 200 * q, dict(P, tids=T)),
        ('vector', 0, (0, 5), 200 * q, P),
        ('map', 2, (0, 5), 200 * q, dict(P, tids=T)),
    ], ANYCALL + ['init.report'])


HASH = ['-O2', '-D_GLIBCXX_ASSERTIONS']


def hash_ids(r, kind, n):
    M = (1 << 64) - 1
    base = r.getrandbits(46) << 4
    f = {
        'ptr': lambda: base + 8 * r.randrange(1, 40 * n + 100),
        'typeinfo': lambda: base + 24 * r.randrange(1, 3 * n + 10),
        'rand': lambda: r.getrandbits(64),
        'small': lambda: r.randrange(0, 3 * n + 10),
        'high': lambda: r.randrange(1, 3 * n + 10) << r.choice([32, 40, 48, 54]),
        'dense': None,
        'mixed': lambda: r.choice([base + 8 * r.randrange(0, 1000), r.randrange(0, 500),
                                   r.getrandbits(64)]),
    }[kind]
    out = set()
    if kind == 'dense':
        b = r.choice([0, 1, base])
        return [b + i for i in range(n)]
    while len(out) < n:
        v = f() & M
        if v != M:          # the value reserved for "no id"
            out.add(v)
    out = list(out)
    r.shuffle(out)
    return out


def hash_scripts(r, count, big):
    scen = []
    kinds = ['ptr', 'typeinfo', 'rand', 'small', 'high', 'dense', 'mixed']
    for k in range(count):
        L = ['R']
        for _ in range(r.randint(1, 5)):
            reg = r.randrange(3)
            kind = r.choice(kinds)
            n = r.choice([0, 1, 2, 3, r.randint(2, 20), r.randint(2, 60), r.randint(20, 120)])
            ids = hash_ids(r, kind, n)
            easy = 1 if n <= 24 and kind in ('ptr', 'typeinfo', 'rand', 'mixed') else 0
            L.append('I %d %d %d %s' % (reg, easy, n, ' '.join(map(str, ids))))
            seen = set(ids)
            unk = [x for x in hash_ids(r, kind, 40) + hash_ids(r, 'mixed', 40) if x not in seen]
            L.append('H %d %d %s' % (reg, len(unk), ' '.join(map(str, unk))))
        scen.append(L)
    for k in range(big):
        n = r.randint(300, 600)
        ids = hash_ids(r, 'rand', n)
        scen.append(['R', 'I %d 0 %d %s' % (k % 3, n, ' '.join(map(str, ids))),
                     'H %d 0' % (k % 3),
                     'I %d 1 5 %s' % (k % 3, ' '.join(map(str, ids[:5])))])
    return scen


@check
def c10(chk, q):
    P = dict(history=0.6, steps=4, n2216=0.05, once=0.1, trace=0.0, maxt=10, early=0.6, n=(2, 8),
             abcall=0.1)
    engine.run_campaigns(chk, [
        ('hash', 1, (0, 1, 5), 500 * q, P),
        ('hash-indirect', 3, (0, 2), 300 * q, P),
        ('vector', 0, (0, 1), 300 * q, P),
        ('map', 2, (0, 8), 300 * q, P),
    ], ['call.unknown', 'call.notinit', 'call.abort', 'call.select', 'call.error'])
    if not chk.found:
        vptr_campaigns(chk, [(0, 0, 2, 120 * q, 0.08), (2, 0, 1, 60 * q, 0.08),
                             (1, 0, 2, 60 * q, 0.08), (0, 1, 2, 60 * q, 0.08)],
                       ['vp.error', 'vp.possible', 'vp.call'], misuse=True)


@check
def c11(chk, q):
    P = dict(history=0.7, steps=4, n2216=0.1, once=0.1, trace=0.0, maxt=10, bad=0.7, covariant=0.5,
             n=(2, 9), abinit=0.1)
    engine.run_campaigns(chk, [
        ('failing-policy', 6, ALL, 1000 * q, dict(P, fail=0.4)),
        ('hash', 1, (0, 1, 2, 5), 500 * q, P),
    ], ['init.error', 'init.policy', 'init.abort', 'call.*', 'n2216.*'])


@check
def c15(chk, q):
    P = dict(history=0.8, steps=3, n2216=0.2, once=0.2, trace=0.1, maxt=10, early=0.2,
             nreg=[2, 3, 4, 5], alias=0.2, bad=0.05)
    engine.run_campaigns(chk, [
        ('hash', 1, (0, 1, 2, 5, 7), 250 * q, dict(P, n=(2, 7))),
        ('vector', 0, (0, 1, 3), 150 * q, dict(P, n=(2, 7))),
        ('map', 6, (0, 4, 6), 150 * q, dict(P, n=(2, 7))),
        ('indirect', 3, (0, 2, 5), 150 * q, dict(P, n=(2, 7))),
    ], ANYCALL + ['init.*'])


def diag_scripts(r, n):
    env = ['', '0', '1', '1', '1', '2', '10', '11', '1 ', ' 1', '01', 'true', 'yes', '1x', '-1']
    scen = []
    # every form with every value of the variable, in every registry
    for reg in range(5):
        L = ['R']
        for v in [None] + sorted(set(env)):
            L.append('env 0 ' if v is None else 'env 1 ' + v)
            for f in range(4 if reg == 3 else 20):
                L += ['init %d %d' % (reg, f), 'calls %d' % reg]
        scen.append(L)
    for _ in range(n):
        L = ['R']
        ready = set()
        for _ in range(r.randint(5, 30)):
            x = r.randrange(5)
            op = r.choice(['init'] * 4 + ['calls'] * 4 + ['env', 'env', 'bad', 'fini'])
            if op == 'init':
                L.append('init %d %d' % (x, r.randrange(4 if x == 3 else 20)))
                ready.add(x)
            elif op == 'calls' and (x in ready or x in (2, 4)):
                L.append('calls %d' % x)
            elif op == 'env':
                L.append('env 1 ' + r.choice(env) if r.random() < 0.8 else 'env 0 ')
            elif op == 'fini':
                L.append('fini %d' % x)
                ready.discard(x)
            elif op == 'bad':
                # a failure, and a successful initialize
                f = 4 if x == 3 else 20
                L += ['bad %d 1' % x, 'init %d %d' % (x, r.randrange(f)), 'bad %d 0' % x,
                      'init %d %d' % (x, r.randrange(f)), 'calls %d' % x]
                ready.add(x)
        scen.append(L)
    return scen


@check
def c17(chk, q):
    fl = ['-O0', '-fno-lifetime-dse']
    b = build_one('diag.cpp', fl)
    r = random.Random('diag-%d' % chk.seed)
    simple.campaign(chk, 'diagnostics', b, 'TraceDiagnostics.tla',
                    simple.spread(diag_scripts(r, 400 * q)), ['diag.*'],
                    source=['diag.cpp', fl, []])
    if chk.found:
        return
    P = dict(history=0.4, steps=3, n2216=0.2, once=0.2, trace=0.8, maxt=10, bad=0.1, alias=0.2)
    engine.run_campaigns(chk, [
        ('hash', 1, ALL, 800 * q, dict(P, n=(2, 9))),
        ('vector', 0, (0, 2, 5), 200 * q, dict(P, n=(2, 9))),
        ('map', 6, (0, 1, 3), 200 * q, dict(P, n=(2, 9))),
    ], ['init.*', 'call.*', 'n2216.*'])


@check
def c18(chk, q):
    fl = ['-O0', '-fno-lifetime-dse']
    with ThreadPoolExecutor(2) as ex:
        f = ex.submit(build_one, 'errors.cpp', fl)
        text = model_check(chk, 'MCErrorHandling.tla', workers=1)
        b = f.result()
    es = graph.edges(text)
    init = next(json.loads(s) for s, a in es
                if all(x == v for f, v in (('init', 'no'), ('bad', 0), ('h', 0), ('saved', -9))
                       for x in regs_of(json.loads(s)[f])))
    r = random.Random('err-%d' % chk.seed)
    if q == 1:
        es = graph.closure(es, graph.key(init), r.sample(sorted(es), len(es) // 3))
    ws = graph.walks(es, init, maxlen=60)
    chk.extra['graph_transitions_replayed'] = len(es)
    scen = [errgen.walk(w, x) for w in ws for x in ((r.choice((0, 0, 1, 2, 6)),) if q == 1
                                                   else (0, 1, 2, 6))]
    scen += errgen.scripts(r, 400 * q)
    r.shuffle(scen)
    simple.campaign(chk, 'errors', b, 'TraceErrors.tla', simple.spread(scen), ['err.*'],
                    source=['errors.cpp', fl, []])
    if chk.found:
        return
    P = dict(history=0.4, steps=3, n2216=0.1, once=0.1, trace=0.0, maxt=10, bad=0.4, early=0.3,
             abinit=0.5, abcall=0.5, abn=3)
    engine.run_campaigns(chk, [
        ('hash', 1, (0, 1, 2, 5), 300 * q, dict(P, n=(2, 8))),
        ('map', 6, (0, 3), 200 * q, dict(P, n=(2, 8))),
    ], ['init.abort', 'init.error', 'init.policy', 'call.abort', 'call.error', 'call.report',
        'call.notinit', 'call.unknown'])


def regs_of(f):
    """A function of TLA+ on registries, in JSON."""
    return f.values() if isinstance(f, dict) else f


def build_one(source, flags=(), link_flags=()):
    (o, msg), = compile_all([(os.path.join(HARNESS, source), list(flags), list(link_flags))])
    if o is None:
        raise compile_failure(source, msg)
    return o


@check
def c20(chk, q):
    model_check(chk, 'MCThreads.tla')
    # the model distinguishes calls that share their working storage
    text, st = tlc('MCThreads.tla', 'MCThreadsShared.cfg')
    if 'Invariant AsAlone is violated' not in text:
        raise ToolError('MCThreadsShared should fail\n' + tlc_error(text))
    chk.extra['tsan'] = progs.tsan()
    progs.campaign(chk, 'threads', 'TraceRegistry.tla', 32 * q, ['call.*', 'init.*'])


@check
def c21(chk, q):
    model_check(chk, 'MCPolicies.tla')
    progs.campaign(chk, 'compose', 'TracePolicies.tla', 24 * q, ['policies.*'])


@check
def c22(chk, q):
    model_check(chk, 'MCNames.tla', 'MCNames.cfg' if q == 1 else 'MCNames3.cfg', workers=JOBS)
    progs.campaign(chk, 'names', 'TraceNames.tla', 64 * q, ['names.*'])
    if not chk.found:
        progs.rejected(chk, 24 * q)


def model_check(chk, spec, cfg=None, **kw):
    """Check a specification by itself; it must hold."""
    text, st = tlc(spec, cfg, **kw)
    if not st['ok']:
        raise ToolError('the specification %s does not hold\n%s' % (spec, tlc_error(text)))
    chk.states += st['states']
    chk.transitions += st['transitions']
    chk.extra.setdefault('model_checked', {})[cfg or spec] = st['states']
    return text


def build_vptr(variant, inplace, fixed):
    """[binary, directory of its libraries]"""
    fl = ['-O0', '-fno-lifetime-dse', '-DVARIANT=%d' % variant, '-DINPLACE=%d' % inplace]
    if fixed == 2:
        fl.append('-DABSTRACT=1')
    if fixed:
        jobs = [(os.path.join(HARNESS, 'vptr.cpp'), fl + ['-DFIXED=1'], [])]
    else:
        fl.append('-fno-gnu-unique')
        jobs = [(os.path.join(HARNESS, 'vptr.cpp'), fl + ['-rdynamic'], ['-ldl'])]
        for k in 'B C D_ V X'.split():
            jobs.append((os.path.join(HARNESS, 'vptr_lib.cpp'),
                         fl + ['-fPIC', '-shared', '-DLIB_CLASS=' + k], []))
    out = compile_all(jobs)
    for o, msg in out:
        if o is None:
            raise compile_failure('the harness', msg)
    if fixed:
        return [out[0][0]]
    d = os.path.join(BUILD, 'vptr-%d-%d-%d' % (variant, inplace, os.getpid()))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    for k, (o, _) in zip(range(3, 8), out[1:]):
        os.symlink(o, os.path.join(d, 'libvptr%d.so' % k))
    return [out[0][0], d]


def build_dyn(seed, i):
    src = os.path.join(BUILD, 'dyn', '%d-%d' % (seed, i))
    os.makedirs(src, exist_ok=True)
    jobs = []
    for k, text in enumerate(dyngen.Dyn(seed, i).sources()):
        path = os.path.join(src, 's%d.cpp' % k)
        if not os.path.exists(path) or open(path).read() != text:
            open(path, 'w').write(text)
        jobs.append((path, ['-O0', '-w', '-fno-gnu-unique', '-D_GLIBCXX_ASSERTIONS'] +
                     (['-fPIC', '-shared'] if k else ['-rdynamic']), [] if k else ['-ldl']))
    out = compile_all(jobs)
    for o, msg in out:
        if o is None:
            raise compile_failure('the harness', msg)
    d = os.path.join(BUILD, 'dyn', '%d-%d-%d' % (seed, i, os.getpid()))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    for k, (o, _) in enumerate(out[1:], 1):
        os.symlink(o, os.path.join(d, 'lib%d.so' % k))
    return [out[0][0], d]


def dyn_campaigns(chk, programs, n, cats):
    with ThreadPoolExecutor(4) as ex:
        bins = list(ex.map(lambda i: build_dyn(chk.seed, i), programs))
    for i, b in zip(programs, bins):
        g = dyngen.Dyn(chk.seed, i)
        g.sources()
        scr = g.script(random.Random('dyn-script-%d-%d' % (chk.seed, i)), n)
        simple.campaign(chk, 'libraries-%d' % i, b, 'TraceRegistry.tla',
                        simple.spread(scr), cats,
                        source={'builder': 'dyn', 'args': [chk.seed, i]})
        if len(chk.found) >= 2:
            return


BUILDERS = {'vptr': build_vptr, 'dyn': build_dyn}


def vptr_campaigns(chk, specs, cats, misuse=False):
    """specs: [(variant, inplace, fixed, scenarios, rate of changes of the environment)]"""
    with ThreadPoolExecutor(len(specs)) as ex:
        bins = list(ex.map(lambda t: build_vptr(*t[:3]), specs))
    for (v, ip, fx, n, env), b in zip(specs, bins):
        name = 'vptr-%d-%d-%d' % (v, ip, fx)
        r = random.Random('%s-%d' % (name, chk.seed))
        cfg = dict(indirect=v in (1, 3), checks=v < 3, inplace=bool(ip), env=env, misuse=misuse,
                   abstract=fx == 2)
        simple.campaign(chk, name, b, 'TraceVirtualPtr.tla',
                        simple.spread(vptrgen.scripts(r, cfg, n)), cats,
                        source={'builder': 'vptr', 'args': [v, ip, fx]})
        if len(chk.found) >= 2:
            return


def vptr_walks(chk, model, part):
    """Scenarios that cover every transition of a small model (or 1/part of them)."""
    text = model_check(chk, 'MCVirtualPtr.tla', 'MCVirtualPtr%d.cfg' % model, workers=1)
    es = graph.edges(text)
    init = next(s for s, a in es if json.loads(s)['objs'] == []
                and all(v == -1 for v in json.loads(s)['slots'].values()))
    if part > 1:
        keep = random.Random('%d-%d' % (model, chk.seed)).sample(sorted(es), len(es) // part)
        es = graph.closure(es, init, keep)
    ws = graph.walks(es, json.loads(init), maxlen=60)
    chk.extra.setdefault('graph_transitions_replayed', 0)
    chk.extra['graph_transitions_replayed'] += len(es)
    out = []
    for w in ws:
        L = ['R', 'init']
        for op, d, s, m, x in w:
            if op == 'new':
                L.append('new %d %d' % (d, x))
            elif op in ('null', 'nullc', 'def', 'drop', 'make'):
                L.append('%s %d' % (op, d))
            else:
                L.append('%s %d %d %s' % (op, d, s, m))
        out.append(L + ['clear'])
    return out


@check
def c12(chk, q):
    with ThreadPoolExecutor(6) as ex:
        f = [ex.submit(vptr_walks, chk, k, 4 if q == 1 else 1) for k in range(5)]
        b = ex.submit(build_vptr, 0, 0, 1)
        scen = [s for x in f for s in x.result()]
        b = b.result()
    simple.campaign(chk, 'vptr-model', b, 'TraceVirtualPtr.tla', simple.spread(scen), ['vp.*'],
                    source={'builder': 'vptr', 'args': [0, 0, 1]})
    if not chk.found:
        vptr_campaigns(chk, [(0, 0, 1, 250 * q, 0.04), (2, 0, 1, 80 * q, 0.04),
                             (0, 1, 1, 120 * q, 0.04), (4, 1, 1, 60 * q, 0.04)], ['vp.*'])


@check
def c13(chk, q):
    vptr_campaigns(chk, [(1, 0, 0, 200 * q, 0.15), (3, 0, 0, 150 * q, 0.15),
                         (1, 1, 0, 120 * q, 0.15), (3, 1, 0, 80 * q, 0.15)], ['vp.*'])


LISTS = (['lists.cpp'], ['-O0', '-D_GLIBCXX_ASSERTIONS', '-fno-lifetime-dse'])


@check
def c19(chk, q):
    b = build_one('lists.cpp', LISTS[1])
    text = model_check(chk, 'MCStaticList.tla', workers=1)
    ws = graph.walks(graph.edges(text), [[], []])
    code = {'push': 'P', 'remove': 'D', 'clear': 'C'}
    scen = [['R'] + ['%s %s' % (code[a[0]], ' '.join(map(str, a[1:]))) for a in w] for w in ws]
    chk.extra['graph_transitions_replayed'] = sum(len(w) for w in ws)
    r = random.Random(chk.seed)
    for _ in range(200 * q):
        where = {n: 0 for n in range(1, r.choice([3, 6, 11]))}
        lists = r.randint(1, 3)
        L = ['R']
        for _ in range(r.randint(5, 60)):
            n = r.choice(list(where))
            if where[n]:
                L.append('D %d %d' % (where[n], n))
                where[n] = 0
            elif r.random() < 0.03:
                l = r.randint(1, lists)
                L.append('C %d' % l)
                where = {n: (0 if k == l else k) for n, k in where.items()}
            else:
                where[n] = r.randint(1, lists)
                L.append('P %d %d' % (where[n], n))
        scen.append(L)
    simple.campaign(chk, 'lists', b, 'TraceStaticList.tla', simple.spread(scen), ['list'],
                    source=['lists.cpp', LISTS[1], []])


@check
def c14(chk, q):
    model_check(chk, 'MCInplaceVptr.tla', 'MCInplaceVptr5.cfg')
    progs.campaign(chk, 'life', 'TraceInplace.tla', 18 * q, ['life.*'])


@check
def c16(chk, q):
    model_check(chk, 'MCArgPassing.tla', 'MCArgPassing.cfg' if q == 1 else 'MCArgPassing1.cfg')
    progs.campaign(chk, 'pass', 'TraceArgs.tla', 24 * q, ['pass.*'])


def main(argv):
    if argv[:1] == ['--replay']:
        return replay(argv[1])
    if argv[:1] == ['--setup']:
        return setup()
    prop = argv[0]
    chk = Check(prop)
    q = 1 if chk.tier == 'quick' else 12
    try:
        CHECKS[prop](chk, q)
        return chk.finish()
    except DoesNotCompile as e:
        chk.violation(str(e), {'kind': 'compile'})
        return chk.finish()
    except ToolError as e:
        log('ERROR: %s' % e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2


def setup():
    """Nothing is kept from one run to the next: only check that the tools are there."""
    import subprocess
    for cmd in (['g++', '--version'], ['java', '-version']):
        if subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode:
            log('missing: %s' % cmd[0])
            return 2
    import shutil as sh
    if not sh.which('tlc'):
        log('missing: tlc')
        return 2
    log('ok')
    return 0


def replay(path):
    r = json.load(open(path))
    chk = Check(r['property'])
    if r['kind'] == 'engine':
        v, sh = r['variant'], tuple(r['shapes'])
        b = build_engines([(v, sh)])[(v, sh)]
        what = engine.confirm(chk, b, r['script'], r['cats'], 'replay')
        log(what or 'not reproduced')
        return 1 if what else 0
    if r['kind'] == 'simple':
        if isinstance(r['source'], dict):
            b = BUILDERS[r['source']['builder']](*r['source']['args'])
        else:
            src, flags, lf = r['source']
            b = build_one(src, flags, lf)
        probs, _ = simple.judge(b, r['spec'], os.path.join(chk.dir, 'replay'), [r['script']],
                                r['cats'], r['env'], workers=1)
        log(probs[0][1] if probs else 'not reproduced')
        return 1 if probs else 0
    if r['kind'] == 'prog':
        return progs.replay(chk, r)
    if r['kind'] == 'compile':
        return main([r['property']])
    return 2
