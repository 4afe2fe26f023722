"""Shared machinery of the checks: building harnesses from /repo's current tree,
running them, validating traces with TLC, reporting."""
import hashlib, json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, '.build')
SPEC = os.path.join(VERIF, 'spec')
HARNESS = os.path.join(VERIF, 'harness')
JOBS = os.cpu_count() or 4


class ToolError(Exception):
    """The check could not be carried out."""


def log(*a):
    print(*a, flush=True)


class DoesNotCompile(Exception):
    """A program that uses documented features only does not compile."""

    def __init__(self, what, msg):
        Exception.__init__(self, '%s does not compile\n%s' % (what, msg[:4000]))


def compile_failure(what, msg):
    if 'error:' in msg and 'internal compiler error' not in msg and 'Killed' not in msg \
            and 'No space left' not in msg:
        return DoesNotCompile(what, msg)
    return ToolError('%s does not compile\n%s' % (what, msg[:4000]))


# ---------------------------------------------------------------------------
# building

_tree = {}


def tree_hash(*dirs):
    key = dirs
    if key not in _tree:
        h = hashlib.sha256()
        for d in dirs:
            if os.path.isfile(d):
                h.update(open(d, 'rb').read())
                continue
            for root, ds, fs in os.walk(d):
                ds.sort()
                for f in sorted(fs):
                    p = os.path.join(root, f)
                    h.update(p.encode())
                    h.update(open(p, 'rb').read())
        _tree[key] = h.hexdigest()
    return _tree[key]


def compile_all(jobs):
    """jobs: [(source, flags, libs or None for -c)] -> [path], cached by content,
    in parallel.  A failure to compile is returned as None + log."""
    inc = os.path.join(REPO, 'include')

    def one(job):
        src, flags, link = job
        h = hashlib.sha256()
        h.update(tree_hash(inc).encode())
        h.update(tree_hash(HARNESS).encode())
        h.update(open(src, 'rb').read())
        h.update(repr((src, flags, link)).encode())
        out = os.path.join(BUILD, 'obj', h.hexdigest()[:24] + ('' if link is not None else '.o'))
        if os.path.exists(out):
            return out, ''
        os.makedirs(os.path.dirname(out), exist_ok=True)
        tmp = out + '.%d.tmp' % os.getpid()
        cxx = 'clang++' if '@clang' in flags else 'g++'
        cmd = [cxx, '-std=c++17'] + [f for f in flags if f[0] != '@'] + ['-I' + inc, '-I' + HARNESS]
        cmd += (['-c', src] if link is None else [src]) + ['-o', tmp] + (link or [])
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            return None, ' '.join(cmd) + '\n' + p.stdout
        os.rename(tmp, out)
        return out, ''

    with ThreadPoolExecutor(JOBS) as ex:
        return list(ex.map(one, jobs))


def link(objs, flags=()):
    h = hashlib.sha256(repr((sorted(objs), list(flags))).encode()).hexdigest()[:24]
    out = os.path.join(BUILD, 'bin', h)
    if not os.path.exists(out):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        tmp = out + '.%d.tmp' % os.getpid()
        p = subprocess.run(['g++'] + objs + list(flags) + ['-o', tmp], text=True,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            raise ToolError('link failed\n' + p.stdout[-3000:])
        os.rename(tmp, out)
    return out


ENGINE_FLAGS = ['-O0', '-g0', '-fno-lifetime-dse', '-D_GLIBCXX_ASSERTIONS']


def build_engines(wanted):
    """wanted: [(variant, shapes)] -> {(variant, shapes): path}"""
    jobs, index = [], {}
    for v, shapes in wanted:
        for s in shapes:
            k = ('s', v, s)
            if k not in index:
                index[k] = len(jobs)
                jobs.append((os.path.join(HARNESS, 'engine_shape.cpp'),
                             ENGINE_FLAGS + ['-DVARIANT=%d' % v, '-DSHAPE_ID=%d' % s], None))
        k = ('m', shapes)
        if k not in index:
            index[k] = len(jobs)
            jobs.append((os.path.join(HARNESS, 'engine_main.cpp'),
                         ['-O1', '-DSHAPES=' + ','.join(map(str, shapes))], None))
    # longest first
    order = sorted(range(len(jobs)), key=lambda i: -1 if 'shape' in jobs[i][0] else 0)
    done = compile_all([jobs[i] for i in order])
    res = [None] * len(jobs)
    for i, x in zip(order, done):
        res[i] = x
    for o, msg in res:
        if o is None:
            raise compile_failure('the engine', msg)
    out = {}
    for v, shapes in wanted:
        objs = [res[index[('s', v, s)]][0] for s in shapes] + [res[index[('m', shapes)]][0]]
        out[(v, shapes)] = link(objs)
    return out


# ---------------------------------------------------------------------------
# TLC

HEAP = os.environ.get('VERIF_HEAP', '4g')


def tlc(spec, cfg=None, env=None, workers=JOBS, timeout=800, extra=(), heap=None, meta=None):
    """Run TLC. Returns (log text, dict of statistics)."""
    cfg = cfg or spec.replace('.tla', '.cfg')
    meta = meta or os.path.join(BUILD, 'meta', '%d-%s' % (os.getpid(), hashlib.md5(
        (spec + cfg + repr(env) + repr(time.time())).encode()).hexdigest()[:10]))
    os.makedirs(meta, exist_ok=True)
    e = dict(os.environ)
    e.update(env or {})
    e['JAVA_TOOL_OPTIONS'] = '-Xmx%s -XX:+UseParallelGC -Xss16m' % (heap or HEAP)
    cmd = ['tlc', '-workers', str(workers), '-metadir', meta, '-noGenerateSpecTE',
           '-config', cfg] + list(extra) + [spec]
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=timeout)
        out, rc = p.stdout, p.returncode
    except subprocess.TimeoutExpired as x:
        out = (x.stdout or b'')
        out = out.decode() if isinstance(out, bytes) else out
        rc = -1
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    st = {'rc': rc, 'states': 0, 'transitions': 0, 'ok': False}
    m = None
    for m in re.finditer(r'(\d[\d,]*) states generated.*?(\d[\d,]*) distinct states found', out):
        pass
    if m:
        st['transitions'] = int(m.group(1).replace(',', ''))
        st['states'] = int(m.group(2).replace(',', ''))
    st['ok'] = rc == 0 and 'Model checking completed. No error has been found' in out
    return out, st


def tlc_error(out):
    i = out.find('Error:')
    return out[i:i + 1500] + '\n...\n' + out[-800:]


def not_evaluable(out, st):
    """TLC could not evaluate the specification on a trace: the code under test
    printed something that is not an event, or not of the right type."""
    return (not st['ok'] and st['rc'] > 1 and st['rc'] not in (137, 143)
            and not re.search('OutOfMemory|StackOverflow|No space left', out)
            and re.search(r'Error: (?!.*(pars|semantic))', out) is not None)


MIS = re.compile(r'<<\s*"MISMATCH",\s*(\d+),\s*(\d+),\s*"([^"]+)",(.*?)>>\s*(?=\n<<|\n[A-Z]|\Z)', re.S)


def mismatches(text):
    return [(int(m.group(1)), int(m.group(2)), m.group(3),
             re.sub(r'\s+', ' ', m.group(4))) for m in MIS.finditer(text)]


# ---------------------------------------------------------------------------
# evidence and verdicts

class Check:
    def __init__(self, prop, level='model_checking'):
        self.prop = prop
        self.level = level
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.samples = []
        self.notes = []
        self.extra = {}
        self.found = []          # (what, replay path)
        self.dir = os.path.join(BUILD, 'run', '%s-%d' % (prop, os.getpid()))
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)

    def violation(self, what, replay):
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        path = os.path.join(VERIF, 'replays', '%s-%d.json' % (self.prop, len(self.found)))
        replay = dict(replay, property=self.prop, what=what)
        json.dump(replay, open(path, 'w'), indent=1)
        self.found.append((what, path))
        log('  ' + what[:1500])
        log('VIOLATION property=%s replay=%s' % (self.prop, path))

    def finish(self):
        cov = {'states': self.states, 'transitions': self.transitions,
               'traces_validated_against_impl': self.traces,
               'samples': self.samples[:5]}
        cov.update(self.extra)
        if self.notes:
            cov['explanation'] = '; '.join(self.notes)
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed,
              'level': self.level, 'coverage': cov,
              'assumptions': getattr(self, 'assumptions', []),
              'wall_s': round(time.time() - self.t0, 1), 'violations': len(self.found)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w'), indent=1)
        shutil.rmtree(self.dir, ignore_errors=True)
        log('%s: %s; %d states, %d transitions, %d traces validated, %.0f s' % (
            self.prop, 'VIOLATED' if self.found else 'held on everything explored',
            self.states, self.transitions, self.traces, time.time() - self.t0))
        return 1 if self.found else 0
