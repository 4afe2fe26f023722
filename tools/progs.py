"""Campaigns of generated programs: generate, compile, run, validate."""
import functools, os, random, subprocess
import proggen
from vlib import *


def source(kind, seed, i, big=False):
    gen = proggen.GENERATORS[kind]
    """Write a program. Returns (main source file, the other ones)."""
    p = gen(seed, i)
    d = os.path.join(BUILD, 'prog')
    os.makedirs(d, exist_ok=True)
    base = '%s-%s-%d' % (kind, seed, i)
    name = os.path.join(d, base)
    if not p.split:
        open(name + '.cpp', 'w').write(p.text())
        return name + '.cpp', []
    header, *tus = p.files()
    out = []
    for k, t in enumerate(tus):
        out.append('%s-%d.cpp' % (name, k) if k else name + '.cpp')
        t = t.replace('@HEADER@', base + '.hpp')
        if not k:
            # what the result depends on
            t += '// %s\n' % hashlib.sha256('\n'.join([header] + tus).encode()).hexdigest()
        open(out[-1], 'w').write(t)
    open(name + '.hpp', 'w').write(header)
    rest = out[1:]
    random.Random(base).shuffle(rest)
    return out[0], rest


def flags(seed, i, tier, kind=''):
    r = random.Random('flags-%s-%d' % (seed, i))
    f = ['-O0', '-g0', '-w', '-D_GLIBCXX_ASSERTIONS']
    if kind == 'threads':
        f += ['-pthread'] + (['-fsanitize=thread'] if tsan() else [])
    if r.random() < 0.35:
        f.append('-std=c++20')
    if r.random() < 0.15 or kind == 'names':
        # g++ takes the lookups of one name in two namespaces for the same
        f.append('@clang')
    elif tier == 'thorough' and r.random() < 0.3:
        f[0] = '-O2'
    return f


@functools.lru_cache(None)
def tsan():
    """Can programs be compiled and run with ThreadSanitizer?"""
    d = os.path.join(BUILD, 'prog')
    os.makedirs(d, exist_ok=True)
    f = os.path.join(d, 'tsan-%d' % os.getpid())
    open(f + '.cpp', 'w').write('#include <thread>\nint main() { std::thread t([] {}); t.join(); }\n')
    try:
        return not subprocess.run(['g++', '-fsanitize=thread', '-pthread', f + '.cpp', '-o', f],
                                  stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode \
            and not subprocess.run([f], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode
    finally:
        for x in (f, f + '.cpp'):
            if os.path.exists(x):
                os.remove(x)


def run(binary, d, c):
    os.makedirs(d, exist_ok=True)
    t = '%s/t%d.ndjson' % (d, c)
    p = subprocess.run(['timeout', '120', binary, '-', t], stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, errors='replace')
    if p.returncode == 0:
        return None
    good = []
    for l in (open(t, errors='replace').read().split('\n') if os.path.exists(t) else []):
        try:
            json.loads(l)
            good.append(l)
        except ValueError:
            pass
    open(t, 'w').write('\n'.join(good or ['{"op":"reset","scn":0,"s":-1}'])
                       + '\n{"op":"end","s":-1}\n')
    return 'the program ended with %d after %s %s' % (
        p.returncode, (good or [''])[-1][:200], p.stdout[-400:])


def judge(chk, spec, d, bins, cats):
    """bins: [binary]. Returns [(index, what)]"""
    with ThreadPoolExecutor(JOBS) as ex:
        ends = list(ex.map(lambda t: run(t[1], d, t[0]), enumerate(bins, 1)))
    text, st = tlc(spec, env={'TRACE_DIR': d, 'TRACE_CHUNKS': str(len(bins))})
    if not_evaluable(text, st):
        if len(bins) == 1:
            return [(0, ends[0] or 'the trace is not one of the specification: ' + tlc_error(text))], st
        probs = []
        for i, b in enumerate(bins):
            p, st = judge(chk, spec, d + '-n%d' % i, [b], cats)
            probs += [(i, what) for _, what in p]
        return probs, st
    if not st['ok']:
        raise ToolError('TLC failed on %s\n%s' % (d, tlc_error(text)))
    probs = [(i, e) for i, e in enumerate(ends) if e]
    for ck, i, what, exp in mismatches(text):
        if any(what == c or (c.endswith('*') and what.startswith(c[:-1])) for c in cats):
            probs.append((ck - 1, '%s at event %d: expected %s' % (what, i, exp)))
        else:
            log('  note: mismatch of kind %s, decided by another check' % what)
    return probs, st


def campaign(chk, kind, spec, n, cats, group=64):
    seed = str(chk.seed)
    for first in range(0, n, group):
        idx = list(range(first, min(n, first + group)))
        srcs = [source(kind, seed, i) for i in idx]
        fl = [flags(seed, i, chk.tier, kind) for i in idx]
        built = compile_all([(s, f, rest) for (s, rest), f in zip(srcs, fl)])
        ok = []
        for i, s, f, (b, msg) in zip(idx, srcs, fl, built):
            if b:
                ok.append((i, b, f))
            elif 'error:' in msg and 'internal compiler error' not in msg:
                chk.violation('%s program %d, which uses documented features only, does not compile: %s'
                              % (kind, i, first_error(msg)),
                              {'kind': 'prog', 'gen': kind, 'seed': seed, 'i': i, 'flags': f,
                               'spec': spec, 'cats': list(cats)})
            else:
                raise ToolError(msg[:3000])
        d = os.path.join(chk.dir, '%s-%d' % (kind, first))
        probs, st = judge(chk, spec, d, [b for _, b, _ in ok], cats) if ok else ([], None)
        if st:
            chk.states += st['states']
            chk.transitions += st['transitions']
        chk.traces += len(ok)
        for n_, (k, what) in enumerate(probs[:4]):
            i, b, f = ok[k]
            again = [(0, what)] if 'ThreadSanitizer: data race' in what else []
            for t in range(1 if kind != 'threads' else 5):
                if not again:
                    again, _ = judge(chk, spec, d + '-c%d-%d' % (n_, t), [b], cats)
            if not again:
                log('  note: not reproduced: ' + what[:300])
                continue
            chk.violation('%s program %d: %s' % (kind, i, again[0][1]),
                          {'kind': 'prog', 'gen': kind, 'seed': seed, 'i': i, 'flags': f,
                           'spec': spec, 'cats': list(cats)})
        for s, rest in srcs:
            for x in [s] + rest:
                os.remove(x)
            if rest:
                os.remove(s[:-4] + '.hpp')
        for _, b, _ in ok:
            os.remove(b)
        shutil.rmtree(d, ignore_errors=True)
        if chk.found:
            return
    chk.extra.setdefault('programs', {})[kind] = n


def rejected(chk, n):
    """Programs with an overrider that, by the specification, is added to no
    method, must not compile."""
    import namegen
    jobs = []
    for i in range(n):
        p = namegen.NamesProgram(str(chk.seed), i, bad=True)
        if p.bad:
            d = os.path.join(BUILD, 'prog', 'bad-%d-%d.cpp' % (os.getpid(), i))
            open(d, 'w').write(p.text())
            jobs.append((i, d))

    def one(j):
        r = subprocess.run(['clang++', '-std=c++17', '-fsyntax-only', '-w', '-I' + os.path.join(REPO, 'include'), j[1]],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        os.remove(j[1])
        if r.returncode and 'error:' not in r.stdout:
            raise ToolError(r.stdout[-1000:])
        return j[0], r.returncode
    with ThreadPoolExecutor(JOBS) as ex:
        for i, rc in ex.map(one, jobs):
            if rc == 0:
                chk.violation('names program %d: an overrider that no method, or more than one, accepts compiles' % i,
                              {'kind': 'prog', 'gen': 'names-bad', 'seed': str(chk.seed), 'i': i,
                               'flags': [], 'spec': 'TraceNames.tla', 'cats': ['names.*']})
    chk.extra['rejected_programs'] = len(jobs)


def first_error(msg):
    for l in msg.split('\n'):
        if 'error:' in l:
            return l[:600]
    return msg[:600]


def replay(chk, r):
    if r['gen'] == 'names-bad':
        import namegen
        f = os.path.join(chk.dir, 'bad.cpp')
        open(f, 'w').write(namegen.NamesProgram(r['seed'], r['i'], bad=True).text())
        rc = subprocess.run(['clang++', '-std=c++17', '-fsyntax-only', '-w', '-I' + os.path.join(REPO, 'include'), f],
                            stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode
        log('it is rejected' if rc else 'an overrider that is added to no method compiles')
        return 0 if rc else 1
    s, rest = source(r['gen'], r['seed'], r['i'])
    (b, msg), = compile_all([(s, r['flags'], rest)])
    if not b:
        log(msg[:3000])
        return 1
    probs, _ = judge(chk, r['spec'], os.path.join(chk.dir, 'replay'), [b], r['cats'])
    log(probs[0][1] if probs else 'not reproduced')
    return 1 if probs else 0
