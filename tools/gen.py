"""Random scenario generator for the engine (script format: see
harness/engine_main.cpp).

Everything is derived from the random.Random passed in.  The generator knows
just enough (the inheritance closure) to produce calls a C++ program could make;
it has no idea of what the calls should do.
"""
import itertools, random

SHAPES = [
    [(1, 3), (2, 3)],
    [(1, 1), (2, 2), (1, 2)],
    [(2, 4), (3, 3)],
    [(1, 4), (1, 0), (2, 1)],
    [(2, 6)],
    [(1, 2), (1, 2), (1, 2), (2, 2), (2, 0)],
    [(1, 1), (1, 1), (1, 1), (1, 1), (1, 1), (2, 1)],
    [(3, 4), (1, 6)],
    [(4, 4), (1, 2)],
    [(2, 12)],
    [(1, 1)] * 9 + [(2, 2)],
    [(3, 6), (2, 3)],
    [(2, 0), (2, 1), (2, 2), (2, 3), (1, 0), (1, 1), (1, 2), (1, 3), (1, 4)],
    [(5, 4), (6, 3)],
    [(3, 0), (3, 1), (3, 2), (3, 3), (2, 4), (1, 5)],
]
MAXCLS = 24
MAXALIAS = 4
NUNITS = 24

KINDS = ['forest', 'chain', 'mi', 'mi', 'dense', 'dense']

# see harness/engine_shape.cpp
CHECKS = {0, 1, 2, 3, 6}     # variants with runtime_checks
INDIRECT = {3, 4, 7}
HASH = {1, 3, 5}


def rand_dag(r, n, kind):
    """bases[i] for i in 0..n-1 (topological), direct bases only (reduced)."""
    bases = []
    for i in range(n):
        if i == 0:
            bases.append(set())
            continue
        if kind == 'forest':
            k = 1 if r.random() < 0.85 else 0
        elif kind == 'chain':
            k = 1
        else:
            k = r.choice([0, 1, 1, 2, 2, 3] if kind == 'mi' else [1, 2, 2, 3, 3])
        k = min(k, i)
        if kind == 'chain':
            bases.append({i - 1})
        else:
            bases.append(set(r.sample(range(i), k)))
    # transitive reduction
    up = closure(bases)
    red = []
    for i in range(n):
        red.append({b for b in bases[i]
                    if not any(b in up[o] and o != b for o in bases[i])})
    return red


def closure(bases):
    up = []
    for i, bs in enumerate(bases):
        s = {i}
        for b in bs:
            s |= up[b]
        up.append(s)
    return up


class Model:
    """Registered classes with their closure, by label."""

    def __init__(self, r, n, kind, labels=None):
        self.n = n
        self.bases0 = rand_dag(r, n, kind)
        lab = labels or list(range(1, n + 1))
        if not labels:
            r.shuffle(lab)
        self.lab = lab
        self.bases = {lab[i]: {lab[b] for b in bs} for i, bs in enumerate(self.bases0)}
        cl = closure(self.bases0)
        self.up = {lab[i]: {lab[b] for b in s} for i, s in enumerate(cl)}
        self.classes = sorted(self.bases)

    def down(self, c):
        return [x for x in self.classes if c in self.up[x]]


def make_units(r, m, style, limit=NUNITS):
    """Cover the hierarchy with registration records (d, [b..])."""
    recs = []
    for c in m.classes:
        bs = sorted(m.bases[c])
        r.shuffle(bs)
        if not bs:
            if r.random() < 0.5 or style == 'explicit':
                recs.append((c, []))
            continue
        if style == 'split' and len(bs) > 1:
            cut = r.randint(1, len(bs) - 1)
            recs.append((c, bs[:cut]))
            recs.append((c, bs[cut:]))
        else:
            extra = sorted(m.up[c] - m.bases[c] - {c})
            l = list(bs)
            while len(l) < 3 and extra and r.random() < 0.25:
                l.append(extra.pop(r.randrange(len(extra))))
            if len(l) < 3 and r.random() < 0.1:
                l.append(r.choice(l + [c]))
            recs.append((c, l))
    mentioned = {x for d, b in recs for x in [d] + b}
    for c in m.classes:
        if c not in mentioned:
            recs.append((c, []))
    while len(recs) < limit and r.random() < 0.2:
        recs.append(r.choice(recs))
    r.shuffle(recs)
    if len(recs) > limit:
        # one record per class is enough
        recs = [(c, sorted(m.bases[c])) for c in m.classes]
        r.shuffle(recs)
    assert len(recs) <= limit
    return recs


def alias(r, c, aliased):
    return c * 10 + (r.randrange(MAXALIAS) if aliased else 0)


def unit_lines(r, recs, aliased, first=1):
    out = []
    for i, (d, b) in enumerate(recs):
        # only alias 0 unless aliasing; alias 0 registered somewhere anyway
        out.append('U %d %d %d %s' % (i + first, len(b), alias(r, d, aliased),
                                      ' '.join(str(alias(r, x, aliased)) for x in b)))
    return out


def rand_methods(r, m, shape, covariant=0.3, bad=0.0, unknown=()):
    """[(params, ret, [(sig, ret)])]"""
    ms = []
    for ar, k in SHAPES[shape]:
        roots = [c for c in m.classes if len(m.up[c]) == 1]
        wide = [c for c in m.classes if len(m.down(c)) > 1] or m.classes
        params = [r.choice(roots + wide) if r.random() < 0.9 else r.choice(m.classes)
                  for _ in range(ar)]
        cov = r.random() < covariant
        ret = r.choice(m.classes) if cov else 0
        ovs, seen = [], set()
        for _ in range(k):
            for attempt in range(6):
                sig = tuple(r.choice(m.down(p)) for p in params)
                if sig not in seen or r.random() < 0.08:
                    break
            seen.add(sig)
            ovs.append([list(sig), r.choice(m.down(ret)) if cov else 0])
        ms.append([params, ret, ovs])
    if bad and r.random() < bad and unknown:
        x = r.choice(ms)
        w = r.random()
        if w < 0.3:
            x[0][r.randrange(len(x[0]))] = r.choice(unknown)
        elif w < 0.6 and x[2]:
            o = r.choice(x[2])
            o[0][r.randrange(len(o[0]))] = r.choice(unknown)
        elif w < 0.75 and x[2] and x[1]:
            r.choice(x[2])[1] = r.choice(unknown)
        elif x[2]:
            o = r.choice(x[2])
            i = r.randrange(len(o[0]))
            cand = [c for c in m.classes if x[0][i] not in m.up.get(c, ())]
            if cand:
                o[0][i] = r.choice(cand)
    return ms


def method_lines(ms):
    out = []
    for i, (p, ret, ovs) in enumerate(ms):
        out.append('P %d %s %d' % (i + 1, ' '.join(map(str, p)), ret))
        for k, (sig, oret) in enumerate(ovs):
            out.append('O %d %d %s %d' % (i + 1, k + 1, ' '.join(map(str, sig)), oret))
    return out


def call_lines(r, m, ms, maxt=50, types=None, unknown=(), op='C', known=None):
    """Calls of every method, with all (or a sample of) the acceptable tuples."""
    out = []
    for i, (p, ret, ovs) in enumerate(ms):
        if any(c not in m.up for c in p):
            continue
        sets = [m.down(c) for c in p]
        total = 1
        for s in sets:
            total *= len(s)
        if total <= maxt:
            tuples = list(itertools.product(*sets))
        else:
            tuples = [tuple(r.choice(s) for s in sets) for _ in range(maxt)]
        ts = []
        for t in tuples:
            ts.append([rand_type(r, c, types) for c in t])
        if unknown and r.random() < 0.5:
            for _ in range(2):
                t = [rand_type(r, r.choice(s), types) for s in sets]
                t[r.randrange(len(t))] = r.choice(unknown) * 10
                ts.append(t)
        out.append('%s %d %d %s' % (op, i + 1, len(ts),
                                    ' '.join(str(x) for t in ts for x in t)))
    return out


def rand_type(r, c, types):
    if not types:
        return c * 10
    c_types = [t for t in types if t // 10 == c]
    return r.choice(c_types) if c_types else c * 10


def tid_lines(r, mode, ncls, aliased):
    """Type ids of the classes (and their aliases)."""
    out = []
    used = set()
    n = MAXCLS

    def fresh(f):
        for i in range(10000):
            v = (f() if i < 500 else r.getrandbits(62)) & ((1 << 64) - 1)
            if v not in used and v != 0 and v < (1 << 63):
                used.add(v)
                return v
    base = r.getrandbits(46) << 4
    step = r.choice([1, 2, 8, 16, 24, 32, 40, 64, 4096, 1 << 20, 1 << 32, (1 << 57)])
    for c in range(1, n + 1):
        for a in range(MAXALIAS):
            if mode == 'ptr':
                v = fresh(lambda: base + 8 * r.randrange(1, 4000))
            elif mode == 'rand':
                v = fresh(lambda: r.getrandbits(63))
            elif mode == 'step':
                v = fresh(lambda: step * r.randrange(1, 120))
            elif mode == 'small':
                v = fresh(lambda: r.randrange(1, 180))
            elif mode == 'dense':
                v = c + a * (MAXCLS + 1)
            out.append('T %d %d %d' % (c, a, v))
    return out


def vector_tids(r, unknown):
    """Small ids with gaps; unknown classes above all the others, some just above."""
    ids = r.sample(range(1, 180), MAXALIAS * MAXCLS)
    ids.sort()
    known = [c for c in range(1, MAXCLS + 1) if c not in unknown]
    k = MAXALIAS * len(known)
    low, top = ids[:k], ids[k:]
    of = {}
    if top and r.random() < 0.7:
        of[r.choice(known), 0] = low.pop()
        top[0] = ids[k - 1] + 1
        of[unknown[0], 0] = top.pop(0)
    r.shuffle(low)
    out = []
    for c in range(1, MAXCLS + 1):
        for a in range(MAXALIAS):
            v = of.get((c, a)) or (top if c in unknown else low).pop()
            out.append('T %d %d %d' % (c, a, v))
    return out


def types_of(unit_ls):
    return sorted({int(x) for l in unit_ls for x in [l.split()[3]] + l.split()[4:]})


def is_bad(m, ms):
    """Would `initialize` reject this? (only to avoid calls that make no sense)"""
    return any(c not in m.up for p, ret, ovs in ms for c in p) or any(
        c not in m.up or p[j] not in m.up[c]
        for p, ret, ovs in ms for sig, _ in ovs for j, c in enumerate(sig)) or any(
        ret and oret not in m.up for p, ret, ovs in ms for _, oret in ovs)


class Sub:
    """The life of one registry: a list of steps, each a list of lines."""

    def __init__(self, r, variant, shape, profile, n, unknown, aliased):
        self.r, self.variant, self.shape, self.profile = r, variant, shape, profile
        self.unknown, self.aliased = unknown, aliased
        self.checks = variant in CHECKS
        self.nmax = n
        self.live = {}
        self.types = []
        self.steps = []
        self.model(n)

    def model(self, n=None):
        p, r = self.profile, self.r
        n = n or self.nmax
        kind = r.choice(p.get('kinds', KINDS))
        self.m = Model(r, n, kind)
        self.bad = False
        self.ms = None

    def methods(self, bad):
        p, r = self.profile, self.r
        self.ms = rand_methods(r, self.m, self.shape, p.get('covariant', 0.3), bad,
                               self.unknown)
        return method_lines(self.ms)

    def register(self, style=None):
        """Register the classes of the model, dropping what there is, in any order."""
        r = self.r
        recs = make_units(r, self.m, style or r.choice(['plain', 'split', 'explicit']))
        ul = unit_lines(r, recs, self.aliased)
        self.types = types_of(ul)
        out = ['X %d' % u for u in r.sample(sorted(self.live), len(self.live))]
        self.live = {i + 1: rec for i, rec in enumerate(recs)}
        return out + ul

    def init(self, fail=0):
        r, p = self.r, self.profile
        n22 = 1 if r.random() < p.get('n2216', 0.15) else 0
        tr = r.choice([0, 2, 4]) if r.random() < p.get('trace', 0.1) else 0
        self.n22 = n22
        return ['I %d' % (n22 + tr + fail)]

    def calls(self, maxt, op='C', unk=True):
        unk = self.unknown if unk and self.checks and self.profile.get('unknown', True) else ()
        if self.variant == 0 and unk and not self.profile.get('first', True):
            unk = ()
        return call_lines(self.r, self.m, self.ms, maxt, self.types, unk, op)

    def abcalls(self, n):
        """Calls in a child process, with an error handler that returns."""
        out = []
        for l in self.r.sample(self.calls(n), 1) if self.calls(n) else []:
            f = l.split()
            mi, cnt = int(f[1]), int(f[2])
            ar = SHAPES[self.shape][mi - 1][0]
            a = f[3:]
            for t in range(min(cnt, n)):
                out.append('K %d %s' % (mi, ' '.join(a[t * ar:(t + 1) * ar])))
        return out

    def life(self):
        r, p = self.r, self.profile
        if p.get('early', 0) and self.checks and r.random() < p['early']:
            # calls before any initialize
            L = self.register() + self.methods(0)
            self.steps.append(L)
            # the methods' events come with the next initialize; their
            # outcome does not depend on them
            self.steps.append(self.calls(2, 'C'))
            if r.random() < 0.3:
                self.steps.append(self.abcalls(1))
        else:
            self.steps.append(self.register() + self.methods(p.get('bad', 0.0)))
        bad = is_bad(self.m, self.ms)
        if r.random() < p.get('abinit', 0):
            self.steps.append(['J %d' % r.choice([0, 0, 1])])
        self.steps.append(self.init())
        if bad:
            if self.checks:
                self.steps.append(self.calls(3, unk=False))
        else:
            self.after(p.get('maxt', 50))
        if r.random() < p.get('history', 0.2):
            for _ in range(r.randint(1, p.get('steps', 2))):
                self.step()

    def after(self, maxt):
        """What follows a successful initialize."""
        r, p = self.r, self.profile
        self.steps.append(self.calls(maxt))
        if self.n22 and r.random() < 0.6:
            self.steps.append(self.calls(20))
        if r.random() < p.get('once', 0.2):
            self.steps.append(self.calls(p.get('oncet', 8), 'D'))
        if r.random() < p.get('abcall', 0):
            self.steps.append(self.abcalls(p.get('abn', 2)))

    def step(self):
        r, p = self.r, self.profile
        w = r.random()
        first = self.variant != 0
        bad = is_bad(self.m, self.ms)
        if w < 0.12 and self.checks:
            self.steps.append(['F'])
            if not bad:
                self.steps.append(self.calls(2, unk=False))
            if r.random() < 0.5:
                return
        elif w < 0.35:
            self.steps.append(self.register())          # same classes, another way
        elif w < 0.45 and self.live:
            # one more library, with the same classes
            u = max(self.live) + 1
            if u <= NUNITS:
                rec = r.choice(list(self.live.values()))
                self.steps.append(unit_lines(r, [rec], self.aliased, u))
                self.live[u] = rec
                self.types = sorted(set(self.types) | set(types_of(self.steps[-1])))
        else:
            # other classes (some the same, some not), other methods
            self.model(r.randint(min(2, self.nmax), self.nmax))
            self.steps.append(self.register() + self.methods(
                p.get('bad', 0.0) if r.random() < 0.5 else 0.0))
        if self.variant == 6 and r.random() < p.get('fail', 0.3):
            self.steps.append(self.init(8))
            if not is_bad(self.m, self.ms):
                self.steps.append(self.calls(2, unk=False))
            if r.random() < 0.3:
                self.steps.append(['F'])
        if r.random() < p.get('abinit', 0):
            self.steps.append(['J %d' % r.choice([0, 0, 1])])
        bad = is_bad(self.m, self.ms)
        self.steps.append(self.init())
        if not bad:
            keep = self.unknown
            if self.variant == 0:
                # only ids above those registered now are told from them
                top = max(self.ids[t // 10, t % 10] for t in self.types)
                self.unknown = [c for (c, a), v in self.ids.items() if a == 0 and v > top]
            self.after(min(30, p.get('maxt', 50)))
            self.unknown = keep


def scenario(r, variant, scn, profile):
    """One scenario, on one or several registries. profile: dict of knobs."""
    shapes = list(profile.get('shapes', range(len(SHAPES))))
    nreg = r.choice(profile.get('nreg', [1]))
    nreg = min(nreg, len(shapes))
    lo, hi = profile.get('n', (2, 8))
    ns = [r.randint(lo, hi) for _ in range(nreg)]
    top = max(ns)
    unknown = [top + 1, top + 2]
    aliased = r.random() < profile.get('alias', 0.15)
    lines = ['R %d' % scn]
    ids = None
    if variant in (0, 7):
        tl = vector_tids(r, list(range(top + 1, MAXCLS + 1)))
        ids = {(int(f[1]), int(f[2])): int(f[3]) for f in map(str.split, tl)}
        lines += tl
    else:
        lines += tid_lines(r, r.choice(profile.get('tids',
            ['ptr', 'ptr', 'rand', 'step', 'small', 'dense'])), top, aliased)
    if aliased:
        lines.append('A 1')
    lines.append('B')
    subs = []
    for s, n in zip(r.sample(shapes, nreg), ns):
        sub = Sub(r, variant, s, profile, n, unknown, aliased)
        sub.ids = ids
        if profile.get('runs'):
            runs_life(sub, r, profile, top)
        elif profile.get('groups'):
            group_life(sub, r, profile)
        else:
            sub.life()
        subs.append([s, [x for x in sub.steps if x]])
    last = None
    while subs:
        k = r.randrange(len(subs))
        s, steps = subs[k]
        if s != last:
            lines.append('E %d' % s)
            last = s
        lines += steps.pop(0)
        if not steps:
            subs.pop(k)
    return lines


def group_life(sub, r, profile):
    """The same classes and overriders, registered in different ways."""
    p = sub.profile = dict(profile, n2216=0.0, trace=0.0)
    ms0 = None
    maxt = p.get('maxt', 40)
    calls = None
    for g in range(profile['groups']):
        L = ['G %d' % g]
        if g == 0:
            # bases first, each class with its own record (and its bases)
            L += ['X %d' % u for u in sub.live]
            order = [sub.m.lab[i] for i in range(sub.m.n)]
            recs = [(c, sorted(sub.m.bases[c])) for c in order]
            ul = unit_lines(r, recs, sub.aliased)
            L += ul
            sub.types = types_of(ul)
            sub.live = {i + 1: rec for i, rec in enumerate(recs)}
            ml = sub.methods(p.get('bad', 0.0))
            ms0 = sub.ms
            L += ml
        else:
            L += sub.register()
            ms = []
            for params, ret, ovs in ms0:
                o = list(ovs)
                r.shuffle(o)
                ms.append([params, ret, o])
            sub.ms = ms
            L += method_lines(ms)
        L.append('I 0')
        sub.steps.append(L)
        if is_bad(sub.m, sub.ms):
            continue
        if calls is None:
            calls = call_lines(r, sub.m, ms0, maxt, None, ())
        sub.steps.append([
            ' '.join(l.split()[:3] + [str(rand_type(r, int(a) // 10, sub.types))
                                      for a in l.split()[3:]]) for l in calls])


def runs_life(sub, r, profile, top):
    """The same program, as in several runs: only the type ids differ."""
    p = sub.profile = dict(profile, trace=0.0)
    recs = None
    for g in range(profile['runs']):
        L = ['G %d' % (100 + g)]
        if g == 0:
            L += sub.register()
            recs = dict(sub.live)
            ml = sub.methods(0.0)
            L += ml
            init = sub.init()
            calls = call_lines(r, sub.m, sub.ms, p.get('maxt', 40), None, ())
        else:
            L += ['X %d' % u for u in recs]
            L += tid_lines(r, r.choice(['ptr', 'rand', 'step', 'small']), top, False) + ['B']
            L += [l for u, rec in recs.items() for l in unit_lines(r, [rec], False, u)]
            L += ml
        sub.steps.append(L + init)
        sub.steps.append(calls)


def generate(seed, variant, chunks, per_chunk, profile):
    """[chunk -> list of scenarios (list of lines)]"""
    out = []
    for c in range(chunks):
        r = random.Random('%s-%s-%s' % (seed, variant, c))
        out.append([scenario(r, variant, c * per_chunk + s, profile) for s in range(per_chunk)])
    return out
