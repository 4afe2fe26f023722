"""Random operations on virtual pointers (the judge is spec/VirtualPtr.tla; the
little state kept here only steers towards operations that are possible)."""

ANC = {1: {1}, 2: {2}, 3: {3, 1}, 4: {4, 2, 1}, 5: {5, 3, 2, 1}, 6: {6, 1}, 7: {7, 3, 1}, 8: {8, 1}}
STATIC = [1, 1, 3, 2, 6]


def virt(s): return s >= 20
def typ(s): return (s - 20) // 2 if s >= 20 else s
def kind(s): return typ(s) // 5
def static(s): return STATIC[typ(s) % 5]
def const(s): return typ(s) % 5 == 1
def up(d, s): return static(d) in ANC[static(s)] and (not const(s) or const(d))
def related(d, s): return static(d) in ANC[static(s)] or static(s) in ANC[static(d)]


def convertible(d, s):
    return up(d, s) and (kind(d) == kind(s) and (virt(d) or not virt(s))
                         or kind(d) == 0 and virt(d) and virt(s))


SLOTS = range(60)
PAIRS = {}
for d in SLOTS:
    for s in SLOTS:
        if convertible(d, s):
            PAIRS.setdefault('conv', []).append((d, s))
        if virt(d) and virt(s) and kind(d) == kind(s) and related(d, s):
            PAIRS.setdefault('cmp', []).append((d, s))
            if not const(s) or const(d):
                PAIRS.setdefault('cast', []).append((d, s))
        if virt(d) and not virt(s) and typ(d) == typ(s):
            PAIRS.setdefault('final', []).append((d, s))
        if d < 5 and typ(s) % 5 == d and d != s:
            PAIRS.setdefault('get', []).append((d, s))
        if not virt(d) and virt(s) and typ(d) == typ(s) and kind(d) != 2:
            PAIRS.setdefault('pointer', []).append((d, s))
        if virt(d) and virt(s) and typ(d) == typ(s):
            PAIRS.setdefault('swap', []).append((d, s))
            if kind(d):
                PAIRS.setdefault('pass', []).append((d, s))


class Sim:
    def __init__(self, r, cfg, kinds):
        self.r, self.cfg, self.kinds = r, cfg, kinds
        self.slot = {s: -1 for s in SLOTS}
        self.cls = []
        self.lines = ['R']
        self.init = self.x = self.ix = cfg['inplace']
        self.init = False

    def ok(self, s):
        return kind(s) in self.kinds or (kind(s) == 0)

    def emit(self, *a):
        self.lines.append(' '.join(map(str, a)))

    def clear(self, virtual_only):
        for s in SLOTS:
            if virt(s) or not virtual_only:
                self.slot[s] = -1

    def env(self):
        r = self.r
        k = r.choice(['ov', 'ov', 'ov', 'init', 'init', 'init', 'xclass', 'fin'])
        if k == 'ov':
            self.emit('ov', r.choice([3, 4, 5, 6, 7]), r.choice([0, 1, 1]))
        elif k == 'init':
            self.emit('init')
            if not self.cfg['indirect'] or not self.init:
                self.clear(not self.cfg['inplace'])
            self.init, self.ix = True, self.x
        elif k == 'xclass':
            self.emit('xclass')
            self.x = True
        elif self.init and r.random() < 0.3:
            self.emit('fin')
            if self.cfg['inplace'] or not self.cfg['checks']:
                self.clear(not self.cfg['inplace'])
            self.init = False

    def classes(self, s):
        out = [c for c in ANC if static(s) in ANC[c]]
        if self.cfg.get('abstract'):
            out = [c for c in out if c != 2]
        if self.cfg['inplace']:
            out = [c for c in out if c != 8]
        elif 8 in out and not self.cfg.get('misuse') and self.r.random() < 0.7:
            out.remove(8)
        return out

    def step(self):
        r, S = self.r, self.slot
        full = [s for s in SLOTS if S[s] > 0]
        x = r.random()
        if len(full) < 4 or x < 0.08:
            if x < 0.5 or not self.init:
                d = r.choice([s for s in range(20) if self.ok(s)])
                if self.cfg['inplace'] and not self.init:
                    return
                c = r.choice(self.classes(d))
                self.emit('new', d, c)
                self.cls.append(c)
                S[d] = len(self.cls)
            else:
                d = r.choice([s for s in range(20, 60) if self.ok(s) and kind(s)] or [20])
                if not kind(d) or (self.cfg.get('abstract') and static(d) == 2):
                    return
                self.emit('make', d)
                if self.init:
                    self.cls.append(static(d))
                    S[d] = len(self.cls)
            return
        if x < 0.14:
            d = r.choice([s for s in SLOTS if self.ok(s)])
            op = r.choice(['null', 'nullc', 'def', 'drop'])
            if op == 'null' and S[d] == -1 or op == 'def' and not kind(d):
                return
            self.emit(op, d)
            S[d] = -1 if op == 'drop' else 0
            return
        op = r.choice(['ctor'] * 5 + ['assign'] * 6 + ['cast'] * 2 + ['final', 'get', 'pointer',
                                                                    'cmp', 'swap', 'pass', 'pass'])
        if self.cfg.get('misuse') and r.random() < 0.4:
            op = r.choice(['ctor', 'assign', 'final', 'final'])
        key = 'conv' if op in ('ctor', 'assign') else op
        def usable(d, s):
            if not (self.ok(d) and self.ok(s)) or S[s] == -1:
                return False
            if op in ('assign', 'cmp', 'swap') and S[d] == -1:
                return False
            if op == 'ctor' and d == s:
                return False
            if op in ('cast', 'pass', 'final') or (op in ('ctor', 'assign') and virt(d) and not virt(s)
                                                   and not kind(s)):
                if S[s] <= 0:
                    return False
            if op == 'cast' and static(d) not in ANC[self.cls[S[s] - 1]]:
                return False
            return True
        c = [p for p in PAIRS[key] if usable(*p)]
        if not c:
            return
        # prefer sources that are not null, and different kinds of pairs
        c2 = [p for p in c if S[p[1]] > 0 and (p[0] != p[1])]
        if self.cfg.get('misuse') and op in ('ctor', 'assign'):
            c2 = [p for p in c2 if virt(p[0]) and not virt(p[1])] or c2
        d, s = r.choice(c2 if c2 and r.random() < 0.85 else c)
        m = 'm' if kind(d) == 2 else r.choice('clm')
        if op in ('ctor', 'assign') and virt(d) and not virt(s) and not kind(d):
            m = r.choice('clp')
        if op == 'final':
            m = r.choice('cl') if not kind(d) else r.choice('mp')
        if op in ('get', 'pointer', 'cmp', 'swap'):
            m = '-'
        self.emit(op, d, s, m)
        # keep the approximate state
        v = S[s]
        if op == 'pass' and not self.init:
            return
        if virt(d) and not virt(s) and v > 0 and op != 'cmp':
            cl = self.cls[v - 1]
            bad = not self.init or cl == 8 or (cl == 7 and not self.ix)
            if op == 'final':
                bad = not self.init or cl != static(s)
            if bad:
                if op == 'ctor':
                    S[d] = -1
                return
        if op == 'swap':
            S[d], S[s] = S[s], S[d]
        elif op != 'cmp':
            S[d] = v
            if m in 'mp' and kind(s) and kind(d) and d != s:
                S[s] = 0


def scenario(r, cfg, steps):
    kinds = r.choice([{0, 1}, {0, 2}, {0, 3}, {0, 1, 2, 3}, {1}, {2}, {3}, {0}])
    sim = Sim(r, cfg, kinds)
    if r.random() < 0.9:
        for _ in range(r.randint(0, 4)):
            sim.emit('ov', r.choice([3, 4, 5, 6, 7]), 1)
        if r.random() < 0.4:
            sim.emit('xclass')
            sim.x = True
        if r.random() < 0.95:
            sim.emit('init')
            sim.init, sim.ix = True, sim.x
    p = cfg.get('env', 0.06)
    for _ in range(steps):
        if r.random() < p:
            sim.env()
        else:
            sim.step()
    sim.emit('clear')
    return sim.lines


def scripts(r, cfg, n):
    return [scenario(r, cfg, r.choice([15, 30, 60, 90])) for _ in range(n)]
