"""Worlds enumerated by TLC (spec/MCWorlds.tla), replayed in the real library.

A world is a hierarchy, the parameters of a method, and its overriders.  The
same hierarchy serves many worlds: each scenario registers it in a random way,
and runs a sequence of initializations, each with one world per method of the
engine."""
import itertools, json, random, re
import gen
from vlib import *

SLOTS = {}       # (arity, overriders) -> [(shape, method)]
for s in (12, 14):
    for m, (a, k) in enumerate(gen.SHAPES[s]):
        SLOTS.setdefault((a, k), (s, m))


def parse(text):
    out = []
    for m in re.finditer(r'^"WORLD (.*)"$', text, re.M):
        bases, p, o = json.loads(m.group(1))
        out.append((tuple(tuple(sorted(b)) for b in bases), p, o))
    return sorted(out, key=json.dumps)


class Labelled(gen.Model):
    """A given hierarchy, with random labels."""

    def __init__(self, r, bases):
        self.n = len(bases)
        self.lab = r.sample(range(1, max(8, self.n + 1)), self.n)
        up = gen.closure([{b - 1 for b in bs} for bs in bases])
        self.bases = {self.lab[i]: {self.lab[b - 1] for b in bs} for i, bs in enumerate(bases)}
        self.up = {self.lab[i]: {self.lab[b] for b in s} for i, s in enumerate(up)}
        self.classes = sorted(self.bases)
        self.bases0 = [{b - 1 for b in bs} for bs in bases]


def head(r, scn, variant):
    L = ['R %d' % scn]
    if variant in (0, 7):
        L += gen.vector_tids(r, ())
    else:
        L += gen.tid_lines(r, r.choice(['ptr', 'rand', 'step', 'small', 'dense']), 0, False)
    return L + ['B']


def method(r, L, m, j, p, o, n22):
    lab = m.lab
    o = list(o)
    r.shuffle(o)
    ret = r.choice(m.classes) if r.random() < (0.7 if n22 else 0.2) else 0
    L.append('P %d %s %d' % (j + 1, ' '.join(str(lab[c - 1]) for c in p), ret))
    for k, sig in enumerate(o):
        L.append('O %d %d %s %d' % (j + 1, k + 1, ' '.join(str(lab[c - 1]) for c in sig),
                                    r.choice(m.down(ret)) if ret else 0))


def calls(m, j, p, types=None, op='C'):
    ts = list(itertools.product(*[m.down(m.lab[c - 1]) for c in p]))
    return '%s %d %d %s' % (op, j + 1, len(ts), ' '.join('%d0' % c for t in ts for c in t))


def scripts(r, worlds, variant, n2216=0.0, length=40, once=0.0):
    """[scenario lines] for each engine shape that can hold the worlds"""
    by = {}
    for bases, p, o in worlds:
        if (len(p), len(o)) in SLOTS:
            s, j = SLOTS[(len(p), len(o))]
            by.setdefault((s, bases), {}).setdefault(j, []).append((p, o))
    out = []
    for (s, bases), queues in sorted(by.items()):
        for q in queues.values():
            r.shuffle(q)
        n = max(len(q) for q in queues.values())
        for start in range(0, n, length):
            m = Labelled(r, bases)
            L = head(r, len(out), variant) + ['E %d' % s]
            live = 0
            for i in range(start, min(start + length, n)):
                if i % 5 == 0:
                    L += ['X %d' % u for u in range(1, live + 1)]
                    recs = gen.make_units(r, m, r.choice(['plain', 'split', 'explicit']))
                    L += gen.unit_lines(r, recs, False)
                    live = len(recs)
                n22 = r.random() < n2216
                todo = []
                for j in range(len(gen.SHAPES[s])):
                    a, k = gen.SHAPES[s][j]
                    q = queues.get(j)
                    if q and i < len(q):
                        todo.append((j, q[i]))
                        method(r, L, m, j, q[i][0], q[i][1], n22)
                    elif i == start:
                        # no world for this method: anything valid
                        p = [r.randint(1, m.n) for _ in range(a)]
                        d = [m.lab.index(r.choice(m.down(m.lab[c - 1]))) + 1 for c in p]
                        method(r, L, m, j, p, [d] * k, n22)
                L.append('I %d' % n22)
                for j, (p, o) in todo:
                    L.append(calls(m, j, p, op='D' if r.random() < once else 'C'))
            out.append(L)
    return out


def layouts(r, hierarchies, limit, variant):
    """Where virtual parameters are in the hierarchy: five methods with one, one
    with two (shape 6), on the same classes."""
    todo = []
    for bases in hierarchies:
        n = len(bases)
        for f in itertools.combinations_with_replacement(range(1, n + 1), 5):
            for p in itertools.product(range(1, n + 1), repeat=2):
                todo.append((bases, f, p))
    if limit and limit < len(todo):
        todo = r.sample(todo, limit)
    by = {}
    for bases, f, p in todo:
        by.setdefault(bases, []).append((f, p))
    out = []
    for bases, l in sorted(by.items()):
        r.shuffle(l)
        for start in range(0, len(l), 40):
            m = Labelled(r, bases)
            L = head(r, len(out), variant) + ['E 6']
            live = 0
            for i, (f, p) in enumerate(l[start:start + 40]):
                if i % 3 == 0:
                    L += ['X %d' % u for u in range(1, live + 1)]
                    recs = gen.make_units(r, m, r.choice(['plain', 'split', 'explicit']))
                    L += gen.unit_lines(r, recs, False)
                    live = len(recs)
                f = list(f)
                r.shuffle(f)
                for j, c in enumerate(f):
                    method(r, L, m, j, [c], [[c]], False)
                d = [m.lab.index(r.choice(m.down(m.lab[c - 1]))) + 1 for c in p]
                method(r, L, m, 5, p, [d], False)
                L.append('I 0')
                for j, c in enumerate(f):
                    L.append(calls(m, j, [c]))
                L.append(calls(m, 5, p))
            out.append(L)
    return out
