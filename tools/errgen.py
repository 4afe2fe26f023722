"""Scenarios for harness/errors.cpp (see spec/ErrorHandling.tla)."""

SET = (0, 1, 2, 6)


def scripts(r, n):
    out = []
    for _ in range(n):
        L = ['R']
        regs = r.sample(range(7), r.choice([1, 1, 2, 3, 5]))
        init = {x: False for x in range(7)}     # possibly initialized
        bad = {x: 0 for x in range(7)}
        stale = {x: False for x in range(7)}
        h = {x: 0 for x in range(7)}
        saved = {x: None for x in range(7)}
        own = 0

        def throws(x):
            return x == 3 or (x == 5 and own) or (x in SET and h[x] in (1, 3, 4, 5, 6))

        for _ in range(r.randint(5, 30)):
            x = r.choice(regs)
            op = r.choice(['call'] * 8 + ['error'] * 2 + ['init'] * 4 + ['set'] * 3 + ['restore', 'restore', 'put',
                                                                      'put', 'fini', 'out', 'own'])
            if op == 'call' and not stale[x]:
                L.append('call %d %d' % (x, r.randint(1, 8)))
            elif op == 'error' and x != 4:
                L.append('error %d %d' % (x, r.randint(1, 3)))
                h[x] = {4: 1, 7: 3}.get(h[x], h[x])
            elif op == 'init':
                pf = int(r.random() < 0.15)
                L.append('init %d %d' % (x, pf))
                if not bad[x] and not pf:
                    stale[x] = False
                    init[x] = True
                elif throws(x):
                    stale[x] = False
            elif op == 'fini':
                L.append('fini %d' % x)
                stale[x] = False
                init[x] = False
            elif op == 'put':
                b = r.choice([0, 0, 1, 2, 3])
                L.append('put %d %d' % (x, b))
                if b != bad[x] and init[x]:
                    stale[x] = True
                bad[x] = b
            elif op == 'set' and x in SET:
                k = r.randint(1, 7)
                L.append('set %d %d' % (x, k))
                saved[x], h[x] = h[x], k
            elif op == 'restore' and saved[x] is not None:
                L.append('restore %d' % x)
                saved[x], h[x] = h[x], saved[x]
            elif op == 'own':
                own = r.randint(0, 1)
                L.append('own %d' % own)
            elif op == 'out':
                L.append('out 1 %d' % r.randint(0, 1))
        out.append(L)
    return out


def walk(w, reg):
    """A walk in the graph of MCErrorHandling, for registry reg."""
    return ['R'] + ['%s %d %d' % (op, reg, x) for op, _, x in w]
