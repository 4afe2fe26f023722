"""Programs that compose registries from policies (see harness/compose.hpp)."""
import random

NAMES = {11: 'pol::std_rtti', 12: 'MyRtti', 13: 'MyDeferred', 21: 'pol::vptr_vector', 22: 'pol::vptr_map<>',
         23: 'pol::vptr_map<MapFn>', 24: 'MyVptr', 25: 'MyVector', 31: 'pol::fast_perfect_hash', 32: 'MyHash',
         41: 'pol::default_error_handler', 42: 'pol::throw_error_handler', 43: 'MyHandler',
         51: 'pol::stderr_output', 52: 'MyOutput', 61: 'pol::runtime_checks', 71: 'pol::indirect_vptr',
         81: 'Foo1', 82: 'Foo2', 83: 'Foo3', 91: 'Bar1'}
CATS = {1: 'pol::rtti', 2: 'pol::vptr', 3: 'pol::type_hash', 4: 'pol::error_handler', 5: 'pol::output',
        6: 'pol::runtime_checks', 7: 'pol::indirect_vptr', 8: 'Foo', 9: 'Bar'}
DEFAULT = [11, 21, 31, 41, 51]


class ComposeProgram:
    split = False

    def __init__(self, seed, chains, runs):
        self.r = random.Random(seed)
        self.chains, self.runs = chains, runs

    def text(self):
        r = self.r
        checks = r.random() < 0.5
        T, M = [], []
        if checks:
            T.append('#define BOOST_OPENMETHOD_ENABLE_RUNTIME_CHECKS')
        T.append('#include "compose.hpp"')
        T.append('using namespace compose;')
        num = 0
        for k in range(self.chains + self.runs):
            running = k >= self.chains
            base = r.random()
            num += 1
            if base < 0.3:
                ps, reg = DEFAULT + ([61] if checks else []), 'bom::default_registry'
            elif base < 0.5:
                ps, reg = DEFAULT + ([61] if checks else []) + [71], 'bom::indirect_registry'
            else:
                ps = []
                for c in r.sample(sorted(CATS), r.randint(0, 7)):
                    ps.append(r.choice([p for p in NAMES if p // 10 == c]))
                reg = 'bom::registry<%s>' % ', '.join(NAMES[p] for p in ps)
            T.append('struct S%d : %s {};' % (num, reg))
            M.append('  describe<S%d>("\\"op\\":\\"make\\",\\"ps\\":%s");' % (num, str(ps).replace(' ', '')))
            for _ in range(r.randint(1, 6)):
                if r.random() < 0.7:
                    ks = [r.choice(sorted(NAMES)) for _ in range(r.randint(1, 3))]
                    self.step(T, M, num, 'with', ks, NAMES, 'ps')
                else:
                    cs = [r.choice(sorted(CATS)) for _ in range(r.randint(1, 2))]
                    self.step(T, M, num, 'without', cs, CATS, 'cs')
                num += 1
            if running:
                # what is needed to be used
                v = r.choice([21, 22, 23, 24, 25, 25, 24, 0])
                ks = [r.choice([11, 12, 13, 12]), 31 if v != 25 and r.random() < 0.5 else 32]
                if v:
                    ks.append(v)
                else:
                    self.step(T, M, num, 'without', [2, 7], CATS, 'cs')
                    num += 1
                if r.random() < 0.7:
                    ks.append(r.choice([43, 41, 42]))
                if r.random() < 0.6:
                    ks.append(r.choice([51, 52]))
                if r.random() < 0.4:
                    ks.append(61)
                r.shuffle(ks)
                self.step(T, M, num, 'with', ks, NAMES, 'ps')
                num += 1
                if v in (22, 23, 24, 0) and r.random() < 0.4:
                    self.step(T, M, num, 'without', [3], CATS, 'cs')
                    num += 1
                NAMES[101] = 'Tag<%d>' % num
                self.step(T, M, num, 'with', [101], NAMES, 'ps')
                del NAMES[101]
                num += 1
                self.use(T, M, 'S%d' % num, r, v)
        M.insert(0, '  start(argv[2]);')
        T.append('int main(int, char** argv) {')
        T += M
        T.append('  fprintf(out, "{\\"op\\":\\"end\\"}\\n");')
        T.append('  fclose(out);')
        T.append('  std::_Exit(0);')
        T.append('}')
        return '\n'.join(T) + '\n'

    def step(self, T, M, num, op, ks, names, key):
        T.append('struct S%d : S%d::%s<%s> {};' % (num + 1, num, op, ', '.join(names[k] for k in ks)))
        M.append('  describe<S%d>("\\"op\\":\\"%s\\",\\"%s\\":%s");' % (
            num + 1, op, key, str(ks).replace(' ', '')))

    def use(self, T, M, R, r, v):
        o1 = r.sample([1, 2, 3], r.randint(0, 3))
        pairs = [(a, b) for a in (1, 2, 3) for b in (1, 2, 3)]
        o2 = r.sample(pairs, r.randint(0, 5))
        M.append('  { prepare<%s>();' % R)
        M.append('    using W = World<%s>;' % R)
        for m, o in (('1', [(a,) for a in o1]), ('2', o2)):
            for k in 'vp':
                if o:
                    M.append('    static W::M%s%s::override<%s> o%s%s;' % (m, k, ', '.join(
                        'W::template f%s%s<%s>' % (m, k, ', '.join(map(str, (i + 1,) + t)))
                        for i, t in enumerate(o)), m, k))
                else:
                    M.append('    (void)&W::M%s%s::fn;' % (m, k))
        M.append('    fprintf(out, "{\\"op\\":\\"run\\",\\"ov\\":[%s,%s]}\\n");' % (
            str([[a] for a in o1]).replace(' ', ''), str([list(x) for x in o2]).replace(' ', '')))
        for k in range(r.randint(1, 3)):
            if r.random() < 0.4:
                M.append('    calls<%s>(false);' % R)
            op = r.choice([('', ''), ('5', 'Opt<1>{5}'), ('6,7', 'Opt<2>{6}, Opt<1>{7}')])
            M.append('    init<%s>("%s"%s);' % (R, op[0], ', ' + op[1] if op[1] else ''))
            if r.random() < 0.3:
                M.append('    init<%s>("%s"%s);' % (R, op[0], ', ' + op[1] if op[1] else ''))
            M.append('    calls<%s>(true);' % R)
            if r.random() < 0.8:
                op = r.choice([('', ''), ('5', 'Opt<1>{5}'), ('6,7', 'Opt<2>{6}, Opt<1>{7}')])
                M.append('    fini<%s>("%s"%s);' % (R, op[0], ', ' + op[1] if op[1] else ''))
                if r.random() < 0.5:
                    M.append('    calls<%s>(false);' % R)
            else:
                break
        M.append('  }')


def compose_program(seed, i):
    return ComposeProgram('compose-%s-%d' % (seed, i), 8, 4)
