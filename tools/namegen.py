"""Programs whose methods and overriders are in several namespaces, under the
same names.  What is found by name is decided by spec/Names.tla, also for the
overriders that the programs may contain."""
import functools, json, os, random, shutil
from vlib import BUILD, tlc, tlc_error, ToolError

BATCH = 16


def world(seed, i):
    r = random.Random('names-%s-%d' % (seed, i))
    nn = r.randint(1, 4)
    par = [r.randint(0, k) if r.random() < 0.5 else 0 for k in range(nn)]
    nsp = lambda: r.randint(0, nn)
    nc = r.randint(3, 7)
    cls = []
    up = {}
    for c in range(1, nc + 1):
        b = []
        if c > 1 and r.random() < 0.8:
            b = [r.randint(1, c - 1)]
            if r.random() < 0.25:
                d = r.randint(1, c - 1)
                if not (up[d] & up[b[0]]):
                    b.append(d)
        up[c] = {c}.union(*[up[x] for x in b])
        cls.append({'ns': nsp(), 'b': b})
    down = {c: [d for d in up if c in up[d]] for c in up}
    meth, seen = [], set()

    def param(k, c=0, reg=0):
        return {'k': k, 'c': c, 'r': reg}
    for _ in range(r.randint(2, 6)):
        reg = r.random() < 0.25 and 1 or 0
        ps = []
        for x in range(r.choice([1, 1, 2, 2, 3])):
            k = r.choice('vvppwi')
            ps.append(param(k, 0 if k == 'i' else r.randint(1, nc) if r.random() < 0.5 else 1,
                            reg if k == 'p' else 0))
        if all(p['k'] == 'i' for p in ps):
            ps[0] = param('v', 1)
        if meth and r.random() < 0.3:  # the same parameters under the same name, or nearly
            ps = [dict(p) for p in r.choice(meth)['ps']]
            if r.random() < 0.5:
                ps.append(param('i'))
            for p in ps:
                if p['k'] == 'p':
                    p['r'] = reg
        m = {'n': r.choice([1, 1, 2]), 'ns': nsp(), 'reg': reg, 'ps': ps}
        key = json.dumps([m['n'], m['ns'], ps])
        if key not in seen:
            seen.add(key)
            meth.append(m)
    to = {'v': 'r', 'w': 'c', 'p': 'p', 'i': 'i'}
    ov, seen = [], set()
    for x, m in enumerate(meth):
        if r.random() < 0.7:  # an overrider for everything, added directly
            ov.append({'n': m['n'], 'ns': m['ns'], 'm': x + 1,
                       'ps': [param(to[p['k']], p['c'], p['r']) for p in m['ps']]})
    for _ in range(r.randint(3, 10)):
        m = r.choice(meth)
        ps = [param(to[p['k']], r.choice(down[p['c']]) if p['c'] else 0, p['r']) for p in m['ps']]
        if r.random() < 0.1:
            ps.pop()
        o = {'n': m['n'], 'ns': m['ns'] if r.random() < 0.3 else nsp(), 'm': 0, 'ps': ps}
        key = json.dumps([o['n'], o['ns'], ps])
        if key not in seen and any(p['k'] != 'i' for p in ps):
            seen.add(key)
            ov.append(o)
    calls = []
    for _ in range(40):
        m = r.choice(meth)
        args = []
        for p in m['ps']:
            if p['k'] == 'i':
                args.append(param('i'))
            else:
                k = r.choice({'v': 'rrrc', 'w': 'cccr', 'p': 'pppr'}[p['k']])
                c = r.choice(down[p['c']]) if r.random() < 0.9 else r.randint(1, nc)
                args.append(param(k, c, p['r'] if k == 'p' and r.random() < 0.9 else
                                  (1 - p['r']) if k == 'p' else 0))
        if r.random() < 0.1:
            args.append(param('i'))
        if r.random() < 0.05:
            args = args[1:]
        if not args or all(a['k'] == 'i' for a in args):
            continue
        calls.append({'ns': nsp(), 'n': m['n'] if r.random() < 0.9 else 3 - m['n'], 'args': args,
                      'dyn': [[r.choice(down[a['c']]) for a in args if a['k'] != 'i'] for _ in range(4)]})
    return {'par': par, 'rns': [r.choice([-1, nsp()]), nsp()], 'cls': cls, 'meth': meth, 'ov': ov}, calls, r


@functools.lru_cache(None)
def batch(seed, first):
    """Which overriders of the worlds are found by name, and which are not."""
    ws = [world(seed, i)[0] for i in range(first, first + BATCH)]
    d = os.path.join(BUILD, 'prog')
    os.makedirs(d, exist_ok=True)
    f = os.path.join(d, 'names-%d-%d' % (os.getpid(), first))
    with open(f + '.ndjson', 'w') as out:
        for w in ws:
            out.write(json.dumps(w) + '\n')
    text, st = tlc('EvalNames.tla', env={'WORLDS': f + '.ndjson', 'RESULT': f + '.out'})
    if not st['ok']:
        raise ToolError('EvalNames\n' + tlc_error(text))
    res = [json.loads(l)['m'] for l in open(f + '.out')]
    os.remove(f + '.ndjson')
    os.remove(f + '.out')
    return res


class NamesProgram:
    split = False

    def __init__(self, seed, i, bad=False):
        self.w, self.calls, self.r = world(seed, i)
        res = batch(seed, i - i % BATCH)[i % BATCH]
        ov = self.w['ov']
        self.bad = [o for o, m in zip(ov, res) if m == 0]
        self.w['ov'] = [o for o, m in zip(ov, res) if m > 0]
        self.at = [m for m in res if m > 0]
        if bad:
            self.r.shuffle(self.bad)
            self.w['ov'] += self.bad[:1]
            self.at += [1] * len(self.bad[:1])

    def ns(self, n):
        return '' if n == 0 else self.ns(self.w['par'][n - 1]) + '::n%d' % n

    def open(self, n):
        q = self.ns(n)
        return ('namespace %s { ' % q[2:], '}') if n else ('', '')

    def k(self, c):
        return '%s::K%d' % (self.ns(self.w['cls'][c - 1]['ns']), c)

    def ty(self, p):
        k = p['k']
        if k == 'i':
            return 'int'
        c = self.k(p['c'])
        reg = ', %s::reg1' % self.ns(self.w['rns'][1]) if p['r'] else ''
        return {'r': '%s&' % c, 'c': 'const %s&' % c, 'p': '::bom::virtual_ptr<%s%s>' % (c, reg),
                'v': '::bom::virtual_<%s&>' % c, 'w': '::bom::virtual_<const %s&>' % c}[k]

    def text(self):
        r, w = self.r, self.w
        L = ['// names in namespaces',
             '#include <cstdio>', '#include <cstdlib>', '#include <variant>', '#include <vector>', '#include <utility>',
             '#include <type_traits>']
        own = w['rns'][0] >= 0
        regs = [self.ns(w['rns'][0]) + '::reg0' if own else '', self.ns(w['rns'][1]) + '::reg1']
        inc = ['preamble.hpp', 'policies/std_rtti.hpp', 'policies/vptr_vector.hpp', 'policies/vptr_map.hpp',
               'policies/fast_perfect_hash.hpp', 'policies/throw_error_handler.hpp', 'policies/stderr_output.hpp']
        L += ['#include <boost/openmethod/%s>' % x for x in inc]
        body = ('boost::openmethod::registry<boost::openmethod::policies::std_rtti, %s, '
                'boost::openmethod::policies::throw_error_handler%s>')
        kinds = ['boost::openmethod::policies::vptr_vector, boost::openmethod::policies::fast_perfect_hash',
                 'boost::openmethod::policies::vptr_map<>']
        L.append(self.open(w['rns'][1])[0] + 'struct reg1 : %s {};' % (body % (r.choice(kinds), ', boost::openmethod::policies::runtime_checks')) +
                 self.open(w['rns'][1])[1])
        if own:
            L.append(self.open(w['rns'][0])[0] + 'struct reg0 : %s {};' % (body % (r.choice(kinds), '')) +
                     self.open(w['rns'][0])[1])
            L.append('#define BOOST_OPENMETHOD_DEFAULT_REGISTRY %s' % regs[0])
        L += ['#include <boost/openmethod.hpp>', '#include <boost/openmethod/initialize.hpp>',
              'namespace bom = boost::openmethod;',
              'static FILE* out;',
              '// what ran, with which arguments',
              'static std::vector<int> ran; static std::vector<const void*> given; static int bad, has = 1;',
              'inline const void* at(const void* p) { return p; }',
              'inline void enter(int o, std::vector<const void*> a, std::vector<int> ints, bool h) {',
              '  if (!has || a != given) ++bad;',
              '  for (int i : ints) if (i != 7) ++bad;',
              '  ran.push_back(o); has = h; if (ran.size() > 100) std::_Exit(3); }']
        for n in range(len(w['par'])):
            a, b = self.open(n + 1)
            L.append(a + b)
        for x, c in enumerate(w['cls']):
            a, b = self.open(c['ns'])
            L.append('%sstruct K%d%s { virtual ~K%d() {} }; %s' % (
                a, x + 1, ' : ' + ', '.join(self.k(y) for y in c['b']) if c['b'] else '', x + 1, b))
        all_ = ', '.join(self.k(x + 1) for x in range(len(w['cls'])))
        L += ['BOOST_OPENMETHOD_CLASSES(%s);' % all_, 'BOOST_OPENMETHOD_CLASSES(%s, %s);' % (all_, regs[1])]
        names = ['', 'foo', 'bar']
        # methods
        for x, m in enumerate(w['meth']):
            a, b = self.open(m['ns'])
            tys = '(%s)' % ', '.join(self.ty(p) for p in m['ps'])
            reg = ', ' + regs[1] if m['reg'] else ''
            L.append('%sBOOST_OPENMETHOD(%s, %s, int%s); using M%d = BOOST_OPENMETHOD_TYPE(%s, %s, int%s); %s' % (
                a, names[m['n']], tys, reg, x + 1, names[m['n']], tys, reg, b))
        # overriders
        later = []
        for x, o in enumerate(w['ov']):
            a, b = self.open(o['ns'])
            ps = '(%s)' % ', '.join('%s a%d' % (self.ty(p), j) for j, p in enumerate(o['ps']))
            vs = ['at(dynamic_cast<const void*>(%s))' % ('&*a%d' % j if p['k'] == 'p' else '&a%d' % j)
                  for j, p in enumerate(o['ps']) if p['k'] != 'i']
            ints = ['a%d' % j for j, p in enumerate(o['ps']) if p['k'] == 'i']
            args = ', '.join('a%d' % j for j in range(len(o['ps'])))
            if o['m']:
                m = '%s::M%d' % (self.ns(o['ns']), o['m'])
                L.append('%sstatic int cover%d%s { ::enter(%d, {%s}, {%s}, %s::has_next<cover%d>()); '
                         'return %s::next<cover%d>(%s); } static %s::override<cover%d> rcover%d; %s' % (
                             a, x, ps, x + 1, ', '.join(vs), ', '.join(ints), m, x, m, x, args, m, x, x, b))
                continue
            code = '{ ::enter(%d, {%s}, {%s}, has_next()); return next(%s); }' % (
                x + 1, ', '.join(vs), ', '.join(ints), args)
            s = r.randrange(3)
            if s == 2:
                L.append('%sBOOST_OPENMETHOD_DECLARE_OVERRIDER(%s, %s, int); %s' % (a, names[o['n']], ps, b))
                later.append('%sBOOST_OPENMETHOD_DEFINE_OVERRIDER(%s, %s, int) %s %s' % (
                    a, names[o['n']], ps, code, b))
            else:
                L.append('%sBOOST_OPENMETHOD_%s(%s, %s, int) %s %s' % (
                    a, ['OVERRIDE', 'INLINE_OVERRIDE'][s], names[o['n']], ps, code, b))
        r.shuffle(later)
        L += later
        # calls from each namespace
        for n in range(len(w['par']) + 1):
            a, b = self.open(n)
            for name in ('foo', 'bar'):
                L.append('''%s
template<class... A> auto can_%s(int) -> decltype(%s(std::declval<A>()...), std::true_type());
template<class... A> std::false_type can_%s(long);
template<class... A> bool try_%s_%d(bool run, A&&... a) {
  if constexpr (decltype(can_%s<A...>(0))::value) { if (run) %s(std::forward<A>(a)...); return true; }
  else return false; }
%s''' % (a, name, name, name, name, n, name, name, b))
        L += ['template<class F> static void attempt(F f) {',
              '  ran.clear(); bad = 0; has = 1;',
              '  try { f(); ++bad; }',
              '  catch (bom::no_overrider&) { if (has && !ran.empty()) ++bad; ran.push_back(0); }',
              '  catch (bom::ambiguous_call&) { if (has && !ran.empty()) ++bad; ran.push_back(-1); }',
              '  fprintf(out, "\\"bad\\":%d,\\"ran\\":[", bad);',
              '  for (std::size_t i = 0; i < ran.size(); ++i) fprintf(out, "%s%d", i ? "," : "", ran[i]);',
              '  fprintf(out, "]}\\n"); }',
              'int main(int, char** argv) {',
              '  out = fopen(argv[2], "w");',
              '  fprintf(out, "{\\"op\\":\\"reset\\"}\\n");',
              '  fprintf(out, "%%s\\n", R"({"op":"world","w":%s})");' % json.dumps(w),
              '  bom::initialize(); bom::initialize<%s>();' % regs[1]]
        if not own:
            L.append('  bom::default_registry::error_handler::set([](const auto& e) { '
                     'std::visit([](auto&& x) { throw x; }, e); });')
        for x in range(len(w['cls'])):
            L.append('  static %s x%d[3];' % (self.k(x + 1), x + 1))
        for c in self.calls:
            js = '"ns":%d,"n":%d,"args":%s' % (c['ns'], c['n'], json.dumps(c['args']))
            fn = '%s::try_%s_%d' % (self.ns(c['ns']), names[c['n']], c['ns'])

            def value(a, j, d):
                if a['k'] == 'i':
                    return '7'
                if a['k'] == 'p':
                    return '%s(x%d[%d])' % (self.ty(a), d, j % 3)
                return 'static_cast<%s>(x%d[%d])' % (self.ty(a), d, j % 3)
            first = True
            for dyn in c['dyn']:
                ds = iter(dyn)
                vals, objs = [], []
                for j, a in enumerate(c['args']):
                    d = 0 if a['k'] == 'i' else next(ds)
                    vals.append(value(a, j, d))
                    if d:
                        objs.append('&x%d[%d]' % (d, j % 3))
                if first:
                    L.append('  fprintf(out, "%%s%%s}\\n", R"({"op":"probe",%s,"ok":)", %s(false, %s) ? "true" : "false");'
                             % (js, fn, ', '.join(vals)))
                    first = False
                L.append('  if (%s(false, %s)) { given = {%s}; fprintf(out, "%%s", R"({"op":"call",%s,"dyn":%s,)"); '
                         'attempt([&] { %s(true, %s); }); }' % (
                             fn, ', '.join(vals), ', '.join(objs), js, json.dumps(dyn), fn, ', '.join(vals)))
        for x, o in enumerate(w['ov']):
            if o['m']:
                continue
            ps = '(%s)' % ', '.join(self.ty(p) for p in o['ps'])
            vals = [value(p, j, p['c']) for j, p in enumerate(o['ps'])]
            objs = ['&x%d[%d]' % (p['c'], j % 3) for j, p in enumerate(o['ps']) if p['k'] != 'i']
            L.append('  given = {%s}; fprintf(out, "{\\"op\\":\\"direct\\",\\"o\\":%d,"); attempt([&] { '
                     '%s::BOOST_OPENMETHOD_OVERRIDER(%s, %s, int)::fn(%s); });' % (
                         ', '.join(objs), x + 1, self.ns(o['ns']), names[o['n']], ps, ', '.join(vals)))
        L += ['  fprintf(out, "{\\"op\\":\\"end\\"}\\n");', '  fclose(out);', '  std::_Exit(0);', '}']
        return '\n'.join(L) + '\n'


def names_program(seed, i):
    return NamesProgram(seed, i)
