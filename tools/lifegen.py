"""Random programs that call methods on objects with inplace v-table pointers,
at every point of their lives.  Each writes the events of spec/TraceInplace.tla."""
import random
from proggen import Program, REFS, VPTRS, ptype, mtype


class LifeProgram(Program):
    def classes(self, A):
        cfg, r = self.cfg, self.r
        A('struct full {};  // selects a delegating constructor')
        for c in range(self.n):
            K = 'K%d' % c
            mixin = ('inplace_vptr_derived<%s, %s>' % (K, ', '.join('K%d' % b for b in self.bases[c]))
                     if self.bases[c] else 'inplace_vptr_base<%s, reg>' % K)
            bs = ['K%d' % b for b in self.bases[c]]
            if r.random() < 0.2:
                A('struct other%d { %s long pad = 0; };' % (c, 'virtual ~other%d() {}' % c
                                                           if r.random() < 0.5 and self.poly else ''))
                bs.insert(r.randint(0, len(bs)), 'other%d' % c)
            A('struct %s : %s {' % (K, ', '.join(bs + [mixin])))
            if r.random() < 0.3:
                A('  long before = 0;')
            A('  life::Probe<%d, %s> probe;' % (c, K))
            if r.random() < 0.6:
                A('  long pad%d[%d] = {};' % (c, r.randint(1, 3)))
            inits = []
            for i, b in enumerate(self.bases[c]):
                inits.append('K%d(%s)' % (b, '(life::maybe(%d, 0), 0)' % c if i == 0 else '0'))
            if self.bases[c] and r.random() < 0.3:
                inits.append('%s()' % mixin)
            inits.append('probe(this)')
            A('  explicit %s(int) : %s { life::point(&probe, %d); life::maybe(%d, 2); }' % (K, ', '.join(inits), c, c))
            if r.random() < 0.5:
                A('  %s() : %s(0) {}' % (K, K))
            else:
                A('  %s() : %s { life::point(&probe, %d); life::maybe(%d, 2); }' % (K, ', '.join(inits), c, c))
            A('  explicit %s(full) : %s() { life::point(&probe, %d); life::maybe(%d, 3); }' % (K, K, c, c))
            how = r.random()
            if how < 0.5:
                A('  %s(const %s&) = default;' % (K, K))
            else:
                inits = ['K%d(o)' % b for b in self.bases[c]]
                if r.random() < 0.4:
                    inits.append('%s(o)' % mixin)
                inits.append('probe(o.probe)')
                A('  %s(const %s& o) : %s { life::point(&probe, %d); life::maybe(%d, 2); }' % (
                    K, K, ', '.join(inits), c, c))
            if r.random() < 0.4:
                A('  %s(%s&&) = default;' % (K, K))
            A('  %s& operator=(const %s&) = default;' % (K, K))
            if r.random() < 0.3:
                A('  %s& operator=(%s&&) = default;' % (K, K))
            A('  %s~%s() { life::point(&probe, %d); }' % ('virtual ' if self.poly else '', K, c))
            if self.poly:
                A('  virtual int dyn() const { return %d; }' % c)
                if self.abstract[c]:
                    A('  virtual void pure%d() = 0;' % c)
                else:
                    for a in sorted(self.anc[c]):
                        if self.abstract[a]:
                            A('  void pure%d() override {}' % a)
            A('};')
        for c in self.live:
            # not known to the library
            A('struct X%d : K%d { X%d() { life::point(&this->K%d::probe, %d); } '
              '~X%d() { life::point(&this->K%d::probe, %d); } };' % (c, c, c, c, c, c, c, c))

    def registrations(self, A):
        self.units = [(c, self.bases[c] + [c]) for c in self.reg]

    def method(self, A, m):
        r = self.r
        M = self.meths[m]
        params = [mtype(k, 'K%d' % c) for k, c in M['vps']]
        A('struct id%d;' % m)
        A('using M%d = method<id%d, int(%s), reg>;' % (m, m, ', '.join(params)))
        for j, sig in enumerate(M['sigs'], 1):
            ps = ', '.join('%s p%d' % (ptype(k, 'K%d' % sig[x]), x) for x, (k, _) in enumerate(M['vps']))
            obs = []
            for x, (k, _) in enumerate(M['vps']):
                e = {'P': 'p%d', 'CP': 'p%d'}.get(k, '&p%d' if k in REFS else 'p%d.get()') % x
                obs.append('life::num(%d, %s)' % (sig[x], e))
            fwd = ', '.join(('std::move(p%d)' if k == 'RR' else 'p%d') % x for x, (k, _) in enumerate(M['vps']))
            A('static int ov%d_%d(%s) {' % (m, j, ps))
            A('  prog::enter(%d, M%d::has_next<ov%d_%d>(), {%s}, {});' % (j, m, m, j, ', '.join(obs)))
            A('  return M%d::next<ov%d_%d>(%s);' % (m, m, j, fwd))
            A('}')
            A('BOOST_OPENMETHOD_REGISTER(M%d::override<ov%d_%d>);' % (m, m, j))
        args = []
        for x, (k, c) in enumerate(M['vps']):
            p = '*static_cast<K%d*>(a[%d])' % (c, x)
            args.append({'RR': 'std::move(%s)' % p, 'P': p[1:], 'CP': p[1:]}.get(
                k, '%s(%s)' % (ptype(k, 'K%d' % c).replace('&', '').replace('const virtual', 'virtual'), p)
                if k in VPTRS and r.random() < 0.5 else p))
        A('static int call%d(void** a) { return M%d::fn(%s); }' % (m, m, ', '.join(args)))

    def text(self):
        return Program.text(self).replace('#include "prog.hpp"', '#include "life.hpp"')

    def main(self, A):
        r, cfg = self.r, self.cfg
        A('static int class_of(type_id t) {')
        for c in range(self.n):
            A('  if (t == reg::rtti::static_type<K%d>()) return %d;' % (c, c + 1))
            if c in self.live and cfg['rtti'] == 'std':
                A('  if (t == reg::rtti::static_type<X%d>()) return %d;' % (c, c + 1))
        A('  return 0; }')
        A('static int method_of(type_id t) {')
        for m in range(len(self.meths)):
            A('  if (t == reg::rtti::static_type<M%d>()) return %d;' % (m, m + 1))
        A('  return -1; }')
        A('''template<class F> static void observe(life::Row& r, F f) {
  auto bad = [&](const bad_call& e, int x) {
    r.x = x; r.h = 1; r.e = method_of(e.method); r.n = int(e.arity);
    for (std::size_t i = 0; i < e.arity; ++i) r.ty.push_back(class_of(e.types[i]));
  };
  try { r.r = f(); }
  catch (const no_overrider& e) { bad(e, 0); }
  catch (const ambiguous_call& e) { bad(e, -1); }
  catch (const missing_class& e) { r.x = -2; r.h = 1; r.ty = {class_of(e.type)}; }
  catch (const not_initialized&) { r.x = -3; r.h = 1; }
  catch (const openmethod_error&) { r.x = -9; r.h = 1; }
}
static std::vector<life::Block*> g_steady[%d];
static int g_turn;
''' % self.n)
        # calls on an object
        A('static const bool derives[%d][%d] = {%s};' % (self.n, self.n, ', '.join(
            '{%s}' % ', '.join(str(int(a in self.anc[c])) for a in range(self.n)) for c in range(self.n))))
        A('void life::calls(life::Block* b, int cls) {')
        for m, M in enumerate(self.meths):
            for x, (k, c) in enumerate(M['vps']):
                others = [y for y in range(len(M['vps'])) if y != x]
                A('  if (b->as[%d] && derives[cls][%d]) {' % (c, c))
                for rep in range(1 if not others else 2):
                    A('    {')
                    A('    void* a[%d] = {}; std::vector<std::pair<int, int>> q(%d); life::Row row;' % (
                        len(M['vps']), len(M['vps'])))
                    A('    a[%d] = b->as[%d]; q[%d] = {b->num, %d};' % (x, c, x, c + 1))
                    for y in others:
                        d = M['vps'][y][1]
                        A('    { auto o = g_steady[%d][g_turn++ %% g_steady[%d].size()]; %s '
                          'a[%d] = o->as[%d]; q[%d] = {o->num, %d}; }' % (
                              d, d, 'if (b->as[%d] && derives[cls][%d]) o = b;' % (d, d) if rep else '', y, d, y, d + 1))
                    A('    life::rows_begin(%d);' % (m + 1))
                    A('    prog::g.chain.clear(); prog::g.args.clear(); prog::g.bad = 0;')
                    A('    for (auto& z : q) prog::g.args.push_back(z.first);')
                    if self.poly:
                        for y in range(len(M['vps'])):
                            d = M['vps'][y][1]
                            A('    row.v.push_back(static_cast<K%d*>(a[%d])->dyn() + 1);' % (d, y))
                    A('    observe(row, [&] { return call%d(a); });' % m)
                    A('    life::row(q, row);')
                    A('    life::rows_end();')
                    A('    }')
                A('  }')
        A('}')
        A('''template<class T, class... A> static life::Block* create(int cls, A&&... a) {
  auto b = life::reserve(cls, sizeof(T));
  try { new (b->begin) T(std::forward<A>(a)...); }
  catch (const life::Boom&) { life::boom = -1; life::release(b); return nullptr; }
  life::boom = -1;
  b->complete = true;
  life::point(b->begin, cls);
  return b;
}
template<class T> static void destroy(life::Block* b) {
  if (!b) return;
  int cls = b->cls;
  life::point(b->begin, cls);
  reinterpret_cast<T*>(b->begin)->~T();
  life::release(b);
}
static int init() {
  int x = 1, h = 0, cells = 0, ni = 0, amb = 0;
  try { auto c = initialize<reg>(); cells = int(c.report.cells); ni = int(c.report.not_implemented);
        amb = int(c.report.ambiguous); }
  catch (const openmethod_error&) { x = -9; h = 1; }
  fprintf(prog::out, "{\\"op\\":\\"init\\",\\"s\\":0,\\"opt\\":0,\\"out\\":%d,\\"ty\\":[],\\"cells\\":%d,"
    "\\"ni\\":%d,\\"amb\\":%d,\\"len\\":0,\\"hc\\":%d}\\n", x, cells, ni, amb, h);
  return 0;
}''')
        A('int main(int, char** argv) {')
        A('  prog::out = fopen(argv[2], "w");')
        for e in self.events() + ['{"op":"hier","v":%d,"B":[%s]}' % (
                int(self.poly), ','.join('[%s]' % ','.join(str(b + 1) for b in self.bases[c])
                                         for c in range(self.n)))]:
            A('  fprintf(prog::out, "%%s\\n", R"(%s)");' % e)
        B = []
        self.alive = 0
        if cfg['indirect']:
            self.steady(B)
            B += ['  init();', '  life::g_quiet = false;']
            B += ['  for (auto& v : g_steady) for (auto b : v) life::calls(b, b->cls);']
        else:
            B += ['  init();']
            self.steady(B)
            B += ['  life::g_quiet = false;']
        for c in self.live:
            B.append('  destroy<K%d>(create<K%d>(%d));' % (c, c, c))
            B.append('  destroy<X%d>(create<X%d>(%d));' % (c, c, c))
            for t in sorted(self.anc[c]):
                for at in range(4):
                    if r.random() < cfg.get('booms', 0.5) and (at != 3 or t == c):
                        B.append('  life::boom = %d; destroy<K%d>(create<K%d>(%d%s));' % (
                            t * 4 + at, c, c, c, ', full()' if at == 3 or r.random() < 0.3 else ''))
        # copies and assignments
        todo = [(c, d) for c in self.live for d in self.down[c] if d in self.live]
        r.shuffle(todo)
        for c, d in todo[:cfg.get('copies', 8)]:
            src = '*reinterpret_cast<K%d*>(d->begin)' % d
            base = 'static_cast<K%d&>(%s)' % (c, src)
            B.append('  { auto d = create<K%d>(%d);' % (d, d))
            B.append('    auto c = create<K%d>(%d, %s);' % (
                c, c, base if r.random() < 0.5 else 'std::move(%s)' % base))
            lhs = '*reinterpret_cast<K%d*>(c->begin)' % c
            for _ in range(2):
                if r.random() < 0.5:
                    B.append('    %s = %s;' % (lhs, base if r.random() < 0.7 else 'std::move(%s)' % base))
                else:
                    B.append('    %s = %s;' % (base, lhs if r.random() < 0.7 else 'std::move(%s)' % lhs))
                B.append('    life::calls(c, c->cls); life::calls(d, d->cls);')
            if r.random() < 0.5:
                B.append('    destroy<K%d>(d); life::calls(c, c->cls); destroy<K%d>(c); }' % (d, c))
            else:
                B.append('    destroy<K%d>(c); life::calls(d, d->cls); destroy<K%d>(d); }' % (c, d))
        # again after another initialize
        if cfg['indirect']:
            B += ['  init();', '  for (auto& v : g_steady) for (auto b : v) life::calls(b, b->cls);']
        else:
            B += ['  unsteady();', '  init();']
            B += ['  life::g_quiet = true;']
            self.steady(B)
            B += ['  life::g_quiet = false;']
            B += ['  for (auto& v : g_steady) for (auto b : v) life::calls(b, b->cls);']
        for c in self.live:
            B.append('  destroy<K%d>(create<K%d>(%d));' % (c, c, c))
        for b in B:
            A(b)
        A('  unsteady();')
        A('  fprintf(prog::out, "{\\"op\\":\\"end\\",\\"s\\":-1}\\n");')
        A('  fclose(prog::out);')
        A('  std::_Exit(0);')
        A('}')

    def steady(self, B):
        if not self.alive:
            self.alive = 1
            B.append('  std::vector<std::function<void()>> kill;')
            B.append('  auto unsteady = [&] { life::g_quiet = true; while (!kill.empty()) { kill.back()(); '
                     'kill.pop_back(); } for (auto& v : g_steady) v.clear(); };')
        for c in self.live:
            B.append('  { auto b = create<K%d>(%d); kill.push_back([=] { destroy<K%d>(b); });' % (c, c, c))
            for a in sorted(self.anc[c]):
                B.append('    g_steady[%d].push_back(b);' % a)
            B.append('  }')


def life_program(seed, i):
    r = random.Random('lcfg-%s-%d' % (seed, i))
    c = dict(r.choice([
        dict(rtti='std', store='hash', fromdefault=True),
        dict(rtti='std', store='none'),
        dict(rtti='std', store='none'),
        dict(rtti='custom', store='none'),
        dict(rtti='static', store='none'),
    ]), virt=False, multi=r.random() < 0.85, inplace=True, n=(3, 6), m=(2, 3))
    c['checks'] = r.random() < 0.5
    c['indirect'] = r.random() < 0.4
    # virtual_ptrs are not made from objects that are not polymorphic
    # number of bases: often several roots, then a class with all of them
    if c['multi'] and r.random() < 0.6:
        c['ks'] = r.choice([[0, 0, 1, 2], [0, 0, 0, 3, 1], [0, 0, 0, 1, 3, 1], [0, 0, 0, 0, 4], [0, 1, 0, 0, 3, 1],
                            [0, 0, 2, 0, 2, 1], [0, 0, 2, 0, 0, 3]])
        c['n'] = (len(c['ks']), len(c['ks']) + 1)
    c['kinds'] = REFS + (VPTRS if c['rtti'] != 'static' else [])
    return LifeProgram('life-%s-%d' % (seed, i), c)
