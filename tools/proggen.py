"""Random C++ programs that use the library: hierarchies, registries, methods
with every kind of virtual parameter, macros and core API.  Each writes the
events of spec/TraceRegistry.tla."""
import random

# kinds of virtual parameters
REFS = ['R', 'CR', 'RR', 'P', 'CP']
VPTRS = ['VP', 'CVP', 'VPC']
SMART = ['SP', 'CSP', 'SPC', 'UP', 'IP', 'CIP']
SVPTRS = ['SVP', 'CSVP', 'UVP', 'IVP', 'CIVP']
ALLK = REFS + VPTRS + SMART + SVPTRS


def mtype(k, c, reg=', reg'):
    """type of a method parameter"""
    t = ptype(k, c, reg)
    return t if k in VPTRS + SVPTRS else 'virtual_<%s>' % t


def ptype(k, c, reg=', reg'):
    return {
        'R': '%s&', 'CR': 'const %s&', 'RR': '%s&&', 'P': '%s*', 'CP': 'const %s*',
        'VP': 'virtual_ptr<%s' + reg + '>', 'CVP': 'const virtual_ptr<%s' + reg + '>&',
        'VPC': 'virtual_ptr<const %s' + reg + '>',
        'SP': 'std::shared_ptr<%s>', 'CSP': 'const std::shared_ptr<%s>&',
        'SPC': 'std::shared_ptr<const %s>', 'UP': 'std::unique_ptr<%s>',
        'IP': 'boost::intrusive_ptr<%s>', 'CIP': 'const boost::intrusive_ptr<%s>&',
        'SVP': 'shared_virtual_ptr<%s' + reg + '>',
        'CSVP': 'const shared_virtual_ptr<%s' + reg + '>&',
        'UVP': 'unique_virtual_ptr<%s' + reg + '>',
        'IVP': 'boost_intrusive_virtual_ptr<%s' + reg + '>',
        'CIVP': 'const boost_intrusive_virtual_ptr<%s' + reg + '>&',
    }[k] % c


class Program:
    """cfg: rtti, store, checks, indirect, default (use default_registry),
    kinds, virt, multi, ..."""

    def __init__(self, seed, cfg):
        self.r = random.Random(seed)
        self.cfg = cfg
        self.poly = cfg['rtti'] in ('std', 'custom', 'deferred')
        self.hierarchy()
        self.methods()

    # -- hierarchy -----------------------------------------------------
    def subobjects(self, c):
        """how many subobjects of each class in c"""
        virt, out = set(), {}

        def visit(x):
            out[x] = out.get(x, 0) + 1
            for b in self.bases[x]:
                if self.virt[b]:
                    virt.add(b)
                else:
                    visit(b)
        visit(c)
        done = set()
        while virt - done:
            b = min(virt - done)
            done.add(b)
            visit(b)
        return out

    def hierarchy(self):
        r, cfg = self.r, self.cfg
        n = r.randint(*cfg.get('n', (3, 7)))
        self.n = n
        self.bases, self.virt, self.abstract = {}, {}, {}
        for c in range(n):
            self.virt[c] = cfg['virt'] and r.random() < (0.8 if cfg['rtti'] == 'member' else 0.45)
            k = r.choice([0, 1, 1, 1, 2, 2, 3]) if cfg['multi'] else r.choice([0, 1, 1, 1, 1])
            if 'ks' in cfg:
                k = cfg['ks'][c] if c < len(cfg['ks']) else r.choice(cfg['ks'])
            elif c == 1:
                k = max(k, 1)
            self.bases[c] = r.sample(range(c), min(k, c))
            while max(self.subobjects(c).values()) > 1 or self.redundant(c):
                self.bases[c].pop(r.randrange(len(self.bases[c])))
        self.anc = {c: set(self.subobjects(c)) for c in range(n)}
        used = {b for c in range(n) for b in self.bases[c]}
        for c in range(n):
            self.abstract[c] = self.poly and c in used and r.random() < 0.3
        # a class that is not registered
        self.unreg = None
        if (cfg['checks'] and r.random() < 0.7 and not cfg['inplace']
                and cfg['store'] in ('hash', 'map')):
            leaves = [c for c in range(n) if c not in used and self.bases[c]]
            if len(leaves) > 1:
                self.unreg = r.choice(leaves)
        # an intermediate class that is not registered, and not used
        self.skip = None
        if not cfg['inplace'] and r.random() < 0.25:
            mids = [c for c in used if self.bases[c]]
            if mids:
                self.skip = r.choice(mids)
        self.reg = [c for c in range(n) if c not in (self.unreg, self.skip)]
        self.live = [c for c in range(n) if not self.abstract[c] and c != self.skip]
        self.down = {c: [d for d in range(n) if c in self.anc[d]] for c in range(n)}

    def redundant(self, c):
        """a direct base that is also an indirect one (warned about, or ambiguous)"""
        for b in self.bases[c]:
            for d in self.bases[c]:
                if b != d and b in self.subobjects(d):
                    return True
        return False

    # -- methods -------------------------------------------------------
    def methods(self):
        r, cfg = self.r, self.cfg
        self.meths = []
        kinds = list(cfg['kinds'])
        r.shuffle(kinds)
        for m in range(r.randint(*cfg.get('m', (3, 4)))):
            arity = r.choice([1, 1, 2, 2, 3])
            vps = []
            for _ in range(arity):
                if not kinds:
                    kinds = list(cfg['kinds'])
                    r.shuffle(kinds)
                k = kinds.pop()
                pool = [c for c in self.reg if set(self.down[c]) & set(self.live)]
                w = [len(self.down[c]) for c in pool]
                vps.append((k, r.choices(pool, w)[0]))
            # ordinary parameters
            order = list(range(arity))
            for _ in range(r.choice([0, 0, 1, 2])):
                order.insert(r.randint(0, len(order)), r.choice(['int', 'const int&', 'int&&']))
            sigs = []
            for _ in range(r.randint(1, 5)):
                s = [r.choice([d for d in self.down[c] if d in self.reg]) for _, c in vps]
                if s not in sigs:
                    sigs.append(s)
            macro = r.random() < 0.5
            name = 'm%d' % m
            if macro and r.random() < 0.3:
                # an overload of another method
                for o in self.meths:
                    if o['macro'] and all(len(x['order']) != len(order) for x in self.meths
                                          if x['name'] == o['name']):
                        name = o['name']
            self.meths.append(dict(vps=vps, order=order, sigs=sigs, macro=macro, name=name,
                                   ovs=[r.random() for _ in sigs]))

    # -- C++ -----------------------------------------------------------
    def files(self):
        """The program in several files: the header, and the source files."""
        header, self.tus = [], [[] for _ in range(self.cfg['split'])]
        self.parts(header.append)
        return (['\n'.join(header) + '\n']
                + ['\n'.join(['#include "@HEADER@"'] + t) + '\n' for t in self.tus])

    def text(self):
        L = []
        self.tus = [L]
        self.parts(L.append)
        return '\n'.join(L) + '\n'

    handler = 'throw_error_handler'

    @property
    def split(self):
        return self.cfg.get('split', 0)

    def parts(self, A):
        cfg, r = self.cfg, self.r
        if self.split:
            A('#pragma once')
        if cfg.get('fromdefault') and cfg['checks']:
            A('#define BOOST_OPENMETHOD_ENABLE_RUNTIME_CHECKS')
        A('#include "prog.hpp"')
        A('#include <boost/openmethod.hpp>')
        A('#include <boost/openmethod/initialize.hpp>')
        A('#include <boost/openmethod/inplace_vptr.hpp>')
        A('#include <boost/openmethod/interop/std_shared_ptr.hpp>')
        A('#include <boost/openmethod/interop/std_unique_ptr.hpp>')
        A('#include <boost/openmethod/interop/boost_intrusive_ptr.hpp>')
        A('#include <boost/openmethod/policies/std_rtti.hpp>')
        A('#include <boost/openmethod/policies/static_rtti.hpp>')
        A('#include <boost/openmethod/policies/vptr_map.hpp>')
        A('#include <boost/openmethod/policies/vptr_vector.hpp>')
        A('#include <boost/openmethod/policies/throw_error_handler.hpp>')
        A('using namespace boost::openmethod;')
        for c in range(self.n):
            A('struct K%d;' % c)
        self.registry(A)
        self.classes(A)
        self.registrations(A)
        for m in range(len(self.meths)):
            self.method(A, m)
        self.main(self.tus[0].append)

    def registry(self, A):
        cfg = self.cfg
        n = self.n
        rtti = {'std': 'policies::std_rtti', 'static': 'policies::static_rtti',
                'custom': 'my_rtti', 'deferred': 'my_rtti', 'member': 'my_rtti'}[cfg['rtti']]
        if rtti == 'my_rtti':
            base = 'policies::deferred_static_rtti' if cfg['rtti'] == 'deferred' else 'policies::rtti'
            A('template<class T> struct index_of { static constexpr int value = -1; };')
            for c in range(n):
                A('template<> struct index_of<K%d> { static constexpr int value = %d; };' % (c, c))
            small = cfg['store'] == 'vector'
            if cfg['rtti'] == 'deferred':
                A('inline std::size_t g_ids[%d];' % n)
            elif small:
                ids = self.r.sample(range(1, 4 * n), n)
                A('constexpr std::size_t g_ids[] = {%s};' % ', '.join(map(str, ids)))
            else:
                ids = self.r.sample(range(1, 1 << 40), n)
                A('constexpr std::size_t g_ids[] = {%s};' % ', '.join('%dull' % i for i in ids))
            A('struct my_rtti : %s {' % base)
            A('  template<class Registry> struct fn : policies::rtti::defaults {')
            A('    template<class C> static constexpr bool is_polymorphic = index_of<C>::value >= 0;')
            A('    template<class T> static auto static_type() -> type_id {')
            A('      if constexpr (index_of<T>::value >= 0) return type_id(g_ids[index_of<T>::value]);')
            A('      else { static char id; return &id; } }')
            A('    template<class T> static auto dynamic_type(const T& obj) -> type_id {')
            A('      if constexpr (index_of<T>::value >= 0) return type_id(g_ids[obj.dyn()]);')
            A('      else return nullptr; }')
            if cfg['rtti'] == 'member' and cfg['virt']:
                # not polymorphic in C++: the policy knows how to cast
                A('    template<class D, class B> static auto dynamic_cast_ref(B&& obj) -> D {')
                A('      static_assert(std::is_reference_v<D>);')
                A('      using from = std::remove_cv_t<std::remove_reference_t<B>>;')
                A('      using to = std::remove_reference_t<D>;')
                A('      auto o = prog::find(index_of<from>::value, &obj);')
                A('      return static_cast<D>(*static_cast<to*>(o->as[index_of<std::remove_cv_t<to>>::value])); }')
            elif cfg['rtti'] != 'member':
                A('    template<class D, class B> static auto dynamic_cast_ref(B&& obj) -> D {')
                A('      static_assert(std::is_reference_v<D>);')
                A('      return dynamic_cast<D>(obj); }')
            A('  };')
            A('};')
        if cfg.get('fromdefault'):
            base = 'indirect_registry' if cfg['indirect'] else 'default_registry'
            A('struct reg : %s::with<policies::%s> {};' % (base, self.handler))
        else:
            ps = [rtti]
            if cfg['store'] == 'hash':
                ps += ['policies::vptr_vector', 'policies::fast_perfect_hash']
            elif cfg['store'] == 'vector':
                ps += ['policies::vptr_vector']
            elif cfg['store'] == 'map':
                ps += ['policies::vptr_map<>']
            if cfg['indirect']:
                ps.append('policies::indirect_vptr')
            if cfg['checks']:
                ps.append('policies::runtime_checks')
            ps.append('policies::' + self.handler)
            self.r.shuffle(ps)
            A('struct reg : registry<%s> {};' % ', '.join(ps))

    def classes(self, A):
        cfg, r = self.cfg, self.r
        member = cfg['rtti'] == 'member'
        roots = {c: [a for a in sorted(self.anc[c]) if not self.bases[a]] for c in range(self.n)}
        for c in range(self.n):
            bs = ['virtual K%d' % b if self.virt[b] else 'K%d' % b for b in self.bases[c]]
            if cfg['inplace']:
                if self.bases[c]:
                    bs.append('inplace_vptr_derived<K%d, %s>' % (
                        c, ', '.join('K%d' % b for b in self.bases[c])))
                else:
                    bs.append('inplace_vptr_base<K%d, reg>' % c)
            A('struct K%d %s {' % (c, ': ' + ', '.join(bs) if bs else ''))
            if r.random() < 0.75:
                A('  long pad%d[%d] = {};' % (c, r.randint(1, 3)))
            if self.poly:
                A('  virtual ~K%d() { %s }' % (c, self.dying(c)))
                if cfg['rtti'] != 'std':
                    A('  virtual int dyn() const { return %d; }' % c)
                if self.abstract[c]:
                    A('  virtual void pure%d() = 0;' % c)
                else:
                    for a in sorted(self.anc[c]):
                        if self.abstract[a]:
                            A('  void pure%d() override {}' % a)
            ctor = []
            if member or cfg['rtti'] == 'static':
                if not self.bases[c]:
                    A('  int tag = %d;' % c)
                    A('  static void operator delete(void*) {}')
                    A('  static void* operator new(std::size_t n) { return ::operator new(n); }')
                else:
                    A('  static void operator delete(void*) {}')
                    A('  static void* operator new(std::size_t n) { return ::operator new(n); }')
                for x in roots[c]:
                    ctor.append('K%d::tag = %d;' % (x, c))
                A('  int dyn() const { return K%d::tag; }' % roots[c][0])
            if cfg['store'] == 'friend':
                x = roots[c][0]
                if not self.bases[c]:
                    A('  const vptr_type* vpp;')
                    A('  friend auto boost_openmethod_vptr(const K%d& o, reg*) -> const vptr_type& '
                      '{ return *o.vpp; }' % c)
                ctor.append('this->vpp = &reg::static_vptr<K%d>;' % c)
            if ctor:
                A('  K%d() { %s }' % (c, ' '.join(ctor)))
            A('};')
        # reference counts live outside of the objects
        for c in range(self.n):
            A('inline void intrusive_ptr_add_ref(const K%d* p) { '
              'if (auto o = prog::find(%d, p)) ++o->refs; }' % (c, c))
            A('inline void intrusive_ptr_release(const K%d* p) { '
              '%s }' % (c, self.released(c)))
        for c in range(self.n):
            if self.abstract[c] or c == self.skip:
                continue
            A('static prog::Obj* make%d(K%d* p, bool own) {' % (c, c))
            A('  auto o = new prog::Obj;')
            A('  o->num = ++prog::g_nums; o->cls = %d;' % (c + 1))
            if True:
                A('  if (own) o->owner = std::shared_ptr<K%d>(p);' % c)
            for a in sorted(self.anc[c]):
                A('  { auto q = static_cast<K%d*>(p); o->as[%d] = q; prog::g_at[{%d, q}] = o; }' % (a, a, a))
            A('  return o; }')

    def dying(self, c):
        return ''

    def released(self, c):
        return 'if (auto o = prog::find(%d, p)) --o->refs;' % c

    def registrations(self, A):
        """self.units: [(class, [bases in the same list])]"""
        r = self.r
        self.units = []
        if self.cfg['inplace']:
            for c in self.reg:
                self.units.append((c, self.bases[c] + [c]))
            return
        groups = []
        covered = set()
        need = {(c, b) for c in self.reg for b in self.anc[c] if b in self.reg and b != c}
        if r.random() < 0.3:
            groups.append(list(self.reg))
        else:
            for c in self.reg:
                bs = [b for b in self.anc[c] if b in self.reg and b != c]
                # all the bases, or only the nearest ones
                near = [b for b in bs if not any(b in self.anc[x] and x != b for x in bs)]
                g = [c] + (near if r.random() < 0.5 else bs)
                if r.random() < 0.3:
                    g += [d for d in r.sample(self.reg, min(2, len(self.reg)))]
                groups.append(sorted(set(g)))
        r.shuffle(groups)
        for i, g in enumerate(groups):
            r.shuffle(g)
            args = ', '.join('K%d' % c for c in g) + ', reg'
            if self.split:
                # in the header (hence several times), or in a source file
                B = r.choice([A, r.choice(self.tus).append])
                if r.random() < 0.5:
                    B('BOOST_OPENMETHOD_CLASSES(%s);' % args)
                else:
                    B('static use_classes<%s> classes%d;' % (args, i))
            elif r.random() < 0.5:
                A('BOOST_OPENMETHOD_CLASSES(%s);' % args)
            else:
                A('use_classes<%s> classes%d;' % (args, i))
            for c in g:
                self.units.append((c, [b for b in g if b in self.anc[c]]))

    def ident(self, k, c, p):
        if k in ('R', 'CR', 'RR'):
            return 'prog::ident(%d, &%s)' % (c, p)
        if k in ('P', 'CP'):
            return 'prog::ident(%d, %s)' % (c, p)
        return 'prog::ident(%d, &*%s)' % (c, p)

    def forward(self, k, p):
        if k in ('RR', 'UP', 'UVP'):
            return 'std::move(%s)' % p
        if k in ('SP', 'SVP', 'IP', 'IVP', 'VP', 'SPC') and self.r.random() < 0.5:
            return 'std::move(%s)' % p
        return p

    def method(self, A, m):
        r = self.r
        M = self.meths[m]
        params = []
        for x in M['order']:
            if isinstance(x, int):
                params.append(mtype(M['vps'][x][0], 'K%d' % M['vps'][x][1]))
            else:
                params.append(x)
        if M['macro']:
            A('BOOST_OPENMETHOD(%s, (%s), int, reg);' % (M['name'], ', '.join(params)))
            A('using M%d = BOOST_OPENMETHOD_TYPE(%s, (%s), int, reg);' % (
                m, M['name'], ', '.join(params)))
        else:
            A('struct id%d;' % m)
            A('using M%d = method<id%d, int(%s), reg>;' % (m, m, ', '.join(params)))
        core, inl = [], []
        for j, sig in enumerate(M['sigs'], 1):
            ps, ids, plain, fwd = [], [], [], []
            for i, x in enumerate(M['order']):
                if isinstance(x, int):
                    k = M['vps'][x][0]
                    ps.append('%s p%d' % (ptype(k, 'K%d' % sig[x]), i))
                    fwd.append(self.forward(k, 'p%d' % i))
                else:
                    ps.append('%s p%d' % (x, i))
                    plain.append('p%d' % i)
                    fwd.append('std::move(p%d)' % i if x == 'int&&' else 'p%d' % i)
            # virtual arguments, in order of position
            for x in range(len(M['vps'])):
                ids.append(self.ident(M['vps'][x][0], sig[x], 'p%d' % M['order'].index(x)))
            how = M['ovs'][j - 1]
            macro = M['macro'] and how < 0.6
            nxt = 'next' if macro else 'M%d::next<ov%d_%d>' % (m, m, j)
            has = 'has_next()' if macro else 'M%d::has_next<ov%d_%d>()' % (m, m, j)
            body = ['  prog::enter(%d, %s, {%s}, {%s});' % (j, has, ', '.join(ids), ', '.join(plain)),
                    '  if (prog::g.follow) return %s(%s);' % (nxt, ', '.join(fwd)),
                    '  return %d;' % j]
            B = A
            if macro:
                if how < 0.2:
                    A('BOOST_OPENMETHOD_INLINE_OVERRIDE(%s, (%s), int) {' % (M['name'], ', '.join(ps)))
                elif how < 0.45:
                    B = r.choice(self.tus).append if self.split else A
                    B('BOOST_OPENMETHOD_OVERRIDE(%s, (%s), int) {' % (M['name'], ', '.join(ps)))
                else:
                    A('BOOST_OPENMETHOD_DECLARE_OVERRIDER(%s, (%s), int)' % (M['name'], ', '.join(ps)))
                    B = r.choice(self.tus).append if self.split else A
                    B('BOOST_OPENMETHOD_DEFINE_OVERRIDER(%s, (%s), int) {' % (M['name'], ', '.join(ps)))
            elif self.split and r.random() < 0.5:
                # a function in the header, registered by any number of files
                A('inline int ov%d_%d(%s) {' % (m, j, ', '.join(ps)))
                inl.append('ov%d_%d' % (m, j))
            elif self.split:
                B = r.choice(self.tus).append
                B('static int ov%d_%d(%s) {' % (m, j, ', '.join(ps)))
                body.append('}')
                body.append('static M%d::override<ov%d_%d> reg%d_%d;' % (m, m, j, m, j) if r.random() < 0.5
                            else 'BOOST_OPENMETHOD_REGISTER(M%d::override<ov%d_%d>);' % (m, m, j))
                body.append('namespace {')
            else:
                A('static int ov%d_%d(%s) {' % (m, j, ', '.join(ps)))
                core.append('ov%d_%d' % (m, j))
            for b in body:
                B(b)
            B('}')
        if inl:
            for B in r.sample([A] + [t.append for t in self.tus], r.randint(1, 3)):
                B('static M%d::override<%s> inl%d;' % (m, ', '.join(inl), m) if B is not A
                  else 'BOOST_OPENMETHOD_REGISTER(M%d::override<%s>);' % (m, ', '.join(inl)))
        if core:
            if r.random() < 0.5:
                A('static M%d::override<%s> reg%d;' % (m, ', '.join(core), m))
            else:
                for f in core:
                    A('BOOST_OPENMETHOD_REGISTER(M%d::override<%s>);' % (m, f))
        # the order of overriders does not matter; the trace uses the order of numbers
        args = []
        C = A
        if self.split:
            C = r.choice(self.tus).append
            A('int call%d(prog::Obj** a);' % m)
        for i, x in enumerate(M['order']):
            if isinstance(x, int):
                k, c = M['vps'][x]
                self.maker(C, m, x, k, c)
                args.append('arg%d_%d(a[%d])' % (m, x, x))
            else:
                args.append('prog::g.seq' if x != 'int&&' else '+prog::g.seq')
        name = M['name'] if M['macro'] and r.random() < 0.6 else 'M%d::fn' % m
        C('%sint call%d(prog::Obj** a) { return %s(%s); }' % (
            '' if self.split else 'static ', m, name, ', '.join(args)))

    def maker(self, A, m, x, k, c):
        """arg<m>_<x>(Obj*): the argument"""
        r = self.r
        P = 'K%d' % c
        subs = [d for d in self.down[c] if d in self.live]
        as_p = '(*static_cast<%s*>(o->as[%d]))' % (P, c)
        f = 'arg%d_%d' % (m, x)
        if k in REFS:
            A('static %s %s(prog::Obj* o) { return %s; }' % (
                ptype(k, P), f, {'R': as_p, 'CR': as_p, 'RR': 'std::move%s' % as_p,
                                 'P': '&' + as_p, 'CP': '&' + as_p}[k]))
            return
        bare = ptype(k, P).replace('&', '')
        bare = bare.replace('const ', '', 1) if k in ('CVP', 'CSP', 'CIP', 'CSVP', 'CIVP') else bare
        smart = {'SP': 'std::shared_ptr', 'CSP': 'std::shared_ptr', 'SPC': 'std::shared_ptr',
                 'SVP': 'std::shared_ptr', 'CSVP': 'std::shared_ptr',
                 'UP': 'std::unique_ptr', 'UVP': 'std::unique_ptr',
                 'IP': 'boost::intrusive_ptr', 'CIP': 'boost::intrusive_ptr',
                 'IVP': 'boost::intrusive_ptr', 'CIVP': 'boost::intrusive_ptr'}.get(k)

        def raw(d):
            p = 'static_cast<K%d*>(o->as[%d])' % (d, d)
            if smart == 'std::shared_ptr':
                return 'std::shared_ptr<K%d>(o->owner, %s)' % (d, p)
            if smart:
                return '%s<K%d>(%s)' % (smart, d, p)
            return '*' + p

        A('static %s %s(prog::Obj* o) {' % (bare, f))
        if k in SMART:
            A('  return %s; }' % raw(c))
            return
        A('  switch (o->cls) {')
        vp = lambda d: ('virtual_ptr<K%d, reg>' if not smart else
                        'virtual_ptr<' + smart + '<K%d>, reg>') % d
        static = self.cfg['rtti'] == 'static'
        for d in subs:
            # the static type of what the virtual_ptr is made from
            forms = []
            mids = [s for s in self.down[c] if s in self.reg and s in self.anc[d]]
            s = r.choice(mids)
            lv = '' if smart else '*'
            if not static:
                forms += ['return %s(%s);' % (bare, raw(c)),
                          'return %s(%s);' % (bare, raw(s)),
                          '{ %s v(%s); return v; }' % (vp(s), raw(s)) if 'unique' not in (smart or '')
                          else '{ %s v(%s); return std::move(v); }' % (vp(s), raw(s)),
                          '{ return %s(%s); }' % (vp(s), raw(s))]
                if k not in ('VPC',):
                    forms.append('{ %s v; v = %s(%s); return v; }' % (bare, vp(s), raw(s)))
            if d in self.reg:
                forms += ['return final_virtual_ptr<reg>(%s);' % raw(d),
                          '{ auto v = final_virtual_ptr<reg>(%s); return %s; }' % (
                              raw(d) , 'std::move(v)' if smart else 'v')]
            form = r.choice(forms)
            if not smart:
                # plain virtual_ptrs are made from lvalues
                pass
            A('    case %d: %s' % (d + 1, form))
        A('  }')
        A('  std::abort(); }')

    def events(self):
        ev = ['{"op":"reset","scn":0,"s":-1}']
        for u, (c, bs) in enumerate(self.units):
            ev.append('{"op":"unit","s":0,"u":%d,"d":%d,"b":[%s]}' % (
                u, (c + 1) * 10, ','.join(str((b + 1) * 10) for b in bs)))
        ms = []
        for M in self.meths:
            ms.append('{"p":[%s],"r":0,"o":[%s],"or":[%s]}' % (
                ','.join(str(c + 1) for _, c in M['vps']),
                ','.join('[%s]' % ','.join(str(c + 1) for c in s) for s in M['sigs']),
                ','.join('0' for _ in M['sigs'])))
        ev.append('{"op":"cfg","s":0,"M":[%s]}' % ','.join(ms))
        return ev

    def observers(self, A):
        A('static int class_of(type_id t) {')
        for c in range(self.n):
            A('  if (t == reg::rtti::static_type<K%d>()) return %d;' % (c, c + 1))
        A('  return 0; }')
        A('static int method_of(type_id t) {')
        for m in range(len(self.meths)):
            A('  if (t == reg::rtti::static_type<M%d>()) return %d;' % (m, m + 1))
        A('  return -1; }')
        A('''template<class F> static prog::Row observe(F f) {
  prog::Row r;
  auto bad = [&](const bad_call& e, int x) {
    r.x = x; r.h = 1; r.e = method_of(e.method); r.n = int(e.arity);
    for (std::size_t i = 0; i < e.arity; ++i) r.ty.push_back(class_of(e.types[i]));
  };
  try { r.r = f(); }
  catch (const no_overrider& e) { bad(e, 0); }
  catch (const ambiguous_call& e) { bad(e, -1); }
  catch (const missing_class& e) { r.x = -2; r.h = 1; r.ty = {class_of(e.type)}; }
  catch (const not_initialized&) { r.x = -3; r.h = 1; }
  catch (const final_error&) { r.x = -6; r.h = 1; }
  catch (const openmethod_error&) { r.x = -9; r.h = 1; }
  return r;
}''')

    def start(self, A):
        r, cfg = self.r, self.cfg
        A('int main(int, char** argv) {')
        A('  prog::out = fopen(argv[2], "w");')
        if self.handler == 'default_error_handler':
            A('  reg::error_handler::set([](const auto& e) { std::visit([](auto&& x) { throw x; }, e); });')
        if cfg['rtti'] == 'deferred':
            small = cfg['store'] == 'vector'
            ids = r.sample(range(1, 4 * self.n) if small else range(1, 1 << 40), self.n)
            for c in range(self.n):
                A('  g_ids[%d] = %dull;' % (c, ids[c]))
        for e in self.events():
            A('  fprintf(prog::out, "%%s\\n", R"(%s)");' % e)
        A('  prog::Row init; int cells = 0, ni = 0, amb = 0;')
        A('  init = observe([&] { auto c = initialize<reg>(); auto& p = c.report; '
          'cells = int(p.cells); ni = int(p.not_implemented); amb = int(p.ambiguous); return 1; });')
        A('  fprintf(prog::out, "{\\"op\\":\\"init\\",\\"s\\":0,\\"opt\\":0,\\"out\\":%d,\\"ty\\":[],'
          '\\"cells\\":%d,\\"ni\\":%d,\\"amb\\":%d,\\"len\\":0,\\"hc\\":%d}\\n", '
          'init.x, cells, ni, amb, init.h);')
        # objects: one per class and position
        A('  using maker = prog::Obj* (*)();')
        A('  static const std::pair<int, maker> makers[] = {')
        for c in self.live:
            A('    {%d, [] { return make%d(new K%d, true); }},' % (c, c, c))
        A('  };')
        A('  auto fresh = [&](int c) { for (auto& m : makers) if (m.first == c) return m.second(); '
          'return (prog::Obj*)nullptr; };')
        A('  static const std::pair<int, maker> loose[] = {')
        for c in self.live:
            A('    {%d, [] { return make%d(new K%d, false); }},' % (c, c, c))
        A('  };')
        A('  auto give = [&](int c) { for (auto& m : loose) if (m.first == c) return m.second(); '
          'return (prog::Obj*)nullptr; };')
        A('  (void)give;')

    def main(self, A):
        cfg = self.cfg
        self.observers(A)
        self.start(A)
        A('  prog::Obj* objs[3][%d] = {};' % self.n)
        A('  for (int i = 0; i < 3; ++i) for (int c = 0; c < %d; ++c) objs[i][c] = fresh(c);' % self.n)
        for m, M in enumerate(self.meths):
            for f in (1, 0):
                A('  prog::rows_begin(%d, %d);' % (m + 1, f))
                idx = []
                for x, (k, c) in enumerate(M['vps']):
                    subs = [d for d in self.down[c] if d in self.live]
                    A('  for (int c%d : {%s}) {' % (x, ', '.join(map(str, subs))))
                A('    prog::Obj* a[] = {%s};' % ', '.join(
                    ('give(c%d)' if k in ('UP', 'UVP') else 'objs[%d][c%%d]' % x) % x
                    for x, (k, c) in enumerate(M['vps'])))
                A('    prog::g.chain.clear(); prog::g.args.clear(); prog::g.types.clear(); prog::g.bad = 0;')
                A('    prog::g.follow = %d; ++prog::g.seq;' % f)
                A('    for (auto o : a) { prog::g.args.push_back(o->num); prog::g.types.push_back(o->cls * 10); }')
                A('    auto row = observe([&] { return call%d(a); });' % m)
                if cfg['rtti'] == 'static':
                    # the dynamic types are not known to the registry
                    A('    if (!row.ty.empty()) { std::vector<int> st{%s}; if (row.ty == st) { row.ty.clear(); '
                      'for (auto o : a) row.ty.push_back(o->cls); } }' % ', '.join(
                          str(c + 1) for _, c in M['vps']))
                for x, (k, c) in enumerate(M['vps']):
                    if k in ('IP', 'CIP', 'IVP', 'CIVP'):
                        A('    if (a[%d]->refs != 0) ++prog::g.bad;' % x)
                    if k in ('SP', 'CSP', 'SPC', 'SVP', 'CSVP'):
                        A('    if (a[%d]->owner.use_count() != 1) ++prog::g.bad;' % x)
                A('    prog::row(row);')
                A('  ' + '}' * len(M['vps']))
                A('  prog::rows_end();')
        A('  fprintf(prog::out, "{\\"op\\":\\"end\\",\\"s\\":-1}\\n");')
        A('  fclose(prog::out);')
        A('  std::_Exit(0);')
        A('}')


# rtti, v-table pointers, virtual inheritance, multiple inheritance, kinds
def config(r, i):
    rows = [
        dict(rtti='std', store='hash', virt=True, multi=True, fromdefault=True),
        dict(rtti='std', store='map', virt=True, multi=True),
        dict(rtti='custom', store='vector', virt=True, multi=True),
        dict(rtti='member', store='hash', virt=False, multi=True),
        dict(rtti='member', store='map', virt=True, multi=True),
        dict(rtti='std', store='hash', virt=False, multi=True, inplace=True),
        dict(rtti='deferred', store='map', virt=True, multi=True),
        dict(rtti='static', store='none', virt=False, multi=True),
        dict(rtti='std', store='friend', virt=False, multi=False),
        dict(rtti='std', store='hash', virt=True, multi=True),
        dict(rtti='custom', store='hash', virt=True, multi=True),
        dict(rtti='deferred', store='vector', virt=True, multi=True),
        dict(rtti='member', store='vector', virt=False, multi=True),
        dict(rtti='member', store='hash', virt=True, multi=True),
        dict(rtti='member', store='map', virt=False, multi=True, inplace=True),
        dict(rtti='std', store='none', virt=False, multi=True, inplace=True),
        dict(rtti='custom', store='friend', virt=False, multi=False),
        dict(rtti='static', store='none', virt=False, multi=True, inplace=True),
    ]
    c = dict(rows[i % len(rows)])
    c.setdefault('inplace', False)
    c['checks'] = r.random() < 0.5
    c['indirect'] = r.random() < 0.4
    if c['rtti'] == 'static' and not c['inplace']:
        kinds = ['VP', 'CVP', 'VPC', 'SVP', 'CSVP', 'UVP', 'IVP', 'CIVP']
    elif c['rtti'] == 'member' and c['virt']:
        kinds = ['R', 'CR', 'RR', 'P', 'CP', 'P', 'CP', 'VP', 'CVP', 'VPC', 'UP', 'IP', 'CIP', 'UVP', 'IVP', 'CIVP']
    else:
        kinds = list(ALLK)
    c['kinds'] = kinds
    return c


def program(seed, i):
    r = random.Random('cfg-%s-%d' % (seed, i))
    return Program('prog-%s-%d' % (seed, i), config(r, i))


def files_program(seed, i):
    """a program made of several source files"""
    r = random.Random('cfg-files-%s-%d' % (seed, i))
    c = config(r, r.randrange(18))
    c['split'] = r.choice([2, 3])
    return Program('files-%s-%d' % (seed, i), c)



# ---------------------------------------------------------------------------
# how arguments are passed

OWN_VAL = {'SP': 'shared', 'SPC': 'shared', 'UP': 'unique', 'IP': 'intrusive',
           'SVP': 'shared', 'UVP': 'unique', 'IVP': 'intrusive'}
OWN_REF = {'CSP': 'shared', 'CIP': 'intrusive', 'CSVP': 'shared', 'CIVP': 'intrusive'}
PLAIN = ['Tracker', 'Tracker&', 'const Tracker&', 'Tracker&&', 'Mover', 'Mover&&', 'const Mover&']
RESULTS = ['int', 'void', 'trk', 'mov', 'imm', 'ref', 'rref', 'obj', 'objref', 'vp', 'sp', 'up', 'svp',
           'uvp']
SMARTS = {'shared': 'std::shared_ptr', 'unique': 'std::unique_ptr', 'intrusive': 'boost::intrusive_ptr'}


class PassProgram(Program):
    def methods(self):
        self.unreg = None
        r, cfg = self.r, self.cfg
        self.live = [c for c in self.live if c in self.reg]
        self.meths = []
        kinds, plain, results = [], [], []
        for m in range(r.randint(3, 4)):
            vps = []
            for _ in range(r.choice([1, 1, 2, 2, 3])):
                if not kinds:
                    kinds = list(cfg['kinds'])
                    r.shuffle(kinds)
                pool = [c for c in self.reg if set(self.down[c]) & set(self.live)]
                vps.append((kinds.pop(), r.choices(pool, [len(self.down[c]) for c in pool])[0]))
            order = list(range(len(vps)))
            for _ in range(r.choice([0, 1, 1, 2])):
                if not plain:
                    plain = list(PLAIN)
                    r.shuffle(plain)
                order.insert(r.randint(0, len(order)), plain.pop())
            if not results:
                results = list(RESULTS)
                r.shuffle(results)
            # the method's own classes, and others
            sigs = [[c for _, c in vps]]
            for _ in range(r.randint(1, 3)):
                s = [r.choice([d for d in self.down[c] if d in self.reg]) for _, c in vps]
                if s not in sigs:
                    sigs.append(s)
            if r.random() < 0.3:
                sigs.pop(0)
            pool = [c for c in self.reg if set(self.down[c]) & set(self.live)]
            self.meths.append(dict(vps=vps, order=order, sigs=sigs, macro=r.random() < 0.5,
                                   name='m%d' % m, ovs=[r.random() for _ in sigs],
                                   res=results.pop(), rc=r.choice(pool)))

    def rtype(self, k, c):
        c = 'K%d' % c
        return {'int': 'int', 'void': 'void', 'trk': 'pass::Tracker', 'mov': 'pass::Mover',
                'imm': 'pass::Fixed', 'ref': 'pass::Tracker&', 'rref': 'pass::Tracker&&',
                'obj': c + '*', 'objref': c + '&', 'vp': 'virtual_ptr<%s, reg>' % c,
                'sp': 'std::shared_ptr<%s>' % c, 'up': 'std::unique_ptr<%s>' % c,
                'svp': 'shared_virtual_ptr<%s, reg>' % c,
                'uvp': 'unique_virtual_ptr<%s, reg>' % c}[k]

    def released(self, c):
        return ('if (auto o = prog::find(%d, p)) { if (--o->refs == 0) delete p; } '
                'else ++pass::g_double;' % c)

    def dying(self, c):
        return 'pass::dying(%d, this);' % c

    # [(C++ type, md, ty, kind, vp index or None)] for the parameters that are observed
    def slots(self, M, sig):
        out = []
        for i, x in enumerate(M['order']):
            if isinstance(x, int):
                k = M['vps'][x][0]
                t = ptype(k, 'K%d' % sig[x])
                if k in OWN_VAL:
                    out.append((i, t, 'val', 'own', k, x))
                elif k in OWN_REF:
                    out.append((i, t, 'ref', 'own', k, x))
                else:
                    out.append((i, t, 'obj', '', k, x))
            else:
                t = x.replace('Tracker', 'pass::Tracker').replace('Mover', 'pass::Mover')
                out.append((i, t, 'ref' if '&' in x else 'val', 'trk', x, None))
        return out

    def method(self, A, m):
        r = self.r
        M = self.meths[m]
        params = []
        for i, t, md, ty, k, x in self.slots(M, [c for _, c in M['vps']]):
            params.append(mtype(k, 'K%d' % M['vps'][x][1]) if x is not None else t)
        R = self.rtype(M['res'], M['rc'])
        if M['macro']:
            A('BOOST_OPENMETHOD(%s, (%s), %s, reg);' % (M['name'], ', '.join(params), R))
            A('using M%d = BOOST_OPENMETHOD_TYPE(%s, (%s), %s, reg);' % (m, M['name'], ', '.join(params), R))
        else:
            A('struct id%d;' % m)
            A('using M%d = method<id%d, %s(%s), reg>;' % (m, m, R, ', '.join(params)))
        core = []
        for j, sig in enumerate(M['sigs'], 1):
            core += self.overrider(A, m, M, j, sig)
        for f in core:
            A('BOOST_OPENMETHOD_REGISTER(M%d::override<%s>);' % (m, f))
        self.sites(A, m, M)

    def observe(self, k, c, p, same):
        if c is None:
            return 'pass::trk(%s)' % p
        if k in OWN_VAL or k in OWN_REF:
            return 'pass::own(%d, %s, %d)' % (c, p, same)
        if k in ('R', 'CR', 'RR'):
            return 'pass::obj(%d, &%s)' % (c, p)
        if k in ('P', 'CP'):
            return 'pass::obj(%d, %s)' % (c, p)
        return 'pass::obj(%d, %s.get())' % (c, p)

    def overrider(self, A, m, M, j, sig):
        r = self.r
        slots = self.slots(M, sig)
        ps = ', '.join('%s p%d' % (t, i) for i, t, *_ in slots)
        same = lambda x: int(x is not None and sig[x] == M['vps'][x][1])
        obs = 'pass::join({%s})' % ', '.join(
            # other references to smart pointers may be bound to temporary copies
            self.observe(k, None if x is None else sig[x], 'p%d' % i, k == 'CSP' and same(x))
            for i, t, md, ty, k, x in slots)
        how = M['ovs'][j - 1]
        macro = M['macro'] and how < 0.6
        f = 'ov%d_%d' % (m, j)
        nxt = 'next' if macro else 'M%d::next<%s>' % (m, f)
        has = 'has_next()' if macro else 'M%d::has_next<%s>()' % (m, f)
        # the class of the result
        rcs = [d for d in self.down[M['rc']] if d in self.reg and set(self.down[d]) & set(self.live)]
        rc = r.choice(rcs)
        rk = r.choice([d for d in self.down[rc] if d in self.live])
        R = self.rtype(M['res'], rc)
        B = ['  auto obs = [&] { return %s; };' % obs,
             '  pass::enter(%d, obs());' % j]
        for n, (i, t, md, ty, k, x) in enumerate(slots):
            if md == 'val' or k in ('Tracker&&', 'Mover&&'):
                guard = ' && !pass::plan.follow' if x is not None else ''
                B.append('  if ((pass::plan.steal >> %d & 1)%s) { pass::sink(std::move(p%d)); pass::steal(%d); }'
                         % (n, guard, i, n + 1))
        fwd, ev, ids = [], [], []
        for n, (i, t, md, ty, k, x) in enumerate(slots, 1):
            e = 'l'
            if md == 'val':
                e = 'm' if k in ('UP', 'UVP', 'Mover') or r.random() < 0.5 else 'l'
            elif ty == 'own':
                e = 'l' if same(x) else 'c'
            elif k in ('Tracker&&', 'Mover&&'):
                e = 'm'
            move = e == 'm' or k == 'RR'
            fwd.append('std::move(p%d)' % i if move else 'p%d' % i)
            if md == 'obj':
                ev.append('{\\"md\\":\\"obj\\",\\"o\\":%d}')
                ids.append(self.ident(k, sig[x], 'p%d' % i))
            else:
                ev.append('{\\"md\\":\\"%s\\",\\"ty\\":\\"%s\\",\\"e\\":\\"%s\\",\\"s\\":%d}' % (md, ty, e, n))
        B.append('  if (pass::plan.follow == 1 || (pass::plan.follow == 2 && %s)) {' % has)
        B.append('    try { fprintf(prog::out, "{\\"op\\":\\"call\\",\\"args\\":[%s]}\\n"%s);' % (
            ','.join(ev), ''.join(', ' + x for x in ids)))
        call = '%s(%s)' % (nxt, ', '.join(fwd))
        B.append('      ' + self.result(M, call, 'nback'))
        B.append('    } catch (...) { pass::caught(); pass::gone(obs()); throw; }')
        B.append('  }')
        B.append('  if (pass::plan.boom) { pass::gone(obs()); throw pass::Boom(); }')
        k = M['res']
        L = '  pass::leave(obs(), %s);'
        if k == 'int':
            B += [L % ('pass::ret("int", %d, 0, nullptr)' % j), '  return %d;' % j]
        elif k == 'void':
            B += [L % 'pass::ret("none", 0, 0, nullptr)']
        elif k in ('trk', 'mov', 'imm'):
            B += ['  int id = ++pass::g_ids;', L % 'pass::ret("trk", id, 0, nullptr)',
                  '  return %s(id);' % R]
        elif k in ('ref', 'rref'):
            B += ['  static pass::Tracker res(++pass::g_ids);',
                  '  static int once = --pass::g_live; (void)once;',
                  L % 'pass::ret("ref", res.id, 0, &res)',
                  '  return %s;' % ('res' if k == 'ref' else 'std::move(res)')]
        elif k in ('obj', 'objref', 'vp'):
            B += ['  static prog::Obj* o = make%d(new K%d, false);' % (rk, rk),
                  '  auto q = static_cast<K%d*>(o->as[%d]);' % (rc, rc),
                  L % 'pass::ret("obj", o->num, 0, nullptr)',
                  '  return %s;' % {'obj': 'q', 'objref': '*q', 'vp': R + '(*q)'}[k]]
        else:
            s = {'sp': 'shared', 'svp': 'shared', 'up': 'unique', 'uvp': 'unique'}[k]
            B += ['  auto o = give%d();' % rk,
                  '  %s q(%s_<K%d>(o, %d));' % (R, s, rc, rc),
                  L % 'pass::ret("own", o->num, 0, nullptr)',
                  '  return q;']
        if macro:
            if how < 0.2:
                A('BOOST_OPENMETHOD_INLINE_OVERRIDE(%s, (%s), %s) {' % (M['name'], ps, R))
            else:
                A('BOOST_OPENMETHOD_OVERRIDE(%s, (%s), %s) {' % (M['name'], ps, R))
        else:
            A('static %s %s(%s) {' % (R, f, ps))
        for b in B:
            A(b)
        A('}')
        return [] if macro else [f]

    def result(self, M, call, op):
        """a call, and what is observed of its result (in r)"""
        k = M['res']
        if k == 'void':
            return '%s; pass::back("%s", pass::ret("none", 0, 0, nullptr));' % (call, op)
        o = {'int': '"int", r, 0, nullptr', 'trk': '"trk", r.id, r.copies, nullptr',
             'mov': '"trk", r.id, r.copies, nullptr', 'imm': '"trk", r.id, r.copies, nullptr',
             'ref': '"ref", r.id, r.copies, &r', 'rref': '"ref", r.id, r.copies, &r',
             'obj': '"obj", prog::ident(%d, r), 0, nullptr', 'objref': '"obj", prog::ident(%d, &r), 0, nullptr',
             'vp': '"obj", prog::ident(%d, r.get()), 0, nullptr'}.get(
                 k, '"own", prog::ident(%d, r.get()), 0, nullptr')
        if '%d' in o:
            o = o % M['rc']
        return 'auto&& r = %s; (void)r; pass::back("%s", pass::ret(%s));' % (call, op, o)

    def sites(self, A, m, M):
        r = self.r
        M['nsites'] = self.cfg.get('sites', 5)
        name = M['name'] if M['macro'] and r.random() < 0.6 else 'M%d::fn' % m
        for s in range(M['nsites']):
            args, ev, ids, pre, obs = [], [], [], [], []
            nv = 0
            for i, t, md, ty, k, x in self.slots(M, [c for _, c in M['vps']]):
                P = None if x is None else M['vps'][x][1]
                if md == 'obj':
                    c = r.choice([d for d in self.down[P] if d in self.live])
                    pre.append('  auto o%d = steady%d(%d);' % (i, c, x))
                    as_p = '(*static_cast<K%d*>(o%d->as[%d]))' % (P, i, P)
                    args.append({'R': as_p, 'CR': as_p, 'RR': 'std::move' + as_p, 'P': '&' + as_p,
                                 'CP': '&' + as_p, 'VP': as_p, 'CVP': as_p, 'VPC': as_p}[k])
                    ev.append('{\\"md\\":\\"obj\\",\\"o\\":%d}')
                    ids.append('o%d->num' % i)
                    continue
                if ty == 'trk':
                    es = {'Tracker': 'lmp', 'Tracker&': 'l', 'const Tracker&': 'lmp', 'Tracker&&': 'mp',
                          'Mover': 'mp', 'Mover&&': 'mp', 'const Mover&': 'lmp'}[k]
                    e = r.choice(es)
                    T = 'pass::Tracker' if 'Tracker' in k else 'pass::Mover'
                    pre.append('  int i%d = ++pass::g_ids;' % i)
                    new = '%s(i%d)' % (T, i)
                    num = 'i%d' % i
                    pre_var = '  %s v%d(i%d); pass::var("trk", i%d, &v%d);' % (T, i, i, i, i)
                    ob = 'pass::trk(v%d)' % i
                else:
                    own = OWN_VAL.get(k) or OWN_REF[k]
                    S = P
                    if r.random() < 0.5:
                        S = r.choice([d for d in self.down[P] if d in self.reg
                                      and set(self.down[d]) & set(self.live)])
                    c = r.choice([d for d in self.down[S] if d in self.live])
                    pre.append('  auto o%d = give%d();' % (i, c))
                    num = 'o%d->num' % i
                    raw = '%s_<K%d>(o%d, %d)' % (own, S, i, S)
                    T = '%s<%sK%d>' % (SMARTS[own], 'const ' if k == 'SPC' and r.random() < 0.5 else '', S)
                    bare = S == P and (k not in ('SPC',))
                    if k in SVPTRS:
                        if r.random() < 0.6:
                            T = 'virtual_ptr<%s, reg>' % T
                        else:
                            bare = False
                    new = '%s(%s)' % (T, raw)
                    if k in SVPTRS and S == c and T.startswith('virtual') and r.random() < 0.4:
                        new = 'final_virtual_ptr<reg>(%s)' % raw
                    pre_var = '  %s v%d(%s); pass::var("own", o%d->num, &v%d);' % (T, i, new, i, i)
                    ob = 'pass::own(%d, v%d, 0)' % (S, i)
                    if own == 'unique':
                        e = r.choice('mp')
                    elif md == 'val':
                        e = r.choice('lmp')
                    else:
                        e = r.choice('lmp') if bare else r.choice('cp')
                if e == 'p':
                    args.append(new)
                    src = 0
                else:
                    pre.append(pre_var)
                    obs.append(ob)
                    nv += 1
                    src = nv
                    args.append('std::move(v%d)' % i if e == 'm' else 'v%d' % i)
                ev.append('{\\"md\\":\\"%s\\",\\"ty\\":\\"%s\\",\\"e\\":\\"%s\\",\\"s\\":%d,\\"o\\":%%d}' % (
                    md, ty, e, src))
                ids.append(num)
            A('static void site%d_%d() {' % (m, s))
            A('  pass::site();')
            A('  {')
            for p in pre:
                A(p)
            A('  auto vars = [&] { return pass::join({%s}); };' % ', '.join(obs))
            A('  try {')
            A('    fprintf(prog::out, "{\\"op\\":\\"call\\",\\"args\\":[%s]}\\n"%s);' % (
                ','.join(ev), ''.join(', ' + x for x in ids)))
            A('    ' + self.result(M, '%s(%s)' % (name, ', '.join(args)), 'back'))
            extra = ''
            if M['res'] in ('trk', 'mov', 'imm'):
                extra = 'pass::trk(r)'
            elif M['res'] in ('sp', 'up', 'svp', 'uvp'):
                extra = 'pass::own(%d, r, 0)' % M['rc']
            if extra:
                A('    auto s = vars(); pass::after(s + (s.empty() ? "" : ",") + %s);' % extra)
            else:
                A('    pass::after(vars());')
            A('  } catch (const openmethod_error&) { pass::caught(); pass::after(vars()); }')
            A('  catch (const pass::Boom&) { pass::caught(); pass::after(vars()); }')
            A('  }')
            A('  pass::drop();')
            A('}')

    def text(self):
        return Program.text(self).replace('#include "prog.hpp"', '#include "pass.hpp"')

    def classes(self, A):
        Program.classes(self, A)
        A('template<class T> std::shared_ptr<T> shared_(prog::Obj* o, int c) { '
          'std::shared_ptr<T> p(static_cast<T*>(o->as[c])); pass::g_weak[o->num] = p; return p; }')
        A('template<class T> std::unique_ptr<T> unique_(prog::Obj* o, int c) { '
          'return std::unique_ptr<T>(static_cast<T*>(o->as[c])); }')
        A('template<class T> boost::intrusive_ptr<T> intrusive_(prog::Obj* o, int c) { '
          'return boost::intrusive_ptr<T>(static_cast<T*>(o->as[c])); }')
        for c in self.live:
            if c not in self.reg:
                continue
            A('static prog::Obj* give%d() { auto o = make%d(new K%d, false); '
              'pass::g_objs[o->num] = o; return o; }' % (c, c, c))
            A('static prog::Obj* steady%d(int i) { static prog::Obj* o[3]; '
              'if (!o[i]) o[i] = make%d(new K%d, false); return o[i]; }' % (c, c, c))

    def main(self, A):
        r = self.r
        A('int main(int, char** argv) {')
        A('  prog::out = fopen(argv[2], "w");')
        if self.cfg['rtti'] == 'deferred':
            for c in range(self.n):
                A('  g_ids[%d] = %d;' % (c, c + 1))
        A('  pass::g_live = 0;')
        A('  auto all = [] {')
        for m, M in enumerate(self.meths):
            for s in range(M['nsites']):
                A('    site%d_%d();' % (m, s))
        A('  };')
        if self.cfg['checks'] and not self.cfg['inplace']:
            # methods that make no virtual_ptr from their arguments
            A('  // calls that fail because the registry is not initialized')
            for m, M in enumerate(self.meths):
                if not any(k in VPTRS + SVPTRS for k, _ in M['vps']):
                    for s in range(M['nsites']):
                        A('  site%d_%d();' % (m, s))
        A('  initialize<reg>();')
        A('  all();')
        A('  pass::plan.follow = 1; all();')
        A('  pass::plan.follow = 2; all();')
        A('  pass::plan.follow = 2; pass::plan.boom = true; all();')
        A('  pass::plan = pass::Plan(); pass::plan.boom = true; pass::plan.steal = %d; all();' % r.randrange(1, 32))
        for k in range(3):
            A('  pass::plan = pass::Plan(); pass::plan.steal = %d; pass::plan.follow = %d; all();' % (
                r.randrange(1, 32), r.choice([0, 0, 1, 2])))
        A('  fprintf(prog::out, "{\\"op\\":\\"end\\"}\\n");')
        A('  fclose(prog::out);')
        A('  std::_Exit(0);')
        A('}')


def pass_program(seed, i):
    r = random.Random('pcfg-%s-%d' % (seed, i))
    c = r.choice([
        dict(rtti='std', store='hash', virt=True, multi=True, fromdefault=True),
        dict(rtti='std', store='map', virt=True, multi=True),
        dict(rtti='std', store='hash', virt=False, multi=True),
        dict(rtti='custom', store='vector', virt=True, multi=True),
        dict(rtti='deferred', store='hash', virt=True, multi=True),
        dict(rtti='std', store='hash', virt=False, multi=True, inplace=True),
    ])
    c.setdefault('inplace', False)
    c['checks'] = r.random() < 0.5
    c['indirect'] = r.random() < 0.4
    c['kinds'] = [k for k in ALLK if r.random() < 0.9]
    return PassProgram('pass-%s-%d' % (seed, i), c)


def life_program(seed, i):
    import lifegen
    return lifegen.life_program(seed, i)


# ---------------------------------------------------------------------------
# calls made by several threads

class ThreadsProgram(Program):
    """Every combination is called by all the threads, in different orders.
    Objects are shared, except those that smart pointers own."""

    def main(self, A):
        threads = self.cfg['threads']
        self.observers(A)
        A('#include <thread>')
        A('#include <atomic>')
        A('extern "C" const char* __tsan_default_options() { return "halt_on_error=1:exitcode=66"; }')
        A('struct Job { int m, f; prog::Obj* a[3]; std::vector<int> own; std::vector<int> st; };')
        A('static int (*const calls[])(prog::Obj**) = {%s};' % ', '.join(
            'call%d' % m for m in range(len(self.meths))))
        self.start(A)
        A('  prog::Obj* objs[%d][3][%d] = {};' % (threads + 1, self.n))
        A('  for (auto& o : objs) for (int i = 0; i < 3; ++i) for (int c = 0; c < %d; ++c) '
          'o[i][c] = fresh(c);' % self.n)
        A('  std::vector<Job> jobs[%d];' % threads)
        A('  for (int t = 0; t < %d; ++t) for (int k = 0; k < 2; ++k) {' % threads)
        for m, M in enumerate(self.meths):
            for f in (1, 0):
                A('  { int m = %d, f = %d;' % (m, f))
                for x, (k, c) in enumerate(M['vps']):
                    subs = [d for d in self.down[c] if d in self.live]
                    A('  for (int c%d : {%s}) {' % (x, ', '.join(map(str, subs))))
                own = [x for x, (k, c) in enumerate(M['vps']) if k in SMART + SVPTRS and k not in ('UP', 'UVP')]
                A('    jobs[t].push_back(Job{m, f, {%s}, {%s}, {%s}});' % (', '.join(
                    'give(c%d)' % x if k in ('UP', 'UVP')
                    else 'objs[t + 1][%d][c%d]' % (x, x) if x in own
                    else 'objs[0][%d][c%d]' % (x, x)
                    for x, (k, c) in enumerate(M['vps'])), ', '.join(map(str, own)),
                    ', '.join(str(c + 1) for _, c in M['vps'])))
                A('  ' + '}' * (len(M['vps']) + 1))
        A('  }')
        A('  struct Done { Job* job; prog::Log log; prog::Row row; };')
        A('  std::vector<Done> done[%d];' % threads)
        A('  std::vector<std::thread> pool;')
        A('  std::atomic<int> ready{0};')
        A('  for (int t = 0; t < %d; ++t) pool.emplace_back([&, t] {' % threads)
        A('    auto& js = jobs[t];')
        A('    ++ready; while (ready < %d) {}' % threads)
        A('    for (std::size_t i = 0; i < js.size(); ++i) {')
        A('      auto& j = js[(i + t * js.size() / 7) % js.size()];')
        A('      prog::g = prog::Log(); prog::g.follow = j.f; prog::g.seq = int(i) + 1;')
        A('      for (auto o : j.a) if (o) { prog::g.args.push_back(o->num); prog::g.types.push_back(o->cls * 10); }')
        A('      auto row = observe([&] { return calls[j.m](j.a); });')
        if self.cfg['rtti'] == 'static':
            A('      if (!row.ty.empty() && row.ty == j.st) { row.ty.clear(); '
              'for (int x : prog::g.types) row.ty.push_back(x / 10); }')
        A('      for (int x : j.own) if (j.a[x]->refs != 0 || j.a[x]->owner.use_count() != 1) ++prog::g.bad;')
        A('      done[t].push_back(Done{&j, prog::g, row});')
        A('    } });')
        A('  for (auto& t : pool) t.join();')
        A('  for (auto& d : done) {')
        A('    for (int m = 0; m < %d; ++m) for (int f = 0; f < 2; ++f) {' % len(self.meths))
        A('      prog::rows_begin(m + 1, f);')
        A('      for (auto& x : d) if (x.job->m == m && x.job->f == f) { prog::g = x.log; prog::row(x.row); }')
        A('      prog::rows_end(); } }')
        A('  fprintf(prog::out, "{\\"op\\":\\"end\\",\\"s\\":-1}\\n");')
        A('  fclose(prog::out);')
        A('  std::_Exit(0);')
        A('}')


def threads_program(seed, i):
    r = random.Random('cfg-threads-%s-%d' % (seed, i))
    c = config(r, r.randrange(18) if i >= 18 else (5 * i + seed_shift(seed)) % 18)
    c['threads'] = r.choice([2, 3, 4])
    p = ThreadsProgram('threads-%s-%d' % (seed, i), c)
    p.handler = r.choice(['throw_error_handler', 'default_error_handler'])
    return p


def seed_shift(seed):
    return random.Random('shift-%s' % seed).randrange(18)


import compgen, namegen
GENERATORS = {'names': namegen.names_program, 'compose': compgen.compose_program, 'threads': threads_program, 'dispatch': program, 'files': files_program, 'pass': pass_program, 'life': life_program}


if __name__ == '__main__':
    import sys
    print(GENERATORS[sys.argv[3] if len(sys.argv) > 3 else 'dispatch'](sys.argv[1], int(sys.argv[2])).text())
