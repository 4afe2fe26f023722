"""Programs made of several shared libraries (see harness/dyn.hpp)."""
import os, random
import gen

NLIB = 5
REGS = ['pol::std_rtti, pol::vptr_vector, pol::fast_perfect_hash',
        'pol::std_rtti, pol::vptr_vector, pol::fast_perfect_hash, pol::indirect_vptr',
        'pol::std_rtti, pol::vptr_map<>',
        'pol::std_rtti, pol::vptr_map<>, pol::indirect_vptr']


class Dyn:
    def __init__(self, seed, i):
        r = self.r = random.Random('dyn-%s-%d' % (seed, i))
        self.reg = REGS[i % len(REGS)]
        n = self.n = r.randint(4, 9)
        self.m = gen.Model(r, n, r.choice(gen.KINDS), labels=list(range(1, n + 1)))
        m = self.m
        # use_classes objects: each class is registered in the main program, or a library
        self.uses = {l: [] for l in range(NLIB + 1)}
        for c in m.classes:
            bs = sorted(m.bases[c])
            owners = [0] if r.random() < 0.45 else r.sample(range(NLIB + 1), r.choice([1, 1, 2]))
            for l in owners:
                rec = (c, tuple(bs))
                if len(bs) > 1 and r.random() < 0.3:
                    rec = (c, tuple(r.sample(bs, len(bs) - 1)))
                extra = sorted(m.up[c] - m.bases[c] - {c})
                if extra and r.random() < 0.2:
                    rec = (c, rec[1] + (r.choice(extra),))
                if rec not in self.uses[l]:
                    self.uses[l].append(rec)
            if r.random() < 0.1:     # several classes, related or not
                l = r.randrange(NLIB + 1)
                rest = [x for x in m.classes if x != c]
                self.uses[l].append((c, tuple(r.sample(rest, min(len(rest), r.randint(1, 4))))))
        # records: use_classes registers each class, with those of its bases that it is given
        self.recs = {l: [(x, tuple(b for b in (c,) + bs if b != x and b in m.up[x]))
                         for c, bs in u for x in (c,) + bs]
                     for l, u in self.uses.items()}
        # methods: [(id, owner, params, style)]
        self.meths = []
        for owner in [0, 0] + [l for l in range(1, NLIB + 1) if r.random() < 0.6]:
            ar = r.choice([1, 2]) if len(self.meths) != 1 else 2
            wide = [c for c in m.classes if len(m.down(c)) > 1] or m.classes
            self.meths.append((len(self.meths) + 1, owner,
                               [r.choice(wide) for _ in range(ar)],
                               [r.randrange(2) for _ in range(ar)]))
        self.ovs = []       # (id, lib, method, sig)
        for mid, owner, ps, _ in self.meths:
            libs = range(NLIB + 1) if owner == 0 else [owner]
            for l in libs:
                for _ in range(r.choice([0, 1, 1, 2])):
                    sig = [r.choice(m.down(p)) for p in ps]
                    self.ovs.append((len(self.ovs) + 1, l, mid, sig))

    def header(self):
        A = []
        A.append('''#include <boost/openmethod/core.hpp>
#include <boost/openmethod/initialize.hpp>
#include <boost/openmethod/policies/std_rtti.hpp>
#include <boost/openmethod/policies/vptr_map.hpp>
#include <boost/openmethod/policies/vptr_vector.hpp>
#include <boost/openmethod/policies/fast_perfect_hash.hpp>
#include <boost/openmethod/policies/throw_error_handler.hpp>
#include "dyn.hpp"
namespace bom = boost::openmethod;
namespace pol = bom::policies;
struct reg : bom::registry<%s, pol::throw_error_handler, pol::runtime_checks> {};
template<class T> using P = bom::virtual_ptr<T, reg>;
constexpr int NCLS = %d;''' % (self.reg, self.n))
        for c in self.m.classes:
            bs = sorted(self.m.bases[c])
            A.append('struct K%d%s { int f%d = %d; virtual ~K%d(); };' % (
                c, ' : ' + ', '.join('virtual K%d' % b for b in bs) if bs else '', c, c, c))
        for M in self.meths:
            if M[1] == 0:
                A += self.method(M)
        return A

    def method(self, M):
        mid, _, ps, st = M
        return ['struct id%d;' % mid,
                'using M%d = bom::method<id%d, int(%s, int), reg>;' % (
                    mid, mid, ', '.join('P<K%d>' % p if s else 'bom::virtual_<K%d&>' % p
                                        for p, s in zip(ps, st)))]

    def call(self, M):
        mid, _, ps, st = M
        return 'static int call%d(void** a, int x) { return M%d::fn(%s, x); }' % (
            mid, mid, ', '.join(('P<K%d>(*static_cast<K%d*>(a[%d]))' % (p, p, i) if s else
                                 '*static_cast<K%d*>(a[%d])' % (p, i))
                                for i, (p, s) in enumerate(zip(ps, st))))

    def content(self, l):
        """What library l (0: the main program) registers."""
        A = []
        mine = [M for M in self.meths if M[1] == l]
        if l:
            for M in mine:
                A += self.method(M)
        for M in mine:
            A.append(self.call(M))
            A.append('static bool is%d(const void* t) { return t == reg::rtti::static_type<M%d>(); }'
                     % (M[0], M[0]))
        ovs = [o for o in self.ovs if o[1] == l]
        for oid, _, mid, sig in ovs:
            st = self.meths[mid - 1][3]
            par = ', '.join('%s a%d' % ('P<K%d>' % c if s else 'K%d&' % c, i)
                            for i, (c, s) in enumerate(zip(sig, st)))
            adr = ', '.join('dynamic_cast<const void*>(%s)' % ('a%d.get()' % i if s else '&a%d' % i)
                            for i, s in enumerate(st))
            A.append('static int ov%d(%s, int x) {' % (oid, par))
            A.append('  dyn::enter(%d, M%d::has_next<ov%d>(), x, {%s});' % (oid, mid, oid, adr))
            A.append('  if (dyn::proceed()) return M%d::next<ov%d>(%s, x);' % (
                mid, oid, ', '.join('a%d' % i for i in range(len(sig)))))
            A.append('  return %d; }' % (1000 + oid))
        things = ['static bom::use_classes<%s, reg> u%d;' % (
            ', '.join('K%d' % x for x in (c,) + b), k) for k, (c, b) in enumerate(self.uses[l])]
        things += ['static M%d::override<ov%d> r%d;' % (mid, oid, oid) for oid, _, mid, _ in ovs]
        self.r.shuffle(things)
        A += things
        A.append('static dyn::Loaded g_lib(dyn::Lib{%d, {%s}, {%s}, {%s}});' % (
            l,
            ', '.join('{%d, {%s}}' % (c, ', '.join(map(str, b))) for c, b in self.recs[l]),
            ', '.join('{%d, {%s}, call%d, is%d}' % (M[0], ', '.join(map(str, M[2])), M[0], M[0])
                      for M in mine),
            ', '.join('{%d, %d, {%s}}' % (oid, mid, ', '.join(map(str, sig)))
                      for oid, _, mid, sig in ovs)))
        return A

    def sources(self):
        """[text of the main program, of library 1, ...]"""
        out = []
        for l in range(NLIB + 1):
            A = self.header()
            if l == 0:
                for c in self.m.classes:
                    A.append('K%d::~K%d() {}' % (c, c))
                A.append('static int class_of(bom::type_id t) {')
                for c in self.m.classes:
                    A.append('  if (t == &typeid(K%d)) return %d;' % (c, c))
                A.append('  return 0; }')
                for d in self.m.classes:
                    A.append('static K%d o%d;' % (d, d))
                A.append('static void* upcast(int p, int d) {')
                for d in self.m.classes:
                    for p in sorted(self.m.up[d]):
                        A.append('  if (p == %d && d == %d) return static_cast<K%d*>(&o%d);' % (p, d, p, d))
                A.append('  return nullptr; }')
                # the v-table pointers of all the classes are in the main program
                A.append('void* vptrs[] = {%s};' % ', '.join(
                    '(void*)&reg::static_vptr<K%d>' % c for c in self.m.classes))
                A.append('#include "dyn_main.hpp"')
                body = self.content(0)
                # Loaded needs the main part
                A += body
            else:
                A += self.content(l)
            out.append('\n'.join(A) + '\n')
        return out

    def script(self, r, n):
        """n scenarios"""
        out = []
        for k in range(n):
            L = ['R %d' % r.randrange(1, 1 << 20)]
            loaded = set()
            ready = False      # calls are possible
            removed = False    # since the last successful initialize

            def calls(mx, unk=1):
                return 'C %d %d %d' % (r.choice([1, 1, 1, 0]), mx, unk)
            if r.random() < 0.2:
                L.append(calls(3, 0))
            for _ in range(r.randint(3, 12)):
                w = r.random()
                free = [l for l in range(1, NLIB + 1) if l not in loaded]
                if w < 0.5 and free:
                    for l in r.sample(free, r.randint(1, min(3, len(free)))):
                        L.append('L %d' % l)
                        loaded.add(l)
                    if r.random() < 0.2 and ready and not removed:
                        L.append(calls(6, 0))
                elif w < 0.75 and loaded:
                    for l in r.sample(sorted(loaded), r.randint(1, min(2, len(loaded)))):
                        L.append('X %d' % l)
                        loaded.discard(l)
                        removed = True
                elif w < 0.82:
                    L.append('F')
                    ready = False
                if r.random() < 0.75:
                    ok = self.fits(loaded)
                    L.append('I %d' % r.choice([0, 0, 0, 1]))
                    if ok:
                        ready, removed = True, False
                        L.append(calls(30))
                        if r.random() < 0.2:
                            L += [L[-2], calls(20)]
            out.append(L)
        return out

    def fits(self, loaded):
        """Will initialize succeed? Only used to know when calls are possible."""
        libs = {0} | loaded
        recs = [x for l in libs for x in self.recs[l]]
        known = {x for c, b in recs for x in (c,) + b}
        up = {c: {c} for c in known}
        ch = True
        while ch:
            ch = False
            for c, b in recs:
                s = up[c].union(*[up[x] for x in b]) if b else up[c]
                if s != up[c]:
                    up[c] = s
                    ch = True
        for mid, owner, ps, _ in self.meths:
            if owner not in libs:
                continue
            if not set(ps) <= known:
                return False
            for _, l, m2, sig in self.ovs:
                if m2 == mid and l in libs:
                    if not set(sig) <= known:
                        return False
                    if any(p not in up[c] for p, c in zip(ps, sig)):
                        return False
        return True
