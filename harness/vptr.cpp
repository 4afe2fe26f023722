// Executes operations on virtual pointers of all kinds, and records the state
// after each of them: what each pointer designates, owner counts, lifetimes,
// and where calls through each virtual pointer lead.  The judge is
// spec/VirtualPtr.tla.
//   usage: vptr script out.ndjson [directory of the libraries]
// -DVARIANT=n   the registry
// -DINPLACE=1   the classes have an embedded v-table pointer
// -DFIXED=1     all the overriders but those for X; no libraries
#include "vptr.hpp"
#include <malloc.h>

// ---------------------------------------------------------------------------
// memory is not reused within a scenario, so that addresses identify objects

static bool g_hold = false;
static std::vector<void*, std::allocator<void*>>* g_held;

void* operator new(std::size_t n) {
    void* p = malloc(n ? n : 1);
    if (!p) {
        abort();
    }
    return p;
}
void operator delete(void* p) noexcept {
    if (p) {
        // make the use of freed memory visible
        memset(p, 0xdd, malloc_usable_size(p));
    }
    if (p && g_hold) {
        g_hold = false;
        g_held->push_back(p);
        g_hold = true;
    } else {
        free(p);
    }
}
void operator delete(void* p, std::size_t) noexcept {
    operator delete(p);
}

int g_live[2]; // subobjects A, M alive
int g_ran;
std::vector<Object> g_obj;
std::map<const void*, long> g_rc;

static Object* find(const void* p) {
    for (auto& o : g_obj) {
        if (p >= o.begin && p < o.end) {
            return &o;
        }
    }
    return nullptr;
}

void dead(const void* p, int part) {
    if (auto o = find(p)) {
        ++o->dtor[part];
    }
}

// Register an object. Returns its number.
template<class T>
int adopt(const T* p, int mode) {
    Object o{};
    o.cls = cls<std::remove_cv_t<T>>;
    o.mode = mode;
    o.begin = reinterpret_cast<const char*>(p);
    o.end = o.begin + sizeof(T);
    o.kill = [](const void* q) {
        delete static_cast<const T*>(q);
    };
    set_sub<A>(o, p);
    set_sub<M>(o, p);
    set_sub<B>(o, p);
    set_sub<C>(o, p);
    set_sub<D_>(o, p);
    set_sub<V>(o, p);
    set_sub<X>(o, p);
    set_sub<U>(o, p);
    bool h = g_hold;
    g_hold = false;
    g_obj.push_back(o);
    g_hold = h;
    return int(g_obj.size());
}

static bom::use_classes<A, M, B, C, D_, V, R> g_classes;

// class registrations that come and go: like those of libraries, they live in
// zero-initialized static storage
template<class T>
struct Togglable {
    alignas(T) static inline char buf[sizeof(T)];
    static inline bool on = false;
    static void set(bool v) {
        if (v && !on) {
            memset(buf, 0, sizeof buf);
            new (buf) T();
        } else if (!v && on) {
            reinterpret_cast<T*>(buf)->~T();
        }
        on = v;
    }
};
using XClass = Togglable<bom::use_classes<X, B, R>>;

static overriders<A, A> g_oA;
static overriders<cA, A> g_ocA;
static overriders<M, M> g_oM;
static overriders<B, B> g_oB;
static overriders<V, V> g_oV;

#ifdef FIXED
static optional_overriders<B> g_ooB;
static optional_overriders<C> g_ooC;
static optional_overriders<D_> g_ooD;
static optional_overriders<V> g_ooV;
static void set_overriders(int, bool) {
}
static void close_libraries() {
}
#else
#define FIXED 0
// the others are in libraries
#include <dlfcn.h>
static std::string g_dir;
static void* g_lib[9];
static bool g_close[9];
static void set_overriders(int k, bool on) {
    g_close[k] = !on;
    if (on && !g_lib[k]) {
        auto path = g_dir + "/libvptr" + std::to_string(k) + ".so";
        g_lib[k] = dlopen(path.c_str(), RTLD_NOW | RTLD_LOCAL);
        if (!g_lib[k]) {
            fprintf(stderr, "%s\n", dlerror());
            _Exit(3);
        }
    }
}
// Until the next initialize, calls can still lead to the library.
static void close_libraries() {
    for (int k = 0; k < 9; ++k) {
        if (g_close[k] && g_lib[k]) {
            dlclose(g_lib[k]);
            g_lib[k] = nullptr;
        }
        g_close[k] = false;
    }
}
#endif


// ---------------------------------------------------------------------------
// slots: 0..19 standard pointers (kind * 5 + static type), 20..59 virtual
// pointers (20 + 2 * (kind * 5 + static type) + n)

using Statics = std::tuple<A, cA, B, M, V>;

template<int N>
struct SlotInfo {
    static constexpr bool vir = N >= 20; // N: type of slot, 0..39
    static constexpr int type = N % 20;
    static constexpr int kind = type / 5;
    using S = std::tuple_element_t<type % 5, Statics>;
    using T = std::conditional_t<vir, Vir<kind, S>, Std<kind, S>>;
};
template<int N>
static std::optional<typename SlotInfo<N>::T> slots_[2];

static int g_d, g_s; // which of the two slots of a type

template<int N>
auto& dst() {
    return slots_<N>[g_d];
}
template<int N>
auto& src() {
    return slots_<N>[g_s];
}

constexpr int NTYPES = 40;
constexpr int NSLOTS = 60;

static bool g_init = false, g_xreg = false;

struct Skip {
    int why;
};

template<class T>
T& need(std::optional<T>& slot) {
    if (!slot) {
        throw Skip{1};
    }
    return *slot;
}

template<class T>
T* raw(T* p) {
    return p;
}
template<class P>
auto raw(const P& p) -> decltype(p.get()) {
    return p.get();
}

// a pointer that can be dereferenced
template<class T>
Object& target(std::optional<T>& slot) {
    auto& p = need(slot);
    auto q = raw(p);
    if (!q) {
        throw Skip{1};
    }
    int id = id_of(q);
    if (id < 1 || !g_obj[id - 1].alive()) {
        throw Skip{1};
    }
    return g_obj[id - 1];
}

// without checks, misuse is not detected
static void need_known(const Object& o) {
    if (!CHECKS && (!g_init || o.cls == 8 || (o.cls == 7 && !g_xreg))) {
        throw Skip{1};
    }
}

// ---- construct, assign ----

enum Mode { CONST, LVALUE, MOVE, POINTER };

// Call f(source expression) with the value category wanted.
template<int D, int SN, class F>
void with_source(char m, F f) {
    using DI = SlotInfo<D>;
    using SI = SlotInfo<SN>;
    auto& s = need(src<SN>());
    if constexpr (
        std::is_same_v<typename SI::S, V> &&
        !std::is_same_v<typename DI::S, V>) {
        // a conversion to a virtual base needs the object
        if (raw(s)) {
            target(src<SN>());
        }
    }
    if constexpr (DI::vir && !SI::vir) {
        if constexpr (SI::kind == 0) {
            need_known(target(src<SN>()));
            if (m == 'l') {
                f(*s);
            } else if (m == 'c') {
                f(std::as_const(s));
            } else {
                f(+s);
            }
            return;
        } else {
            if (s) {
                need_known(target(src<SN>()));
            }
        }
    }
    switch (m) {
    case 'c':
        f(static_cast<const typename SI::T&>(s));
        break;
    case 'l':
        f(s);
        break;
    case 'm':
        f(std::move(s));
        break;
    default:
        throw Skip{2};
    }
}

template<int D, int SN>
void construct(char m) {
    using T = typename SlotInfo<D>::T;
    if (D == SN && g_d == g_s) {
        throw Skip{1};
    }
    with_source<D, SN>(m, [](auto&& x) {
        if constexpr (std::is_constructible_v<T, decltype(x)>) {
            dst<D>().reset();
            dst<D>().emplace(std::forward<decltype(x)>(x));
        } else {
            throw Skip{2};
        }
    });
}

template<int D, int SN>
void assign(char m) {
    using T = typename SlotInfo<D>::T;
    auto& d = need(dst<D>());
    with_source<D, SN>(m, [&](auto&& x) {
        if constexpr (std::is_assignable_v<T&, decltype(x)>) {
            d = std::forward<decltype(x)>(x);
        } else {
            throw Skip{2};
        }
    });
}

// ---- cast ----

template<int D, int SN>
void cast(char m) {
    using DI = SlotInfo<D>;
    using SI = SlotInfo<SN>;
    if constexpr (
        DI::vir && SI::vir && DI::kind == SI::kind &&
        (std::is_base_of_v<typename DI::S, typename SI::S> ||
         std::is_base_of_v<typename SI::S, typename DI::S>) &&
        (std::is_const_v<typename DI::S> || !std::is_const_v<typename SI::S>)) {
        auto& o = target(src<SN>());
        if (!is_a(o.cls, cls<std::remove_cv_t<typename DI::S>>)) {
            throw Skip{1};
        }
        auto& s = *src<SN>();
        using S = typename DI::S;
        auto put = [](auto&& v) {
            static_assert(
                std::is_same_v<std::decay_t<decltype(v)>, typename DI::T>);
            dst<D>().emplace(std::move(v));
        };
        if (m == 'm') {
            put(std::move(s).template cast<S>());
        } else if constexpr (DI::kind != 2) {
            if (m == 'c') {
                put(std::as_const(s).template cast<S>());
            } else {
                put(s.template cast<S>());
            }
        } else {
            throw Skip{2};
        }
    } else {
        throw Skip{2};
    }
}

// ---- final ----

template<int D, int SN>
void final(char m) {
    using DI = SlotInfo<D>;
    using SI = SlotInfo<SN>;
    if constexpr (
        DI::vir && !SI::vir && DI::kind == SI::kind &&
        std::is_same_v<typename DI::S, typename SI::S>) {
        auto& o = target(src<SN>());
        need_known(o);
        if (!CHECKS && o.cls != cls<std::remove_cv_t<typename SI::S>>) {
            throw Skip{1};
        }
        auto& s = *src<SN>();
        auto put = [](auto&& v) {
            static_assert(
                std::is_same_v<std::decay_t<decltype(v)>, typename DI::T>);
            dst<D>().emplace(std::move(v));
        };
        if constexpr (DI::kind == 0) {
            if (m == 'c') {
                put(bom::final_virtual_ptr<R>(*s));
            } else {
                put(DI::T::final(*s));
            }
        } else if (m == 'm') {
            put(bom::final_virtual_ptr<R>(std::move(s)));
        } else if (m == 'p') {
            put(DI::T::final(std::move(s)));
        } else {
            throw Skip{2};
        }
    } else {
        throw Skip{2};
    }
}

// ---- others with two slots ----

template<int D, int SN>
void get(char) {
    using DI = SlotInfo<D>;
    using SI = SlotInfo<SN>;
    if constexpr (
        !DI::vir && DI::kind == 0 && D != SN &&
        std::is_same_v<typename DI::S, typename SI::S>) {
        auto p = raw(need(src<SN>()));
        dst<D>() = p;
    } else {
        throw Skip{2};
    }
}

template<int D, int SN>
void pointer(char) {
    using DI = SlotInfo<D>;
    using SI = SlotInfo<SN>;
    if constexpr (
        !DI::vir && SI::vir && DI::type == SI::type && DI::kind != 2) {
        auto& s = need(src<SN>());
        dst<D>().reset();
        dst<D>().emplace(s.pointer());
    } else {
        throw Skip{2};
    }
}

static int g_result;

template<int D, int SN>
void compare(char) {
    using DI = SlotInfo<D>;
    using SI = SlotInfo<SN>;
    using DS = std::remove_cv_t<typename DI::S>;
    using SS = std::remove_cv_t<typename SI::S>;
    if constexpr (
        DI::vir && SI::vir && DI::kind == SI::kind &&
        (std::is_base_of_v<DS, SS> || std::is_base_of_v<SS, DS>)) {
        auto& d = need(dst<D>());
        auto& s = need(src<SN>());
        // converting a dangling pointer to a virtual base is not allowed
        if (d.get()) {
            target(dst<D>());
        }
        if (s.get()) {
            target(src<SN>());
        }
        g_result = (d == s) * 10 + (d != s);
    } else {
        throw Skip{2};
    }
}

template<int D, int SN>
void swap_(char) {
    if constexpr (
        SlotInfo<D>::vir && SlotInfo<SN>::vir &&
        SlotInfo<D>::type == SlotInfo<SN>::type) {
        auto& d = need(dst<D>());
        auto& s = need(src<SN>());
        std::swap(d, s);
    } else {
        throw Skip{2};
    }
}

template<int D, int SN>
void pass_(char m) {
    using DI = SlotInfo<D>;
    using SI = SlotInfo<SN>;
    if constexpr (DI::vir && SI::vir && DI::type == SI::type && DI::kind != 0) {
        target(src<SN>());
        if (!g_init) {
            throw Skip{1}; // the argument would be moved into a call that fails
        }
        auto& s = *src<SN>();
        using Meth = Pass<DI::kind, typename DI::S>;
        auto put = [](auto&& v) {
            dst<D>().emplace(std::move(v));
        };
        if (m == 'm') {
            put(Meth::fn(std::move(s)));
        } else if constexpr (DI::kind != 2) {
            put(Meth::fn(s));
        } else {
            throw Skip{2};
        }
        g_result = g_ran;
    } else {
        throw Skip{2};
    }
}

// ---- one slot ----

template<int D>
void assign_null() {
    need(dst<D>()) = nullptr;
}
template<int D>
void construct_null() {
    dst<D>().reset();
    dst<D>().emplace(nullptr);
}
template<int D>
void construct_default() {
    using DI = SlotInfo<D>;
    if constexpr (DI::kind == 0) {
        throw Skip{2};
    } else {
        dst<D>().reset();
        dst<D>().emplace();
    }
}
template<int D>
void drop() {
    dst<D>().reset();
}

template<int D, class K>
void create() {
    using DI = SlotInfo<D>;
    if constexpr (
        !DI::vir && !std::is_abstract_v<K> &&
        std::is_convertible_v<K*, typename DI::S*>) {
        dst<D>().reset();
        auto p = new K();
        adopt(p, DI::kind);
        if constexpr (DI::kind == 0) {
            dst<D>() = p;
        } else {
            dst<D>().emplace(Std<DI::kind, K>(p));
        }
    } else {
        throw Skip{2};
    }
}
template<int D>
void create(int k) {
    switch (k) {
    case 1:
        return create<D, A>();
    case 2:
        return create<D, M>();
    case 3:
        return create<D, B>();
    case 4:
        return create<D, C>();
    case 5:
        return create<D, D_>();
    case 6:
        return create<D, V>();
    case 7:
        return create<D, X>();
    case 8:
        return create<D, U>();
    }
}

template<int D>
void make() {
    using DI = SlotInfo<D>;
    using S = typename DI::S;
    if constexpr (DI::vir && DI::kind != 0 && !std::is_abstract_v<S>) {
        if (!CHECKS && !g_init) {
            throw Skip{1};
        }
        auto put = [](auto&& v) {
            static_assert(
                std::is_same_v<std::decay_t<decltype(v)>, typename DI::T>);
            adopt(v.get(), DI::kind);
            dst<D>().emplace(std::move(v));
        };
        if constexpr (DI::kind == 1) {
            put(bom::make_shared_virtual<S, R>());
        } else if constexpr (DI::kind == 2) {
            put(bom::make_unique_virtual<S, R>());
        } else {
            put(bom::make_boost_intrusive_virtual<S, R>());
        }
    } else {
        throw Skip{2};
    }
}

// ---- observe ----

// the v-table pointer of a class of the program
static bom::vptr_type vptr_of(int cls) {
    const bom::vptr_type v[] = {
        nullptr,           R::static_vptr<A>, R::static_vptr<M>,
        R::static_vptr<B>, R::static_vptr<C>, R::static_vptr<D_>,
        R::static_vptr<V>, R::static_vptr<X>, R::static_vptr<U>};
    return v[cls];
}

template<int N>
void look(int& st, int& count, int& call, int& vp) {
    using I = SlotInfo<N>;
    st = vp = -1;
    count = call = 0;
    if (!dst<N>()) {
        return;
    }
    auto& p = *dst<N>();
    auto q = raw(p);
    st = id_of(q);
    if constexpr (I::vir) {
        vp = !g_init ? -1
            : p.vptr() == nullptr ? 0
            : st > 0 && p.vptr() == vptr_of(g_obj[st - 1].cls) ? 1
                                                               : 2;
    }
    if constexpr (I::vir && I::kind != 0) {
        if (p.pointer().get() != q || p.operator->() != q) {
            st = -8;
        }
    }
    if (st <= 0) {
        return;
    }
    if constexpr (I::kind == 1) {
        if constexpr (I::vir) {
            count = int(p.pointer().use_count());
        } else {
            count = int(p.use_count());
        }
    } else if constexpr (I::kind == 2) {
        count = 1;
    } else if constexpr (I::kind == 3) {
        count = int(g_rc[dynamic_cast<const void*>(q)]);
    }
    if constexpr (I::vir) {
        if (!g_obj[st - 1].alive()) {
            return;
        }
        using S = typename I::S;
        try {
            if constexpr (I::kind == 2) {
                bom::virtual_ptr<S, R> v(p);
                call = Who<0, S>::fn(v);
            } else {
                call = Who<I::kind, S>::fn(p);
            }
        } catch (bom::not_initialized&) {
            call = -3;
        } catch (bom::no_overrider&) {
            call = -10;
        } catch (bom::ambiguous_call&) {
            call = -11;
        } catch (...) {
            call = -12;
        }
    }
}

// ---------------------------------------------------------------------------
// tables

using Fn2 = void (*)(char);
using Fn1 = void (*)();
using FnK = void (*)(int);
using FnL = void (*)(int&, int&, int&, int&);

static void unsupported(char) {
    throw Skip{2};
}

// Instantiate pairs of the same family only, and into plain virtual_ptrs.
template<int D, int SN>
constexpr bool worth =
    (SlotInfo<D>::kind == SlotInfo<SN>::kind) ||
    (SlotInfo<D>::vir && SlotInfo<D>::kind == 0 && SlotInfo<SN>::vir);

template<int D, int SN>
constexpr bool upcast = std::is_convertible_v<
    typename SlotInfo<SN>::S*, typename SlotInfo<D>::S*>;

template<int OP, int D, int SN>
constexpr Fn2 pick2() {
    if constexpr (OP <= 1 && !upcast<D, SN>) {
        // intrusive_ptr's operator= is not constrained
        return unsupported;
    } else if constexpr (OP == 0 && worth<D, SN>) {
        return construct<D, SN>;
    } else if constexpr (OP == 1 && worth<D, SN>) {
        return assign<D, SN>;
    } else if constexpr (OP == 2 && worth<D, SN>) {
        return cast<D, SN>;
    } else if constexpr (OP == 3 && worth<D, SN>) {
        return final<D, SN>;
    } else if constexpr (OP == 4) {
        return get<D, SN>;
    } else if constexpr (OP == 5) {
        return pointer<D, SN>;
    } else if constexpr (OP == 6) {
        return compare<D, SN>;
    } else if constexpr (OP == 7) {
        return swap_<D, SN>;
    } else if constexpr (OP == 8) {
        return pass_<D, SN>;
    } else {
        return unsupported;
    }
}

template<int OP, int D, int... SN>
void row(Fn2* t, std::integer_sequence<int, SN...>) {
    ((t[SN] = pick2<OP, D, SN>()), ...);
}
template<int OP, int... D>
void rows(Fn2 (*t)[NTYPES], std::integer_sequence<int, D...>) {
    (row<OP, D>(t[D], std::make_integer_sequence<int, NTYPES>()), ...);
}
static Fn2 g_fn2[9][NTYPES][NTYPES];

static Fn1 g_fn1[5][NTYPES];
static FnK g_create[NTYPES];
static FnL g_look[NTYPES];

template<int... D>
void singles(std::integer_sequence<int, D...>) {
    ((g_fn1[0][D] = assign_null<D>), ...);
    ((g_fn1[1][D] = construct_null<D>), ...);
    ((g_fn1[2][D] = construct_default<D>), ...);
    ((g_fn1[3][D] = drop<D>), ...);
    ((g_fn1[4][D] = make<D>), ...);
    ((g_create[D] = static_cast<FnK>(create<D>)), ...);
    ((g_look[D] = look<D>), ...);
}

static FILE* g_out;

static int type_of(int slot) {
    return slot < 20 ? slot : 20 + (slot - 20) / 2;
}
static int nth(int slot) {
    return slot < 20 ? 0 : (slot - 20) % 2;
}


static void observe() {
    int st[NSLOTS], n[NSLOTS], c[NSLOTS], w[NSLOTS];
    for (int i = 0; i < NSLOTS; ++i) {
        g_d = nth(i);
        g_look[type_of(i)](st[i], n[i], c[i], w[i]);
    }
    const char* names[] = {"st", "n", "c", "w"};
    int* arrays[] = {st, n, c, w};
    for (int k = 0; k < 4; ++k) {
        fprintf(g_out, ",\"%s\":[", names[k]);
        for (int i = 0; i < NSLOTS; ++i) {
            fprintf(g_out, "%s%d", i ? "," : "", arrays[k][i]);
        }
        fprintf(g_out, "]");
    }
    fprintf(g_out, ",\"dead\":[");
    for (std::size_t i = 0; i < g_obj.size(); ++i) {
        fprintf(
            g_out, "%s%d", i ? "," : "",
            g_obj[i].dtor[0] * 10 + g_obj[i].dtor[1]);
    }
    fprintf(g_out, "],\"live\":[%d,%d]}\n", g_live[0], g_live[1]);
}

static void clear_slots(bool all) {
    for (int i = all ? 0 : 20; i < NSLOTS; ++i) {
        g_d = nth(i);
        g_fn1[3][type_of(i)]();
    }
    if (all) {
        for (auto& o : g_obj) {
            if (o.mode == 0 && o.alive()) {
                o.kill(o.begin);
            }
        }
    }
}

static void fresh() {
    clear_slots(true);
    if (g_init) {
        bom::finalize<R>();
        g_init = false;
    }
    g_hold = false;
    for (auto p : *g_held) {
        free(p);
    }
    g_held->clear();
    g_obj.clear();
    g_rc.clear();
    g_live[0] = g_live[1] = 0;
    for (int k = 3; k <= 7; ++k) {
        set_overriders(k, false);
    }
    close_libraries();
#if !INPLACE
    XClass::set(false);
#endif
    g_xreg = INPLACE;
    g_hold = true;
}

int main(int argc, char** argv) {
    if (argc < 3) {
        return 2;
    }
#if !FIXED
    g_dir = argc > 3 ? argv[3] : ".";
#endif
    g_held = new std::vector<void*>;
    FILE* in = fopen(argv[1], "r");
    g_out = fopen(argv[2], "w");
    auto seq = std::make_integer_sequence<int, NTYPES>();
    rows<0>(g_fn2[0], seq);
    rows<1>(g_fn2[1], seq);
    rows<2>(g_fn2[2], seq);
    rows<3>(g_fn2[3], seq);
    rows<4>(g_fn2[4], seq);
    rows<5>(g_fn2[5], seq);
    rows<6>(g_fn2[6], seq);
    rows<7>(g_fn2[7], seq);
    rows<8>(g_fn2[8], seq);
    singles(seq);
    const char* names2[] = {"ctor", "assign", "cast", "final", "get",
                            "pointer", "cmp", "swap", "pass"};
    const char* names1[] = {"null", "nullc", "def", "drop", "make"};
    char op[16];
    while (fscanf(in, "%15s", op) == 1) {
        if (!strcmp(op, "R")) {
            fresh();
            fprintf(
                g_out,
                "{\"op\":\"reset\",\"indirect\":%d,\"checks\":%d,\"inplace\":%d,"
                "\"fixed\":%d,\"abstract\":%d}\n",
                int(INDIRECT), int(CHECKS), INPLACE, FIXED, ABSTRACT);
            continue;
        }
        int d = 0, s = 0, x = 0, kind2 = -1, kind1 = -1;
        char m[4] = "-";
        for (int i = 0; i < 9; ++i) {
            if (!strcmp(op, names2[i])) {
                kind2 = i;
                if (fscanf(in, "%d %d %3s", &d, &s, m) != 3) {
                    return 2;
                }
            }
        }
        for (int i = 0; i < 5; ++i) {
            if (!strcmp(op, names1[i])) {
                kind1 = i;
                if (fscanf(in, "%d", &d) != 1) {
                    return 2;
                }
            }
        }
        if (!strcmp(op, "new")) {
            if (fscanf(in, "%d %d", &d, &x) != 2) {
                return 2;
            }
        } else if (!strcmp(op, "ov")) { // class, on
            if (fscanf(in, "%d %d", &x, &s) != 2) {
                return 2;
            }
        }
        fprintf(
            g_out,
            "{\"op\":\"%s\",\"d\":%d,\"s\":%d,\"m\":\"%s\",\"x\":%d", op, d, s,
            m, x);
        fflush(g_out);
        int err = 0, skip = 0, t1 = 0, t2 = 0;
        g_result = 0;
        auto type_no = [](bom::type_id t) {
            auto& ti = *static_cast<const std::type_info*>(t);
            return ti == typeid(A)   ? 1
                : ti == typeid(M)    ? 2
                : ti == typeid(B)    ? 3
                : ti == typeid(C)    ? 4
                : ti == typeid(D_)   ? 5
                : ti == typeid(V)    ? 6
                : ti == typeid(X)    ? 7
                : ti == typeid(U)    ? 8
                                     : 0;
        };
        g_d = nth(d);
        g_s = nth(s);
        try {
            if (kind2 >= 0) {
                g_fn2[kind2][type_of(d)][type_of(s)](m[0]);
            } else if (kind1 >= 0) {
                g_fn1[kind1][type_of(d)]();
            } else if (!strcmp(op, "new")) {
                g_create[type_of(d)](x);
            } else if (!strcmp(op, "ov")) {
                if (x == 7 && !g_xreg && s) {
                    throw Skip{1};
                }
                if (FIXED) {
                    throw Skip{1};
                }
                g_hold = false;
                set_overriders(x, s);
                g_hold = true;
            } else if (!strcmp(op, "xclass")) {
#if INPLACE
                throw Skip{1};
#else
                g_hold = false;
                XClass::set(true);
                g_hold = true;
#endif
            } else if (!strcmp(op, "init")) {
                if (!INDIRECT || !g_init) {
                    clear_slots(INPLACE);
                }
                g_hold = false;
                close_libraries();
                bom::initialize<R>();
                g_hold = true;
                g_init = true;
                g_xreg = INPLACE || XClass::on;
            } else if (!strcmp(op, "fin")) {
                // with checks, calls through the remaining ones are rejected
                if (INPLACE || !CHECKS) {
                    clear_slots(INPLACE);
                }
                g_hold = false;
                bom::finalize<R>();
                g_hold = true;
                g_init = false;
            } else if (!strcmp(op, "clear")) {
                clear_slots(true);
            } else {
                return 2;
            }
        } catch (Skip& e) {
            skip = e.why;
        } catch (bom::not_initialized&) {
            err = -3;
        } catch (bom::missing_class& e) {
            err = -2;
            t1 = type_no(e.type);
        } catch (bom::final_error& e) {
            err = -6;
            t1 = type_no(e.static_type);
            t2 = type_no(e.dynamic_type);
        } catch (bom::no_overrider&) {
            err = -10;
        } catch (bom::ambiguous_call&) {
            err = -11;
        } catch (...) {
            err = -12;
        }
        g_hold = true;
        fprintf(
            g_out, ",\"skip\":%d,\"e\":%d,\"t1\":%d,\"t2\":%d,\"r\":%d", skip,
            err, t1, t2, g_result);
        observe();
    }
    fprintf(g_out, "{\"op\":\"end\"}\n");
    fclose(g_out);
    _Exit(0);
}
