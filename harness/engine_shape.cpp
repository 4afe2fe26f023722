// Runtime scenario engine: one engine.
//
// Executes class records, methods, overriders, initialize, calls, ... chosen at
// run time, against the real library, using only its public extension points: a
// custom `deferred_static_rtti` policy whose type ids are chosen at run time,
// `use_classes`, `method`, `virtual_traits`.  It contains no oracle: what it
// observes is judged by spec/TraceRegistry.tla.
//
// Compile with -DVARIANT=n (the policies of the registry), -DSHAPE_ID=s (the
// methods), and -fno-lifetime-dse: registration objects live in zero-initialized
// static storage, as they do in a real program, but are constructed and
// destroyed repeatedly, as if in libraries loaded and unloaded.

#include "engine_iface.hpp"

#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <map>
#include <new>
#include <sstream>

#ifndef VARIANT
#define VARIANT 0
#endif
#ifndef SHAPE_ID
#define SHAPE_ID 0
#endif

#include <boost/config.hpp>
#include <boost/openmethod/preamble.hpp>
#include <boost/openmethod/policies/vptr_vector.hpp>
#include <boost/openmethod/policies/vptr_map.hpp>
#include <boost/openmethod/policies/fast_perfect_hash.hpp>
#include <boost/openmethod/policies/default_error_handler.hpp>
#include <boost/openmethod/policies/throw_error_handler.hpp>

namespace bom = boost::openmethod;
using bom::type_id;

constexpr int S = SHAPE_ID;

namespace {

struct TagBase {};

template<int Kind, int A = 0, int B = 0, int C = 0>
struct Tag : TagBase {
    inline static type_id id = nullptr;
};

template<int U, int I>
struct BTag : TagBase {
    inline static type_id id = nullptr;
};
// some of the classes are abstract
template<bool>
struct MaybeAbstract {};
template<>
struct MaybeAbstract<true> {
    virtual void pure() = 0;
};
template<int U, int N>
struct DTag;
template<int U>
struct DTag<U, 0> : MaybeAbstract<U % 3 == 1> {
    inline static type_id id = nullptr;
};
template<int U>
struct DTag<U, 1> : BTag<U, 0>, MaybeAbstract<U % 3 == 1> {
    inline static type_id id = nullptr;
};
template<int U>
struct DTag<U, 2> : BTag<U, 0>, BTag<U, 1>, MaybeAbstract<U % 3 == 1> {
    inline static type_id id = nullptr;
};
template<int U>
struct DTag<U, 3> : BTag<U, 0>, BTag<U, 1>, BTag<U, 2>, MaybeAbstract<U % 3 == 1> {
    inline static type_id id = nullptr;
};

template<class T, class = void>
struct has_id : std::false_type {};
template<class T>
struct has_id<T, std::void_t<decltype(T::id)>> : std::true_type {};

template<class T>
inline char static_addr = 0;

struct rt_rtti : bom::policies::deferred_static_rtti {
    template<class Registry>
    struct fn : bom::policies::rtti::defaults {
        template<class Class>
        static constexpr bool is_polymorphic =
            has_id<Class>::value || std::is_same_v<Class, Obj>;

        template<class Class>
        static auto static_type() -> type_id {
            if constexpr (std::is_same_v<Class, Obj>) {
                return &static_addr<Class>;
            } else if constexpr (has_id<Class>::value) {
                return Class::id;
            } else {
                return &static_addr<Class>;
            }
        }

        template<class Class>
        static auto dynamic_type(const Class& obj) -> type_id {
            if constexpr (std::is_same_v<Class, Obj>) {
                return obj.id;
            } else {
                return &static_addr<Class>;
            }
        }

        static auto type_index(type_id type) -> type_id {
            if (g_alias_on) {
                auto i = g_cls_of.find(type);
                if (i != g_cls_of.end()) {
                    return g_tid[i->second][0];
                }
            }
            return type;
        }
    };
};

// output policy: captured
struct cap_stream {
    cap_stream& operator<<(const char* s) {
        g_out += s;
        return *this;
    }
    cap_stream& operator<<(const std::string_view& s) {
        g_out += s;
        return *this;
    }
    cap_stream& operator<<(const void*) {
        g_out += "0x";
        return *this;
    }
    cap_stream& operator<<(std::size_t v) {
        g_out += std::to_string(v);
        return *this;
    }
    template<typename Ret, typename... A>
    cap_stream& operator<<(Ret (*)(A...)) {
        g_out += "fn";
        return *this;
    }
};
struct cap_output : bom::policies::output {
    template<class Registry>
    struct fn {
        inline static cap_stream os;
    };
};

// vptr policy: can be told to fail, as one that runs out of resources would
struct failing_vptr : bom::policies::vptr {
    template<class Registry>
    struct fn : bom::policies::vptr_map<>::fn<Registry> {
        using base = bom::policies::vptr_map<>::fn<Registry>;
        template<class Context, class... Options>
        static void
        initialize(const Context& ctx, const std::tuple<Options...>& options) {
            if (g_policy_fail) {
                throw PolicyFailure();
            }
            base::initialize(ctx, options);
        }
    };
};

namespace pol = bom::policies;

#if VARIANT == 0
struct Reg : bom::registry<
                 rt_rtti, pol::vptr_vector, pol::default_error_handler,
                 cap_output, pol::runtime_checks> {};
#elif VARIANT == 1
struct Reg : bom::registry<
                 rt_rtti, pol::vptr_vector, pol::fast_perfect_hash,
                 pol::default_error_handler, cap_output, pol::runtime_checks> {
};
#elif VARIANT == 2
struct Reg : bom::registry<
                 rt_rtti, pol::vptr_map<>, pol::default_error_handler,
                 cap_output, pol::runtime_checks> {};
#elif VARIANT == 3
struct Reg : bom::registry<
                 rt_rtti, pol::vptr_vector, pol::fast_perfect_hash,
                 pol::default_error_handler, cap_output, pol::indirect_vptr,
                 pol::runtime_checks> {};
#elif VARIANT == 4
struct Reg
    : bom::registry<
          rt_rtti, pol::vptr_map<boost::mp11::mp_quote<std::map>>,
          pol::default_error_handler, pol::indirect_vptr> {};
#elif VARIANT == 5
struct Reg : bom::registry<
                 rt_rtti, pol::vptr_vector, pol::fast_perfect_hash,
                 pol::default_error_handler> {};
#elif VARIANT == 6
struct Reg : bom::registry<
                 rt_rtti, failing_vptr, pol::default_error_handler, cap_output,
                 pol::runtime_checks> {};
#elif VARIANT == 7
struct Reg : bom::registry<
                 rt_rtti, pol::vptr_vector, pol::indirect_vptr,
                 pol::default_error_handler, cap_output> {};
#endif

struct dummy_default : bom::registry<rt_rtti> {};

} // namespace

#define BOOST_OPENMETHOD_DEFAULT_REGISTRY dummy_default

#include <boost/openmethod/core.hpp>
#include <boost/openmethod/initialize.hpp>

// References to objects. The static type is the tag: its run-time type id is
// whatever the script says.
namespace {
template<class T>
struct Ref {
    const Obj* p;
};
template<class T>
struct ORef {
    const Obj* p;
};
template<class T>
struct RRef {
    int v;
    RRef(int v = 0) : v(v) {
    }
    template<class U>
    RRef(const RRef<U>& o) : v(o.v) {
    }
};
} // namespace

namespace boost::openmethod {
template<class T, class Registry>
struct virtual_traits<Ref<T>, Registry> {
    using virtual_type = T;
    static auto peek(const Ref<T>& r) -> const Obj& {
        return *r.p;
    }
    template<class D>
    static auto cast(const Ref<T>& r) -> D {
        return D{r.p};
    }
};
template<class T, class Registry>
struct virtual_traits<ORef<T>, Registry> {
    using virtual_type = T;
};
template<class T, class Registry>
struct virtual_traits<RRef<T>, Registry> {
    using virtual_type = T;
};
} // namespace boost::openmethod

namespace {

constexpr MS all_shapes[NSHAPES][12] = {
    {{1, 3}, {2, 3}},
    {{1, 1}, {2, 2}, {1, 2}},
    {{2, 4}, {3, 3}},
    {{1, 4}, {1, 0}, {2, 1}},
    {{2, 6}},
    {{1, 2}, {1, 2}, {1, 2}, {2, 2}, {2, 0}},
    {{1, 1}, {1, 1}, {1, 1}, {1, 1}, {1, 1}, {2, 1}},
    {{3, 4}, {1, 6}},
    {{4, 4}, {1, 2}},
    {{2, 12}},
    {{1, 1},
     {1, 1},
     {1, 1},
     {1, 1},
     {1, 1},
     {1, 1},
     {1, 1},
     {1, 1},
     {1, 1},
     {2, 2}},
    {{3, 6}, {2, 3}},
    {{2, 0}, {2, 1}, {2, 2}, {2, 3}, {1, 0}, {1, 1}, {1, 2}, {1, 3}, {1, 4}},
    {{5, 4}, {6, 3}},
    {{3, 0}, {3, 1}, {3, 2}, {3, 3}, {2, 4}, {1, 5}},
};
constexpr int count_methods() {
    int n = 0;
    while (n < 12 && all_shapes[S][n].arity) {
        ++n;
    }
    return n;
}
constexpr int NM = count_methods();
constexpr MS shape_m(int m) {
    return all_shapes[S][m];
}

enum { KP = 1, KR, KO, KOR };

struct to_thrown {
    Thrown operator()(const bom::not_initialized&) const {
        return {E_NOT_INIT, {}, 0, nullptr};
    }
    Thrown operator()(const bom::no_overrider& e) const {
        return {E_NOOV, types(e), e.arity, e.method};
    }
    Thrown operator()(const bom::ambiguous_call& e) const {
        return {E_AMB, types(e), e.arity, e.method};
    }
    Thrown operator()(const bom::missing_class& e) const {
        return {E_MISSING_CLASS, {e.type}, 0, nullptr};
    }
    Thrown operator()(const bom::missing_base& e) const {
        return {E_MISSING_BASE, {e.base, e.derived}, 0, nullptr};
    }
    Thrown operator()(const pol::fast_perfect_hash::search_error& e) const {
        return {
            E_SEARCH,
            {reinterpret_cast<type_id>(e.attempts),
             reinterpret_cast<type_id>(e.buckets)},
            0,
            nullptr};
    }
    template<class T>
    Thrown operator()(const T&) const {
        return {E_OTHER, {}, 0, nullptr};
    }
    static std::vector<type_id> types(const bom::bad_call& e) {
        std::vector<type_id> v;
        for (std::size_t i = 0; i < e.arity && i < e.max_types; ++i) {
            v.push_back(e.types[i]);
        }
        return v;
    }
};

// ---------------------------------------------------------------------------
// Methods have one ordinary parameter, in a place that depends on the method.

template<int M>
struct MId;

template<int M, int Style, class Is>
struct sig_;

template<int M>
using seq = std::make_index_sequence<shape_m(M).arity>;
template<int M>
using sig = sig_<M, M % 3, seq<M>>;

template<int M, std::size_t... I>
struct sig_<M, 0, std::index_sequence<0, I...>> {
    using type = bom::method<
        MId<M>,
        RRef<Tag<KR, M>>(
            bom::virtual_<Ref<Tag<KP, M, 0>>>, int,
            bom::virtual_<Ref<Tag<KP, M, I>>>...),
        Reg>;
    template<class F>
    static int call(F&& f, int x, const Obj* const* a) {
        return f(
                   Ref<Tag<KP, M, 0>>{a[0]}, x,
                   Ref<Tag<KP, M, I>>{a[I]}...)
            .v;
    }
};
template<int M, std::size_t... I>
struct sig_<M, 1, std::index_sequence<I...>> {
    using type = bom::method<
        MId<M>,
        RRef<Tag<KR, M>>(int, bom::virtual_<Ref<Tag<KP, M, I>>>...), Reg>;
    template<class F>
    static int call(F&& f, int x, const Obj* const* a) {
        return f(x, Ref<Tag<KP, M, I>>{a[I]}...).v;
    }
};
template<int M, std::size_t... I>
struct sig_<M, 2, std::index_sequence<I...>> {
    using type = bom::method<
        MId<M>,
        RRef<Tag<KR, M>>(bom::virtual_<Ref<Tag<KP, M, I>>>..., int), Reg>;
    template<class F>
    static int call(F&& f, int x, const Obj* const* a) {
        return f(Ref<Tag<KP, M, I>>{a[I]}..., x).v;
    }
};

template<int M>
using method_type = typename sig<M>::type;

template<int M, int K>
RRef<Tag<KOR, M, K>> run(
    RRef<Tag<KOR, M, K>> (*)(int, const Obj* const*), bool has_next,
    int (*next)(int, const Obj* const*), int x, const Obj* const* got) {
    constexpr int n = shape_m(M).arity;
    if (g_pipe >= 0) {
        report_byte('o');
    }
    if (x != g.x || int(g.args.size()) != n) {
        ++g.bad;
    } else {
        for (int i = 0; i < n; ++i) {
            if (got[i] != g.args[i]) {
                ++g.bad;
            }
        }
    }
    g.chain.push_back(K + 1);
    g.chain.push_back(has_next ? 1 : 0);
    if (g.follow && g.chain.size() < 64) {
        return RRef<Tag<KOR, M, K>>(next(x, got));
    }
    return RRef<Tag<KOR, M, K>>(1000 + K);
}

template<int M, int K, int Style, class Is>
struct overrider_;

#define BODY(...)                                                              \
    using Method = method_type<M>;                                             \
    const Obj* got[] = {__VA_ARGS__};                                          \
    return run<M, K>(                                                          \
        nullptr, Method::template has_next<fn>(),                              \
        [](int x, const Obj* const* a) {                                       \
            return sig<M>::call(Method::template next<fn>, x, a);              \
        },                                                                     \
        x, got);

template<int M, int K, std::size_t... I>
struct overrider_<M, K, 0, std::index_sequence<0, I...>> {
    static auto
    fn(ORef<Tag<KO, M, K, 0>> a0, int x, ORef<Tag<KO, M, K, I>>... a)
        -> RRef<Tag<KOR, M, K>> {
        BODY(a0.p, a.p...)
    }
};
template<int M, int K, std::size_t... I>
struct overrider_<M, K, 1, std::index_sequence<I...>> {
    static auto
    fn(int x, ORef<Tag<KO, M, K, I>>... a) -> RRef<Tag<KOR, M, K>> {
        BODY(a.p...)
    }
};
template<int M, int K, std::size_t... I>
struct overrider_<M, K, 2, std::index_sequence<I...>> {
    static auto
    fn(ORef<Tag<KO, M, K, I>>... a, int x) -> RRef<Tag<KOR, M, K>> {
        BODY(a.p...)
    }
};

template<int M, int K>
using overrider = overrider_<M, K, M % 3, seq<M>>;

template<int M, class Ks>
struct overriders_;
template<int M, int... K>
struct overriders_<M, std::integer_sequence<int, K...>> {
    typename method_type<M>::template override<overrider<M, K>::fn...> impl;
};

template<class Ms>
struct all_overriders_;
template<int... M>
struct all_overriders_<std::integer_sequence<int, M...>> {
    std::tuple<
        overriders_<M, std::make_integer_sequence<int, shape_m(M).k>>...>
        impl;
};

all_overriders_<std::make_integer_sequence<int, NM>> register_overriders;

// ---------------------------------------------------------------------------

template<int U, int N>
struct unit_type;
template<int U>
struct unit_type<U, 0> {
    using type = bom::use_classes<DTag<U, 0>, Reg>;
};
template<int U>
struct unit_type<U, 1> {
    using type = bom::use_classes<DTag<U, 1>, BTag<U, 0>, Reg>;
};
template<int U>
struct unit_type<U, 2> {
    using type = bom::use_classes<DTag<U, 2>, BTag<U, 0>, BTag<U, 1>, Reg>;
};
template<int U>
struct unit_type<U, 3> {
    using type =
        bom::use_classes<BTag<U, 0>, BTag<U, 1>, DTag<U, 3>, BTag<U, 2>, Reg>;
};

struct UnitOps {
    void (*set_d)(type_id);
    void (*set_b)(int, type_id);
    void (*make)();
    void (*drop)();
};
template<int U, int N>
struct UnitStore {
    using T = typename unit_type<U, N>::type;
    alignas(T) inline static char buf[sizeof(T)];
    static void make() {
        new (buf) T();
    }
    static void drop() {
        reinterpret_cast<T*>(buf)->~T();
    }
    static void set_d(type_id t) {
        DTag<U, N>::id = t;
    }
    static void set_b(int i, type_id t) {
        switch (i) {
        case 0:
            BTag<U, 0>::id = t;
            break;
        case 1:
            BTag<U, 1>::id = t;
            break;
        case 2:
            BTag<U, 2>::id = t;
            break;
        }
    }
    static UnitOps ops() {
        return {set_d, set_b, make, drop};
    }
};

struct MethodOps {
    std::vector<void (*)(type_id)> param;
    void (*ret)(type_id);
    std::vector<std::vector<void (*)(type_id)>> ov;
    std::vector<void (*)(type_id)> ov_ret;
    int (*call)(const std::vector<const Obj*>&);
    type_id (*id)();
};

template<class T>
void set_id(type_id t) {
    T::id = t;
}
template<int M>
int call_m(const std::vector<const Obj*>& a) {
    return sig<M>::call(
        [](auto... args) { return method_type<M>::fn(args...); }, g.x,
        a.data());
}
template<int M>
type_id id_m() {
    return Reg::rtti::template static_type<method_type<M>>();
}
template<int M, int K, std::size_t... I>
auto ov_setters(std::index_sequence<I...>) {
    return std::vector<void (*)(type_id)>{set_id<Tag<KO, M, K, I>>...};
}
template<int M, std::size_t... I, int... K>
MethodOps
mops(std::index_sequence<I...> is, std::integer_sequence<int, K...>) {
    (void)is;
    MethodOps o;
    o.param = {set_id<Tag<KP, M, I>>...};
    o.ret = set_id<Tag<KR, M>>;
    o.ov = std::vector<std::vector<void (*)(type_id)>>{
        ov_setters<M, K>(is)...};
    o.ov_ret = std::vector<void (*)(type_id)>{set_id<Tag<KOR, M, K>>...};
    o.call = call_m<M>;
    o.id = id_m<M>;
    return o;
}

struct Engine : IEngine {
    using R = Reg;
    UnitOps units[NUNITS][4];
    int live[NUNITS];
    std::vector<MethodOps> methods;

    template<int... M, int... U>
    void
    setup(std::integer_sequence<int, M...>, std::integer_sequence<int, U...>) {
        methods = {mops<M>(
            seq<M>(), std::make_integer_sequence<int, shape_m(M).k>())...};
        ((units[U][0] = UnitStore<U, 0>::ops()), ...);
        ((units[U][1] = UnitStore<U, 1>::ops()), ...);
        ((units[U][2] = UnitStore<U, 2>::ops()), ...);
        ((units[U][3] = UnitStore<U, 3>::ops()), ...);
    }

    Engine() {
        (void)&register_overriders;
        setup(
            std::make_integer_sequence<int, NM>(),
            std::make_integer_sequence<int, NUNITS>());
        for (auto& l : live) {
            l = -1;
        }
        R::error_handler::set([](const auto& error) {
            ++g_handler_calls;
            if (g_pipe >= 0) {
                report_byte('h');
                report_byte(
                    char('A' - std::visit(to_thrown(), error).code));
                return; // "forget" to terminate
            }
            throw std::visit(to_thrown(), error);
        });
    }
    int n_methods() override {
        return NM;
    }
    MS ms(int m) override {
        return shape_m(m);
    }
    void set_param(int m, int i, tid t) override {
        methods[m].param[i](t);
    }
    void set_ret(int m, tid t) override {
        methods[m].ret(t ? t : &static_addr<int>);
    }
    void set_ov_param(int m, int k, int i, tid t) override {
        methods[m].ov[k][i](t);
    }
    void set_ov_ret(int m, int k, tid t) override {
        methods[m].ov_ret[k](t ? t : &static_addr<int>);
    }
    void make_unit(int u, int n, tid d, const tid* b) override {
        units[u][n].set_d(d);
        for (int i = 0; i < n; ++i) {
            units[u][n].set_b(i, b[i]);
        }
        units[u][n].make();
        live[u] = n;
    }
    void drop_unit(int u) override {
        if (live[u] >= 0) {
            units[u][live[u]].drop();
            live[u] = -1;
        }
    }
    template<class Rep>
    static std::string rep(const Rep& r) {
        std::ostringstream os;
        os << "\"cells\":" << r.cells << ",\"ni\":" << r.not_implemented
           << ",\"amb\":" << r.ambiguous;
        return os.str();
    }
    std::string init(int opts) override {
        switch (opts) {
        case 0:
            return rep(bom::initialize<R>().report);
        case 1:
            return rep(bom::initialize<R>(bom::n2216()).report);
#if VARIANT != 4 && VARIANT != 5
        case 2:
            return rep(bom::initialize<R>(bom::trace(true)).report);
        case 3:
            return rep(
                bom::initialize<R>(bom::n2216(), bom::trace(true)).report);
        case 4:
            return rep(bom::initialize<R>(bom::trace(false)).report);
        case 5:
            return rep(
                bom::initialize<R>(bom::trace(false), bom::n2216()).report);
#endif
        }
        return init(opts & 1);
    }
    void finalize() override {
        bom::finalize<R>();
    }
    int call(int m, const std::vector<const Obj*>& a) override {
        return methods[m].call(a);
    }
    tid method_id(int m) override {
        return methods[m].id();
    }
};

} // namespace

template<int>
IEngine* make_engine_for();
template<>
IEngine* make_engine_for<S>() {
    static Engine e;
    return &e;
}
