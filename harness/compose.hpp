// Registries composed of policies, some of them made here to observe what
// they are asked to do.  Events are those of spec/TracePolicies.tla.

#ifndef COMPOSE_HPP
#define COMPOSE_HPP

#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <memory>
#include <string>
#include <tuple>
#include <typeindex>
#include <typeinfo>
#include <utility>
#include <vector>

#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

#include <boost/openmethod.hpp>
#include <boost/openmethod/initialize.hpp>
#include <boost/openmethod/policies/vptr_map.hpp>
#include <boost/openmethod/policies/throw_error_handler.hpp>

namespace compose {

namespace bom = boost::openmethod;
namespace pol = bom::policies;
namespace mp11 = boost::mp11;
using bom::type_id;
using bom::vptr_type;

inline FILE* out;

// ---------------------------------------------------------------------------
// log; in shared memory, as calls are made in child processes

struct Entry {
    int p;
    char f[6];
    int o, bad, n_opts, n_classes;
    int opts[4], classes[16];
};

struct Shared {
    int how, res;
    int n_log, n_deliv;
    Entry log[64];
    int deliv[8];
    int wrote52;
};
inline Shared* g;

inline Entry& entry(int p, const char* f) {
    static Entry none;
    if (g->n_log == 64) {
        none = Entry();
        return none;
    }
    Entry& e = g->log[g->n_log++];
    e = Entry();
    e.p = p;
    strcpy(e.f, f);
    return e;
}

template<int N>
struct Opt {
    int v;
};

template<class... Options>
void note_options(Entry& e, const std::tuple<Options...>& opts) {
    auto note = [&](const auto& x) {
        using T = std::decay_t<decltype(x)>;
        if constexpr (std::is_same_v<T, Opt<1>> || std::is_same_v<T, Opt<2>>) {
            e.opts[e.n_opts++] = x.v;
        }
    };
    std::apply([&](const auto&... x) { (note(x), ...); }, opts);
}

// ---------------------------------------------------------------------------
// classes

struct Numbered {
    int num = 0;
};

template<class R>
struct A;
template<class R>
struct B;
template<class R>
struct C;
template<class R>
struct D;

template<class T>
struct registry_of;
template<template<class> class K, class R>
struct registry_of<K<R>> {
    using type = R;
};

template<class R>
int class_of(type_id id) {
    auto& t = *static_cast<const std::type_info*>(id);
    return t == typeid(A<R>) ? 1 : t == typeid(B<R>) ? 2 : t == typeid(C<R>) ? 3 : t == typeid(D<R>) ? 4 : 0;
}

template<class R>
const vptr_type* vptr_of(int c) {
    return c == 1 ? &R::template static_vptr<A<R>>
        : c == 2  ? &R::template static_vptr<B<R>>
        : c == 3  ? &R::template static_vptr<C<R>>
                  : nullptr;
}

// ---------------------------------------------------------------------------
// policies of the program

// User: the registry class of the program, derived from Registry
template<class Registry>
inline int (*g_class_of)(type_id);
template<class Registry>
inline const vptr_type* (*g_vptr_of)(int);

template<class Registry, class Context, class... Options>
void note_init(int p, const Context& ctx, const std::tuple<Options...>& opts) {
    auto& e = entry(p, "init");
    note_options(e, opts);
    for (auto c = ctx.classes_begin(); c != ctx.classes_end(); ++c) {
        int ids = 0, k = 0;
        for (auto t = c->type_id_begin(); t != c->type_id_end(); ++t) {
            ++ids;
            k = g_class_of<Registry>(*t);
        }
        if (e.n_classes < 16) {
            e.classes[e.n_classes++] = k;
        }
        // the v-table pointers may be set later, but this is where they are
        if (ids != 1 || &c->vptr() != g_vptr_of<Registry>(k)) {
            ++e.bad;
        }
    }
}

template<int P, class Base>
struct MyRttiBase : Base {
    template<class Registry>
    struct fn : pol::std_rtti::fn<Registry> {
        template<class Class>
        static auto dynamic_type(const Class& obj) -> type_id {
            if constexpr (std::is_base_of_v<Numbered, Class>) {
                entry(P, "type").o = obj.num;
            }
            return pol::std_rtti::fn<Registry>::dynamic_type(obj);
        }
        template<class... Options>
        static void finalize(const std::tuple<Options...>& opts) {
            note_options(entry(P, "fini"), opts);
        }
    };
};
struct MyRtti : MyRttiBase<12, pol::rtti> {};
struct MyDeferred : MyRttiBase<13, pol::deferred_static_rtti> {};

struct MyVptr : pol::vptr {
    template<class Registry>
    struct fn {
        static inline std::map<std::type_index, const vptr_type*> map;

        template<class Context, class... Options>
        static void initialize(const Context& ctx, const std::tuple<Options...>& opts) {
            note_init<Registry>(24, ctx, opts);
            map.clear();
            for (auto c = ctx.classes_begin(); c != ctx.classes_end(); ++c) {
                for (auto t = c->type_id_begin(); t != c->type_id_end(); ++t) {
                    map.emplace(Registry::rtti::type_index(*t), &c->vptr());
                }
            }
        }
        template<class Class>
        static auto dynamic_vptr(const Class& obj) -> const vptr_type& {
            entry(24, "dyn").o = obj.num;
            auto type = Registry::rtti::dynamic_type(obj);
            auto i = map.find(Registry::rtti::type_index(type));
            if (i == map.end()) {
                if constexpr (Registry::has_error_handler) {
                    bom::missing_class e;
                    e.type = type;
                    Registry::error_handler::error(e);
                }
                abort();
            }
            return *i->second;
        }
        template<class... Options>
        static void finalize(const std::tuple<Options...>& opts) {
            note_options(entry(24, "fini"), opts);
            map.clear();
        }
    };
};

struct MyVector : pol::vptr_vector {
    template<class Registry>
    struct fn : pol::vptr_vector::fn<Registry> {
        using base = pol::vptr_vector::fn<Registry>;
        template<class Context, class... Options>
        static void initialize(const Context& ctx, const std::tuple<Options...>& opts) {
            note_init<Registry>(25, ctx, opts);
            base::initialize(ctx, opts);
        }
        template<class Class>
        static auto dynamic_vptr(const Class& obj) -> const vptr_type& {
            entry(25, "dyn").o = obj.num;
            return base::dynamic_vptr(obj);
        }
        template<class... Options>
        static void finalize(const std::tuple<Options...>& opts) {
            note_options(entry(25, "fini"), opts);
            base::finalize(opts);
        }
    };
};

struct MyHash : pol::type_hash {
    template<class Registry>
    struct fn {
        static inline std::map<type_id, std::size_t> map;

        template<class Context, class... Options>
        static auto initialize(const Context& ctx, const std::tuple<Options...>& opts)
            -> std::pair<std::size_t, std::size_t> {
            note_init<Registry>(32, ctx, opts);
            map.clear();
            for (auto c = ctx.classes_begin(); c != ctx.classes_end(); ++c) {
                for (auto t = c->type_id_begin(); t != c->type_id_end(); ++t) {
                    map.emplace(*t, 3 + 2 * map.size());
                }
            }
            return {3, 1 + 2 * map.size()};
        }
        static auto hash(type_id type) -> std::size_t {
            auto i = map.find(type);
            if (i == map.end()) {
                if constexpr (Registry::has_error_handler) {
                    bom::missing_class e;
                    e.type = type;
                    Registry::error_handler::error(e);
                }
                abort();
            }
            return i->second;
        }
        template<class... Options>
        static void finalize(const std::tuple<Options...>& opts) {
            note_options(entry(32, "fini"), opts);
            map.clear();
        }
    };
};

inline int code(const bom::no_overrider&) { return 0; }
inline int code(const bom::ambiguous_call&) { return -1; }
inline int code(const bom::missing_class&) { return -2; }
inline int code(const bom::not_initialized&) { return -3; }
inline int code(const bom::openmethod_error&) { return -9; }

struct Thrown {};

struct MyHandler : pol::error_handler {
    template<class Registry>
    struct fn {
        template<class Error>
        static void error(const Error& e) {
            if (g->n_deliv < 8) {
                g->deliv[g->n_deliv++] = code(e);
            }
            throw Thrown();
        }
        template<class... Options>
        static void finalize(const std::tuple<Options...>& opts) {
            note_options(entry(43, "fini"), opts);
        }
    };
};

struct Stream {
    template<class T>
    Stream& operator<<(const T&) {
        g->wrote52 = 1;
        return *this;
    }
};

struct MyOutput : pol::output {
    template<class Registry>
    struct fn {
        static inline Stream os;
    };
};

template<int P>
struct Noting {
    template<class Registry>
    struct fn {
        template<class... Options>
        static void finalize(const std::tuple<Options...>& opts) {
            note_options(entry(P, "fini"), opts);
        }
    };
};
struct Foo {
    using category = Foo;
};
struct Foo1 : Foo {
    template<class R>
    struct fn : Noting<81>::fn<R> {};
};
struct Foo2 : Foo {
    template<class R>
    struct fn : Noting<82>::fn<R> {};
};
struct Foo3 : Foo1 {
    template<class R>
    struct fn : Noting<83>::fn<R> {};
};
struct Bar {
    using category = Bar;
};
struct Bar1 : Bar {
    template<class R>
    struct fn {};
};
struct Tags {
    using category = Tags;
};
template<int N> // a different registry for each
struct Tag : Tags {
    template<class R>
    struct fn {};
};

// ---------------------------------------------------------------------------
// codes

template<class P>
struct Code;
#define CODE(N, ...) \
    template<> \
    struct Code<__VA_ARGS__> { \
        static constexpr int value = N; \
    };
struct MapFn {
    template<class K, class V>
    using fn = std::map<K, V>;
};
CODE(11, pol::std_rtti)
CODE(12, MyRtti)
CODE(13, MyDeferred)
CODE(21, pol::vptr_vector)
CODE(22, pol::vptr_map<>)
CODE(23, pol::vptr_map<MapFn>)
CODE(24, MyVptr)
CODE(25, MyVector)
CODE(31, pol::fast_perfect_hash)
CODE(32, MyHash)
CODE(41, pol::default_error_handler)
CODE(42, pol::throw_error_handler)
CODE(43, MyHandler)
CODE(51, pol::stderr_output)
CODE(52, MyOutput)
CODE(61, pol::runtime_checks)
CODE(71, pol::indirect_vptr)
CODE(81, Foo1)
CODE(82, Foo2)
CODE(83, Foo3)
CODE(91, Bar1)
template<int N>
struct Code<Tag<N>> {
    static constexpr int value = 101;
};

// which policy a metafunction belongs to
template<class R, class Fn>
int fn_code() {
    int found = 0;
    mp11::mp_for_each<mp11::mp_transform<mp11::mp_identity, typename R::policy_list>>([&](auto p) {
        using P = typename decltype(p)::type;
        if (std::is_same_v<typename P::template fn<typename R::registry_type>, Fn>) {
            found = Code<P>::value;
        }
    });
    return found;
}

template<class R>
void describe(const char* how) {
    fprintf(out, "{%s,\"got\":[", how);
    const char* sep = "";
    mp11::mp_for_each<mp11::mp_transform<mp11::mp_identity, typename R::policy_list>>([&](auto p) {
        fprintf(out, "%s%d", sep, Code<typename decltype(p)::type>::value);
        sep = ",";
    });
    auto found = [&](int key, int code) { fprintf(out, "%s[%d,%d]", sep, key, code); sep = ","; };
    fprintf(out, "],\"found\":[");
    sep = "";
#define FOUND(K, ...) found(K, fn_code<R, typename R::template policy<__VA_ARGS__>>())
    found(1, fn_code<R, typename R::rtti>());
    found(2, fn_code<R, typename R::vptr>());
    FOUND(1, pol::rtti);
    FOUND(2, pol::vptr);
    FOUND(3, pol::type_hash);
    found(4, fn_code<R, typename R::error_handler>());
    FOUND(4, pol::error_handler);
    found(5, fn_code<R, typename R::output>());
    FOUND(5, pol::output);
    FOUND(6, pol::runtime_checks);
    FOUND(7, pol::indirect_vptr);
    FOUND(8, Foo);
    FOUND(9, Bar);
    FOUND(81, Foo1);
    FOUND(82, Foo2);
    FOUND(14, pol::deferred_static_rtti);
    FOUND(21, pol::vptr_vector);
    FOUND(24, MyVptr);
    auto b = [](bool x) { return x ? "true" : "false"; };
    fprintf(out, "],\"flags\":[%s,%s,%s,%s,%s,%s]}\n", b(R::has_vptr), b(R::has_error_handler),
            b(R::has_output), b(R::has_deferred_static_rtti), b(R::has_runtime_checks),
            b(R::has_indirect_vptr));
}

// ---------------------------------------------------------------------------
// use of a registry

template<class R>
struct A : Numbered {
    virtual ~A() {
    }
};
template<class R>
struct B : A<R> {};
template<class R>
struct C : A<R> {};
template<class R>
struct D : B<R> {};

// in a registry without a vptr policy, objects are asked
template<class R>
auto boost_openmethod_vptr(const A<R>& a, R*)
    -> std::enable_if_t<!R::has_vptr, vptr_type> {
    return typeid(a) == typeid(B<R>) ? R::template static_vptr<B<R>>
        : typeid(a) == typeid(C<R>)  ? R::template static_vptr<C<R>>
                                     : R::template static_vptr<A<R>>;
}

template<class R, int K>
using Cls = std::conditional_t<K == 1, A<R>, std::conditional_t<K == 2, B<R>, C<R>>>;

struct MethodId1;
struct MethodId2;
struct MethodId3;
struct MethodId4;

template<class R>
struct World {
    using VP = bom::virtual_ptr<A<R>, R>;
    // method 1: one parameter; 2: two.  With virtual_: v; with virtual_ptr: p
    using M1v = bom::method<MethodId1, int(bom::virtual_<A<R>&>), R>;
    using M1p = bom::method<MethodId2, int(VP), R>;
    using M2v = bom::method<MethodId3, int(bom::virtual_<A<R>&>, int, bom::virtual_<const A<R>&>), R>;
    using M2p = bom::method<MethodId4, int(VP, int, bom::virtual_<A<R>&>), R>;

    template<int N, int K>
    static int f1v(Cls<R, K>&) { return N; }
    template<int N, int K>
    static int f1p(bom::virtual_ptr<Cls<R, K>, R>) { return N; }
    template<int N, int K, int L>
    static int f2v(Cls<R, K>&, int x, const Cls<R, L>&) { return x == 7 ? N : -99; }
    template<int N, int K, int L>
    static int f2p(bom::virtual_ptr<Cls<R, K>, R>, int x, Cls<R, L>&) { return x == 7 ? N : -99; }
};

// make a call in a child process
template<class F>
void call(const char* what, F f) {
    memset(g, 0, sizeof *g);
    fflush(out);
    int fds[2];
    if (pipe(fds)) {
        _exit(9);
    }
    auto child = fork();
    if (child == 0) {
        dup2(fds[1], 2);
        close(fds[0]);
        close(fds[1]);
        g->how = 4;
        try {
            g->res = f();
            g->how = 1;
        } catch (Thrown&) {
            g->how = 2;
        } catch (std::runtime_error&) {
            g->how = 3;
        }
        _exit(0);
    }
    close(fds[1]);
    char buf[4000];
    long total = 0, k;
    while ((k = read(fds[0], buf, sizeof buf)) > 0) {
        total += k;
    }
    close(fds[0]);
    int status;
    waitpid(child, &status, 0);
    if (g->how == 4 && !(WIFSIGNALED(status) && WTERMSIG(status) == SIGABRT)) {
        g->how = 5;
    }
    fprintf(out, "{\"op\":\"call\",%s,\"how\":%d,\"res\":%d,\"deliv\":[", what, g->how, g->res);
    for (int i = 0; i < g->n_deliv; ++i) {
        fprintf(out, "%s%d", i ? "," : "", g->deliv[i]);
    }
    fprintf(out, "],\"wrote\":[%s%s%s],", total ? "51" : "", total && g->wrote52 ? "," : "",
            g->wrote52 ? "52" : "");
}

inline void log_out() {
    fprintf(out, "\"log\":[");
    for (int i = 0; i < g->n_log; ++i) {
        auto& e = g->log[i];
        fprintf(out, "%s{\"p\":%d,\"f\":\"%s\",\"o\":%d,\"bad\":%d,\"opts\":[", i ? "," : "", e.p, e.f,
                e.o, e.bad);
        for (int j = 0; j < e.n_opts; ++j) {
            fprintf(out, "%s%d", j ? "," : "", e.opts[j]);
        }
        fprintf(out, "],\"classes\":[");
        for (int j = 0; j < e.n_classes; ++j) {
            fprintf(out, "%s%d", j ? "," : "", e.classes[j]);
        }
        fprintf(out, "]}");
    }
    fprintf(out, "]}\n");
}

template<class R>
struct Objects {
    A<R> a;
    B<R> b;
    C<R> c;
    D<R> d;
    A<R>* at(int k) {
        return k == 1 ? &a : k == 2 ? &b : k == 3 ? &c : static_cast<A<R>*>(&d);
    }
};

// Is the call specified (see Policies!Specified)?
template<class R>
bool possible(bool on, int c1, int c2) {
    return (on || R::has_runtime_checks) &&
        ((c1 != 4 && c2 != 4) || (on && R::has_runtime_checks && R::has_vptr));
}

template<class R>
void skipped(const char* what) {
    fprintf(out, "{\"op\":\"call\",%s,\"how\":0,\"res\":0,\"deliv\":[],\"wrote\":[],\"log\":[]}\n", what);
}

template<class R>
void calls(bool on) {
    using W = World<R>;
    static Objects<R> x[2];
    for (int i = 0; i < 2; ++i) {
        for (int k = 1; k <= 4; ++k) {
            x[i].at(k)->num = 10 * k + i;
        }
    }
    char what[200];
    auto one = [&](const char* v, int c, auto f) {
        snprintf(what, sizeof what, "\"m\":1,\"v\":[%s],\"args\":[%d],\"objs\":[%d]", v, c, 10 * c);
        if (possible<R>(on, c, c)) {
            call(what, f);
            log_out();
        } else {
            skipped<R>(what);
        }
    };
    auto two = [&](const char* v, int c1, int c2, auto f) {
        snprintf(what, sizeof what, "\"m\":2,\"v\":[%s],\"args\":[%d,%d],\"objs\":[%d,%d]", v, c1, c2,
                 10 * c1, 10 * c2 + 1);
        if (possible<R>(on, c1, c2)) {
            call(what, f);
            log_out();
        } else {
            skipped<R>(what);
        }
    };
    for (int c = 1; c <= 4; ++c) {
        auto& o = *x[0].at(c);
        one("0", c, [&] { return W::M1v::fn(o); });
        one("1", c, [&] { return W::M1p::fn(o); });
        if (on && c != 4) {
            typename W::VP p(o);
            one("2", c, [&] { return W::M1p::fn(p); });
        }
        for (int d = 1; d <= 4; ++d) {
            auto& q = *x[1].at(d);
            if (c == 4 && d == 4) {
                continue;
            }
            two("0,0", c, d, [&] { return W::M2v::fn(o, 7, q); });
            two("1,0", c, d, [&] { return W::M2p::fn(o, 7, q); });
            if (on && c != 4) {
                typename W::VP p(o);
                two("2,0", c, d, [&] { return W::M2p::fn(p, 7, q); });
            }
        }
    }
}

template<class R>
void prepare() {
    g_class_of<typename R::registry_type> = class_of<R>;
    g_vptr_of<typename R::registry_type> = vptr_of<R>;
    static bom::use_classes<A<R>, B<R>, C<R>, R> classes;
}

template<class... Opts>
void begin_log() {
    memset(g, 0, sizeof *g);
}

template<class R, class... Opts>
void init(const char* opts, Opts... o) {
    memset(g, 0, sizeof *g);
    bom::initialize<R>(o...);
    fprintf(out, "{\"op\":\"init\",\"opts\":[%s],", opts);
    log_out();
}

template<class R, class... Opts>
void fini(const char* opts, Opts... o) {
    memset(g, 0, sizeof *g);
    bom::finalize<R>(o...);
    fprintf(out, "{\"op\":\"fini\",\"opts\":[%s],", opts);
    log_out();
}

inline void start(const char* file) {
    out = fopen(file, "w");
    g = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
                                  MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    fprintf(out, "{\"op\":\"reset\"}\n");
}

} // namespace compose

#endif
