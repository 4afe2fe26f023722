// Error handling: several registries that differ in how errors are handled,
// and a script of registrations, initializations, calls and changes of
// handlers.  Every operation that may end the program is first executed in a
// child process; what was observed there is in shared memory.  The oracle is
// spec/ErrorHandling.tla.
//
// Compile with -fno-lifetime-dse (see engine_shape.cpp).

#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <new>
#include <sstream>
#include <string>
#include <vector>
#include <variant>

#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

#include <boost/config.hpp>
#include <boost/openmethod/preamble.hpp>
#include <boost/openmethod/policies/std_rtti.hpp>
#include <boost/openmethod/policies/vptr_vector.hpp>
#include <boost/openmethod/policies/vptr_map.hpp>
#include <boost/openmethod/policies/fast_perfect_hash.hpp>
#include <boost/openmethod/policies/stderr_output.hpp>
#include <boost/openmethod/policies/default_error_handler.hpp>
#include <boost/openmethod/policies/throw_error_handler.hpp>

namespace bom = boost::openmethod;
namespace pol = bom::policies;
using bom::type_id;

constexpr int NREG = 7;

// ---------------------------------------------------------------------------
// What is observed during an operation

struct Delivery {
    int r, h, t, n;
    int ty[4];
};
struct Shared {
    int ended; // the operation came back
    int thrown, code;
    int n_del;
    Delivery del[16];
    int chain[16];
    int n_chain;
    unsigned out_len[NREG];
    char out[NREG][600];
    char what[600];
};
static Shared* g;
static bool g_policy_fail;

static void add_out(int r, const char* s, std::size_t n) {
    for (std::size_t i = 0; i < n && g->out_len[r] < 590; ++i) {
        g->out[r][g->out_len[r]++] = s[i];
    }
}

// ---------------------------------------------------------------------------
// Policies

template<int N>
struct cap_stream {
    cap_stream& operator<<(const char* s) {
        add_out(N, s, strlen(s));
        return *this;
    }
    cap_stream& operator<<(const std::string_view& s) {
        add_out(N, s.data(), s.size());
        return *this;
    }
    cap_stream& operator<<(const void*) {
        return *this << "0x";
    }
    cap_stream& operator<<(std::size_t v) {
        return *this << std::string_view(std::to_string(v));
    }
};
template<int N>
struct cap_output : pol::output {
    template<class Registry>
    struct fn {
        inline static cap_stream<N> os;
    };
};

struct policy_error : bom::openmethod_error {
    template<class Registry, class Stream>
    auto write(Stream& os) const {
        os << "policy failed";
    }
};

// A policy with an error of its own
template<class Base>
struct failing : pol::vptr {
    using errors = std::variant<policy_error>;
    template<class Registry>
    struct fn : Base::template fn<Registry> {
        using base = typename Base::template fn<Registry>;
        template<class Context, class... Options>
        static void
        initialize(const Context& ctx, const std::tuple<Options...>& options) {
            if (g_policy_fail) {
                if constexpr (Registry::has_error_handler) {
                    Registry::error_handler::error(policy_error());
                }
                abort();
            }
            base::initialize(ctx, options);
        }
    };
};

struct TypeOf {
    int t, n = 0;
    int ty[4] = {0, 0, 0, 0};
};
static int class_of(type_id t);
struct Classify {
    TypeOf operator()(const bom::no_overrider& e) const {
        return bad(0, e);
    }
    TypeOf operator()(const bom::ambiguous_call& e) const {
        return bad(-1, e);
    }
    TypeOf operator()(const bom::missing_class& e) const {
        return {-2, 1, {class_of(e.type)}};
    }
    TypeOf operator()(const bom::not_initialized&) const {
        return {-3};
    }
    TypeOf operator()(const bom::missing_base& e) const {
        return {-4, 2, {class_of(e.base), class_of(e.derived)}};
    }
    TypeOf operator()(const bom::final_error& e) const {
        return {-6, 2, {class_of(e.static_type), class_of(e.dynamic_type)}};
    }
    TypeOf operator()(const policy_error&) const {
        return {-7};
    }
    template<class T>
    TypeOf operator()(const T&) const {
        return {-9};
    }

  private:
    template<class E>
    static TypeOf bad(int t, const E& e) {
        TypeOf o{t, int(e.arity)};
        for (int i = 0; i < 4 && i < o.n; ++i) {
            o.ty[i] = class_of(e.types[i]);
        }
        return o;
    }
};

static void delivered(int r, int h, const TypeOf& t) {
    if (g->n_del < 16) {
        Delivery& d = g->del[g->n_del++];
        d.r = r;
        d.h = h;
        d.t = t.t;
        d.n = t.n;
        memcpy(d.ty, t.ty, sizeof(d.ty));
    }
}

// A handler policy of the user
static int g_own; // what it does
template<int N>
struct own_handler : pol::error_handler {
    template<class Registry>
    struct fn {
        template<class Error>
        static void error(const Error& e) {
            delivered(N, 50, Classify()(e));
            if (g_own) {
                throw 50;
            }
        }
    };
};

using map_vptr = failing<pol::vptr_map<>>;
using hash_vptr = failing<pol::vptr_vector>;

struct R0 : bom::registry<
                pol::std_rtti, map_vptr, pol::default_error_handler,
                cap_output<0>, pol::runtime_checks> {
    static constexpr int index = 0;
};
struct R1 : bom::registry<
                pol::std_rtti, hash_vptr, pol::fast_perfect_hash,
                pol::default_error_handler, pol::stderr_output,
                pol::indirect_vptr, pol::runtime_checks> {
    static constexpr int index = 1;
};
struct R2 : bom::registry<
                pol::std_rtti, map_vptr, pol::default_error_handler,
                pol::runtime_checks> {
    static constexpr int index = 2;
};
struct R3 : bom::registry<
                pol::std_rtti, map_vptr, pol::throw_error_handler,
                cap_output<3>, pol::runtime_checks> {
    static constexpr int index = 3;
};
struct R4 : bom::registry<
                pol::std_rtti, map_vptr, cap_output<4>, pol::runtime_checks> {
    static constexpr int index = 4;
};
struct R5 : bom::registry<
                pol::std_rtti, hash_vptr, pol::fast_perfect_hash, own_handler<5>,
                cap_output<5>, pol::runtime_checks> {
    static constexpr int index = 5;
};
struct R6 : R0::with<cap_output<6>, pol::indirect_vptr> {
    static constexpr int index = 6;
};

namespace boost::openmethod {
struct dummy_default : registry<policies::std_rtti> {};
}
#define BOOST_OPENMETHOD_DEFAULT_REGISTRY boost::openmethod::dummy_default
#include <boost/openmethod/core.hpp>
#include <boost/openmethod/initialize.hpp>

// ---------------------------------------------------------------------------
// Classes.  U is never registered, V and Y sometimes not, or without bases.

struct Class_A {
    virtual ~Class_A() {
    }
};
using A = Class_A;
struct Class_B : A {};
using B = Class_B;
struct Class_C : B {};
using C = Class_C;
struct Class_U : A {};
using U = Class_U;
struct Class_V {
    virtual ~Class_V() {
    }
};
using V = Class_V;
struct Class_W {
    virtual ~Class_W() {
    }
};
using W = Class_W;
struct Class_Y : W {};
using Y = Class_Y;

static int class_of(type_id t) {
    auto& i = *reinterpret_cast<const std::type_info*>(t);
    return i == typeid(A) ? 1 : i == typeid(B) ? 2 : i == typeid(C) ? 3
        : i == typeid(U)  ? 4
        : i == typeid(V)  ? 5
        : i == typeid(W)  ? 6
        : i == typeid(Y)  ? 7
                          : 99;
}

static A a;
static B b;
static C c;
static U u;
static V v;
static Y y;

static void ran(int k) {
    if (g->n_chain < 16) {
        g->chain[g->n_chain++] = k;
    }
}

// Methods, in each registry:
//  m1: overriders for B and C; both call next
//  m2: overriders for (B, A), (A, B)
//  m3: by reference; overrider for A
//  mv: V; mw: overrider for Y
template<class R>
struct Methods {
    struct N1;
    struct N2;
    struct N3;
    struct NV;
    struct NW;
    template<class T>
    using P = bom::virtual_ptr<T, R>;
    using m1 = bom::method<N1, int(P<A>), R>;
    using m2 = bom::method<N2, int(P<A>, int, P<A>), R>;
    using m3 = bom::method<N3, int(bom::virtual_<A&>), R>;
    using mv = bom::method<NV, int(bom::virtual_<V&>), R>;
    using mw = bom::method<NW, int(bom::virtual_<W&>), R>;
    static int m1_b(P<B> x) {
        ran(1);
        return m1::template next<m1_b>(x);
    }
    static int m1_c(P<C> x) {
        ran(2);
        return m1::template next<m1_c>(x);
    }
    static int m2_ba(P<B>, int i, P<A>) {
        ran(3);
        return i;
    }
    static int m2_ab(P<A>, int i, P<B>) {
        ran(4);
        return i;
    }
    static int m3_a(A&) {
        ran(5);
        return 35;
    }
    static int mv_v(V&) {
        ran(6);
        return 36;
    }
    static int mw_y(Y&) {
        ran(7);
        return 37;
    }
    inline static typename m1::template override<m1_b, m1_c> r1;
    inline static typename m2::template override<m2_ba, m2_ab> r2;
    inline static typename m3::template override<m3_a> r3;
    inline static typename mv::template override<mv_v> rv;
    inline static typename mw::template override<mw_y> rw;
    inline static bom::use_classes<A, B, C, R> cl;
    static void keep() {
        (void)&r1;
        (void)&r2;
        (void)&r3;
        (void)&rv;
        (void)&rw;
        (void)&cl;
    }
};

template<class T>
struct Store {
    alignas(T) inline static char buf[sizeof(T)];
    inline static bool on = false;
    static void set(bool x) {
        if (x && !on) {
            new (buf) T();
        } else if (!x && on) {
            reinterpret_cast<T*>(buf)->~T();
        }
        on = x;
    }
};

// ---------------------------------------------------------------------------

struct Thrown {
    int code;
};

struct IReg {
    virtual ~IReg() {
    }
    virtual int set(int h) = 0;
    virtual int restore() = 0;
    virtual void put(int bad) = 0;
    virtual void init() = 0;
    virtual void fini() = 0;
    virtual int call(int e) = 0;
    virtual void error(int e) = 0;
    virtual std::string text(int e) = 0;
};
static IReg* reg[NREG];

template<class R, class = void>
struct Handlers {
    static int set(int) {
        return -9;
    }
    static int restore() {
        return -9;
    }
};

template<class R>
struct Handlers<
    R,
    std::void_t<typename R::error_handler::function_type>> {
    using EH = typename R::error_handler;
    using function = typename EH::function_type;
    inline static function saved;
    inline static bool have = false;

    struct H {
        int id;
        void operator()(const typename EH::error_variant& e) const {
            delivered(R::index, id, std::visit(Classify(), e));
            switch (id) {
            case 1:
                throw Thrown{1};
            case 2:
                return;
            case 3:
                throw std::runtime_error("3");
            case 4:
                EH::set(H{1});
                throw Thrown{4};
            case 5: {
                // an error while one is handled
                auto old = EH::set(H{1});
                try {
                    reg[R::index]->call(1);
                } catch (Thrown&) {
                    ran(90);
                }
                EH::set(old);
                throw Thrown{5};
            }
            case 6:
                throw 6;
            case 7:
                EH::set(H{3});
                return;
            }
        }
    };
    static int id(const function& f) {
        if (!f) {
            return -1;
        }
        auto p = f.template target<H>();
        return p ? p->id : 0;
    }
    static int set(int h) {
        saved = EH::set(H{h});
        have = true;
        return id(saved);
    }
    // make current again the handler that was returned last
    static int restore() {
        if (!have) {
            return -9;
        }
        saved = EH::set(saved);
        return id(saved);
    }
};

template<class R>
struct Reg : IReg {
    using M = Methods<R>;
    using cv = bom::use_classes<V, R>;
    using cwy = bom::use_classes<W, Y, R>;
    using cw = bom::use_classes<W, R>;
    using cy = bom::use_classes<Y, R>;

    Reg() {
        reg[R::index] = this;
        M::keep();
    }
    int set(int h) override {
        return Handlers<R>::set(h);
    }
    int restore() override {
        return Handlers<R>::restore();
    }
    // 1: V is not registered  2: Y is not known to derive from W
    void put(int bad) override {
        Store<cv>::set(!(bad & 1));
        Store<cwy>::set(!(bad & 2));
        Store<cw>::set(bad & 2);
        Store<cy>::set(bad & 2);
    }
    void init() override {
        bom::initialize<R>();
    }
    void fini() override {
        bom::finalize<R>();
    }
    int call(int e) override {
        using VP = bom::virtual_ptr<A, R>;
        switch (e) {
        case 1:
            return M::m1::fn(VP(a));
        case 2:
            return M::m2::fn(VP(b), 7, VP(c));
        case 3:
            return M::m1::fn(VP(c));
        case 4: {
            VP p(u);
            return 4;
        }
        case 5:
            return M::m3::fn(u);
        case 6: {
            auto p = bom::final_virtual_ptr<R>(static_cast<A&>(b));
            (void)p;
            return 6;
        }
        case 7:
            return M::m3::fn(c);
        case 8:
            return M::m2::fn(VP(c), 7, VP(a));
        }
        return -1;
    }
    // an error reported by the program
    void error(int e) override {
        if constexpr (R::has_error_handler) {
            using EH = typename R::error_handler;
            if (e == 1) {
                EH::error(bom::not_initialized());
            } else if (e == 2) {
                bom::missing_class x;
                x.type = &typeid(U);
                EH::error(x);
            } else {
                EH::error(policy_error());
            }
        }
    }
    // the description of the error (made here)
    std::string text(int e) override {
        std::ostringstream os;
        auto w = [&](auto x) { x.template write<R>(os); };
        bom::missing_class mc;
        bom::missing_base mb;
        bom::final_error fe;
        bom::no_overrider no{};
        bom::ambiguous_call am{};
        mb.base = &typeid(W);
        mb.derived = &typeid(Y);
        fe.static_type = &typeid(A);
        fe.dynamic_type = &typeid(B);
        switch (e) {
        case 0:
            w(no);
            break;
        case 1:
            w(am);
            break;
        case 3:
            w(bom::not_initialized());
            break;
        case 4:
            w(mb);
            break;
        case 6:
            w(fe);
            break;
        case 7:
            w(policy_error());
            break;
        case 2:
            mc.type = &typeid(U);
            w(mc);
            break;
        case 5:
            mc.type = &typeid(V);
            w(mc);
            break;
        }
        return os.str();
    }
};

// ---------------------------------------------------------------------------

static FILE* out;
static int err_fd; // what is written to stderr

static void reset_shared() {
    memset(static_cast<void*>(g), 0, sizeof(*g));
    if (ftruncate(err_fd, 0)) {
    }
    lseek(err_fd, 0, SEEK_SET);
}

template<class E>
static bool caught(const E& e) {
    TypeOf t = Classify()(e);
    g->thrown = 100;
    delivered(3, 100, t);
    return true;
}

template<class F>
static void perform(F f) {
    try {
        g->code = f();
    } catch (Thrown& t) {
        g->thrown = t.code;
    } catch (int i) {
        g->thrown = i;
    } catch (std::runtime_error& e) {
        // by handler 3, or by throw_error_handler
        snprintf(g->what, sizeof(g->what), "%s", e.what());
        g->thrown = 3;
        try {
            throw;
        } catch (bom::no_overrider& x) {
            caught(x);
        } catch (bom::ambiguous_call& x) {
            caught(x);
        } catch (bom::missing_class& x) {
            caught(x);
        } catch (bom::not_initialized& x) {
            caught(x);
        } catch (bom::missing_base& x) {
            caught(x);
        } catch (bom::final_error& x) {
            caught(x);
        } catch (policy_error& x) {
            caught(x);
        } catch (bom::openmethod_error&) {
            g->thrown = 199;
        } catch (...) {
        }
    } catch (...) {
        g->thrown = 999;
    }
    g->ended = 1;
}

static std::string quote(const char* s, std::size_t n) {
    std::string r = "\"";
    char buf[8];
    for (std::size_t i = 0; i < n; ++i) {
        unsigned char k = static_cast<unsigned char>(s[i]);
        if (k == '"' || k == '\\' || k < 32 || k > 126) {
            snprintf(buf, sizeof(buf), "\\u%04x", k);
            r += buf;
        } else {
            r += char(k);
        }
    }
    return r + "\"";
}

static void write_obs(const char* how) {
    // stderr is the output of registry 1
    char buf[590];
    lseek(err_fd, 0, SEEK_SET);
    ssize_t n = read(err_fd, buf, sizeof(buf));
    if (n > 0) {
        add_out(1, buf, n);
    }
    fprintf(out, "\"how\":\"%s\",\"thrown\":%d,\"code\":%d,\"del\":[", how,
            g->thrown, g->code);
    for (int i = 0; i < g->n_del; ++i) {
        const Delivery& d = g->del[i];
        fprintf(out, "%s{\"r\":%d,\"h\":%d,\"t\":%d,\"ty\":[", i ? "," : "",
                d.r, d.h, d.t);
        for (int j = 0; j < d.n && j < 4; ++j) {
            fprintf(out, "%s%d", j ? "," : "", d.ty[j]);
        }
        fprintf(out, "]}");
    }
    fprintf(out, "],\"chain\":[");
    for (int i = 0; i < g->n_chain; ++i) {
        fprintf(out, "%s%d", i ? "," : "", g->chain[i]);
    }
    fprintf(out, "],\"what\":%s,\"out\":[",
            quote(g->what, strlen(g->what)).c_str());
    for (int i = 0; i < NREG; ++i) {
        fprintf(out, "%s%s", i ? "," : "",
                quote(g->out[i], g->out_len[i]).c_str());
    }
    fprintf(out, "]}\n");
    fflush(out);
}

template<class F>
static void attempt(F f) {
    reset_shared();
    fflush(out);
    pid_t pid = fork();
    if (pid == 0) {
        perform(f);
        _exit(0);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && g->ended) {
        reset_shared();
        perform(f);
        write_obs("back");
        return;
    }
    std::string how = WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT ? "abort"
        : WIFSIGNALED(st) ? "signal " + std::to_string(WTERMSIG(st))
                          : "exit";
    write_obs(how.c_str());
}

// every scenario is run in a process of its own
static void scenario(const std::vector<std::string>& lines) {
    fprintf(out, "{\"op\":\"reset\",\"texts\":[");
    for (int r = 0; r < NREG; ++r) {
        fprintf(out, "%s[", r ? "," : "");
        for (int e = 0; e < 8; ++e) {
            std::string s = reg[r]->text(e);
            fprintf(out, "%s%s", e ? "," : "", quote(s.data(), s.size()).c_str());
        }
        fprintf(out, "]");
    }
    fprintf(out, "],\"names\":[");
    const std::type_info* ti[] = {&typeid(A), &typeid(B), &typeid(C), &typeid(U),
                                  &typeid(V), &typeid(W), &typeid(Y)};
    for (int i = 0; i < 7; ++i) {
        std::ostringstream os;
        R0::rtti::type_name(type_id(ti[i]), os);
        fprintf(out, "%s\"%s\"", i ? "," : "", os.str().c_str());
    }
    fprintf(out, "]}\n");
    for (auto& r : reg) {
        r->put(0);
    }
    for (auto& l : lines) {
        std::istringstream is(l);
        std::string op;
        int r = 0, x = 0;
        is >> op >> r >> x;
        if (op == "own") {
            g_own = r;
            fprintf(out, "{\"op\":\"own\",\"x\":%d}\n", r);
        } else if (op == "set" || op == "restore") {
            int p = op == "set" ? reg[r]->set(x) : reg[r]->restore();
            fprintf(out, "{\"op\":\"%s\",\"r\":%d,\"h\":%d,\"prev\":%d}\n",
                    op.c_str(), r, x, p);
        } else if (op == "put") {
            reg[r]->put(x);
            fprintf(out, "{\"op\":\"put\",\"r\":%d,\"x\":%d}\n", r, x);
        } else if (op == "out") {
            x ? R1::output::os.on() : R1::output::os.off();
            fprintf(out, "{\"op\":\"out\",\"x\":%d}\n", x);
        } else if (op == "init") {
            fprintf(out, "{\"op\":\"init\",\"r\":%d,\"pf\":%d,", r, x);
            attempt([&] {
                g_policy_fail = x;
                try {
                    reg[r]->init();
                } catch (...) {
                    g_policy_fail = false;
                    throw;
                }
                g_policy_fail = false;
                return 0;
            });
        } else if (op == "fini") {
            reg[r]->fini();
            fprintf(out, "{\"op\":\"fini\",\"r\":%d}\n", r);
        } else if (op == "error") {
            fprintf(out, "{\"op\":\"error\",\"r\":%d,\"e\":%d,", r, x);
            attempt([&] {
                reg[r]->error(x);
                return 0;
            });
        } else if (op == "call") {
            fprintf(out, "{\"op\":\"call\",\"r\":%d,\"e\":%d,", r, x);
            attempt([&] { return reg[r]->call(x); });
        }
    }
    fflush(out);
}

int main(int argc, char** argv) {
    if (argc < 3) {
        return 2;
    }
    static Reg<R0> r0;
    static Reg<R1> r1;
    static Reg<R2> r2;
    static Reg<R3> r3;
    static Reg<R4> r4;
    static Reg<R5> r5;
    static Reg<R6> r6;
    g = static_cast<Shared*>(
        mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
             MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    err_fd = memfd_create("stderr", 0);
    dup2(err_fd, 2);
    out = fopen(argv[2], "w");
    std::ifstream in(argv[1]);
    std::vector<std::vector<std::string>> scen;
    for (std::string l; std::getline(in, l);) {
        if (l == "R") {
            scen.emplace_back();
        } else if (!scen.empty()) {
            scen.back().push_back(l);
        }
    }
    for (auto& s : scen) {
        fflush(out);
        pid_t pid = fork();
        if (pid == 0) {
            scenario(s);
            _exit(0);
        }
        int st = 0;
        waitpid(pid, &st, 0);
        if (!WIFEXITED(st) || WEXITSTATUS(st)) {
            return 3;
        }
        fseek(out, 0, SEEK_END);
    }
    fprintf(out, "{\"op\":\"end\"}\n");
    fclose(out);
}
