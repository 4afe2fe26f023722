// Diagnostics: several registries, initialized with all forms of options and
// values of the environment variable; what is written to their outputs, to
// stdout and to stderr is captured.  The oracle is spec/Diagnostics.tla.
//
// Compile with -fno-lifetime-dse (see engine_shape.cpp).

#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <new>
#include <sstream>
#include <string>
#include <vector>

#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>

#include <boost/openmethod.hpp>
#include <boost/openmethod/initialize.hpp>
#include <boost/openmethod/policies/vptr_map.hpp>
#include <boost/openmethod/policies/throw_error_handler.hpp>

namespace bom = boost::openmethod;
namespace pol = bom::policies;

constexpr int NREG = 5;
static std::size_t g_len[NREG];

template<int N>
struct cap_stream {
    cap_stream& operator<<(const char* s) {
        g_len[N] += strlen(s) + 1;
        return *this;
    }
    cap_stream& operator<<(const std::string_view& s) {
        g_len[N] += s.size() + 1;
        return *this;
    }
    cap_stream& operator<<(const void*) {
        ++g_len[N];
        return *this;
    }
    cap_stream& operator<<(std::size_t) {
        ++g_len[N];
        return *this;
    }
    template<typename R, typename... A>
    cap_stream& operator<<(R (*)(A...)) {
        ++g_len[N];
        return *this;
    }
};
template<int N>
struct cap_output : pol::output {
    template<class Registry>
    struct fn {
        inline static cap_stream<N> os;
    };
};

using D0 = bom::default_registry; // stderr
struct D1 : bom::registry<
                pol::std_rtti, pol::vptr_map<>, pol::default_error_handler,
                cap_output<1>> {};
struct D2 : bom::registry<
                pol::std_rtti, pol::vptr_vector, pol::fast_perfect_hash,
                pol::throw_error_handler, cap_output<2>, pol::indirect_vptr,
                pol::runtime_checks> {};
struct D3 : bom::registry<
                pol::std_rtti, pol::vptr_vector, pol::fast_perfect_hash,
                pol::default_error_handler> {};
struct D4 : bom::registry<
                pol::std_rtti, pol::vptr_map<>, pol::throw_error_handler,
                pol::stderr_output, pol::runtime_checks> {};

struct X {
    virtual ~X() {
    }
};
struct Y : X {};
struct Z : X {};
struct V {
    virtual ~V() {
    }
};
static X x;
static Y y;
static Z z;

template<class R>
struct Methods {
    struct N1;
    struct N2;
    struct N3;
    struct N4;
    template<class T>
    using P = bom::virtual_ptr<T, R>;
    using f = bom::method<N1, int(P<X>, P<X>), R>;
    using g = bom::method<N2, int(P<X>), R>;
    using h = bom::method<N3, int(P<X>), R>;
    using w = bom::method<N4, int(bom::virtual_<V&>), R>;
    static int f_xy(P<X>, P<Y>) {
        return 1;
    }
    static int f_yx(P<Y>, P<X>) {
        return 2;
    }
    static int g_y(P<Y>) {
        return 3;
    }
    static int h_x(P<X>) {
        return 4;
    }
    static int h_y(P<Y> p) {
        return 10 + h::template next<h_y>(p);
    }
    static int w_v(V&) {
        return 5;
    }
    inline static typename f::template override<f_xy, f_yx> r1;
    inline static typename g::template override<g_y> r2;
    inline static typename h::template override<h_x, h_y> r3;
    inline static typename w::template override<w_v> r4;
    inline static bom::use_classes<X, Y, Z, R> cl;
    static void keep() {
        (void)&r1;
        (void)&r2;
        (void)&r3;
        (void)&r4;
        (void)&cl;
    }
};

template<class T>
struct Store {
    alignas(T) inline static char buf[sizeof(T)];
    inline static bool on = false;
    static void set(bool v) {
        if (v && !on) {
            new (buf) T();
        } else if (!v && on) {
            reinterpret_cast<T*>(buf)->~T();
        }
        on = v;
    }
};

struct Failed {
    int code;
};
template<class F>
static int guard(F f) {
    try {
        return f();
    } catch (Failed& e) {
        return e.code;
    } catch (bom::no_overrider&) {
        return -20;
    } catch (bom::ambiguous_call&) {
        return -21;
    } catch (bom::missing_class&) {
        return -22;
    } catch (bom::not_initialized&) {
        return -23;
    } catch (...) {
        return -29;
    }
}

struct Rep {
    std::size_t cells, ni, amb;
};
struct IReg {
    virtual ~IReg() {
    }
    virtual int init(int form, Rep& rep) = 0;
    virtual void fini() = 0;
    virtual void bad(bool) = 0;
    virtual int call(int k) = 0;
};

template<class R>
struct Reg : IReg {
    using M = Methods<R>;
    using cv = bom::use_classes<V, R>;
    Reg() {
        M::keep();
        set_handler();
    }
    static void set_handler() {
        if constexpr (!std::is_same_v<R, D2> && !std::is_same_v<R, D4>) {
            R::error_handler::set([](const auto& e) {
                std::visit(
                    [](const auto& e) {
                        using E = std::decay_t<decltype(e)>;
                        throw Failed{
                            std::is_same_v<E, bom::no_overrider>         ? -20
                                : std::is_same_v<E, bom::ambiguous_call> ? -21
                                : std::is_same_v<E, bom::missing_class>  ? -22
                                : std::is_same_v<E, bom::not_initialized>
                                ? -23
                                : -29};
                    },
                    e);
            });
        }
    }
    void bad(bool b) override {
        Store<cv>::set(!b);
    }
    void fini() override {
        bom::finalize<R>();
    }
    template<class C>
    static int take(Rep& rep, C&& c) {
        rep = {c.report.cells, c.report.not_implemented, c.report.ambiguous};
        return 1;
    }
    int init(int form, Rep& rep) override {
        return guard([&] { return init_(form, rep); });
    }
    int init_(int form, Rep& rep) {
        using bom::initialize;
        using bom::n2216;
        using bom::trace;
        bool no = false, yes = true;
        n2216 n;
        const n2216 cn{};
        switch (form) {
        case 0:
            return take(rep, initialize<R>());
        case 1:
            return take(rep, initialize<R>(n2216()));
        case 2:
            return take(rep, initialize<R>(n));
        case 3:
            return take(rep, initialize<R>(cn));
        }
        if constexpr (!std::is_same_v<R, D3>) {
            trace ton(yes), toff(no), tenv = trace::from_env();
            const trace cton(true), ctoff(false), ctenv = trace::from_env();
            switch (form) {
            case 4:
                return take(rep, initialize<R>(trace()));
            case 5:
                return take(rep, initialize<R>(trace(true)));
            case 6:
                return take(rep, initialize<R>(trace(false)));
            case 7:
                return take(rep, initialize<R>(trace::from_env()));
            case 8:
                return take(rep, initialize<R>(ton));
            case 9:
                return take(rep, initialize<R>(toff));
            case 10:
                return take(rep, initialize<R>(tenv));
            case 11:
                return take(rep, initialize<R>(cton));
            case 12:
                return take(rep, initialize<R>(ctoff));
            case 13:
                return take(rep, initialize<R>(ctenv));
            case 14:
                return take(rep, initialize<R>(n2216(), trace(true)));
            case 15:
                return take(rep, initialize<R>(trace(false), n2216()));
            case 16:
                return take(rep, initialize<R>(trace::from_env(), n2216()));
            case 17:
                return take(rep, initialize<R>(n, ctenv));
            case 18:
                return take(rep, initialize<R>(cton, cn));
            case 19:
                return take(rep, initialize<R>(n2216(), toff));
            }
        }
        return init_(form % 4, rep);
    }
    int call(int k) override {
        using VP = bom::virtual_ptr<X, R>;
        return guard([&] {
            switch (k) {
            case 0:
                return M::f::fn(VP(y), VP(y));
            case 1:
                return M::f::fn(VP(y), VP(z));
            case 2:
                return M::f::fn(VP(x), VP(y));
            case 3:
                return M::f::fn(VP(z), VP(x));
            case 4:
                return M::g::fn(VP(x));
            case 5:
                return M::g::fn(VP(y));
            case 6:
                return M::h::fn(VP(z));
            default:
                return M::h::fn(VP(y));
            }
        });
    }
};

static FILE* out;
static int fds[3];

static std::size_t drained(int fd) {
    off_t n = lseek(fds[fd], 0, SEEK_END);
    if (ftruncate(fds[fd], 0)) {
    }
    lseek(fds[fd], 0, SEEK_SET);
    return std::size_t(n);
}
// how much was written since the last time
static void written() {
    fflush(stdout);
    fflush(stderr);
    fprintf(out, "\"w\":[");
    for (auto& n : g_len) {
        fprintf(out, "%s%zu", &n == g_len ? "" : ",", n);
        n = 0;
    }
    std::size_t o = drained(1), e = drained(2);
    fprintf(out, "],\"o\":%zu,\"e\":%zu}\n", o, e);
    fflush(out);
}

int main(int argc, char** argv) {
    if (argc < 3) {
        return 2;
    }
    static Reg<D0> r0;
    static Reg<D1> r1;
    static Reg<D2> r2;
    static Reg<D3> r3;
    static Reg<D4> r4;
    IReg* reg[NREG] = {&r0, &r1, &r2, &r3, &r4};
    out = fopen(argv[2], "w");
    for (int fd : {1, 2}) {
        fds[fd] = memfd_create("captured", 0);
        dup2(fds[fd], fd);
    }
    std::ifstream in(argv[1]);
    for (std::string l; std::getline(in, l);) {
        std::istringstream is(l);
        std::string op;
        int r = 0, k = 0;
        is >> op;
        if (op == "R") {
            for (auto p : reg) {
                p->bad(false);
                p->fini();
            }
            unsetenv("BOOST_OPENMETHOD_TRACE");
            fprintf(out, "{\"op\":\"reset\",");
            written();
        } else if (op == "env") {
            // env N text: N = 0 unsets it
            is >> k;
            std::string v = l.size() > 6 ? l.substr(6) : "";
            k ? setenv("BOOST_OPENMETHOD_TRACE", v.c_str(), 1)
              : unsetenv("BOOST_OPENMETHOD_TRACE");
            fprintf(out, "{\"op\":\"env\",\"set\":%d,\"v\":\"%s\"}\n", k,
                    v.c_str());
        } else if (op == "bad") {
            is >> r >> k;
            reg[r]->bad(k);
            fprintf(out, "{\"op\":\"bad\",\"r\":%d,\"x\":%d}\n", r, k);
        } else if (op == "init") {
            is >> r >> k;
            Rep rep{0, 0, 0};
            int x = reg[r]->init(k, rep);
            fprintf(out,
                    "{\"op\":\"init\",\"r\":%d,\"form\":%d,\"x\":%d,\"rep\":["
                    "%zu,%zu,%zu],",
                    r, k, x, rep.cells, rep.ni, rep.amb);
            written();
        } else if (op == "fini") {
            is >> r;
            reg[r]->fini();
            fprintf(out, "{\"op\":\"fini\",\"r\":%d,", r);
            written();
        } else if (op == "calls") {
            is >> r;
            fprintf(out, "{\"op\":\"calls\",\"r\":%d,\"x\":[", r);
            for (int i = 0; i < 8; ++i) {
                fprintf(out, "%s%d", i ? "," : "", reg[r]->call(i));
            }
            fprintf(out, "],");
            written();
        }
    }
    fprintf(out, "{\"op\":\"end\"}\n");
    fclose(out);
}
