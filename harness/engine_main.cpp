// Runtime scenario engine: script runner.
//
// usage: engine script out.ndjson
//
// One op per line:
//   R scn              reset: drop all units of all engines, finalize them
//   E shape            the following ops are about this engine (registry)
//   T c a v            type id v for alias a of class c
//   A 0|1              the aliases of a class are one class
//                      (rtti::type_index), or not
//   B                  begin: freeze type ids
//   G n                group n: the events that follow must be the same as
//                      those of the other groups (see TraceOrder.tla)
//   P m p.. r          method m (1-based): parameter classes, return class
//   O m k p.. r        overrider k of method m
//   U u n d b..        make unit u with n bases (class * 10 + alias)
//   X u                drop unit u
//   I opts             initialize (1: n2216, 2: trace(true), 4: trace(false),
//                      8: the vptr policy fails)
//   J opts             initialize in a child process, with an error handler
//                      that returns
//   F                  finalize
//   C m n a.. (n tuples of class*10+alias)   call and follow next
//   D m n a..          same, do not follow next
//   K m a..            one call in a child process, with an error handler that
//                      returns
// Each op emits one event (T, A, P, O are folded in the next "cfg" event,
// emitted on I if anything changed).

#include "engine_iface.hpp"

#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <sys/wait.h>
#include <unistd.h>

#include <sys/resource.h>

template<int>
IEngine* make_engine_for();

// The shapes linked in.
#ifndef SHAPES
#define SHAPES 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14
#endif

static IEngine* engines[NSHAPES];

template<int... I>
static void make_all(std::integer_sequence<int, I...>) {
    ((engines[I] = make_engine_for<I>()), ...);
}

void report_byte(char c) {
    ssize_t r = write(g_pipe, &c, 1);
    (void)r;
}

struct MCfg {
    std::vector<int> p;
    int r = 0;
    std::vector<std::vector<int>> ov;
    std::vector<int> ovr;
};

struct State {
    std::vector<MCfg> cfg;
    bool dirty = false;
};

static State state[NSHAPES];

// Run f in a child process whose error handler returns. Prints what the child
// did: bytes reported, and how it ended ("abort", "exit", "signal").
template<class F>
static void in_child(FILE* outf, F&& f) {
    int fd[2];
    if (pipe(fd)) {
        exit(2);
    }
    fflush(outf);
    pid_t pid = fork();
    if (pid == 0) {
        rlimit rl{0, 0};
        setrlimit(RLIMIT_CORE, &rl);
        close(fd[0]);
        int null = open("/dev/null", 1);
        dup2(null, 2);
        g_pipe = fd[1];
        try {
            f();
        } catch (...) {
            report_byte('t');
        }
        report_byte('r');
        _exit(0);
    }
    close(fd[1]);
    std::string s;
    char buf[256];
    ssize_t n;
    while ((n = read(fd[0], buf, sizeof buf)) > 0) {
        s.append(buf, n);
    }
    close(fd[0]);
    int status = 0;
    waitpid(pid, &status, 0);
    const char* end = WIFSIGNALED(status)
        ? (WTERMSIG(status) == SIGABRT ? "abort" : "signal")
        : "exit";
    // h<code>: handler calls, as codes
    fprintf(outf, "\"end\":\"%s\",\"h\":[", end);
    int ran = 0, ret = 0;
    const char* sep = "";
    for (std::size_t i = 0; i < s.size(); ++i) {
        if (s[i] == 'h' && i + 1 < s.size()) {
            fprintf(outf, "%s%d", sep, 'A' - s[i + 1]);
            sep = ",";
            ++i;
        } else if (s[i] == 'o') {
            ++ran;
        } else {
            ++ret;
        }
    }
    fprintf(outf, "],\"ran\":%d,\"ret\":%d}\n", ran, ret);
}

int main(int argc, char** argv) {
    make_all(std::integer_sequence<int, SHAPES>());
    FILE* in = argc > 1 ? fopen(argv[1], "r") : stdin;
    FILE* outf = argc > 2 ? fopen(argv[2], "w") : stdout;
    if (!in || !outf) {
        return 2;
    }
    IEngine* e = nullptr;
    int s = 0;
    char* line = nullptr;
    std::size_t cap = 0;
    static Obj objs[MAXCLS + 1][MAXALIAS][8];

    auto flush_cfg = [&] {
        auto& cfg = state[s].cfg;
        if (!state[s].dirty) {
            return;
        }
        state[s].dirty = false;
        fprintf(outf, "{\"op\":\"cfg\",\"s\":%d,\"M\":[", s);
        for (std::size_t m = 0; m < cfg.size(); ++m) {
            fprintf(outf, "%s{\"p\":[", m ? "," : "");
            for (std::size_t i = 0; i < cfg[m].p.size(); ++i) {
                fprintf(outf, "%s%d", i ? "," : "", cfg[m].p[i]);
            }
            fprintf(outf, "],\"r\":%d,\"o\":[", cfg[m].r);
            for (std::size_t k = 0; k < cfg[m].ov.size(); ++k) {
                fprintf(outf, "%s[", k ? "," : "");
                for (std::size_t i = 0; i < cfg[m].ov[k].size(); ++i) {
                    fprintf(outf, "%s%d", i ? "," : "", cfg[m].ov[k][i]);
                }
                fprintf(outf, "]");
            }
            fprintf(outf, "],\"or\":[");
            for (std::size_t k = 0; k < cfg[m].ovr.size(); ++k) {
                fprintf(outf, "%s%d", k ? "," : "", cfg[m].ovr[k]);
            }
            fprintf(outf, "]}");
        }
        fprintf(outf, "]}\n");
    };

    while (getline(&line, &cap, in) > 0) {
        std::vector<long> v;
        char* p = line + 1;
        char op = line[0];
        for (;;) {
            char* end;
            long x = strtol(p, &end, 10);
            if (end == p) {
                break;
            }
            v.push_back(x);
            p = end;
        }
        auto& cfg = state[s].cfg;
        switch (op) {
        case 'R': {
            for (int i = 0; i < NSHAPES; ++i) {
                if (!engines[i]) {
                    continue;
                }
                for (int u = 0; u < NUNITS; ++u) {
                    engines[i]->drop_unit(u);
                }
                engines[i]->finalize();
                int n = engines[i]->n_methods();
                state[i].dirty = false;
                state[i].cfg.assign(n, {});
                for (int m = 0; m < n; ++m) {
                    auto ms = engines[i]->ms(m);
                    state[i].cfg[m].p.resize(ms.arity);
                    state[i].cfg[m].ov.resize(ms.k);
                    state[i].cfg[m].ovr.resize(ms.k);
                }
            }
            g_policy_fail = false;
            g_cls_of.clear();
            g_alias_on = false;
            for (int c = 0; c <= MAXCLS; ++c) {
                for (int a = 0; a < MAXALIAS; ++a) {
                    g_tid[c][a] = reinterpret_cast<tid>(
                        std::size_t(c + a * (MAXCLS + 1)));
                }
            }
            fprintf(outf, "{\"op\":\"reset\",\"scn\":%ld,\"s\":-1}\n", v[0]);
            break;
        }
        case 'E':
            s = int(v[0]);
            e = engines[s];
            if (!e) {
                return 3;
            }
            break;
        case 'G':
            fprintf(outf, "{\"op\":\"group\",\"n\":%ld,\"s\":%d}\n", v[0], s);
            break;
        case 'T':
            g_tid[v[0]][v[1]] = reinterpret_cast<tid>(std::size_t(v[2]));
            break;
        case 'A':
            g_alias_on = v[0];
            break;
        case 'B':
            g_cls_of.clear();
            for (int c = 1; c <= MAXCLS; ++c) {
                for (int a = 0; a < MAXALIAS; ++a) {
                    g_cls_of[g_tid[c][a]] = c;
                    for (auto& o : objs[c][a]) {
                        o.id = g_tid[c][a];
                    }
                }
            }
            break;
        case 'P': {
            int m = v[0] - 1;
            int n = e->ms(m).arity;
            for (int i = 0; i < n; ++i) {
                cfg[m].p[i] = v[1 + i];
                e->set_param(m, i, g_tid[v[1 + i]][0]);
            }
            cfg[m].r = v[1 + n];
            // class 0: not a class
            e->set_ret(m, v[1 + n] ? g_tid[v[1 + n]][0] : nullptr);
            state[s].dirty = true;
            break;
        }
        case 'O': {
            int m = v[0] - 1, k = v[1] - 1;
            int n = e->ms(m).arity;
            cfg[m].ov[k].resize(n);
            for (int i = 0; i < n; ++i) {
                cfg[m].ov[k][i] = v[2 + i];
                e->set_ov_param(m, k, i, g_tid[v[2 + i]][0]);
            }
            cfg[m].ovr[k] = v[2 + n];
            e->set_ov_ret(m, k, v[2 + n] ? g_tid[v[2 + n]][0] : nullptr);
            state[s].dirty = true;
            break;
        }
        case 'U': {
            int u = v[0] - 1, n = v[1];
            tid b[3];
            // class*10 + alias
            auto id = [&](long x) { return g_tid[x / 10][x % 10]; };
            for (int i = 0; i < n; ++i) {
                b[i] = id(v[3 + i]);
            }
            e->make_unit(u, n, id(v[2]), b);
            fprintf(
                outf, "{\"op\":\"unit\",\"s\":%d,\"u\":%d,\"d\":%ld,\"b\":[", s,
                u + 1, v[2]);
            for (int i = 0; i < n; ++i) {
                fprintf(outf, "%s%ld", i ? "," : "", v[3 + i]);
            }
            fprintf(outf, "]}\n");
            break;
        }
        case 'X':
            e->drop_unit(v[0] - 1);
            fprintf(outf, "{\"op\":\"drop\",\"s\":%d,\"u\":%ld}\n", s, v[0]);
            break;
        case 'I': {
            flush_cfg();
            fflush(outf);
            g_out.clear();
            g_policy_fail = v[0] & 8;
            int hc = g_handler_calls;
            try {
                auto r = e->init(v[0] & 7);
                fprintf(
                    outf,
                    "{\"op\":\"init\",\"s\":%d,\"opt\":%ld,\"out\":1,\"ty\":[],"
                    "%s,\"len\":%zu,\"hc\":%d}\n",
                    s, v[0], r.c_str(), g_out.size(), g_handler_calls - hc);
            } catch (const Thrown& t) {
                fprintf(
                    outf,
                    "{\"op\":\"init\",\"s\":%d,\"opt\":%ld,\"out\":%d,\"ty\":[",
                    s, v[0], t.code);
                for (std::size_t i = 0; i < t.types.size(); ++i) {
                    fprintf(outf, "%s%d", i ? "," : "", cls_of(t.types[i]));
                }
                fprintf(
                    outf, "],\"len\":%zu,\"hc\":%d}\n", g_out.size(),
                    g_handler_calls - hc);
            } catch (const PolicyFailure&) {
                fprintf(
                    outf,
                    "{\"op\":\"init\",\"s\":%d,\"opt\":%ld,\"out\":%d,\"ty\":[]"
                    ",\"len\":%zu,\"hc\":%d}\n",
                    s, v[0], E_POLICY, g_out.size(), g_handler_calls - hc);
            }
            g_policy_fail = false;
            break;
        }
        case 'J':
            flush_cfg();
            fprintf(
                outf, "{\"op\":\"abinit\",\"s\":%d,\"opt\":%ld,", s, v[0]);
            in_child(outf, [&] { e->init(v[0] & 7); });
            break;
        case 'F':
            e->finalize();
            fprintf(outf, "{\"op\":\"fin\",\"s\":%d}\n", s);
            break;
        case 'K': {
            int m = v[0] - 1;
            int ar = e->ms(m).arity;
            g.chain.clear();
            g.args.clear();
            g.bad = 0;
            g.follow = false;
            g.x = 7777;
            fprintf(
                outf, "{\"op\":\"abcall\",\"s\":%d,\"m\":%d,\"a\":[", s,
                m + 1);
            for (int i = 0; i < ar; ++i) {
                long a = v[1 + i];
                g.args.push_back(&objs[a / 10][a % 10][i]);
                fprintf(outf, "%s%ld", i ? "," : "", a);
            }
            fprintf(outf, "],");
            in_child(outf, [&] { e->call(m, g.args); });
            break;
        }
        case 'C':
        case 'D': {
            int m = v[0] - 1;
            int n = v[1];
            int ar = e->ms(m).arity;
            fprintf(
                outf, "{\"op\":\"calls\",\"s\":%d,\"m\":%d,\"f\":%d,\"t\":[", s,
                m + 1, op == 'C');
            for (int t = 0; t < n; ++t) {
                g.chain.clear();
                g.args.clear();
                g.bad = 0;
                g.follow = op == 'C';
                g.x = 7777 + t;
                fprintf(outf, "%s{\"a\":[", t ? "," : "");
                for (int i = 0; i < ar; ++i) {
                    long a = v[2 + t * ar + i];
                    g.args.push_back(&objs[a / 10][a % 10][i]);
                    fprintf(outf, "%s%ld", i ? "," : "", a);
                }
                fflush(outf);
                int term, ret = 0, method = 0;
                std::size_t arity = 0;
                std::vector<tid> ty;
                int hc = g_handler_calls;
                try {
                    ret = e->call(m, g.args) - 999;
                    term = E_RETURNED;
                } catch (const Thrown& th) {
                    term = th.code;
                    ty = th.types;
                    arity = th.arity;
                    if (th.method) {
                        method = -1;
                        for (int i = 0; i < e->n_methods(); ++i) {
                            if (th.method == e->method_id(i)) {
                                method = i + 1;
                            }
                        }
                    }
                }
                fprintf(outf, "],\"k\":[");
                for (std::size_t i = 0; i < g.chain.size(); ++i) {
                    fprintf(outf, "%s%d", i ? "," : "", g.chain[i]);
                }
                // r: what the call returned; e: method reported; n: arity
                // reported; h: calls of the error handler
                fprintf(
                    outf, "],\"x\":%d,\"r\":%d,\"e\":%d,\"n\":%zu,\"h\":%d,"
                          "\"ty\":[",
                    term, ret, method, arity, g_handler_calls - hc);
                for (std::size_t i = 0; i < ty.size(); ++i) {
                    fprintf(outf, "%s%d", i ? "," : "", cls_of(ty[i]));
                }
                fprintf(outf, "],\"bad\":%d}", g.bad);
            }
            fprintf(outf, "]}\n");
            break;
        }
        }
        fflush(outf);
    }
    fprintf(outf, "{\"op\":\"end\",\"s\":-1}\n");
    fclose(outf);
    return 0;
}
