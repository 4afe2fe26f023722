// The main program (see dyn.hpp).  Included after the classes and methods;
// `reg`, `NCLS`, `upcast` and `class_of` are defined before.

#include <dlfcn.h>
#include <map>
#include <set>
#include <algorithm>

namespace dyn {

Log log;
static std::vector<Lib*> live;
static std::map<int, int> unit_of; // records get distinct numbers
static FILE* out;
static bool g_started;

static std::string ints(const std::vector<int>& v, int mul = 1) {
    std::string s = "[";
    for (auto x : v) {
        s += (s.size() > 1 ? "," : "") + std::to_string(x * mul);
    }
    return s + "]";
}

static int unit(int lib, std::size_t k) {
    return lib * 100 + int(k);
}

static void event_add(Lib* l) {
    for (std::size_t k = 0; k < l->recs.size(); ++k) {
        fprintf(out, "{\"op\":\"unit\",\"s\":0,\"u\":%d,\"d\":%d,\"b\":%s}\n",
                unit(l->id, k), l->recs[k].d * 10,
                ints(l->recs[k].b, 10).c_str());
    }
}

void add(Lib* l) {
    live.push_back(l);
    if (g_started) {
        event_add(l);
    }
}
void remove(Lib* l) {
    live.erase(std::find(live.begin(), live.end(), l));
    if (g_started) {
        for (std::size_t k = 0; k < l->recs.size(); ++k) {
            fprintf(out, "{\"op\":\"drop\",\"s\":0,\"u\":%d}\n", unit(l->id, k));
        }
    }
}

// what was published by the last successful initialize
struct Published {
    std::vector<Meth> meths;
    std::vector<std::vector<int>> ovs; // per method
    std::vector<Rec> recs;
};
static Published pub, cur;

static void configure() {
    cur = Published();
    for (auto l : live) {
        for (auto& m : l->meths) {
            cur.meths.push_back(m);
        }
        cur.recs.insert(cur.recs.end(), l->recs.begin(), l->recs.end());
    }
    std::string M;
    for (auto& m : cur.meths) {
        std::vector<int> ids;
        std::string o, r;
        for (auto l : live) {
            for (auto& ov : l->ovs) {
                if (ov.method == m.id) {
                    ids.push_back(ov.id);
                    o += (o.empty() ? "" : ",") + ints(ov.sig);
                    r += r.empty() ? "0" : ",0";
                }
            }
        }
        cur.ovs.push_back(ids);
        M += (M.empty() ? "" : ",") + ("{\"p\":" + ints(m.p)) +
            ",\"r\":0,\"o\":[" + o + "],\"or\":[" + r + "]}";
    }
    fprintf(out, "{\"op\":\"cfg\",\"s\":0,\"M\":[%s]}\n", M.c_str());
}

struct Seen {
    int x = 1, r = 0, h = 0, e = 0, n = 0;
    std::vector<int> ty;
};

template<class F>
static Seen observe(F f) {
    Seen s;
    auto bad = [&](const bom::bad_call& e, int x) {
        s.x = x;
        s.h = 1;
        s.n = int(e.arity);
        s.e = -1;
        for (std::size_t i = 0; i < pub.meths.size(); ++i) {
            if (pub.meths[i].is(e.method)) {
                s.e = int(i) + 1;
            }
        }
        for (std::size_t i = 0; i < e.arity; ++i) {
            s.ty.push_back(class_of(e.types[i]));
        }
    };
    try {
        s.r = f();
    } catch (const bom::no_overrider& e) {
        bad(e, 0);
    } catch (const bom::ambiguous_call& e) {
        bad(e, -1);
    } catch (const bom::missing_class& e) {
        s.x = -2;
        s.h = 1;
        s.ty = {class_of(e.type)};
    } catch (const bom::missing_base& e) {
        s.x = -4;
        s.h = 1;
        s.ty = {class_of(e.base), class_of(e.derived)};
    } catch (const bom::not_initialized&) {
        s.x = -3;
        s.h = 1;
    } catch (const bom::openmethod_error&) {
        s.x = -9;
        s.h = 1;
    }
    return s;
}

static int pos(const std::vector<int>& v, int x) {
    auto i = std::find(v.begin(), v.end(), x);
    return i == v.end() ? 99 : int(i - v.begin()) + 1;
}

static unsigned g_rand;
static unsigned rnd(unsigned n) {
    g_rand = g_rand * 1664525u + 1013904223u;
    return (g_rand >> 8) % n;
}

// d and its bases as published; empty if d was not registered
static std::set<int> bases(int d) {
    std::set<int> up;
    std::vector<int> todo{d};
    bool known = false;
    while (!todo.empty()) {
        int x = todo.back();
        todo.pop_back();
        if (!up.insert(x).second) {
            continue;
        }
        for (auto& r : pub.recs) {
            known = known || r.d == d;
            if (r.d == x) {
                todo.insert(todo.end(), r.b.begin(), r.b.end());
            }
        }
    }
    return known ? up : std::set<int>();
}

// calls of all the methods, with all the combinations of arguments, or `max` of
// them; objects of classes not registered too, if `unknown`
static void calls(int follow, unsigned max, bool unknown) {
    for (std::size_t m = 0; m < pub.meths.size(); ++m) {
        auto& M = pub.meths[m];
        std::vector<std::vector<int>> subs;
        unsigned total = 1;
        for (int p : M.p) {
            subs.emplace_back();
            for (int d = 1; d <= NCLS; ++d) {
                // an argument of a class registered without its relation to
                // the class of the parameter is an error in the program
                auto up = bases(d);
                if (upcast(p, d) &&
                    (up.empty() ? unknown : bool(up.count(p)))) {
                    subs.back().push_back(d);
                }
            }
            total *= unsigned(subs.back().size());
        }
        if (!total) {
            continue;
        }
        fprintf(out, "{\"op\":\"calls\",\"s\":0,\"m\":%d,\"f\":%d,\"t\":[",
                int(m) + 1, follow);
        for (unsigned k = 0; k < (total < max ? total : max); ++k) {
            unsigned code = total <= max ? k : rnd(total);
            std::vector<int> a;
            void* args[4];
            log = Log();
            for (std::size_t i = 0; i < subs.size(); ++i) {
                int d = subs[i][code % subs[i].size()];
                code /= unsigned(subs[i].size());
                a.push_back(d);
                args[i] = upcast(M.p[i], d);
                log.args.push_back(upcast(d, d));
            }
            log.follow = follow;
            log.x = int(rnd(10000));
            Seen s = observe([&] { return M.call(args, log.x); });
            auto chain = log.chain;
            for (std::size_t i = 0; i < chain.size(); i += 2) {
                chain[i] = pos(pub.ovs[m], chain[i]);
            }
            int r = s.x == 1 ? pos(pub.ovs[m], s.r - 1000) : 0;
            fprintf(out,
                    "%s{\"a\":%s,\"k\":%s,\"x\":%d,\"r\":%d,\"h\":%d,\"bad\":%d,"
                    "\"ty\":%s,\"e\":%d,\"n\":%d}",
                    k ? "," : "", ints(a, 10).c_str(), ints(chain).c_str(), s.x,
                    r, s.h, log.bad, ints(s.ty).c_str(), s.e, s.n);
        }
        fprintf(out, "]}\n");
        fflush(out);
    }
}

static int main_(int argc, char** argv) {
    if (argc < 3) {
        return 2;
    }
    std::string dir(argc > 3 ? argv[3] : ".");
    out = fopen(argv[2], "w");
    std::map<int, void*> handles;
    std::ifstream in(argv[1]);
    for (std::string l; std::getline(in, l);) {
        std::istringstream is(l);
        std::string op;
        int a = 0, b = 0, c = 0;
        is >> op >> a >> b >> c;
        if (op == "R") {
            g_started = false;
            for (auto& h : handles) {
                dlclose(h.second);
            }
            handles.clear();
            bom::finalize<reg>();
            pub = Published();
            g_started = true;
            fprintf(out, "{\"op\":\"reset\",\"scn\":%d,\"s\":-1}\n", a);
            for (auto x : live) {
                event_add(x);
            }
            g_rand = unsigned(a);
        } else if (op == "L") {
            void* h =
                dlopen((dir + "/lib" + std::to_string(a) + ".so").c_str(),
                       RTLD_NOW | RTLD_LOCAL);
            if (!h) {
                fprintf(stderr, "%s\n", dlerror());
                return 4;
            }
            handles[a] = h;
        } else if (op == "X") {
            dlclose(handles[a]);
            handles.erase(a);
        } else if (op == "I") {
            configure();
            int cells = 0, ni = 0, amb = 0;
            Seen s = observe([&] {
                auto take = [&](const auto& c) {
                    cells = int(c.report.cells);
                    ni = int(c.report.not_implemented);
                    amb = int(c.report.ambiguous);
                };
                if (a) {
                    take(bom::initialize<reg>(bom::n2216()));
                } else {
                    take(bom::initialize<reg>());
                }
                return 1;
            });
            if (s.x == 1) {
                pub = cur;
            }
            fprintf(out,
                    "{\"op\":\"init\",\"s\":0,\"opt\":%d,\"out\":%d,\"ty\":%s,"
                    "\"cells\":%d,\"ni\":%d,\"amb\":%d,\"len\":0,\"hc\":%d}\n",
                    a, s.x, ints(s.ty).c_str(), cells, ni, amb, s.h);
        } else if (op == "F") {
            bom::finalize<reg>();
            fprintf(out, "{\"op\":\"fin\",\"s\":0}\n");
        } else if (op == "C") {
            calls(a, unsigned(b), c);
        }
        fflush(out);
    }
    fprintf(out, "{\"op\":\"end\",\"s\":-1}\n");
    fclose(out);
    std::_Exit(0);
}

} // namespace dyn

int main(int argc, char** argv) {
    return dyn::main_(argc, argv);
}
