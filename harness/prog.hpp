// Support for the programs generated by tools/proggen.py: identity of
// objects, log of calls, events.

#ifndef PROG_HPP
#define PROG_HPP

#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <initializer_list>
#include <map>
#include <memory>
#include <string>
#include <utility>
#include <vector>

namespace prog {

constexpr int MAXC = 16;

// An object of a generated class: where its base class subobjects are.
struct Obj {
    int num = 0, cls = 0;
    void* as[MAXC] = {};
    long refs = 0;
    std::shared_ptr<void> owner;
};

// (class, address of the subobject) -> object
inline std::map<std::pair<int, const volatile void*>, Obj*> g_at;
inline int g_nums = 0;

inline int ident(int cls, const volatile void* p) {
    auto i = g_at.find({cls, p});
    return i == g_at.end() ? 0 : i->second->num;
}

inline Obj* find(int cls, const volatile void* p) {
    auto i = g_at.find({cls, p});
    return i == g_at.end() ? nullptr : i->second;
}

struct Log {
    std::vector<int> chain;
    std::vector<int> args; // numbers of the objects that are passed
    std::vector<int> types;
    int bad = 0;
    int seq = 0;
    bool follow = false;
};
inline thread_local Log g;

inline void enter(int ov, bool has_next, std::initializer_list<int> ids,
                  std::initializer_list<int> plain) {
    g.chain.push_back(ov);
    g.chain.push_back(has_next);
    if (std::vector<int>(ids) != g.args) {
        ++g.bad;
    }
    for (int x : plain) {
        if (x != g.seq) {
            ++g.bad;
        }
    }
}

struct Row {
    int x = 1, r = 0, h = 0, e = 0, n = 0;
    std::vector<int> ty;
};

inline FILE* out;

inline void list(const char* name, const std::vector<int>& v) {
    fprintf(out, "\"%s\":[", name);
    for (std::size_t i = 0; i < v.size(); ++i) {
        fprintf(out, "%s%d", i ? "," : "", v[i]);
    }
    fprintf(out, "]");
}

inline bool g_first_row;

inline void rows_begin(int m, int f) {
    fprintf(out, "{\"op\":\"calls\",\"s\":0,\"m\":%d,\"f\":%d,\"t\":[", m, f);
    g_first_row = true;
}

inline void row(const Row& r) {
    fprintf(out, "%s{", g_first_row ? "" : ",");
    g_first_row = false;
    list("a", g.types);
    fprintf(out, ",");
    list("k", g.chain);
    fprintf(
        out, ",\"x\":%d,\"r\":%d,\"h\":%d,\"bad\":%d,", r.x, r.r, r.h, g.bad);
    list("ty", r.ty);
    fprintf(out, ",\"e\":%d,\"n\":%d}", r.e, r.n);
}

inline void rows_end() {
    fprintf(out, "]}\n");
    fflush(out);
}

} // namespace prog

#endif
