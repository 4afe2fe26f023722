// Support for generated programs that make calls on objects being
// constructed and destroyed.  Events are those of spec/TraceInplace.tla.

#ifndef LIFE_HPP
#define LIFE_HPP

#include "prog.hpp"
#include <set>

namespace life {

using prog::out;

struct Boom {};

// where to throw: class * 4 + 0 (before the bases), 1 (from a member),
// 2 (from the body), 3 (after a delegated constructor)
inline int boom = -1;
inline void maybe(int cls, int at) {
    if (boom == cls * 4 + at) {
        boom = -1;
        throw Boom();
    }
}

// A block of memory that contains an object.
struct Block {
    int num, cls;
    char* begin;
    std::size_t size;
    void* as[prog::MAXC]; // subobjects that are set up
    bool complete;
};

inline std::map<int, Block*> g_blocks;
inline int g_nums = 0;

inline Block* of(const volatile void* p) {
    for (auto& b : g_blocks) {
        if (p >= b.second->begin && p < b.second->begin + b.second->size) {
            return b.second;
        }
    }
    return nullptr;
}

inline int num(int cls, const volatile void* p) {
    auto b = of(p);
    return b && b->as[cls] == p ? b->num : 0;
}

inline void simple(const char* op, int o, int c) {
    fprintf(out, "{\"op\":\"%s\",\"o\":%d,\"c\":%d}\n", op, o, c);
}

inline Block* reserve(int cls, std::size_t size) {
    auto b = new Block{
        ++g_nums, cls, (char*)::operator new(size + 64), size, {}, false};
    std::memset(b->begin, 0x5a, size + 64);
    g_blocks[b->num] = b;
    simple("new", b->num, cls + 1);
    return b;
}

inline void release(Block* b) {
    simple("gone", b->num, b->cls + 1);
    g_blocks.erase(b->num);
    ::operator delete(b->begin);
    delete b;
}

// The generated program makes the calls.
// On the subobjects of cls only: what virtual functions do with the others,
// at that point, is undefined.
void calls(Block* b, int cls);
inline bool g_quiet = true;

inline void point(void* p, int cls) {
    if (!g_quiet) {
        calls(of(p), cls);
    }
}

// The first member of each class.
template<int Cls, class Self>
struct Probe {
    Self* self;

    void up() {
        auto b = of(this);
        b->as[Cls] = self;
        simple("set", b->num, Cls + 1);
        point(this, Cls);
        maybe_throw();
    }
    void maybe_throw() {
        if (boom == Cls * 4 + 1) {
            boom = -1;
            down();
            throw Boom();
        }
    }
    void down() {
        point(this, Cls);
        auto b = of(this);
        simple("unset", b->num, Cls + 1);
        b->as[Cls] = nullptr;
    }

    explicit Probe(Self* self) : self(self) {
        up();
    }
    Probe(const Probe& o)
        : self((Self*)((char*)this - ((char*)&o - (char*)o.self))) {
        up();
    }
    Probe& operator=(const Probe&) {
        return *this;
    }
    ~Probe() {
        down();
    }
};

struct Row : prog::Row {
    std::vector<int> v; // according to virtual functions
};

inline bool g_first;
inline void rows_begin(int m) {
    fprintf(out, "{\"op\":\"lcalls\",\"s\":0,\"m\":%d,\"t\":[", m);
    g_first = true;
}

inline void row(const std::vector<std::pair<int, int>>& a, const Row& r) {
    fprintf(out, "%s{\"a\":[", g_first ? "" : ",");
    g_first = false;
    for (std::size_t i = 0; i < a.size(); ++i) {
        fprintf(out, "%s[%d,%d]", i ? "," : "", a[i].first, a[i].second);
    }
    fprintf(out, "],");
    prog::list("k", prog::g.chain);
    fprintf(
        out, ",\"x\":%d,\"r\":%d,\"h\":%d,\"bad\":%d,", r.x, r.r, r.h,
        prog::g.bad);
    prog::list("ty", r.ty);
    fprintf(out, ",");
    prog::list("v", r.v);
    fprintf(out, ",\"e\":%d,\"n\":%d}", r.e, r.n);
}

inline void rows_end() {
    fprintf(out, "]}\n");
    fflush(out);
}

} // namespace life

#endif
