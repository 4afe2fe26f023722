// Support for generated programs that observe how arguments and results are
// passed.  Events are those of spec/TraceArgs.tla.

#ifndef PASS_HPP
#define PASS_HPP

#include "prog.hpp"
#include <set>
#include <type_traits>

namespace pass {

using prog::out;

// ---------------------------------------------------------------------------
// ordinary values

inline int g_live = 0, g_ids = 0;

struct Tracker {
    int id, copies = 0;
    explicit Tracker(int id) : id(id) {
        ++g_live;
    }
    Tracker(const Tracker& o) : id(o.id), copies(o.copies + 1) {
        ++g_live;
    }
    Tracker(Tracker&& o) noexcept : id(o.id), copies(o.copies) {
        o.id = 0;
        ++g_live;
    }
    Tracker& operator=(const Tracker&) = delete;
    ~Tracker() {
        --g_live;
    }
};

struct Mover {
    int id, copies = 0;
    explicit Mover(int id) : id(id) {
        ++g_live;
    }
    Mover(Mover&& o) noexcept : id(o.id) {
        o.id = 0;
        ++g_live;
    }
    Mover& operator=(Mover&&) = delete;
    ~Mover() {
        --g_live;
    }
};

struct Fixed {
    int id, copies = 0;
    explicit Fixed(int id) : id(id) {
        ++g_live;
    }
    Fixed(Fixed&&) = delete;
    ~Fixed() {
        --g_live;
    }
};

struct Boom {};

// ---------------------------------------------------------------------------
// objects: who owns them

inline std::map<int, prog::Obj*> g_objs; // of the current site
inline std::set<int> g_dead;
inline int g_double = 0;
inline std::map<int, std::weak_ptr<void>> g_weak;

// called by the destructor of the most derived class
template<class T>
void dying(int cls, T* p) {
    auto o = prog::find(cls, p);
    if (!o || o->cls != cls + 1) {
        return;
    }
    if (!g_objs.count(o->num)) {
        return;
    }
    g_double += !g_dead.insert(o->num).second;
    for (int c = 0; c < prog::MAXC; ++c) {
        if (o->as[c]) {
            auto i = prog::g_at.find({c, o->as[c]});
            if (i != prog::g_at.end() && i->second == o) {
                prog::g_at.erase(i);
            }
        }
    }
}

inline long owners(prog::Obj* o) {
    auto w = g_weak.find(o->num);
    if (w != g_weak.end()) {
        return w->second.use_count();
    }
    return o->refs > 0 ? o->refs : 1;
}

inline int addr(const volatile void* p) {
    static std::map<const volatile void*, int> seen;
    auto i = seen.emplace(p, int(seen.size()) + 1);
    return i.first->second;
}

struct Held {
    virtual ~Held() = default;
};
template<class T>
struct Holder : Held {
    T value;
    explicit Holder(T&& v) : value(std::move(v)) {
    }
};
inline std::vector<std::unique_ptr<Held>> g_sink;
template<class T>
void sink(T&& v) {
    g_sink.emplace_back(new Holder<std::remove_reference_t<T>>(std::move(v)));
}

// ---------------------------------------------------------------------------
// observations

inline std::string ob(int o, int c, int a, long u, int same) {
    return "{\"o\":" + std::to_string(o) + ",\"c\":" + std::to_string(c) +
        ",\"a\":" + std::to_string(a) + ",\"u\":" + std::to_string(u) +
        ",\"same\":" + std::to_string(same) + "}";
}

inline std::string obj(int cls, const volatile void* p) {
    return ob(p ? prog::ident(cls, p) : 0, 0, 0, 0, 0);
}

template<class P>
std::string own(int cls, const P& p, int same) {
    auto q = p.get();
    auto o = q ? prog::find(cls, q) : nullptr;
    // -1: not null, but it does not point to an object that is alive
    return ob(q ? (o ? o->num : -1) : 0, 0, addr(&p), o ? owners(o) : 0, same);
}

template<class T>
std::string trk(const T& t) {
    return ob(t.id, t.copies, addr(&t), 0, 0);
}

inline std::string join(std::initializer_list<std::string> l) {
    std::string s;
    for (auto& x : l) {
        s += (s.empty() ? "" : ",") + x;
    }
    return s;
}

// ---------------------------------------------------------------------------
// behaviour of the overriders that are called

struct Plan {
    int follow = 0;     // 1: call next; 2: only if there is one
    bool boom = false;  // exit by an exception
    unsigned steal = 0; // take what parameters hold
};
inline Plan plan;

inline std::string dead() {
    std::string s;
    for (int n : g_dead) {
        s += (s.empty() ? "" : ",") + std::to_string(n);
    }
    return s;
}

inline void site() {
    g_objs.clear();
    g_dead.clear();
    g_weak.clear();
    g_double = 0;
    fprintf(out, "{\"op\":\"site\"}\n");
}

inline void var(const char* ty, int o, const volatile void* p) {
    fprintf(
        out, "{\"op\":\"var\",\"ty\":\"%s\",\"o\":%d,\"a\":%d}\n", ty, o,
        addr(p));
}

inline void enter(int ov, const std::string& ps) {
    fprintf(out, "{\"op\":\"enter\",\"ov\":%d,\"p\":[%s]}\n", ov, ps.c_str());
}

inline void steal(int i) {
    fprintf(out, "{\"op\":\"steal\",\"i\":%d}\n", i);
}

inline std::string ret(const char* k, int o, int c, const volatile void* a) {
    return std::string("{\"k\":\"") + k + "\",\"o\":" + std::to_string(o) +
        ",\"c\":" + std::to_string(c) +
        ",\"a\":" + std::to_string(a ? addr(a) : 0) + "}";
}

inline void leave(const std::string& ps, const std::string& r) {
    fprintf(
        out, "{\"op\":\"leave\",\"p\":[%s],\"ret\":%s}\n", ps.c_str(),
        r.c_str());
}

inline void gone(const std::string& ps) {
    fprintf(out, "{\"op\":\"throw\",\"p\":[%s]}\n", ps.c_str());
}

inline void caught() {
    fprintf(out, "{\"op\":\"caught\"}\n");
}

inline void back(const char* op, const std::string& r) {
    fprintf(out, "{\"op\":\"%s\",\"ret\":%s}\n", op, r.c_str());
}

inline void after(const std::string& vs) {
    fprintf(
        out,
        "{\"op\":\"after\",\"vars\":[%s],\"dead\":[%s],\"dd\":%d,\"live\":%d}"
        "\n",
        vs.c_str(), dead().c_str(), g_double, g_live);
}

inline void drop() {
    fprintf(
        out, "{\"op\":\"drop\",\"dead\":[%s],\"dd\":%d}\n", dead().c_str(),
        g_double);
    g_sink.clear();
    fprintf(
        out, "{\"op\":\"flush\",\"dead\":[%s],\"dd\":%d,\"live\":%d}\n",
        dead().c_str(), g_double, g_live);
    fflush(out);
}

} // namespace pass

#endif
