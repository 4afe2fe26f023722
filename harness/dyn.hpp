// Support for the programs made of several libraries generated by
// tools/dyngen.py.  The main program loads and unloads libraries (real shared
// objects), initializes and finalizes the registry, and makes calls, following a
// script; events are those of spec/TraceRegistry.tla.

#ifndef DYN_HPP
#define DYN_HPP

#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <sstream>
#include <string>
#include <vector>

namespace dyn {

struct Rec {
    int d;
    std::vector<int> b;
};
struct Ov {
    int id, method;
    std::vector<int> sig;
};
struct Meth {
    int id;
    std::vector<int> p;
    int (*call)(void** args, int x);
    bool (*is)(const void* type);
};
struct Lib {
    int id;
    std::vector<Rec> recs;
    std::vector<Meth> meths;
    std::vector<Ov> ovs;
};

// exported by the main program
struct Log {
    std::vector<int> chain; // ids of overriders, has_next
    std::vector<const void*> args;
    int x = 0, bad = 0;
    bool follow = false;
};
extern Log log;
void add(Lib* lib);
void remove(Lib* lib);

// a Lib that exists while the library is loaded
struct Loaded : Lib {
    Loaded(Lib&& l) : Lib(l) {
        add(this);
    }
    ~Loaded() {
        remove(this);
    }
};

inline void
enter(int id, bool has_next, int x, std::initializer_list<const void*> got) {
    log.chain.push_back(id);
    log.chain.push_back(has_next);
    if (x != log.x || std::vector<const void*>(got) != log.args) {
        ++log.bad;
    }
}
inline bool proceed() {
    return log.follow && log.chain.size() < 64;
}

} // namespace dyn

#endif
