// Runtime scenario engine: what the script runner and the engines share.
// This part does not include the library.

#ifndef ENGINE_IFACE_HPP
#define ENGINE_IFACE_HPP

#include <cstddef>
#include <cstdint>
#include <string>
#include <unordered_map>
#include <vector>

using tid = const void*;

// ---------------------------------------------------------------------------
// run-time type ids

constexpr int MAXCLS = 24;  // scenario classes are 1..MAXCLS
constexpr int MAXALIAS = 4; // each may have several type ids
inline tid g_tid[MAXCLS + 1][MAXALIAS];
inline std::unordered_map<tid, int> g_cls_of; // type id -> class
inline bool g_alias_on = false;

inline int cls_of(tid t) {
    auto i = g_cls_of.find(t);
    return i == g_cls_of.end() ? 0 : i->second;
}

struct Obj {
    tid id;
    int serial;
};

inline std::string g_out;            // captured by the output policy
inline bool g_policy_fail = false;   // VARIANT 6: make the vptr policy throw
struct PolicyFailure {};

// ---------------------------------------------------------------------------
// shapes: how many methods, with how many virtual parameters and overriders

struct MS {
    int arity, k;
};

constexpr int NSHAPES = 15;
constexpr int NUNITS = 24;

// ---------------------------------------------------------------------------
// per-call observation

struct CallLog {
    std::vector<int> chain; // k1, has_next1, k2, has_next2, ...
    std::vector<const Obj*> args;
    int x = 7777;
    int bad = 0; // arguments that were not those of the call
    bool follow = true;
};
inline CallLog g;
inline int g_handler_calls = 0;
inline int g_pipe = -1; // >= 0: the error handler returns; it reports here

void report_byte(char c);

struct Thrown {
    int code; // see err_code
    std::vector<tid> types;
    std::size_t arity = 0;
    tid method = nullptr;
};

enum {
    E_RETURNED = 1,
    E_NOOV = 0,
    E_AMB = -1,
    E_MISSING_CLASS = -2,
    E_NOT_INIT = -3,
    E_MISSING_BASE = -4,
    E_SEARCH = -5,
    E_FINAL = -6,
    E_POLICY = -7,
    E_OTHER = -9
};

struct IEngine {
    virtual ~IEngine() = default;
    virtual int n_methods() = 0;
    virtual MS ms(int m) = 0;
    virtual void set_param(int m, int i, tid t) = 0;
    virtual void set_ret(int m, tid t) = 0;
    virtual void set_ov_param(int m, int k, int i, tid t) = 0;
    virtual void set_ov_ret(int m, int k, tid t) = 0;
    virtual void make_unit(int u, int n, tid d, const tid* b) = 0;
    virtual void drop_unit(int u) = 0;
    virtual std::string init(int opts) = 0;
    virtual void finalize() = 0;
    virtual int call(int m, const std::vector<const Obj*>& a) = 0;
    virtual tid method_id(int m) = 0;
};

IEngine* make_engine(int shape);

#endif
