// Drives the type hash policy with arbitrary sets of type ids.
// usage: hash script out.ndjson
//   R                      reset
//   I r easy n id..        initialize registry r with n ids (decimal; a class
//                          has one to three of them, by turns)
//   H r n id..             hash again; the n extra ids are not registered
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <set>
#include <string>
#include <tuple>
#include <variant>
#include <vector>

#include <boost/config.hpp>
#include <boost/openmethod/preamble.hpp>
#include <boost/openmethod/policies/default_error_handler.hpp>
#include <boost/openmethod/policies/fast_perfect_hash.hpp>
#include <boost/openmethod/policies/std_rtti.hpp>
#include <boost/openmethod/policies/vptr_vector.hpp>
#include <boost/openmethod/core.hpp>
#include <boost/openmethod/initialize.hpp>

namespace bom = boost::openmethod;
using bom::type_id;
namespace pol = bom::policies;

struct Checked : bom::registry<
                     pol::std_rtti, pol::vptr_vector, pol::fast_perfect_hash,
                     pol::default_error_handler, pol::runtime_checks> {};
struct Checked2 : bom::registry<
                      pol::std_rtti, pol::vptr_vector, pol::fast_perfect_hash,
                      pol::default_error_handler, pol::runtime_checks> {};
struct Unchecked : bom::registry<
                       pol::std_rtti, pol::vptr_vector, pol::fast_perfect_hash,
                       pol::default_error_handler> {};

struct Cls {
    std::vector<type_id> t;
    bom::vptr_type vp = nullptr;
    auto type_id_begin() const {
        return t.begin();
    }
    auto type_id_end() const {
        return t.end();
    }
    auto vptr() const -> const bom::vptr_type& {
        return vp;
    }
};
struct Ctx {
    std::vector<Cls> v;
    auto classes_begin() const {
        return v.begin();
    }
    auto classes_end() const {
        return v.end();
    }
    template<class>
    static constexpr bool has_option = false;
};

struct Err {
    int code;
    std::size_t a, b;
    type_id t;
};
static int handler_calls;

struct Handler {
    template<class V>
    void operator()(const V& v) const {
        ++handler_calls;
        if (auto p = std::get_if<pol::fast_perfect_hash::search_error>(&v)) {
            throw Err{-5, p->attempts, p->buckets, nullptr};
        }
        if (auto p = std::get_if<bom::missing_class>(&v)) {
            throw Err{-2, 0, 0, p->type};
        }
        throw Err{-9, 0, 0, nullptr};
    }
};

struct Ops {
    std::pair<std::size_t, std::size_t> (*init)(const Ctx&);
    std::size_t (*hash)(type_id);
    bool checks;
};
template<class R>
Ops ops() {
    R::error_handler::set(Handler());
    return {
        [](const Ctx& c) -> std::pair<std::size_t, std::size_t> {
            return R::template policy<pol::type_hash>::initialize(
                c, std::tuple<>());
        },
        [](type_id t) {
            return R::template policy<pol::type_hash>::hash(t);
        },
        R::has_runtime_checks};
}

// what TLC can read
long shown(std::size_t n) {
    return n > 2000000000 ? -1 : long(n);
}

int main(int argc, char** argv) {
    if (argc < 3) {
        return 2;
    }
    FILE* in = fopen(argv[1], "r");
    FILE* out = fopen(argv[2], "w");
    Ops reg[] = {ops<Checked>(), ops<Unchecked>(), ops<Checked2>()};
    std::vector<std::uint64_t> ids[3];
    std::vector<std::size_t> values[3];
    char op;
    while (fscanf(in, " %c", &op) == 1) {
        if (op == 'R') {
            fprintf(out, "{\"op\":\"reset\"}\n");
            continue;
        }
        int r, easy = 0, n;
        if (op == 'I') {
            if (fscanf(in, "%d %d %d", &r, &easy, &n) != 3) {
                return 2;
            }
        } else if (fscanf(in, "%d %d", &r, &n) != 2) {
            return 2;
        }
        std::vector<std::uint64_t> v(n);
        for (auto& x : v) {
            if (fscanf(in, "%lu", &x) != 1) {
                return 2;
            }
        }
        auto tid = [](std::uint64_t x) { return reinterpret_cast<type_id>(x); };
        if (op == 'I') {
            Ctx c;
            for (std::size_t i = 0, k = 1; i < v.size();) {
                Cls cls;
                for (std::size_t j = 0; j < k && i < v.size(); ++j) {
                    cls.t.push_back(tid(v[i++]));
                }
                c.v.push_back(cls);
                k = k % 3 + 1;
            }
            ids[r] = v;
            values[r].clear();
            fprintf(
                out, "{\"op\":\"init\",\"r\":%d,\"easy\":%d,\"n\":%d,", r, easy,
                n);
            fflush(out);
            int hc = handler_calls;
            try {
                auto p = reg[r].init(c);
                fprintf(out, "\"ok\":1,\"h\":[");
                for (std::size_t i = 0; i < v.size(); ++i) {
                    // a registered id that is refused: no value
                    std::size_t h = std::size_t(-1);
                    try {
                        h = reg[r].hash(tid(v[i]));
                    } catch (const Err&) {
                    }
                    values[r].push_back(h);
                    fprintf(out, "%s%ld", i ? "," : "", shown(h));
                }
                if (v.empty()) {
                    p = {0, 0};
                }
                fprintf(
                    out, "],\"lo\":%ld,\"hi\":%ld}\n", shown(p.first),
                    shown(p.second));
            } catch (const Err& e) {
                ids[r].clear();
                fprintf(
                    out,
                    "\"ok\":0,\"code\":%d,\"attempts\":%ld,\"buckets\":%ld,\"hc\":%d}"
                    "\n",
                    e.code, shown(e.a), shown(e.b), handler_calls - hc);
            }
        } else {
            fprintf(out, "{\"op\":\"hash\",\"r\":%d,\"same\":[", r);
            for (std::size_t i = 0; i < values[r].size(); ++i) {
                int ok = 0;
                try {
                    ok = reg[r].hash(tid(ids[r][i])) == values[r][i];
                } catch (const Err&) {
                }
                fprintf(out, "%s%d", i ? "," : "", ok);
            }
            fprintf(out, "],\"unk\":[");
            const char* sep = "";
            if (reg[r].checks && !values[r].empty()) {
                for (auto x : v) {
                    int ok = 0;
                    try {
                        reg[r].hash(tid(x));
                    } catch (const Err& e) {
                        ok = e.code == -2 && e.t == tid(x);
                    }
                    fprintf(out, "%s%d", sep, ok);
                    sep = ",";
                }
            }
            fprintf(out, "]}\n");
        }
        fflush(out);
    }
    fprintf(out, "{\"op\":\"end\"}\n");
    fclose(out);
    return 0;
}
