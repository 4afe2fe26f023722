// Classes, methods and overriders of vptr.cpp and vptr_lib.cpp
#ifndef VPTR_HPP
#define VPTR_HPP
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <memory>
#include <optional>
#include <string>
#include <tuple>
#include <vector>

#include <boost/openmethod/core.hpp>
#include <boost/openmethod/initialize.hpp>
#include <boost/openmethod/interop/std_shared_ptr.hpp>
#include <boost/openmethod/interop/std_unique_ptr.hpp>
#include <boost/openmethod/interop/boost_intrusive_ptr.hpp>
#include <boost/openmethod/policies/fast_perfect_hash.hpp>
#include <boost/openmethod/policies/std_rtti.hpp>
#include <boost/openmethod/policies/throw_error_handler.hpp>
#include <boost/openmethod/policies/vptr_map.hpp>
#include <boost/openmethod/policies/vptr_vector.hpp>
#if INPLACE
#include <boost/openmethod/inplace_vptr.hpp>
#endif

namespace bom = boost::openmethod;
namespace pol = bom::policies;

#if VARIANT == 0
struct R : bom::registry<
               pol::std_rtti, pol::vptr_vector, pol::fast_perfect_hash,
               pol::runtime_checks, pol::throw_error_handler> {};
#elif VARIANT == 1
struct R : bom::registry<
               pol::std_rtti, pol::vptr_vector, pol::fast_perfect_hash,
               pol::indirect_vptr, pol::runtime_checks,
               pol::throw_error_handler> {};
#elif VARIANT == 2
struct R : bom::registry<
               pol::std_rtti, pol::vptr_map<>, pol::runtime_checks,
               pol::throw_error_handler> {};
#elif VARIANT == 3
struct R : bom::registry<
               pol::std_rtti, pol::vptr_map<>, pol::indirect_vptr,
               pol::throw_error_handler> {};
#elif VARIANT == 4
struct R : bom::registry<
               pol::std_rtti, pol::vptr_vector, pol::fast_perfect_hash,
               pol::throw_error_handler> {};
#endif

constexpr bool INDIRECT = R::has_indirect_vptr;
constexpr bool CHECKS = R::has_runtime_checks;

// ---------------------------------------------------------------------------
// classes

void dead(const void* p, int part);
extern int g_live[2]; // subobjects A, M alive

struct A
#if INPLACE
    : bom::inplace_vptr_base<A, R>
#endif
{
    long a = 1;
    A() {
        ++g_live[0];
    }
    virtual ~A() {
        --g_live[0];
        dead(this, 0);
    }
    A(const A&) = delete;
};
struct M
#if INPLACE
    : bom::inplace_vptr_base<M, R>
#endif
{
    long m = 2;
    M() {
        ++g_live[1];
    }
    virtual ~M() {
        --g_live[1];
        dead(this, 1);
    }
    M(const M&) = delete;
#if ABSTRACT
    virtual void pure() = 0;
#endif
};
#if INPLACE
#define DERIVED(...) , bom::inplace_vptr_derived<__VA_ARGS__>
#else
#define DERIVED(...)
#endif
#if ABSTRACT
#define IMPLEMENT \
    void pure() override { \
    }
#else
#define ABSTRACT 0
#define IMPLEMENT
#endif
struct B : A DERIVED(B, A) {
    long b = 3;
};
struct C : M, A DERIVED(C, M, A) {
    long c = 4;
    IMPLEMENT
};
struct D_ : B, M DERIVED(D_, B, M) {
    long d = 5;
    IMPLEMENT
};
#if INPLACE
// virtual inheritance is not supported
struct V : A DERIVED(V, A) {
#else
struct V : virtual A {
#endif
    long v = 6;
};
struct X : B DERIVED(X, B) {
    long x = 7;
};
struct U : A {
    long u = 8;
};
using cA = const A;

// class numbers, as in the specification
template<class T>
constexpr int cls = 0;
template<>
constexpr int cls<A> = 1;
template<>
constexpr int cls<M> = 2;
template<>
constexpr int cls<B> = 3;
template<>
constexpr int cls<C> = 4;
template<>
constexpr int cls<D_> = 5;
template<>
constexpr int cls<V> = 6;
template<>
constexpr int cls<X> = 7;
template<>
constexpr int cls<U> = 8;

inline const unsigned ancestors[9] = { // reflexive, bit n: class n
    0,
    1u << 1,
    1u << 2,
    1u << 3 | 1u << 1,
    1u << 4 | 1u << 2 | 1u << 1,
    1u << 5 | 1u << 3 | 1u << 2 | 1u << 1,
    1u << 6 | 1u << 1,
    1u << 7 | 1u << 3 | 1u << 1,
    1u << 8 | 1u << 1};

inline bool is_a(int c, int b) {
    return ancestors[c] >> b & 1;
}

// ---------------------------------------------------------------------------
// objects

struct Object {
    int cls, mode; // mode: 0 pool, 1 shared, 2 unique, 3 intrusive
    const char *begin, *end;
    const void* sub[9];
    int dtor[2];
    long rc;
    void (*kill)(const void*);
    bool alive() const {
        return !dtor[0] && !dtor[1];
    }
};
extern std::vector<Object> g_obj;

template<class T>
int id_of(const T* p) {
    if (!p) {
        return 0;
    }
    int id = 1;
    for (auto& o : g_obj) {
        if (o.sub[cls<std::remove_cv_t<T>>] == p) {
            return id;
        }
        ++id;
    }
    return -9;
}

template<class S, class T>
void set_sub(Object& o, const T* p) {
    if constexpr (std::is_convertible_v<const T*, const S*>) {
        o.sub[cls<S>] = static_cast<const S*>(p);
    }
}

// intrusive reference count
extern std::map<const void*, long> g_rc;
inline void add_ref(const void* p) {
    ++g_rc[p];
}
template<class T>
void release(const T* p) {
    if (--g_rc[dynamic_cast<const void*>(p)] == 0) {
        delete p;
    }
}
template<class T>
auto intrusive_ptr_add_ref(const T* p) -> void {
    add_ref(dynamic_cast<const void*>(p));
}
template<class T>
auto intrusive_ptr_release(const T* p) -> void {
    release(p);
}

// ---------------------------------------------------------------------------
// methods

template<int Kind, class S>
struct Id;

template<int Kind, class S>
struct PtrOf;
template<class S>
struct PtrOf<0, S> {
    using std = S*;
    using vir = bom::virtual_ptr<S, R>;
};
template<class S>
struct PtrOf<1, S> {
    using std = ::std::shared_ptr<S>;
    using vir = bom::virtual_ptr<::std::shared_ptr<S>, R>;
};
template<class S>
struct PtrOf<2, S> {
    using std = ::std::unique_ptr<S>;
    using vir = bom::virtual_ptr<::std::unique_ptr<S>, R>;
};
template<class S>
struct PtrOf<3, S> {
    using std = boost::intrusive_ptr<S>;
    using vir = bom::virtual_ptr<boost::intrusive_ptr<S>, R>;
};
template<int Kind, class S>
using Std = typename PtrOf<Kind, S>::std;
template<int Kind, class S>
using Vir = typename PtrOf<Kind, S>::vir;

// by const reference (smart), by value (plain)
template<int Kind, class S>
using Param =
    std::conditional_t<Kind == 0, Vir<Kind, S>, const Vir<Kind, S>&>;

template<int Kind, class S>
using Who = bom::method<Id<Kind, S>, int(Param<Kind, S>), R>;
template<int Kind, class S>
using Pass = bom::method<Id<Kind + 10, S>, Vir<Kind, S>(Vir<Kind, S>), R>;

extern int g_ran; // by pass

template<int Kind, class K>
int who(Param<Kind, K> p) {
    return cls<std::remove_cv_t<K>> * 1000 + id_of(p.get());
}
template<int Kind, class S, class K>
Vir<Kind, S> pass(Vir<Kind, K> p) {
    g_ran = cls<std::remove_cv_t<K>> * 1000 + id_of(p.get());
    return Vir<Kind, S>(std::move(p));
}


// the overriders for class K, in all the methods
template<class S, class K>
using Like = std::conditional_t<std::is_const_v<S>, const K, K>;

template<class S, class K, class = void>
struct overriders {};
template<class S, class K>
struct overriders<S, K, std::enable_if_t<std::is_base_of_v<S, K>>> {
    using KK = Like<S, K>;
    typename Who<0, S>::template override<who<0, KK>> o0;
    typename Who<1, S>::template override<who<1, KK>> o1;
    typename Who<3, S>::template override<who<3, KK>> o2;
    typename Pass<1, S>::template override<pass<1, S, KK>> o3;
    typename Pass<2, S>::template override<pass<2, S, KK>> o4;
    typename Pass<3, S>::template override<pass<3, S, KK>> o5;
};

// those on the methods of the bases of K
template<class K>
struct optional_overriders {
    overriders<A, K> a;
    overriders<cA, K> ca;
    std::conditional_t<std::is_same_v<B, K>, int, overriders<B, K>> b;
    overriders<M, K> m;
    std::conditional_t<std::is_same_v<V, K>, int, overriders<V, K>> v;
};

#endif
