// Callables which tell how they are called, for comparator and projection combinators.
#ifndef VP_COMBINE_H
#define VP_COMBINE_H
#include "mock.h"
extern "C" {
    __attribute__((const)) bool vp_tcmp(int state, int k1, const void*, int k2, const void*) noexcept;
    __attribute__((const)) int vp_tproj(int state, int k, const void*) noexcept;
    __attribute__((const)) int vp_num(int state, int k, const void*) noexcept;
    __attribute__((const)) const vp::el* vp_ref(int state, int k, const void*) noexcept;
    bool vp_fcmp(const vp::el&, const vp::el&);
    int vp_fproj(const vp::el&);
}
namespace vp {
// value category and constness of an argument
template<class A>
constexpr int kind() { return (std::is_lvalue_reference<A>::value ? 0 : 2) + std::is_const<std::remove_reference_t<A>>::value; }
template<class A, class T>
using only = std::enable_if_t<std::is_same<std::remove_cv_t<std::remove_reference_t<A>>, T>::value>;

struct tc {                     // comparator of elements, and of keys
    int s;
    template<class A, class B, class = only<A, el>, class = only<B, el>>
    bool operator()(A&& a, B&& b) const noexcept { return vp_tcmp(s, kind<A>(), &a, kind<B>(), &b); }
    bool operator()(key a, key b) const noexcept { return vp_kcmp(s, a.v, b.v); }
};
struct tm {                     // the same, with a mutable call operator only
    int s;
    template<class A, class B, class = only<A, el>, class = only<B, el>>
    bool operator()(A&& a, B&& b) noexcept { return vp_tcmp(s, kind<A>(), &a, kind<B>(), &b); }
    bool operator()(key a, key b) noexcept { return vp_kcmp(s, a.v, b.v); }
};
struct tq {                     // comparator which tells how it is itself called
    int s;
    template<class A, class B, class = only<A, el>, class = only<B, el>>
    bool operator()(A&& a, B&& b) & noexcept { return vp_tcmp(s, kind<A>(), &a, kind<B>() + 4, &b); }
    template<class A, class B, class = only<A, el>, class = only<B, el>>
    bool operator()(A&& a, B&& b) const& noexcept { return vp_tcmp(s, kind<A>(), &a, kind<B>() + 8, &b); }
    template<class A, class B, class = only<A, el>, class = only<B, el>>
    bool operator()(A&& a, B&& b) && noexcept { return vp_tcmp(s, kind<A>(), &a, kind<B>() + 12, &b); }
    template<class A, class B, class = only<A, el>, class = only<B, el>>
    bool operator()(A&& a, B&& b) const&& noexcept { return vp_tcmp(s, kind<A>(), &a, kind<B>() + 16, &b); }
};
struct pq: cppsort::utility::projection_base {   // the same for projections
    int s;
    constexpr pq(int s): s(s) {}
    template<class A, class = only<A, el>>
    key operator()(A&& a) & noexcept { return {vp_tproj(s, kind<A>() + 4, &a)}; }
    template<class A, class = only<A, el>>
    key operator()(A&& a) const& noexcept { return {vp_tproj(s, kind<A>() + 8, &a)}; }
    template<class A, class = only<A, el>>
    key operator()(A&& a) && noexcept { return {vp_tproj(s, kind<A>() + 12, &a)}; }
    template<class A, class = only<A, el>>
    key operator()(A&& a) const&& noexcept { return {vp_tproj(s, kind<A>() + 16, &a)}; }
};
struct tu {                     // unary predicate
    int s;
    template<class A, class = only<A, el>>
    bool operator()(A&& a) const noexcept { return vp_num(s, kind<A>(), &a) != 0; }
};
struct tp: cppsort::utility::projection_base {   // projection returning a value
    int s;
    constexpr tp(int s): s(s) {}
    template<class A, class = only<A, el>>
    key operator()(A&& a) const noexcept { return {vp_tproj(s, kind<A>(), &a)}; }
};
struct tk {                     // key to key, not a projection_base
    int s;
    key operator()(key k) const noexcept { return {vp_num(s, k.v, nullptr)}; }
};
struct tr: cppsort::utility::projection_base {   // projection returning a reference
    int s;
    constexpr tr(int s): s(s) {}
    template<class A, class = only<A, el>>
    const el& operator()(A&& a) const noexcept { return *vp_ref(s, kind<A>(), &a); }
};
struct both {                   // ambiguous: usable as a comparison and as a projection
    int s;
    template<class A, class B>
    bool operator()(A&& a, B&& b) const noexcept { return vp_tcmp(s, kind<A>(), &a, kind<B>(), &b); }
    template<class A, class = only<A, el>>
    key operator()(A&& a) const noexcept { return {vp_tproj(s, kind<A>(), &a)}; }
};
struct transparent: tc { using is_transparent = void; };
struct transparent_proj: tp { using is_transparent = int; };
struct refinable {
    int s;
    bool operator()(const el& a, const el& b) const noexcept { return vp_cmp(s, &a, &b); }
    template<class T, class = std::enable_if_t<std::is_same<T, el>::value>>
    tc refine() const { return {s + 1}; }
};
struct thrower {
    bool operator()(const el&, const el&) const;
    bool operator()(int, int) const;
    int operator()(const el&) const;
    int operator()(int) const;
};
struct nothrower {
    constexpr bool operator()(const el&, const el&) const noexcept { return true; }
    constexpr bool operator()(int a, int b) const noexcept { return a < b; }
    constexpr int operator()(const el&) const noexcept { return 1; }
    constexpr int operator()(int a) const noexcept { return -a; }
};
struct pointer {                // dereferenceable
    el* p;
    el& operator*() & noexcept { return p[0]; }
    el& operator*() && noexcept { return p[1]; }
    const el& operator*() const& noexcept { return p[2]; }
};
template<class F, class... A, class = std::enable_if_t<!std::is_member_pointer<std::decay_t<F>>::value>>
constexpr auto inv(F&& f, A&&... a) -> decltype(std::forward<F>(f)(std::forward<A>(a)...)) { return std::forward<F>(f)(std::forward<A>(a)...); }
template<class R, class T, class... A>
constexpr auto inv(R (T::*f)(A...) const, const T& a, const T& b) -> R { return (a.*f)(b); }
#if __cpp_noexcept_function_type
template<class R, class T, class... A>
constexpr auto inv(R (T::*f)(A...) const noexcept, const T& a, const T& b) -> R { return (a.*f)(b); }
#endif
template<class T> constexpr const T& cst(const T& t) { return t; }
template<class T, class = void> struct is_transparent: std::false_type {};
template<class T> struct is_transparent<T, std::enable_if_t<(sizeof(typename T::is_transparent*) > 0)>>: std::true_type {};
template<class F, class... A> auto can(int, F&& f, A&&... a) -> decltype(std::forward<F>(f)(std::forward<A>(a)...), std::true_type{});
template<class F, class... A> auto can(long, F&&, A&&...) -> std::false_type;
template<class F, class... A> constexpr bool callable = decltype(can(0, std::declval<F>(), std::declval<A>()...))::value;
}
#endif
