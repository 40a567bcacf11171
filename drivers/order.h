// Types which customise the library's order comparators.
#ifndef VP_ORDER_H
#define VP_ORDER_H
#include <cstring>
#include <locale>
#include <type_traits>
#include <utility>
#define VO_DECL(order) \
    extern "C" bool vp_##order##_less(int, const void*, int, const void*) noexcept; \
    extern "C" bool vp_##order##_greater(int, const void*, int, const void*) noexcept;
VO_DECL(total) VO_DECL(weak) VO_DECL(partial) VO_DECL(natural) VO_DECL(ci)
extern "C" bool vp_ci_loc(const void*, const void*, const std::locale*) noexcept;
namespace vo {
template<class A>
constexpr int kind() { return (std::is_lvalue_reference<A>::value ? 0 : 2) + std::is_const<std::remove_reference_t<A>>::value; }
#define VO_CONST(order, dir, T, NX) \
    inline bool order##_##dir(const T& a, const T& b) NX { return vp_##order##_##dir(1, &a, 1, &b); }
#define VO_BOTH(order, T, NX) VO_CONST(order, less, T, NX) VO_CONST(order, greater, T, NX)
#define VO_ALL(order, T, D) \
    template<class A, class B, class = std::enable_if_t<std::is_same<std::decay_t<A>, T>::value && std::is_same<std::decay_t<B>, T>::value>> \
    bool order##_##D(A&& a, B&& b) { return vp_##order##_##D(kind<A>(), &a, kind<B>(), &b); }
struct base { int v; const char* begin() const; const char* end() const; };
// which orders the type customises
struct total: base {};    VO_BOTH(total, total, )
struct weak: base {};     VO_BOTH(weak, weak, )
struct partial: base {};  VO_BOTH(partial, partial, )
struct every: base {};    VO_BOTH(total, every, ) VO_BOTH(weak, every, ) VO_BOTH(partial, every, )
struct tw: base {};       VO_BOTH(total, tw, ) VO_BOTH(weak, tw, )
struct tp: base {};       VO_BOTH(total, tp, ) VO_BOTH(partial, tp, )
struct quiet: base {};    VO_BOTH(total, quiet, noexcept)
struct wquiet: base {};   VO_BOTH(weak, wquiet, noexcept)
struct forward: base {};  VO_ALL(total, forward, less) VO_ALL(total, forward, greater)
struct wforward: base {}; VO_ALL(weak, wforward, less) VO_ALL(weak, wforward, greater)
struct pforward: base {}; VO_ALL(partial, pforward, less) VO_ALL(partial, pforward, greater)
struct less_only: base {}; VO_CONST(total, less, less_only, )
struct none: base {
    friend bool operator<(none, none);
    friend bool operator>(none, none);
};
// heterogeneous
struct one: base {};
struct two: base {};
inline bool total_less(const one& a, const two& b) { return vp_total_less(1, &a, 1, &b); }
inline bool total_greater(const one& a, const two& b) { return vp_total_greater(1, &a, 1, &b); }
inline bool weak_less(const one& a, const two& b) { return vp_weak_less(1, &a, 1, &b); }
inline bool weak_greater(const one& a, const two& b) { return vp_weak_greater(1, &a, 1, &b); }
inline bool partial_less(const one& a, const two& b) { return vp_partial_less(1, &a, 1, &b); }
inline bool partial_greater(const one& a, const two& b) { return vp_partial_greater(1, &a, 1, &b); }
// natural and case-insensitive orders
struct nat: base {};
inline bool natural_less(const nat& a, const nat& b) { return vp_natural_less(1, &a, 1, &b); }
inline bool natural_less(const nat& a, const total& b) { return vp_natural_less(1, &a, 1, &b); }
struct ci2: base {};
inline bool case_insensitive_less(const ci2& a, const ci2& b) { return vp_ci_less(1, &a, 1, &b); }
struct ci3: base {};
inline bool case_insensitive_less(const ci3& a, const ci3& b, const std::locale& l) { return vp_ci_loc(&a, &b, &l); }
struct ci23: base {};
inline bool case_insensitive_less(const ci23& a, const ci23& b) { return vp_ci_less(1, &a, 1, &b); }
inline bool case_insensitive_less(const ci23& a, const ci23& b, const std::locale& l) { return vp_ci_loc(&a, &b, &l); }
struct opaque3 { int v; };      // not a range
inline bool case_insensitive_less(const opaque3& a, const opaque3& b, const std::locale& l) { return vp_ci_loc(&a, &b, &l); }
struct opaque2 { int v; };
inline bool case_insensitive_less(const opaque2& a, const opaque2& b) { return vp_ci_less(1, &a, 1, &b); }
template<class F, class... A> auto can(int, F&& f, A&&... a) -> decltype(std::forward<F>(f)(std::forward<A>(a)...), std::true_type{});
template<class F, class... A> auto can(long, F&&, A&&...) -> std::false_type;
template<class F, class... A> constexpr bool callable = decltype(can(0, std::declval<F>(), std::declval<A>()...))::value;
template<class T, class = void> struct is_transparent: std::false_type {};
template<class T> struct is_transparent<T, std::enable_if_t<(sizeof(typename T::is_transparent*) > 0)>>: std::true_type {};
template<class T> constexpr const T& cst(const T& t) { return t; }
}
#endif
