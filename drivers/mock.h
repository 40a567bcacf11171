// Sorters and callables whose calls stay visible in the IR.
#ifndef VP_MOCK_H
#define VP_MOCK_H
#include <array>
#include <cstddef>
#include <functional>
#include <iterator>
#include <memory>
#include <type_traits>
#include <utility>
#include <cpp-sort/sorter_facade.h>
#include <cpp-sort/sorter_traits.h>
#include <cpp-sort/utility/functional.h>

namespace vp {
struct key { int v; };
struct el {
    int v;
    int member;
    int get() const noexcept;
    bool less_than(const el&) const noexcept;
};
using pk = int el::*;
}
extern "C" {
    // ordered effects
    void vp_range(int tag, const void* first, const void* last) noexcept;
    void vp_whole(int tag, const void* iterable) noexcept;
    void vp_result(bool) noexcept;
    void vp_event(int) noexcept;
    // pure functions
    __attribute__((const)) bool vp_cmp(int state, const void*, const void*) noexcept;
    __attribute__((const)) bool vp_kcmp(int state, int, int) noexcept;
    __attribute__((const)) bool vp_less(const void*, const void*) noexcept;
    __attribute__((const)) bool vp_kless(int, int) noexcept;
    __attribute__((const)) int vp_proj(int state, const void*) noexcept;
    __attribute__((const)) int vp_get(const void*) noexcept;
    __attribute__((const)) bool vp_memless(const void*, const void*) noexcept;
    extern vp::el vp_A;
    extern vp::el vp_B;
}
namespace vp {
inline int el::get() const noexcept { return vp_get(this); }
inline bool el::less_than(const el& o) const noexcept { return vp_memless(this, &o); }
// relational operators of elements and keys
inline bool operator<(const el& a, const el& b) noexcept { return vp_less(&a, &b); }
inline bool operator>(const el& a, const el& b) noexcept { return vp_less(&b, &a); }
inline bool operator<=(const el& a, const el& b) noexcept { return !vp_less(&b, &a); }
inline bool operator>=(const el& a, const el& b) noexcept { return !vp_less(&a, &b); }
inline bool operator==(const el& a, const el& b) noexcept { return !vp_less(&a, &b) && !vp_less(&b, &a); }
inline bool operator!=(const el& a, const el& b) noexcept { return !(a == b); }
inline bool operator<(const key& a, const key& b) noexcept { return vp_kless(a.v, b.v); }
inline bool operator>(const key& a, const key& b) noexcept { return vp_kless(b.v, a.v); }
inline bool operator<=(const key& a, const key& b) noexcept { return !vp_kless(b.v, a.v); }
inline bool operator>=(const key& a, const key& b) noexcept { return !vp_kless(a.v, b.v); }
inline bool operator==(const key& a, const key& b) noexcept { return !vp_kless(a.v, b.v) && !vp_kless(b.v, a.v); }
inline bool operator!=(const key& a, const key& b) noexcept { return !(a == b); }

// stateful comparator and projection
struct cmp {
    int s;
    bool operator()(const el& a, const el& b) const noexcept { return vp_cmp(s, &a, &b); }
    bool operator()(const key& a, const key& b) const noexcept { return vp_kcmp(s, a.v, b.v); }
    bool operator()(int a, int b) const noexcept { return vp_kcmp(s, a, b); }
};
struct proj {
    int s;
    key operator()(const el& e) const noexcept { return {vp_proj(s, &e)}; }
};

template<class F, class... A>
constexpr auto call(F& f, A&&... a) -> decltype(f(std::forward<A>(a)...)) { return f(std::forward<A>(a)...); }
template<class R, class T>
constexpr auto call(R T::* f, const T& a) -> std::enable_if_t<std::is_member_object_pointer<R T::*>::value, const R&> { return a.*f; }
template<class R, class T>
constexpr auto call(R (T::*f)() const, const T& a) -> R { return (a.*f)(); }
template<class R, class T>
constexpr auto call(R (T::*f)(const T&) const, const T& a, const T& b) -> R { return (a.*f)(b); }
#if __cpp_noexcept_function_type
template<class R, class T>
constexpr auto call(R (T::*f)() const noexcept, const T& a) -> R { return (a.*f)(); }
template<class R, class T>
constexpr auto call(R (T::*f)(const T&) const noexcept, const T& a, const T& b) -> R { return (a.*f)(b); }
#endif

struct none {};
struct id { template<class T> constexpr T&& operator()(T&& t) const noexcept { return std::forward<T>(t); } };
struct lt { template<class T> constexpr bool operator()(const T& a, const T& b) const noexcept { return a < b; } };

// how two elements compare, as seen by the sorter finally called
template<class C, class P>
inline void order(C c, P p)
{
    vp_result(call(c, call(p, vp_A), call(p, vp_B)));
}

// over the elements of a sequence which is not made of el
template<class I, class C, class P>
inline auto order(I f, C c, P p) -> std::enable_if_t<std::is_same<decltype(*f), el&>::value>
{
    order(c, p);
}
template<class I, class C, class P>
inline auto order(I f, C c, P p) -> std::enable_if_t<!std::is_same<decltype(*f), el&>::value>
{
    auto g = f;
    ++g;
    auto&& a = *f;
    auto&& b = *g;
    vp_result(call(c, call(p, a), call(p, b)));
}
template<class I>
inline const void* addr(I it) { return static_cast<const void*>(std::addressof(*it)); }
inline const void* addr(el* p) { return p; }

struct rng {
    el* b;
    el* e;
    el* begin() const noexcept { return b; }
    el* end() const noexcept { return e; }
};

// iterators of a given category over el*
template<class Cat>
struct wit {
    using iterator_category = Cat;
    using value_type = el;
    using difference_type = std::ptrdiff_t;
    using pointer = el*;
    using reference = el&;
    el* p;
    el& operator*() const noexcept { return *p; }
    el* operator->() const noexcept { return p; }
    wit& operator++() noexcept { ++p; return *this; }
    wit operator++(int) noexcept { auto r = *this; ++p; return r; }
    wit& operator--() noexcept { --p; return *this; }
    wit operator--(int) noexcept { auto r = *this; --p; return r; }
    wit& operator+=(std::ptrdiff_t n) noexcept { p += n; return *this; }
    wit& operator-=(std::ptrdiff_t n) noexcept { p -= n; return *this; }
    el& operator[](std::ptrdiff_t n) const noexcept { return p[n]; }
    friend wit operator+(wit a, std::ptrdiff_t n) noexcept { return {a.p + n}; }
    friend wit operator+(std::ptrdiff_t n, wit a) noexcept { return {a.p + n}; }
    friend wit operator-(wit a, std::ptrdiff_t n) noexcept { return {a.p - n}; }
    friend std::ptrdiff_t operator-(wit a, wit b) noexcept { return a.p - b.p; }
    friend bool operator==(wit a, wit b) noexcept { return a.p == b.p; }
    friend bool operator!=(wit a, wit b) noexcept { return a.p != b.p; }
    friend bool operator<(wit a, wit b) noexcept { return a.p < b.p; }
    friend bool operator>(wit a, wit b) noexcept { return a.p > b.p; }
    friend bool operator<=(wit a, wit b) noexcept { return a.p <= b.p; }
    friend bool operator>=(wit a, wit b) noexcept { return a.p >= b.p; }
};
template<class Cat>
struct wrng {
    el* b;
    el* e;
    wit<Cat> begin() const noexcept { return {b}; }
    wit<Cat> end() const noexcept { return {e}; }
};
using fwd = std::forward_iterator_tag;
using bidir = std::bidirectional_iterator_tag;
using ra = std::random_access_iterator_tag;

// range with sort/stable_sort members; Mask: 1 sort() 2 sort(cmp) 4 stable_sort() 8 stable_sort(cmp)
template<unsigned Mask>
struct selfsort {
    el* b;
    el* e;
    el* begin() const noexcept { return b; }
    el* end() const noexcept { return e; }
    template<unsigned M = Mask, class = std::enable_if_t<(M & 1) != 0>>
    int sort();
    template<class C, unsigned M = Mask, class = std::enable_if_t<(M & 2) && cppsort::is_projection_iterator_v<cppsort::utility::identity, el*, C>>>
    int sort(C c);
    template<unsigned M = Mask, class = std::enable_if_t<(M & 4) != 0>>
    int stable_sort();
    template<class C, unsigned M = Mask, class = std::enable_if_t<(M & 8) && cppsort::is_projection_iterator_v<cppsort::utility::identity, el*, C>>>
    int stable_sort(C c);
};

enum : unsigned { N = 1, C = 2, P = 4, CP = 8 };

// sorter implementation with the given iterator and range overloads
template<int Tag, unsigned I, unsigned R, class Cat = std::random_access_iterator_tag, bool Stable = false>
struct impl {
    using iterator_category = Cat;
    using is_always_stable = std::integral_constant<bool, Stable>;

    template<class It, unsigned M = I, class = std::enable_if_t<(M & N) != 0>>
    int operator()(It f, It l) const
    { vp_range(Tag, addr(f), addr(l)); order(f, lt{}, id{}); return Tag; }
    template<class It, class Cm, unsigned M = I, class = std::enable_if_t<(M & C) && cppsort::is_projection_iterator_v<cppsort::utility::identity, It, Cm>>>
    int operator()(It f, It l, Cm c) const
    { vp_range(Tag, addr(f), addr(l)); order(f, c, id{}); return Tag; }
    template<class It, class Pr, unsigned M = I, class = std::enable_if_t<(M & P) && cppsort::is_projection_iterator_v<Pr, It>>, class = void>
    int operator()(It f, It l, Pr p) const
    { vp_range(Tag, addr(f), addr(l)); order(f, lt{}, p); return Tag; }
    template<class It, class Cm, class Pr, unsigned M = I, class = std::enable_if_t<(M & CP) && cppsort::is_projection_iterator_v<Pr, It, Cm>>>
    int operator()(It f, It l, Cm c, Pr p) const
    { vp_range(Tag, addr(f), addr(l)); order(f, c, p); return Tag; }

    template<class Rg, unsigned M = R, class = std::enable_if_t<(M & N) != 0>>
    int operator()(Rg&& r) const
    { vp_whole(Tag, &r); order(lt{}, id{}); return Tag; }
    template<class Rg, class Cm, unsigned M = R, class = std::enable_if_t<(M & C) && cppsort::is_projection_v<cppsort::utility::identity, Rg, Cm>>>
    int operator()(Rg&& r, Cm c) const
    { vp_whole(Tag, &r); order(c, id{}); return Tag; }
    template<class Rg, class Pr, unsigned M = R, class = std::enable_if_t<(M & P) && cppsort::is_projection_v<Pr, Rg>>, class = void>
    int operator()(Rg&& r, Pr p) const
    { vp_whole(Tag, &r); order(lt{}, p); return Tag; }
    template<class Rg, class Cm, class Pr, unsigned M = R, class = std::enable_if_t<(M & CP) && cppsort::is_projection_v<Pr, Rg, Cm>>>
    int operator()(Rg&& r, Cm c, Pr p) const
    { vp_whole(Tag, &r); order(c, p); return Tag; }
};
template<int Tag, unsigned I, unsigned R = 0, class Cat = std::random_access_iterator_tag, bool Stable = false>
struct mock: cppsort::sorter_facade<impl<Tag, I, R, Cat, Stable>> {
    using base = cppsort::sorter_facade<impl<Tag, I, R, Cat, Stable>>;
    mock() = default;
};

template<unsigned Mask> template<unsigned M, class>
inline int selfsort<Mask>::sort() { vp_whole(101, this); order(lt{}, id{}); return 101; }
template<unsigned Mask> template<class C, unsigned M, class>
inline int selfsort<Mask>::sort(C c) { vp_whole(102, this); order(c, id{}); return 102; }
template<unsigned Mask> template<unsigned M, class>
inline int selfsort<Mask>::stable_sort() { vp_whole(103, this); order(lt{}, id{}); return 103; }
template<unsigned Mask> template<class C, unsigned M, class>
inline int selfsort<Mask>::stable_sort(C c) { vp_whole(104, this); order(c, id{}); return 104; }

// stateful sorter: its state is the tag of its calls
template<class Cat = std::random_access_iterator_tag, bool Stable = false>
struct stateful_impl {
    using iterator_category = Cat;
    using is_always_stable = std::integral_constant<bool, Stable>;
    int s;
    stateful_impl() = default;
    constexpr explicit stateful_impl(int s) noexcept: s(s) {}
    template<class It, class Cm = std::less<>, class Pr = cppsort::utility::identity,
             class = std::enable_if_t<cppsort::is_projection_iterator_v<Pr, It, Cm>>>
    int operator()(It f, It l, Cm c = {}, Pr p = {}) const
    { (void)f; (void)l; vp_event(s); return s; }
};
template<class Cat = std::random_access_iterator_tag, bool Stable = false>
struct stateful: cppsort::sorter_facade<stateful_impl<Cat, Stable>> {
    stateful() = default;
    constexpr explicit stateful(int s): cppsort::sorter_facade<stateful_impl<Cat, Stable>>(s) {}
};

// specifications
template<class Cm, class Pr>
inline int want_range(int tag, const void* f, const void* l, Cm c, Pr p)
{ vp_range(tag, f, l); order(c, p); return tag; }
template<class Cm, class Pr>
inline int want_whole(int tag, const void* r, Cm c, Pr p)
{ vp_whole(tag, r); order(c, p); return tag; }
}
#endif
