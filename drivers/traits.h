// Sorters which only have traits, and sorters whose stability depends on the
// call: a call of theirs which is not stable fails to compile in CHECKED mode.
#ifndef VP_TRAITS_H
#define VP_TRAITS_H
#include <array>
#include <forward_list>
#include <functional>
#include <iterator>
#include <list>
#include <type_traits>
#include <utility>
#include <vector>
#include <cpp-sort/fwd.h>
#include <cpp-sort/sorter_traits.h>
namespace vt {
using fwd = std::forward_iterator_tag;
using bidir = std::bidirectional_iterator_tag;
using ra = std::random_access_iterator_tag;

template<class T, class = void> struct cat_of { using type = typename std::iterator_traits<std::decay_t<T>>::iterator_category; static constexpr bool range = false; };
template<class T> struct cat_of<T, decltype(void(std::begin(std::declval<T&>())))> {
    using type = typename std::iterator_traits<std::decay_t<decltype(std::begin(std::declval<T&>()))>>::iterator_category;
    static constexpr bool range = true;
};
struct any { template<class... A> int operator()(A&&...) const; };
struct no_call { using iterator_category = fwd; using is_always_stable = std::true_type; };
template<class Cat, bool Stable> struct m {
    using iterator_category = Cat;
    using is_always_stable = std::integral_constant<bool, Stable>;
    template<class A, class... B>
    auto operator()(A&&, B&&...) const -> std::enable_if_t<std::is_base_of<Cat, typename cat_of<A>::type>::value, int>;
};
template<bool Stable> struct nocat : any { using is_always_stable = std::integral_constant<bool, Stable>; };
template<class Cat> struct nostab : any { using iterator_category = Cat; };

// is the call stable?
enum kind { lvalue_only,  not_ra, ranges_only, iterators_only, lists_only, vectors_only, ints_only,
    no_function, no_greater, greater_only, one_function };
template<class T> struct is_list : std::false_type {};
template<class... T> struct is_list<std::list<T...>> : std::true_type {};
template<class... T> struct is_list<std::forward_list<T...>> : std::true_type {};
template<class T> struct is_vector : std::false_type {};
template<class... T> struct is_vector<std::vector<T...>> : std::true_type {};
template<class T, bool = cat_of<T>::range> struct value_of { using type = typename std::iterator_traits<std::decay_t<T>>::value_type; };
template<class T> struct value_of<T, true> { using type = std::decay_t<decltype(*std::begin(std::declval<T&>()))>; };
// the functions a sorter is called with
template<class... F> struct funcs {};
template<class A, bool, class... B> struct funcs_of_ { using type = funcs<std::decay_t<B>...>; };
template<class A, class E, class... B> struct funcs_of_<A, false, E, B...> { using type = funcs<std::decay_t<B>...>; };
template<class A, class... B> struct funcs_of : funcs_of_<A, cat_of<A>::range, B...> {};
template<class T, class U> struct has;
template<class T, class... F> struct has<T, funcs<F...>> { static constexpr bool value = !std::is_same<std::integer_sequence<bool, false, std::is_same<T, F>::value...>, std::integer_sequence<bool, std::is_same<T, F>::value..., false>>::value; };
template<class T> struct count;
template<class... F> struct count<funcs<F...>> { static constexpr std::size_t value = sizeof...(F); };
template<kind K, class A, class... B> struct stable_call : std::integral_constant<bool,
    K == not_ra ? !std::is_base_of<ra, typename cat_of<A>::type>::value :
    K == lvalue_only ? std::is_lvalue_reference<A>::value :
    K == ranges_only ? cat_of<A>::range :
    K == iterators_only ? !cat_of<A>::range :
    K == lists_only ? is_list<std::decay_t<A>>::value :
    K == vectors_only ? is_vector<std::decay_t<A>>::value :
    K == no_function ? count<typename funcs_of<A, B...>::type>::value == 0 :
    K == one_function ? count<typename funcs_of<A, B...>::type>::value == 1 :
    K == no_greater ? !has<std::greater<>, typename funcs_of<A, B...>::type>::value :
    K == greater_only ? has<std::greater<>, typename funcs_of<A, B...>::type>::value :
    std::is_same<typename value_of<A>::type, int>::value> {};
template<kind K> struct cs {
    using iterator_category = fwd;
    using is_always_stable = std::false_type;
    template<class... A>
    int operator()(A&&...) const {
        static_assert(stable_call<K, A...>::value, "an unstable call of the adapted sorter is made by a call reported to be stable");
        return 0;
    }
};
// the call is compiled when it is reported to be stable
template<class S, class... A> void sound(std::true_type, A&&... a) { S{}(std::forward<A>(a)...); }
template<class S, class... A> void sound(std::false_type, A&&...) {}
template<class S, class... A> void check(A&&... a) { sound<S>(std::integral_constant<bool, cppsort::is_stable<S(A...)>::value>{}, std::forward<A>(a)...); }

// containers with methods
template<class T> struct no_method { T* begin(); T* end(); };
template<class T> struct with_sort : no_method<T> { template<class... A> auto sort(A&&...) -> std::enable_if_t<sizeof...(A) <= 1>; };
template<class T> struct with_stable : no_method<T> { template<class... A> auto stable_sort(A&&...) -> std::enable_if_t<sizeof...(A) <= 1>; };
template<class T> struct with_both : no_method<T> {
    template<class... A> auto sort(A&&...) -> std::enable_if_t<sizeof...(A) <= 1>;
    template<class... A> auto stable_sort(A&&...) -> std::enable_if_t<sizeof...(A) <= 1>;
};
// fixed-size sorters, stable for even sizes
template<std::size_t N> struct fs {
    using iterator_category = ra;
    using is_always_stable = std::integral_constant<bool, N % 2 == 0>;
    template<class... A> int operator()(A&&...) const { return 0; }
};
template<std::size_t N> struct fs_dom : fs<N> {};
// fixed-size sorters of which some calls are stable
template<kind K> struct fk {
    template<std::size_t N> struct of {
        using iterator_category = ra;
        using is_always_stable = std::false_type;
        template<class... A> int operator()(A&&...) const { return 0; }
    };
};
// branches
struct cmp { bool operator()(int, int) const; };
struct proj { int operator()(int) const; };
struct klass { int f() const; int g(); int d; };
struct user_cmp {};
struct user_proj {};
}
namespace cppsort {
template<vt::kind K, class... A> struct is_stable<vt::cs<K>(A...)> : vt::stable_call<K, A...> {};
template<std::size_t N, class... A> struct is_stable<vt::fk<vt::no_function>::of<N>(A...)> : vt::stable_call<vt::no_function, A...> {};
template<std::size_t N, class... A> struct is_stable<vt::fk<vt::no_greater>::of<N>(A...)> : vt::stable_call<vt::no_greater, A...> {};
template<std::size_t N, class... A> struct is_stable<vt::fk<vt::greater_only>::of<N>(A...)> : vt::stable_call<vt::greater_only, A...> {};
template<std::size_t N, class... A> struct is_stable<vt::fk<vt::one_function>::of<N>(A...)> : vt::stable_call<vt::one_function, A...> {};
template<> struct fixed_sorter_traits<vt::fs_dom> {
    using domain = std::index_sequence<1, 2, 5>;
    using iterator_category = vt::ra;
    using is_always_stable = std::false_type;
};
}
#endif
