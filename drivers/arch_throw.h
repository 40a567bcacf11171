// Iterators all of whose operations, copies included, are opaque and may throw
#ifndef VP_ARCH_THROW_H
#define VP_ARCH_THROW_H
#include <cpp-sort/sorter_facade.h>
#include <cpp-sort/sorter_traits.h>
#include <cpp-sort/utility/as_function.h>
#include <cpp-sort/utility/functional.h>
#include <cpp-sort/utility/iter_move.h>
#include "arch.h"
namespace vp
{
    template<typename V, typename Cat> struct xit;

    template<typename V>
    struct xit<V, std::forward_iterator_tag>
    {
        using iterator_category = std::forward_iterator_tag;
        using value_type = V;
        using difference_type = std::ptrdiff_t;
        using reference = V&;
        using pointer = V*;

        xit() noexcept(false);
        xit(const xit&) noexcept(false);
        xit& operator=(const xit&) noexcept(false);
        ~xit();
        V& operator*() const;
        V* operator->() const;
        xit& operator++();
        xit operator++(int) = delete;
        friend bool operator==(const xit& a, const xit& b) { return a.eq(b); }
        friend bool operator!=(const xit& a, const xit& b) { return not a.eq(b); }
        bool eq(const xit&) const;
        void* p;
    };

    template<typename V>
    struct xit<V, std::bidirectional_iterator_tag>
    {
        using iterator_category = std::bidirectional_iterator_tag;
        using value_type = V;
        using difference_type = std::ptrdiff_t;
        using reference = V&;
        using pointer = V*;

        xit() noexcept(false);
        xit(const xit&) noexcept(false);
        xit& operator=(const xit&) noexcept(false);
        ~xit();
        V& operator*() const;
        V* operator->() const;
        xit& operator++();
        xit operator++(int) = delete;
        friend bool operator==(const xit& a, const xit& b) { return a.eq(b); }
        friend bool operator!=(const xit& a, const xit& b) { return not a.eq(b); }
        bool eq(const xit&) const;
        xit& operator--();
        xit operator--(int) = delete;
        void* p;
    };

    template<typename V>
    struct xit<V, std::random_access_iterator_tag>
    {
        using iterator_category = std::random_access_iterator_tag;
        using value_type = V;
        using difference_type = std::ptrdiff_t;
        using reference = V&;
        using pointer = V*;

        xit() noexcept(false);
        xit(const xit&) noexcept(false);
        xit& operator=(const xit&) noexcept(false);
        ~xit();
        V& operator*() const;
        V* operator->() const;
        xit& operator++();
        xit operator++(int) = delete;
        friend bool operator==(const xit& a, const xit& b) { return a.eq(b); }
        friend bool operator!=(const xit& a, const xit& b) { return not a.eq(b); }
        bool eq(const xit&) const;
        xit& operator--();
        xit operator--(int) = delete;
        xit& operator+=(std::ptrdiff_t n);
        xit& operator-=(std::ptrdiff_t n);
        V& operator[](std::ptrdiff_t n) const;
        friend xit operator+(xit a, std::ptrdiff_t n) { a += n; return a; }
        friend xit operator+(std::ptrdiff_t n, xit a) { a += n; return a; }
        friend xit operator-(xit a, std::ptrdiff_t n) { a -= n; return a; }
        friend std::ptrdiff_t operator-(const xit& a, const xit& b) { return a.sub(b); }
        friend bool operator<(const xit& a, const xit& b) { return a.lt(b); }
        friend bool operator>(const xit& a, const xit& b) { return b.lt(a); }
        friend bool operator<=(const xit& a, const xit& b) { return not b.lt(a); }
        friend bool operator>=(const xit& a, const xit& b) { return not a.lt(b); }
        std::ptrdiff_t sub(const xit&) const;
        bool lt(const xit&) const;
        void* p;
    };

    // Elements of which only some operations may throw
    struct mnc              // nothrow move construction, throwing move assignment
    {
        mnc() = delete;
        explicit mnc(int);
        mnc(const mnc&) = delete;
        mnc& operator=(const mnc&) = delete;
        mnc(mnc&&) noexcept;
        mnc& operator=(mnc&&) noexcept(false);
        ~mnc();
    };

    struct mna              // throwing move construction, nothrow move assignment
    {
        mna() = delete;
        explicit mna(int);
        mna(const mna&) = delete;
        mna& operator=(const mna&) = delete;
        mna(mna&&) noexcept(false);
        mna& operator=(mna&&) noexcept;
        ~mna();
    };

    struct mvm              // elements with their own iter_move, no iter_swap and nothing which may not throw
    {
        mvm() = delete;
        explicit mvm(int);
        mvm(const mvm&) = delete;
        mvm& operator=(const mvm&) = delete;
        mvm(mvm&&) noexcept(false);
        mvm& operator=(mvm&&) noexcept(false);
        ~mvm();
    };
    // No std:: template argument, hence no std::iter_swap found by ADL
    template<typename V, int Strength>
    struct mit
    {
        using iterator_category = std::conditional_t<Strength == 0, std::forward_iterator_tag,
            std::conditional_t<Strength == 1, std::bidirectional_iterator_tag, std::random_access_iterator_tag>>;
        using value_type = V;
        using difference_type = std::ptrdiff_t;
        using reference = V&;
        using pointer = V*;

        mit() = default;
        V& operator*() const noexcept { return *p; }
        V* operator->() const noexcept { return p; }
        mit& operator++() noexcept { ++p; return *this; }
        mit operator++(int) = delete;
        mit& operator--() noexcept { --p; return *this; }
        mit operator--(int) = delete;
        mit& operator+=(std::ptrdiff_t n) noexcept { p += n; return *this; }
        mit& operator-=(std::ptrdiff_t n) noexcept { p -= n; return *this; }
        V& operator[](std::ptrdiff_t n) const noexcept { return p[n]; }
        friend mit operator+(mit a, std::ptrdiff_t n) noexcept { a += n; return a; }
        friend mit operator+(std::ptrdiff_t n, mit a) noexcept { a += n; return a; }
        friend mit operator-(mit a, std::ptrdiff_t n) noexcept { a -= n; return a; }
        friend std::ptrdiff_t operator-(const mit& a, const mit& b) noexcept { return a.p - b.p; }
        friend bool operator==(const mit& a, const mit& b) noexcept { return a.p == b.p; }
        friend bool operator!=(const mit& a, const mit& b) noexcept { return a.p != b.p; }
        friend bool operator<(const mit& a, const mit& b) noexcept { return a.p < b.p; }
        friend bool operator>(const mit& a, const mit& b) noexcept { return a.p > b.p; }
        friend bool operator<=(const mit& a, const mit& b) noexcept { return a.p <= b.p; }
        friend bool operator>=(const mit& a, const mit& b) noexcept { return a.p >= b.p; }
        friend V&& iter_move(const mit& i) noexcept(false) { return own_move(i.p); }
        V* p = nullptr;
    };
    mvm&& own_move(mvm*);

    template<typename T>
    struct cmp_nt           // nothrow comparator
    {
        cmp_nt() = delete;
        explicit cmp_nt(int);
        cmp_nt(const cmp_nt&) noexcept;
        cmp_nt(cmp_nt&&) noexcept;
        cmp_nt& operator=(const cmp_nt&) noexcept;
        cmp_nt& operator=(cmp_nt&&) noexcept;
        ~cmp_nt();
        bool operator()(const T&, const T&) const noexcept;
        void* state;
    };

    template<typename V, typename K=key>
    struct proj_nt          // nothrow projection
    {
        proj_nt() = delete;
        explicit proj_nt(int);
        proj_nt(const proj_nt&) noexcept;
        proj_nt(proj_nt&&) noexcept;
        proj_nt& operator=(const proj_nt&) noexcept;
        proj_nt& operator=(proj_nt&&) noexcept;
        ~proj_nt();
        const K& operator()(const V&) const noexcept;
        void* state;
    };

    // A sorter of somebody else's: what the standard library would do with
    // the elements and the iterators
    struct user_sorter_impl
    {
        template<typename I, typename C=std::less<>, typename P=cppsort::utility::identity>
        auto operator()(I f, I l, C c={}, P p={}) const
            -> cppsort::detail::enable_if_t<cppsort::is_projection_iterator<P, I, C>::value>
        {
            auto&& comp = cppsort::utility::as_function(c);
            auto&& proj = cppsort::utility::as_function(p);
            using std::swap;
            using cppsort::utility::iter_move;
            for (I i = f; i != l; ++i) {
                if (comp(proj(*i), proj(*f))) {
                    auto tmp = iter_move(i);
                    *i = iter_move(f);
                    *f = std::move(tmp);
                } else if (comp(proj(*f), proj(*i))) {
                    *f = std::move(*i);
                } else {
                    swap(*f, *i);
                }
                auto a = iter_move(i), b = iter_move(f);
                auto d = std::move(a);
                a = std::move(b);
                b = std::move(d);
                *i = std::move(a);
                *f = std::move(b);
            }
        }
        using iterator_category = std::forward_iterator_tag;
        using is_always_stable = std::false_type;
    };
    struct user_sorter: cppsort::sorter_facade<user_sorter_impl> {};
}
#endif
