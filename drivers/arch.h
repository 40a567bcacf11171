// Archetype types: each offers exactly the operations a documented concept
// grants, nothing more.  A library template instantiated with them can only
// be well-formed if it needs nothing beyond what the documentation promises.
#ifndef VP_ARCH_H
#define VP_ARCH_H
#include <cstddef>
#include <cstdint>
#include <functional>
#include <iterator>
#include <type_traits>
#include <utility>

namespace vp
{
    // ---------------------------------------------------------- value types

    // Key: the only thing archetype comparators may see when a projection
    // is in use.  No operators: it cannot be ordered without the comparator.
    struct key
    {
        key() = delete;
        explicit key(int);
        key(const key&) = delete;
        key(key&&);
        key& operator=(const key&) = delete;
        key& operator=(key&&) = delete;
        ~key();
        int v;
    };

    // Keys stored by schwartz_adapter are copied and moved around
    struct rkey
    {
        rkey() = delete;
        explicit rkey(int);
        rkey(const rkey&);
        rkey(rkey&&);
        rkey& operator=(const rkey&);
        rkey& operator=(rkey&&);
        ~rkey();
        int v;
    };

    // Move-only element, potentially throwing moves, no default constructor
    struct mv
    {
        mv() = delete;
        explicit mv(int);
        mv(const mv&) = delete;
        mv& operator=(const mv&) = delete;
        mv(mv&&) noexcept(false);
        mv& operator=(mv&&) noexcept(false);
        ~mv();

        bool mless(mv& other);          // usable as comparator: &mv::mless
        key& mkey();
        rkey& mrkey();                    // usable as projection: &mv::mkey
        key pkey();
        rkey prkey();                     // prvalue projection:   &mv::pkey
        int mint;
        rkey drkey;
        key dkey;
        void* pad;
    };

    // Same with noexcept moves
    struct mvn
    {
        mvn() = delete;
        explicit mvn(int);
        mvn(const mvn&) = delete;
        mvn& operator=(const mvn&) = delete;
        mvn(mvn&&) noexcept;
        mvn& operator=(mvn&&) noexcept;
        ~mvn();

        bool mless(mvn& other);
        key& mkey();
        rkey& mrkey();
        key pkey();
        rkey prkey();
        int mint;
        key dkey;
        rkey drkey;
    };

    // Trivially copyable, not default-constructible, no operators
    struct tv
    {
        tv() = delete;
        explicit tv(int);
        bool mless(tv& other);
        key& mkey();
        rkey& mrkey();
        key pkey();
        rkey prkey();
        int a, b, c;
        int mint;
    };

    // Copyable and default constructible but not ordered: what std:: or
    // buffer-provider based sorters are documented to require
    struct reg
    {
        reg() noexcept(false);
        explicit reg(int);
        reg(const reg&) noexcept(false);
        reg& operator=(const reg&) noexcept(false);
        reg(reg&&) noexcept(false);
        reg& operator=(reg&&) noexcept(false);
        ~reg();
        bool mless(reg& other);
        key& mkey();
        rkey& mrkey();
        key pkey();
        rkey prkey();
        int mint;
        key dkey;
        rkey drkey;
    };

    // Movable and default-constructible, not copyable
    struct dmv
    {
        dmv() noexcept(false);
        explicit dmv(int);
        dmv(const dmv&) = delete;
        dmv& operator=(const dmv&) = delete;
        dmv(dmv&&) noexcept(false);
        dmv& operator=(dmv&&) noexcept(false);
        ~dmv();
        bool mless(dmv& other);
        key& mkey();
        rkey& mrkey();
        key pkey();
        rkey prkey();
        int mint;
        key dkey;
        rkey drkey;
    };

    // Element that can never be moved, copied, swapped or assigned
    struct pinned
    {
        pinned() = delete;
        explicit pinned(int);
        pinned(const pinned&) = delete;
        pinned& operator=(const pinned&) = delete;
        ~pinned();
        key& mkey() const;
        key dkey;
        rkey drkey;
    };

    // ---------------------------------------------------------- iterators

    template<typename V, typename Cat, typename Diff=std::ptrdiff_t>
    struct it;

    template<typename V, typename Diff>
    struct it<V, std::forward_iterator_tag, Diff>
    {
        using iterator_category = std::forward_iterator_tag;
        using value_type = std::remove_const_t<V>;
        using difference_type = Diff;
        using reference = V&;
        using pointer = V*;

        it() = default;
        explicit it(V* p) noexcept: p(p) {}
        V& operator*() const noexcept { return *p; }
        V* operator->() const noexcept { return p; }
        it& operator++() noexcept { ++p; return *this; }
        it operator++(int) = delete;
        friend bool operator==(const it& a, const it& b) noexcept { return a.p == b.p; }
        friend bool operator!=(const it& a, const it& b) noexcept { return a.p != b.p; }
        V* p = nullptr;
    };

    template<typename V, typename Diff>
    struct it<V, std::bidirectional_iterator_tag, Diff>
    {
        using iterator_category = std::bidirectional_iterator_tag;
        using value_type = std::remove_const_t<V>;
        using difference_type = Diff;
        using reference = V&;
        using pointer = V*;

        it() = default;
        explicit it(V* p) noexcept: p(p) {}
        V& operator*() const noexcept { return *p; }
        V* operator->() const noexcept { return p; }
        it& operator++() noexcept { ++p; return *this; }
        it operator++(int) = delete;
        it& operator--() noexcept { --p; return *this; }
        it operator--(int) = delete;
        friend bool operator==(const it& a, const it& b) noexcept { return a.p == b.p; }
        friend bool operator!=(const it& a, const it& b) noexcept { return a.p != b.p; }
        V* p = nullptr;
    };

    template<typename V, typename Diff>
    struct it<V, std::random_access_iterator_tag, Diff>
    {
        using iterator_category = std::random_access_iterator_tag;
        using value_type = std::remove_const_t<V>;
        using difference_type = Diff;
        using reference = V&;
        using pointer = V*;

        it() = default;
        explicit it(V* p) noexcept: p(p) {}
        V& operator*() const noexcept { return *p; }
        V* operator->() const noexcept { return p; }
        it& operator++() noexcept { ++p; return *this; }
        it operator++(int) = delete;
        it& operator--() noexcept { --p; return *this; }
        it operator--(int) = delete;
        it& operator+=(Diff n) noexcept { p += n; return *this; }
        it& operator-=(Diff n) noexcept { p -= n; return *this; }
        V& operator[](Diff n) const noexcept { return p[n]; }
        friend it operator+(it a, Diff n) noexcept { a += n; return a; }
        friend it operator+(Diff n, it a) noexcept { a += n; return a; }
        friend it operator-(it a, Diff n) noexcept { a -= n; return a; }
        friend Diff operator-(const it& a, const it& b) noexcept { return static_cast<Diff>(a.p - b.p); }
        friend bool operator==(const it& a, const it& b) noexcept { return a.p == b.p; }
        friend bool operator!=(const it& a, const it& b) noexcept { return a.p != b.p; }
        friend bool operator<(const it& a, const it& b) noexcept { return a.p < b.p; }
        friend bool operator>(const it& a, const it& b) noexcept { return a.p > b.p; }
        friend bool operator<=(const it& a, const it& b) noexcept { return a.p <= b.p; }
        friend bool operator>=(const it& a, const it& b) noexcept { return a.p >= b.p; }
        V* p = nullptr;
    };

    // Offers every random-access operation but advertises a weaker category:
    // only the advertised category counts
    template<typename V, typename Tag>
    struct weak_it
    {
        using iterator_category = Tag;
        using value_type = V;
        using difference_type = std::ptrdiff_t;
        using reference = V&;
        using pointer = V*;

        weak_it() = default;
        explicit weak_it(V* p) noexcept: p(p) {}
        V& operator*() const noexcept { return *p; }
        V* operator->() const noexcept { return p; }
        weak_it& operator++() noexcept { ++p; return *this; }
        weak_it operator++(int) noexcept { auto t = *this; ++p; return t; }
        weak_it& operator--() noexcept { --p; return *this; }
        weak_it operator--(int) noexcept { auto t = *this; --p; return t; }
        weak_it& operator+=(std::ptrdiff_t n) noexcept { p += n; return *this; }
        weak_it& operator-=(std::ptrdiff_t n) noexcept { p -= n; return *this; }
        V& operator[](std::ptrdiff_t n) const noexcept { return p[n]; }
        friend weak_it operator+(weak_it a, std::ptrdiff_t n) noexcept { a += n; return a; }
        friend weak_it operator+(std::ptrdiff_t n, weak_it a) noexcept { a += n; return a; }
        friend weak_it operator-(weak_it a, std::ptrdiff_t n) noexcept { a -= n; return a; }
        friend std::ptrdiff_t operator-(const weak_it& a, const weak_it& b) noexcept { return a.p - b.p; }
        friend bool operator==(const weak_it& a, const weak_it& b) noexcept { return a.p == b.p; }
        friend bool operator!=(const weak_it& a, const weak_it& b) noexcept { return a.p != b.p; }
        friend bool operator<(const weak_it& a, const weak_it& b) noexcept { return a.p < b.p; }
        friend bool operator>(const weak_it& a, const weak_it& b) noexcept { return a.p > b.p; }
        friend bool operator<=(const weak_it& a, const weak_it& b) noexcept { return a.p <= b.p; }
        friend bool operator>=(const weak_it& a, const weak_it& b) noexcept { return a.p >= b.p; }
        V* p = nullptr;
    };

    // ------------------------------------------------------ proxy iterators
    //
    // operator* yields a prvalue; the only ways to move elements are
    // iter_move, iter_swap and assignment of an rvalue element through the
    // proxy.

    template<typename V>
    struct pref
    {
        explicit pref(V* p) noexcept: p(p) {}
        pref(const pref&) = default;
        pref& operator=(const pref&) = delete;
        const pref& operator=(V&& v) const { *p = std::move(v); return *this; }
        V* p;
    };
    template<typename V> void swap(pref<V>&, pref<V>&) = delete;
    template<typename V> void swap(pref<V>&&, pref<V>&&) = delete;

    template<typename V, typename Cat> struct pit;

    template<typename V>
    struct pit<V, std::forward_iterator_tag>
    {
        using iterator_category = std::forward_iterator_tag;
        using value_type = V;
        using difference_type = std::ptrdiff_t;
        using reference = pref<V>;
        using pointer = void;

        pit() = default;
        explicit pit(V* p) noexcept: p(p) {}
        pref<V> operator*() const noexcept { return pref<V>(p); }
        pit& operator++() noexcept { ++p; return *this; }
        pit operator++(int) = delete;
        friend bool operator==(const pit& a, const pit& b) noexcept { return a.p == b.p; }
        friend bool operator!=(const pit& a, const pit& b) noexcept { return a.p != b.p; }
        friend V&& iter_move(pit a) noexcept { return static_cast<V&&>(*a.p); }
        friend void iter_swap(pit a, pit b) { V t(std::move(*a.p)); *a.p = std::move(*b.p); *b.p = std::move(t); }
        V* p = nullptr;
    };

    template<typename V>
    struct pit<V, std::bidirectional_iterator_tag>
    {
        using iterator_category = std::bidirectional_iterator_tag;
        using value_type = V;
        using difference_type = std::ptrdiff_t;
        using reference = pref<V>;
        using pointer = void;

        pit() = default;
        explicit pit(V* p) noexcept: p(p) {}
        pref<V> operator*() const noexcept { return pref<V>(p); }
        pit& operator++() noexcept { ++p; return *this; }
        pit operator++(int) = delete;
        pit& operator--() noexcept { --p; return *this; }
        pit operator--(int) = delete;
        friend bool operator==(const pit& a, const pit& b) noexcept { return a.p == b.p; }
        friend bool operator!=(const pit& a, const pit& b) noexcept { return a.p != b.p; }
        friend V&& iter_move(pit a) noexcept { return static_cast<V&&>(*a.p); }
        friend void iter_swap(pit a, pit b) { V t(std::move(*a.p)); *a.p = std::move(*b.p); *b.p = std::move(t); }
        V* p = nullptr;
    };

    template<typename V>
    struct pit<V, std::random_access_iterator_tag>
    {
        using iterator_category = std::random_access_iterator_tag;
        using value_type = V;
        using difference_type = std::ptrdiff_t;
        using reference = pref<V>;
        using pointer = void;

        pit() = default;
        explicit pit(V* p) noexcept: p(p) {}
        pref<V> operator*() const noexcept { return pref<V>(p); }
        pit& operator++() noexcept { ++p; return *this; }
        pit operator++(int) = delete;
        pit& operator--() noexcept { --p; return *this; }
        pit operator--(int) = delete;
        pit& operator+=(std::ptrdiff_t n) noexcept { p += n; return *this; }
        pit& operator-=(std::ptrdiff_t n) noexcept { p -= n; return *this; }
        pref<V> operator[](std::ptrdiff_t n) const noexcept { return pref<V>(p + n); }
        friend pit operator+(pit a, std::ptrdiff_t n) noexcept { a += n; return a; }
        friend pit operator+(std::ptrdiff_t n, pit a) noexcept { a += n; return a; }
        friend pit operator-(pit a, std::ptrdiff_t n) noexcept { a -= n; return a; }
        friend std::ptrdiff_t operator-(const pit& a, const pit& b) noexcept { return a.p - b.p; }
        friend bool operator==(const pit& a, const pit& b) noexcept { return a.p == b.p; }
        friend bool operator!=(const pit& a, const pit& b) noexcept { return a.p != b.p; }
        friend bool operator<(const pit& a, const pit& b) noexcept { return a.p < b.p; }
        friend bool operator>(const pit& a, const pit& b) noexcept { return a.p > b.p; }
        friend bool operator<=(const pit& a, const pit& b) noexcept { return a.p <= b.p; }
        friend bool operator>=(const pit& a, const pit& b) noexcept { return a.p >= b.p; }
        friend V&& iter_move(pit a) noexcept { return static_cast<V&&>(*a.p); }
        friend void iter_swap(pit a, pit b) { V t(std::move(*a.p)); *a.p = std::move(*b.p); *b.p = std::move(t); }
        V* p = nullptr;
    };

    // ---------------------------------------------------------- comparators
    //
    // State is opaque and non-trivial: every copy, move and call is an
    // external function, which the IR analyses use as events.

    template<typename T>
    struct cmp_const            // const call operator, const references
    {
        cmp_const() = delete;
        explicit cmp_const(int);
        cmp_const(const cmp_const&);
        cmp_const(cmp_const&&);
        cmp_const& operator=(const cmp_const&);
        cmp_const& operator=(cmp_const&&);
        ~cmp_const();
        bool operator()(const T&, const T&) const;
        void* state;
    };

    template<typename T>
    struct cmp_mut              // non-const call operator, non-const references
    {
        cmp_mut() = delete;
        explicit cmp_mut(int);
        cmp_mut(const cmp_mut&);
        cmp_mut(cmp_mut&&);
        cmp_mut& operator=(const cmp_mut&);
        cmp_mut& operator=(cmp_mut&&);
        ~cmp_mut();
        bool operator()(T&, T&);
        void* state;
    };

    template<typename T>
    struct cmp_mutc             // non-const call operator, const references
    {
        cmp_mutc() = delete;
        explicit cmp_mutc(int);
        cmp_mutc(const cmp_mutc&);
        cmp_mutc(cmp_mutc&&);
        ~cmp_mutc();
        bool operator()(const T&, const T&);
        void* state;
    };

    // Cannot be derived from
    template<typename T>
    struct cmp_final final
    {
        cmp_final() = delete;
        explicit cmp_final(int);
        cmp_final(const cmp_final&);
        cmp_final(cmp_final&&);
        ~cmp_final();
        bool operator()(const T&, const T&) const;
        void* state;
    };

    // Comparators which see either an element or a proxy to one
    template<typename V>
    struct cmp_proxy
    {
        cmp_proxy() = delete;
        explicit cmp_proxy(int);
        cmp_proxy(const cmp_proxy&);
        cmp_proxy(cmp_proxy&&);
        cmp_proxy& operator=(const cmp_proxy&);
        cmp_proxy& operator=(cmp_proxy&&);
        ~cmp_proxy();
        bool operator()(const V&, const V&) const;
        bool operator()(const pref<V>&, const pref<V>&) const;
        bool operator()(const V&, const pref<V>&) const;
        bool operator()(const pref<V>&, const V&) const;
        void* state;
    };

    // ---------------------------------------------------------- projections

    template<typename V, typename K=key>
    struct proj_ref             // V& -> key&, non-const call operator
    {
        proj_ref() = delete;
        explicit proj_ref(int);
        proj_ref(const proj_ref&);
        proj_ref(proj_ref&&);
        proj_ref& operator=(const proj_ref&);
        proj_ref& operator=(proj_ref&&);
        ~proj_ref();
        K& operator()(V&);
        void* state;
    };

    template<typename V, typename K=key>
    struct proj_cref            // const V& -> const key&, non-const call operator
    {
        proj_cref() = delete;
        explicit proj_cref(int);
        proj_cref(const proj_cref&);
        proj_cref(proj_cref&&);
        ~proj_cref();
        const K& operator()(const V&);
        void* state;
    };

    template<typename V, typename K=key>
    struct proj_val             // V& -> key prvalue
    {
        proj_val() = delete;
        explicit proj_val(int);
        proj_val(const proj_val&);
        proj_val(proj_val&&);
        proj_val& operator=(const proj_val&);
        proj_val& operator=(proj_val&&);
        ~proj_val();
        K operator()(const V&) const;
        void* state;
    };

    // Returns a reference to its argument, and says so
    struct proj_same
    {
        proj_same() = delete;
        explicit proj_same(int);
        proj_same(const proj_same&);
        proj_same(proj_same&&);
        proj_same& operator=(const proj_same&);
        proj_same& operator=(proj_same&&);
        ~proj_same();
        template<typename T>
        T&& operator()(T&& value [[clang::lifetimebound]]) const { return static_cast<T&&>(value); }
    };

    template<typename V, typename K=key>
    struct proj_proxy
    {
        proj_proxy() = delete;
        explicit proj_proxy(int);
        proj_proxy(const proj_proxy&);
        proj_proxy(proj_proxy&&);
        proj_proxy& operator=(const proj_proxy&);
        proj_proxy& operator=(proj_proxy&&);
        ~proj_proxy();
        K& operator()(V&) const;
        K& operator()(const pref<V>&) const;
        void* state;
    };

    // A minimal iterable over the iterators above: begin/end only
    template<typename I>
    struct range
    {
        using iterator = I;
        using value_type = typename I::value_type;
        I begin() const;
        I end() const;
    };
}
#endif
