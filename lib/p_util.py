"""Sorting functions and function objects, and the utilities."""
import glob
import re
from common import *
from canon import Pairs, run_pairs
from witness import Unit, run_units
from p_forward import FORMS, FORMS20, PARAMS, inc, forms

# default_sorter is replaced by a sorter whose calls stay visible
ENTRY = '''#define CPPSORT_SORTERS_DEFAULT_SORTER_H_
#include <cpp-sort/adapters/stable_adapter.h>
namespace vp {
    template<class M> struct voided {
        using iterator_category = vp::ra;
        using is_always_stable = std::false_type;
        template<class... A> auto operator()(A&&... a) const -> decltype(M{}(std::forward<A>(a)...), void()) { M{}(std::forward<A>(a)...); }
    };
}
namespace cppsort {
    struct default_sorter: vp::voided<vp::mock<50, 15, 15>> {};
    template<> struct stable_adapter<default_sorter>: vp::voided<vp::mock<51, 15, 15, vp::ra, true>> {};
}
namespace vp {
    struct plain: vp::mock<7, 15, 15> {};
    struct always: vp::mock<8, 15, 15, vp::ra, true> {};
    struct itonly: vp::mock<9, 15, 0> {};
    struct forward: vp::mock<10, 15, 15, vp::fwd> {};
}
namespace cppsort {
    template<> struct stable_adapter<vp::plain>: vp::mock<17, 15, 15, vp::ra, true> {};
    template<> struct stable_adapter<vp::itonly>: vp::mock<19, 15, 0, vp::ra, true> {};
    template<> struct stable_adapter<vp::forward>: vp::mock<20, 15, 15, vp::fwd, true> {};
}
#include <cpp-sort/sort.h>
#include <cpp-sort/stable_sort.h>
'''
IT = {'pointer': ('f', 'l'), 'random access': ('(vp::wit<vp::ra>{f})', '(vp::wit<vp::ra>{l})')}


def entry(c):
    c.explanation = (
        'cppsort::sort and cppsort::stable_sort are called in every form with mock sorters, and a mock default_sorter: the optimised IR must '
        'be that of one call of the documented sorter with the same sequence and an equivalent comparison and projection, its result '
        'returned. Every sorter header defines the function object named after its sorter, of exactly its type; default_sorter and '
        'stable_adapter<default_sorter> are made of the documented sorters.')
    c.level = 'proof'
    units = []
    for std in (14, 17, 20):
        fs = forms(std)
        for fn in ('sort', 'stable_sort'):
            u = Pairs('entry_%s' % fn, inc(std), std, ENTRY)
            for f, (a, ec, ep) in fs.items():
                a = ', ' + a if a else ''
                tag = 50 if fn == 'sort' else 51
                for itn, (b, e) in IT.items():
                    u.add('default-sorter', '%s/%s/%s' % (fn, itn, f), PARAMS, 'cppsort::%s(%s, %s%s);' % (fn, b, e, a),
                          'vp::want_range(%d, f, l, %s, %s);' % (tag, ec, ep))
                for rn, r, w in (('lvalue', 'r', '&r'), ('const', '(const_cast<const vp::rng&>(r))', '&r'),
                                 ('rvalue', 'std::move(r)', '&r'), ('array', 'arr', '&arr')):
                    u.add('default-sorter', '%s/%s/%s' % (fn, rn, f), PARAMS, 'cppsort::%s(%s%s);' % (fn, r, a),
                          'vp::want_whole(%d, %s, %s, %s);' % (tag, w, ec, ep))
                for s, t, t2 in (('plain', 7, 17), ('always', 8, 8), ('itonly', 9, 19), ('forward', 10, 20)):
                    tag = t if fn == 'sort' else t2
                    for sn, se in (('rvalue', 'vp::%s{}' % s), ('lvalue', 's'), ('const', 'std::as_const(s)' if std > 14 else '(const vp::%s&)s' % s)):
                        pre = 'vp::%s s; (void)s; ' % s
                        for itn, (b, e) in IT.items():
                            u.add('given-sorter', '%s/%s/%s/%s/%s' % (fn, s, sn, itn, f), PARAMS,
                                  pre + 'return cppsort::%s(%s, %s, %s%s);' % (fn, se, b, e, a),
                                  'return vp::want_range(%d, f, l, %s, %s);' % (tag, ec, ep), 'int')
                        for rn, r, w in (('lvalue', 'r', '&r'), ('rvalue', 'std::move(r)', '&r')):
                            want = ('return vp::want_range(%d, r.begin(), r.end(), %s, %s);' % (tag, ec, ep) if s == 'itonly'
                                    else 'return vp::want_whole(%d, %s, %s, %s);' % (tag, w, ec, ep))
                            u.add('given-sorter', '%s/%s/%s/%s/%s' % (fn, s, sn, rn, f), PARAMS,
                                  pre + 'return cppsort::%s(%s, %s%s);' % (fn, se, r, a), want, 'int')
                if fn == 'sort':
                    for sn, se in (('rvalue', 'vp::stateful<>(x)'), ('lvalue', 's')):
                        pre = 'vp::stateful<> s(x); (void)s; '
                        u.add('same-sorter', '%s/it/%s' % (sn, f), PARAMS, pre + 'return cppsort::sort(%s, f, l%s);' % (se, a),
                              'vp_event(x); return x;', 'int')
                        u.add('same-sorter', '%s/range/%s' % (sn, f), PARAMS, pre + 'return cppsort::sort(%s, r%s);' % (se, a),
                              'vp_event(x); return x;', 'int')
            units.append(u)
    run_pairs(c, units)

    units = []
    for std in (14, 17, 20):
        n = 0
        for h in sorted(glob.glob(INC + '/cpp-sort/sorters/**/*.h', recursive=True) + glob.glob(INC + '/cpp-sort/fixed/*.h')):
            hp = os.path.relpath(h, INC)
            name = os.path.basename(h)[:-2]
            if name in ('default_sorter',) or '/fixed/' in hp:
                continue
            n += 1
            u = Unit('inst_' + name, [hp], std, flags=['-w'])
            obj = name.replace('_sorter', '_sort')
            if name == 'd_ary_heap_sorter':
                for d in (2, 3, 4, 7):
                    u.ok('function-object', '%s<%d>' % (obj, d),
                         '@static_assert(std::is_same<decltype(cppsort::%s<%d>), const cppsort::%s<%d>&>::value, "");' % (obj, d, name, d))
            else:
                t = 'cppsort::%s%s%s' % ('deprecated::' if name in ('drop_merge_sorter', 'split_sorter', 'verge_sorter') else '', name, '<>' if name in ('grail_sorter', 'wiki_sorter', 'block_sorter') else '')
                u.ok('function-object', obj, '@static_assert(std::is_same<decltype(cppsort::%s), const %s&>::value, "");' % (obj, t))
                u.ok('function-object', obj + '/unique', '@static_assert(&cppsort::%s == &cppsort::utility::static_const<%s>::value, "");' % (obj, t))
            units.append(u)
        u = Unit('default', ['cpp-sort/sorters/default_sorter.h'], std, flags=['-w'])
        comp = ('cppsort::self_sort_adapter<cppsort::hybrid_adapter<cppsort::small_array_adapter<cppsort::low_comparisons_sorter, '
                'std::make_index_sequence<14>>, cppsort::quick_sorter, cppsort::pdq_sorter>>')
        u.ok('default-made-of', 'default_sorter', '@static_assert(std::is_base_of<%s, cppsort::default_sorter>::value, "");' % comp)
        u.ok('default-made-of', 'stable_adapter', '@static_assert(std::is_base_of<cppsort::merge_sorter, cppsort::stable_adapter<cppsort::default_sorter>>::value, "");')
        units.append(u)
        if n < 30:
            raise Broken('only %d sorters seen' % n)
    run_units(c, units)
    c.require('default-sorter', 300)
    c.require('given-sorter', 2000)
    c.require('same-sorter', 100)
    c.require('function-object', 150)
    c.require('default-made-of', 6)


# ------------------------------------------------------------------ utilities
MOVES = '''
extern "C" { void vp_mc(void*, void*); void vp_ma(void*, void*); void vp_d(void*); void vp_sw(void*, void*);
             void vp_is(void*, void*); void* vp_im(void*); void vp_pa(void*, void*); void vp_pt(void*, void*); }
#define VP_ITER(name, val) struct name { using iterator_category = std::random_access_iterator_tag; using value_type = val; \\
    using difference_type = std::ptrdiff_t; using pointer = val*; using reference = val&; \\
    val* p; val& operator*() const { return *p; } val* operator->() const { return p; } \\
    name& operator++() { ++p; return *this; } name operator++(int) { auto t = *this; ++p; return t; } \\
    name& operator--() { --p; return *this; } name operator--(int) { auto t = *this; --p; return t; } \\
    name& operator+=(std::ptrdiff_t n) { p += n; return *this; } name& operator-=(std::ptrdiff_t n) { p -= n; return *this; } \\
    val& operator[](std::ptrdiff_t n) const { return p[n]; } \\
    friend name operator+(name a, std::ptrdiff_t n) { return {a.p + n}; } friend name operator+(std::ptrdiff_t n, name a) { return {a.p + n}; } \\
    friend name operator-(name a, std::ptrdiff_t n) { return {a.p - n}; } friend std::ptrdiff_t operator-(name a, name b) { return a.p - b.p; } \\
    friend bool operator==(name a, name b) { return a.p == b.p; } friend bool operator!=(name a, name b) { return a.p != b.p; } \\
    friend bool operator<(name a, name b) { return a.p < b.p; } friend bool operator>(name a, name b) { return a.p > b.p; } \\
    friend bool operator<=(name a, name b) { return a.p <= b.p; } friend bool operator>=(name a, name b) { return a.p >= b.p; } };
namespace um {
struct e1 { int v; e1(e1&& o) { vp_mc(this, &o); } e1& operator=(e1&& o) { vp_ma(this, &o); return *this; } ~e1() { vp_d(this); } };
struct e2 { int v; e2(e2&& o) { vp_mc(this, &o); } e2& operator=(e2&& o) { vp_ma(this, &o); return *this; } ~e2() { vp_d(this); }
            friend void swap(e2& a, e2& b) { vp_sw(&a, &b); } };
VP_ITER(i1, e1) VP_ITER(i2, e2) VP_ITER(im, e2) VP_ITER(is, e2) VP_ITER(ims, e2)
inline e2&& iter_move(im i) { return static_cast<e2&&>(*(e2*)vp_im(i.p)); }
inline e2&& iter_move(ims i) { return static_cast<e2&&>(*(e2*)vp_im(i.p)); }
inline void iter_swap(ims a, ims b) { vp_is(a.p, b.p); }
inline void iter_swap(is a, is b) { vp_is(a.p, b.p); }
}
'''


def utilities(c):
    c.explanation = (
        'Utilities are decided on the canonical IR of their calls with opaque operations (iter_move and iter_swap, size, adapter_storage, buffers, '
        'sorted_indices, sorted_iterators), and on constants the compiler evaluates (make_integer_range, max_for_size) against independent formulas.')
    c.level = 'proof'
    units = []
    for std in (14, 17, 20):
        u = Pairs('moves', ['iterator', 'cpp-sort/utility/iter_move.h'], std, MOVES)
        step = 'using cppsort::utility::iter_swap; using cppsort::utility::iter_move; '
        for name, v, sw, mv in (('um::e1*', 'e1', 'move', 'move'), ('um::e2*', 'e2', 'swap', 'move'), ('um::i1', 'e1', 'move', 'move'),
                                ('um::i2', 'e2', 'swap', 'move'), ('um::im', 'e2', 'iter_move', 'iter_move'),
                                ('um::is', 'e2', 'iter_swap', 'move'), ('um::ims', 'e2', 'iter_swap', 'iter_move')):
            def ref(i):
                return i
            mk = (lambda p: p) if name.endswith('*') else (lambda p, name=name: '%s{%s}' % (name, p))
            layers = [('', name, mk, 0)]
            if std < 20:
                layers += [('reverse', 'std::reverse_iterator<%s>' % name, lambda p, mk=mk, name=name: 'std::reverse_iterator<%s>(%s)' % (name, mk(p)), 1),
                           ('move', 'std::move_iterator<%s>' % name, lambda p, mk=mk, name=name: 'std::move_iterator<%s>(%s)' % (name, mk(p)), 0),
                           ('reverse reverse', 'x', lambda p, mk=mk, name=name: 'std::make_reverse_iterator(std::make_reverse_iterator(%s))' % mk(p), 0),
                           ('move reverse', 'x', lambda p, mk=mk, name=name: 'std::make_move_iterator(std::make_reverse_iterator(%s))' % mk(p), 1)]
            for ln, t, wrap, off in layers:
                a, b = ('(a - 1)', '(b - 1)') if off else ('a', 'b')
                m = {'move': lambda p: 'std::move(*%s)' % p, 'iter_move': lambda p: 'static_cast<um::%s&&>(*(um::%s*)vp_im(%s))' % (v, v, p)}[mv]
                by = {'iter_swap': 'vp_is(%s, %s);' % (a, b), 'swap': 'vp_sw(%s, %s);' % (a, b)}.get(
                    sw, 'um::%s t = %s; *%s = %s; *%s = std::move(t);' % (v, m(a), a, m(b), b))
                par = 'um::%s* a, um::%s* b' % (v, v)
                u.add('iter_swap', '%s/%s' % (name, ln), par, step + 'iter_swap(%s, %s);' % (wrap('a'), wrap('b')), by)
                u.add('iter_move', '%s/%s' % (name, ln), par, step + '*b = iter_move(%s);' % wrap('a'), '*b = %s;' % m(a))
                u.add('iter_move', '%s/%s/create' % (name, ln), par, step + 'um::%s t = iter_move(%s); vp_sw(&t, b);' % (v, wrap('a')),
                      'um::%s t = %s; vp_sw(&t, b);' % (v, m(a)))
        units.append(u)

        u = Pairs('vectors', inc(std, 'cpp-sort/utility/sorted_indices.h', 'cpp-sort/utility/sorted_iterators.h',
                                 'cpp-sort/utility/buffer.h', 'cpp-sort/utility/size.h', 'cpp-sort/utility/adapter_storage.h'), std, VECTORS)
        for f, (a, ec, ep) in forms(std).items():
            a = ', ' + a if a else ''
            for itn, mk in (('pointer', '%s'), ('random access', 'vp::wit<vp::ra>{%s}')):
                u.add('sorted_indices', '%s/%s' % (itn, f), PARAMS, 'cppsort::utility::sorted_indices<vp::indexer>{}(%s, %s%s);' % (mk % 'f', mk % 'l', a),
                      'vp::indexed(f, %s, %s);' % (ec, ep))
            for itn, mk in (('pointer', '%s'), ('random access', 'vp::wit<vp::ra>{%s}'), ('forward', 'vp::wit<vp::fwd>{%s}')):
                u.add('sorted_iterators', '%s/%s' % (itn, f), PARAMS, 'cppsort::utility::sorted_iterators<vp::iterer>{}(%s, %s%s);' % (mk % 'f', mk % 'l', a),
                      'vp::itered(%s, %s);' % (ec, ep))
        u.only = ['@vp_cmp', '@vp_kcmp', '@vp_less', '@vp_kless', '@vp_proj', '@vp_get', '@vp_memless', '@vp_result', '@vp_index', '@vp_iter']
        units.append(u)

        u = Pairs('small', inc(std, 'forward_list', 'cpp-sort/utility/buffer.h', 'cpp-sort/utility/size.h', 'cpp-sort/utility/adapter_storage.h'), std, VECTORS)
        u.add('size', 'member', 'const vp::sized& r', 'return cppsort::utility::size(r);', 'return vp_size(&r);', 'long')
        u.add('size', 'member of lvalue', 'vp::sized& r', 'return cppsort::utility::size(r);', 'return vp_size(&r);', 'long')
        u.add('size', 'distance', 'vp::el* f, vp::el* l', 'const vp::rng r{f, l}; return cppsort::utility::size(r);', 'return l - f;', 'long')
        u.add('size', 'distance of lvalue', 'vp::el* f, vp::el* l', 'vp::rng r{f, l}; return cppsort::utility::size(r);', 'return l - f;', 'long')
        u.add('size', 'non-const begin', 'vp::el* f, vp::el* l', 'vp::mutrng r{f, l}; return cppsort::utility::size(r);', 'return l - f;', 'long')
        u.add('size', 'distance of rvalue', 'vp::el* f, vp::el* l', 'return cppsort::utility::size(vp::rng{f, l});', 'return l - f;', 'long')
        u.add('dynamic_buffer', 'size', 'std::size_t n', 'cppsort::utility::dynamic_buffer<vp::policy>::buffer<int> b(n); return b.size();',
              'return n == 0 ? 0 : vp_policy(n);', 'std::size_t')
        u.add('dynamic_buffer', 'length', 'std::size_t n', 'cppsort::utility::dynamic_buffer<vp::policy>::buffer<char> b(n); return b.end() - b.begin();',
              'return n == 0 ? 0 : vp_policy(n);', 'long')
        u.add('dynamic_buffer', 'clength', 'std::size_t n', 'const cppsort::utility::dynamic_buffer<vp::policy>::buffer<char> b(n); return b.cend() - b.cbegin();',
              'return n == 0 ? 0 : vp_policy(n);', 'long')
        u.add('dynamic_buffer', 'subscript', 'std::size_t n, std::size_t i', 'cppsort::utility::dynamic_buffer<vp::policy>::buffer<char> b(n); return &b[i] - b.begin();',
              'if (n) vp_policy(n); return i;', 'long')
        u.add('dynamic_buffer', 'const length', 'std::size_t n', 'const cppsort::utility::dynamic_buffer<vp::policy>::buffer<char> b(n); return b.end() - b.begin();',
              'return n == 0 ? 0 : vp_policy(n);', 'long')
        for k, ty in (('kept', 'vp::fun<1>'), ('empty', 'vp::fun<0>')):
            t = 'cppsort::utility::adapter_storage<%s>' % ty
            mk = ty + '{x}' if k == 'kept' else ty + '{}'
            x = 'x' if k == 'kept' else '0'
            u.add('adapter_storage', k + '/const call', 'int x, int y', 'const %s s(%s); return s(y);' % (t, mk), 'return vp_call(%s, 0, y, 0);' % x, 'int')
            u.add('adapter_storage', k + '/call', 'int x, int y', '%s s(%s); return s(y, y);' % (t, mk),
                  'return vp_call(%s, %d, y, y);' % (x, 1 if k == 'kept' else 1), 'int')
            u.add('adapter_storage', k + '/get', 'int x, int y', '%s s(%s); return s.get().read();' % (t, mk), 'return %s;' % x, 'int')
            u.add('adapter_storage', k + '/get const', 'int x, int y', 'const %s s(%s); return s.get().read();' % (t, mk), 'return %s;' % x, 'int')
            u.add('adapter_storage', k + '/get rvalue', 'int x, int y', '%s s(%s); return std::move(s).get().read();' % (t, mk), 'return %s;' % x, 'int')
        units.append(u)
    run_pairs(c, units)

    units = []
    for std in (14, 17, 20):
        u = Unit('ranges', ['cpp-sort/utility/make_integer_range.h'], std, flags=['-w'], preamble='''
template<class T, T... I> constexpr bool vp_range_is(std::integer_sequence<T, I...>, T b, T e, T s)
{
    const T a[] = {I..., T()};
    std::size_t n = 0;
    if (b < e) { for (T v = b; v < e; ++n) { if (n >= sizeof...(I) || a[n] != v) return false; if (e - v <= s) { ++n; break; } v = T(v + s); } }
    else { for (T v = b; v > e; ++n) { if (n >= sizeof...(I) || a[n] != v) return false; if (v - e <= s) { ++n; break; } v = T(v - s); } }
    return n == sizeof...(I);
}
''')
        for t, vals in (('int', (-7, -1, 0, 1, 5, 12)), ('std::size_t', (0, 1, 5, 12)), ('short', (-3, 0, 8)), ('unsigned char', (0, 3, 250))):
            for b in vals:
                for e in vals:
                    for s in (1, 2, 3, 5):
                        u.ok('make_integer_range', '%s/%d/%d/%d' % (t, b, e, s),
                             '@static_assert(vp_range_is<%s>(cppsort::utility::make_integer_range<%s, %d, %d, %d>{}, %d, %d, %d), "");'
                             % (t, t, b, e, s, b, e, s))
                    u.ok('make_integer_range', '%s/%d/%d' % (t, b, e), '@static_assert(std::is_same<cppsort::utility::make_integer_range<%s, %d, %d>, '
                         'cppsort::utility::make_integer_range<%s, %d, %d, 1>>::value, "");' % (t, b, e, t, b, e))
                    if t == 'std::size_t':
                        u.ok('make_integer_range', 'index/%d/%d' % (b, e), '@static_assert(std::is_same<cppsort::utility::make_index_range<%d, %d, 2>, '
                             'cppsort::utility::make_integer_range<std::size_t, %d, %d, 2>>::value, "");' % (b, e, b, e))
        units.append(u)

        FORMULA = {'block': 'n == 0 ? 0 : n - 1', 'dis': 'n == 0 ? 0 : n - 1', 'exc': 'n == 0 ? 0 : n - 1', 'max': 'n == 0 ? 0 : n - 1',
                   'rem': 'n == 0 ? 0 : n - 1', 'runs': 'n == 0 ? 0 : n - 1', 'sus': 'n == 0 ? 0 : n - 1', 'par': 'n == 0 ? 0 : n - 1',
                   'enc': 'n == 0 ? 0 : (n + 1) / 2 - 1', 'mono': 'n == 0 ? 0 : (n + 1) / 2 - 1', 'ham': 'n', 'inv': 'n == 0 ? 0 : n * (n - 1) / 2',
                   'osc': 'n < 2 ? 0 : n * (n - 2) / 2'}
        probes = {os.path.basename(h)[:-2] for h in glob.glob(INC + '/cpp-sort/probes/*.h')}
        if probes != set(FORMULA):
            raise Broken('probes without a documented maximum: %s' % sorted(probes ^ set(FORMULA)))
        for p, f in FORMULA.items():
            u = Unit('max_' + p, ['cpp-sort/probes/%s.h' % p], std, flags=['-w'], preamble='''
template<class T> constexpr T vp_documented(T n) { return %s; }
template<class T, class P> constexpr bool vp_same(P, T from, T to) { for (T n = from; n < to; ++n) if (std::decay_t<P>::max_for_size(n) != vp_documented(n)) return false; return true; }
''' % f)
            for t in ('int', 'unsigned', 'long', 'unsigned long long', 'long long'):
                for a, b in ((0, 3000), (30000, 33000), (65000, 65800)) + (((3 * 10**9, 3 * 10**9 + 100),) if 'long' in t else ()):
                    if b * b > 2**31 and t == 'int' and p in ('inv', 'osc') or b * b > 2**32 and t == 'unsigned' and p in ('inv', 'osc'):
                        continue
                    if b > 10**9 and t == 'long long' and p in ('inv', 'osc'):
                        continue
                    u.ok('max_for_size', '%s/%s/%d' % (p, t, a), '@static_assert(vp_same<%s>(cppsort::probe::%s, %d, %d), "");' % (t, p, a, b))
                u.ok('max_for_size', '%s/%s/type' % (p, t), '@static_assert(std::is_same<decltype(cppsort::probe::%s.max_for_size(static_cast<%s>(0))), %s>::value, "");' % (p, t, t))
            units.append(u)

        u = Unit('types', ['vector', 'forward_list', 'cpp-sort/utility/size.h', 'cpp-sort/utility/buffer.h', 'cpp-sort/utility/adapter_storage.h',
                           'cpp-sort/utility/sorting_networks.h', 'cpp-sort/fixed/sorting_network_sorter.h'], std, flags=['-w'], preamble='''
struct vp_sz { short size() const; int* begin() const; int* end() const; };
template<int K> struct vp_fun { int s; int operator()(int) const noexcept; };
template<> struct vp_fun<0> { int operator()(int) const noexcept; };
struct vp_two { int s; char operator()(int); long operator()(int) const noexcept; };
struct vp_only { int s; int operator()(int&); };
struct vp_thr { vp_thr(const vp_thr&); vp_thr(vp_thr&&); vp_thr() noexcept(false); int operator()(int) const; int z; };
''')
        def same(rule, key, a, b):
            u.ok(rule, key, '@static_assert(std::is_same<%s, %s>::value, "");' % (a, b))
        same('size', 'member type', 'decltype(cppsort::utility::size(vp_sz{}))', 'short')
        same('size', 'vector', 'decltype(cppsort::utility::size(std::vector<int>{}))', 'std::vector<int>::size_type')
        same('size', 'forward_list', 'decltype(cppsort::utility::size(std::declval<std::forward_list<int>&>()))', 'std::forward_list<int>::difference_type')
        u.ok('size', 'array', '@int vp_arr7[7]; const int vp_carr3[3] = {}; static_assert(cppsort::utility::size(vp_arr7) == 7 && cppsort::utility::size(vp_carr3) == 3 && noexcept(cppsort::utility::size(vp_arr7)), "");')
        same('size', 'array type', 'decltype(cppsort::utility::size(std::declval<int(&)[4]>()))', 'std::size_t')
        same('size', 'const array type', 'decltype(cppsort::utility::size(std::declval<const int(&)[4]>()))', 'std::size_t')
        same('size', 'rvalue array type', 'decltype(cppsort::utility::size(std::declval<int(&&)[4]>()))', 'std::size_t')
        for n in (0, 1, 5, 512):
            for t in ('int', 'double'):
                b = 'cppsort::utility::fixed_buffer<%d>::buffer<%s>' % (n, t)
                u.ok('fixed_buffer', '%d/%s/size' % (n, t), '@constexpr bool vp_b_%d_%s(std::size_t k) { %s b(k); return b.size() == %d && b.end() - b.begin() == %d '
                     '&& b.cend() - b.cbegin() == %d; } static_assert(sizeof(%s) == sizeof(std::array<%s, %d>), "");' % (n, t, b, n, n, n, b, t, n))
                for m in ('begin', 'end'):
                    same('fixed_buffer', '%d/%s/%s' % (n, t, m), 'decltype(std::declval<%s&>().%s())' % (b, m), t + '*')
                    same('fixed_buffer', '%d/%s/const %s' % (n, t, m), 'decltype(std::declval<const %s&>().%s())' % (b, m), 'const %s*' % t)
                    same('fixed_buffer', '%d/%s/c%s' % (n, t, m), 'decltype(std::declval<const %s&>().c%s())' % (b, m), 'const %s*' % t)
                if n:
                    same('fixed_buffer', '%d/%s/[]' % (n, t), 'decltype(std::declval<%s&>()[0])' % b, t + '&')
                u.ok('fixed_buffer', '%d/%s/explicit' % (n, t), '@static_assert(!std::is_convertible<std::size_t, %s>::value && std::is_constructible<%s, std::size_t>::value, "");' % (b, b))
        k, e, h = ('cppsort::utility::adapter_storage<%s>' % x for x in ('vp_fun<1>', 'vp_fun<0>', 'vp_thr'))
        for q, r in (('&', '&'), (' const&', ' const&'), ('&&', '&&'), (' const&&', ' const&&')):
            same('adapter_storage', 'get%s' % q, 'decltype(std::declval<%s%s>().get())' % (k, q), 'vp_fun<1>' + r)
            u.ok('adapter_storage', 'noexcept get%s' % q, '@static_assert(noexcept(std::declval<%s%s>().get()), "");' % (h, q))
        same('adapter_storage', 'empty get', 'decltype(%s::get())' % e, 'vp_fun<0>')
        for key, x in (('empty', 'std::is_empty<%s>::value' % e), ('size', 'sizeof(%s) == sizeof(int)' % k), ('explicit', '!std::is_convertible<vp_fun<1>, %s>::value' % k),
                       ('noexcept', 'noexcept(std::declval<const %s&>()(1)) && noexcept(std::declval<const %s&>()(1)) && !noexcept(std::declval<const %s&>()(1))' % (k, e, h)),
                       ('construction', 'std::is_nothrow_constructible<%s, vp_fun<1>>::value && !std::is_nothrow_constructible<%s, vp_thr>::value && '
                        '!std::is_nothrow_constructible<%s, const vp_thr&>::value' % (k, h, h))):
            u.ok('adapter_storage', key, '@static_assert(%s, "");' % x)
        two, only = ('cppsort::utility::adapter_storage<%s>' % x for x in ('vp_two', 'vp_only'))
        same('adapter_storage', 'call', 'decltype(std::declval<%s&>()(1))' % two, 'char')
        same('adapter_storage', 'const call', 'decltype(std::declval<const %s&>()(1))' % two, 'long')
        same('adapter_storage', 'mutable call', 'decltype(std::declval<%s&>()(std::declval<int&>()))' % only, 'int')
        u.ok('adapter_storage', 'noexcept call', '@static_assert(!noexcept(std::declval<%s&>()(1)), "");' % two)
        for f in ('swap_index_pairs', 'swap_index_pairs_force_unroll'):
            for n in (0, 1, 2, 5):
                for a in ('', ', std::less<>{}', ', std::less<>{}, cppsort::utility::identity{}'):
                    u.ok('swap_index_pairs', '%s/%d/%d' % (f, n, a.count(',')), '{ int a[5]; cppsort::utility::%s(a, cppsort::sorting_network_sorter<%d>::index_pairs<int>()%s); }' % (f, n, a))
        units.append(u)
    run_units(c, units)
    for r, n in (('iter_swap', 70), ('iter_move', 150), ('sorted_indices', 60), ('sorted_iterators', 90), ('size', 27), ('dynamic_buffer', 15),
                 ('adapter_storage', 60), ('make_integer_range', 900), ('max_for_size', 700), ('fixed_buffer', 150), ('swap_index_pairs', 70)):
        c.require(r, n)


VECTORS = '''
#include <vector>
extern "C" { long vp_index(int) noexcept; void* vp_iter(int) noexcept; long vp_size(const void*) noexcept; std::size_t vp_policy(std::size_t) noexcept;
             int vp_call(int, int, int, int) noexcept; }
namespace vp {
struct sized { long size() const { return vp_size(this); } el* begin() const; el* end() const; };
struct mutrng { el* b; el* e; el* begin() { return b; } el* end() { return e; } };
struct policy { std::size_t operator()(std::size_t n) const { return vp_policy(n); } };
template<int K> struct fun { int s; int operator()(int a) const { return vp_call(s, 0, a, 0); } int operator()(int a, int b) const { return vp_call(s, 1, a, b); }
                             int read() const { return s; } };
template<> struct fun<0> { int operator()(int a) const { return vp_call(0, 0, a, 0); } int operator()(int a, int b) const { return vp_call(0, 1, a, b); } int read() const { return 0; } };
// sorters of indices and iterators, which compare two unknown ones
struct indexer_impl {
    using iterator_category = std::random_access_iterator_tag;
    using is_always_stable = std::false_type;
    template<class I, class C, class P, class = std::enable_if_t<cppsort::is_projection_iterator_v<P, I, C>>>
    void operator()(I, I, C c, P p) const
    { typename std::iterator_traits<I>::value_type a = vp_index(1), b = vp_index(2); vp_result(call(c, call(p, a), call(p, b))); }
};
struct indexer: cppsort::sorter_facade<indexer_impl> {};
template<class C, class P> void indexed(el* f, C c, P p)
{ long a = vp_index(1), b = vp_index(2); vp_result(call(c, call(p, f[a]), call(p, f[b]))); }
template<class I> struct mk { static I get(int k) { return {(el*)vp_iter(k)}; } };
template<class T> struct mk<T*> { static T* get(int k) { return (T*)vp_iter(k); } };
struct iterer_impl {
    using iterator_category = std::random_access_iterator_tag;
    using is_always_stable = std::false_type;
    template<class I, class C, class P, class = std::enable_if_t<cppsort::is_projection_iterator_v<P, I, C>>>
    void operator()(I, I, C c, P p) const
    { using V = typename std::iterator_traits<I>::value_type; V a = mk<V>::get(1), b = mk<V>::get(2); vp_result(call(c, call(p, a), call(p, b))); }
};
struct iterer: cppsort::sorter_facade<iterer_impl> {};
template<class C, class P> void itered(C c, P p)
{ el* a = (el*)vp_iter(1); el* b = (el*)vp_iter(2); vp_result(call(c, call(p, *a), call(p, *b))); }
}
'''
