"""Metrics: exact counts, transparent forwarding, metric values."""
from common import *
from canon import Pairs, run_pairs
from witness import Unit, run_units
from p_forward import FORMS, PARAMS

H = ['cpp-sort/metrics/%s.h' % m for m in ('comparisons', 'moves', 'projections', 'running_time')] + \
    ['cpp-sort/adapters/counting_adapter.h', 'cpp-sort/utility/metrics_tools.h', 'mock.h']
# a sorter which compares, projects and moves elements any number of times
PRE = r'''
extern "C" { bool vp_next(); int vp_what(); }
namespace vp {
struct busy_impl {
    int s;
    constexpr busy_impl(int s = 0): s(s) {}
    using iterator_category = std::random_access_iterator_tag;
    using is_always_stable = std::false_type;
    template<class I, class C = std::less<>, class P = cppsort::utility::identity,
             class = std::enable_if_t<cppsort::is_projection_iterator_v<P, I, C>>>
    int operator()(I f, I l, C c = {}, P p = {}) const
    {
        vp_range(s, addr(f), addr(l));
        while (vp_next()) order(f, c, p);
        while (vp_next()) vp_keep(call(p, *f));
        return s;
    }
    template<class T> static void vp_keep(const T& t) { vp_result(reinterpret_cast<const int&>(t) != 0); }
};
struct busy: cppsort::sorter_facade<busy_impl> {
    busy() = default;
    explicit constexpr busy(int s): cppsort::sorter_facade<busy_impl>(s) {}
};
// what the same sorter does without any metric: number of comparisons and projections
template<class T> void keep(const T& t) { busy_impl::vp_keep(t); }
template<class C, class P>
unsigned long plain(int s, el* f, el* l, C c, P p, unsigned long comp, unsigned long proj)
{
    unsigned long n = 0;
    vp_range(s, f, l);
    while (vp_next()) { order(c, p); n += comp; }
    while (vp_next()) { keep(call(p, *f)); n += proj; }
    return n;
}
// a sorter which moves elements in every way, through iterators
template<int Mode>
struct mover_impl {
    using iterator_category = std::forward_iterator_tag;
    using is_always_stable = std::false_type;
    template<class I, class C = std::less<>, class P = cppsort::utility::identity,
             class = std::enable_if_t<cppsort::is_projection_iterator_v<P, I, C>>>
    void operator()(I f, I, C = {}, P = {}) const
    {
        using T = typename std::iterator_traits<I>::value_type;
        using cppsort::utility::iter_move;
        using cppsort::utility::iter_swap;
        auto g = f; ++g;
        if (Mode == 1) { T t(std::move(*f)); (void)t; }
        if (Mode == 2) { T t = iter_move(f); *f = std::move(t); }
        if (Mode == 3) { *f = std::move(*g); }
        if (Mode == 4) { *f = iter_move(g); *g = iter_move(f); }
        if (Mode == 5) { using std::swap; swap(*f, *g); }
        if (Mode == 6) { iter_swap(f, g); }
        if (Mode == 7) { std::iter_swap(f, g); }
        if (Mode == 8) { T t = iter_move(f); *f = iter_move(g); *g = std::move(t); iter_swap(f, g); }
        if (Mode == 9) { T a = iter_move(f); T b(std::move(a)); T c(std::move(b)); *g = std::move(c); }
    }
};
template<int Mode> struct mover: cppsort::sorter_facade<mover_impl<Mode>> {};
struct A {}; struct B {};
using cppsort::utility::metric;
using cppsort::utility::metrics;
}
'''
CALLS = {'none': ('', 'vp::lt{}', 'vp::id{}'), 'cmp': (', c', 'c', 'vp::id{}'), 'proj': (', p', 'vp::lt{}', 'p'), 'cmp+proj': (', c, p', 'c', 'p'),
         'pmd': (', &vp::el::member', 'vp::lt{}', '&vp::el::member'), 'cmp+pmd': (', c, &vp::el::member', 'c', '&vp::el::member'),
         'pmf': (', &vp::el::get', 'vp::lt{}', '&vp::el::get'), 'pmfcmp': (', &vp::el::less_than', '&vp::el::less_than', 'vp::id{}')}
RANGES = {'it': ('f, l', 'f', 'l'), 'lvalue': ('r', 'r.b', 'r.e'), 'rvalue': ('std::move(r)', 'r.b', 'r.e'), 'array': ('arr', 'arr', 'arr + 5')}
MOVES = {1: 1, 2: 2, 3: 1, 4: 2, 5: 3, 6: 3, 7: 3, 8: 6, 9: 4}


def stds(tier):
    return (14, 17, 20) if tier == 'thorough' else (14, 20)


def counts(c):
    c.explanation = (
        'Every metric is instantiated over a sorter making an unknown number of comparisons, projections or moves: the compiled call '
        'must make the very calls the sorter alone makes, on the same sequence, and return how many there were. Values of metrics '
        'are decided by the type checker and by comparing their operations with those of the wrapped values.')
    c.level = 'proof'
    pairs, wit = [], []
    for std in stds(c.tier):
        for state in ('{}', '(x)'):
            s = '0' if state == '{}' else 'x'
            u = Pairs('count_%s' % s, H, std, PRE)
            for f, (a, ec, ep) in CALLS.items():
                for how, (arg, b, e) in RANGES.items():
                    for name, comp, proj in (('metrics::comparisons', 1, 0), ('metrics::projections', 2, 1), ('counting_adapter', 1, 0)):
                        val = '' if name == 'counting_adapter' else '.value()'
                        for ct in ('', ', long long') if f in ('none', 'cmp+proj') else ('',):
                            u.add('count', '%s%s/%s/%s/%s' % (name, ct, f, how, s), PARAMS,
                                  'return (unsigned long) cppsort::%s<vp::busy%s>%s(%s%s)%s;' %
                                  (name, ct, '{}' if s == '0' else '(vp::busy(x))', arg, a, val),
                                  'return vp::plain(%s, %s, %s, %s, %s, %d, %d);' % (s, b, e, ec, ep, comp, proj), 'unsigned long')
                    u.add('running-time', '%s/%s/%s' % (f, how, s), PARAMS,
                          'return cppsort::metrics::running_time<vp::busy>%s(%s%s).value().count();' % ('{}' if s == '0' else '(vp::busy(x))', arg, a),
                          'auto t = std::chrono::steady_clock::now(); vp::plain(%s, %s, %s, %s, %s, 0, 0); '
                          'return (std::chrono::steady_clock::now() - t).count();' % (s, b, e, ec, ep), 'long')
            u.add('running-time', 'milliseconds/%s' % s, PARAMS,
                  'return cppsort::metrics::running_time<vp::busy, std::chrono::milliseconds>%s(f, l).value().count();' % ('{}' if s == '0' else '(vp::busy(x))'),
                  'auto t = std::chrono::steady_clock::now(); vp::plain(%s, f, l, vp::lt{}, vp::id{}, 0, 0); '
                  'return std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::steady_clock::now() - t).count();' % s, 'long')
            pairs.append(u)
        u = Pairs('moves', H, std, PRE)
        u.only = ('vp_result',)
        for mode, n in MOVES.items():
            for T in ('int', 'vp::el'):
                for how, par, arg in (('it', '%s* f' % T, 'f, f + 2'), ('array', '%s (&f)[2]' % T, 'f')):
                    for ct in ('', ', int'):
                        u.add('moves', '%d/%s/%s%s' % (mode, T, how, ct), par,
                              'auto n = cppsort::metrics::moves<vp::mover<%d>%s>{}(%s).value(); vp_result(n == %d);' % (mode, ct, arg, n),
                              'vp_result(true);')
        pairs.append(u)
        u = Pairs('values', H, std, PRE)
        V = 'int x, int y, long z'
        m, n, k = 'vp::metric<int, vp::A>(x)', 'vp::metric<int, vp::A>(y)', 'vp::metric<long, vp::A>(z)'
        for op in ('==', '!=', '<', '<=', '>', '>='):
            for key, l, r, w in (('same', m, n, 'x %s y'), ('other', m, k, 'x %s z'), ('other-left', k, m, 'z %s x'),
                                 ('value', m, 'y', 'x %s y'), ('value-left', 'x', n, 'x %s y')):
                u.add('metric', '%s/%s' % (op, key), V, 'return %s %s %s;' % (l, op, r), 'return %s;' % (w % op), 'bool')
        for key, e, w in (('value', m + '.value()', 'x'), ('conversion', 'static_cast<int>(%s)' % m, 'x'),
                          ('assign', '[&] { auto a = %s; a = %s; return a.value(); }()' % (m, n), 'y'),
                          ('assign-lvalue', '[&] { auto a = %s; const auto b = %s; a = b; return a.value(); }()' % (m, n), 'y'),
                          ('assign-value', '[&] { auto a = %s; a = y; return a.value(); }()' % m, 'y'),
                          ('assign-rvalue', '[&] { auto a = %s; a = y + 1; return a.value(); }()' % m, 'y + 1'),
                          ('assign-other', '[&] { auto a = %s; a = %s; return a.value(); }()' % (m, k), '(int) z'),
                          ('assign-other-lvalue', '[&] { auto a = %s; const auto b = %s; a = b; return a.value(); }()' % (m, k), '(int) z'),
                          ('assign-result', '[&] { auto a = %s; auto& b = (a = %s); return &a == &b && &a == &(a = y) && &a == &(a = %s); }()' % (m, n, k), 'true'),
                          ('copy', '[&] { auto a = %s; auto b = a; return b.value(); }()' % m, 'x')):
            u.add('metric', key, V, 'return %s;' % e, 'return %s;' % w, 'int')
        M = 'vp::metrics<vp::metric<int, vp::A>, vp::metric<long, vp::B>>'
        mk = '%s mm{vp::metric<int, vp::A>{x}, vp::metric<long, vp::B>{z}}; using std::get; ' % M
        for q, how in (('lvalue', 'mm'), ('const', 'static_cast<const %s&>(mm)' % M), ('rvalue', 'std::move(mm)'),
                       ('const-rvalue', 'static_cast<const %s&&>(mm)' % M)):
            for i, w in (('0', 'x'), ('1', 'z'), ('vp::A', 'x'), ('vp::B', 'z')):
                u.add('metrics', 'get<%s>/%s' % (i, q), V, mk + 'return get<%s>(%s).value();' % (i, how), 'return %s;' % w, 'long')
            u.add('metrics', 'copy/' + q, V, mk + '%s nn(%s); return get<0>(nn).value();' % (M, how), 'return x;', 'long')
            u.add('metrics', 'copy-braces/' + q, V, mk + 'auto nn{%s}; return get<1>(nn).value();' % how, 'return z;', 'long')
        u.add('metrics', 'single/copy', V, 'using std::get; vp::metrics<vp::metric<int, vp::A>> mm{%s}; vp::metrics<vp::metric<int, vp::A>> nn(mm); return get<0>(nn).value();' % m,
              'return x;', 'long')
        u.add('metrics', 'assign', V, mk + '%s nn{vp::metric<int, vp::A>{y}, vp::metric<long, vp::B>{y}}; nn = mm; return get<1>(nn).value();' % M, 'return z;', 'long')
        pairs.append(u)
        w = Unit('types', H, std, PRE, arch=False)

        def yes(rule, key, cond):
            w.ok(rule, key, '@static_assert(%s, "");' % cond)
        mi = 'vp::metric<int, vp::A>'
        yes('metric-type', 'explicit-construction', '!std::is_convertible<int, %s>::value && std::is_constructible<%s, int>::value' % (mi, mi))
        yes('metric-type', 'explicit-conversion', '!std::is_convertible<%s, int>::value && std::is_constructible<int, %s>::value' % (mi, mi))
        for o in ('vp::metric<int, vp::B>', 'vp::metric<long, vp::B>'):
            yes('metric-type', 'no-assign/' + o, '!std::is_assignable<%s&, %s>::value' % (mi, o))
            for op in ('==', '!=', '<', '<=', '>', '>='):
                w.reject('metric-type', 'no-%s/%s' % (op, o), '(void)(vp_lv<%s>() %s vp_lv<%s>());' % (mi, op, o))
        yes('metric-type', 'assign-other', 'std::is_assignable<%s&, vp::metric<long, vp::A>>::value && std::is_assignable<%s&, const vp::metric<long, vp::A>&>::value' % (mi, mi))
        yes('metric-type', 'nothrow', 'std::is_nothrow_constructible<%s, int>::value && std::is_nothrow_assignable<%s&, int>::value && '
            'std::is_nothrow_assignable<%s&, vp::metric<long, vp::A>>::value' % (mi, mi, mi))
        for name, tag in (('comparisons', 'comparisons_tag'), ('projections', 'projections_tag'), ('moves', 'moves_tag')):
            for ct in ('std::size_t', 'int', 'long long'):
                t = 'cppsort::metrics::%s<vp::busy%s>' % (name, '' if ct == 'std::size_t' else ', ' + ct)
                mt = 'cppsort::utility::metric<%s, cppsort::metrics::%s>' % (ct, tag)
                yes('metric-type', t, 'std::is_same<%s::metric_t, %s>::value && std::is_same<%s::tag_t, cppsort::metrics::%s>::value' % (t, mt, t, tag))
                for a in ('vp_v<vp::el*>(), vp_v<vp::el*>()', 'vp_lv<vp::rng>()', 'vp_lv<vp::rng>(), vp_v<vp::cmp>()', 'vp_lv<vp::rng>(), vp_v<vp::cmp>(), vp_v<vp::proj>()',
                          'vp_lv<vp::rng>(), vp_v<vp::proj>()'):
                    yes('metric-type', '%s(%s)' % (t, a), 'std::is_same<decltype(%s{}(%s)), %s>::value' % (t, a, mt))
        t = 'cppsort::metrics::running_time<vp::busy>'
        yes('metric-type', t, 'std::is_same<decltype(%s{}(vp_lv<vp::rng>())), cppsort::utility::metric<std::chrono::steady_clock::duration, cppsort::metrics::running_time_tag>>::value' % t)
        wit.append(w)
    run_pairs(c, pairs)
    run_units(c, wit)
    c.require('count', 250)
    c.require('moves', 60)
    c.require('metric', 60)
    c.require('metrics', 40)
    c.require('metric-type', 60)
