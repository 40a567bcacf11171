"""Forwarding and dispatch, decided on canonical IR (see canon.py)."""
import itertools
from common import *
from canon import Pairs, run_pairs

N, C, P, CP = 1, 2, 4, 8
SHAPES = {'N': N, 'NC': N | C, 'NP': N | P, 'NCX': N | C | CP, 'NCPX': N | C | P | CP,
          'NCP': N | C | P, 'NX': N | CP, 'NPX': N | P | CP}
# call form: (arguments, effective comparison, effective projection)
FORMS = {
    'none': ('', 'vp::lt{}', 'vp::id{}'),
    'cmp': ('c', 'c', 'vp::id{}'),
    'proj': ('p', 'vp::lt{}', 'p'),
    'cmp+proj': ('c, p', 'c', 'p'),
    'less': ('std::less<>{}', 'vp::lt{}', 'vp::id{}'),
    'ident': ('cppsort::utility::identity{}', 'vp::lt{}', 'vp::id{}'),
    'less+ident': ('std::less<>{}, cppsort::utility::identity{}', 'vp::lt{}', 'vp::id{}'),
    'less+proj': ('std::less<>{}, p', 'vp::lt{}', 'p'),
    'cmp+ident': ('c, cppsort::utility::identity{}', 'c', 'vp::id{}'),
    'pmd': ('&vp::el::member', 'vp::lt{}', '&vp::el::member'),
    'pmf': ('&vp::el::get', 'vp::lt{}', '&vp::el::get'),
    'cmp+pmd': ('c, &vp::el::member', 'c', '&vp::el::member'),
    'pmfcmp': ('&vp::el::less_than', '&vp::el::less_than', 'vp::id{}'),
}
FORMS20 = {
    'rless': ('std::ranges::less{}', 'vp::lt{}', 'vp::id{}'),
    'sident': ('std::identity{}', 'vp::lt{}', 'vp::id{}'),
    'rless+sident': ('std::ranges::less{}, std::identity{}', 'vp::lt{}', 'vp::id{}'),
    'less+sident': ('std::less<>{}, std::identity{}', 'vp::lt{}', 'vp::id{}'),
    'rless+proj': ('std::ranges::less{}, p', 'vp::lt{}', 'p'),
    'cmp+sident': ('c, std::identity{}', 'c', 'vp::id{}'),
}
PARAMS = 'vp::el* f, vp::el* l, vp::rng& r, vp::cmp c, vp::proj p, vp::el (&arr)[5], int x'


def forms(std):
    return dict(FORMS, **(FORMS20 if std >= 20 else {}))


def possible(m, f):
    """Documented: what sorter_facade can do with an implementation of shape m"""
    if f == 'none':
        return bool(m & N)
    if f in ('cmp', 'pmfcmp'):
        return bool(m & C)
    if f in ('proj', 'pmd', 'pmf', 'less+proj', 'rless+proj'):
        return bool(m & (C | P | CP))
    if f in ('cmp+proj', 'cmp+pmd', 'cmp+ident', 'cmp+sident'):
        return bool(m & (C | CP))
    return True


# the overloads which can do each form of call, most suitable first
SUITABLE = {'none': [N], 'cmp': [C], 'pmfcmp': [C], 'less': [C, N], 'rless': [C, N]}
SUITABLE.update(dict.fromkeys(['proj', 'pmd', 'pmf'], [P | CP, C]))
SUITABLE.update(dict.fromkeys(['ident', 'sident'], [P | CP, N | C]))
SUITABLE.update(dict.fromkeys(['cmp+proj', 'cmp+pmd', 'cmp+ident', 'cmp+sident'], [CP, C]))
SUITABLE.update(dict.fromkeys(['less+proj', 'rless+proj'], [CP, P, C]))
SUITABLE.update(dict.fromkeys(['less+ident', 'less+sident', 'rless+sident'], [CP, N | C | P]))


def suitability(m, f):
    """How suitable the best overload of an implementation of shape m is"""
    return min([k for k, l in enumerate(SUITABLE[f]) if m & l], default=9)


def stds(tier):
    return (14, 17, 20) if tier == 'thorough' else (14, 20)


def inc(std, *h):
    return (['ranges'] if std >= 20 else []) + ['functional'] + list(h) + ['mock.h']


def facade(c):
    c.explanation = (
        'sorter_facade is instantiated over mock implementations with every documented shape of '
        'iterator and iterable overloads, and called in every form of the unified sorting '
        'interface. The optimised IR of each call must be that of the specification: one call of '
        'the implementation, with exactly the given sequence and with a comparison and a '
        'projection whose combined effect on two elements is the requested one, and its result '
        'returned.')
    units = []
    for std in stds(c.tier):
        for i, im in SHAPES.items():
            for r, rm in dict(SHAPES, none=0).items():
                u = Pairs('f_%s_%s' % (i, r), inc(std), std)
                s = 'vp::mock<7, %d, %d>{}' % (im, rm)
                for f, (a, ec, ep) in forms(std).items():
                    if not possible(im, f):
                        continue
                    a = ', ' + a if a else ''
                    rng = 'return vp::want_range(7, %%s, %%s, %s, %s);' % (ec, ep)
                    u.add('iterators', '%s/%s/%s' % (i, r, f), PARAMS,
                          'return %s(f, l%s);' % (s, a), rng % ('f', 'l'), 'int')
                    # documented: the most suitable overload for ranges whenever there is one; when
                    # the one for iterators is more suitable, either can be argued for
                    whole = suitability(rm, f) <= suitability(im, f)
                    if not whole and suitability(rm, f) < 9:
                        continue
                    w = 'return vp::want_whole(7, &%%s, %s, %s);' % (ec, ep)
                    for how, arg, b, e in (('lvalue', 'r', 'r.b', 'r.e'),
                                           ('rvalue', 'std::move(r)', 'r.b', 'r.e'),
                                           ('array', 'arr', 'arr', 'arr + 5')):
                        u.add('iterable', '%s/%s/%s/%s' % (i, r, f, how), PARAMS,
                              'return %s(%s%s);' % (s, arg, a),
                              w % ('arr' if how == 'array' else 'r') if whole else rng % (b, e), 'int')
                units.append(u)
        # function pointers, one per form
        u = Pairs('fptr', inc(std), std)
        full = 'vp::mock<7, 11>'
        for ret in ('int', 'void'):
            rt = 'return ' if ret == 'int' else ''
            for f, types, args in (('none', '', ''), ('cmp', ', vp::cmp', ', c'), ('proj', ', vp::proj', ', p'),
                                   ('cmp+proj', ', vp::cmp, vp::proj', ', c, p')):
                ec, ep = FORMS[f][1:]
                want = 'vp::want_range(7, %%s, %s, %s);' % (ec, ep)
                u.add('function-pointer', 'it/%s/%s' % (f, ret), PARAMS,
                      '%s (*fp)(vp::el*, vp::el*%s) = %s{}; %sfp(f, l%s);' % (ret, types, full, rt, args),
                      rt + want % 'f, l', ret)
                u.add('function-pointer', 'lvalue/%s/%s' % (f, ret), PARAMS,
                      '%s (*fp)(vp::rng&%s) = %s{}; %sfp(r%s);' % (ret, types, full, rt, args),
                      rt + want % 'r.b, r.e', ret)
                u.add('function-pointer', 'rvalue/%s/%s' % (f, ret), PARAMS,
                      '%s (*fp)(vp::rng&&%s) = %s{}; %sfp(std::move(r)%s);' % (ret, types, full, rt, args),
                      rt + want % 'r.b, r.e', ret)
        u.add('state', 'constructor', PARAMS, 'vp::stateful<> s(x); return s(f, l, c, p);',
              'vp_event(x); return x;', 'int')
        u.add('state', 'copy', PARAMS, 'const vp::stateful<> s(x); auto t = s; return t(r, c);',
              'vp_event(x); return x;', 'int')
        units.append(u)
    run_pairs(c, units)
    c.require('iterators', 1500)
    c.require('iterable', 2500)
    c.require('function-pointer', 48)


# ------------------------------------------------------------------ dispatch
CATN = ['fwd', 'bidir', 'ra']


def hybrid_units(c):
    units = []
    H = ('cpp-sort/adapters/hybrid_adapter.h', 'cpp-sort/adapters/stable_adapter.h')
    lens = (1, 2, 3)
    for std in stds(c.tier):
        for n in lens:
            combos = list(itertools.product(itertools.product(range(3), (True, False)), repeat=n))
            for chunk in range(0, len(combos), 54):
                u = Pairs('h%d_%d' % (n, chunk), inc(std, *H), std)
                for combo in combos[chunk:chunk + 54]:
                    def names(stable):
                        ms = ['vp::mock<%d, %d, 0, vp::%s, %s>' % (k + 1, 11 if on else 0, CATN[cat],
                                                                  'true' if stable(k) or not on else 'false')
                              for k, (cat, on) in enumerate(combo)]
                        return ms, {
                            'flat': 'cppsort::hybrid_adapter<%s>' % ', '.join(ms),
                            'left': 'cppsort::hybrid_adapter<cppsort::hybrid_adapter<%s>, %s>' % (', '.join(ms[:-1]), ms[-1]),
                            'right': 'cppsort::hybrid_adapter<%s, cppsort::hybrid_adapter<%s>>' % (ms[0], ', '.join(ms[1:]))}

                    nestings = names(lambda k: True)[1]
                    if n < 3:
                        nestings = {'flat': nestings['flat']}
                    nestings['stable'] = 'cppsort::stable_adapter<%s>' % nestings['flat']
                    for it in range(3):
                        cand = [(-cat, k) for k, (cat, on) in enumerate(combo) if on and cat <= it]
                        if not cand:
                            continue
                        tag = min(cand)[1] + 1
                        # every sorter which is not called may be unstable
                        for w, t in names(lambda k: k == tag - 1)[1].items() if n == 3 else ():
                            nestings['stable-' + w] = 'cppsort::stable_adapter<%s>' % t
                        for nest, t in nestings.items():
                            key = '%s/%s/%s' % (','.join(CATN[a] + ('' if on else '!') for a, on in combo), CATN[it], nest)
                            W = 'vp::wit<vp::%s>' % CATN[it]
                            par = '%s f, %s l, vp::wrng<vp::%s>& r, vp::cmp c, vp::proj p' % (W, W, CATN[it])
                            u.add('hybrid-iterators', key, par, 'return %s{}(f, l, c, p);' % t,
                                  'return vp::want_range(%d, f.p, l.p, c, p);' % tag, 'int')
                            u.add('hybrid-iterable', key, par, 'return %s{}(r, c, p);' % t,
                                  'return vp::want_range(%d, r.b, r.e, c, p);' % tag, 'int')
                units.append(u)
    return units



def dispatch(c):
    """Everything else which selects between several ways to sort"""
    c.explanation = (
        'hybrid_adapter over every list of up to three mock sorters (category, callable or not; '
        'flat, nested, under stable_adapter), self_sort_adapter over every set of sort and '
        'stable_sort members, small_array_adapter over array sizes, stable_adapter over stable '
        'and unstable sorters and container_aware_adapter: the IR of each call must be that of '
        'the call the documentation selects.')
    units = hybrid_units(c) + self_sort_units(c) + small_array_units(c) + stable_units(c)
    run_pairs(c, units)
    c.require('hybrid-iterators', 2000)
    c.require('self-sort', 300)


def self_sort_units(c):
    units = []
    H = ('cpp-sort/adapters/self_sort_adapter.h', 'cpp-sort/adapters/stable_adapter.h',
         'cpp-sort/adapters/hybrid_adapter.h', 'list', 'forward_list')
    for std in stds(c.tier):
        for mask in range(16):
            u = Pairs('self_%d' % mask, inc(std, *H), std)
            par = 'vp::el* f, vp::el* l, vp::selfsort<%d>& r, vp::cmp c, vp::proj p' % mask
            for stable in (False, True):
                m = 'vp::mock<7, 11, 0, vp::ra, %s>' % str(stable).lower()
                plain = 'cppsort::self_sort_adapter<%s>' % m
                for f in ('none', 'cmp', 'proj', 'cmp+proj', 'pmd', 'pmfcmp'):
                    a, ec, ep = FORMS[f]
                    a = ', ' + a if a else ''
                    sort = {'none': mask & 1, 'cmp': mask & 2, 'pmfcmp': mask & 2}.get(f, 0)
                    ssort = {'none': mask & 4, 'cmp': mask & 8, 'pmfcmp': mask & 8}.get(f, 0)
                    two = f in ('cmp', 'pmfcmp')
                    w_sort = 'return vp::want_whole(%d, &r, %s, %s);' % (101 + two, ec, ep)
                    w_ssort = 'return vp::want_whole(%d, &r, %s, %s);' % (103 + two, ec, ep)
                    w_adapted = 'return vp::want_range(7, r.b, r.e, %s, %s);' % (ec, ep)
                    key = '%d/%s/%s' % (mask, f, 'stable' if stable else 'unstable')
                    for how, arg in (('lvalue', 'r'), ('rvalue', 'std::move(r)')):
                        if mask == 0 and how == 'rvalue':
                            continue
                        u.add('self-sort', key + '/' + how, par, 'return %s{}(%s%s);' % (plain, arg, a),
                              w_sort if sort else w_ssort if ssort else w_adapted, 'int')
                    u.add('self-sort', key + '/iterators', par, 'return %s{}(f, l%s);' % (plain, a),
                          'return vp::want_range(7, f, l, %s, %s);' % (ec, ep), 'int')
                    st = 'cppsort::stable_adapter<%s>' % plain
                    u.add('self-sort-stable', key, par, 'return %s{}(r%s);' % (st, a),
                          w_ssort if ssort else 'return cppsort::stable_adapter<%s>{}(r%s);' % (m, a), 'int')
                    u.add('self-sort-stable', key + '/iterators', par, 'return %s{}(f, l%s);' % (st, a),
                          'return cppsort::stable_adapter<%s>{}(f, l%s);' % (m, a), 'int')
            units.append(u)
        u = Pairs('self_lists', inc(std, *H), std, LISTS)
        m = 'vp::mock<7, 11>'
        mf = 'vp::mock<8, 15, 0, vp::fwd>'
        plain = 'cppsort::self_sort_adapter<%s>' % m
        for stable in ('', 'stable'):
            t = 'cppsort::stable_adapter<%s>' % plain if stable else plain
            for l in ('list', 'forward_list'):
                par = 'std::%s<vp::el>& r, vp::cmp c' % l
                u.add('self-sort-list', '%s/%s/none' % (l, stable), par, '%s{}(r);' % t, 'r.sort();')
                u.add('self-sort-list', '%s/%s/cmp' % (l, stable), par, '%s{}(r, c);' % t, 'r.sort(c);')
                ad = 'cppsort::stable_adapter<%s>' % mf if stable else mf
                tf = t.replace(m, mf)
                for a in ('p', 'c, p', 'std::less<>{}, p', '&vp::el::member', '&vp::el::get'):
                    u.add('self-sort-list', '%s/%s/%s' % (l, stable, a), par + ', vp::proj p',
                          'return %s{}(r, %s);' % (tf, a), 'return %s{}(r, %s);' % (ad, a), 'int')
        units.append(u)
    return units


LISTS = """
template<> void std::list<vp::el>::sort();
template<> template<> void std::list<vp::el>::sort(vp::cmp);
template<> void std::forward_list<vp::el>::sort();
template<> template<> void std::forward_list<vp::el>::sort(vp::cmp);
"""

SMALL = """
template<std::size_t N> struct vp_fixed: vp::mock<int(1000 + N), 11, 0> {};
template<std::size_t N> struct vp_dom: vp::mock<int(2000 + N), 11, 0> {};
namespace cppsort {
template<> struct fixed_sorter_traits<::vp_fixed> {
    using iterator_category = std::random_access_iterator_tag;
    using is_always_stable = std::false_type;
};
template<> struct fixed_sorter_traits<::vp_dom> {
    using domain = std::index_sequence<2, 3, 5>;
    using iterator_category = std::random_access_iterator_tag;
    using is_always_stable = std::false_type;
};
}
"""


def small_array_units(c):
    units = []
    H = ('cpp-sort/adapters/small_array_adapter.h', 'cpp-sort/adapters/hybrid_adapter.h')
    for std in stds(c.tier):
        u = Pairs('small', inc(std, *H), std, '#include <cpp-sort/sorter_traits.h>\n' + SMALL)
        for name, t, sizes, base in (
                ('void', 'cppsort::small_array_adapter<vp_fixed, void>', range(1, 8), 1000),
                ('default', 'cppsort::small_array_adapter<vp_fixed>', range(1, 8), 1000),
                ('indices', 'cppsort::small_array_adapter<vp_fixed, std::index_sequence<1, 4, 6>>', (1, 4, 6), 1000),
                ('domain', 'cppsort::small_array_adapter<vp_dom>', (2, 3, 5), 2000),
                ('narrowed', 'cppsort::small_array_adapter<vp_dom, std::index_sequence<3>>', (3,), 2000)):
            for n in range(1, 8):
                for f in ('none', 'cmp', 'proj', 'cmp+proj'):
                    a, ec, ep = FORMS[f]
                    a = ', ' + a if a else ''
                    par = 'vp::el (&a)[%d], std::array<vp::el, %d>& s, vp::cmp c, vp::proj p' % (n, n)
                    key = '%s/%d/%s' % (name, n, f)
                    hyb = 'cppsort::hybrid_adapter<vp::mock<9, 11>, %s>' % t
                    hyb2 = 'cppsort::hybrid_adapter<%s, vp::mock<9, 11>>' % t
                    inside = n in sizes
                    for how, arg, b in (('c-array', 'a', 'a'), ('std-array', 's', 's.data()')):
                        tag = base + n if inside else 9
                        want = 'return vp::want_range(%d, %s, %s + %d, %s, %s);'
                        if inside:
                            u.add('small-array', key + '/' + how, par, 'return %s{}(%s%s);' % (t, arg, a),
                                  want % (tag, b, b, n, ec, ep), 'int')
                        else:
                            u.add('small-array', key + '/' + how + '/refused', par,
                                  'return cppsort::is_sorter_v<%s, decltype(%s)> ? 1 : 0;' % (t, arg),
                                  'return 0;', 'int')
                        u.add('small-array-hybrid', key + '/' + how, par, 'return %s{}(%s%s);' % (hyb2, arg, a),
                              want % (tag, b, b, n, ec, ep), 'int')
                        u.add('small-array-hybrid', key + '/' + how + '/second', par,
                              'return %s{}(%s%s);' % (hyb, arg, a), want % (9, b, b, n, ec, ep), 'int')
        units.append(u)
    return units


def stable_units(c):
    units = []
    H = ('cpp-sort/adapters/stable_adapter.h', 'cpp-sort/adapters/container_aware_adapter.h',
         'cpp-sort/sorters/heap_sorter.h')
    for std in stds(c.tier):
        u = Pairs('stable', inc(std, *H), std, ''.join(
            'template<class... A> struct cppsort::is_stable<vp::mock<%d, 15, 0, vp::ra, false>(%s)>: std::true_type {};\n' % x
            for x in ((20, 'vp::rng&, A...'), (21, 'vp::rng, A...'), (22, 'vp::el(&)[8], A...'))))
        for f, (a, ec, ep) in forms(std).items():
            a = ', ' + a if a else ''
            st = 'vp::mock<7, 15, 0, vp::ra, true>'
            un = 'vp::mock<7, 15, 0, vp::ra, false>'
            want = 'return vp::want_range(7, f, l, %s, %s);' % (ec, ep)
            for nest in ('cppsort::stable_adapter<%s>', 'cppsort::stable_t<%s>',
                         'cppsort::stable_adapter<cppsort::stable_adapter<%s>>'):
                t = nest % st
                u.add('stable-adapter', 'stable/%s/%s' % (nest, f), PARAMS, 'return %s{}(f, l%s);' % (t, a), want, 'int')
                u.add('stable-adapter', 'stable/%s/%s/range' % (nest, f), PARAMS, 'return %s{}(r%s);' % (t, a),
                      want.replace('f, l', 'r.b, r.e'), 'int')
                t = nest % un
                u.add('stable-adapter', 'unstable/%s/%s' % (nest, f), PARAMS, 'return %s{}(f, l%s);' % (t, a),
                      'return cppsort::make_stable<%s>{}(f, l%s);' % (un, a), 'int')
                u.add('stable-adapter', 'unstable/%s/%s/range' % (nest, f), PARAMS, 'return %s{}(r%s);' % (t, a),
                      'return cppsort::make_stable<%s>{}(r%s);' % (un, a), 'int')
            # stability which depends on the call
            for tag, (args, yes) in {20: ('vp::rng&, A...', True), 21: ('vp::rng, A...', False),
                                     22: ('vp::el(&)[8], A...', False)}.items():
                t = 'vp::mock<%d, 15, 0, vp::ra, false>' % tag
                for w in ('cppsort::stable_adapter<%s>', 'cppsort::stable_t<%s>'):
                    u.add('stable-adapter', 'per-call/%d/%s/%s' % (tag, w, f), PARAMS, 'return %s{}(r%s);' % (w % t, a),
                          want.replace('f, l', 'r.b, r.e').replace('(7', '(%d' % tag) if yes else
                          'return cppsort::make_stable<%s>{}(r%s);' % (t, a), 'int')
            # containers without a dedicated algorithm
            u.add('container-aware', '%s/iterators' % f, PARAMS,
                  'return cppsort::container_aware_adapter<%s>{}(f, l%s);' % (un, a), want, 'int')
            u.add('container-aware', '%s/range' % f, PARAMS,
                  'return cppsort::container_aware_adapter<%s>{}(r%s);' % (un, a),
                  want.replace('f, l', 'r.b, r.e'), 'int')
        units.append(u)
    return units


# ----------------------------------------------------------------- adapters
def adapters(c):
    c.explanation = (
        'Adapters over mock sorters: those which hand the sequence over must hand exactly the '
        'given sequence, comparison and projection to the adapted sorter and return its result; '
        'every adapter must use the copy of the sorter it was given.')
    units = forwarding_units(c) + state_units(c)
    run_pairs(c, units)
    state_flow(c)


def forwarding_units(c):
    units = []
    H = ['cpp-sort/adapters/%s_adapter.h' % a for a in ('counting', 'self_sort', 'hybrid', 'stable', 'container_aware')]
    for std in stds(c.tier):
        u = Pairs('forward', inc(std, *H), std)
        m = 'vp::mock<7, 15>'
        for f, (a, ec, ep) in forms(std).items():
            a = ', ' + a if a else ''
            for how, arg, b, e in (('it', 'f, l', 'f', 'l'), ('lvalue', 'r', 'r.b', 'r.e'),
                                   ('rvalue', 'std::move(r)', 'r.b', 'r.e'), ('array', 'arr', 'arr', 'arr + 5')):
                for ct in ('', ', unsigned char', ', long long'):
                    u.add('counting', '%s/%s%s' % (f, how, ct), PARAMS,
                          'return (int) cppsort::counting_adapter<%s%s>{}(%s%s);' % (m, ct, arg, a),
                          'vp::want_range(7, %s, %s, %s, %s); return 1;' % (b, e, ec, ep), 'int')
                for name, t in (('self_sort', 'cppsort::self_sort_adapter<%s>' % m),
                                ('hybrid', 'cppsort::hybrid_adapter<%s>' % m),
                                ('container_aware', 'cppsort::container_aware_adapter<%s>' % m)):
                    if name == 'container_aware' and how == 'rvalue':
                        continue
                    u.add('forwards', '%s/%s/%s' % (name, f, how), PARAMS, 'return %s{}(%s%s);' % (t, arg, a),
                          'return vp::want_range(7, %s, %s, %s, %s);' % (b, e, ec, ep), 'int')
        units.append(u)
    return units


ONE = ['counting_adapter', 'self_sort_adapter', 'hybrid_adapter', 'stable_adapter', 'make_stable',
       'container_aware_adapter', 'drop_merge_adapter', 'indirect_adapter', 'out_of_place_adapter',
       'schwartz_adapter', 'split_adapter', 'verge_adapter']
RETURNS = {'counting_adapter': None, 'drop_merge_adapter': None, 'split_adapter': None, 'verge_adapter': None,
           'indirect_adapter': 17, 'out_of_place_adapter': 17}


def headers_of(t):
    import re
    out = set()
    for w in re.findall(r'\w+', t):
        if w.endswith('_adapter'):
            out.add('cpp-sort/adapters/%s.h' % w)
        elif w == 'make_stable':
            out.add('cpp-sort/adapters/stable_adapter.h')
    return sorted(out)


def state_units(c):
    """Copies of the adapted sorters, get(), emptiness, function pointers"""
    units = []
    for std in stds(c.tier):
        for a in ONE:
            u = Pairs('state_' + a, inc(std, *headers_of(a)), std)
            q = 'cppsort::' + a
            st, em = 'vp::stateful<>', 'vp::mock<7, 15>'
            t, e = '%s<%s>' % (q, st), '%s<%s>' % (q, em)
            u.add('stored-copy', a + '/is-empty', PARAMS,
                  'return std::is_empty<%s>::value && std::is_default_constructible<%s>::value;' % (e, e),
                  'return true;', 'bool')
            u.add('stored-copy', a + '/not-empty', PARAMS, 'return std::is_empty<%s>::value;' % t,
                  'return false;', 'bool')
            if a != 'hybrid_adapter':
                u.add('get', a + '/const', PARAMS, 'const %s s{%s(x)}; return s.get().s;' % (t, st), 'return x;', 'int')
                u.add('get', a + '/mutable', PARAMS, '%s s{%s(x)}; s.get().s = 3; return s.get().s;' % (t, st),
                      'return 3;', 'int')
                for cv, expect in (('&', '%s&'), ('const&', 'const %s&'), ('&&', '%s&&'), ('const&&', 'const %s&&')):
                    obj = 'static_cast<%s %s>(s)' % (('const ' if 'const' in cv else '') + t, cv.replace('const', ''))
                    u.add('get', a + '/' + cv, PARAMS,
                          '%s s{%s(x)}; return std::is_same<decltype(%s.get()), %s>::value;' % (t, st, obj, expect % st),
                          'return true;', 'bool')
                u.add('get', a + '/empty', PARAMS,
                      'return std::is_same<std::decay_t<decltype(%s{}.get())>, %s>::value;' % (e, em), 'return true;', 'bool')
            # the adapter is a constant whenever its sorter is
            get = 's.get().s' if a != 'hybrid_adapter' else '3'
            u.add('constant', a + '/kept', PARAMS, 'constexpr %s s{%s(3)}; return %s;' % (t, st, get), 'return 3;', 'int')
            u.add('constant', a + '/const', PARAMS, 'constexpr %s k(3); constexpr %s s(k); constexpr auto s2 = s; (void)s2; return %s;' % (st, t, get), 'return 3;', 'int')
            u.add('constant', a + '/empty', PARAMS, 'constexpr %s k{}; constexpr %s s(k); constexpr %s s2{}; (void)s2; (void)s; return 3;' % (em, e, e), 'return 3;', 'int')
            if a not in ('hybrid_adapter', 'self_sort_adapter'):
                u.add('constant', a + '/explicit', PARAMS, 'return std::is_convertible<%s, %s>::value;' % (st, t), 'return false;', 'bool')
            # result
            res = RETURNS.get(a, 14)
            if a == 'counting_adapter':
                pass
            elif res is None:
                pass
            elif std >= res:
                for how in ('f, l', 'f, l, c', 'f, l, c, p', 'r', 'r, c', 'r, c, p', 'r, p', 'arr'):
                    u.add('result', a + '/' + how, PARAMS,
                          'return std::is_same<decltype(%s{}(%s)), int>::value;' % (e, how), 'return true;', 'bool')
            # function pointers
            if a == 'counting_adapter' or res is None:
                rt, ret = ('std::size_t', 'return ') if a == 'counting_adapter' else ('void', '')
            else:
                rt, ret = ('int', 'return ') if std >= res else ('void', '')
            for types, args in (('vp::el*, vp::el*', 'f, l'), ('vp::el*, vp::el*, vp::cmp', 'f, l, c'),
                                ('vp::el*, vp::el*, vp::proj', 'f, l, p'),
                                ('vp::el*, vp::el*, vp::cmp, vp::proj', 'f, l, c, p'),
                                ('vp::rng&', 'r'), ('vp::rng&, vp::cmp', 'r, c'), ('vp::rng&, vp::proj', 'r, p'),
                                ('vp::rng&, vp::cmp, vp::proj', 'r, c, p')):
                u.add('function-pointer', '%s/%s' % (a, types), PARAMS,
                      '%s (*fp)(%s) = %s{}; %sfp(%s);' % (rt, types, e, ret, args),
                      '%s%s{}(%s);' % (ret, e, args), rt)
            units.append(u)
    return units


NESTED = ['counting_adapter<%s>', 'self_sort_adapter<%s>', 'hybrid_adapter<%s>', 'stable_adapter<%s>',
          'make_stable<%s>', 'container_aware_adapter<%s>', 'drop_merge_adapter<%s>', 'indirect_adapter<%s>',
          'out_of_place_adapter<%s>', 'schwartz_adapter<%s>', 'split_adapter<%s>', 'verge_adapter<%s>',
          'stable_adapter<verge_adapter<%s>>', 'stable_adapter<self_sort_adapter<%s>>',
          'stable_adapter<hybrid_adapter<%s>>', 'stable_adapter<stable_adapter<%s>>',
          'stable_adapter<hybrid_adapter<hybrid_adapter<%s>>>',
          'schwartz_adapter<schwartz_adapter<%s>>', 'hybrid_adapter<hybrid_adapter<%s>>',
          'self_sort_adapter<indirect_adapter<%s>>', 'stable_adapter<schwartz_adapter<%s>>',
          'schwartz_adapter<out_of_place_adapter<%s>>', 'counting_adapter<stable_adapter<%s>>']


def state_flow(c):
    """Whatever an adapter does with the sequence, every call of the adapted
    sorter is a call of the copy which was given to its constructor."""
    import os
    import re
    from canon import tool
    from common import clang_args
    jobs = []
    for std in stds(c.tier):
        for n, t in enumerate(NESTED):
            # build the nested constructor expression with explicit types
            names = re.findall(r'(\w+)<', t)
            ty = 'vp::stateful<>'
            expr = 'vp::stateful<>(x)'
            for w in reversed(names):
                ty = 'cppsort::%s<%s>' % (w, ty)
                expr = '%s(%s)' % (ty, expr)
            jobs.append((std, n, t, ty, expr, headers_of(t)))

    def one(j):
        std, n, t, ty, expr, heads = j
        fname = os.path.join(c.work, 'flow_%d_%d.cpp' % (std, n))
        text = ''.join('#include <%s>\n' % h for h in inc(std, *heads))
        calls = ['f, l', 'f, l, c', 'f, l, c, p', 'r', 'r, c, p', 'r, p']
        for k, a in enumerate(calls):
            text += ('extern "C" void vp_got_%d(int x, vp::el* f, vp::el* l, vp::rng& r, vp::cmp c, vp::proj p) '
                     '{ const %s s = %s; auto copy = s; copy(%s); }\n' % (k, ty, expr, a))
        with open(fname, 'w') as f:
            f.write(text)
        out = fname[:-4] + '.bc'
        cmd = clang_args(std, ['-O2', '-fno-vectorize', '-mllvm', '-inline-threshold=1000000',
                               '-mllvm', '-inlinehint-threshold=1000000',  '-emit-llvm', '-c', fname, '-o', out])
        r = sh(cmd)
        if r.returncode:
            return j, None, r.stderr, cmd, calls
        r = sh([tool('canon'), out])
        if r.returncode:
            raise Broken('canon failed')
        return j, r.stdout, '', cmd, calls

    tool('canon')
    for (std, n, t, ty, expr, heads), out, err, cmd, calls in pmap(one, jobs):
        if out is None:
            d = [x for x in err.splitlines() if ' error: ' in x]
            c.fail('stored-copy-used', t, '%s cannot be built from its sorter and called: %s'
                   % (t, d[0] if d else err[:300]), ' '.join(cmd) + '\n' + err[:3000])
            continue
        cur, seen = None, {}
        for line in out.splitlines():
            if line.startswith('=== '):
                cur = int(line.rsplit('_', 1)[1])
                seen[cur] = []
            else:
                m = re.search(r'@vp_event\((.*?),\)', line)
                if m:
                    seen[cur].append(m.group(1))
        for k, a in enumerate(calls):
            got = seen.get(k)
            if got is None:
                raise Broken('function missing for ' + t)
            if not got:
                c.fail('stored-copy-used', '%s/%s' % (t, a), '%s called with (%s) never calls the sorter it was given '
                       '(c++%d)' % (t, a, std), ' '.join(cmd))
            elif any(g != 'a0' for g in got):
                c.fail('stored-copy-used', '%s/%s' % (t, a), '%s called with (%s) calls a sorter which is not the copy '
                       'it was given: state %s (c++%d)' % (t, a, [g for g in got if g != 'a0'][0], std), ' '.join(cmd) + '\n' + out)
            else:
                c.ok('stored-copy-used')
                c.sample('%s(%s) calls its own copy [c++%d]' % (t, a, std))
