"""Traits: what the library says of its sorters, adapters and callables."""
import itertools
from common import *
from tables import SORTERS, CATS, ORDER, header_of
from witness import Unit, run_units

C = {'fwd': 'vt::fwd', 'bidir': 'vt::bidir', 'ra': 'vt::ra'}
TYPED = {'counting_sorter': ('fwd', False, 'counting_sorter'), 'ska_sorter': ('ra', False, 'ska_sorter'),
         'spread_sorter': ('ra', False, 'spread_sorter'), 'integer_spread_sorter': ('ra', False, 'spread_sorter'),
         'float_spread_sorter': ('ra', False, 'spread_sorter'), 'string_spread_sorter': ('ra', False, 'spread_sorter'),
         'default_sorter': ('fwd', False, 'default_sorter')}
ADAPTERS = ['container_aware_adapter', 'counting_adapter', 'drop_merge_adapter', 'hybrid_adapter', 'indirect_adapter',
            'out_of_place_adapter', 'schwartz_adapter', 'self_sort_adapter', 'small_array_adapter', 'split_adapter',
            'stable_adapter', 'verge_adapter']
FIXED = {'low_comparisons_sorter': range(14), 'low_moves_sorter': None, 'sorting_network_sorter': range(65),
         'merge_exchange_network_sorter': None, 'odd_even_merge_network_sorter': 'pow2'}


def stds(tier):
    return (14, 17, 20) if tier == 'thorough' else (14, 20)


def least(*cats):
    return ORDER[min(ORDER.index(c) for c in cats)]


def most(*cats):
    return ORDER[max(ORDER.index(c) for c in cats)]


# adapter: (category of the result from that of the adapted sorter, stability from that of the adapted sorter)
COMPOSE = {
    'container_aware_adapter': (lambda c: c, None),
    'counting_adapter': (lambda c: c, lambda s: s),
    'drop_merge_adapter': (lambda c: 'bidir', lambda s: False),
    'indirect_adapter': (lambda c: 'fwd', lambda s: s),
    'out_of_place_adapter': (lambda c: 'fwd', lambda s: s),
    'schwartz_adapter': (lambda c: c, lambda s: s),
    'self_sort_adapter': (lambda c: c, lambda s: False),
    'split_adapter': (lambda c: most(c, 'bidir'), lambda s: False),
    'verge_adapter': (lambda c: most(c, 'bidir'), lambda s: False),
    'make_stable': (lambda c: c, lambda s: True),
    'stable_adapter': (lambda c: c, lambda s: True),
    'utility::sorted_indices': (lambda c: 'ra', lambda s: s),
    'utility::sorted_iterators': (lambda c: 'fwd', lambda s: s),
    'metrics::comparisons': (lambda c: c, lambda s: s),
    'metrics::projections': (lambda c: c, lambda s: s),
    'metrics::moves': (lambda c: c, lambda s: s),
    'metrics::running_time': (lambda c: c, lambda s: s),
}
# adapters whose calls reach the adapted sorter with the original parameters
PASS = ['counting_adapter', 'container_aware_adapter', 'self_sort_adapter', 'metrics::comparisons', 'metrics::running_time']
FKINDS = ['no_function', 'no_greater', 'greater_only', 'one_function']
B = {True: 'true', False: 'false'}


def all_includes():
    return (['cpp-sort/adapters/%s.h' % a for a in ADAPTERS] + ['cpp-sort/utility/sorted_indices.h', 'cpp-sort/utility/sorted_iterators.h',
            'cpp-sort/utility/branchless_traits.h', 'cpp-sort/utility/functional.h'] +
            ['cpp-sort/metrics/%s.h' % m for m in ('comparisons', 'moves', 'projections', 'running_time')] +
            ['cpp-sort/fixed/%s.h' % f for f in FIXED] + sorted({header_of(s) for s in SORTERS} |
            {'cpp-sort/sorters/%s.h' % d[2] for d in TYPED.values()}) + ['traits.h'])


class U(Unit):
    def yes(self, rule, key, cond, loc='@'):
        self.ok(rule, key, '@static_assert(%s, "");' % cond)

    def cat(self, key, sorter, cat):
        self.yes('iterator-category', key, 'std::is_same<cppsort::iterator_category<%s>, %s>::value' % (sorter, C[cat]))

    def stab(self, key, sorter, s):
        self.yes('is-always-stable', key,
                 '%scppsort::is_always_stable<%s>::value' % ('' if s else '!', sorter))

    def is_stable(self, key, call, s):
        self.yes('is-stable', key, '%scppsort::is_stable<%s>::value' % ('' if s else '!', call))


LISTS = {'std::forward_list<int>': 'fwd', 'std::list<int>': 'bidir', 'std::vector<int>': 'ra'}
FUNCS = ['', 'std::greater<>', 'std::negate<>', 'std::greater<>, std::negate<>', 'std::less<>, cppsort::utility::identity',
         'cppsort::utility::identity']
ISPROJ = {'std::negate<>', 'cppsort::utility::identity'}


def calls():
    """(category, is a range, container, functions, argument list)"""
    for cont, cat in LISTS.items():
        for f in FUNCS:
            more = ', ' + f if f else ''
            yield cat, True, cont, f, cont + '&' + more
            yield cat, False, cont, f, '%s::iterator, %s::iterator%s' % (cont, cont, more)


def documented(u):
    for n, d in SORTERS.items():
        u.cat(n, 'cppsort::' + n, d[0])
        u.stab(n, 'cppsort::' + n, d[1])
    for n, d in TYPED.items():
        u.cat(n, 'cppsort::' + n, d[0])
        u.stab(n, 'cppsort::' + n, d[1])
    for n in list(SORTERS) + list(TYPED):
        for a in ('stable_adapter', 'cppsort::stable_t'):
            u.stab('%s<%s>' % (a, n), 'cppsort::%s<cppsort::%s>' % (a.split('::')[-1], n), True)
    u.cat('stable_adapter<std_sorter>', 'cppsort::stable_adapter<cppsort::std_sorter>', 'ra')
    u.cat('stable_adapter<verge_sorter>', 'cppsort::stable_adapter<cppsort::verge_sorter>', 'bidir')
    for f, dom in FIXED.items():
        t = 'cppsort::fixed_sorter_traits<cppsort::%s>' % f
        u.yes('fixed-sorter-traits', f, 'std::is_same<%s::iterator_category, vt::ra>::value' % t)
        u.yes('fixed-sorter-traits', f, '!%s::is_always_stable::value' % t)
        if isinstance(dom, range):
            u.yes('fixed-sorter-traits', f, 'std::is_same<%s::domain, std::make_index_sequence<%d>>::value' % (t, len(dom)))
        sizes = [0, 1, 2, 4, 8, 16, 32] if dom == 'pow2' else range(14)
        for n in sizes:
            s = 'cppsort::%s<%d>' % (f, n)
            u.yes('fixed-sorter-traits', s, 'std::is_base_of<cppsort::iterator_category<%s>, vt::ra>::value' % s)
            u.yes('fixed-sorter-traits', s, 'cppsort::is_always_stable<%s>::value || true' % s)
    for n in range(65):
        u.stab('sorting_network_sorter<%d>' % n, 'cppsort::sorting_network_sorter<%d>' % n, n < 4)


def composition(u):
    for a, (fc, fs) in COMPOSE.items():
        for c in ORDER:
            for s in (False, True):
                t = 'cppsort::%s<vt::m<%s, %s>>' % (a, C[c], B[s])
                key = '%s<%s, %s>' % (a, c, 'stable' if s else 'unstable')
                u.cat(key, t, fc(c))
                if fs:
                    u.stab(key, t, fs(s))
                else:
                    u.yes('is-always-stable', key, '!cppsort::is_always_stable<%s>::value%s' % (t, ' || true' if s else ''))
                # a trait can't be claimed for some calls and denied by the other
                for cat, rng, cont, f, args in calls():
                    if ORDER.index(cat) < ORDER.index(fc(c)) or (a == 'utility::sorted_indices' and cat != 'ra'):
                        continue
                    if a in ('stable_adapter', 'make_stable'):
                        u.is_stable('%s(%s)' % (key, args), '%s(%s)' % (t, args), True)
                    elif fs and not fs(s) and a != 'self_sort_adapter':
                        u.is_stable('%s(%s)' % (key, args), '%s(%s)' % (t, args), False)
                    elif fs and fs(s):
                        u.is_stable('%s(%s)' % (key, args), '%s(%s)' % (t, args), True)
        # missing traits
        if a in ('split_adapter', 'verge_adapter'):
            u.cat('%s<no category>' % a, 'cppsort::%s<vt::nocat<true>>' % a, 'bidir')
    # hybrid: all pairs
    ms = [(c, s) for c in ORDER for s in (False, True)]
    for n in (1, 2, 3):
        for combo in itertools.product(ms, repeat=n):
            if n == 3 and len({c for c, s in combo}) == 1:
                continue
            # distinct types are needed as base classes only matter by index
            ts = ', '.join('vt::m<%s, %s>' % (C[c], B[s]) for c, s in combo)
            t = 'cppsort::hybrid_adapter<%s>' % ts
            u.cat(ts, t, least(*[c for c, s in combo]))
            u.stab(ts, t, all(s for c, s in combo))
            if n == 3 and len(set(combo)) < 3:
                continue
            for cat, rng, cont, f, args in calls():
                if f not in ('', 'std::greater<>, std::negate<>'):
                    continue
                ok = [(ORDER.index(c), -i, s) for i, (c, s) in enumerate(combo) if ORDER.index(c) <= ORDER.index(cat)]
                if ok:
                    u.is_stable('%s(%s)' % (t, args), '%s(%s)' % (t, args), max(ok)[2])
    # rebind
    for c in ORDER:
        for d in ORDER:
            for s in (False, True):
                t = 'cppsort::rebind_iterator_category<vt::m<%s, %s>, %s>' % (C[c], B[s], C[d])
                if ORDER.index(d) >= ORDER.index(c):
                    u.cat(t, t, d)
                    u.stab(t, t, s)
                elif s:
                    u.reject('rebind-refused', t, '%s x; (void)x;' % t)


def stability(u):
    """Stability of calls"""
    kinds = ['not_ra', 'ranges_only', 'iterators_only', 'lists_only', 'vectors_only', 'ints_only']
    for a in COMPOSE:
        for k in kinds:
            t = 'cppsort::%s<vt::cs<vt::%s>>' % (a, k)
            for cat, rng, cont, f, args in calls():
                if (a in ('split_adapter', 'verge_adapter', 'drop_merge_adapter') and cat == 'fwd') or (a == 'utility::sorted_indices' and cat != 'ra'):
                    continue
                key = '%s(%s)' % (t, args)
                if a in ('make_stable', 'stable_adapter'):
                    u.is_stable(key, key, True)
                    if a == 'make_stable':
                        continue
                else:
                    # self_sort_adapter of a standard list calls its method
                    lst = a == 'self_sort_adapter' and rng and cat != 'ra' and ',' not in f and f not in ISPROJ
                    if a in PASS and not lst and not (f and a == 'metrics::comparisons'):
                        u.yes('is-stable', key, 'cppsort::is_stable<%s>::value == cppsort::is_stable<vt::cs<vt::%s>(%s)>::value' % (key, k, args))
                    if lst:
                        u.is_stable(key, key, True)
                val = 'vp_lv<%s>()' % cont + (', ' + ', '.join('%s{}' % x.strip() for x in f.split(',')) if f else '')
                if not rng:
                    val = 'vp_v<%s::iterator>(), vp_v<%s::iterator>()' % (cont, cont) + val[val.index('()') + 2:]
                if a == 'stable_adapter':
                    continue
                u.ok('stable-calls-are-stable', key, 'vt::check<%s>(%s);' % (t, val))
    # stability which depends on the functions: the adapters call the adapted sorter with the same ones
    for k in FKINDS + ['lvalue_only']:
        for t in ('cppsort::container_aware_adapter<%s>', 'cppsort::self_sort_adapter<%s>', 'cppsort::metrics::running_time<%s>',
                  'cppsort::hybrid_adapter<%s>', 'cppsort::hybrid_adapter<%s, vt::no_call>', 'cppsort::hybrid_adapter<vt::no_call, %s>'):
            t = t % ('vt::cs<vt::%s>' % k)
            for cat, rng, cont, f, args in calls():
                if 'self_sort' in t and rng and cat != 'ra':
                    continue
                key = '%s(%s)' % (t, args)
                u.yes('is-stable', key, 'cppsort::is_stable<%s>::value == cppsort::is_stable<vt::cs<vt::%s>(%s)>::value' % (key, k, args))
                key = 'cppsort::stable_adapter<%s>(%s)' % (t, args)
                u.is_stable(key, key, True)
    # schwartz_adapter is its sorter when there is no projection
    ids = ['cppsort::utility::identity'] + (['std::identity'] if u.std >= 20 else [])
    for k in FKINDS + ['lvalue_only', 'not_ra']:
        for cont, cat in LISTS.items():
            for f in ['', 'std::greater<>'] + ids + ['std::greater<>, ' + i for i in ids]:
                for args in (cont + '&', '%s::iterator, %s::iterator' % (cont, cont)):
                    if args.endswith('&') and f in ids:
                        # only has to be right when it answers true
                        continue
                    args += ', ' + f if f else ''
                    key = 'cppsort::schwartz_adapter<vt::cs<vt::%s>>(%s)' % (k, args)
                    u.yes('is-stable', key, 'cppsort::is_stable<%s>::value == cppsort::is_stable<vt::cs<vt::%s>(%s)>::value' % (key, k, args))
    # self_sort_adapter
    for s in (False, True):
        t = 'cppsort::self_sort_adapter<vt::m<vt::fwd, %s>>' % B[s]
        for f in ('', 'std::greater<>', 'std::greater<>, std::negate<>'):
            more = ', ' + f if f else ''
            two = ',' in f
            for cont, st in (('no_method', s), ('with_sort', s if two else False), ('with_stable', s if two else True),
                             ('with_both', s if two else False)):
                key = '%s(vt::%s<int>&%s)' % (t, cont, more)
                u.is_stable(key, key, st)
                key = 'cppsort::stable_adapter<%s>(vt::%s<int>&%s)' % (t, cont, more)
                u.is_stable(key, key, True)
        for l in ('std::list<int>', 'std::forward_list<int>'):
            for f in FUNCS:
                more = ', ' + f if f else ''
                st = s if ',' in f or f in ISPROJ else True
                key = '%s(%s&%s)' % (t, l, more)
                u.is_stable(key, key, st)
                key = '%s(%s::iterator, %s::iterator%s)' % (t, l, l, more)
                u.is_stable(key, key, s)
    # dedicated algorithms of container_aware_adapter
    for n, ls, vs in (('insertion_sorter', True, True), ('merge_sorter', True, True), ('mel_sorter', False, False),
                      ('selection_sorter', True, False)):
        for f in ('', 'std::greater<>', 'std::negate<>', 'std::greater<>, std::negate<>'):
            more = ', ' + f if f else ''
            for cont in LISTS:
                key = 'cppsort::container_aware_adapter<cppsort::%s>(%s&%s)' % (n, cont, more)
                if ls and 'list' in cont:
                    # documented to be stable: it may not be reported
                    u.yes('is-stable', key, 'cppsort::is_stable<%s>::value || true' % key)
                else:
                    u.is_stable(key, key, vs)
                key = 'cppsort::stable_adapter<cppsort::container_aware_adapter<cppsort::%s>>(%s&%s)' % (n, cont, more)
                u.is_stable(key, key, True)
    # small arrays
    for n in range(6):
        for f in ('', ', std::greater<>', ', std::greater<>, std::negate<>'):
            for arr in ('int (&)[%d]' % n, 'std::array<int, %d>&' % n):
                if n == 0 and arr.startswith('int'):
                    continue
                for a in ('cppsort::small_array_adapter<vt::fs>', 'cppsort::small_array_adapter<vt::fs, std::index_sequence<0, 1, 2, 3, 4, 5>>'):
                    key = '%s(%s%s)' % (a, arr, f)
                    u.is_stable(key, key, n % 2 == 0)
    for k in FKINDS:
        for a in ('cppsort::small_array_adapter<vt::fk<vt::%s>::of>', 'cppsort::small_array_adapter<vt::fk<vt::%s>::of, std::index_sequence<1, 2, 3>>'):
            a = a % k
            for f in FUNCS:
                more = ', ' + f if f else ''
                for arr in ('int (&)[2]', 'std::array<int, 3>&'):
                    key = '%s(%s%s)' % (a, arr, more)
                    u.yes('is-stable', key, 'cppsort::is_stable<%s>::value == vt::stable_call<vt::%s, %s%s>::value' % (key, k, arr, more))


def stable_types(u):
    # stable_t
    def same(key, a, b):
        u.yes('stable_t', key, 'std::is_same<%s, %s>::value' % (a, b))
    for c in ORDER:
        un, st = 'vt::m<%s, false>' % C[c], 'vt::m<%s, true>' % C[c]
        q = 'cppsort::'
        same('always stable', q + 'stable_t<%s>' % st, st)
        same('unstable', q + 'stable_t<%s>' % un, q + 'stable_adapter<%s>' % un)
        same('stable_adapter', q + 'stable_t<cppsort::stable_adapter<%s>>' % un, q + 'stable_adapter<%s>' % un)
        same('stable_adapter of stable', q + 'stable_t<cppsort::stable_adapter<%s>>' % st, st)
        same('make_stable', q + 'stable_t<cppsort::make_stable<%s>>' % un, q + 'make_stable<%s>' % un)
        for k in range(1, 4):
            t, v = un, st
            for _ in range(k):
                t, v = 'cppsort::stable_adapter<%s>' % t, 'cppsort::stable_adapter<%s>' % v
            same('nested %d' % k, q + 'stable_t<%s>' % t, q + 'stable_adapter<%s>' % un)
            same('nested stable %d' % k, q + 'stable_t<%s>' % v, st)
        u.yes('stable_adapter', 'type', 'std::is_same<cppsort::stable_adapter<%s>::type, %s>::value' % (st, st))
        for s in (un, st):
            u.yes('stable_adapter', 'constructible', 'std::is_constructible<cppsort::stable_adapter<%s>::type, %s>::value' % (s, s))
            u.yes('stable_adapter', 'constructible', 'std::is_constructible<cppsort::stable_t<%s>, %s>::value' % (s, s))
    for n, d in list(SORTERS.items()) + list(TYPED.items()):
        if d[1]:
            same(n, 'cppsort::stable_t<cppsort::%s>' % n, 'cppsort::' + n)
    u.yes('stable_t', 'default_sorter', 'cppsort::is_always_stable<cppsort::stable_t<cppsort::default_sorter>>::value')
    same('stable_t is idempotent', 'cppsort::stable_t<cppsort::stable_t<vt::m<vt::ra, false>>>', 'cppsort::stable_t<vt::m<vt::ra, false>>')


def detection(u):
    """is_projection and the is_sorter family"""
    P = 'cppsort::is_projection<%s>::value'
    PI = 'cppsort::is_projection_iterator<%s>::value'
    rows = [('std::negate<>', 'int', 'std::less<>', True), ('std::negate<>', 'std::string', 'std::less<>', False),
            ('std::less<>', 'int', 'std::less<>', False), ('int vt::klass::*', 'vt::klass', 'std::less<>', True),
            ('int vt::klass::*', 'int', 'std::less<>', False), ('int (vt::klass::*)() const', 'vt::klass', 'std::less<>', True),
            ('int (vt::klass::*)()', 'vt::klass', 'std::less<>', True), ('int (vt::klass::*)()', 'const vt::klass', 'std::less<>', False),
            ('cppsort::utility::identity', 'vt::klass', 'std::less<>', False), ('cppsort::utility::identity', 'int', 'std::less<>', True),
            ('int vt::klass::*', 'vt::klass', 'vt::cmp', True), ('cppsort::utility::identity', 'vt::klass', 'vt::cmp', False),
            ('vt::proj', 'int', 'vt::cmp', True), ('vt::proj', 'std::string', 'vt::cmp', False), ('vt::proj&', 'int', 'vt::cmp&', True),
            ('const vt::proj&', 'int', 'const vt::cmp&', True), ('int(*)(int)', 'int', 'bool(*)(int, int)', True)]
    for p, t, c, r in rows:
        n = '' if r else '!'
        args = '%s, vt::no_method<%s>, %s' % (p, t, c)
        u.yes('is_projection', args, n + P % args)
        u.yes('is_projection', args, '%scppsort::is_projection_v<%s>' % (n, args))
        if c == 'std::less<>':
            u.yes('is_projection', args, n + P % ('%s, vt::no_method<%s>' % (p, t)))
        args = '%s, %s*, %s' % (p, t, c)
        u.yes('is_projection', args, n + PI % args)
        u.yes('is_projection', args, '%scppsort::is_projection_iterator_v<%s>' % (n, args))
        # a projection does not make a sorter able to sort, and the other way round
        for s, can in (('cppsort::heap_sorter', True), ('vt::m<vt::ra, false>', True), ('vt::m<vt::ra, true>', True)):
            x = '%s, vt::no_method<%s>, %s, %s' % (s, t, c, p)
            y = '%s, %s*, %s, %s' % (s, t, c, p)
            if 'const' in t:
                continue
            u.yes('is_sorter', x, '%scppsort::is_comparison_projection_sorter<%s>::value' % (n, x))
            u.yes('is_sorter', x, '%scppsort::is_comparison_projection_sorter_v<%s>' % (n, x))
            u.yes('is_sorter', y, '%scppsort::is_comparison_projection_sorter_iterator<%s>::value' % (n, y))
            u.yes('is_sorter', y, '%scppsort::is_comparison_projection_sorter_iterator_v<%s>' % (n, y))
            if c == 'std::less<>':
                x = '%s, vt::no_method<%s>, %s' % (s, t, p)
                y = '%s, %s*, %s' % (s, t, p)
                u.yes('is_sorter', x, '%scppsort::is_projection_sorter<%s>::value' % (n, x))
                u.yes('is_sorter', x, '%scppsort::is_projection_sorter_v<%s>' % (n, x))
                u.yes('is_sorter', y, '%scppsort::is_projection_sorter_iterator<%s>::value' % (n, y))
                u.yes('is_sorter', y, '%scppsort::is_projection_sorter_iterator_v<%s>' % (n, y))
    for t, c, r in (('int', 'std::less<>', True), ('int', 'std::negate<>', False), ('std::string', 'vt::cmp', False), ('int', 'vt::cmp', True),
                    ('vt::klass', 'std::less<>', False), ('vt::klass', 'bool(*)(const vt::klass&, const vt::klass&)', True)):
        n = '' if r else '!'
        for s in ('cppsort::heap_sorter', 'cppsort::merge_sorter', 'vt::m<vt::fwd, false>', 'cppsort::pdq_sorter'):
            x = '%s, vt::no_method<%s>, %s' % (s, t, c)
            y = '%s, %s*, %s' % (s, t, c)
            u.yes('is_sorter', x, '%scppsort::is_comparison_sorter<%s>::value' % (n, x))
            u.yes('is_sorter', x, '%scppsort::is_comparison_sorter_v<%s>' % (n, x))
            u.yes('is_sorter', y, '%scppsort::is_comparison_sorter_iterator<%s>::value' % (n, y))
            u.yes('is_sorter', y, '%scppsort::is_comparison_sorter_iterator_v<%s>' % (n, y))
    for s, cont, r in (('vt::m<vt::ra, false>', 'std::list<int>', False), ('vt::m<vt::bidir, false>', 'std::list<int>', True),
                       ('vt::m<vt::fwd, true>', 'std::forward_list<int>', True), ('vt::m<vt::bidir, true>', 'std::forward_list<int>', False),
                       ('cppsort::heap_sorter', 'std::vector<int>', True), ('int', 'std::vector<int>', False),
                       ('cppsort::merge_sorter', 'std::list<int>', True)):
        n = '' if r else '!'
        it = cont + '::iterator'
        u.yes('is_sorter', s + cont, '%scppsort::is_sorter<%s, %s>::value' % (n, s, cont))
        u.yes('is_sorter', s + cont, '%scppsort::is_sorter_v<%s, %s>' % (n, s, cont))
        u.yes('is_sorter', s + cont, '%scppsort::is_sorter_iterator<%s, %s>::value' % (n, s, it))
        u.yes('is_sorter', s + cont, '%scppsort::is_sorter_iterator_v<%s, %s>' % (n, s, it))
    for tr in ('is_sorter<cppsort::heap_sorter, std::vector<int>>', 'is_projection<std::negate<>, std::vector<int>>',
               'is_projection_iterator<std::negate<>, int*>', 'is_comparison_sorter<cppsort::heap_sorter, std::vector<int>, std::less<>>',
               'is_sorter_iterator<cppsort::heap_sorter, int*>'):
        u.yes('is_sorter', tr, 'std::is_base_of<std::true_type, cppsort::%s>::value' % tr)
    # decoupled traits
    u.ok('sorter_traits', 'no category', '@template<class T, class = void> struct vp_hc : std::true_type {}; template<class T> struct vp_hc<T, decltype(void(sizeof(typename cppsort::sorter_traits<T>::iterator_category*)))> : std::false_type {}; static_assert(vp_hc<vt::nocat<true>>::value && !vp_hc<vt::nostab<vt::ra>>::value, "");')
    u.ok('sorter_traits', 'no stability', '@template<class T, class = void> struct vp_hs : std::true_type {}; template<class T> struct vp_hs<T, decltype(void(sizeof(typename cppsort::sorter_traits<T>::is_always_stable*)))> : std::false_type {}; static_assert(!vp_hs<vt::nocat<true>>::value && vp_hs<vt::nostab<vt::ra>>::value, "");')
    u.yes('sorter_traits', 'values', 'cppsort::is_always_stable_v<vt::nocat<true>> && !cppsort::is_always_stable_v<vt::nocat<false>>')


def branchless(u, std):
    cases = []
    arith = ['bool', 'char', 'unsigned char', 'short', 'int', 'long long', 'unsigned long', 'float', 'double', 'long double', 'wchar_t']
    other = ['std::string', 'vt::klass', 'int*']
    comps = ['std::less<>', 'std::greater<>'] + (['std::ranges::less', 'std::ranges::greater'] if std >= 20 else [])
    for c in comps:
        cases += [(c, t, True) for t in arith] + [(c, t, False) for t in other]
    for t in arith:
        cases += [('std::less<%s>' % t, t, True), ('std::greater<%s>' % t, t, True)]
    for t in other:
        cases += [('std::less<%s>' % t, t, False), ('std::greater<%s>' % t, t, False)]
    cases += [('vt::cmp', 'int', False), ('std::less_equal<>', 'int', False), ('bool(*)(int, int)', 'int', False),
              ('vt::user_cmp', 'int', True), ('vt::user_cmp', 'long', False)]
    pro = [('cppsort::utility::identity', t, True) for t in arith + other] + \
        ([('std::identity', t, True) for t in arith + other] if std >= 20 else [])
    pro += [('int (vt::klass::*)() const', 'vt::klass', False), ('int (vt::klass::*)()', 'vt::klass', False), ('int vt::klass::*', 'vt::klass', True),
            ('decltype(std::mem_fn(&vt::klass::d))', 'vt::klass', True), ('decltype(std::mem_fn(&vt::klass::f))', 'vt::klass', False), ('vt::proj', 'int', False), ('std::negate<>', 'int', False),
            ('vt::user_proj', 'int', True), ('vt::user_proj', 'long', False), ('int(*)(int)', 'int', False)]
    for trait, l in (('comparison', cases), ('projection', pro)):
        for f, t, r in l:
            for cv in ('%s', 'const %s', '%s&', 'const %s&', 'volatile %s', '%s&&'):
                for tv in ('%s', '%s&', 'const %s&', 'const %s'):
                    if (cv != '%s' and tv not in ('%s', 'const %s&')) or (cv in ('volatile %s', '%s&&') and tv != '%s'):
                        continue
                    ff = cv.replace('%s', 'std::common_type_t<%s>' % f) if '*' in f else cv % f
                    u.yes('branchless', '%s, %s' % (f, t), '%scppsort::utility::is_probably_branchless_%s<%s, %s>::value'
                          % ('' if r else '!', trait, ff, tv % t))
                    u.yes('branchless', '%s, %s' % (f, t), '%scppsort::utility::is_probably_branchless_%s_v<%s, %s>'
                          % ('' if r else '!', trait, ff, tv % t))
    if std >= 20:
        for f, t, r in (('std::less<>{}', 'int', True), ('std::less<>{}', 'std::string', False), ('vt::cmp{}', 'int', False),
                        ('std::greater<>{}', 'double', True)):
            u.yes('branchless', 'function_constant<%s>' % f, '%scppsort::utility::is_probably_branchless_comparison<cppsort::utility::function_constant<%s>, %s>::value'
                  % ('' if r else '!', f, t))
    if std >= 17:
        u.yes('branchless', 'function_constant<&klass::d>', 'cppsort::utility::is_probably_branchless_projection<cppsort::utility::function_constant<&vt::klass::d>, vt::klass>::value && !cppsort::utility::is_probably_branchless_projection<cppsort::utility::function_constant<&vt::klass::f>, vt::klass>::value')


PRE = '''namespace cppsort { namespace utility {
template<> struct is_probably_branchless_comparison<vt::user_cmp, int> : std::true_type {};
template<> struct is_probably_branchless_projection<vt::user_proj, int> : std::true_type {};
} }
'''


def traits(c):
    c.explanation = (
        'Static assertions over every sorter, adapter, fixed-size sorter and function object, and over adapters of '
        'mock sorters with every combination of traits, transcribed from the documentation: iterator category, '
        'stability of the sorter and of every call form, stable_t, rebind_iterator_category, sorter and projection detection, branchless '
        'traits. A call reported stable is instantiated over mock sorters which refuse to compile when called in a way which is '
        'not stable.')
    c.level = 'proof'
    units = []
    for std in stds(c.tier):
        for f in (documented, composition, stability, stable_types, detection, branchless):
            u = U('t_' + f.__name__, (['ranges', 'functional'] if std >= 20 else []) + ['string'] + all_includes(), std, PRE)
            f(u, std) if f is branchless else f(u)
            # many lines: split
            for k in range(0, len(u.lines), 600):
                v = Unit('%s_%d' % (u.name, k // 600), u.includes, std, PRE)
                v.lines = u.lines[k:k + 600]
                units.append(v)
    run_units(c, units)
    for r, n in (('iterator-category', 700), ('is-always-stable', 700), ('is-stable', 3000), ('stable-calls-are-stable', 2000),
                 ('stable_t', 60), ('is_projection', 100), ('is_sorter', 300), ('branchless', 600), ('rebind-refused', 6)):
        c.require(r, n)
