"""Archetype witnesses (iterators, values, proxies, callables)."""
from common import *
from witness import Unit, run_units
from subjects import *
from tables import CATS, ORDER

VALS = ['mv', 'mvn', 'tv', 'reg', 'dmv']


def vals_for(s):
    return ['reg', 'dmv'] if s.default else ['mv', 'mvn', 'tv']


def it(v, cat, diff=None):
    return 'vp::it<vp::%s, %s%s>' % (v, CATS[cat], ', ' + diff if diff else '')


def call(s, *args):
    args = list(args)
    if 'schwartz' in s.name:
        # the projected keys are stored: they have to be regular
        import re
        for i, a in enumerate(args):
            a = a.replace('vp::key', 'vp::rkey')
            a = re.sub(r'(proj_\w+<vp::\w+)>', r'\1, vp::rkey>', a)
            args[i] = a
    return '%s(%s);' % (s.expr, ', '.join(args))


def pv(t):
    return 'vp_v<%s>()' % t


def stds(tier):
    return (14, 17, 20) if tier == 'thorough' else (14, 20)


def subject_unit(s, std, pid):
    return Unit(pid + '_' + ident(s.name), s.headers, std)


def refuses(s):
    """Documented to require a category of its own (not merely inherited)"""
    return s.kind == 'sorter' or s.name.split('_')[0] in ('drop', 'split', 'verge')


def stronger(cat):
    return ORDER[ORDER.index(cat):]


def weaker(cat):
    return ORDER[:ORDER.index(cat)]


# Sorters of given types of keys: (category, key types, takes a projection)
TYPED = {
    'counting_sorter': ('fwd', ['int', 'unsigned char', 'long long', 'short'], False),
    'ska_sorter': ('ra', ['int', 'float', 'double', 'bool', 'std::string', 'unsigned char', 'std::pair<int, short>',
                          'std::tuple<int, float>', 'std::array<int, 3>', 'std::vector<int>'], True),
    'spread_sorter': ('ra', ['int', 'float', 'double', 'std::string', 'unsigned short', 'long long'], True),
    'integer_spread_sorter': ('ra', ['int', 'char', 'unsigned long'], True),
    'float_spread_sorter': ('ra', ['float', 'double'], True),
    'string_spread_sorter': ('ra', ['std::string'], True),
}


def typed_units(c, std):
    for name, (cat, types, proj) in TYPED.items():
        h = 'spread_sorter' if 'spread' in name else name
        u = Unit(c.pid + '_' + name, ['cpp-sort/sorters/%s.h' % h, 'string', 'array', 'vector', 'tuple', 'utility'], std)
        yield name, 'cppsort::%s{}' % name, cat, types, proj, u


# ---------------------------------------------------------------------- P01
def iterators(c):
    c.explanation = (
        'Every sorter, adapter instance, fixed-size sorter and probe is instantiated over '
        'archetype iterators which provide exactly the operations of the documented category '
        '(no post-increment, arbitrary signed difference type) and every stronger category; '
        'the type checker must accept each instantiation, refuse iterators of a weaker '
        'category, and the advertised category must be the documented one.')
    units = []
    for std in stds(c.tier):
        for s in sorters() + adapters():
            u = subject_unit(s, std, c.pid)
            u.includes = u.includes + ['list', 'forward_list', 'vector', 'deque']
            v = vals_for(s)[0]
            cmpt = 'vp::cmp_const<vp::%s>' % v
            for cat in stronger(s.cat):
                i = it(v, cat)
                u.ok('accepts-documented-category', '%s/%s' % (s.name, cat),
                     call(s, pv(i), pv(i), pv(cmpt)))
                u.ok('accepts-documented-category', '%s/%s/proj' % (s.name, cat),
                     call(s, pv(i), pv(i), pv('vp::cmp_const<vp::key>'), pv('vp::proj_ref<vp::%s>' % v)))
                u.ok('accepts-range', '%s/%s/range' % (s.name, cat),
                     call(s, 'vp_lv<vp::range<%s>>()' % i, pv(cmpt)))
                if not s.name.startswith('container_aware'):
                    u.ok('accepts-range', '%s/%s/rvalue-range' % (s.name, cat),
                         call(s, pv('vp::range<%s>' % i), pv(cmpt)))
                for d in ('int', 'long long'):
                    j = it(v, cat, d)
                    u.ok('accepts-any-difference-type', '%s/%s/%s' % (s.name, cat, d),
                         call(s, pv(j), pv(j), pv(cmpt)))
            u.ok('accepts-pointers', s.name + '/pointer',
                 call(s, 'vp_v<vp::%s*>()' % v, 'vp_v<vp::%s*>()' % v, pv(cmpt)))
            for k, cont in (('ra', 'vector'), ('ra', 'deque'), ('bidir', 'list'), ('fwd', 'forward_list')):
                if k in stronger(s.cat):
                    u.ok('accepts-containers', '%s/std::%s' % (s.name, cont),
                         call(s, 'vp_lv<std::%s<vp::%s>>()' % (cont, v), pv(cmpt)))
            for cat in weaker(s.cat) if refuses(s) else ():
                i = it(v, cat)
                u.reject('refuses-weaker-category', '%s/%s' % (s.name, cat),
                         call(s, pv(i), pv(i), pv(cmpt)))
                tagged = 'vp::weak_it<vp::%s, %s>' % (v, CATS[cat])
                u.reject('refuses-weaker-tag', '%s/%s' % (s.name, cat),
                         call(s, pv(tagged), pv(tagged), pv(cmpt)))
            if weaker(s.cat) and refuses(s):
                # control: the same iterator with the right tag is accepted
                tagged = 'vp::weak_it<vp::%s, %s>' % (v, CATS[s.cat])
                u.ok('tagged-control', s.name, call(s, pv(tagged), pv(tagged), pv(cmpt)))
            if not s.name.startswith('container_aware'):
                # which categories it accepts depends on the container
                u.ok('advertised-category', s.name,
                     '@static_assert(std::is_same<cppsort::iterator_category<decltype(%s)>, %s>::value, "");'
                     % (s.expr, CATS[s.cat]))
            units.append(u)
        for name, expr, cat, types, proj, u in typed_units(c, std):
            for k in stronger(cat):
                for t in types:
                    for d in ('std::ptrdiff_t', 'int', 'long long'):
                        i = 'vp::it<%s, %s, %s>' % (t, CATS[k], d)
                        u.ok('typed-accepts-category', '%s/%s/%s/%s' % (name, k, t, d), '%s(%s, %s);' % (expr, pv(i), pv(i)))
                    u.ok('typed-accepts-category', '%s/%s/%s/range' % (name, k, t),
                         '%s(vp_lv<vp::range<vp::it<%s, %s>>>());' % (expr, t, CATS[k]))
            for k in weaker(cat):
                i = 'vp::it<%s, %s>' % (types[0], CATS[k])
                u.reject('refuses-weaker-category', '%s/%s' % (name, k), '%s(%s, %s);' % (expr, pv(i), pv(i)))
            u.ok('advertised-category', name, '@static_assert(std::is_same<cppsort::iterator_category<cppsort::%s>, %s>::value, "");'
                 % (name, CATS[cat]))
            units.append(u)
        byfam = {}
        for s in fixed():
            fam = s.name.split('<')[0]
            u = byfam.get(fam)
            if u is None:
                u = byfam[fam] = Unit(c.pid + '_' + fam, s.headers + ['array'], std)
                units.append(u)
            i = it('mv', 'ra')
            n = s.name.split('<')[1][:-1]
            u.ok('fixed-size-accepts', s.name,
                 call(s, pv(i), pv(i), pv('vp::cmp_const<vp::mv>')))
            u.ok('fixed-size-accepts', s.name + '/range',
                 call(s, 'vp_lv<vp::range<%s>>()' % it('mv', 'ra', 'int'), pv('vp::cmp_const<vp::mv>')))
            u.ok('advertised-category', s.name,
                 '@static_assert(std::is_same<cppsort::iterator_category<decltype(%s)>, %s>::value, "");'
                 % (s.expr, CATS['ra']))
        for s in probes():
            u = subject_unit(s, std, c.pid)
            for cat in ORDER:
                for v in ('mv', 'pinned', 'const vp::pinned'):
                    i = 'vp::it<vp::%s, %s>' % (v, CATS[cat]) if not v.startswith('const') \
                        else 'vp::it<%s, %s>' % (v, CATS[cat])
                    vt = v.replace('const vp::', '')
                    u.ok('probe-accepts-category', '%s/%s/%s' % (s.name, cat, v),
                         call(s, pv(i), pv(i), pv('vp::cmp_const<vp::%s>' % vt)))
                    u.ok('probe-accepts-category', '%s/%s/%s/range' % (s.name, cat, v),
                         call(s, 'vp_lv<vp::range<%s>>()' % i, pv('vp::cmp_const<vp::%s>' % vt)))
                j = it('mv', cat, 'int')
                u.ok('accepts-any-difference-type', '%s/%s/int' % (s.name, cat),
                     call(s, pv(j), pv(j), pv('vp::cmp_const<vp::mv>')))
            units.append(u)
    run_units(c, units)
    c.require('accepts-documented-category', 150)
    c.require('refuses-weaker-category', 40)
    c.require('probe-accepts-category', 200)
    c.require('fixed-size-accepts', 200)


# ---------------------------------------------------------------------- P02
def values(c):
    c.explanation = (
        'Every sorter, adapter, fixed-size sorter is instantiated over value archetypes that '
        'cannot be copied or default-constructed, have no operators, and whose moves may or may '
        'not throw; a copy, default construction or operator use anywhere in the instantiated '
        'code is a type error at the construct that needs it.')
    units = []
    for std in stds(c.tier):
        for s in sorters() + adapters():
            u = subject_unit(s, std, c.pid)
            for v in vals_for(s) + (['reg'] if not s.default else []):
                for cat in stronger(s.cat):
                    i = it(v, cat)
                    u.ok('move-only-values', '%s/%s/%s' % (s.name, v, cat),
                         call(s, pv(i), pv(i), pv('vp::cmp_const<vp::%s>' % v)))
                    u.ok('move-only-values', '%s/%s/%s/proj' % (s.name, v, cat),
                         call(s, pv(i), pv(i), pv('vp::cmp_const<vp::key>'), pv('vp::proj_ref<vp::%s>' % v)))
                # a comparison the library recognises as branchless selects
                # other code paths; it imposes nothing more on the values
                i = it(v, 'ra')
                u.ok('branchless-path', '%s/%s' % (s.name, v),
                     call(s, pv(i), pv(i), 'std::less<>{}', 'vp_v<int& (*)(vp::%s&)>()' % v))
                u.ok('branchless-path', '%s/%s/member' % (s.name, v),
                     call(s, pv(i), pv(i), 'std::greater<int>{}', 'vp_v<int vp::%s::*>()' % v))
            units.append(u)
        byfam = {}
        for s in fixed():
            fam = s.name.split('<')[0]
            if fam not in byfam:
                byfam[fam] = Unit(c.pid + '_' + fam, s.headers, std)
                units.append(byfam[fam])
            for v in ('mv', 'mvn', 'tv'):
                i = it(v, 'ra')
                byfam[fam].ok('fixed-move-only-values', s.name + '/' + v,
                              call(s, pv(i), pv(i), pv('vp::cmp_const<vp::%s>' % v)))
        # list algorithms and containers of elements
        u = Unit(c.pid + '_lists', ['cpp-sort/adapters/container_aware_adapter.h', 'cpp-sort/adapters/stable_adapter.h',
                                    'cpp-sort/adapters/self_sort_adapter.h', 'cpp-sort/adapters/small_array_adapter.h',
                                    'cpp-sort/fixed/low_comparisons_sorter.h', 'cpp-sort/fixed/low_moves_sorter.h',
                                    'cpp-sort/fixed/sorting_network_sorter.h', 'cpp-sort/utility/apply_permutation.h',
                                    'cpp-sort/utility/sorted_indices.h', 'cpp-sort/utility/sorted_iterators.h'] +
                 ['cpp-sort/sorters/%s_sorter.h' % n for n in ('heap', 'insertion', 'mel', 'merge', 'selection')] +
                 ['list', 'forward_list', 'vector', 'array'], std)
        for v in ('mv', 'mvn', 'tv', 'reg'):
            forms = (('comp', pv('vp::cmp_const<vp::%s>' % v)),
                     ('proj', pv('vp::cmp_const<vp::key>') + ', ' + pv('vp::proj_ref<vp::%s>' % v)),
                     ('mem', 'std::greater<int>{}, vp_v<int vp::%s::*>()' % v))
            for f, args in forms:
                for l in ('list', 'forward_list'):
                    for n in ('insertion', 'mel', 'merge', 'selection'):
                        for wrap in ('container_aware_adapter<cppsort::%s_sorter>', 'stable_adapter<cppsort::container_aware_adapter<cppsort::%s_sorter>>'):
                            u.ok('move-only-lists', '%s/std::%s/%s/%s' % (wrap.replace('cppsort::', '') % n, l, v, f),
                                 'cppsort::%s{}(vp_lv<std::%s<vp::%s>>(), %s);' % (wrap % n, l, v, args))
                if f == 'comp':
                    u.ok('move-only-lists', 'self_sort_adapter/std::list/%s/%s' % (v, f),
                         'cppsort::self_sort_adapter<cppsort::heap_sorter>{}(vp_lv<std::list<vp::%s>>(), %s);' % (v, args))
                for fs in ('low_comparisons_sorter', 'low_moves_sorter', 'sorting_network_sorter'):
                    for n in (2, 6, 13):
                        for t in ('std::array<vp::%s, %d>' % (v, n), 'vp::%s[%d]' % (v, n)):
                            u.ok('move-only-arrays', '%s/%s/%s' % (fs, t, f),
                                 'cppsort::small_array_adapter<cppsort::%s>{}(vp_lv<%s>(), %s);' % (fs, t, args))
                for n in ('indices', 'iterators'):
                    u.ok('move-only-utilities', 'sorted_%s/%s/%s' % (n, v, f),
                         'cppsort::utility::sorted_%s<cppsort::heap_sorter>{}(vp_lv<std::vector<vp::%s>>(), %s);' % (n, v, args))
            u.ok('move-only-utilities', 'apply_permutation/%s' % v,
                 'cppsort::utility::apply_permutation(vp_lv<std::vector<vp::%s>>(), vp_lv<std::vector<int>>());' % v)
        units.append(u)
    run_units(c, units)
    c.require('move-only-lists', 190)
    c.require('move-only-arrays', 200)
    c.require('move-only-utilities', 28)
    c.require('move-only-values', 500)
    c.require('fixed-move-only-values', 300)


# ---------------------------------------------------------------------- P03
def proxies(c):
    c.explanation = (
        'Every sorter (but the ones documented otherwise), adapter, fixed-size sorter and probe is '
        'instantiated over archetype proxy iterators whose reference is a class prvalue: elements '
        'can only be moved out by iter_move, exchanged by iter_swap and written through the proxy.')
    units = []
    for std in stds(c.tier):
        for s in sorters() + adapters():
            if not s.proxy:
                continue
            u = subject_unit(s, std, c.pid)
            for v in vals_for(s)[:2]:
                for cat in stronger(s.cat):
                    i = 'vp::pit<vp::%s, %s>' % (v, CATS[cat])
                    u.ok('proxy-iterators', '%s/%s/%s' % (s.name, v, cat),
                         call(s, pv(i), pv(i), pv('vp::cmp_proxy<vp::%s>' % v)))
                    u.ok('proxy-iterators', '%s/%s/%s/range' % (s.name, v, cat),
                         call(s, 'vp_lv<vp::range<%s>>()' % i, pv('vp::cmp_proxy<vp::%s>' % v)))
                    u.ok('proxy-iterators', '%s/%s/%s/proj' % (s.name, v, cat),
                         call(s, pv(i), pv(i), pv('vp::cmp_mut<vp::key>'), pv('vp::proj_proxy<vp::%s>' % v)))
            units.append(u)
        byfam = {}
        for s in fixed():
            fam = s.name.split('<')[0]
            if fam not in byfam:
                byfam[fam] = Unit(c.pid + '_' + fam, s.headers, std)
                units.append(byfam[fam])
            i = 'vp::pit<vp::mv, %s>' % CATS['ra']
            byfam[fam].ok('fixed-proxy-iterators', s.name,
                          call(s, pv(i), pv(i), pv('vp::cmp_proxy<vp::mv>')))
        for s in probes():
            u = subject_unit(s, std, c.pid)
            for cat in ORDER:
                i = 'vp::pit<vp::mv, %s>' % CATS[cat]
                u.ok('probe-proxy-iterators', '%s/%s' % (s.name, cat),
                     call(s, pv(i), pv(i), pv('vp::cmp_proxy<vp::mv>')))
                u.ok('probe-proxy-iterators', '%s/%s/proj' % (s.name, cat),
                     call(s, pv(i), pv(i), pv('vp::cmp_const<vp::key>'), pv('vp::proj_proxy<vp::mv>')))
            units.append(u)
        for name, expr, cat, types, proj, u in typed_units(c, std):
            for t in types if proj else ():
                i = 'vp::pit<vp::mv, %s>' % CATS[cat]
                u.ok('typed-proxy-iterators', '%s/%s' % (name, t),
                     '%s(%s, %s, %s);' % (expr, pv(i), pv(i), pv('vp::proj_proxy<vp::mv, %s>' % t)))
            units.append(u)
        u = Unit(c.pid + '_iter_move', ['cpp-sort/utility/iter_move.h', 'iterator'], std)
        for cat in ('bidir', 'ra'):
            i = 'vp::pit<vp::mv, %s>' % CATS[cat]
            for w in ('reverse', 'move'):
                r = 'std::%s_iterator<%s>' % (w, i)
                u.ok('wrapped-proxies', '%s/%s/iter_move' % (w, cat),
                     'using cppsort::utility::iter_move; vp::mv x = iter_move(%s);' % pv(r))
                if w == 'reverse':
                    u.ok('wrapped-proxies', '%s/%s/iter_swap' % (w, cat),
                         'using cppsort::utility::iter_swap; iter_swap(%s, %s);' % (pv(r), pv(r)))
        units.append(u)
    units += lifetimes(c)
    run_units(c, units)
    c.require('proxy-iterators', 400)
    c.require('probe-proxy-iterators', 100)
    c.require('no-dangling-reference', 300)


DANGLING = ['-Wno-everything', '-Werror=dangling', '-Werror=dangling-gsl', '-Werror=return-stack-address',
            '-Werror=dangling-initializer-list']


def lifetimes(c):
    """A projection which returns a reference to its argument, annotated as
    such, makes the compiler's lifetime analysis follow the temporaries which
    dereferencing a proxy iterator creates."""
    units = []
    for std in stds(c.tier):
        subs = [s for s in sorters() + adapters() + probes() if s.proxy]
        subs += [s for s in fixed() if int(s.name.split('<')[1][:-1]) in (4, 5, 9, 12, 13, 16, 33)]
        for s in subs:
            if 'schwartz' in s.name:
                continue            # stores the keys, which are then proxies
            u = Unit(c.pid + '_life_' + ident(s.name), s.headers, std, flags=DANGLING)
            v = 'mv' if not s.default else 'dmv'
            for cat in stronger(s.cat) if s.kind != 'fixed' else ['ra']:
                i = 'vp::pit<vp::%s, %s>' % (v, CATS[cat])
                u.ok('no-dangling-reference', '%s/%s/proxy' % (s.name, cat),
                     call(s, pv(i), pv(i), pv('vp::cmp_proxy<vp::%s>' % v), pv('vp::proj_same')))
                i = it(v, cat)
                u.ok('no-dangling-reference', '%s/%s' % (s.name, cat),
                     call(s, pv(i), pv(i), pv('vp::cmp_const<vp::%s>' % v), pv('vp::proj_same')))
            units.append(u)
    return units


# ---------------------------------------------------------------------- P04
COMPS = [('const', 'vp::cmp_const<vp::mv>'), ('final', 'vp::cmp_final<vp::mv>'), ('mutable-nonconst-ref', 'vp::cmp_mut<vp::mv>'),
         ('member-function', 'bool(vp::mv::*)(vp::mv&)'), ('function-pointer', 'bool(*)(vp::mv&, vp::mv&)')]
PROJS = [('functor', 'vp::proj_ref<vp::mv>', False), ('prvalue-functor', 'vp::proj_val<vp::mv>', True),
         ('member-function', 'vp::key&(vp::mv::*)()', False), ('prvalue-member-function', 'vp::key(vp::mv::*)()', True),
         ('data-member', 'vp::key vp::mv::*', False), ('function-pointer', 'vp::key&(*)(vp::mv&)', False)]
def callables(c):
    c.explanation = (
        'Every sorter, adapter, fixed-size sorter and probe is instantiated over comparator and '
        'projection archetypes: mutable call operators, non-const reference parameters, function '
        'pointers, pointers to member functions and data members, projections returning prvalues, '
        'none of them default-constructible. Keys and values have no operators, so a comparison '
        'that bypasses the comparator, skips the projection or projects twice is a type error.')
    units = []
    for std in stds(c.tier):
        for s in sorters() + adapters() + fixed() + probes():
            if s.kind == 'fixed' and int(s.name.split('<')[1][:-1]) > 13 and c.tier == 'quick' \
                    and s.name not in ('sorting_network_sorter<33>', 'sorting_network_sorter<64>'):
                continue
            u = Unit(c.pid + '_' + ident(s.name), s.headers, std)
            v = 'reg' if s.default else 'mv'
            cats = stronger(s.cat) if s.kind != 'fixed' else ['ra']
            for cat in cats:
                i = it(v, cat)
                # Comparators of non-const references are documented for sorters
                # and adapters, not for probes
                comps = [('const', 'vp::cmp_const<vp::%s>' % v),
                         ('final', 'vp::cmp_final<vp::%s>' % v)]
                if s.kind == 'probe':
                    comps += [('mutable', 'vp::cmp_mutc<vp::%s>' % v),
                              ('member-function', 'bool(vp::%s::*)(const vp::%s&) const' % (v, v)),
                              ('function-pointer', 'bool(*)(const vp::%s&, const vp::%s&)' % (v, v))]
                else:
                    comps += [('mutable-nonconst-ref', 'vp::cmp_mut<vp::%s>' % v),
                              ('member-function', 'bool(vp::%s::*)(vp::%s&)' % (v, v)),
                              ('function-pointer', 'bool(*)(vp::%s&, vp::%s&)' % (v, v))]
                for name, t in comps:
                    u.ok('comparator-forms', '%s/%s/%s' % (s.name, cat, name),
                         call(s, pv(i), pv(i), pv(t)))
                for cn, ct in (('const', 'vp::cmp_const<vp::key>'), ('mutable', 'vp::cmp_mut<vp::key>')):
                    if s.kind == 'probe':
                        if cn == 'const':
                            for name, t in (
                                    ('functor', 'vp::proj_cref<vp::%s>' % v),
                                    ('prvalue-functor', 'vp::proj_val<vp::%s>' % v),
                                    ('member-function', 'const vp::key&(vp::%s::*)() const' % v),
                                    ('prvalue-member-function', 'vp::key(vp::%s::*)() const' % v),
                                    ('data-member', 'vp::key vp::%s::*' % v),
                                    ('function-pointer', 'const vp::key&(*)(const vp::%s&)' % v)):
                                u.ok('projection-forms', '%s/%s/%s/%s' % (s.name, cat, cn, name),
                                     call(s, pv(i), pv(i), pv(ct), pv(t)))
                        continue
                    for name, t, prv in (
                            ('functor', 'vp::proj_ref<vp::%s>' % v, False),
                            ('prvalue-functor', 'vp::proj_val<vp::%s>' % v, True),
                            ('member-function', 'vp::key&(vp::%s::*)()' % v, False),
                            ('prvalue-member-function', 'vp::key(vp::%s::*)()' % v, True),
                            ('data-member', 'vp::key vp::%s::*' % v, False),
                            ('function-pointer', 'vp::key&(*)(vp::%s&)' % v, False)):
                        if prv and cn == 'mutable':
                            continue
                        u.ok('projection-forms', '%s/%s/%s/%s' % (s.name, cat, cn, name),
                             call(s, pv(i), pv(i), pv(ct), pv(t)))
                if s.kind != 'probe':
                    u.ok('projection-forms', '%s/%s/range' % (s.name, cat),
                         call(s, 'vp_lv<vp::range<%s>>()' % i, pv('vp::cmp_mut<vp::key>'),
                              pv('vp::proj_ref<vp::%s>' % v)))
            units.append(u)
        u = Unit(c.pid + '_lists', ['cpp-sort/adapters/container_aware_adapter.h', 'cpp-sort/adapters/stable_adapter.h',
                                    'cpp-sort/adapters/hybrid_adapter.h', 'cpp-sort/sorters/heap_sorter.h'] +
                 ['cpp-sort/sorters/%s_sorter.h' % n for n in ('insertion', 'mel', 'merge', 'selection')] + ['list', 'forward_list'], std)
        for n in ('insertion', 'mel', 'merge', 'selection'):
            for wrap in ('cppsort::container_aware_adapter<cppsort::%s_sorter>{}',
                         'cppsort::stable_adapter<cppsort::container_aware_adapter<cppsort::%s_sorter>>{}',
                         'cppsort::hybrid_adapter<cppsort::container_aware_adapter<cppsort::%s_sorter>, cppsort::heap_sorter>{}'):
                for l in ('list', 'forward_list'):
                    if l == 'forward_list' and n == 'insertion' and 'hybrid' in wrap:
                        continue
                    e = wrap % n + '(vp_lv<std::%s<vp::mv>>(), ' % l
                    key = '%s/std::%s' % (wrap.replace('cppsort::', '') % n, l)
                    for name, t in COMPS:
                        u.ok('comparator-forms', '%s/%s' % (key, name), e + pv(t) + ');')
                    for cn, ct in (('const', 'vp::cmp_const<vp::key>'), ('mutable', 'vp::cmp_mut<vp::key>')):
                        for name, t, prv in PROJS:
                            if not (prv and cn == 'mutable'):
                                u.ok('projection-forms', '%s/%s/%s' % (key, cn, name), e + pv(ct) + ', ' + pv(t) + ');')
        units.append(u)
        for name, expr, cat, types, proj, u in typed_units(c, std):
            for t in types if proj else ():
                i = it('mv', cat)
                for form, pt in (('functor', 'vp::proj_ref<vp::mv, %s>' % t), ('prvalue-functor', 'vp::proj_val<vp::mv, %s>' % t),
                                 ('member-function', t + '& (vp::mv::*)()'), ('prvalue-member-function', t + ' (vp::mv::*)()'),
                                 ('data-member', t + ' vp::mv::*'), ('function-pointer', t + '& (*)(vp::mv&)')):
                    u.ok('typed-projection-forms', '%s/%s/%s' % (name, t, form), '%s(%s, %s, vp_v<%s>());'
                         % (expr, pv(i), pv(i), pt))
            units.append(u)
    run_units(c, units)
    c.require('comparator-forms', 500)
    c.require('projection-forms', 1000)
