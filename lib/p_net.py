"""Sorting networks: the compare-exchange units of every network are read from
the unrolled IR of its sorter, and the 0-1 principle decides whether they sort."""
import itertools
from common import *
from llvmtool import tool

# docs/Fixed-size-sorters.md
COUNTS = [0, 0, 1, 3, 5, 9, 12, 16, 19, 25, 29, 35, 39, 45, 51, 56, 60,
          71, 77, 85, 91, 99, 106, 114, 120, 130, 139, 147, 155, 164, 172, 180, 185,
          199, 209, 220, 227, 240, 250, 259, 265, 282, 291, 303, 309, 324, 332, 340, 346,
          365, 376, 387, 395, 411, 421, 432, 438, 454, 465, 476, 483, 497, 506, 515, 521]
STABLE = (0, 1, 2, 3)
FLAGS = ['-O1', '-g1', '-fno-exceptions', '-fno-vectorize', '-fno-slp-vectorize']
VALFLAGS = ['-O3', '-g1', '-fno-exceptions', '-fno-vectorize', '-fno-slp-vectorize',
            '-mllvm', '-unroll-threshold=1000000', '-mllvm', '-unroll-full-max-count=10000', '-mllvm', '-inline-threshold=1000000']

PRELUDE = '''
#include <cstddef>
#include <functional>
#include <iterator>
#include <utility>
#include <cpp-sort/fixed/odd_even_merge_network_sorter.h>
#include <cpp-sort/fixed/merge_exchange_network_sorter.h>
#include <cpp-sort/fixed/sorting_network_sorter.h>
#include <cpp-sort/utility/sorting_networks.h>
extern "C" {
bool vp_less(const void*, const void*);
void vp_swap(void*, void*);
void vp_move(void*, void*);
void vp_assign(void*, void*);
void vp_destroy(void*);
}
namespace vp {
struct el {
    int v[4];
    el(el&& o) { vp_move(this, &o); }
    el& operator=(el&& o) { vp_assign(this, &o); return *this; }
    ~el() { vp_destroy(this); }
    friend void swap(el& a, el& b) { vp_swap(&a, &b); }
    friend bool operator<(const el& a, const el& b) { return vp_less(&a, &b); }
};
struct cmp { bool operator()(const el& a, const el& b) const { return vp_less(&a, &b); } };
struct key_cmp { bool operator()(const int& a, const int& b) const { return vp_less(&a, &b); } };
struct key { const int& operator()(const el& a) const { return a.v[0]; } };
// an iterator whose elements are exchanged by its own iter_swap
struct it {
    using iterator_category = std::random_access_iterator_tag;
    using value_type = el;
    using difference_type = std::ptrdiff_t;
    using pointer = el*;
    using reference = el&;
    el* p;
    it() : p(nullptr) {}
    explicit it(el* p) : p(p) {}
    el& operator*() const { return *p; }
    el* operator->() const { return p; }
    el& operator[](std::ptrdiff_t n) const { return p[n]; }
    it& operator++() { ++p; return *this; }
    it& operator--() { --p; return *this; }
    it operator++(int) { return it(p++); }
    it operator--(int) { return it(p--); }
    it& operator+=(std::ptrdiff_t n) { p += n; return *this; }
    it& operator-=(std::ptrdiff_t n) { p -= n; return *this; }
    friend it operator+(it a, std::ptrdiff_t n) { return it(a.p + n); }
    friend it operator+(std::ptrdiff_t n, it a) { return it(a.p + n); }
    friend it operator-(it a, std::ptrdiff_t n) { return it(a.p - n); }
    friend std::ptrdiff_t operator-(it a, it b) { return a.p - b.p; }
    friend bool operator==(it a, it b) { return a.p == b.p; }
    friend bool operator!=(it a, it b) { return a.p != b.p; }
    friend bool operator<(it a, it b) { return a.p < b.p; }
    friend bool operator>(it a, it b) { return a.p > b.p; }
    friend bool operator<=(it a, it b) { return a.p <= b.p; }
    friend bool operator>=(it a, it b) { return a.p >= b.p; }
    friend void iter_swap(it a, it b) { vp_swap(a.p, b.p); }
    friend el&& iter_move(it a) { return std::move(*a.p); }
};
}
'''
FORMS = {
    'comparator': 'cppsort::%(s)s<%(n)d>{}(f, f + %(n)d, vp::cmp{});',
    'default': 'cppsort::%(s)s<%(n)d>{}(f, f + %(n)d);',
    'projection': 'cppsort::%(s)s<%(n)d>{}(f, f + %(n)d, vp::key_cmp{}, vp::key{});',
    'iter_swap': 'cppsort::%(s)s<%(n)d>{}(vp::it(f), vp::it(f + %(n)d), vp::cmp{});',
    'swap_index_pairs': 'cppsort::utility::swap_index_pairs(f, cppsort::%(s)s<%(n)d>::template index_pairs<>(), vp::cmp{});',
    'swap_index_pairs_force_unroll': 'cppsort::utility::swap_index_pairs_force_unroll(f, cppsort::%(s)s<%(n)d>::template index_pairs<>(), vp::cmp{}, cppsort::utility::identity{});',
}


def subjects(tier):
    """(sorter, size)"""
    top = 64 if tier == 'thorough' else 32
    out = [('sorting_network_sorter', n) for n in range(65)]
    out += [('merge_exchange_network_sorter', n) for n in range(top + 1)]
    out += [('odd_even_merge_network_sorter', n) for n in (0, 1, 2, 4, 8, 16, 32) + ((64,) if tier == 'thorough' else ())]
    return out


def forms(s, n, tier):
    yield 'comparator'
    yield 'projection'
    yield 'iter_swap'
    if n <= 16 or tier == 'thorough':
        yield 'default'
        if n > 1:
            yield 'swap_index_pairs'
    if 1 < n <= 16:
        yield 'swap_index_pairs_force_unroll'


def compile(c, name, src, std, flags=FLAGS):
    path = os.path.join(c.work, name)
    with open(path + '.cpp', 'w') as f:
        f.write(src)
    cmd = [CLANG, '-std=c++%d' % std, '-w'] + flags + ['-I', INC, '-c', '-emit-llvm', path + '.cpp', '-o', path + '.bc']
    r = sh(cmd)
    return (path + '.bc', r, ' '.join(cmd))


TYPES = {'bool': (1, 2), 'char': (1, 1), 'signed char': (1, 1), 'unsigned char': (1, 0), 'short': (2, 1), 'unsigned short': (2, 0),
         'int': (4, 1), 'unsigned int': (4, 0), 'long': (8, 1), 'unsigned long': (8, 0), 'long long': (8, 1),
         'unsigned long long': (8, 0), 'wchar_t': (4, 1), 'char16_t': (2, 0), 'char32_t': (4, 0),
         'float': (4, 1), 'double': (8, 1), 'long double': (16, 1)}


def callables(t, std):
    """(comparator and projection, decreasing)"""
    comps = [('', 0), ('std::less<>{}', 0), ('std::greater<>{}', 4), ('std::less<%s>{}' % t, 0), ('std::greater<%s>{}' % t, 4)]
    if std >= 20:
        comps += [('std::ranges::less{}', 0), ('std::ranges::greater{}', 4)]
    for comp, d in comps:
        yield (', ' + comp if comp else ''), d
        if comp:
            yield ', %s, cppsort::utility::identity{}' % comp, d
            if std >= 20:
                yield ', %s, std::identity{}' % comp, d


VALSORTERS = (('sorting_network_sorter', (2, 3, 4)), ('merge_exchange_network_sorter', (2, 3)), ('odd_even_merge_network_sorter', (2, 4)))


def arithmetic(tier, sorters=VALSORTERS, more=''):
    """(name, std, source, {function: description})"""
    for std in ((14, 17, 20) if tier == 'thorough' else (14, 20)):
        for t, (size, flags) in TYPES.items():
            src, what, k = PRELUDE + more, {}, 0
            for s, sizes in sorters:
                for n in sizes:
                    for args, d in callables(t, std):
                        if n > 2 and ('<' + t in args or tier == 'quick' and 'ranges' in args and n == 4):
                            continue
                        f = 'val_%d' % k
                        k += 1
                        call = 'cppsort::%s<%d>{}(f, f + %d%s)' % (s, n, n, args)
                        src += 'extern "C" { extern const int vp_width_%s = %d, vp_size_%s = %d, vp_flags_%s = %d; void %s(%s* f) { %s; } }\n' % (
                            f, n, f, size, f, flags | d, f, t, call)
                        what[f] = (call, t, n)
            yield 'val_%s_%d' % (t.replace(' ', '_'), std), std, src, what


def stable(pairs, n):
    """Whether the units keep equivalent elements in order"""
    for ranks in itertools.product(range(n), repeat=n):
        w = list(zip(ranks, range(n)))
        for lo, strict, hi in pairs:
            if w[hi][0] < w[lo][0] or (not strict and w[hi][0] == w[lo][0]):
                w[lo], w[hi] = w[hi], w[lo]
        if w != sorted(w):
            return False
    return True


def values(c, exe, vals, built=None):
    if built is None:
        built = pmap(lambda v: compile(c, v[0], v[2], v[1], VALFLAGS), vals)
        for v, (bc, r, cmd) in zip(vals, built):
            c.verdict(r.returncode == 0, 'compiles', v[0], 'the sorters do not compile: ' + r.stderr[:300], cmd + '\n' + r.stderr[:4000])

    def evaluate(v):
        (name, std, src, what), (bc, r, cmd) = v
        return [] if r.returncode else [(what, l.split('\t'), cmd) for l in sh([exe, bc]).stdout.splitlines() if l.startswith('val_')]
    for rows in pmap(evaluate, zip(vals, built)):
        for what, x, cmd in rows:
            call, t, n = what[x[0]]
            if x[1] == 'shape':
                raise Broken('%s with elements of type %s is not followed: %s' % (call, t, x[4]))
            c.verdict(x[1] == 'ok', 'arithmetic', '%s:%s' % (t, call), '%s with elements of type %s: %s' % (call, t, x[4]), cmd + '\n' + '\n'.join(x))


def networks(c):
    c.level = 'proof'
    c.trusted = ['clang 18 front end, optimiser (unrolling) and LLVM bitcode reader', 'tools/netcheck.cpp']
    exe = tool('netcheck')
    std = 17
    # groups of networks compiled together
    todo, groups = subjects(c.tier), []
    size = lambda x: 1 + x[1] ** 2
    for i in range(24):
        groups.append([])
    load = [0] * len(groups)
    for x in sorted(todo, key=size, reverse=True):
        k = load.index(min(load))
        groups[k].append(x)
        load[k] += size(x)

    def build(job):
        k, group = job
        src, what = PRELUDE, {}
        for s, n in group:
            src += 'extern "C" { extern constexpr auto vp_pairs_%s_%d = cppsort::%s<%d>::template index_pairs<>(); }\n' % (s, n, s, n) if n > 1 else ''
            if n > 1:
                src += ('static_assert(sizeof(vp_pairs_%s_%d) == sizeof(cppsort::utility::index_pair<std::ptrdiff_t>) * cppsort::%s<%d>::index_pairs<int>().size(), "");\n'
                        % (s, n, s, n))
                src += 'extern "C" { extern constexpr auto vp_pairs_%s_%d_int = cppsort::%s<%d>::template index_pairs<int>(); }\n' % (s, n, s, n)
            for form in forms(s, n, c.tier):
                f = 'net_%s_%d_%s' % (s, n, form)
                src += 'extern "C" { extern const int vp_width_%s = %d; void %s(vp::el* f) { %s } }\n' % (f, n, f, FORMS[form] % {'s': s, 'n': n})
                what[f] = (s, n, form)
        return what, compile(c, 'net%d' % k, src, std)

    built = pmap(build, enumerate(groups))
    vals = list(arithmetic(c.tier))
    vbuilt = pmap(lambda v: compile(c, v[0], v[2], v[1], VALFLAGS), vals)
    for what, (bc, r, cmd) in built + [(v[3], b) for v, b in zip(vals, vbuilt)]:
        if r.returncode:
            c.fail('compiles', bc.split('/')[-1], 'the networks do not compile: %s' % r.stderr[:300], cmd + '\n' + r.stderr[:4000])
        else:
            c.ok('compiles')
    work = []
    for what, (bc, r, cmd) in built:
        if not r.returncode:
            for f in what:
                work.append((f, what[f], bc, cmd))
    # the costly ones first
    work.sort(key=lambda w: (-(w[1][1] in (64, 52, 43)), -w[1][1]))

    def decide(w):
        # other forms are compared with the first one, which is decided
        r = sh([exe, w[2], w[0]] + (['pairs'] if w[1][2] != 'comparator' else []), timeout=700)
        if r.returncode or not r.stdout:
            return None
        return r.stdout.rstrip('\n').split('\t')
    res = pmap(decide, work)
    base, units = {}, 0
    for (f, (s, n, form), bc, cmd), x in zip(work, res):
        if x is None:
            raise Broken('netcheck failed on %s' % f)
        if x[1] == 'shape':
            raise Broken('%s<%d> is not read as a network: %s' % (s, n, x[4]))
        if x[1] == 'undecided':
            raise Broken('%s<%d>: too many reachable sequences' % (s, n))
        if form == 'comparator':
            base[s, n] = x
    listed = {}
    for what, (bc, r, cmd) in built:
        if r.returncode:
            continue
        for l in sh([exe, bc, 'none']).stdout.splitlines():
            x = l.split('\t')
            if x[1] == 'pairs':
                listed[x[0]] = x[2].split()
    undoc = lambda p: [q.replace('=', '<') for q in p.split()]
    for (f, (s, n, form), bc, cmd), x in zip(work, res):
        key = '%s<%d>' % (s, n)
        replay = '%s\n%s %s %s\n%s' % (cmd, exe, bc, f, '\n'.join(x))
        if x[1] == 'bad':
            c.fail('sorts', key, '%s (%s): %s' % (key, form, x[4]), replay)
            continue
        if form == 'comparator':
            c.ok('sorts')
            units += int(x[3])
            c.sample({'network': key, 'units': int(x[3]), 'result': x[4]})
            if s == 'sorting_network_sorter':
                c.verdict(int(x[3]) == COUNTS[n], 'documented-size', key,
                          '%s has %s compare-exchange units, %d are documented' % (key, x[3], COUNTS[n]), replay)
                if n in STABLE:
                    pairs = [(int(q.split(ch)[0]), ch == '<', int(q.split(ch)[1])) for q in x[5].split() for ch in '<=' if ch in q]
                    c.verdict(stable(pairs, n), 'stable', key, '%s is documented to be stable and exchanges equivalent elements' % key, replay)
        elif (s, n) in base and base[s, n][1] == 'ok':
            c.verdict(x[5] == base[s, n][5], 'same-units', '%s:%s' % (key, form),
                      '%s does not use the same units with %s as with a comparator' % (key, form),
                      replay + '\n' + '\n'.join(base[s, n]))
        if form == 'comparator' and n > 1:
            for suffix in ('', '_int'):
                g = listed.get('vp_pairs_%s_%d%s' % (s, n, suffix))
                if g is None:
                    raise Broken('index_pairs of %s not found' % key)
                got = undoc(x[5])
                c.verdict(g == got, 'index-pairs', key + suffix,
                          '%s::index_pairs() differs from the units of the sorter: %s instead of %s' % (
                              key, next((a for a, b in zip(g + ['nothing'], got + ['nothing']) if a != b), ''),
                              next((b for a, b in zip(g + ['nothing'], got + ['nothing']) if a != b), '')), replay + '\n' + ' '.join(g))
    values(c, exe, vals, vbuilt)
    c.notes['networks'] = len(base)
    c.notes['units'] = units
    if not c.violations:
        c.require('sorts', 100)
        c.require('same-units', 200)
        c.require('documented-size', 65)
        c.require('stable', 4)
        c.require('index-pairs', 190)
        c.require('arithmetic', 1000)
    c.explanation = ('Every network is instantiated over opaque elements; its IR, fully unrolled, must be a sequence of '
                     'compare-exchange units at constant indices. The sets of 0-1 sequences which may reach each unit are '
                     'computed exactly, and only sorted ones may reach the end (0-1 principle: then every input is sorted).')


# docs/Fixed-size-sorters.md: comparisons and moves (three for an exchange) over all the permutations
WEIGHTS = {'low_comparisons_sorter': [0, 0, 2, 16, 112, 832, 6912, 62784, 623232, 6759936, 79937280, 1020833280, 15167554560, 223436206080],
           'low_moves_sorter': [0, 0, 3, 17, 122, 898, 7188, 63276, 612048, 6476112, 74558880]}


def fixed(c):
    c.level = 'proof'
    c.trusted = ['clang 18 front end, optimiser and LLVM bitcode reader', 'tools/ordercheck.cpp and tools/machine.h']
    exe = tool('ordercheck')
    top = {'low_comparisons_sorter': 13, 'low_moves_sorter': 10 if c.tier == 'thorough' else 9}
    more = '#include <cpp-sort/fixed/low_comparisons_sorter.h>\n#include <cpp-sort/fixed/low_moves_sorter.h>\n'
    jobs = []
    for s in top:
        for form in ('comparator', 'projection', 'iter_swap', 'default'):
            for std in (14, 20) if form in ('comparator', 'default') else (17,):
                src, what = PRELUDE + more, {}
                for n in range(top[s] + 1):
                    if c.tier == 'quick' and n > (11 if s == 'low_comparisons_sorter' else 8) and (form, std) != ('comparator', 14):
                        continue
                    f = 'ord_%s_%d' % (s, n)
                    what[f] = (s, n, form, std)
                    src += 'extern "C" { extern const int vp_width_%s = %d; void %s(vp::el* f) { %s } }\n' % (f, n, f, FORMS[form] % {'s': s, 'n': n})
                jobs.append(('%s_%s_%d' % (s, form, std), std, src, what))
    built = pmap(lambda j: compile(c, j[0], j[2], j[1]), jobs)
    work = []
    for (name, std, src, what), (bc, r, cmd) in zip(jobs, built):
        c.verdict(r.returncode == 0, 'compiles', name, 'the sorters do not compile: ' + r.stderr[:300], cmd + '\n' + r.stderr[:4000])
        if not r.returncode:
            work += [(f, what[f], bc, cmd) for f in what]
    work.sort(key=lambda w: -w[1][1] - (2 if w[1][0] == 'low_moves_sorter' else 0))
    states = 0
    for (f, (s, n, form, std), bc, cmd), r in zip(work, pmap(lambda w: sh([exe, w[2], w[0]] + ([] if w[1][2] == 'comparator' else ['sorted'])), work)):
        x = r.stdout.rstrip('\n').split('\t')
        key = '%s<%d>' % (s, n)
        if r.returncode or len(x) < 6:
            raise Broken('ordercheck failed on %s' % f)
        replay = '%s\n%s %s %s\n%s' % (cmd, exe, bc, f, r.stdout)
        if x[1] == 'shape':
            raise Broken('%s (%s) is not followed: %s' % (key, form, x[4]))
        states += int(x[3])
        c.verdict(x[1] == 'ok', 'sorts', '%s:%s:%d' % (key, form, std), '%s (%s, C++%d): %s' % (key, form, std, x[4]), replay)
        if x[1] != 'ok' or form != 'comparator':
            continue
        count, comparisons, moves, swaps = map(int, x[5].split())
        weight = comparisons if s == 'low_comparisons_sorter' else moves + 3 * swaps
        c.sample({'sorter': key, 'states': int(x[3]), 'orders': count, 'comparisons': comparisons, 'moves': moves, 'exchanges': swaps})
        c.verdict(weight == WEIGHTS[s][n], 'documented-weight', key, '%s: the %s weight is %d, not %d as documented' % (
            key, 'comparison' if s == 'low_comparisons_sorter' else 'move', weight, WEIGHTS[s][n]), replay)
    # arithmetic types
    nexe = tool('netcheck')
    vals = list(arithmetic(c.tier, (('low_comparisons_sorter', (2,)), ('low_moves_sorter', (2,))), more))
    values(c, nexe, vals)
    c.notes['states'] = states
    if not c.violations:
        c.require('sorts', 100)
        c.require('documented-weight', 40 if c.tier == 'quick' else 44)
        c.require('arithmetic', 500)
    c.explanation = ('Every sorter is instantiated over opaque elements; a forward analysis of its IR computes all the pairs of a '
                     'state (places of the elements, addresses, integers) and a preorder of the elements established by the '
                     'comparisons. Every state which reaches the end must hold all the elements in an order known to be sorted.')
