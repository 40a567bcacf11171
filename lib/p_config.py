"""Headers on their own and together, configurations, sequences which are only read."""
import glob
import re
from common import *
from canon import Pairs, run_pairs
from witness import Unit, run_units
import irdrv
from subjects import *
from tables import SORTERS, CATS, header_of
from p_arch import it, call

CONFIGS = {
    'assertions': ['-DCPPSORT_ENABLE_ASSERTIONS'],
    'audits': ['-DCPPSORT_ENABLE_AUDITS'],
    'both': ['-DCPPSORT_ENABLE_ASSERTIONS', '-DCPPSORT_ENABLE_AUDITS'],
    'audits, NDEBUG': ['-DCPPSORT_ENABLE_AUDITS', '-DNDEBUG'],
    'no deprecation': ['-DCPPSORT_DISABLE_DEPRECATION_WARNINGS'],
}


def public_headers():
    out = []
    for d, _, fs in os.walk(os.path.join(INC, 'cpp-sort')):
        if '/detail' in d:
            continue
        out += [os.path.relpath(os.path.join(d, f), INC) for f in fs if f.endswith('.h')]
    return sorted(out)


def write(c, name, text):
    f = os.path.join(c.work, name)
    with open(f, 'w') as o:
        o.write(text)
    return f


def first_error(r, f):
    d = [d for d in parse_diags(r.stderr, f) if d[0] != 'warning']
    return '%s:%d: %s' % (rel(d[0][1]), d[0][2], d[0][3]) if d else r.stderr.strip().split('\n')[-1][:300]


def headers(c):
    c.explanation = (
        'Every public header is type-checked alone and included twice, in each language mode and configuration of assertions; '
        'all of them are in the same unit, in both orders. Every entity defined by the '
        'headers must have vague or internal linkage; the only macros left defined begin '
        'with CPPSORT_; conditions of assertions (which only some configurations evaluate) have no side effect; every subject '
        'instantiated over minimal archetypes must compile in every configuration.')
    c.level = 'proof'
    hs = public_headers()
    if len(hs) < 90:
        raise Broken('only %d public headers' % len(hs))
    stds = (14, 17, 20)

    # alone
    def alone(j):
        h, std, cfg = j
        f = write(c, 'h_%s_%d_%s.cpp' % (ident(h), std, ident(cfg)), '#include <%s>\n' % h * 2)
        cmd = clang_args(std, CONFIGS.get(cfg, []) + ['-fsyntax-only', f])
        return j, sh(cmd), f, cmd
    todo = [(h, s, '') for h in hs for s in stds] + [(h, 17, k) for h in hs for k in CONFIGS]
    for (h, std, cfg), r, f, cmd in pmap(alone, todo):
        c.verdict(r.returncode == 0, 'header-alone', '%s/%d/%s' % (h, std, cfg),
                  '#include <%s> alone (c++%d%s) does not compile: %s' % (h, std, ', ' + cfg if cfg else '', first_error(r, f)),
                  ' '.join(cmd))
        os.remove(f)

    # together; linkage of what they define; macros
    def together(j):
        order, std = j
        l = hs if order == 'forward' else hs[::-1]
        f = write(c, 'all_%s_%d.cpp' % (order, std), ''.join('#include <%s>\n' % h for h in l))
        cmd = clang_args(std, ['-O0', '-femit-all-decls', '-emit-llvm', '-S', f, '-o', f[:-4] + '.ll'])
        return j, sh(cmd), f, cmd
    whole = []
    for (order, std), r, f, cmd in pmap(together, [(o, s) for o in ('forward', 'backward') for s in stds]):
        c.verdict(r.returncode == 0, 'headers-together', '%s/%d' % (order, std),
                  'all headers in %s order (c++%d) do not compile: %s' % (order, std, first_error(r, f)), ' '.join(cmd))
        if r.returncode == 0:
            whole.append((std, f[:-4] + '.ll', cmd))
    strong = re.compile(r'^(?:define|@)')
    weak = re.compile(r'\b(linkonce_odr|linkonce|weak_odr|weak|internal|private|available_externally|external|extern_weak|declare|appending)\b')
    for std, ll, cmd in whole:
        n = 0
        for line in open(ll, errors='replace'):
            if not strong.match(line):
                continue
            n += 1
            head = line.split('(')[0] if line.startswith('define') else line.split('=', 1)[1][:80] if '=' in line else ''
            name = re.search(r'@("[^"]*"|[\w.$]+)', line)
            if not weak.search(head) and name and not name.group(1).startswith('llvm.'):
                c.fail('vague-linkage', name.group(1), 'a header defines %s, which two translation units cannot both do (c++%d)'
                       % (sh(['c++filt', name.group(1)]).stdout.strip() or name.group(1), std), ' '.join(cmd) + '\n' + line[:400])
        c.ok('vague-linkage', n)
        os.remove(ll)

    def macros(std):
        f = write(c, 'mac_%d.cpp' % std, ''.join('#include <%s>\n' % h for h in hs))
        return std, sh(clang_args(std, ['-dD', '-E', f]))
    for std, r in pmap(macros, stds):
        where, left, n = '', {}, 0
        for line in r.stdout.splitlines():
            m = re.match(r'# \d+ "([^"]*)"', line)
            if m:
                where = m.group(1)
            elif line.startswith('#define ') and where.startswith(INC):
                left[re.split(r'[ (]', line[8:])[0]] = where
                n += 1
            elif line.startswith('#undef '):
                left.pop(line[7:].strip(), None)
        for m, w in sorted(left.items()):
            c.verdict(m.startswith('CPPSORT_') or m in ('__has_include', '__has_cpp_attribute'), 'own-macros', m,
                      'the header %s leaves the macro %s defined (c++%d)' % (rel(w), m, std), '')
        if n < 100:
            raise Broken('only %d macros seen' % n)

    # assertions
    f = write(c, 'assert.cpp', ''.join('#include <%s>\n' % h for h in hs))
    tidy = ['clang-tidy-18' if os.path.exists('/usr/bin/clang-tidy-18') else 'clang-tidy', '--quiet',
            '--checks=-*,bugprone-assert-side-effect', '--header-filter=.*', '--config={CheckOptions: '
            '{bugprone-assert-side-effect.AssertMacros: "assert,CPPSORT_ASSERT,CPPSORT_AUDIT,CPPSORT_ASSUME"}}', f, '--',
            '-std=c++17', '-w', '-I', INC, '-DCPPSORT_ENABLE_AUDITS', '-ftemplate-depth=2000']
    r = sh(tidy)
    if ' error: ' in r.stdout or r.returncode not in (0, 1):
        raise Broken('clang-tidy failed: ' + (r.stdout + r.stderr)[-500:])
    hits = re.findall(r'^(\S+?):(\d+):\d+: warning: (.*side effect.*)$', r.stdout, re.M)
    for p, line, msg in hits:
        c.fail('pure-assertions', '%s:%s' % (rel(p), line), '%s:%s: the condition of an assertion has side effects, which only '
               'happen in some configurations' % (rel(p), line), ' '.join(tidy))
    n = sum(len(re.findall(r'CPPSORT_(?:ASSERT|AUDIT|ASSUME)\(', open(p, errors='replace').read()))
            for p in glob.glob(INC + '/cpp-sort/**/*.h', recursive=True))
    c.ok('pure-assertions', n)
    # a positive example must be seen
    e = write(c, 'positive.cpp', '#include <cassert>\nint f(int i) { assert(++i); return i; }\n')
    r = sh(tidy[:4] + [e, '--', '-std=c++17', '-w'])
    if 'side effect' not in r.stdout:
        raise Broken('clang-tidy does not see side effects any more')

    # configurations do not change what compiles
    units = []
    for cfg, flags in CONFIGS.items():
        if cfg == 'no deprecation' or (c.tier != 'thorough' and cfg == 'assertions'):
            continue
        for s in sorters() + adapters() + probes():
            u = Unit('cfg_%s_%s' % (ident(cfg), ident(s.name)), s.headers, 17, flags=['-w'] + flags)
            v = 'dmv' if s.default else 'mv'
            i = it(v, s.cat)
            if s.name in ('counting_sorter', 'ska_sorter', 'spread_sorter', 'integer_spread_sorter', 'float_spread_sorter',
                          'string_spread_sorter', 'std_sorter'):
                continue
            u.ok('any-configuration', '%s/%s/comp' % (s.name, cfg),
                 call(s, 'vp_v<%s>()' % i, 'vp_v<%s>()' % i, 'vp_v<vp::%s<vp::%s>>()' % ('cmp_const' if s.kind == 'probe' else 'cmp_mut', v)))
            u.ok('any-configuration', '%s/%s/proj' % (s.name, cfg),
                 call(s, 'vp_v<%s>()' % i, 'vp_v<%s>()' % i, 'vp_v<vp::cmp_const<vp::key>>()', 'vp_v<vp::%s<vp::%s>>()' % ('proj_cref' if s.kind == 'probe' else 'proj_ref', v)))
            units.append(u)
    run_units(c, units)
    c.trusted = ['clang 18 front end', 'clang-tidy 18 bugprone-assert-side-effect']
    c.require('header-alone', 500)
    c.require('headers-together', 6)
    c.require('vague-linkage', 60)
    c.require('own-macros', 100)
    c.require('pure-assertions', 40)
    c.require('any-configuration', 200)


# ------------------------------------------------------------------- reading
IMM = '''#include <list>
#include <forward_list>
#include <deque>
namespace vp {
// elements which can be neither moved, copied, exchanged, assigned nor destroyed
struct imm {
    imm() = delete; imm(const imm&) = delete; imm& operator=(const imm&) = delete; ~imm() = delete;
    template<class T> friend void operator,(const imm&, T&&) = delete;
};
// the same for the nodes of a list, which owns them
struct node {
    node() = delete; node(const node&) = delete; node& operator=(const node&) = delete; ~node();
};
template<class V> struct rcmp { bool operator()(const V&, const V&) const; };
template<class V> struct mcmp { bool operator()(V&, V&); mcmp(const mcmp&); };
struct ikey { ikey(ikey&&); ikey(const ikey&); ikey& operator=(const ikey&) = delete; };
template<class V> struct rproj { ikey operator()(const V&) const; };
template<class V> struct cproj { const ikey& operator()(const V&); };
}
'''


def reading(c):
    c.explanation = (
        'Every measure of presortedness, sorted_indices and sorted_iterators is instantiated over constant elements which '
        'can be neither moved, copied, assigned, exchanged nor destroyed, and every algorithm for lists over nodes which cannot be '
        'moved, copied or assigned: nothing but comparisons and projections of the elements, and operations on links, can then '
        'compile. In the compiled schwartz_adapter, the projection given by the user is only called before the adapted sorter is.')
    c.level = 'proof'
    units = []
    readers = [(s.name, s.expr, s.headers, 'fwd') for s in probes()]
    for a in ('heap_sorter', 'merge_sorter', 'pdq_sorter', 'insertion_sorter', 'grail_sorter<>', 'tim_sorter'):
        h = a.split('<')[0]
        readers.append(('sorted_iterators<%s>' % a, 'cppsort::utility::sorted_iterators<cppsort::%s>{}' % a,
                        ['cpp-sort/utility/sorted_iterators.h', 'cpp-sort/sorters/%s.h' % h], 'fwd'))
        readers.append(('sorted_indices<%s>' % a, 'cppsort::utility::sorted_indices<cppsort::%s>{}' % a,
                        ['cpp-sort/utility/sorted_indices.h', 'cpp-sort/sorters/%s.h' % h], 'ra'))
    seqs = {'fwd': ['std::forward_list<vp::imm>'], 'bidir': ['std::list<vp::imm>'], 'ra': ['std::deque<vp::imm>']}
    for std in (14, 17, 20):
        for name, expr, hs, cat in readers:
            u = Unit('read_%s' % ident(name), hs, std, preamble=IMM)
            for k in ('fwd', 'bidir', 'ra'):
                if cat == 'ra' and k != 'ra':
                    continue
                for q in ('const_iterator', 'iterator'):
                    for t in seqs[k] + (['const vp::imm*', 'vp::imm*'] if k == 'ra' and q == 'iterator' else []):
                        i = t if t.endswith('*') else 'typename %s::%s' % (t, q)
                        i = i.replace('typename ', '')
                        for f, args in (('comp', 'vp_v<vp::rcmp<vp::imm>>()'),
                                        ('proj', 'vp_v<vp::rcmp<vp::ikey>>(), vp_v<vp::rproj<vp::imm>>()'),
                                        ('proj ref', 'vp_v<vp::rcmp<vp::ikey>>(), vp_v<vp::cproj<vp::imm>>()')):
                            u.ok('read-only', '%s/%s/%s/%s' % (name, k, i, f), '%s(vp_v<%s>(), vp_v<%s>(), %s);' % (expr, i, i, args))
                r = seqs[k][0]
                for q in ('const %s' % r, r):
                    u.ok('read-only', '%s/%s/range' % (name, q), '%s(vp_lv<%s>(), vp_v<vp::rcmp<vp::imm>>());' % (expr, q))
                    u.ok('read-only', '%s/%s/projected range' % (name, q),
                         '%s(vp_lv<%s>(), vp_v<vp::rcmp<vp::ikey>>(), vp_v<vp::rproj<vp::imm>>());' % (expr, q))
            units.append(u)
        for a in ('insertion_sorter', 'selection_sorter', 'merge_sorter', 'mel_sorter'):
            u = Unit('link_' + a, ['cpp-sort/adapters/container_aware_adapter.h', 'cpp-sort/adapters/stable_adapter.h',
                                   'cpp-sort/sorters/%s.h' % a], std, preamble=IMM)
            for how in ('cppsort::container_aware_adapter<cppsort::%s>{}' % a,
                        'cppsort::stable_adapter<cppsort::container_aware_adapter<cppsort::%s>>{}' % a):
                if a == 'mel_sorter' and 'stable' in how:
                    continue
                for l in ('std::list<vp::node>', 'std::forward_list<vp::node>'):
                    for f, args in (('comp', 'vp_v<vp::rcmp<vp::node>>()'), ('mutable comp', 'vp_lv<vp::mcmp<vp::node>>()'),
                                    ('proj', 'vp_v<vp::rcmp<vp::ikey>>(), vp_v<vp::rproj<vp::node>>()'),
                                    ('proj ref', 'vp_v<vp::rcmp<vp::ikey>>(), vp_v<vp::cproj<vp::node>>()')):
                        u.ok('relink-only', '%s/%s/%s' % (how, l, f), '%s(vp_lv<%s>(), %s);' % (how, l, args))
            units.append(u)
        u = Unit('link_self', ['cpp-sort/adapters/self_sort_adapter.h', 'cpp-sort/adapters/stable_adapter.h',
                               'cpp-sort/sorters/heap_sorter.h'], std, preamble=IMM)
        for l in ('std::list<vp::node>', 'std::forward_list<vp::node>'):
            for how in ('self_sort_adapter<cppsort::heap_sorter>',):
                u.ok('relink-only', '%s/%s' % (how, l), 'cppsort::%s{}(vp_lv<%s>(), vp_v<vp::rcmp<vp::node>>());' % (how, l))
        units.append(u)
    run_units(c, units)
    projected(c)
    c.require('read-only', 1000)
    c.require('relink-only', 100)
    c.require('projected-beforehand', 20)


SCHWARTZ = r'''
extern "C" { void vp_begin(); void vp_end(); bool vp_next(); int vp_uproj(const void*); bool vp_ucmp(int, int);
             void vp_swapped(const void*); }
namespace vp {
struct k { int v; };
struct uproj { k operator()(const el& e) const { return {vp_uproj(&e)}; } };
struct ucmp { bool operator()(const k& a, const k& b) const { return vp_ucmp(a.v, b.v); } };
// an adapted sorter which compares and moves elements any number of times
struct adapted_impl {
    using iterator_category = std::forward_iterator_tag;
    using is_always_stable = std::false_type;
    template<class I, class C = std::less<>, class P = cppsort::utility::identity,
             class = std::enable_if_t<cppsort::is_projection_iterator_v<P, I, C>>>
    void operator()(I f, I l, C c = {}, P p = {}) const
    {
        auto&& comp = cppsort::utility::as_function(c);
        auto&& proj = cppsort::utility::as_function(p);
        vp_begin();
        for (I g = f; vp_next() && g != l; ++g) {
            if (comp(proj(*f), proj(*g))) {
                using cppsort::utility::iter_move;
                auto t = iter_move(f);
                *f = iter_move(g);
                if (comp(proj(t), proj(*f))) *g = std::move(t);
                else { using cppsort::utility::iter_swap; *g = std::move(t); iter_swap(f, g); }
            }
        }
        vp_end();
    }
};
struct adapted: cppsort::sorter_facade<adapted_impl> {};
}
'''


def projected(c):
    """The projection of schwartz_adapter is not called from the adapted sorter on"""
    from llvmtool import tool
    calls = []
    for a in ('schwartz_adapter<vp::adapted>', 'schwartz_adapter<cppsort::indirect_adapter<vp::adapted>>'):
        for i in ('vp::el*', 'vp::wit<std::random_access_iterator_tag>', 'vp::wit<std::bidirectional_iterator_tag>',
                  'vp::wit<std::forward_iterator_tag>'):
            calls.append(('%s/%s' % (a, i), '%s f, %s l' % (i, i), 'cppsort::%s{}(f, l, vp::ucmp{}, vp::uproj{})' % a))
        calls.append(('%s/range' % a, 'vp::rng& r', 'cppsort::%s{}(r, vp::ucmp{}, vp::uproj{})' % a))

    def one(std):
        text = '#include <cpp-sort/adapters/schwartz_adapter.h>\n#include <cpp-sort/adapters/indirect_adapter.h>\n#include <mock.h>\n' + SCHWARTZ
        for n, (key, sig, body) in enumerate(calls):
            text += 'extern "C" void vp_got_%d(%s) { %s; }\n' % (n, sig, body)
        f = write(c, 'schwartz_%d.cpp' % std, text)
        cmd = clang_args(std, ['-O1', '-fno-unroll-loops', '-mllvm', '-inline-threshold=100000',
                               '-emit-llvm', '-c', f, '-o', f[:-4] + '.bc'])
        r = sh(cmd)
        if r.returncode:
            return std, None, cmd, first_error(r, f)
        t = sh([tool('canon'), f[:-4] + '.bc'])
        if t.returncode:
            raise Broken('canon failed: ' + t.stderr[-300:])
        return std, t.stdout, cmd, ''
    for std, text, cmd, err in pmap(one, (14, 17, 20)):
        if text is None:
            c.fail('projected-beforehand', 'unit/%d' % std, 'schwartz_adapter over a user-defined sorter does not compile: ' + err, ' '.join(cmd))
            continue
        for part in text.split('=== ')[1:]:
            lines = part.splitlines()
            key = calls[int(lines[0].split('_')[-1])][0]
            at = [k for k, l in enumerate(lines) if '@vp_begin' in l]
            pr = [k for k, l in enumerate(lines) if '@vp_uproj' in l]
            if not at or not pr:
                raise Broken('schwartz_adapter: the sorter or the projection is not called (%s)' % key)
            c.verdict(max(pr) < min(at), 'projected-beforehand', key, 'schwartz_adapter calls the projection from the adapted sorter, '
                      'or after it (%s, c++%d)' % (key, std), ' '.join(cmd) + '\n' + '\n'.join(lines))
