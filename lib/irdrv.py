"""Instantiates every subject over archetypes and extracts facts from its IR."""
import os
from common import *
from llvmtool import tool
from subjects import *
from tables import CATS


class Root:
    """One call of a subject: an extern "C" function in the driver"""
    def __init__(self, subject, cat, value, form, std):
        self.subject, self.cat, self.value, self.form, self.std = subject, cat, value, form, std
        self.key = '%s/%s/%s/%s' % (subject.name, cat, value, form)
        self.sig = self.body = None


class Raw:
    """A call spelled out"""
    def __init__(self, key, sig, body, headers):
        self.key, self.sig, self.body = key, sig, body
        self.subject = Subject(key, '', headers, None, 'raw')


def raw_roots(std):
    """What does not fit in the matrix of sorters, categories and forms"""
    x = lambda t, c: 'vp::xit<%s, %s>' % (t, CATS[c])
    out = []

    def add(key, sig, body, *headers):
        out.append(Raw(key, sig, body, ['cpp-sort/%s.h' % h for h in headers]))

    def it(key, t, c, expr, args, header, more=''):
        i = x(t, c)
        add(key, '%s f, %s l%s' % (i, i, more), '%s(f, l%s)' % (expr, args), header)

    for c in ('fwd', 'bidir', 'ra'):
        for t in ('int', 'unsigned char', 'long long'):
            it('counting_sorter/%s/%s' % (c, t), t, c, 'cppsort::counting_sorter{}', '', 'sorters/counting_sorter')
            it('counting_sorter/%s/%s/greater' % (c, t), t, c, 'cppsort::counting_sorter{}', ', std::greater<>{}',
               'sorters/counting_sorter')
        it('default_sorter/' + c, 'vp::mv', c, 'cppsort::default_sorter{}', ', c', 'sorters/default_sorter', ', vp::cmp_mut<vp::mv>& c')
        it('stable default_sorter/' + c, 'vp::mv', c, 'cppsort::stable_adapter<cppsort::default_sorter>{}', ', c',
           'sorters/default_sorter', ', vp::cmp_mut<vp::mv>& c')
    it('stable std_sorter', 'vp::mv', 'ra', 'cppsort::stable_adapter<cppsort::std_sorter>{}', ', c',
       'sorters/std_sorter', ', vp::cmp_const<vp::mv>& c')
    for t in ('int', 'float', 'double', 'bool', 'std::string', 'unsigned char', 'std::pair<int, short>'):
        it('ska_sorter/' + t, t, 'ra', 'cppsort::ska_sorter{}', '', 'sorters/ska_sorter')
        it('ska_sorter/proj/' + t, 'vp::mv', 'ra', 'cppsort::ska_sorter{}', ', p', 'sorters/ska_sorter',
           ', vp::proj_ref<vp::mv, %s>& p' % t)
    for t in ('int', 'float', 'double', 'std::string', 'unsigned short', 'long long'):
        it('spread_sorter/' + t, t, 'ra', 'cppsort::spread_sorter{}', '', 'sorters/spread_sorter')
        it('spread_sorter/proj/' + t, 'vp::mv', 'ra', 'cppsort::spread_sorter{}', ', p', 'sorters/spread_sorter',
           ', vp::proj_ref<vp::mv, %s>& p' % t)
    it('string_spread_sorter/greater', 'std::string', 'ra', 'cppsort::string_spread_sorter{}', ', std::greater<>{}',
       'sorters/spread_sorter')
    for e in ('wiki_sorter<cppsort::utility::fixed_buffer<0>>', 'wiki_sorter<cppsort::utility::dynamic_buffer<cppsort::utility::half>>',
              'grail_sorter<cppsort::utility::fixed_buffer<64>>', 'grail_sorter<cppsort::utility::dynamic_buffer<cppsort::utility::sqrt>>',
              'wiki_sorter<cppsort::utility::dynamic_buffer<cppsort::utility::log>>'):
        it(e, 'vp::dmv', 'ra', 'cppsort::%s{}' % e, ', c',
           'sorters/' + e.split('<')[0], ', vp::cmp_mut<vp::dmv>& c')
    for n in ('', '<2>', '<7>', '<16>'):
        if n:
            it('d_ary_heap_sorter' + n, 'vp::mv', 'ra', 'cppsort::d_ary_heap_sorter%s{}' % n, ', c',
               'sorters/d_ary_heap_sorter', ', vp::cmp_mut<vp::mv>& c')
    for lst in ('list', 'forward_list'):
        for a in ('insertion_sorter', 'selection_sorter', 'merge_sorter', 'mel_sorter'):
            for form, sig, args in (('comp', ', vp::cmp_mut<vp::mv>& c', ', c'),
                                    ('proj', ', vp::cmp_const<vp::key>& c, vp::proj_ref<vp::mv>& p', ', c, p')):
                add('container_aware_adapter<%s>/%s/%s' % (a, lst, form), 'std::%s<vp::mv>& r%s' % (lst, sig),
                    'cppsort::container_aware_adapter<cppsort::%s>{}(r%s)' % (a, args),
                    'adapters/container_aware_adapter', 'sorters/' + a)
    for n in (0, 1, 2, 3, 4, 8, 13):
        for fs in ('low_comparisons_sorter', 'low_moves_sorter', 'sorting_network_sorter', 'merge_exchange_network_sorter'):
            it('%s<%d>' % (fs, n), 'vp::mv', 'ra', 'cppsort::%s<%d>{}' % (fs, n), ', c', 'fixed/' + fs, ', vp::cmp_mut<vp::mv>& c')
    for n in (0, 1, 4, 16):
        it('odd_even_merge_network_sorter<%d>' % n, 'vp::mv', 'ra', 'cppsort::odd_even_merge_network_sorter<%d>{}' % n, ', c',
           'fixed/odd_even_merge_network_sorter', ', vp::cmp_mut<vp::mv>& c')
    for n in (0, 2, 5, 9):
        for fs in ('low_comparisons_sorter', 'low_moves_sorter', 'sorting_network_sorter'):
            add('small_array_adapter<%s>/%d' % (fs, n), 'std::array<vp::mv, %d>& r, vp::cmp_mut<vp::mv>& c' % n,
                'cppsort::small_array_adapter<cppsort::%s>{}(r, c)' % fs, 'adapters/small_array_adapter', 'fixed/' + fs)
    # adapters over a sorter which uses every operation of what it is given
    for a, h in (('schwartz_adapter', 'schwartz'), ('make_stable', 'stable'), ('stable_adapter', 'stable'), ('out_of_place_adapter', 'out_of_place'),
                 ('indirect_adapter', 'indirect'), ('counting_adapter', 'counting'), ('drop_merge_adapter', 'drop_merge'),
                 ('split_adapter', 'split'), ('verge_adapter', 'verge'), ('self_sort_adapter', 'self_sort')):
        for form in ('comp', 'proj'):
            add('%s<user sorter>/%s' % (a, form), '%s f, %s l, ' % ((x('vp::mv', 'bidir'),) * 2)
                + ('vp::cmp_mut<vp::mv>& c' if form == 'comp' else 'vp::cmp_const<vp::rkey>& c, vp::proj_ref<vp::mv, vp::rkey>& p'),
                'cppsort::%s<vp::user_sorter>{}(f, l, c%s)' % (a, ', p' if form == 'proj' else ''), 'adapters/%s_adapter' % h)
    for a in ('comparisons', 'moves', 'projections'):
        add('%s<user sorter>' % a, '%s f, %s l, vp::cmp_mut<vp::mv>& c' % ((x('vp::mv', 'bidir'),) * 2),
            'cppsort::metrics::%s<vp::user_sorter>{}(f, l, c)' % a, 'metrics/%s' % a)
    for a in ('sorted_indices', 'sorted_iterators'):
        add('%s<user sorter>' % a, '%s f, %s l, vp::cmp_mut<vp::mv>& c' % ((x('vp::mv', 'ra'),) * 2),
            'cppsort::utility::%s<vp::user_sorter>{}(f, l, c)' % a, 'utility/%s' % a)
    add('self_sort_adapter<heap_sorter>/list', 'std::list<vp::mv>& r, vp::cmp_mut<vp::mv>& c',
        'cppsort::self_sort_adapter<cppsort::heap_sorter>{}(r, c)', 'adapters/self_sort_adapter', 'sorters/heap_sorter')
    add('apply_permutation', '%s f, %s l, %s f2, %s l2' % ((x('vp::mv', 'ra'),) * 2 + (x('long long', 'ra'),) * 2),
        'cppsort::utility::apply_permutation(f, l, f2, l2)', 'utility/apply_permutation')
    return out


# Only some operations may throw: (element, iterator, function objects, arguments)
MIXED = {
    'nothrow elements': ('mvn', 'it', 'vp::cmp_const<vp::mvn>& c', 'f, l, c'),
    'throwing assignment': ('mnc', 'it', 'vp::cmp_nt<vp::mnc>& c', 'f, l, c'),
    'throwing construction': ('mna', 'it', 'vp::cmp_nt<vp::mna>& c', 'f, l, c'),
    'throwing projection': ('mvn', 'it', 'vp::cmp_nt<vp::key>& c, vp::proj_cref<vp::mvn, vp::key>& p', 'f, l, c, p'),
    'nothrow projection': ('mvn', 'it', 'vp::cmp_const<vp::key>& c, vp::proj_nt<vp::mvn, vp::key>& p', 'f, l, c, p'),
    'own iter_move': ('mvm', 'mit', 'vp::cmp_nt<vp::mvm>& c', 'f, l, c'),
    'throwing iterators': ('mvn', 'xit', 'vp::cmp_nt<vp::mvn>& c', 'f, l, c'),
}
ALL_FORMS = ('comp', 'proj', 'branchless', 'proxy', 'throwing', 'range', 'projected range')


class Facts:
    def __init__(self):
        self.funcs = {}      # name -> (demangled, linkage, nounwind, loc, comdat)
        self.calls = {}      # name -> [(callee, kind, nounwind, loc)]
        self.term = {}
        self.swallow = {}
        self.vla = {}
        self.taken = {}
        self.decls = {}
        self.gwrites = []
        self.addresses = []  # (function, use, conversion)
        self.globals = {}


def parse(text):
    f = Facts()
    for line in text.splitlines():
        p = line.split('\t')
        if p[0] == 'F':
            f.funcs[p[1]] = p[2:]
        elif p[0] == 'C':
            f.calls.setdefault(p[1], []).append((p[2], p[3], p[4] == '1', p[5]))
        elif p[0] == 'T':
            f.term.setdefault(p[1], []).append((p[2], p[3]))
        elif p[0] == 'S':
            f.swallow.setdefault(p[1], []).append((p[2], p[3].split()))
        elif p[0] == 'D':
            f.decls[p[1]] = (p[2], p[3] == '1')
        elif p[0] == 'A':
            f.taken.setdefault(p[2], []).append(p[1])
        elif p[0] == 'V':
            f.vla.setdefault(p[1], []).append(p[2])
        elif p[0] == 'P':
            f.addresses.append(tuple(p[1:]))
        elif p[0] == 'W':
            f.gwrites.append((p[1], p[2], p[3]))
        elif p[0] == 'G':
            f.globals[p[1]] = p[2:]
    return f


def emit(check, name, std, roots, flags=('-O1',), defs=()):
    """Compiles one unit holding the given roots; returns the bitcode path"""
    fname = os.path.join(check.work, '%s_%d.cpp' % (ident(name), std))
    heads = sorted({h for r in roots for h in r.subject.headers})
    text = ''.join('#define %s\n' % d for d in defs)
    text += ''.join('#include <%s>\n' % h for h in heads) + '#include <array>\n#include <forward_list>\n#include <list>\n#include <string>\n#include "arch_throw.h"\n'
    for k, r in enumerate(roots):
        if r.sig:
            text += 'extern "C" void vp_root_%d(%s) { %s; }\n' % (k, r.sig, r.body)
            continue
        v = r.value
        tmpl = {'proxy': 'pit', 'throwing': 'xit', 'range': 'xit', 'projected range': 'xit'}.get(r.form, 'it')
        i = 'vp::%s<vp::%s, %s>' % (tmpl, v, CATS[r.cat])
        if r.form in ('comp', 'throwing', 'range'):
            sig, args = 'vp::%s<vp::%s>& c' % ('cmp_const' if r.subject.kind == 'probe' else 'cmp_mut', v), 'f, l, c'
        elif r.form == 'proxy':
            sig, args = 'vp::cmp_proxy<vp::%s>& c' % v, 'f, l, c'
        elif r.form == 'branchless':
            sig, args = 'int vp::%s::* p' % v, 'f, l, std::less<>{}, p'
        else:
            key = 'vp::rkey' if 'schwartz' in r.subject.name else 'vp::key'
            pj = 'vp::%s<vp::%s%s>' % ('proj_cref' if r.subject.kind == 'probe' else 'proj_ref', v,
                                       ', vp::rkey' if 'schwartz' in r.subject.name else '')
            sig, args = 'vp::cmp_const<%s>& c, %s& p' % (key, pj), 'f, l, c, p'
        if r.form in MIXED:
            v, tmpl, sig, args = MIXED[r.form]
            if 'schwartz' in r.subject.name:
                sig = sig.replace('vp::key', 'vp::rkey')
            i = 'vp::%s<vp::%s, %s>' % (tmpl, v, ('fwd', 'bidir', 'ra').index(r.cat) if tmpl == 'mit' else CATS[r.cat])
        it = '%s f, %s l' % (i, i)
        if r.form.endswith('range'):
            it, args = 'vp::range<%s>& f' % i, args.replace('f, l', 'f')
        text += 'extern "C" void vp_root_%d(%s, %s) { %s(%s); }\n' % (k, it, sig, r.subject.expr, args)
    with open(fname, 'w') as f:
        f.write(text)
    out = fname[:-4] + '.bc'
    cmd = clang_args(std, list(flags) + ['-gline-tables-only', '-fno-vectorize', '-fno-slp-vectorize',
                                         '-emit-llvm', '-c', fname, '-o', out])
    r = sh(cmd)
    diags = [d for d in parse_diags(r.stderr, fname) if d[0] != 'warning']
    if r.returncode:
        if diags:
            d = diags[0]
            raise Broken('%s:%d: %s' % (rel(d[1]), d[2], d[3]))
        raise Broken('clang failed on %s: %s' % (fname, r.stderr[-500:]))
    return fname, out, cmd


def facts(check, jobs, flags=('-O1',), defs=()):
    """jobs: [(name, std, roots)] -> [(name, std, roots, Facts, cmd)]"""
    t = tool('irgraph')

    def one(j):
        name, std, roots = j
        fname, out, cmd = emit(check, name, std, roots, flags, defs)
        r = sh([t, out])
        if r.returncode:
            raise Broken('irgraph failed: ' + r.stderr[-300:])
        os.remove(out)
        return name, std, roots, parse(r.stdout), cmd
    return pmap(one, jobs)


def targets(f, callee):
    """Functions a call may reach: an indirect call may reach every function of
    its type whose address is taken"""
    return f.taken.get(callee[1:], ()) if callee.startswith('?') else (callee,)


def nothrow(f, n):
    if n in f.funcs:
        return f.funcs[n][2] == '1'
    return n in f.decls and f.decls[n][1]


def may_throw(f):
    """Functions an exception may leave: least fixed point over the call graph"""
    out = {n for n in f.decls if not nothrow(f, n)}
    callers = {}
    for n, cs in f.calls.items():
        if nothrow(f, n):
            continue
        for callee, kind, nt, loc in cs:
            if nt:
                continue
            ts = targets(f, callee)
            if not ts:
                out.add(n)
            for t in ts:
                callers.setdefault(t, set()).add(n)
    work = list(out)
    while work:
        for c in callers.get(work.pop(), ()):
            if c not in out:
                out.add(c)
                work.append(c)
    return out


def demangled(f, n):
    return f.funcs[n][0] if n in f.funcs else f.decls[n][0] if n in f.decls else n


def reach(f, root):
    """Functions reachable from a root, with the caller through which each was
    first reached"""
    via = {root: None}
    work = [root]
    while work:
        n = work.pop()
        for callee, kind, nt, loc in f.calls.get(n, ()):
            for t in targets(f, callee):
                if t not in via:
                    via[t] = (n, loc)
                    work.append(t)
    return via


def path(f, via, n):
    out = []
    while n is not None:
        d = f.funcs.get(n)
        out.append((d[0] if d else n)[:160])
        n = via[n][0] if via[n] else None
    return ' <- '.join(out)


def roots_of(s, std, values=('mv', 'tv'), forms=ALL_FORMS):
    from p_arch import stronger
    out = []
    if s.kind == 'fixed':
        cats = ['ra']
    else:
        cats = stronger(s.cat)
    for v in (['dmv'] if s.default else values):
        for cat in cats:
            for form in forms:
                if form in ('proxy', 'throwing') and ((form == 'proxy' and not s.proxy) or v == 'tv'):
                    continue
                if form in MIXED and (v == 'tv' or s.default or std != 17):
                    continue
                if form.endswith('range') and (v == 'tv' or cat != cats[0]):
                    continue
                if s.kind == 'probe' and form == 'branchless':
                    continue
                out.append(Root(s, cat, v, form, std))
    return out
