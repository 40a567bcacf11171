"""Call-graph and effect rules over the IR of every sorter, adapter, fixed-size
sorter and probe, instantiated over opaque elements, comparators, projections
and iterators."""
from common import *
import irdrv
from irdrv import reach, path, targets, may_throw, demangled, nothrow
from subjects import *
from tables import SORTERS

THROWING_NEW = ('_Znwm', '_Znam', '_ZnwmSt11align_val_t', '_ZnamSt11align_val_t')
NOTHROW_NEW = ('_ZnwmRKSt9nothrow_t', '_ZnamRKSt9nothrow_t', '_ZnwmSt11align_val_tRKSt9nothrow_t',
               '_ZnamSt11align_val_tRKSt9nothrow_t')
HEAP = THROWING_NEW + NOTHROW_NEW + ('malloc', 'calloc', 'realloc', 'aligned_alloc', 'posix_memalign', 'strdup')


def stds(tier):
    return (14, 17, 20) if tier == 'thorough' else (17, 20)


def jobs(tier, forms=irdrv.ALL_FORMS):
    out = []
    for std in stds(tier):
        for s in sorters() + adapters() + probes():
            out.append((s.name, std, irdrv.roots_of(s, std, forms=forms)))
        raws = irdrv.raw_roots(std)
        for k in range(0, len(raws), 12):
            out.append(('raw%d' % (k // 12), std, raws[k:k + 12]))
    return out


def each(c, forms=irdrv.ALL_FORMS, flags=('-O1',)):
    """Yields (std, root, facts, root function)"""
    nf = nc = 0
    for name, std, roots, f, cmd in irdrv.facts(c, jobs(c.tier, forms), flags):
        nf += len(f.funcs)
        nc += sum(len(v) for v in f.calls.values())
        yield name, std, roots, f, cmd
    c.notes['functions_analysed'] = nf
    c.notes['call_sites_analysed'] = nc


def short(loc):
    f, _, n = loc.rpartition(':')
    f = os.path.normpath(f)
    return (rel(f).split('../')[-1] if f.startswith('/repo') or f.startswith(REPO) else os.path.basename(f)) + ':' + n


def edges(f, n):
    for callee, kind, nt, loc in f.calls.get(n, ()):
        for t in targets(f, callee):
            yield t, loc


def cycles(f, via):
    """Strongly connected components (with an edge) of the reachable functions"""
    index, low, stack, on, out = {}, {}, [], set(), []
    for r in via:
        if r in index:
            continue
        work = [(r, iter([t for t, _ in edges(f, r)]))]
        index[r] = low[r] = len(index)
        stack.append(r)
        on.add(r)
        while work:
            n, it = work[-1]
            for t in it:
                if t not in index:
                    index[t] = low[t] = len(index)
                    stack.append(t)
                    on.add(t)
                    work.append((t, iter([x for x, _ in edges(f, t)])))
                    break
                if t in on:
                    low[n] = min(low[n], index[t])
            else:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[n])
                if low[n] == index[n]:
                    comp = []
                    while True:
                        x = stack.pop()
                        on.discard(x)
                        comp.append(x)
                        if x == n:
                            break
                    if len(comp) > 1 or any(t == n for t, _ in edges(f, n)):
                        out.append(comp)
    return out


# --------------------------------------------------------------------- memory
# documented as needing no more than constant memory, whatever is adapted
CONSTANT_ADAPTED = {'counting_adapter<heap_sorter>', 'self_sort_adapter<heap_sorter>', 'self_sort_adapter<selection_sorter>',
                    'hybrid_adapter<selection_sorter, insertion_sorter, heap_sorter>',
                    'hybrid_adapter<insertion_sorter, heap_sorter>', 'container_aware_adapter<insertion_sorter>',
                    'container_aware_adapter<heap_sorter>'}
# adapters whose adapted sorter cannot throw bad_alloc
NO_BAD_ALLOC_ADAPTED = {'split_adapter<heap_sorter>', 'split_adapter<quick_merge_sorter>', 'counting_adapter<quick_merge_sorter>',
                        'stable_adapter<merge_sorter>'} | CONSTANT_ADAPTED
CONSTANT_PROBES = {'probe::mono', 'probe::runs'}


def memory_class(r):
    """(constant memory, no heap, no bad_alloc) as documented"""
    s = r.subject
    if s.kind == 'sorter':
        d = SORTERS[s.name]
        return d[2] == '1', d[2] == '1' or (d[2] == 'log' and d[3]), d[3]
    if s.kind == 'adapter':
        k = s.name in CONSTANT_ADAPTED
        return k, k or s.name == 'counting_adapter<quick_merge_sorter>', s.name in NO_BAD_ALLOC_ADAPTED
    if s.kind == 'probe':
        k = s.name in CONSTANT_PROBES or (s.name == 'probe::dis' and r.cat == 'fwd')
        return k, k, k or s.name in ('probe::dis', 'probe::osc')
    k = r.key.split('/')[0]
    fixed_buf = 'fixed_buffer' in k
    if k.split('<')[0] in FIXED or k.startswith('small_array_adapter') or k.startswith('d_ary_heap_sorter') or fixed_buf \
            or k == 'apply_permutation' or r.key == 'self_sort_adapter<heap_sorter>/list' \
            or r.key.split('>')[0] in ('container_aware_adapter<insertion_sorter', 'container_aware_adapter<selection_sorter'):
        return True, True, True
    if r.key.startswith('container_aware_adapter<merge_sorter>'):
        return False, True, True
    return False, False, False


def escaping(f, root):
    """Functions reached by calls whose failure to allocate leaves the root"""
    via = {root: None}
    work = [root]
    while work:
        n = work.pop()
        for callee, kind, nt, loc in f.calls.get(n, ()):
            if kind == 'caught':
                continue
            for t in targets(f, callee):
                if t not in via:
                    via[t] = (n, loc)
                    work.append(t)
    return via


def memory(c):
    c.explanation = (
        'For every root (sorter, adapter, probe or fixed-size sorter called with opaque iterators, elements, '
        'comparator and projection), the call graph of the compiled instantiation is explored. Roots documented '
        'as constant-memory must reach no allocation function, no recursive cycle and no variable-sized stack '
        'allocation; those documented never to throw bad_alloc must reach no throwing allocation outside of a '
        'handler for it; the others may allocate with no restriction.')
    c.level = 'proof'
    for name, std, roots, f, cmd in each(c):
        for k, r in enumerate(roots):
            const, noheap, nobad = memory_class(r)
            via = reach(f, 'vp_root_%d' % k)
            cmds = ' '.join(cmd)
            if noheap:
                bad = [h for h in HEAP if h in via]
                c.verdict(not bad, 'no-heap-allocation', r.key,
                          '%s (c++%d) reaches an allocation: %s' % (r.key, std, path(f, via, bad[0]) if bad else ''), cmds)
            if const:
                cyc = cycles(f, via)
                c.verdict(not cyc, 'no-recursion', r.key, '%s (c++%d) recurses through %s' % (
                    r.key, std, demangled(f, cyc[0][0])[:200] if cyc else ''), cmds)
            if const or nobad:
                vla = [(n, l) for n in via for l in f.vla.get(n, ())]
                c.verdict(not vla, 'no-variable-stack-allocation', r.key, '%s (c++%d) allocates on the stack at %s'
                          % (r.key, std, short(vla[0][1]) if vla else ''), cmds)
            if nobad:
                ev = escaping(f, 'vp_root_%d' % k)
                bad = [h for h in THROWING_NEW + ('_ZSt17__throw_bad_allocv',) if h in ev]
                c.verdict(not bad, 'no-bad-alloc', r.key, '%s (c++%d) may throw std::bad_alloc: %s'
                          % (r.key, std, path(f, ev, bad[0]) if bad else ''), cmds)
            c.ok('roots-explored')
            c.sample('%s [c++%d]: %d functions reached' % (r.key, std, len(via)))
    c.require('no-heap-allocation', 250)
    c.require('no-recursion', 200)
    c.require('no-bad-alloc', 350)


# ----------------------------------------------------------------- exceptions
TERMINATORS = ('_ZSt9terminatev', 'abort', 'exit', '_exit', '_Exit', 'quick_exit', '__assert_fail', '_ZSt10unexpectedv')


def exceptions(c):
    c.explanation = (
        'In the compiled instantiation of every root, every call which may throw (moves, swaps, comparator, '
        'projection and iterator operations are all opaque and potentially throwing) and whose unwinding '
        'leads to std::terminate is reported, unless it happens while another exception is already being handled; so is every '
        'handler which may be left without rethrowing, unless it only handles std::bad_alloc.')
    c.level = 'proof'
    for name, std, roots, f, cmd in each(c, irdrv.ALL_FORMS + tuple(irdrv.MIXED)):
        mt = may_throw(f)
        cmds = ' '.join(cmd)
        seen = set()
        for fn, l in f.term.items():
            for callee, loc in l:
                bad = [t for t in targets(f, callee) if t in mt] or ([callee] if not targets(f, callee) else [])
                if bad:
                    key = '%s/%s' % (name, short(loc))
                    if key not in seen:
                        seen.add(key)
                        c.fail('no-terminate', key, 'an exception thrown by %s called at %s (in %s) terminates (c++%d, %s)'
                               % (demangled(f, bad[0])[:120], short(loc), demangled(f, fn)[:160], std, name), cmds)
        for fn, l in f.swallow.items():
            for loc, what in l:
                key = '%s/%s' % (name, short(loc))
                c.verdict(what == ['_ZTISt9bad_alloc'], 'only-bad-alloc-handled', key,
                          'the handler at %s (in %s) does not rethrow and catches %s (c++%d)'
                          % (short(loc), demangled(f, fn)[:160], ' '.join(what), std), cmds)
        for fn, cs in f.calls.items():
            for callee, kind, nt, loc in cs:
                if callee in TERMINATORS and not fn.startswith('__clang_call_terminate'):
                    c.fail('no-terminate', '%s/%s' % (name, short(loc)), '%s calls %s at %s (c++%d, %s)'
                           % (demangled(f, fn)[:160], callee, short(loc), std, name), cmds)
        c.ok('roots-explored', len(roots))
        for fn, cs in f.calls.items():
            for callee, kind, nt, loc in cs:
                ts = targets(f, callee)
                if any(t in mt for t in ts) and not nothrow(f, fn):
                    c.ok('throwing-call-sites')
        c.sample('%s [c++%d]: %d functions' % (name, std, len(f.funcs)))
    c.require('throwing-call-sites', 20000)


# --------------------------------------------------------------------- purity
ALLOWED = re.compile(
    r'^(_Znwm|_Znam|_ZdlPvm?|_ZdaPvm?|_ZnwmRKSt9nothrow_t|_ZnamRKSt9nothrow_t'
    r'|mem(cpy|move|set|cmp|chr)|strlen|wmem\w+|bcmp|sqrt|sqrtf|sqrtl|log2?\w*|ldexp|frexp\w*|logb\w*|ceil|floor'
    r'|__cxa_\w+|__gxx_personality_v0|_Unwind_Resume|__clang_call_terminate|_ZSt9terminatev'
    r'|_ZSt\d+__throw_\w+|_ZSt19uncaught_exceptionsv|_ZSt18uncaught_exceptionv|abort'
    r'|_ZNSt\d+bad_allocD\w+|_ZNSt12length_error\w+'
    r'|_ZN2vp\w+|_ZNK2vp\w+|_ZNSt8__detail15_List_node_base\w+'
    r'|_ZNKSt7__cxx1112basic_string\w+|_ZNSt7__cxx1112basic_string\w+)$')


def purity(c):
    c.explanation = (
        'Every function reachable from every root is scanned: no mutable global, static or thread-local variable is '
        'defined, no global is written, and the only external functions called are the operations given by the user, '
        'allocation functions, memory and string primitives and the exception runtime, and no address is used as a number but to compute a distance; hence no randomness, clock, thread, '
        'I/O or hidden state can influence the sequence of operations.')
    c.level = 'proof'
    for name, std, roots, f, cmd in each(c, flags=('-O1', '-Xclang', '-disable-llvm-passes')):
        cmds = ' '.join(cmd)
        for g, (dem, linkage, const, tls) in f.globals.items():
            c.verdict(const == 'const', 'no-mutable-state', '%s/%s' % (name, g),
                      'mutable variable %s in %s (c++%d)' % (dem, name, std), cmds)
        for fn, g, loc in f.gwrites:
            c.fail('no-global-write', '%s/%s' % (name, g), '%s writes %s at %s (c++%d)'
                   % (demangled(f, fn)[:160], g, short(loc), std), cmds)
        for fn, use, loc in f.addresses:
            c.fail('no-address-as-number', '%s/%s' % (name, short(use)), '%s uses an address as a number at %s (converted at %s, c++%d)'
                   % (demangled(f, fn)[:160], short(use), short(loc), std), cmds)
        allv = {}
        for k in range(len(roots)):
            via = reach(f, 'vp_root_%d' % k)
            for n in via:
                if n not in f.funcs and n not in allv:
                    allv[n] = via
        for n, via in sorted(allv.items()):
            c.verdict(bool(ALLOWED.match(n)), 'external-calls', '%s/%s' % (name, n),
                      '%s calls %s: %s (c++%d)' % (name, demangled(f, n), path(f, via, n), std), cmds)
        c.ok('functions-scanned', len(f.funcs))
        c.sample('%s [c++%d]: %d functions, %d external' % (name, std, len(f.funcs), len(allv)))
    c.require('functions-scanned', 5000)
    c.require('external-calls', 500)


# ---------------------------------------------------------------------- leaks
INLINE = ['-O1', '-mllvm', '-inline-threshold=20000', '-mllvm', '-inlinehint-threshold=20000', '-mllvm',
          '-inlinecold-threshold=20000', '-mllvm', '-inline-cold-callsite-threshold=20000']


def leaks(c):
    from llvmtool import tool
    c.explanation = (
        'In the fully inlined instantiation of every root over opaque, potentially throwing operations, the pointer '
        'returned by each allocation is followed by a forward must-hold dataflow analysis over every edge, unwind edges '
        'included: on each way out of the function it must have been given to the matching deallocation function. Members of objects '
        'which receive an allocation are followed as well: what they held before must have been freed before it is replaced, and '
        'the function which creates the object must free what it holds on each way out.')
    c.level = 'proof'
    t = tool('irleak')

    def one(j):
        name, std, roots = j
        fname, out, cmd = irdrv.emit(c, name, std, roots, INLINE)
        r = sh([t, out])
        os.remove(out)
        if r.returncode:
            raise Broken('irleak failed on %s: %s' % (name, r.stderr[-300:]))
        return name, std, r.stdout, cmd

    def chain(s):
        l = [x for x in s.split(' < ') if x.startswith(('/repo', REPO))] or [s.split(' < ')[0]]
        return ' < '.join(short(x) for x in l[:4])
    limits = []
    todo = [j for j in jobs(c.tier, ('throwing', 'proj')) if j[2]] if c.tier == 'thorough' else \
        [j for j in jobs(c.tier, ('throwing',)) if j[2] and j[1] == 17]
    for name, std, text, cmd in pmap(one, todo):
        for line in text.splitlines():
            p = line.split('\t')
            cmds = ' '.join(cmd)
            if p[0] == 'D':
                c.fail('matching-deallocation', '%s/%s' % (name, chain(p[2])), 'memory allocated by %s at %s is freed by %s (c++%d)'
                       % (p[3], chain(p[2]), p[4], std), cmds)
                continue
            key = '%s/%s' % (name, chain(p[1]))
            if p[3] == 'limit':
                limits.append(key)
                continue
            c.verdict(p[3] == 'ok', 'freed-on-every-path', key,
                      'memory allocated at %s in %s (c++%d) is not freed when the algorithm is left through %s (%s)'
                      % (chain(p[1]), name, std, chain(p[4]) if len(p) > 4 else '', ' '.join(p[5:7])), cmds)
        c.ok('units-analysed')
        c.sample('%s [c++%d]: %d allocations' % (name, std, len(text.splitlines())))
    if limits:
        c.notes['allocations_not_decided'] = sorted(set(limits))
    c.require('freed-on-every-path', 300)


# ------------------------------------------------------------------ narrowing
# radix sorters take values apart: their conversions are not about sizes
RADIX = ('/spreadsort/', '/ska_sort.h')


def narrowing(c):
    from llvmtool import tool
    c.explanation = (
        'In the IR of every root, lowered without any optimisation which may change the width of an integer, each conversion '
        'of a 64-bit integer or floating-point number to fewer bits made by the library must keep every value the operand may '
        'have (value range, known bits, scalar evolution under the guards of the loop, bound of loops halving a variable), and '
        'no counter of fewer than 64 bits may be incremented by a loop whose number of iterations is not bounded by a constant.')
    c.level = 'proof'
    t = tool('irnarrow')

    def one(j):
        name, std, roots = j
        fname, out, cmd = irdrv.emit(c, name, std, roots, ['-O1', '-Xclang', '-disable-llvm-passes'])
        r = sh([t, out])
        os.remove(out)
        if r.returncode:
            raise Broken('irnarrow failed on %s: %s' % (name, r.stderr[-300:]))
        return name, std, r.stdout, cmd

    def chain(s):
        l = [x for x in s.split(' < ') if x.startswith(('/repo', REPO))]
        return ' < '.join(short(x) for x in l[:3])
    what = {'trunc': 'a 64-bit value is converted %s', 'float': 'a floating-point number which may not be finite or in range is converted %s',
            'overflow': 'a value is computed %s, then converted to 64 bits',
            'counter': 'a counter of %s is incremented in a loop which is not bounded'}
    todo = [j for j in jobs(c.tier, ('comp', 'proj', 'branchless', 'range', 'projected range')) if j[2] and (c.tier == 'thorough' or j[1] == 17)]
    seen = set()
    for name, std, text, cmd in pmap(one, todo):
        for line in text.splitlines():
            kind, verdict, fn, loc, detail = line.split('\t')
            first = loc.split(' < ')[0]
            if not first.startswith(('/repo', REPO)) or any(r in first for r in RADIX):
                continue
            detail = ' '.join(detail.split()[:3]) if kind != 'counter' else ' '.join(detail.split()[:2])
            key = '%s/%s' % (kind, chain(loc).split(' < ')[0])
            if verdict != 'ok':
                if key in seen:
                    continue
                seen.add(key)
            c.verdict(verdict == 'ok', {'counter': 'wide-counter', 'overflow': 'computed-wide', 'float': 'in-range-of-integer'}.get(kind, 'keeps-every-bit'), key,
                      '%s: %s and may lose part of a size or position (%s, c++%d)' % (chain(loc), what[kind] % detail, name, std),
                      ' '.join(cmd) + '\n' + line)
        c.ok('units-analysed')
        c.sample('%s [c++%d]: %d conversions' % (name, std, len(text.splitlines())))
    c.require('units-analysed', 60)
    c.require('in-range-of-integer', 2)
    c.require('keeps-every-bit', 100)
    c.require('wide-counter', 100)
    c.require('computed-wide', 5)


# ---------------------------------------------------------------- temporaries
def temporaries(c):
    from llvmtool import tool
    c.explanation = (
        'In the fully inlined instantiation of every root over opaque elements, each element which lives in a local variable is '
        'followed by a forward dataflow analysis over every edge except unwind edges, with the states absent, holding a value and '
        'moved from: it must not hold a value when it dies or is given another one, nor be given to any operation but a '
        'destructor or an assignment once moved from.')
    c.level = 'proof'
    c.assumptions = ['elements in arrays indexed by variables, in heap memory and in the sequence itself are not followed']
    t = tool('irtemp')

    def one(j):
        name, std, roots = j
        fname, out, cmd = irdrv.emit(c, name, std, roots, INLINE)
        r = sh([t, out])
        os.remove(out)
        if r.returncode:
            raise Broken('irtemp failed on %s: %s' % (name, r.stderr[-300:]))
        return name, std, r.stdout, cmd

    def chain(s):
        l = [x for x in s.split(' < ') if x.startswith(('/repo', REPO))] or [s.split(' < ')[0]]
        return ' < '.join(short(x) for x in l[:4])
    todo = []
    for name, std, roots in jobs(c.tier, ('comp', 'proj')):
        roots = [r for r in roots if getattr(r, 'value', 'mv') == 'mv']
        if roots and (c.tier == 'thorough' or std == 17):
            todo.append((name, std, roots))
    what = {'lost': ('moved-on', 'the element in the local variable made at %s may still hold its value when it is destroyed at %s'),
            'overwritten': ('not-overwritten', 'the element in the local variable made at %s may still hold its value when it is assigned another one at %s'),
            'use': ('not-used-after-move', 'the element in the local variable made at %s may have been moved from when it is used at %s')}
    limits, seen = set(), set()
    for name, std, text, cmd in pmap(one, todo):
        for line in text.splitlines():
            p = line.split('\t')
            if p[2] == 'limit':
                limits.add('%s/%s' % (name, chain(p[1])))
                continue
            if p[2] == 'ok':
                for rule, _ in what.values():
                    c.ok(rule)
                continue
            rule, msg = what[p[2]]
            key = '%s/%s' % (chain(p[1]).split(' < ')[0], chain(p[3]).split(' < ')[0])
            if (rule, key) in seen:
                continue
            seen.add((rule, key))
            c.fail(rule, key, (msg % (chain(p[1]), chain(p[3]))) + ' (%s, c++%d)' % (name, std), ' '.join(cmd) + '\n' + line)
        c.sample('%s [c++%d]: %d local elements' % (name, std, len(text.splitlines())))
    c.notes['elements_not_followed'] = sorted(limits)
    c.require('moved-on', 3000)
