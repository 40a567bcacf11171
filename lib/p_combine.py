"""Comparator and projection combinators and adapters."""
import itertools
from common import *
from canon import Pairs, run_pairs
from witness import Unit, run_units

INC = ['cpp-sort/comparators/%s.h' % h for h in ('flip', 'not_fn', 'projection_compare')] + \
      ['cpp-sort/utility/functional.h', 'cpp-sort/utility/as_function.h', 'cpp-sort/utility/branchless_traits.h',
       'cpp-sort/refined.h', 'combine.h']
PARAMS = 'vp::el& a, const vp::el& b, vp::tc c, vp::tp p, vp::tp q, vp::tr r, vp::tu u, vp::tk k, vp::el* ptr, int x'
SELF = {'lvalue': '%s', 'const': 'vp::cst(%s)', 'rvalue': 'std::move(%s)', 'const-rvalue': 'std::move(vp::cst(%s))'}
ARGS = {'lc': ('a', 'b'), 'cl': ('b', 'a'), 'rl': ('std::move(a)', 'a'), 'cr': ('b', 'std::move(a)'),
        'cr-r': ('std::move(b)', 'std::move(a)')}
CS = 'cppsort::'


def stds(tier):
    return (14, 17, 20) if tier == 'thorough' else (14, 20)


class Expr:
    """A comparator built with the combinators: how it is made, and what it means"""
    def __init__(self, make, meaning, name, typ):
        self.make, self.meaning, self.name, self.typ = make, meaning, name, typ


# documented results of the construction functions, on types written as tuples
def flip_type(t):
    if t[0] == 'flip':
        return t[1]
    if t[0] == 'not' and t[1][0] == 'flip':
        return ('not', t[1][1])
    if t[0] == 'pc':
        return ('pc', flip_type(t[1]), t[2])
    return ('flip', t)


def not_type(t):
    if t[0] == 'not':
        return t[1]
    if t[0] == 'flip' and t[1][0] == 'not':
        return ('flip', t[1][1])
    if t[0] == 'pc':
        return ('pc', not_type(t[1]), t[2])
    return ('not', t)


def spell(t):
    if t[0] == 'flip':
        return 'cppsort::flip_t<%s>' % spell(t[1])
    if t[0] == 'not':
        return 'cppsort::not_fn_t<%s>' % spell(t[1])
    if t[0] == 'pc':
        return 'cppsort::projection_compare<%s, %s>' % (spell(t[1]), t[2])
    return t[1]


def swapped(m):
    return lambda x, y: m(y, x)


def negated(m):
    return lambda x, y: '!(%s)' % m(x, y)


def projected(m, p):
    return lambda x, y: m(p(x), p(y))


BASES = {
    'object': ('c', ('base', 'vp::tc'), lambda x, y: 'c(%s, %s)' % (x, y)),
    'mutable': ('vp::tm{x}', ('base', 'vp::tm'), lambda x, y: 'vp::tc{x}(%s, %s)' % (x, y)),
    'function-pointer': ('&vp_fcmp', ('base', 'bool (*)(const vp::el&, const vp::el&)'), lambda x, y: 'vp_fcmp(%s, %s)' % (x, y)),
    'member-function': ('&vp::el::less_than', ('base', 'decltype(&vp::el::less_than)'), lambda x, y: 'vp_memless(&(const vp::el&)(%s), &(const vp::el&)(%s))' % (x, y)),
}


def compositions(depth):
    """Every nesting of flip and not_fn up to some depth over every base, with or without a projection at some level"""
    for b, (make, typ, mean) in BASES.items():
        level = [Expr(make, mean, b, typ)]
        for d in range(depth):
            nxt = []
            for e in level:
                nxt.append(Expr('cppsort::flip(%s)' % e.make, swapped(e.meaning), 'flip(%s)' % e.name, flip_type(e.typ)))
                nxt.append(Expr('cppsort::not_fn(%s)' % e.make, negated(e.meaning), 'not_fn(%s)' % e.name, not_type(e.typ)))
            yield from nxt
            level = nxt


def proj_compositions(depth):
    """The same with one projection embedded at each possible level"""
    for b in ('object', 'mutable'):
        make, typ, mean = BASES[b]
        for ops in itertools.chain.from_iterable(itertools.product('fn', repeat=d) for d in range(depth + 1)):
            for at in range(len(ops) + 1):
                e = Expr(make, mean, b, typ)
                for i in range(len(ops) + 1):
                    if i == at:
                        e = Expr('cppsort::make_projection_compare(%s, p)' % e.make, projected(e.meaning, lambda x: 'p(%s)' % x),
                                 'proj(%s)' % e.name, ('pc', e.typ, 'vp::tp'))
                    if i < len(ops):
                        if ops[i] == 'f':
                            e = Expr('cppsort::flip(%s)' % e.make, swapped(e.meaning), 'flip(%s)' % e.name, flip_type(e.typ))
                        else:
                            e = Expr('cppsort::not_fn(%s)' % e.make, negated(e.meaning), 'not_fn(%s)' % e.name, not_type(e.typ))
                yield e


def combinators(c):
    c.explanation = (
        'Every nesting of the comparator and projection combinators is instantiated over callables which stay opaque and record '
        'their state, the value category of each argument and its identity; the compiled result must have the same effects as '
        'the formula it stands for. The type of the result, its transparency, branchlessness, noexcept specification and the '
        'calls it accepts are decided by the type checker.')
    c.level = 'proof'
    depth = 3
    pairs, wit = [], []
    for std in stds(c.tier):
        exprs = list(compositions(depth)) + list(proj_compositions(depth - 1))
        for chunk in range(0, len(exprs), 16):
            u = Pairs('comp%d' % chunk, INC, std)
            for e in exprs[chunk:chunk + 16]:
                for s, how in SELF.items():
                    if 'const' in s and 'mutable' in e.name:
                        continue
                    for g, (x, y) in ARGS.items():
                        u.add('comparator', '%s/%s/%s' % (e.name, s, g), PARAMS,
                              'auto f = %s; return vp::inv(%s, %s, %s);' % (e.make, how % 'f', x, y),
                              'return %s;' % e.meaning(x, y), 'bool')
            pairs.append(u)
        # the class templates themselves, without any unwrapping
        u = Pairs('classes', INC, std)
        for s, how in SELF.items():
            for g, (x, y) in ARGS.items():
                for key, t, want in (
                        ('flip_t<flip_t>', 'cppsort::flip_t<cppsort::flip_t<vp::tc>> f(cppsort::flip_t<vp::tc>{c})', 'c(%s, %s)' % (x, y)),
                        ('flip_t', 'cppsort::flip_t<vp::tc> f(c)', 'c(%s, %s)' % (y, x)),
                        ('not_fn_t', 'cppsort::not_fn_t<vp::tc> f(c)', '!c(%s, %s)' % (x, y)),
                        ('not_fn_t<not_fn_t>', 'cppsort::not_fn_t<cppsort::not_fn_t<vp::tc>> f(cppsort::not_fn_t<vp::tc>{c})', 'c(%s, %s)' % (x, y)),
                        ('projection_compare', 'cppsort::projection_compare<vp::tc, vp::tp> f(c, p)', 'c(p(%s), p(%s))' % (x, y)),
                        ('projection_compare-ref', 'cppsort::projection_compare<vp::tc, vp::tr> f(c, r)', 'c(r(%s), r(%s))' % (x, y)),
                        ('projection_compare-id', 'cppsort::projection_compare<vp::tc, cppsort::utility::identity> f(c, {})', 'c(%s, %s)' % (x, y)),
                        ('projection_compare-pmf', 'cppsort::projection_compare<std::less<>, decltype(&vp::el::get)> f({}, &vp::el::get)',
                         'vp_get(&(const vp::el&)(%s)) < vp_get(&(const vp::el&)(%s))' % (x, y)),
                        ('projection_compare-pmd', 'cppsort::projection_compare<std::less<>, decltype(&vp::el::member)> f({}, &vp::el::member)',
                         '((const vp::el&)(%s)).member < ((const vp::el&)(%s)).member' % (x, y)),
                        ('as_comparison', 'auto f = cppsort::utility::as_comparison(c)', 'c(%s, %s)' % (x, y)),
                        ('as_comparison-both', 'auto f = cppsort::utility::as_comparison(vp::both{x})', 'vp::both{x}(%s, %s)' % (x, y)),
                        ('as_comparison-twice', 'auto f = cppsort::utility::as_comparison(cppsort::utility::as_comparison(c))', 'c(%s, %s)' % (x, y)),
                        ('as_comparison-pmf', 'auto f = cppsort::utility::as_comparison(&vp::el::less_than)',
                         'vp_memless(&(const vp::el&)(%s), &(const vp::el&)(%s))' % (x, y)),
                        ('as_comparison-function', 'auto f = cppsort::utility::as_comparison(vp_fcmp)', 'vp_fcmp(%s, %s)' % (x, y)),
                        ('make_projection_compare-id', 'auto f = cppsort::make_projection_compare(c, cppsort::utility::identity{})', 'c(%s, %s)' % (x, y)),
                        ('as_function', 'auto f = cppsort::utility::as_function(c)', 'c(%s, %s)' % (x, y)),
                        ('as_function-pmf', 'auto f = cppsort::utility::as_function(&vp::el::less_than)',
                         'vp_memless(&(const vp::el&)(%s), &(const vp::el&)(%s))' % (x, y))):
                    u.add('comparator', '%s/%s/%s' % (key, s, g), PARAMS, '%s; return %s(%s, %s);' % (t, how % 'f', x, y),
                          'return %s;' % want, 'bool')
        # the held functions have the value category of the combinator
        for s, how in SELF.items():
            q = how % 'held'
            for g, (x, y) in ARGS.items():
                for key, t, want in (
                        ('flip', 'auto f = cppsort::flip(vp::tq{x})', 'vp::tq held{x}; return %s(%s, %s);' % (q, y, x)),
                        ('not_fn', 'auto f = cppsort::not_fn(vp::tq{x})', 'vp::tq held{x}; return !%s(%s, %s);' % (q, x, y)),
                        ('not_fn(flip)', 'auto f = cppsort::not_fn(cppsort::flip(vp::tq{x}))', 'vp::tq held{x}; return !%s(%s, %s);' % (q, y, x)),
                        ('as_comparison', 'auto f = cppsort::utility::as_comparison(vp::tq{x})', 'vp::tq held{x}; return %s(%s, %s);' % (q, x, y)),
                        ('flip(as_comparison)', 'auto f = cppsort::flip(cppsort::utility::as_comparison(vp::tq{x}))',
                         'vp::tq held{x}; return %s(%s, %s);' % (q, y, x)),
                        ('projection_compare', 'auto f = cppsort::make_projection_compare(vp::tq{x}, r)',
                         'vp::tq held{x}; return %s(r(%s), r(%s));' % (q, x, y)),
                        ('projection', 'auto f = cppsort::make_projection_compare(c, vp::pq{x})',
                         'vp::pq held{x}; return c(%s(%s), %s(%s));' % (q, x, q, y))):
                    if 'projection' in key and 'rvalue' in s:
                        continue    # called twice: may be called as an lvalue
                    u.add('comparator', 'held/%s/%s/%s' % (key, s, g), PARAMS, '%s; return %s(%s, %s);' % (t, how % 'f', x, y),
                          want, 'bool')
                u.add('projection', 'held/as_projection/%s/%s' % (s, g), PARAMS,
                      'auto f = cppsort::utility::as_projection(vp::pq{x}); return %s(%s).v;' % (how % 'f', x),
                      'vp::pq held{x}; return %s(%s).v;' % (q, x), 'int')
        u.add('comparator', 'not_fn-unary', PARAMS, 'return cppsort::not_fn(u)(a);', 'return !u(a);', 'bool')
        u.add('comparator', 'not_fn-pmd', PARAMS, 'return cppsort::not_fn(&vp::el::member)(a);', 'return !a.member;', 'bool')
        for key, e, want in (('flip-base', 'cppsort::flip(c).base().s', 'c.s'), ('not_fn-base', 'cppsort::not_fn(c).base().s', 'c.s'),
                             ('comparison', 'cppsort::make_projection_compare(c, p).comparison().s', 'c.s'),
                             ('projection', 'cppsort::make_projection_compare(c, p).projection().s', 'p.s'),
                             ('refined', 'cppsort::refined<vp::el>(vp::refinable{x}).s', 'x + 1'),
                             ('refined-lvalue', '[&] { vp::refinable f{x}; return cppsort::refined<vp::el>(f).s; }()', 'x + 1'),
                             ('refined-other', 'cppsort::refined<int>(vp::refinable{x}).s', 'x'),
                             ('refined-none', 'cppsort::refined<vp::el>(c).s', 'c.s')):
            u.add('accessor', key, PARAMS, 'return %s;' % e, 'return %s;' % want, 'int')
        pairs.append(u)
        # projections
        u = Pairs('projections', INC, std)
        for s, how in SELF.items():
            for arg in ('a', 'b', 'std::move(a)', 'std::move(b)'):
                for key, t, want in (
                        ('a|b', 'auto f = r | q', 'q(r(%s)).v'),
                        ('a|b|c', 'auto f = r | r | q', 'q(r(r(%s))).v'),
                        ('a|(b|c)', 'auto f = r | (r | q)', 'q(r(r(%s))).v'),
                        ('a|callable', 'auto f = p | k', 'k(p(%s)).v'),
                        ('pmd|', 'auto f = r | &vp::el::member', 'r(%s).member'),
                        ('pmf|', 'auto f = r | &vp::el::get', 'vp_get(&r(%s))'),
                        ('|function', 'auto f = r | vp_fproj', 'vp_fproj(r(%s))'),
                        ('|function-pointer', 'auto f = r | &vp_fproj', 'vp_fproj(r(%s))'),
                        ('id|', 'auto f = cppsort::utility::identity{} | p', 'p(%s).v'),
                        ('|id', 'auto f = p | cppsort::utility::identity{}', 'p(%s).v'),
                        ('id|pmd', 'auto f = cppsort::utility::as_function(cppsort::utility::identity{} | &vp::el::member)', '((const vp::el&)%s).member'),
                        ('as_projection', 'auto f = cppsort::utility::as_projection(vp::both{x})', 'vp::both{x}(%s).v'),
                        ('as_projection-twice', 'auto f = cppsort::utility::as_projection(cppsort::utility::as_projection(p))', 'p(%s).v'),
                        ('as_projection-pmd', 'auto f = cppsort::utility::as_projection(&vp::el::member)', '((const vp::el&)%s).member'),
                        ('as_projection-pmf', 'auto f = cppsort::utility::as_projection(&vp::el::get)', 'vp_get(&(const vp::el&)%s)'),
                        ('as_projection-function', 'auto f = cppsort::utility::as_projection(vp_fproj)', 'vp_fproj(%s)'),
                        ('as_projection|', 'auto f = cppsort::utility::as_projection(vp::both{x}) | k', 'k(vp::both{x}(%s)).v'),
                        ('|as_projection', 'auto f = r | cppsort::utility::as_projection(&vp::el::get)', 'vp_get(&r(%s))'),
                        ('as_function-pmd', 'auto f = cppsort::utility::as_function(&vp::el::member)', '((const vp::el&)%s).member')):
                    want = want % arg
                    get = '.v' if want.endswith('.v') else ''
                    u.add('projection', '%s/%s/%s' % (key, s, arg), PARAMS,
                          '%s; return %s(%s)%s;' % (t, how % 'f', arg, get), 'return %s;' % want, 'int')
                u.add('projection', 'identity/%s/%s' % (s, arg), PARAMS,
                      'cppsort::utility::identity f; auto&& e = %s(%s); return &e;' % (how % 'f', arg),
                      'auto&& e = %s; return &e;' % arg, 'const vp::el*')
            u.add('projection', 'indirect/%s' % s, PARAMS, 'cppsort::utility::indirect f; return &%s(ptr);' % (how % 'f'), 'return ptr;', 'vp::el*')
            for arg in ('i', 'std::move(i)', 'vp::cst(i)'):
                u.add('projection', 'indirect/%s/%s' % (s, arg), PARAMS,
                      'vp::pointer i{ptr}; cppsort::utility::indirect f; return &%s(%s);' % (how % 'f', arg),
                      'vp::pointer i{ptr}; return &*%s;' % arg, 'const vp::el*')
            u.add('projection', 'half/%s' % s, PARAMS, 'cppsort::utility::half f; return %s(x);' % (how % 'f'), 'return x / 2;', 'int')
            u.add('projection', 'half-size/%s' % s, 'unsigned long n', 'cppsort::utility::half f; return %s(n);' % (how % 'f'), 'return n / 2;', 'unsigned long')
            u.add('projection', 'sqrt/%s' % s, 'double d', 'cppsort::utility::sqrt f; return %s(d);' % (how % 'f'), 'return __builtin_sqrt(d);', 'double')
        pairs.append(u)
        if std >= 17:
            u = Pairs('constants', INC, std)
            for arg in ('a', 'b', 'std::move(a)'):
                u.add('projection', 'function_constant-pmd/' + arg, PARAMS, 'return cppsort::utility::function_constant<&vp::el::member>{}(%s);' % arg,
                      'return ((const vp::el&)%s).member;' % arg, 'int')
                u.add('projection', 'function_constant-pmf/' + arg, PARAMS, 'return cppsort::utility::function_constant<&vp::el::get>{}(%s);' % arg,
                      'return vp_get(&(const vp::el&)%s);' % arg, 'int')
                u.add('projection', 'function_constant-fp/' + arg, PARAMS, 'return cppsort::utility::function_constant<&vp_fproj>{}(%s);' % arg,
                      'return vp_fproj(%s);' % arg, 'int')
            for g, (x, y) in ARGS.items():
                u.add('comparator', 'function_constant/' + g, PARAMS, 'return cppsort::utility::function_constant<&vp_fcmp>{}(%s, %s);' % (x, y),
                      'return vp_fcmp(%s, %s);' % (x, y), 'bool')
                u.add('comparator', 'function_constant-flip/' + g, PARAMS,
                      'return cppsort::flip(cppsort::utility::function_constant<&vp_fcmp>{})(%s, %s);' % (x, y), 'return vp_fcmp(%s, %s);' % (y, x), 'bool')
            if std >= 20:
                for arg in ('a', 'b'):
                    u.add('projection', 'std-identity|/' + arg, PARAMS, 'return (std::identity{} | p)(%s).v;' % arg, 'return p(%s).v;' % arg, 'int')
                    u.add('projection', '|std-identity/' + arg, PARAMS, 'return (p | std::identity{})(%s).v;' % arg, 'return p(%s).v;' % arg, 'int')
                u.add('comparator', 'make_projection_compare-std-identity', PARAMS, 'return cppsort::make_projection_compare(c, std::identity{})(a, b);',
                      'return c(a, b);', 'bool')
            pairs.append(u)
        wit.append(types(std))
    run_pairs(c, pairs)
    run_units(c, wit)
    c.require('comparator', 1500)
    c.require('projection', 250)
    c.require('result-type', 80)
    c.require('transparent', 20)
    c.require('noexcept', 20)
    c.require('branchless', 20)


def types(std):
    u = Unit('types', INC, std, arch=False)

    def yes(rule, key, cond):
        u.ok(rule, key, '@static_assert(%s, "");' % cond)

    vals = 'vp_v<vp::tc>(), vp_v<vp::tp>()'
    env = {'c': 'vp_v<vp::tc>()', 'p': 'vp_v<vp::tp>()'}
    for e in list(compositions(4)) + list(proj_compositions(3)):
        make = e.make.replace('vp::tm{x}', 'vp_v<vp::tm>()')
        import re
        make = re.sub(r'\b(c|p)\b(?!:)', lambda m: env[m.group(1)], make)
        yes('result-type', e.name, 'std::is_same<decltype(%s), %s>::value' % (make, spell(e.typ)))
    for i in ['cppsort::utility::identity'] + (['std::identity'] if std >= 20 else []):
        for q in ('%s', '%s&', 'const %s&'):
            yes('result-type', 'make_projection_compare(c, %s)' % q % i,
                'std::is_same<decltype(cppsort::make_projection_compare(vp_v<vp::tc>(), vp_v<%s>())), vp::tc>::value' % (q % i))
            yes('result-type', 'make_projection_compare(c&, %s)' % q % i,
                'std::is_same<decltype(cppsort::make_projection_compare(vp_v<vp::tc&>(), vp_v<%s>())), vp::tc>::value' % (q % i))
            yes('result-type', 'p|%s' % q % i, 'std::is_same<std::decay_t<decltype(vp_v<vp::tp>() | vp_v<%s>())>, vp::tp>::value' % (q % i))
            yes('result-type', '%s|p' % q % i, 'std::is_same<std::decay_t<decltype(vp_v<%s>() | vp_v<vp::tp>())>, vp::tp>::value' % (q % i))
    for f in ('flip', 'not_fn'):
        for q in ('vp::tc', 'vp::tc&', 'const vp::tc&', 'const vp::tc'):
            yes('result-type', '%s(%s)' % (f, q), 'std::is_same<decltype(cppsort::%s(vp_v<%s>())), cppsort::%s_t<vp::tc>>::value' % (f, q, f))
            yes('result-type', '%s(%s(%s))' % (f, f, q), 'std::is_same<decltype(cppsort::%s(cppsort::%s(vp_v<%s>()))), vp::tc>::value' % (f, f, q))
        yes('result-type', '%s(function)' % f, 'std::is_same<decltype(cppsort::%s(vp_fcmp)), cppsort::%s_t<decltype(&vp_fcmp)>>::value' % (f, f))
    yes('result-type', 'refined_t', 'std::is_same<cppsort::refined_t<vp::el, vp::refinable>, vp::tc>::value')
    yes('result-type', 'refined_t/cv', 'std::is_same<cppsort::refined_t<const vp::el&, const vp::refinable&>, vp::tc>::value')
    yes('result-type', 'refined_t/other', 'std::is_same<cppsort::refined_t<int, vp::refinable>, vp::refinable>::value')
    yes('result-type', 'refined_t/none', 'std::is_same<cppsort::refined_t<vp::el, vp::tc>, vp::tc>::value')
    # transparency
    opaque, clear = ('vp::tc', 'vp::tp'), ('vp::transparent', 'vp::transparent_proj')
    for cc, t1 in ((opaque[0], 0), (clear[0], 1)):
        for w in ('cppsort::flip_t<%s>', 'cppsort::not_fn_t<%s>', 'decltype(cppsort::flip(vp_v<%s>()))', 'decltype(cppsort::not_fn(vp_v<%s>()))',
                  'cppsort::flip_t<cppsort::not_fn_t<%s>>', 'decltype(cppsort::utility::as_comparison(vp_v<%s>()))'):
            yes('transparent', w % cc, '%svp::is_transparent<%s>::value' % ('' if t1 else '!', w % cc))
        for pp, t2 in ((opaque[1], 0), (clear[1], 1)):
            yes('transparent', 'projection_compare<%s, %s>' % (cc, pp),
                '%svp::is_transparent<cppsort::projection_compare<%s, %s>>::value' % ('' if t1 and t2 else '!', cc, pp))
    for pp, t1 in ((opaque[1], 0), (clear[1], 1)):
        yes('transparent', 'as_projection(%s)' % pp, '%svp::is_transparent<decltype(cppsort::utility::as_projection(vp_v<%s>()))>::value' % ('' if t1 else '!', pp))
        for p2, t2 in ((opaque[1], 0), (clear[1], 1)):
            yes('transparent', '%s|%s' % (pp, p2), '%svp::is_transparent<decltype(vp_v<%s>() | vp_v<%s>())>::value' % ('' if t1 and t2 else '!', pp, p2))
    for t in ('identity', 'half', 'log', 'sqrt'):
        yes('transparent', t, 'vp::is_transparent<cppsort::utility::%s>::value' % t)
    # composability
    for t in ('identity', 'half', 'log', 'sqrt', 'indirect'):
        yes('projection-base', t, 'std::is_base_of<cppsort::utility::projection_base, cppsort::utility::%s>::value' % t)
    for e in ('cppsort::utility::as_projection(vp_v<vp::both>())', 'vp_v<vp::tp>() | vp_v<vp::tk>()', 'cppsort::utility::as_projection(&vp::el::member)'):
        yes('projection-base', e, 'std::is_base_of<cppsort::utility::projection_base, std::decay_t<decltype(%s)>>::value' % e)
    # as_comparison and as_projection expose one overload only
    for f, un, bi in (('as_projection', 'true', 'false'), ('as_comparison', 'false', 'true')):
        for q in ('', '&', ' const&'):
            t = 'decltype(cppsort::utility::%s(vp_v<vp::both>()))%s' % (f, q)
            yes('one-overload', '%s%s/unary' % (f, q), 'vp::callable<%s, vp::el&> == %s' % (t, un))
            yes('one-overload', '%s%s/binary' % (f, q), 'vp::callable<%s, vp::el&, vp::el&> == %s' % (t, bi))
    # copies, from every value category
    for k, e in (('as_projection', 'cppsort::utility::as_projection(vp_v<vp::both>())'), ('as_comparison', 'cppsort::utility::as_comparison(vp_v<vp::both>())'),
                 ('flip', 'cppsort::flip(vp_v<vp::tc>())'), ('not_fn', 'cppsort::not_fn(vp_v<vp::tc>())'), ('pipe', 'vp_v<vp::tp>() | vp_v<vp::tk>()'),
                 ('as_comparison(function)', 'cppsort::utility::as_comparison(vp_fcmp)'), ('as_projection(member)', 'cppsort::utility::as_projection(&vp::el::member)'),
                 ('projection_compare', 'cppsort::make_projection_compare(vp_v<vp::tc>(), vp_v<vp::tp>())')):
        for q in ('', '&', ' const&', ' const'):
            u.ok('copies', k + q, '{ using T = std::decay_t<decltype(%s)>; T a(vp_v<T%s>()); T b = vp_v<T%s>(); (void)a; (void)b; }' % (e, q, q))
    # noexcept
    for w in ('cppsort::flip_t<%s>', 'cppsort::not_fn_t<%s>', 'cppsort::projection_compare<%s, vp::nothrower>', 'cppsort::projection_compare<vp::nothrower, %s>'):
        for q in ('&', ' const&'):
            for f, e in (('vp::thrower', '!'), ('vp::nothrower', '')):
                yes('noexcept', w % f + q, '%snoexcept(std::declval<%s>()(std::declval<vp::el&>(), std::declval<vp::el&>()))' % (e, w % f + q))
    for f, e in (('vp::thrower', '!'), ('vp::nothrower', '')):
        for w, a in (('as_comparison', 'std::declval<vp::el&>(), std::declval<vp::el&>()'), ('as_projection', 'std::declval<vp::el&>()')):
            yes('noexcept', '%s(%s)' % (w, f), '%snoexcept(std::declval<decltype(cppsort::utility::%s(vp_v<%s>()))&>()(%s))' % (e, w, f, a))
        yes('noexcept', 'identity|%s' % f, '%snoexcept(std::declval<decltype(cppsort::utility::as_projection(vp_v<%s>()) | vp_v<vp::nothrower>())&>()(std::declval<vp::el&>()))' % (e, f))
        yes('noexcept', '%s|' % f, '%snoexcept(std::declval<decltype(vp_v<%s>() | cppsort::utility::as_projection(vp_v<vp::nothrower>()))&>()(std::declval<vp::el&>()))' % (e, f))
    yes('noexcept', 'identity', 'noexcept(cppsort::utility::identity{}(std::declval<vp::el&>()))')
    # constant expressions
    for key, e in (('flip', 'cppsort::flip(vp::nothrower{})(2, 1)'), ('not_fn', 'cppsort::not_fn(vp::nothrower{})(2, 1)'),
                   ('flip(not_fn)', 'cppsort::flip(cppsort::not_fn(vp::nothrower{}))(1, 1)'),
                   ('as_comparison', 'cppsort::utility::as_comparison(vp::nothrower{})(1, 2)'),
                   ('as_projection', 'cppsort::utility::as_projection(vp::nothrower{})(3) == -3'),
                   ('half', 'cppsort::utility::half{}(9) == 4'), ('identity', 'cppsort::utility::identity{}(3) == 3'),
                   ('as_function', 'cppsort::utility::as_function(vp::nothrower{})(1, 2)')):
        yes('constant', key, e)
    # branchlessness
    T, F = ('std::less<>', 'std::greater<>'), ('vp::tc',)
    for cc in T + F:
        v = cc in T
        for w in ('cppsort::flip_t<%s>', 'cppsort::projection_compare<%s, cppsort::utility::identity>', 'cppsort::flip_t<cppsort::flip_t<%s>>'):
            for t in ('int', 'float'):
                yes('branchless', (w % cc) + '/' + t, 'cppsort::utility::is_probably_branchless_comparison_v<%s, %s> == %s' % (w % cc, t, str(v).lower()))
    yes('branchless', 'projection_compare/pmd', 'cppsort::utility::is_probably_branchless_comparison_v<cppsort::projection_compare<std::less<>, decltype(&vp::el::member)>, vp::el>')
    yes('branchless', 'projection_compare/pmf', '!cppsort::utility::is_probably_branchless_comparison_v<cppsort::projection_compare<std::less<>, decltype(&vp::el::get)>, vp::el>')
    yes('branchless', 'projection_compare/projection', '!cppsort::utility::is_probably_branchless_comparison_v<cppsort::projection_compare<std::less<>, vp::tp>, vp::el>')
    for t in ('std::string', 'vp::el'):
        yes('branchless', 'flip_t/' + t, '!cppsort::utility::is_probably_branchless_comparison_v<cppsort::flip_t<std::less<>>, %s>' % t)
    if std >= 17:
        yes('branchless', 'function_constant/pmd', 'cppsort::utility::is_probably_branchless_projection_v<cppsort::utility::function_constant<&vp::el::member>, vp::el>')
        yes('branchless', 'function_constant/pmf', '!cppsort::utility::is_probably_branchless_projection_v<cppsort::utility::function_constant<&vp::el::get>, vp::el>')
        yes('branchless', 'function_constant/fp', '!cppsort::utility::is_probably_branchless_comparison_v<cppsort::utility::function_constant<&vp_fcmp>, vp::el>')
        yes('result-type', 'function_constant', 'std::is_same<cppsort::utility::function_constant<&vp::el::member>::value_type, int vp::el::*>::value && '
            'cppsort::utility::function_constant<&vp::el::member>::value == &vp::el::member')
        yes('noexcept', 'function_constant', 'noexcept(cppsort::utility::function_constant<&vp::el::member>{}(std::declval<vp::el&>())) && '
            '!noexcept(cppsort::utility::function_constant<&vp_fproj>{}(std::declval<vp::el&>()))')
    return u
