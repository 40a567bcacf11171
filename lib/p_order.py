"""The total, weak and partial order comparators, and the other comparators which can be customised."""
import os
from common import *
from canon import Pairs, run_pairs
from llvmtool import tool
from witness import Unit, run_units

ORDERS = ('total', 'weak', 'partial')
NAMES = [o + '_' + d for o in ORDERS for d in ('less', 'greater')]
INC = ['cpp-sort/comparators/%s.h' % n for n in NAMES + ['natural_less', 'case_insensitive_less']] + ['cpp-sort/refined.h', 'order.h']
FLOATS = {'f32': 'float', 'f64': 'double', 'f80': 'long double'}
INTS = ['bool', 'char', 'signed char', 'unsigned char', 'wchar_t', 'char16_t', 'char32_t', 'short', 'unsigned short', 'int', 'unsigned',
        'long', 'unsigned long', 'long long', 'unsigned long long', '__int128', 'unsigned __int128']
# what each type customises
TYPES = {'total': ('total',), 'weak': ('weak',), 'partial': ('partial',), 'every': ORDERS, 'tw': ('total', 'weak'), 'tp': ('total', 'partial'),
         'quiet': ('total',), 'wquiet': ('weak',), 'none': ()}
FALLBACK = {'total': ('total',), 'weak': ('weak', 'total'), 'partial': ('partial', 'weak', 'total')}


def resolve(order, custom):
    for o in FALLBACK[order]:
        if o in custom:
            return o
    return None


def stds(tier):
    return (14, 17, 20) if tier == 'thorough' else (14, 20)


def floats(c, std):
    """Decide the answers for every pair of floating-point values, cell by cell"""
    fname = os.path.join(c.work, 'floats_%d.cpp' % std)
    out = fname[:-4] + '.bc'
    text = ''.join('#include <%s>\n' % h for h in INC)
    index = {}
    for n in NAMES:
        order, d = n.split('_')
        for t, name in FLOATS.items():
            for form, params in (('value', '%s a, %s b'), ('ref', None)):
                f = 'vp_cmp_%s_%s_%s' % (order, d, t)
                if form == 'value':
                    text += 'extern "C" bool %s(%s a, %s b) { return cppsort::%s(a, b); }\n' % (f, name, name, n)
                    index[text.count('\n')] = f
                else:
                    f += '_fwd'
                    text += ('extern "C" bool %s(%s a, %s b) { return cppsort::%s(std::move(a), vo::cst(b)); }\n'
                             % (f, name, name, n))
                    index[text.count('\n')] = f
    with open(fname, 'w') as f:
        f.write(text)
    cmd = clang_args(std, ['-O2', '-fno-vectorize', '-fno-slp-vectorize', '-mllvm', '-inline-threshold=100000',
                           '-emit-llvm', '-c', fname, '-o', out])
    r = sh(cmd)
    if r.returncode:
        diags = [d for d in parse_diags(r.stderr, fname) if d[0] != 'warning']
        seen = set()
        for d in diags:
            for l in d[4]:
                if l in index and index[l] not in seen:
                    seen.add(index[l])
                    c.fail('float-order', index[l], '%s: %s:%d: %s (c++%d)' % (index[l], rel(d[1]), d[2], d[3], std), '\n'.join(d[5][:40]))
        if not seen:
            raise Broken('floats: ' + r.stderr[-600:])
        return
    t = sh([tool('floatcmp'), out])
    if t.returncode:
        raise Broken('floatcmp failed: ' + t.stderr[-500:])
    wrong = {}
    undecided = []
    done = None
    for line in t.stdout.splitlines():
        w = line.split(' ')
        if w[0] == 'WRONG':
            wrong.setdefault(w[1], []).append('%s for %s' % (w[2], ' '.join(w[3:])))
        elif w[0] == 'UNDECIDED':
            undecided.append(' '.join(w[1:]))
        elif w[0] == 'DONE':
            done = int(w[1]), int(w[2])
    if done is None or done[0] != len(index):
        raise Broken('floatcmp analysed %s functions of %d' % (done, len(index)))
    for f, cells in wrong.items():
        _, _, order, d, ty = f.split('_')[:5]
        c.fail('float-order', f, 'cppsort::%s_%s of two %s answers %s (include/cpp-sort/comparators/%s_%s.h, c++%d)'
               % (order, d, FLOATS[ty], cells[0], order, d, std), '\n'.join(cells) + '\n' + ' '.join(cmd))
    if undecided and not wrong:
        raise Broken('not decided: ' + undecided[0])
    per = done[1] // done[0]
    for f in index.values():
        for _ in range(per - len(wrong.get(f, []))):
            c.ok('float-order')
        c.sample('float-order: %s over %d cells [c++%d]' % (f, per, std))


def dispatch(std):
    u = Pairs('order', INC, std)

    for n in NAMES:
        order, d = n.split('_')
        op = '<' if d == 'less' else '>'
        for t in INTS + (['char8_t'] if std >= 20 else []):
            for q, e in (('lvalues', ('a', 'b')), ('rvalues', ('std::move(a)', 'std::move(b)')), ('const', ('vo::cst(a)', 'b'))):
                u.add('integer-order', '%s/%s/%s' % (n, t, q), '%s a, %s b' % (t, t), 'return cppsort::%s(%s, %s);' % (n, e[0], e[1]),
                      'return a %s b;' % op, 'bool')
        for t, custom in TYPES.items():
            to = resolve(order, custom)
            if not to:
                continue
            for q, e in (('lvalues', ('a', 'b')), ('swapped', ('b', 'a')), ('rvalues', ('std::move(a)', 'std::move(b)')),
                         ('const', ('vo::cst(a)', 'b'))):
                x, y = ('b', 'a') if q == 'swapped' else ('a', 'b')
                u.add('customised', '%s/%s/%s' % (n, t, q), 'vo::%s& a, vo::%s& b' % (t, t), 'return cppsort::%s(%s, %s);' % (n, e[0], e[1]),
                      'return vp_%s_%s(1, &%s, 1, &%s);' % (to, d, x, y), 'bool')
                u.add('customised', '%s/%s/%s/object' % (n, t, q), 'vo::%s& a, vo::%s& b' % (t, t), 'return cppsort::%s_t{}(%s, %s);' % (n, e[0], e[1]),
                      'return vp_%s_%s(1, &%s, 1, &%s);' % (to, d, x, y), 'bool')
        u.add('customised', n + '/heterogeneous', 'vo::one& a, vo::two& b', 'return cppsort::%s(a, b);' % n, 'return vp_%s(1, &a, 1, &b);' % n, 'bool')
        # the arguments reach the customisation as they were given
        f = {'total': 'forward', 'weak': 'wforward', 'partial': 'pforward'}[order]
        for q, e, k in (('lc', ('a', 'vo::cst(b)'), (0, 1)), ('cl', ('vo::cst(a)', 'b'), (1, 0)), ('rl', ('std::move(a)', 'b'), (2, 0)),
                        ('lr', ('a', 'std::move(b)'), (0, 2)), ('cr', ('std::move(vo::cst(a))', 'std::move(b)'), (3, 2))):
            u.add('forwarded', '%s/%s' % (n, q), 'vo::%s& a, vo::%s& b' % (f, f), 'return cppsort::%s(%s, %s);' % (n, e[0], e[1]),
                  'return vp_%s(%d, &a, %d, &b);' % (n, k[0], k[1]), 'bool')
    for q, e in (('lvalues', ('a', 'b')), ('rvalues', ('std::move(a)', 'std::move(b)')), ('const', ('vo::cst(a)', 'vo::cst(b)'))):
        for t, s in (('nat', 'nat'), ('nat', 'total')):
            u.add('customised', 'natural_less/%s,%s/%s' % (t, s, q), 'vo::%s& a, vo::%s& b' % (t, s), 'return cppsort::natural_less(%s, %s);' % e,
                  'return vp_natural_less(1, &a, 1, &b);', 'bool')
        # case_insensitive_less: the version with two parameters is used when there is one, else the version with a locale
        for t in ('ci2', 'ci23', 'opaque2'):
            u.add('customised', 'case_insensitive_less/%s/%s' % (t, q), 'vo::%s& a, vo::%s& b' % (t, t),
                  'return cppsort::case_insensitive_less(%s, %s);' % e, 'return vp_ci_less(1, &a, 1, &b);', 'bool')
        for t in ('ci3', 'opaque3'):
            u.add('customised', 'case_insensitive_less/%s/%s' % (t, q), 'vo::%s& a, vo::%s& b' % (t, t),
                  'return cppsort::case_insensitive_less(%s, %s);' % e, 'std::locale l; return vp_ci_loc(&a, &b, &l);', 'bool')
    return u


def located(std):
    u = Pairs('located', INC, std)
    u.only = ('@vp_', '@_ZNSt6locale')
    for q, e in (('lvalues', ('a', 'b')), ('rvalues', ('std::move(a)', 'std::move(b)')), ('const', ('vo::cst(a)', 'vo::cst(b)'))):
        for t in ('ci3', 'ci23', 'opaque3'):
            u.add('customised', 'case_insensitive_less(locale)/%s/%s' % (t, q), 'vo::%s& a, vo::%s& b, const std::locale& given' % (t, t),
                  'return cppsort::case_insensitive_less(given)(%s, %s);' % e, 'std::locale l(given); return vp_ci_loc(&a, &b, &l);', 'bool')
    return u


def refined(std):
    u = Pairs('refined', INC, std)
    u.only = ('@vp_',)
    ci = 'cppsort::case_insensitive_less'
    for t in ('ci2', 'ci23', 'opaque2'):
        u.add('refined', 'refined<%s>(%s)' % (t, ci), 'const vo::%s& a, const vo::%s& b' % (t, t), 'return cppsort::refined<vo::%s>(%s)(a, b);' % (t, ci),
              'return vp_ci_less(1, &a, 1, &b);', 'bool')
    for t in ('ci3', 'opaque3'):
        u.add('refined', 'refined<%s>(%s)' % (t, ci), 'const vo::%s& a, const vo::%s& b' % (t, t), 'vp_ci_loc(&a, &b, nullptr); return cppsort::refined<vo::%s>(%s)(a, b);' % (t, ci),
              'vp_ci_loc(&a, &b, nullptr); std::locale l; return vp_ci_loc(&a, &b, &l);', 'bool')
    for t in ('ci3', 'ci23', 'opaque3'):
        for w in ('cppsort::refined<vo::%s>(%s(given))' % (t, ci), 'cppsort::refined<vo::%s>(%s)(given)' % (t, ci)):
            u.add('refined', w, 'const vo::%s& a, const vo::%s& b, const std::locale& given' % (t, t), 'return %s(a, b);' % w,
                  'std::locale l(given); return vp_ci_loc(&a, &b, &l);', 'bool')
    return u


def types(std):
    u = Unit('order_types', INC, std, arch=False)

    def yes(rule, key, cond):
        u.ok(rule, key, '@static_assert(%s, "");' % cond)

    for n in NAMES:
        order, d = n.split('_')
        f = 'cppsort::%s_t' % n
        yes('transparent', n, 'vo::is_transparent<%s>::value' % f)
        yes('transparent', n + '/same', 'std::is_same<std::decay_t<decltype(cppsort::%s)>, %s>::value' % (n, f))
        yes('transparent', n + '/empty', 'std::is_empty<%s>::value && std::is_trivially_copyable<%s>::value && std::is_default_constructible<%s>::value' % (f, f, f))
        for t, custom in TYPES.items():
            to = resolve(order, custom)
            yes('no-fallback', '%s/%s' % (n, t), 'vo::callable<const %s&, vo::%s&, vo::%s&> == %s' % (f, t, t, 'true' if to else 'false'))
            if to:
                nx = t in ('quiet', 'wquiet')
                for q in ('', '&', ' const&'):
                    yes('noexcept', '%s/%s%s' % (n, t, q), '%snoexcept(cppsort::%s(std::declval<vo::%s%s>(), std::declval<vo::%s&>()))' % ('' if nx else '!', n, t, q, t))
        yes('no-fallback', n + '/less_only', 'vo::callable<const %s&, vo::less_only&, vo::less_only&> == %s' % (f, 'true' if d == 'less' else 'false'))
        for t in ('std::string', 'int*', 'std::nullptr_t'):
            yes('no-fallback', '%s/%s' % (n, t), '!vo::callable<const %s&, %s&, %s&>' % (f, t, t))
        for t in list(FLOATS.values()) + INTS:
            for q in ('', '&', ' const&', ' const'):
                yes('builtin', '%s/%s%s' % (n, t, q), 'std::is_same<decltype(cppsort::%s(std::declval<%s%s>(), std::declval<%s&>())), bool>::value' % (n, t, q, t))
        for t in INTS:
            yes('noexcept', '%s/%s' % (n, t), 'noexcept(cppsort::%s(std::declval<%s&>(), std::declval<%s&>()))' % (n, t, t))
        x, y = ('1', '2') if d == 'less' else ('2', '1')
        if order == 'total':
            yes('constant', n, 'cppsort::%s(%s, %s) && !cppsort::%s(%s, %s) && !cppsort::%s(1, 1)' % (n, x, y, n, y, x, n))
    for n in ('natural_less', 'case_insensitive_less'):
        yes('transparent', n, 'vo::is_transparent<cppsort::%s_t>::value && std::is_same<std::decay_t<decltype(cppsort::%s)>, cppsort::%s_t>::value' % (n, n, n))
    yes('transparent', 'case_insensitive_less(locale)', 'vo::is_transparent<decltype(cppsort::case_insensitive_less(std::declval<std::locale&>()))>::value')
    for t in ('std::string', 'std::vector<char>', 'std::list<char>', 'std::forward_list<char>'):
        for n in ('natural_less', 'case_insensitive_less'):
            yes('sequences', '%s/%s' % (n, t), 'std::is_same<decltype(cppsort::%s(std::declval<%s&>(), std::declval<const %s&>())), bool>::value' % (n, t, t))
        yes('sequences', 'natural_less/heterogeneous/' + t, 'std::is_same<decltype(cppsort::natural_less(std::declval<%s&>(), std::declval<const std::string&>())), bool>::value' % t)
        yes('sequences', 'natural_less/array/' + t, 'std::is_same<decltype(cppsort::natural_less(std::declval<%s&>(), "array")), bool>::value' % t)
    for t in ('std::string', 'std::wstring', 'std::forward_list<wchar_t>'):
        u.ok('sequences', 'case_insensitive_less/body/' + t, '%s a; (void)cppsort::case_insensitive_less(a, a); (void)cppsort::case_insensitive_less(std::locale())(a, a); '
             '(void)cppsort::refined<%s>(cppsort::case_insensitive_less)(a, a); (void)cppsort::refined<%s>(cppsort::case_insensitive_less(std::locale()))(a, a); '
             '(void)cppsort::refined<%s>(cppsort::case_insensitive_less)(std::locale())(a, a);' % (t, t, t, t))
    for t in ('std::forward_list<char>', 'std::list<char>', 'std::string'):
        u.ok('sequences', 'natural_less/body/' + t, '%s a; std::vector<char> b; (void)cppsort::natural_less(a, a); (void)cppsort::natural_less(a, b); (void)cppsort::natural_less("x", a);' % t)
    u.includes[:0] = ['forward_list', 'list', 'string', 'vector']
    return u


def orders(c):
    c.explanation = (
        'The answers of the order comparators on floating-point values are decided over a partition of all pairs of values (sign and class, '
        'and how two reals of the same class compare) by evaluating the optimised code of each comparator once per cell. Their answers on '
        'integers, the dispatch to customised functions and the fallbacks are decided by comparing IR with a specification; which calls '
        'are accepted, and their noexcept specifications, by the type checker.')
    c.assumptions = ['IEEE 754 formats (binary32, binary64, x87 extended)', 'quiet and signaling NaNs are equivalent, as documented',
                     'what natural_less and case_insensitive_less answer on sequences is not decided']
    pairs, units = [], []
    for std in stds(c.tier):
        floats(c, std)
        pairs += [dispatch(std), located(std), refined(std)]
        units.append(types(std))
    run_pairs(c, pairs)
    run_units(c, units)
    if not c.violations:
        for rule, n in (('float-order', 3000), ('integer-order', 500), ('customised', 300), ('forwarded', 50), ('refined', 20), ('transparent', 40),
                        ('no-fallback', 100), ('noexcept', 300), ('builtin', 500), ('constant', 4), ('sequences', 30)):
            c.require(rule, n)
    c.trusted = ['clang 18 front end and optimiser', 'specification functions in /verif/lib', '/verif/tools/floatcmp.cpp']
