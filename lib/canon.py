"""Forwarding obligations decided by comparing optimised IR.

Each obligation is a pair of functions: what the library does when called in
some way, and what it is specified to do.  Both are compiled with the same
optimiser and must have the same ordered effects on the same expressions.
Nothing is run."""
import os
import re
from common import *
from llvmtool import tool


class Pairs:
    def __init__(self, name, includes, std, preamble=''):
        self.name, self.includes, self.std, self.preamble = name, includes, std, preamble
        self.pairs = []
        self.only = None         # compare the lines holding one of these texts only

    def add(self, rule, key, params, got, want, ret='void'):
        self.pairs.append((rule, key, params, got, want, ret))


def emit(check, unit, pairs, tag):
    fname = os.path.join(check.work, '%s_%d_%s.cpp' % (unit.name, unit.std, tag))
    text = ''.join('#include <%s>\n' % h for h in unit.includes) + unit.preamble
    if not text.endswith('\n'):
        text += '\n'
    where = {}
    n = text.count('\n')
    for i, (rule, key, params, got, want, ret) in enumerate(pairs):
        text += 'extern "C" %s vp_got_%d(%s) { %s }\n' % (ret, i, params, got)
        text += 'extern "C" %s vp_want_%d(%s) { %s }\n' % (ret, i, params, want)
        where[n + 1] = (i, 'got')
        where[n + 2] = (i, 'want')
        n += 2
    with open(fname, 'w') as f:
        f.write(text)
    out = fname[:-4] + '.bc'
    cmd = clang_args(unit.std, ['-O2', '-fno-vectorize', '-fno-slp-vectorize', '-fno-strict-aliasing',
                                '-mllvm', '-inline-threshold=100000', '-mllvm', '-inlinehint-threshold=100000',
                                '-fno-access-control', '-emit-llvm', '-c', fname, '-o', out])
    r = sh(cmd)
    diags = [d for d in parse_diags(r.stderr, fname) if d[0] != 'warning']
    if r.returncode and not diags:
        raise Broken('clang failed on %s: %s' % (fname, r.stderr[-800:]))
    return fname, out, where, diags, cmd


def filtered(lines, texts):
    """The lines holding one of the texts, with their values numbered anew"""
    names = {}

    def number(m):
        return names.setdefault(m.group(0), 'v%d' % len(names))
    return [re.sub(r'\bv\d+\b', number, l.strip()) for l in lines if any(t in l for t in texts)]


def run_pairs(check, units):
    def one(u):
        res = []
        pairs = list(u.pairs)
        bad = []
        for attempt in range(6):
            fname, out, where, diags, cmd = emit(check, u, pairs, 'p')
            if not diags:
                break
            lines = {}
            for d in diags:
                hit = [where[l] for l in d[4] if l in where]
                if not hit:
                    raise Broken('%s:%d: %s' % (rel(d[1]), d[2], d[3]))
                if any(h[1] == 'want' for h in hit):
                    raise Broken('specification does not compile: %s: %s' % (pairs[hit[0][0]][1], d[3]))
                lines.setdefault(hit[0][0], d)
            for i, d in lines.items():
                bad.append((pairs[i], d, cmd))
            pairs = [p for i, p in enumerate(pairs) if i not in lines]
        else:
            # an error common to many lines is reported with the first one only
            pairs = []
        forms = {}
        if pairs:
            t = sh([tool('canon'), out])
            if t.returncode:
                raise Broken('canon failed: ' + t.stderr[-500:])
            cur = None
            for line in t.stdout.splitlines():
                if line.startswith('=== '):
                    cur = forms.setdefault(line[4:], [])
                else:
                    cur.append(line)
        return u, pairs, bad, forms, cmd

    tool('canon')
    total = 0
    for u, pairs, bad, forms, cmd in pmap(one, units):
        for p, d, cmd2 in bad:
            check.fail(p[0], p[1], '%s: %s:%d: %s (c++%d, %s)' % (p[0], rel(d[1]), d[2], d[3], u.std, p[1]),
                       p[3] + '\n' + ' '.join(cmd2) + '\n' + '\n'.join(d[5][:60]))
        for i, p in enumerate(pairs):
            g, w = forms.get('vp_got_%d' % i), forms.get('vp_want_%d' % i)
            if g is None or w is None:
                raise Broken('function missing for ' + p[1])
            total += 1
            if u.only:
                g, w = filtered(g, u.only), filtered(w, u.only)
            if g == w:
                check.ok(p[0])
                check.sample('%s: %s [c++%d]' % (p[0], p[1], u.std))
            else:
                check.fail(p[0], p[1], '%s: `%s` does not do what `%s` does (c++%d, %s)'
                           % (p[0], p[3], p[4], u.std, p[1]),
                           ' '.join(cmd) + '\n--- library\n' + '\n'.join(g) + '\n--- specified\n' + '\n'.join(w))
    check.notes['functions_compared'] = 2 * total + check.notes.get('functions_compared', 0)
    check.trusted = ['clang 18 front end and optimiser', 'specification functions in /verif/lib']
