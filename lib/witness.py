"""Type-level witnesses: driver units whose compilation decides obligations.

Every obligation sits on one line of a generated unit.  Accepting obligations
must compile, rejecting ones must be refused by the type checker.  Nothing is
run: clang is called with -fsyntax-only."""
import os
from common import *


class Unit:
    def __init__(self, name, includes, std, preamble='', flags=(), arch=True):
        self.name = name
        self.includes = list(includes) + (['arch.h'] if arch else [])
        self.std = std
        self.preamble = preamble
        self.flags = list(flags)
        self.lines = []          # (rule, key, code, 'ok'|'reject')

    def ok(self, rule, key, code):
        self.lines.append((rule, key, code, 'ok'))

    def reject(self, rule, key, code):
        self.lines.append((rule, key, code, 'reject'))


HEAD = '''template<class T> T vp_v();
template<class T> T& vp_lv();
'''


def compile_lines(check, unit, lines, tag):
    """Compile one unit; returns (lineno->index, diagnostics, path, command)"""
    fname = os.path.join(check.work, '%s_%d_%s.cpp' % (unit.name, unit.std, tag))
    text = ''.join('#include <%s>\n' % h for h in unit.includes) + HEAD + unit.preamble
    if not text.endswith('\n'):
        text += '\n'
    n = text.count('\n')
    where = {}
    for i, (rule, key, code, kind) in enumerate(lines):
        assert '\n' not in code
        if code.startswith('@'):       # namespace-scope obligation
            text += code[1:] + '\n'
        else:
            text += 'void vp_f%d() { %s }\n' % (i, code)
        n += 1
        where[n] = i
    with open(fname, 'w') as f:
        f.write(text)
    cmd = clang_args(unit.std, unit.flags + ['-fsyntax-only', fname])
    if unit.flags:
        cmd.remove('-w')
    r = sh(cmd)
    diags = [d for d in parse_diags(r.stderr, fname) if d[0] != 'warning']
    if r.returncode < 0 or (r.returncode and not diags):
        raise Broken('clang failed on %s: %s' % (fname, r.stderr[-800:]))
    for d in diags:
        if d[0] == 'fatal error':
            raise Broken('%s:%d: %s' % (d[1], d[2], d[3]))
    return where, diags, fname, cmd, r.stderr


def run_units(check, units):
    """Anchor: the headers alone must compile, else the analysis is broken."""
    def anchor(u):
        return compile_lines(check, u, [], 'anchor')

    seen = {}
    for u in units:
        seen.setdefault((tuple(u.includes), u.std, u.preamble, tuple(u.flags)), u)
    for u, res in zip(seen.values(), pmap(anchor, seen.values())):
        if res[1]:
            d = res[1][0]
            raise Broken('headers do not compile alone: %s:%d: %s' % (d[1], d[2], d[3]))

    oks = [(u, [l for l in u.lines if l[3] == 'ok'], 'ok') for u in units]
    oks = [j for j in oks if j[1]]
    retry = []
    for (u, lines, _), (where, diags, fname, cmd, err) in zip(
            oks, pmap(lambda j: compile_lines(check, *j), oks)):
        if not diags:
            for rule, key, code, _k in lines:
                check.ok(rule)
                check.sample('%s: %s [c++%d]' % (rule, key, u.std))
            continue
        retry.append((u, lines, fname, cmd, diags))
    # Locate the obligations which fail: one compilation each
    budget = 160
    singles = []
    for u, lines, fname, cmd, diags in retry:
        if budget <= 0:
            d = diags[0]
            check.fail('unit', u.name, '%s:%d: %s (c++%d, unit %s)'
                       % (rel(d[1]), d[2], d[3], u.std, u.name),
                       ' '.join(cmd) + '\n' + '\n'.join(d[5][:60]))
            continue
        budget -= len(lines)
        for i, l in enumerate(lines):
            singles.append((u, [l], 'ok%d' % i))
    for u in units:
        for i, l in enumerate(l for l in u.lines if l[3] == 'reject'):
            singles.append((u, [l], 'reject%d' % i))
    failed_units = set()
    for (u, (line,), tag), (where, diags, fname, cmd, err) in zip(
            singles, pmap(lambda j: compile_lines(check, *j), singles)):
        rule, key, code, kind = line
        if kind == 'ok':
            if diags:
                d = diags[0]
                failed_units.add(id(u))
                check.fail(rule, key, '%s: %s:%d: %s (c++%d, %s)'
                           % (rule, rel(d[1]), d[2], d[3], u.std, key),
                           code + '\n' + ' '.join(cmd) + '\n' + '\n'.join(d[5][:60]))
            else:
                check.ok(rule)
        elif diags:
            check.ok(rule)
            check.sample('%s: %s [c++%d]' % (rule, key, u.std))
        else:
            check.fail(rule, key, '%s: accepted but must be refused (c++%d, %s): %s'
                       % (rule, u.std, key, code), code + '\n' + ' '.join(cmd))
    for u, lines, fname, cmd, diags in retry:
        if id(u) in failed_units or any(s[0] is u for s in singles) is False:
            continue
        # Fails only as a whole
        d = diags[0]
        check.fail('unit', u.name, '%s:%d: %s (c++%d, unit %s)'
                   % (rel(d[1]), d[2], d[3], u.std, u.name),
                   ' '.join(cmd) + '\n' + '\n'.join(d[5][:60]))
