"""Shared plumbing of the checks: reporting, evidence, parallel clang runs."""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
INC = os.path.join(REPO, 'include')
CLANG = '/usr/bin/clang++-18'
ARCH = os.path.join(VERIF, 'drivers')
JOBS = int(os.environ.get('VP_JOBS', '8'))


class Broken(Exception):
    """The analysis itself could not be carried out (exit 2)."""


def sh(cmd, timeout=800, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                          text=True, errors='replace', timeout=timeout, **kw)


def pmap(fn, items, jobs=JOBS):
    items = list(items)
    if not items:
        return []
    with cf.ThreadPoolExecutor(jobs) as ex:
        return list(ex.map(fn, items))


def rel(path):
    path = os.path.normpath(path)
    for base in (REPO + '/', VERIF + '/'):
        if path.startswith(base):
            return path[len(base):]
    return path


class Check:
    """One run of one property's check."""

    def __init__(self, pid, tier):
        self.pid = pid
        self.tier = tier
        self.t0 = time.time()
        self.obligations = {}       # rule -> [total, discharged]
        self.violations = []        # (key, text, files)
        self.samples = []
        self.notes = {}
        self.assumptions = []
        self.level = 'other'
        self.explanation = ''
        self.trusted = ['clang 18 front end', 'generated driver units in /verif']
        self.work = os.path.join(VERIF, 'build', 'work', pid)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work, exist_ok=True)
        self.replay_dir = os.path.join(VERIF, 'build', 'replay', pid)
        shutil.rmtree(self.replay_dir, ignore_errors=True)

    # -------------------------------------------------------------- results
    def ok(self, rule, n=1):
        o = self.obligations.setdefault(rule, [0, 0])
        o[0] += n
        o[1] += n

    def fail(self, rule, key, text, replay=''):
        o = self.obligations.setdefault(rule, [0, 0])
        o[0] += 1
        self.violations.append((rule + ':' + key, text, replay))

    def verdict(self, cond, rule, key, text, replay=''):
        if cond:
            self.ok(rule)
        else:
            self.fail(rule, key, text, replay)

    def sample(self, s, limit=12):
        if len(self.samples) < limit:
            self.samples.append(s)

    def require(self, rule, minimum):
        """A rule which matches fewer instances than confirmed by hand is a
        broken analysis, not a pass."""
        n = self.obligations.get(rule, [0, 0])[0]
        if n < minimum:
            raise Broken('rule %s matched %d instances, expected at least %d'
                         % (rule, n, minimum))

    # ------------------------------------------------------------- finish
    def finish(self):
        known = []
        path = os.path.join(VERIF, 'known_findings.txt')
        if os.path.exists(path):
            for line in open(path):
                m = re.match(r'known: property=(\S+) key=(\S+) (.*)', line)
                if m and m.group(1) == self.pid:
                    known.append((m.group(2), m.group(3)))
        new = []
        seen_known = set()
        for key, text, replay in self.violations:
            hit = [k for k in known if k[0] == key.replace(' ', '_')]
            if hit:
                seen_known.add(hit[0])
            else:
                new.append((key, text, replay))
        for k, what in sorted(seen_known):
            print('KNOWN-FINDING: property=%s %s' % (self.pid, what))
        tot = sum(o[0] for o in self.obligations.values())
        dis = sum(o[1] for o in self.obligations.values())
        cov = {
            'explanation': self.explanation,
            'obligations': tot,
            'discharged': dis,
            'rules': {k: {'instances': v[0], 'discharged': v[1]}
                      for k, v in sorted(self.obligations.items())},
            'checker_cmd': 'python3 check.py %s --tier %s' % (self.pid, self.tier),
            'trusted_base': self.trusted,
            'samples': self.samples,
        }
        cov.update(self.notes)
        ev = {
            'property': self.pid,
            'tier': self.tier,
            'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
            'level': self.level,
            'coverage': cov,
            'assumptions': self.assumptions,
            'wall_s': round(time.time() - self.t0, 2),
            'violations': len(new),
        }
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, sort_keys=True)
            f.write('\n')
        print('%s: %d obligations, %d discharged, %d violation(s), %.1f s'
              % (self.pid, tot, dis, len(new), ev['wall_s']))
        if not new:
            shutil.rmtree(self.work, ignore_errors=True)
            return 0
        os.makedirs(self.replay_dir, exist_ok=True)
        shown = 0
        for key, text, replay in new:
            h = hashlib.sha1(key.encode()).hexdigest()[:10]
            p = os.path.join(self.replay_dir, h + '.txt')
            with open(p, 'w') as f:
                f.write(key + '\n\n' + text + '\n\n' + (replay or '') + '\n')
            if shown < int(os.environ.get('VP_SHOW', '20')):
                print('  [%s] %s' % (key, text.splitlines()[0][:400]))
                print('VIOLATION property=%s replay=%s' % (self.pid, p))
            shown += 1
        return 1


# ------------------------------------------------------------------ clang
def clang_args(std, extra=()):
    return [CLANG, '-std=c++%d' % std, '-w', '-I', INC, '-I', ARCH,
            '-ferror-limit=0', '-ftemplate-backtrace-limit=0',
            '-fno-caret-diagnostics', '-fno-color-diagnostics',
            '-ftemplate-depth=2000', '-fsized-deallocation', '-fconstexpr-steps=50000000'] + list(extra)


ERR = re.compile(r'^(.*?):(\d+):(\d+): (fatal error|error|note|warning): (.*)$')


def parse_diags(text, driver):
    """Group diagnostics: [(kind, file, line, message, [driver lines], block)]"""
    groups = []
    cur = None
    for line in text.splitlines():
        m = ERR.match(line)
        if not m:
            if cur is not None:
                cur[5].append(line)
            continue
        f, ln, _, kind, msg = m.groups()
        if kind in ('error', 'fatal error', 'warning'):
            cur = [kind, f, int(ln), msg, [], [line]]
            groups.append(cur)
        elif cur is not None:
            cur[5].append(line)
        if cur is not None and os.path.abspath(f) == os.path.abspath(driver):
            cur[4].append(int(ln))
    return groups
