"""Builds the LLVM tools under build/tools on first use."""
import os
import threading
from common import *

LLVM = '/usr/lib/llvm-18'
_lock = threading.Lock()


def tool(name):
    with _lock:
        return _tool(name)


def _tool(name):
    src = os.path.join(VERIF, 'tools', name + '.cpp')
    out = os.path.join(VERIF, 'build', 'tools', name)
    deps = [src] + [os.path.join(VERIF, 'tools', h) for h in os.listdir(os.path.join(VERIF, 'tools')) if h.endswith('.h')]
    if os.path.exists(out) and os.path.getmtime(out) >= max(map(os.path.getmtime, deps)):
        return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    tmp = '%s.%d' % (out, os.getpid())
    r = sh([CLANG, '-std=c++17', '-O1', '-w', '-fno-rtti', '-fno-exceptions',
            '-I', LLVM + '/include', '-D_GNU_SOURCE', '-D__STDC_CONSTANT_MACROS',
            '-D__STDC_FORMAT_MACROS', '-D__STDC_LIMIT_MACROS', src, '-o', tmp,
            '-L', LLVM + '/lib', '-lLLVM-18', '-Wl,-rpath,' + LLVM + '/lib'])
    if r.returncode:
        raise Broken('cannot build %s: %s' % (name, r.stderr[-800:]))
    os.replace(tmp, out)
    return out
