"""Compile /repo's current sources to one LLVM module (unoptimised code, SSA form) for the verifier."""
import os
import subprocess
import sys
import tempfile
import shutil
import glob
from concurrent.futures import ThreadPoolExecutor
import ir

REPO = os.environ.get('VC_REPO', '/repo')
FLAGS = ['-std=gnu2x', '-O0', '-g', '-fno-discard-value-names', '-Xclang', '-disable-O0-optnone',
         '-fno-delete-null-pointer-checks', '-ffp-contract=off', '-I' + REPO + '/src', '-w']


class BuildError(Exception):
    pass


def clang():
    for c in ('clang-18', 'clang'):
        if shutil.which(c):
            return c
    raise BuildError('clang not found')


def tool(n):
    for c in (n + '-18', n, '/usr/lib/llvm-18/bin/' + n):
        if shutil.which(c):
            return c
    raise BuildError(n + ' not found')


def sources():
    s = sorted(glob.glob(REPO + '/src/reactor/*.c')) + sorted(glob.glob(REPO + '/src/picohttpparser/*.c'))
    return s


def build_module(sse=False, only=None):
    """-> ir.Module of the whole library"""
    d = tempfile.mkdtemp(prefix='vc-build-')
    try:
        srcs = [s for s in sources() if only is None or os.path.basename(s) in only]
        outs = []

        def one(s):
            o = os.path.join(d, os.path.basename(s) + '.ll')
            r = subprocess.run([clang()] + FLAGS + (['-msse4.2'] if sse else ['-mno-sse4.2']) + ['-S', '-emit-llvm', s, '-o', o], capture_output=True, text=True)
            if r.returncode:
                raise BuildError(r.stderr[:2000])
            r = subprocess.run([tool('opt'), '-S', '-passes=sroa,loop-simplify', o, '-o', o + '2'], capture_output=True, text=True)
            if r.returncode:
                raise BuildError(r.stderr[:2000])
            return o + '2'
        with ThreadPoolExecutor(8) as ex:
            outs = list(ex.map(one, srcs))
        r = subprocess.run([tool('llvm-link'), '-S', '-o', d + '/all.ll'] + outs, capture_output=True, text=True)
        if r.returncode:
            raise BuildError(r.stderr[:2000])
        m = ir.Module(open(d + "/all.ll").read())
        m.sse = sse
        return m
    finally:
        shutil.rmtree(d, ignore_errors=True)
