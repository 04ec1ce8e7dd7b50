"""Compiles harness + repository sources to one bitcode module, and natively
for replay.  Everything is rebuilt from REPO on each run, in a scratch
directory that the run removes."""
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLANG = shutil.which('clang++-18') or 'clang++'
LINK = shutil.which('llvm-link-18') or shutil.which('llvm-link') or '/usr/lib/llvm-18/bin/llvm-link'
BASE = ['-std=c++17', '-DNDEBUG', '-DCHECK_THROW', '-DFMT_DEPRECATED_OSTREAM', '-w']
ENC = ['-O2', '-DEIGEN_DONT_VECTORIZE', '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-fno-vectorize', '-fno-slp-vectorize',
       '-fno-unroll-loops', '-ffp-contract=off', '-fno-math-errno', '-fno-threadsafe-statics',
       '-fno-strict-aliasing', '-fno-delete-null-pointer-checks', '-Xclang', '-disable-lifetime-markers',
       '-fno-stack-protector', '-fno-pic', '-DSYM_ENCODING',
       # Eigen's vectorised build (switched off here) brings in <mm_malloc.h> and with it ::abs(double)
       '-include', 'stdlib.h', '-include', 'math.h']
SYSINC = ['-isystem', '/usr/include/eigen3']


class BuildError(Exception):
    pass


def sh(cmd, timeout=800, env=None, cwd=None):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env, cwd=cwd)
    if p.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd)[:2000], p.stderr.decode(errors='replace')[-4000:]))
    return p.stdout.decode(errors='replace')


def incs(work, overlay=()):
    r = []
    for o in overlay:
        r += ['-I', os.path.join(VERIF, o)]
    r += ['-I', os.path.join(VERIF, 'harness'), '-I', REPO, '-I', work]
    return r + SYSINC


def resolve(path, work):
    if path.startswith('gen:'):
        return os.path.join(work, path[4:])
    if path.startswith('verif:'):
        return os.path.join(VERIF, path[6:])
    return os.path.join(REPO, path)


def encode(unit, work):
    """-> path of linked bitcode"""
    srcs = [os.path.join(VERIF, 'harness', unit['src'])] + [resolve(p, work) for p in unit.get('repo', [])]
    flags = BASE + ENC + unit.get('flags', []) + unit.get('enc_flags', [])
    inc = incs(work, ('overlay_enc',) + tuple(unit.get('overlay', ())))
    tag = unit['name']
    outs = []

    def one(k, s):
        o = os.path.join(work, '%s_%d.bc' % (tag, k))
        sh([CLANG] + flags + inc + ['-emit-llvm', '-c', s, '-o', o])
        return o
    with ThreadPoolExecutor(8) as ex:
        outs = list(ex.map(lambda t: one(*t), enumerate(srcs)))
    if len(outs) == 1:
        return outs[0]
    final = os.path.join(work, tag + '.bc')
    sh([LINK] + outs + ['-o', final])
    return final


def native(unit, work, san=True):
    """-> path of native binary running the same harness on given inputs"""
    srcs = [os.path.join(VERIF, 'harness', unit['src'])] + [resolve(p, work) for p in unit.get('repo', [])] + \
        [resolve(p, work) for p in unit.get('native_extra', ['common/check.cxx', 'common/print.cxx'])] + \
        [os.path.join(VERIF, 'harness', 'sym_native.cpp')]
    seen = []
    for s in srcs:
        if s not in seen:
            seen.append(s)
    srcs = seen
    flags = BASE + ['-O1', '-g0', '-fopenmp'] + unit.get('flags', []) + unit.get('native_flags', [])
    if san:
        flags += ['-fsanitize=address,signed-integer-overflow,integer-divide-by-zero',
                  '-fno-sanitize-recover=integer-divide-by-zero']
    inc = incs(work, unit.get('overlay', ()))
    tag = unit['name'] + ('_san' if san else '_nat')

    def one(k, s):
        o = os.path.join(work, '%s_%d.o' % (tag, k))
        sh(['g++'] + flags + inc + ['-c', s, '-o', o])
        return o
    with ThreadPoolExecutor(8) as ex:
        outs = list(ex.map(lambda t: one(*t), enumerate(srcs)))
    b = os.path.join(work, tag)
    sh(['g++'] + flags + outs + ['-rdynamic', '-o', b] + unit.get('libs', []) + ['-lfmt', '-lyaml-cpp', '-ldl', '-lpthread', '-lstdc++fs'])
    return b


def gen_ekf(work):
    """regenerate the EKF sources from the repository's generator"""
    env = dict(os.environ)
    env['PYTHONPATH'] = REPO
    env['PYTHONDONTWRITEBYTECODE'] = '1'
    for cfg, dst in (('core/ekf/rtk_ekf.yaml', 'core/ekf'), ('core/ekf/ekf_gen/example_ekf.yaml', 'core/ekf/ekf_gen')):
        d = os.path.join(work, dst)
        os.makedirs(d, exist_ok=True)
        sh(['python3', os.path.join(REPO, 'core/ekf/ekf_gen/ekf_gen.py'), '--config_file', os.path.join(REPO, cfg),
            '--destination', d], env=env)
