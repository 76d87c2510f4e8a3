"""Builds a harness against /repo's current tree: LLVM IR for the symbolic machine, a native program for replays."""
import os
import shutil
import subprocess

REPO = os.environ.get('VP_REPO', '/repo')
SRC = os.path.join(REPO, 'src', 'OpenMps')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

# configuration variants: text before, text after the repository's own defines.hpp, compiler flags
VARIANTS = {
    'default': ('', '', []),
    'gc': ('', '', ['-DMPS_GC']),
    'std': ('', '#undef MPS_HS\n#undef MPS_HL\n#undef MPS_ECS\n#undef MPS_DS\n#undef MPS_SPP\n', []),
    'dim3': ('#define DIM3\n', '', []),
    'dim3gc': ('#define DIM3\n', '', ['-DMPS_GC']),
    'dim3std': ('#define DIM3\n', '#undef MPS_HS\n#undef MPS_HL\n#undef MPS_ECS\n#undef MPS_DS\n#undef MPS_SPP\n', []),
    'noec': ('', '#undef MPS_ECS\n', []),
    'explicitp': ('', '#define PRESSURE_EXPLICIT\n', []),
    'explicitstd': ('', '#define PRESSURE_EXPLICIT\n#undef MPS_HS\n#undef MPS_HL\n#undef MPS_ECS\n#undef MPS_DS\n#undef MPS_SPP\n', []),
    'nospp': ('', '#undef MPS_SPP\n', []),
    'nosppgc': ('', '#undef MPS_SPP\n', ['-DMPS_GC']),
    'novcl': ('', '#undef USE_VIENNACL\n#undef VIENNACL_WITH_OPENMP\n', []),
    'nohl': ('', '#undef MPS_HL\n', []),
    'nohs': ('', '#undef MPS_HS\n', []),
    'nods': ('', '#undef MPS_DS\n', []),
}
COMMON = ['-std=c++17', '-fopenmp=libomp', '-ffp-contract=off', '-fno-math-errno', '-w', '-isystem', os.path.join(REPO, 'src', 'viennacl')]


class BuildError(Exception):
    pass


def include_dir(variant, bdir):
    """directory with the repository's headers, with the variant's settings"""
    pre, post, flags = VARIANTS[variant]
    if not pre and not post:
        return SRC
    d = os.path.join(bdir, 'inc_' + variant)
    os.makedirs(d, exist_ok=True)
    for f in os.listdir(SRC):
        if f.endswith(('.hpp', '.cpp')) and f != 'defines.hpp':
            shutil.copy(os.path.join(SRC, f), os.path.join(d, f))
    with open(os.path.join(d, 'defines.hpp'), 'w') as fh:
        fh.write('#pragma once\n%s#include "%s/defines.hpp"\n%s' % (pre, SRC, post))
    return d


def run(cmd):
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode:
        raise BuildError(' '.join(cmd) + '\n' + p.stderr[-3000:])


def ir_cmd(src, inc, flags, out):
    return (['clang++-18', '-O2', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-include', os.path.join(VERIF, 'harness', 'inst.hpp'), '-S', '-emit-llvm'] + COMMON +
            ['-I', inc, '-I', os.path.join(VERIF, 'harness')] + flags + [src, '-o', out])


def native_cmd(src, inc, flags, out, extra):
    return (['clang++-18', '-O1', '-DVP_NATIVE'] + extra + COMMON +
            ['-I', inc, '-I', os.path.join(VERIF, 'harness')] + flags + [src, '-o', out])
