"""C33: memory safety of the sclite family (sclite, sc_stats, rover)."""
import os
from vlib import build, san, gen, scl

N_QUICK, N_THOROUGH = 1600, 20000
RULE = ('the workloads of the functional checks, and a stress workload of unusual sizes and option mixes, run on AddressSanitizer+UBSan (gcc) and '
        'MemorySanitizer (clang) builds of the programs, each command also repeated on damaged copies of its input files; non-trivial = a case whose programs ran instrumented')
ASSUMPTIONS = ['only what the sanitizers detect: out-of-bounds, use after free, uninitialised reads that decide something, undefined arithmetic']
HOSTS = ['c01', 'c02', 'c03', 'c04', 'c05', 'c06', 'c07', 'c08', 'c09', 'c11', 'c12', 'c13', 'c17', 'c33s', 'c33s', 'c33s']
TARGETS = ('sclite', 'sc_stats', 'rover')


def prepare():
    build.get('sclite', 'asan')
    build.get('sclite', 'msan')


def case(ctx):
    v = ctx.rng.choice(['asan', 'asan', 'msan'])
    mut = int(os.environ['MUT']) if 'MUT' in os.environ else ctx.rng.choice([0, 1, 2, 4])
    san.run_case(ctx, HOSTS, v, mut, TARGETS)
    ctx.count('variant_' + v)
    ctx.nontrivial('%s %s' % (v, ctx.log[0][:200] if ctx.log else ''))
