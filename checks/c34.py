"""C34: memory safety of asclite, sc_stats and rfilter1."""
import os
from vlib import build, san

N_QUICK, N_THOROUGH = 2400, 20000
RULE = ('the workloads of the functional checks run on AddressSanitizer+UBSan (gcc) and, but for asclite, MemorySanitizer (clang) builds of the programs, '
        'each command also repeated on damaged copies of its input files; non-trivial = a case whose programs ran instrumented')
ASSUMPTIONS = ['only what the sanitizers detect: out-of-bounds, use after free, uninitialised reads that decide something, undefined arithmetic']
ASC = ['c18', 'c19', 'c20', 'c21', 'c22']
TARGETS = ('asclite', 'sc_stats', 'rfilter1')


def prepare():
    build.get('sclite', 'asan')
    build.get('sclite', 'msan')
    build.get('asclite', 'asan')
    build.get('rfilter1', 'asan')
    build.get('rfilter1', 'msan')


def case(ctx):
    hosts = os.environ['HOSTS'].split(',') if 'HOSTS' in os.environ else ctx.rng.choice([ASC, ASC, ['c15', 'c16'], ['c23'], ['c34s']])
    v = 'asan' if hosts[0] in ASC else ctx.rng.choice(['asan', 'asan', 'msan'])
    mut = int(os.environ['MUT']) if 'MUT' in os.environ else ctx.rng.choice([0, 1, 2, 4])
    san.run_case(ctx, hosts, v, mut, TARGETS, small=hosts[0] in ASC)
    ctx.count('variant_' + v)
    ctx.nontrivial('%s %s' % (v, ctx.log[0][:200] if ctx.log else ''))
