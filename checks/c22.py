"""C22: asclite's summary reports state exactly the counts of the alignments it reports."""
import re
from vlib import build, scl, gen, asc, reports
from vlib.core import Violation, require
from checks import c18, c19

N_QUICK, N_THOROUGH = 24000, 100000
RULE = ('trn, stm/ctm and rttm inputs with 1-12 speakers of any name length, speakers without words, optional words and inter-segment gaps; '
        'sum, rsum and sgml of one run; non-trivial = more than one speaker or a speaker without reference words')
ASSUMPTIONS = ['the NCE column is not judged (see DESIGN.md)']


def prepare():
    build.get('asclite', 'plain')


def case(ctx):
    rng = ctx.rng
    exe = build.get('asclite')['asclite']
    V = gen.vocab(rng, rng.choice([2, 6, 12]))
    opt = rng.choice(['none', 'both', 'ref', 'hyp'])
    if rng.random() < .5:
        spks = rng.sample(['a', 'b', 'al', 'bob', 'x' * 9, 'speaker_number_one', 'z' * 40, 'Zed', 'SumAvg', 'ns', 'k9', 'q1'], rng.choice([1, 2, 3, 12]))
        R, H = [], []
        for s in spks:
            empty = rng.random() < .15
            for k in range(rng.choice([1, 2, 5, 15])):
                r = gen.sent(rng, V, 0 if empty else rng.choice([0, 2, 6, 20]))
                h = gen.mutate(rng, r, V) if rng.random() < .8 else list(r)
                i = '%s-%d' % (s, k)
                R.append('%s (%s)\n' % (' '.join(c18.deco(rng, w, False, True) for w in r), i))
                H.append('%s (%s)\n' % (' '.join(c18.deco(rng, w, False, True) for w in h), i))
        rng.shuffle(R)
        ctx.write('r.trn', ''.join(R))
        ctx.write('h.trn', ''.join(H))
        inp = ['-r', 'r.trn', 'trn', '-h', 'h.trn', 'trn', 'sys', '-i', 'spu_id']
    else:
        rr, hr = rng.choice([(False, False), (False, True), (True, True)])
        files = [(f, rng.choice([['1'], ['1', '2'], ['A', 'B']])) for f in gen.names(rng, rng.choice([1, 1, 2]))]
        segs = c19.gen_ref(rng, V, files, False, rr, True)
        toks = c19.gen_hyp(rng, V, segs, files, hr, True, True)
        if not toks or all(s.ign for s in segs):
            return
        inp = c19.write_ref(ctx, segs, rr, rng) + c19.write_hyp(ctx, toks, hr) + (['-noisg'] if rng.random() < .3 else [])
    r = ctx.run([exe] + inp + ['-f', '0', '-o', 'sum', 'rsum', 'sgml', 'stdout'] + (['-D', opt] if opt != 'none' else []))
    require(r.rc == 0, 'exit status %d\n%s', r.rc, (r.err + r.out)[-800:])
    sysl = scl.parse_sgml(r.out)
    if not sysl or not sysl[0]['speakers']:
        ctx.count('nothing_scored')
        return
    tabs = re.findall(r'SYSTEM SUMMARY PERCENTAGE by SPEAKER.*?\n(\.-.*?\n\'-+\')', r.out, re.S)
    require(len(tabs) == 2, 'expected the sum and rsum reports, found %d', len(tabs))
    stats = sorted(reports.spk_stats(sysl[0]['speakers']), key=lambda x: x[0])
    for t in tabs:
        raw = '| Sum ' in t and 'Sum/Avg' not in t
        reports.check_sys(t, stats, raw, 'rsum' if raw else 'sum', nonempty=True)
    require(sum('Sum/Avg' in t for t in tabs) == 1, 'sum and rsum are not both present')
    ctx.count('reports', 2)
    ctx.count('speakers', len(stats))
    ctx.count('aligned', sum(len(p.items) for _, ps in sysl[0]['speakers'] for p in ps))
    ctx.seen(len(stats), any(not d['ref'] for _, d in stats), opt)
    if len(stats) > 1:
        ctx.nontrivial(tabs[0])
