"""C07: every report of a run states the same result: counts, percentages and word lists all follow from the alignments."""
import re
from vlib import build, scl, gen, reports
from vlib.core import Violation, require

N_QUICK, N_THOROUGH = 2500, 30000
RULE = ('random trn/trn and stm/ctm sets with 1-12 speakers, empty references and hypotheses, one- to thousand-sentence speakers; all reports of '
        'one run (sys, raw, pra, prf, dtl, spk, snt) are recomputed from the alignments; non-trivial = at least one error')
ASSUMPTIONS = ['alignments themselves are judged by C01-C06', 'percentages are compared to the printed precision']


def prepare():
    build.get('sclite', 'plain')


def case(ctx):
    rng = ctx.rng
    sclite = build.get('sclite')['sclite']
    V = gen.vocab(rng, None, rng.choice(['en', 'letters', 'tiny', 'long', 'hyph']))
    case_s = rng.random() < .25
    fmt = rng.choice(['trn', 'trn', 'ctm'])
    nspk = rng.choice([1, 2, 3, 5, 12])
    spk = [s.replace('-', '').replace('_', '') + 's' for s in gen.names(rng, nspk)]
    if len(set(spk)) < nspk:
        spk = ['s%d%s' % (k, rng.choice(['', 'abc', 'longspeakername'])) for k in range(nspk)]
    nu = rng.choice([1, 2, 4, 8, 20, 60]) if rng.random() < .98 else 1200
    flags = []
    if rng.random() < .2 and fmt == 'trn':
        flags.append('-F')
    ref, hyp = '', ''
    t = 0
    rate = rng.choice([0, .1, .3, .6, 1.0])
    for k in range(nu):
        s = rng.choice(spk)
        n = rng.choice([0, 1, 3, 5, 9, 14]) if nu < 100 else rng.choice([1, 5, 30])
        r = gen.with_alts(rng, gen.sent(rng, V, n), V, rng.choice([0, 0, .2]), 1)
        h = gen.mutate(rng, gen.expand(rng, r), V, rate)
        cm = lambda w: gen.case_mix(rng, w)
        r, h = scl.map_words(r, cm), [cm(w) for w in h]
        if fmt == 'trn':
            ref += '%s (%s-%04d)\n' % (scl.render(r), s, k)
            hyp += '%s (%s-%04d)\n' % (' '.join(h), s, k)
        else:
            ref += 'f 1 %s %d %d %s\n' % (s, t, t + 100, scl.render(r))
            for j, w in enumerate(h):
                hyp += 'f 1 %.2f %.2f %s\n' % (t + 1 + j, rng.choice([.3, .5, .07]), w)
            t += 100
    if fmt == 'ctm' and not hyp:
        hyp = 'f 1 1.00 0.30 %s\n' % V[0]
    ctx.write('r', ref)
    ctx.write('h', hyp)
    cmd = [sclite, '-h', 'h', fmt, 'name of sys', '-r', 'r', 'trn' if fmt == 'trn' else 'stm', '-f', '0', '-O', '.', '-n', 'out',
           '-o', 'sum', 'rsum', 'pra', 'prf', 'dtl', 'spk', 'snt', 'sgml'] + flags
    if fmt == 'trn':
        cmd += ['-i', 'spu_id']
    if case_s:
        cmd += ['-s']
    if rng.random() < .3:
        cmd += ['-l', rng.choice(['60', '80', '40', '200'])]
    ctx.ok(cmd)
    sysl = scl.parse_sgml(ctx.read('out.sgml'))
    speakers = sysl[0]['speakers']
    st = reports.spk_stats(speakers)
    ctx.count('utterances', sum(len(p) for _, p in speakers))
    ctx.count('errors', sum(d['err'] for _, d in st))
    ctx.seen(fmt, nspk, nu, case_s, rate)
    if any(d['err'] for _, d in st):
        ctx.nontrivial('%s: %d speakers, %d utterances, %s' % (fmt, nspk, nu, {k: v for k, v in reports.total(st).items()}))
    reports.check_sys(ctx.read('out.sys'), st, False, 'percentage summary')
    reports.check_sys(ctx.read('out.raw'), st, True, 'count summary')
    reports.check_pra(ctx.read('out.pra'), speakers, 'alignment report', case_s)
    order = reports.check_pra(ctx.read('out.prf'), speakers, 'full alignment report', case_s)
    seq = [p.id for p in sorted((p for _, ps in speakers for p in ps), key=lambda p: int(p.attrs['sequence']))]
    require(order == seq, 'full alignment report is not in scoring order')
    reports.check_dtl(ctx.read('out.dtl'), speakers, 'detailed report')
    for s, ps in speakers:
        reports.check_dtl(ctx.read('out.spk.' + s), [(s, ps)], 'speaker report of ' + s)
        check_snt(ctx.read('out.snt.' + s), s, ps, case_s)


def check_snt(txt, s, ps, case_s):
    what = 'sentence report of ' + s
    reports.check_pra(txt, [(s, ps)], what, case_s)
    blocks = re.split(r'\nid: ', txt)[1:]
    require(len(blocks) == len(ps), '%s: %d sentences, expected %d', what, len(blocks), len(ps))
    acc = [0, 0, 0, 0]
    for b, p in zip(blocks, ps):
        require(b.split('\n', 1)[0].rstrip() == p.id, '%s: sentence order', what)
        c = p.counts()
        acc = [x + y for x, y in zip(acc, c)]
        nref = c[0] + c[1] + c[2]

        def line(name, v, tot, pct=True):
            m = re.search(r'^%s\s+=\s+(UNDEF%%|-?[\d.]+%%)?\s+(\d+)\s+\(\s*(\d+)\)' % re.escape(name), b, re.M)
            require(m, '%s: %s has no line %s', what, p.id, name)
            require(int(m.group(2)) == v and int(m.group(3)) == tot, '%s: %s %s is %s (%s), alignments give %d (%d)', what, p.id, name, m.group(2), m.group(3), v, tot)
            if pct:
                if nref:
                    require(abs(float(m.group(1).rstrip('%')) - 100. * v / nref) <= .0501, '%s: %s %s %s', what, p.id, name, m.group(1))
        line('Correct', c[0], acc[0])
        line('Substitutions', c[1], acc[1])
        line('Deletions', c[2], acc[2])
        line('Insertions', c[3], acc[3])
        line('Errors', sum(c[1:]), sum(acc[1:]))
        line('Ref. words', nref, acc[0] + acc[1] + acc[2], False)
        line('Hyp. words', c[0] + c[1] + c[3], acc[0] + acc[1] + acc[3], False)
        line('Aligned words', sum(c), sum(acc), False)
