"""C19: asclite segment scoring: overlapping speakers are aligned jointly at minimal cost, and every word is scored once in its own time."""
from vlib import build, scl, gen, asc
from vlib.asc import Seg, Tok, ms
from vlib.core import Violation, require

N_QUICK, N_THOROUGH = 36000, 144000
RULE = ('stm or rttm references with 1-4 speakers overlapping in 1-2 recordings and channels, ctm or multi-speaker rttm hypotheses, words in '
        'gaps, before and after the reference, ignored segments, with and without inter-segment gaps; non-trivial = a group of several speakers')
ASSUMPTIONS = ['segments of one speaker do not overlap and are sorted', 'times have at most three decimals', 'hypothesis words have a duration, distinct times, and per speaker begin times and midpoints in the same order',
               'no segment can be read as wholly empty while holding alternations']


def prepare():
    build.get('asclite', 'plain')


def gen_ref(rng, V, files, alts, rttm, wo=False, wf=False, nosegs=None):
    segs = []
    from checks.c18 import deco, null_only
    for fname, chans in files:
        for c in chans:
            nspk = rng.choice([1, 1, 2, 2, 3, 4])
            names = ['s%s%s' % (c, x) for x in 'abcd'[:nspk]]
            cl = {k: rng.randint(0, 3000) for k in names}
            t = 0
            for _ in range(rng.randint(1, 6)):
                k = rng.choice(names)
                t1 = max(cl[k], t - rng.choice([0, 0, 500, 2000])) + rng.choice([0, 0, 300, 1500])
                t2 = t1 + rng.randint(2, 40) * rng.choice([50, 51, 50])
                cl[k] = t2
                t = max(t, t2)
                words = gen.sent(rng, V, rng.choice([0, 1, 1, 2, 3, 5]))
                ign = (not rttm) and rng.random() < .05
                spec = gen.with_alts(rng, words, V, .2, 2) if alts and rng.random() < .4 else list(words)
                spec = scl.map_words(spec, lambda w: w if w == '@' else deco(rng, gen.case_mix(rng, w), wf, wo))
                if spec and null_only(spec):
                    spec = [rng.choice(V)]
                wt = None
                if rttm:
                    cuts = sorted(rng.sample(range(t1, t2 + 1), min(len(spec) + 1, t2 - t1)))
                    spec = spec[:max(0, len(cuts) - 1)]
                    wt = list(zip(cuts, cuts[1:]))
                segs.append(Seg(fname, c, k, t1, t2, spec, ign, rng.choice(['', '', '<o,f0>', '<O,F1>']) if not rttm else '', wt))
    return segs


def gen_hyp(rng, V, segs, files, rttm, outside, wo=False, wf=False, missing=True):
    from checks.c18 import deco
    toks = []
    for fname, chans in files:
        for c in chans:
            S = [s for s in segs if (s.file, s.chan) == (fname, c)]
            end = max(s.t2 for s in S)
            seen = set()
            part = []
            for s in S:
                if missing and rng.random() < .15:
                    continue
                words = gen.mutate(rng, gen.expand(rng, scl.map_words(s.spec, lambda w: w.strip('()-') or 'x')), V)
                if not words:
                    continue
                for w in words:
                    m = rng.randint(s.t1, s.t2 - 1)
                    part.append([m, w])
            for _ in range(rng.choice([0, 0, 1, 2])):
                if outside:
                    part.append([rng.randint(0, end + 2000), rng.choice(V)])
            for m, w in sorted(part, key=lambda x: x[0]):
                d = rng.choice([1, 5, 20, 100])
                a, b = max(0, m - d), m + d + rng.choice([0, 1])
                while (a, b) in seen:
                    b += 2
                seen.add((a, b))
                spk = rng.choice(['h1', 'h2', 'h3'][:rng.choice([1, 2, 2, 3])]) if rttm else 'ctm'
                toks.append(Tok(fname, c, spk, a, b, deco(rng, gen.case_mix(rng, w), wf, wo), None if rng.random() < .2 else rng.randint(0, 100) / 100.0))
    toks.sort(key=lambda t: (t.file, t.chan, t.t1, t.t2))
    out, last = [], {}
    for t in toks:                      # words of one speaker: begin times and midpoints both in order
        k = (t.file, t.chan, t.spk)
        if t.mid() >= last.get(k, 0):
            last[k] = t.mid()
            out.append(t)
    return out


def write_ref(ctx, segs, rttm, rng):
    order = sorted(segs, key=lambda s: (s.file, s.t1, s.t2)) if rng.random() < .3 else sorted(segs, key=lambda s: (s.file, s.chan, s.t1, s.t2))
    if not rttm:
        st = (lambda t: ms(t).rstrip('0').rstrip('.')) if rng.random() < .3 else ms
        ctx.write('r.stm', ';; a comment\n' * rng.randint(0, 1) + ''.join('%s %s %s %s %s %s%s\n' % (
            s.file, s.chan, s.spk, st(s.t1), st(s.t2), s.lab + ' ' if s.lab else '', 'ignore_time_segment_in_scoring' if s.ign else scl.render(s.spec)) for s in order))
        return ['-r', 'r.stm', 'stm']
    out = []
    for s in order:
        out.append('SPEAKER %s %s %s %s <NA> <NA> %s <NA>\n' % (s.file, s.chan, ms(s.t1), ms(s.t2 - s.t1), s.spk))
        for w, (a, b) in zip(s.spec, s.wtimes):
            out.append('LEXEME %s %s %s %s %s lex %s <NA>\n' % (s.file, s.chan, ms(a), ms(b - a), w, s.spk))
    ctx.write('r.rttm', ''.join(out))
    return ['-r', 'r.rttm', 'rttm']


def write_hyp(ctx, toks, rttm):
    if not rttm:
        ctx.write('h.ctm', ''.join('%s %s %s %s %s%s\n' % (t.file, t.chan, ms(t.t1), ms(t.t2 - t.t1), t.w, '' if t.conf is None else ' %.2f' % t.conf) for t in toks))
        return ['-h', 'h.ctm', 'ctm', 'sys']
    ctx.write('h.rttm', ''.join('LEXEME %s %s %s %s %s lex %s %s\n' % (t.file, t.chan, ms(t.t1), ms(t.t2 - t.t1), t.w, t.spk, '<NA>' if t.conf is None else '%.2f' % t.conf) for t in toks))
    return ['-h', 'h.rttm', 'rttm', 'sys']


def parse_paths(r, segs, all_segs):
    """-> {id(seg): path}; checks identification of the paths."""
    sysl = scl.parse_sgml(r.out)
    require(len(sysl) == 1, 'expected one SYSTEM, got %d', len(sysl))
    key = {}
    for s in all_segs:
        key[(s.spk, s.file, s.chan, ms(s.t1), ms(s.t2))] = s
    by = {}
    n = 0
    for spk, ps in sysl[0]['speakers']:
        for p in ps:
            n += 1
            at = p.attrs
            k = (spk, at.get('file'), at.get('channel'), at.get('R_T1'), at.get('R_T2'))
            s = key.get(k)
            require(s is not None, 'a path is reported for a segment that should not be scored: %s', k)
            require(id(s) not in by, 'segment %s reported twice', k)
            require(at.get('labels', '') == s.lab, 'segment %s has labels %s, given as %s', k, at.get('labels'), s.lab)
            cols = at.get('word_aux', '').split(',') if at.get('word_aux') else []
            p.hcol = 3 + cols.index('h_t1+t2') if 'h_t1+t2' in cols else None
            p.ccol = 3 + cols.index('h_conf') if 'h_conf' in cols else None
            by[id(s)] = p
    return by


def judge(ctx, r, segs, toks, R, fold, regions, isg, limit_spk=4):
    real = [s for s in segs]
    extra = asc.gaps(real, regions) if isg else []
    if isg == 'hyp':
        n = {}
        for t in toks:
            n[(t.file, t.chan)] = n.get((t.file, t.chan), 0) + 1
        lost = [g for g in extra if n.get((g.file, g.chan), 0) % 2 == 0
                and any((t.file, t.chan) == (g.file, g.chan) and g.t1 <= t.mid() < g.t2 for t in toks)]
        if lost:
            have = {(p.attrs.get('file'), p.attrs.get('channel')) for _, ps in [x for x in scl.parse_sgml(r.out)[0]['speakers'] if x[0] == asc.ISG] for p in ps}
            if not any((g.file, g.chan) in have for g in lost):
                ctx.known_or_fail('isg-even-words', 'with an even number of hypothesis words (%s %s) no inter-segment gap is scored, the words in the gaps vanish'
                                  % (lost[0].file, lost[0].chan))
                keys = {(g.file, g.chan) for g in lost}
                extra = [g for g in extra if (g.file, g.chan) not in keys]
    allg = asc.grouping(real + extra)
    allowed = []
    for g in allg:
        if not any(s.ign for s in g) and len({s.spk for s in g}) <= limit_spk:
            allowed += g
    by = parse_paths(r, real, allowed)
    for g in allg:
        if any(s.ign for s in g) or len({s.spk for s in g}) > limit_spk:
            continue
        a, b = min(s.t1 for s in g), max(s.t2 for s in g)
        tk = [t for t in toks if (t.file, t.chan) == (g[0].file, g[0].chan) and a <= t.mid() < b]
        ctx.count('gap_words', len(tk) if g[0].spk == asc.ISG else 0)
        asc.judge_group(ctx, g, tk, None, R, fold, by)
    for s in allowed:
        if s.spec and id(s) not in by:
            require(False, 'segment %s %s %s not reported', s.file, s.spk, ms(s.t1))


def case(ctx):
    rng = ctx.rng
    exe = build.get('asclite')['asclite']
    V = gen.vocab(rng, rng.choice([2, 3, 6]), 'en')
    rr, hr = rng.choice([(False, False), (False, False), (False, True), (True, True)])
    case_s, frag = rng.random() < .3, rng.random() < .2
    opt = rng.choice(['none', 'none', 'ref', 'hyp', 'both'])
    wo, wf = rng.random() < .3, rng.random() < .3
    R = asc.Rules(case_s, frag, opt)
    files = [(f, rng.choice([['1'], ['1'], ['1', '2'], ['A', 'B']])) for f in gen.names(rng, rng.choice([1, 1, 2]))]
    segs = gen_ref(rng, V, files, not rr, rr, wo, wf)
    noisg = rng.random() < .5
    toks = gen_hyp(rng, V, segs, files, hr, True, wo, wf)
    if not toks or all(s.ign for s in segs):
        ctx.count('no_words')
        return
    cmd = [exe] + write_ref(ctx, segs, rr, rng) + write_hyp(ctx, toks, hr) + ['-f', '0', '-o', 'sgml', 'stdout']
    cmd += ['-noisg'] if noisg else []
    cmd += ['-s'] if case_s else []
    cmd += ['-F'] if frag else []
    cmd += ['-D', opt] if opt != 'none' else []
    r = ctx.run(cmd)
    require(r.rc == 0, 'exit status %d\n%s', r.rc, (r.err + r.out)[-800:])
    fold = (lambda s: s) if case_s else (lambda s: s.lower())
    regions = {}
    for s in segs + toks:
        k = (s.file, s.chan)
        a, b = regions.get(k, [(s.t1, s.t2)])[0]
        regions[k] = [(min(a, s.t1), max(b, s.t2))]
    judge(ctx, r, segs, toks, R, fold, regions, False if noisg else 'hyp')
    ctx.seen('opts', rr, hr, case_s, frag, opt, noisg, len(segs))
