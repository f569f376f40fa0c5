"""C05: stm/ctm scoring puts every recognised word in exactly one reference segment, by file, channel and midpoint."""
from vlib import build, scl, gen
from vlib.core import Violation, require

N_QUICK, N_THOROUGH = 20000, 80000
RULE = ('stm/ctm sets with several files, channels and speakers, gaps, ignored segments, midpoints exactly on segment ends, recogniser '
        'alternations, -m reductions, absent channels and files large enough to refill the read buffers; non-trivial = two or more segments')
ASSUMPTIONS = ['times are multiples of 1/8 s (exact in binary)', 'hypothesis words sorted by midpoint', 'with -m ref the segments of a channel are contiguous']


def prepare():
    build.get('sclite', 'plain')


def T(x):
    """eighths of a second -> decimal text"""
    return '%.3f' % (x / 8.0)


def case(ctx):
    rng = ctx.rng
    sclite = build.get('sclite')['sclite']
    big = rng.random() < .01
    red_ref, red_hyp = (rng.random() < .2, rng.random() < .2)
    case_s = rng.random() < .3
    V = gen.vocab(rng, 10, rng.choice(['en', 'letters', 'hyph']))
    nfile = rng.choice([1, 1, 2, 3])
    channels = []           # (file, chan, segs, tokens)
    spks = rng.sample(['sx', 'Spkx', 'z-x', 'sy', 's', 'sxx', 'Spky', 'spk' + 'long' * 9, 'spk' + 'long' * 9 + 'r'], 4)
    for fname in gen.names(rng, nfile):
        for c in rng.choice([['1'], ['A'], ['A', 'B'], ['1', '2'], ['a', 'b', 'c'], ['1', '10'], ['ch', 'cha', 'chb']]):
            segs, toks = [], []
            t = rng.randint(0, 16)
            nseg = rng.choice([1, 1, 2, 3, 5, 8]) if not big else rng.choice([90, 210, 420, 800])
            refwords = []
            for k in range(nseg):
                if not red_ref and rng.random() < .4:
                    t += rng.randint(1, 20)
                t2 = t + rng.randint(4, 60)
                words = gen.sent(rng, V, rng.choice([0, 1, 2, 4, 6]) if not big else rng.choice([2, 6, 10]))
                ign = rng.random() < .12
                spec = gen.with_alts(rng, words, V, rng.choice([0, .25]), 1)
                segs.append({'t1': t, 't2': t2, 'spk': rng.choice(spks), 'spec': spec,
                             'ign': ign, 'lab': rng.choice(['', '', '<o,f0>', '<O,F1,male>'])})
                refwords.append((t, t2, words))
                t = t2
            # recogniser output: words roughly following the reference, plus strays in gaps and outside
            m = max(0, segs[0]['t1'] - 8)
            for (t1, t2, words) in refwords:
                h = gen.mutate(rng, words, V)
                m = max(m, t1 - rng.choice([0, 0, 3, 8]))
                for w in h:
                    step = rng.choice([0, 1, 2, 4, 8])
                    m += step
                    dur = 2 * rng.randint(0, 6)
                    toks.append([m - dur // 2 if m - dur // 2 >= 0 else m, dur if m - dur // 2 >= 0 else 0, gen.case_mix(rng, w)])
                if rng.random() < .15:
                    toks.append([t2, 0, rng.choice(V)])        # midpoint exactly on a segment end
                    m = max(m, t2)
            toks.sort(key=lambda x: 2 * x[0] + x[1])
            units = []
            i = 0
            while i < len(toks):
                if not (red_ref or red_hyp) and rng.random() < .06:
                    k = rng.randint(1, min(2, len(toks) - i))
                    alt = [[toks[i + j] for j in range(k)]]
                    base = toks[i]
                    alt.append([[base[0], base[1], rng.choice(V)]] if rng.random() < .7 else [[base[0], base[1], '@']])
                    units.append(('alt', alt))
                    i += k
                else:
                    units.append(('w', toks[i]))
                    i += 1
            # units must be ordered by their largest midpoint
            units.sort(key=umid)
            if rng.random() < .08:
                units = []
            channels.append([fname, c, segs, units])
    extra = rng.random() < .04
    case_fold = (lambda w: w) if case_s else (lambda w: w.lower())
    stm = rng.choice(['', ';; comment\n', ';; CATEGORY "0" "" ""\n;; LABEL "O" "Overall" "Overall"\n'])
    for fname, c, segs, units in channels:
        for s in segs:
            txt = scl.render(s['spec']) if not s['ign'] else rng.choice(['IGNORE_TIME_SEGMENT_IN_SCORING', 'ignore_time_segment_in_scoring'])
            if rng.random() < .05:
                stm += rng.choice([';; remark\n', '\n'])
            stm += '%s %s %s %s %s %s%s\n' % (fname, c, s['spk'], T(s['t1']), T(s['t2']), (s['lab'] + ' ') if s['lab'] else '', txt)
    conf = rng.random() < .5
    ctm = ''
    k = 0
    for ch in channels:
        for u in ch[3]:
            if u[0] == 'w':
                w = u[1]
                w.append('0.%02d' % (k % 100))
                k += 1
                ctm += '%s %s %s %s %s%s\n' % (ch[0], ch[1], T(w[0]), T(w[1]), w[2], ' ' + w[3] if conf else '')
            else:
                ctm += '%s %s * * <ALT_BEGIN>\n' % (ch[0], ch[1])
                for j, a in enumerate(u[1]):
                    if j:
                        ctm += '%s %s * * <ALT>\n' % (ch[0], ch[1])
                    for w in a:
                        w.append('0.%02d' % (k % 100))
                        k += 1
                        ctm += '%s %s %s %s %s%s\n' % (ch[0], ch[1], T(w[0]), T(w[1]), w[2], ' ' + w[3] if conf else '')
                ctm += '%s %s * * <ALT_END>\n' % (ch[0], ch[1])
    if extra:
        ctm += 'zzz 1 1.0 0.5 word\n'
    if ctm == '':
        return
    if rng.random() < .1:
        ctm = ';; header\n' + ctm
    ctx.write('r.stm', stm)
    ctx.write('h.ctm', ctm)
    cmd = [sclite, '-r', 'r.stm', 'stm', '-h', 'h.ctm', 'ctm', '-o', 'sgml', 'stdout'] + (['-s'] if case_s else [])
    if red_ref and red_hyp:
        cmd += ['-m', 'ref', 'hyp'] if rng.random() < .5 else ['-m', 'hyp', 'ref']
    elif red_ref:
        cmd += ['-m', 'ref']
    elif red_hyp:
        cmd += ['-m', 'hyp']
    r = ctx.run(cmd)
    if extra:
        ctx.count('refused')
        require(r.rc > 0, 'hypothesis words of a file absent from the reference: exit status %d', r.rc)
        return
    require(r.rc == 0, 'exit status %d\n%s', r.rc, r.err[-1500:])
    paths = []
    for s, ps in scl.parse_sgml(r.out)[0]['speakers']:
        for p in ps:
            require(p.attrs.get('id', '').startswith('(%s-' % s), 'path %s under speaker %s', p.id, s)
            paths.append(p)
    paths.sort(key=lambda p: int(p.attrs['sequence']))
    # ---- the model
    exp = []
    percnt = {}
    if sum(len(c[2]) for c in channels) >= 2:
        ctx.nontrivial('%d channels, %d segments, reductions %s%s' % (len(channels), sum(len(c[2]) for c in channels), red_ref, red_hyp))
    for fname, c, segs, units in channels:
        live = [True] * len(segs)
        if red_ref and units:
            first, last = units[0][1], units[-1][1]
            for k, s in enumerate(segs):
                if first[0] >= s['t2'] or last[0] + last[1] <= s['t1']:
                    live[k] = False
        keep = units
        if red_hyp:
            ks = [s for k, s in enumerate(segs) if live[k]]
            if ks:
                bt, et = min(s['t1'] for s in ks), max(s['t2'] for s in ks)
                keep = [u for u in units if not (u[1][0] > et or u[1][0] + u[1][1] < bt)]
            else:
                keep = []
        cur = 0
        for k, s in enumerate(segs):
            if not live[k]:
                continue
            st = cur
            if k == len(segs) - 1:
                cur = len(keep)
            else:
                while cur < len(keep) and umid(keep[cur]) < 2 * s['t2']:
                    cur += 1
            if s['ign']:
                ctx.count('ignored_segments')
                continue
            exp.append((fname, c, s, keep[st:cur]))
    require(len(paths) == len(exp), '%d segments scored, expected %d', len(paths), len(exp))
    R = scl.Rules(case_s)
    for p, (fname, c, s, us) in zip(paths, exp):
        spk = case_fold(s['spk'])
        n = percnt.get(spk, 0)
        percnt[spk] = n + 1
        require(p.id == '(%s-%03d)' % (spk, n), 'segment id %s, expected (%s-%03d)', p.id, spk, n)
        a = p.attrs
        require(a['file'] == case_fold(fname) and a['channel'] == case_fold(c), '%s: file/channel %s %s, expected %s %s', p.id, a['file'], a['channel'], fname, c)
        require(a['R_T1'] == T(s['t1']) and a['R_T2'] == T(s['t2']), '%s: reference times %s %s', p.id, a['R_T1'], a['R_T2'])
        require(a.get('labels', '').lower() == s['lab'].lower(), '%s: labels %s, expected %s', p.id, a.get('labels'), s['lab'])
        spec = [R.norm(u[1][2]) if u[0] == 'w' else [[R.norm(w[2]) for w in al] for al in u[1]] for u in us]
        rn, hn = scl.Net(scl.map_words(s['spec'], R.norm)), scl.Net(spec)
        got = scl.explain_cost(rn, hn, p.items, R)
        ctx.count('segments')
        ctx.count('words', len(p.items))
        ctx.seen(len(us), tuple(i[0] for i in p.items)[:8])
        require(got is not None, '%s [%s,%s]: alignment %s is not of reference "%s" with words %s', p.id, T(s['t1']), T(s['t2']),
                p.items, scl.render(s['spec']), us)
        if len(p.items) < 60:
            best = scl.best_cost(rn, hn, R)
            require(got <= best + .001, '%s: cost %.3f, best %.3f', p.id, got, best)
        # every hypothesis word carries its own times and confidence
        if all(u[0] == 'w' for u in us):
            hw = [it for it in p.items if it[0] != 'D' and it[2] != '']
            for it, u in zip(hw, us):
                w = u[1]
                require(it[3] == '%s+%s' % (T(w[0]), T(w[0] + w[1])), '%s: word %s reported at %s, input %s', p.id, it[2], it[3], w)
                if conf:
                    require(len(it) > 4 and abs(float(it[4]) - float(w[3])) < 1e-6, '%s: word %s confidence %s, input %s', p.id, it[2], it[4:], w)


def umid(u):
    """twice the midpoint, in eighths"""
    if u[0] == 'w':
        return 2 * u[1][0] + u[1][1]
    return max(2 * w[0] + w[1] for a in u[1] for w in a)
