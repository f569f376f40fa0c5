"""C31: the RTTM tools (rttmSort, rttmSmooth, rttm2ctm, stm2rttm, spkr2sad, mergectm2rttm) keep every record and convert exactly."""
import os, re, collections
from fractions import Fraction as F
from vlib import build
from vlib.core import Violation, require

N_QUICK, N_THOROUGH = 12000, 120000
RULE = ('random RTTM and STM files over 1-3 recordings, 1-2 channels and several speakers (overlapping, touching and nested segments, every record type, comments, blank separators) through one of the tools; '
        'non-trivial = records were reordered, merged, dropped by type, or converted')
ASSUMPTIONS = ['times have two decimals throughout a file; gaps within 1e-6 of the smoothing time are not judged', 'no two SPKR-INFO records of one speaker in one recording']
ORDER = ['NOSCORE', 'NORTMETADATA', 'SEGMENT', 'SPEAKER', 'SU', 'A/P', 'CB', 'IP', 'EDIT', 'FILLER', 'NON-SPEECH', 'NON-LEX', 'LEXEME']


def prepare():
    build.get('perl')


def t2(rng, hi=60):
    return '%.2f' % (rng.randint(0, hi * 4) / 4.0 if rng.random() < .6 else rng.randint(0, hi * 100) / 100.0)


def rttm(rng, types, n, numch=True):
    """SPKR-INFO records first, then others"""
    files = rng.sample(['f1', 'f10', 'f2', 'sw-x_1', 'LEXEME'], rng.randint(1, 3))
    spk = rng.sample(['a', 'spk1', 'spk10', 'Spk2', 'LONG-name_3', 'b'], rng.randint(1, 4))
    info, rec = [], []
    for f in files:
        for s in spk:
            if rng.random() < .8:
                info.append(['SPKR-INFO', f, rng.choice('12'), '<NA>', '<NA>', '<NA>', rng.choice(['adult_male', 'adult_female', 'unknown']), s, '<NA>'])
    for _ in range(n):
        ty = rng.choice(types)
        f, c, s, b = rng.choice(files), rng.choice('112'), rng.choice(spk), t2(rng)
        d = '%.2f' % (rng.randint(1, 400) / 100.0)
        w, st, cf = '<NA>', '<NA>', '<NA>'
        if ty == 'LEXEME':
            w = rng.choice(["he's", 'cat', '%uh', '[x]', '(a)', 'th-', 'b.', '{a', 'na\xefve', '42'])
            st = rng.choice(['lex', 'lex', 'lex', 'fp', 'frag', 'un-lex', 'for-lex', 'alpha', 'acronym', 'interjection', 'propernoun', 'other'])
            cf = rng.choice(['0.9', '1', '.5', '<NA>', '0.123456'])
        elif ty == 'NON-LEX':
            st = rng.choice(['laugh', 'breath', 'other'])
        elif ty in ('NOSCORE', 'NORTMETADATA'):
            s = '<NA>'
        elif ty == 'SU':
            st = rng.choice(['statement', 'question'])
        elif ty == 'IP':
            d, st = '<NA>', rng.choice(['edit', 'filler', 'edit&filler'])
        elif ty == 'SEGMENT':
            st = rng.choice(['eval', '<NA>'])
        rec.append([ty, f, c, b, d, w, st, s, cf])
    return info, rec


def show(rng, recs, comments):
    L = []
    for r in recs:
        if comments and rng.random() < .05:
            L.append(rng.choice([';; comment', ';; SPEAKER f1 1 0 1 <NA> <NA> a <NA>']))
        L.append(rng.choice([' ', ' ', '  ', '\t']).join(r))
    return ('\n'.join(L) + '\n').encode('latin-1')


def c_sort(ctx, p):
    rng = ctx.rng
    info, rec = rttm(rng, ORDER if rng.random() < .7 else rng.sample(ORDER, 2), rng.choice([1, 5, 20, 60]))
    if rng.random() < .4:
        few = [t2(rng) for _ in range(3)]
        for r in rec:
            r[3] = rng.choice(few)
    recs = info + rec
    rng.shuffle(recs)
    out = ctx.ok(['perl', p + '/rttmSort.pl'], stdin=show(rng, recs, True)).out
    got = [l.split(' ') for l in out.splitlines()]
    a, b = collections.Counter(map(tuple, got)), collections.Counter(map(tuple, recs))
    require(a == b, 'sorted output lacks %s and adds %s' % (list((b - a).items())[:2], list((a - b).items())[:2]))
    key = lambda r: (0, r[1], '', 0, 0) if r[0] == 'SPKR-INFO' else (1, r[1], r[2], F(r[3]), ORDER.index(r[0]))
    for x, y in zip(got, got[1:]):
        require(key(x) <= key(y), 'record %s precedes %s' % (x, y))
    grp = lambda R: sorted(((k, [r for r in R if r[0] != 'SPKR-INFO' and key(r) == k]) for k in {key(r) for r in R if r[0] != 'SPKR-INFO'}), key=lambda x: x[0])
    for (k, x), (_, y) in zip(grp(got), grp(recs)):
        require(x == y, 'records of one time and type changed their order: %s instead of %s' % (x[:4], y[:4]))
    two = ctx.ok(['perl', p + '/rttmSort.pl'], stdin=out.encode('latin-1')).out
    require(two == out, 'sorting sorted records changes them')
    if [r for r in recs] != got:
        ctx.nontrivial('rttmSort of %d records' % len(recs))
    ctx.count('records', len(recs))
    ctx.seen('sort', len(recs))


def c_ctm(ctx, p):
    rng = ctx.rng
    info, rec = rttm(rng, ORDER + ['LEXEME'] * 10, rng.choice([1, 5, 20, 60]))
    recs = info + rec
    data = show(rng, recs, True)
    if rng.random() < .5:
        ctx.write('in', data)
        out = ctx.ok(['perl', p + '/rttm2ctm.pl', '-i', 'in', '-o', 'out'])
        out = ctx.read('out')
    else:
        out = ctx.ok(['perl', p + '/rttm2ctm.pl'], stdin=data).out
    want = [[r[1], r[2], r[3], r[4], r[5], r[8]] for r in recs if r[0] == 'LEXEME' and r[6] == 'lex']
    got = [l.split(' ') for l in out.splitlines()]
    for g, w in zip(got, want):
        require(g == w, 'ctm record %s instead of %s' % (g, w))
    require(len(got) == len(want), '%d ctm records for %d lexemes' % (len(got), len(want)))
    if 0 < len(want) < len(recs):
        ctx.nontrivial('rttm2ctm: %d of %d records are words' % (len(want), len(recs)))
    ctx.count('records', len(recs))
    ctx.seen('ctm', len(recs), len(want))


def union(segs, gap, ctx):
    """merge segments whose gap is at most the smoothing time; None if a gap is too close to it to tell"""
    out = []
    for b, e in sorted(segs):
        if out:
            g = b - out[-1][1] - gap
            if abs(g) < F(1, 10 ** 6):
                return None
            if g < 0:
                out[-1][1] = max(out[-1][1], e)
                continue
        out.append([b, e])
    return out


def c_smooth(ctx, p):
    rng = ctx.rng
    info, rec = rttm(rng, ['SPEAKER'] * 6 + ['LEXEME', 'NON-LEX', 'SU'], rng.choice([1, 5, 20, 60]))
    s = rng.choice([None, None, '0', '0.3', '0.501', '1.003', '2'])
    recs = info + rec
    rng.shuffle(recs)
    cmd = ['perl', p + '/rttmSmooth.pl'] + (['-s', s] if s else [])
    out = ctx.ok(cmd, stdin=show(rng, recs, True)).out
    got = [l.split(' ') for l in out.splitlines() if not l.startswith(';')]
    a = collections.Counter(tuple(r) for r in got if r[0] != 'SPEAKER')
    b = collections.Counter(tuple(r) for r in recs if r[0] != 'SPEAKER')
    require(a == b, 'records other than SPEAKER: lacks %s and adds %s' % (list((b - a).items())[:2], list((a - b).items())[:2]))
    G = collections.defaultdict(list)
    W = collections.defaultdict(list)
    for R, D in ((recs, W), (got, G)):
        for r in R:
            if r[0] == 'SPEAKER':
                D[(r[1], r[2], r[7])].append([F(r[3]), F(r[3]) + F(r[4])])
    gap = F(s or '0.3')
    merged = 0
    for k in set(W) | set(G):
        u = union(W[k], gap, ctx)
        if u is None:
            ctx.count('boundary_gaps')
            continue
        merged += len(W[k]) - len(u)
        require(sorted(G[k]) == sorted(u), 'speaker %s: %s instead of %s' % (k, [(float(x), float(y)) for x, y in sorted(G[k])], [(float(x), float(y)) for x, y in sorted(u)]))
    if merged:
        ctx.nontrivial('rttmSmooth -s %s: %d of %d segments merged' % (s, merged, sum(map(len, W.values()))))
    ctx.count('records', len(recs))
    ctx.count('merged', merged)
    ctx.seen('smooth', s, len(recs), merged)


def c_stm(ctx, p):
    rng = ctx.rng
    ev = rng.choice(['rt02', 'rt04s', 'rt05s'])
    gap = {'rt02': F(1, 2), 'rt04s': F(0), 'rt05s': F(3, 10)}[ev]
    sexes = {}
    L, W = [], collections.defaultdict(list)
    for f in rng.sample(['f1', 'f2', 'x-3'], rng.randint(1, 2)):
        for c in rng.sample(['1', '2', 'A'], rng.randint(1, 2)):
            for s in rng.sample(['spk1', 'spk2', 'Bob', 'excluded_region', 'Excluded_Region'], rng.randint(1, 4)):
                sex = sexes.setdefault(s, rng.choice(['male', 'female', 'unk']))
                t = rng.randint(0, 300)
                for _ in range(rng.choice([1, 2, 4, 10])):
                    d = rng.randint(1, 500)
                    lab = {'rt02': '<o,f0,%s>' % sex, 'rt04s': '<o,%s>' % sex, 'rt05s': rng.choice(['<o>', '<o,f0>'])}[ev]
                    L.append('%s %s %s %.2f %.2f %s %s' % (f, c, s, t / 100.0, (t + d) / 100.0, lab, rng.choice(['hello there', 'ok', ''])))
                    W[(f, c, s)].append([F(t, 100), F(t + d, 100)])
                    t += d + rng.choice([0, 0, 10, 20, 29, 31, 49, 51, 51, 100, 300])
    rng.shuffle(L)
    for i in range(rng.randint(0, 2)):
        L.insert(rng.randint(0, len(L)), rng.choice([';; comment', 'f1 1 inter_segment_gap 0 1 <o,f0,male>', '']))
    out = ctx.ok(['perl', p + '/stm2rttm.pl', '-e', ev], stdin='\n'.join(L) + '\n').out
    G = collections.defaultdict(list)
    info = []
    for l in out.splitlines():
        r = l.split(' ')
        require(len(r) == 9, 'record %r' % l)
        if r[0] == 'SPKR-INFO':
            info.append(tuple(r))
        elif r[0] == 'SPEAKER':
            require(r[5:7] == ['<NA>'] * 2 and r[8] == '<NA>', 'record %r' % l)
            G[(r[1], r[2], r[7])].append([F(r[3]), F(r[3]) + F(r[4])])
        else:
            require(r[0] == 'NOSCORE' and r[5:] == ['<NA>'] * 4, 'record %r' % l)
            G[(r[1], r[2], 'NOSCORE')].append([F(r[3]), F(r[3]) + F(r[4])])
    M = {'male': 'adult_male', 'female': 'adult_female', 'unk': 'unknown'}
    want = sorted(('SPKR-INFO', f, c, '<NA>', '<NA>', '<NA>', M[sexes[s]] if ev != 'rt05s' else 'unknown', s, '<NA>') for f, c, s in W if 'excluded' not in s.lower())
    require(sorted(info) == want, 'SPKR-INFO records %s instead of %s' % (sorted(info), want))
    E = collections.defaultdict(list)
    amb, merged = set(), 0
    for (f, c, s), v in W.items():
        k = (f, c, 'NOSCORE' if 'excluded' in s.lower() else s)
        u = union(v, gap, ctx)
        if gap == 0:
            u = []
            for b, e in sorted(v):
                if u and b == u[-1][1]:
                    u[-1][1] = e
                else:
                    u.append([b, e])
        if u is None:
            amb.add(k)
            continue
        merged += len(v) - len(u)
        E[k] += u
    for k in set(E) | set(G):
        if k in amb:
            continue
        g = sorted(G[k])
        e = sorted(E[k])
        require(g == e, '%s: %s instead of %s' % (k, [(float(x), float(y)) for x, y in g], [(float(x), float(y)) for x, y in e]))
    if merged:
        ctx.nontrivial('stm2rttm %s: %d of %d segments joined' % (ev, merged, len(L)))
    ctx.count('records', len(L))
    ctx.count('merged', merged)
    ctx.seen('stm', ev, len(L), merged)


def c_sad(ctx, p):
    """spkr2sad: every SPEAKER record, its name replaced; one SPKR-INFO per recording and channel"""
    rng = ctx.rng
    info, rec = rttm(rng, ['SPEAKER'] * 4 + ['LEXEME', 'SU', 'NON-LEX'], rng.choice([2, 5, 20, 60]))
    if rng.random() < .3:
        info = [r for r in info if rng.random() < .5]
    have = {r[1] for r in info} | {r[1] for r in rec if r[0] == 'SPEAKER'}
    recs = info + [r for r in rec if r[1] in have]
    if not recs:
        return
    rng.shuffle(recs)
    out = ctx.ok(['perl', p + '/spkr2sad.pl'], stdin=show(rng, recs, True)).out
    got = [l.split(' ') for l in out.splitlines() if not l.startswith(';')]
    sp = [r for r in recs if r[0] == 'SPEAKER']
    a, b = collections.Counter(tuple(r) for r in got if r[0] == 'SPEAKER'), collections.Counter(tuple(r[:7] + ['speech', r[8]]) for r in sp)
    require(a == b, 'spkr2sad: SPEAKER records: lacks %s and adds %s' % (list((b - a).items())[:2], list((a - b).items())[:2]))
    x, y = sorted(tuple(r) for r in got if r[0] != 'SPEAKER'), sorted({('SPKR-INFO', r[1], r[2], '<NA>', '<NA>', '<NA>', 'unknown', 'speech', '<NA>') for r in recs if r[0] in ('SPKR-INFO', 'SPEAKER')})
    require(x == y, 'spkr2sad: other records %s instead of %s', x, y)
    last = {}
    for r in got:
        if r[0] == 'SPKR-INFO':
            require(r[1] not in last, 'spkr2sad: SPKR-INFO of %s behind its segments', r[1])
        else:
            require(last.get(r[1], 0) <= F(r[3]), 'spkr2sad: the segments of %s are not in order of time', r[1])
            last[r[1]] = F(r[3])
    if len(sp) > 1:
        ctx.nontrivial('spkr2sad of %d records' % len(recs))
    ctx.count('records', len(recs))
    ctx.seen('sad', len(sp), len(x))


def c_merge(ctx, p):
    """mergectm2rttm: each lexical ctm word inside a SPEAKER segment, given one of the speakers talking at its middle"""
    rng = ctx.rng
    info, segs, words = [], [], []
    few = rng.random() < .5
    tm = lambda: rng.randint(0, 12) * 50 if few else rng.randint(0, 2000)
    for f in rng.sample(['f1', 'f2', 'x-3'], rng.randint(1, 2)):
        for c in rng.choice([['1'], ['1', '2']]):
            for s in rng.sample(['a' + c, 'spk' + c, 'B-' + c], rng.randint(1, 3)):
                info.append(['SPKR-INFO', f, c, '<NA>', '<NA>', '<NA>', 'adult_male', s, '<NA>'])
                for _ in range(rng.randint(0, 4)):
                    segs.append(['SPEAKER', f, c, '%.2f' % (tm() / 100), '%.2f' % (rng.randint(10, 400) / 100), '<NA>', '<NA>', s, '<NA>'])
            for _ in range(rng.choice([0, 3, 12])):
                words.append([f, c, '%.2f' % (tm() / 100), '%.2f' % (rng.randint(1, 60) / 100), rng.choice(['cat', 'the', 'a', "he's"]), rng.choice(['0.9', '0.123', '1']), rng.choice(['lex', 'lex', 'lex', 'fp', 'frag']), 'unk'])
    rng.shuffle(segs)
    rng.shuffle(words)
    ctx.write('r.rttm', show(rng, info + segs, True))
    ctx.write('h.ctm', '\n'.join(map(' '.join, words)) + '\n')
    for t in ('rttmSmooth', 'rttmSort'):
        os.makedirs(ctx.dir + '/t/' + t)
        os.symlink(p + '/' + t + '.pl', ctx.dir + '/t/' + t + '/' + t + '.pl')
    out = ctx.ok(['perl', p + '/mergectm2rttm.pl', '-p', ctx.dir + '/t', '-r', 'r.rttm', '-c', 'h.ctm']).out
    got = [l.split(' ') for l in out.splitlines() if not l.startswith(';')]
    who = lambda w: {q[7] for q in segs if q[1:3] == w[:2] and F(q[3]) <= F(w[2]) + F(w[3]) / 2 <= F(q[3]) + F(q[4])}
    exp = collections.Counter(tuple(w[:6]) for w in words if w[6] == 'lex' and who(w))
    lex = [r for r in got if r[0] == 'LEXEME']
    a = collections.Counter((r[1], r[2], r[3], r[4], r[5], r[8]) for r in lex)
    require(a == exp, 'mergectm2rttm: words: lacks %s and adds %s' % (list((exp - a).items())[:2], list((a - exp).items())[:2]))
    G, W = collections.defaultdict(list), collections.defaultdict(list)
    for r in lex:
        require(r[6] == 'lex' and r[7] in who([r[1], r[2], r[3], r[4]]), 'mergectm2rttm: %s is not spoken by one of %s', r, who([r[1], r[2], r[3], r[4]]))
        W[r[1], r[2], r[7]].append([F(r[3]), F(r[3]) + F(r[4])])
    for r in got:
        if r[0] == 'SPEAKER':
            G[r[1], r[2], r[7]].append([F(r[3]), F(r[3]) + F(r[4])])
    for k in set(W) | set(G):
        u = union(W[k], F(3, 10), ctx)
        require(u is None or sorted(G[k]) == sorted(u), 'mergectm2rttm: segments of %s: %s instead of %s', k, G[k], u)
    x, y = sorted(r for r in got if r[0] not in ('LEXEME', 'SPEAKER')), sorted(r[:6] + ['unknown'] + r[7:] for r in info)
    require(x == y, 'mergectm2rttm: other records %s instead of %s', x, y)
    if lex:
        ctx.nontrivial('mergectm2rttm of %d words, %d segments' % (len(words), len(segs)))
    ctx.count('words_merged', len(lex))
    ctx.seen('merge', len(lex), len(segs))


def case(ctx):
    p = build.get('perl')
    ctx.rng.choice([c_sort, c_ctm, c_smooth, c_stm, c_stm, c_sad, c_merge])(ctx, p)
