"""C10: figures and graphs derived from confidence scores (NCE, histograms, DET data) follow from the alignments and the given confidences."""
import math, os, statistics
from vlib import build, scl, gen
from vlib.core import Violation, require

N_QUICK, N_THOROUGH = 12000, 48000
RULE = ('random stm/ctm and ctm/ctm sets with a confidence on every hypothesis word (including 0 and 1); NCE per speaker and overall, the histograms and DET '
        'points are recomputed from the alignments and the given confidences; non-trivial = both right and wrong hypothesis words')
ASSUMPTIONS = ['alignments themselves are judged by C01-C06', 'confidences other than 0, .5, 1 avoid the exact edges of histogram bins']
CEIL, FLOOR = .9999999, .0000001


def prepare():
    build.get('sclite', 'plain')


def conf(rng, style):
    if style == 'edge' and rng.random() < .4:
        return rng.choice([0., 1., .5])
    if style == 'few':
        return rng.choice([.123, .456, .789, .991])
    if style == 'high':
        return 1 - (rng.randrange(1, 30) * 10 + rng.randrange(1, 10)) / 10000.
    return (rng.randrange(0, 1000) * 10 + rng.randrange(1, 10)) / 10000.


def nce(ws):
    n = sum(1 for ok, _ in ws if ok)
    N = len(ws)
    if not 0 < n < N:
        return None
    p = n / N
    H = -(n * math.log2(p) + (N - n) * math.log2(1 - p))
    s = sum(math.log2(min(max(c, FLOOR), CEIL)) if ok else math.log2(1 - min(max(c, FLOOR), CEIL)) for ok, c in ws)
    return (H + s) / H


def rows(txt):
    out = []
    for ln in txt.split('\n'):
        s = ln.strip()
        if s.startswith('|') and s.endswith('|') and not set(s) <= set('|-=+'):
            c = [x.strip() for x in s[1:-1].split('|')]
            if len(c) > 1:
                out.append(c)
    return out


def check_nce(txt, spk, what):
    """spk: [(name, n reference words, [(right, confidence)])]"""
    rs = rows(txt)
    require(rs and rs[0][-1] == 'NCE', '%s: no NCE column: %s', what, rs[:1])
    rs = rs[1:]
    require([r[0] for r in rs[:len(spk)]] == [s[0] for s in spk], '%s: speakers %s', what, [r[0] for r in rs])
    vals = []
    ok = True
    n = 0
    for r, (name, nref, ws) in zip(rs, spk):
        if nref == 0:
            require(r[-1] == '#', '%s: speaker %s has no reference words but NCE %s', what, name, r[-1])
            continue
        v = nce(ws) if ws else 0.
        if v is None:
            ok = False
            continue
        require(abs(float(r[-1]) - v) <= .00061, '%s: NCE of speaker %s is %s, confidences and alignments give %.5f', what, name, r[-1], v)
        vals.append(v)
        n += 1
    v = nce([w for s in spk for w in s[2]])
    if v is not None:
        require(abs(float(rs[len(spk)][-1]) - v) <= .00061, '%s: overall NCE is %s, confidences and alignments give %.5f', what, rs[len(spk)][-1], v)
        n += 1
    if ok and vals:
        st = [statistics.fmean(vals), statistics.stdev(vals) if len(vals) > 1 else None, statistics.median(vals)]
        for k, x in enumerate(st):
            if x is not None:
                c = rs[len(spk) + 1 + k]
                require(abs(float(c[-1].rstrip('#')) - x) <= .00061, '%s: %s of the NCE is %s, speakers give %.5f', what, c[0], c[-1], x)
    return n


def det_points(txt):
    return [tuple(float(x) for x in l.split()) for l in txt.split('\n') if l.strip()]


ND = statistics.NormalDist()


def check_det(txt, ws, what):
    T = sorted(c for ok, c in ws if ok)
    F = sorted(c for ok, c in ws if not ok)
    pts = det_points(txt)
    require(len(pts) == len(ws) - 1, '%s has %d points for %d words', what, len(pts), len(ws))
    pm, pf = 0, len(F)
    lim = lambda p: min(max(p, 2.2204e-16), 1 - 2.2204e-16)
    tol = lambda p: .002 if 1e-3 < p < 1 - 1e-3 else .01 if 0 < p < 1 else .35
    for k, (x, y) in enumerate(pts[1:]):
        m = round(ND.cdf(x) * len(T))
        r = round(ND.cdf(y) * len(F))
        for got, cnt, n in ((x, m, len(T)), (y, r, len(F))):
            p = cnt / n
            require(abs(got - ND.inv_cdf(lim(p))) <= tol(p), '%s: point %d (%f %f) is not a fraction of %d right and %d wrong words', what, k, x, y, len(T), len(F))
        require((m - pm, pf - r) in ((1, 0), (0, 1)) or k == 0 and m + len(F) - r <= 1, '%s: point %d goes from %d right removed, %d wrong kept to %d, %d', what, k, pm, pf, m, r)
        pm, pf = m, r
        # some threshold removes about m right words and keeps about r wrong ones
        lo = max(T[m - 2] if m >= 2 else -1., F[len(F) - r - 2] if len(F) - r >= 2 else -1.)
        hi = min(T[m + 1] if m + 1 < len(T) else 2., F[len(F) - r + 1] if len(F) - r + 1 < len(F) else 2.)
        require(lo <= hi, '%s: point %d: no threshold removes %d right and keeps %d wrong words (%f > %f)', what, k, m, r, lo, hi)


def case(ctx):
    rng = ctx.rng
    B = build.get('sclite')
    V = gen.vocab(rng, None, rng.choice(['en', 'letters', 'tiny']))
    reff = rng.choice(['stm', 'stm', 'ctm'])
    nspk = rng.choice([1, 2, 3, 6])
    nu = rng.choice([1, 3, 8, 25, 60])
    rate = rng.choice([.1, .3, .6])
    style = rng.choice(['any', 'any', 'edge', 'few', 'high'])
    hasconf = rng.random() < .95
    nsys = rng.choice([1, 1, 2])
    spk = ['s%d' % k for k in range(nspk)]
    ref = ''
    hyps = [''] * nsys
    t = 0.
    given = [{} for _ in range(nsys)]
    for k in range(nu):
        s = rng.choice(spk)
        r = gen.sent(rng, V, rng.choice([0, 1, 3, 6, 12]) if nspk < 6 or s != 's5' else 0)
        if reff == 'stm':
            ref += 'f %s %s %.2f %.2f %s\n' % ('1', s, t, t + 100, ' '.join(r))
        else:
            for j, w in enumerate(r):
                ref += '%s 1 %.2f 0.50 %s\n' % (s, k * 100 + 1 + j, w)
        for i in range(nsys):
            h = gen.mutate(rng, r, V, rate)
            for j, w in enumerate(h):
                c = conf(rng, style)
                if reff == 'stm':
                    a = t + 1 + j
                    key = ('f', round(a, 2))
                else:
                    a = k * 100 + 1 + j
                    key = (s, a)
                given[i][key] = c
                hyps[i] += '%s 1 %.2f 0.40 %s%s\n' % ('f' if reff == 'stm' else s, a, w, ' %.4f' % c if hasconf else '')
        t += 100
    if reff == 'ctm':
        # one recording per speaker, in order
        ref = ''.join(sorted(ref.splitlines(True), key=lambda l: l.split()[0]))
        hyps = [''.join(sorted(h.splitlines(True), key=lambda l: l.split()[0])) for h in hyps]
        rs = {l.split()[0] for l in ref.splitlines()}
        hyps = [''.join(l for l in h.splitlines(True) if l.split()[0] in rs) for h in hyps]
        if any({l.split()[0] for l in h.splitlines()} != rs for h in hyps):
            return
    if not ref or not all(hyps):
        return
    ctx.write('r', ref)
    cmd = [B['sclite'], '-r', 'r', reff]
    for i, h in enumerate(hyps):
        ctx.write('h%d' % i, h)
        cmd += ['-h', 'h%d' % i, 'ctm', 'sys%d' % i]
    graphs = ['det', 'bhist', 'hist', 'sbhist']
    fb = rng.choice(['0', '1'])
    ctx.ok(cmd + ['-f', fb, '-O', '.', '-o', 'sum', 'rsum', 'sgml', '-C'] + graphs)
    total = [None] * nsys
    for i in range(nsys):
        base = 'h%d' % i
        S = scl.parse_sgml(ctx.read(base + '.sgml'))[0]['speakers']
        if not hasconf:
            for rep in ('.sys', '.raw'):
                require(rows(ctx.read(base + rep))[0][-1] != 'NCE', '%s%s has an NCE column without confidences', base, rep)
            for g in ('.det.dat.00', '.det.plt', '.hist.dat', '.bhist.dat1', '.sbhist.dat'):
                require(not os.path.exists(os.path.join(ctx.dir, base + g)), '%s%s was written without confidences', base, g)
            ctx.count('without_confidences')
            continue
        spks = []
        for s, ps in S:
            ws, nref = [], 0
            for p in ps:
                aux = p.attrs['word_aux'].split(',')
                ci, ti = 3 + aux.index('h_conf'), 3 + aux.index('h_t1+t2')
                for it in p.items:
                    nref += it[0] != 'I'
                    if it[0] != 'D':
                        key = (p.attrs['file'], round(float(it[ti].split('+')[0]), 2))
                        require(key in given[i], '%s: word %s at unknown time %s', base, it[2], key)
                        c = given[i][key]
                        ws.append((it[0] == 'C', c))
            spks.append((s, nref, ws))
        ws = [w for s in spks for w in s[2]]
        ctx.count('scored_words', len(ws))
        ctx.seen(style, nspk, reff, len(ws).bit_length(), nsys)
        ctx.count('nce_values', check_nce(ctx.read(base + '.sys'), spks, base + '.sys') + check_nce(ctx.read(base + '.raw'), spks, base + '.raw'))
        T = [c for ok, c in ws if ok]
        F = [c for ok, c in ws if not ok]
        # histograms
        for nb, name in ((10, '.bhist.dat1'), (100, '.hist.dat')):
            L = [[float(x) for x in l.split()] for l in ctx.read(base + name).splitlines()]
            bins = [[0, 0] for _ in range(nb)]
            for ok, c in ws:
                bins[min(nb - 1, int(c * nb + 1e-9))][0 if ok else 1] += 1
            require(len(L) == (nb if nb == 10 else 2 * nb), '%s%s has %d lines', base, name, len(L))
            for b in range(nb):
                c, w = bins[b]
                if nb == 10:
                    exp = 100. * c / (c + w) if c + w else 0.
                    require(abs(L[b][0] - (b * .1 + .05)) < 1e-3 and abs(L[b][1] - exp) < 1e-3, '%s%s bin %d is %s, expected %.4f', base, name, b, L[b], exp)
                else:
                    for e in (0, 1):
                        x = L[2 * b + e]
                        require(x[1:] == [c + w, c, w] and abs(x[0] - (b + .0) / nb) < .0101, '%s%s bin %d is %s, expected %s', base, name, b, x, [c + w, c, w])
                    require({round(L[2 * b][0] * nb), round(L[2 * b + 1][0] * nb)} == {b, b + 1}, '%s%s bin %d has limits %s', base, name, b, L[2 * b:2 * b + 2])
        n = len(ws) // 20
        L = [[float(x) for x in l.split()] for l in ctx.read(base + '.sbhist.dat').splitlines()]
        if n:
            W = sorted(ws, key=lambda x: x[1])
            k = len(W) // n
            require(len(L) == k, '%s.sbhist.dat: %d bins of %d words, %d words', base, len(L), n, len(W))
            for b in range(k):
                ch = W[b * n:(b + 1) * n if b < k - 1 else len(W)]
                lo, hi = ch[0][1], ch[-1][1]
                require(abs(L[b][0] - (lo + hi) / 2) < 2e-6 and abs(L[b][4] - (hi - lo)) < 2e-6, '%s.sbhist.dat: bin %d is %s, confidences go from %f to %f', base, b, L[b], lo, hi)
                edge = b and W[b * n - 1][1] == lo or b < k - 1 and W[(b + 1) * n][1] == hi
                if not edge:
                    exp = 100. * sum(1 for ok, _ in ch if ok) / len(ch)
                    require(abs(L[b][1] - exp) < 1e-3, '%s.sbhist.dat: bin %d has %.4f%% correct, expected %.4f', base, b, L[b][1], exp)
                    ctx.count('scaled_bins')
        if T and F:
            total[i] = ws
            ctx.nontrivial('%s %s: %d right, %d wrong' % (reff, style, len(T), len(F)))
            check_det(ctx.read(base + '.det.dat.00'), ws, base + '.det.dat.00')
            ctx.count('det_points', len(ws) - 1)
    if nsys == 2 and hasconf and all(total):
        sg = ctx.read('h0.sgml') + ctx.read('h1.sgml')
        q = ctx.run([B['sc_stats'], '-p', '-g', 'det', '-n', 'both', '-O', '.'], stdin=sg)
        require(q.rc == 0, 'sc_stats -g det exits %s: %s', q.rc, q.err[-200:])
        for i in range(2):
            require(ctx.read('both.det.dat.%02d' % i) == ctx.read('h%d.det.dat.00' % i), 'sc_stats draws another DET curve of system %d than sclite', i)
        ctx.count('det_sc_stats')
