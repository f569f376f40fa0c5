"""C15: sc_stats significance tests (matched pairs, sign, Wilcoxon, McNemar) state the statistics of the alignments they read."""
import math, re
from fractions import Fraction as F
from vlib import build, scl, gen
from vlib.core import Violation, require

N_QUICK, N_THOROUGH = 12000, 120000
RULE = ('2-6 systems over 1-40 speakers with 1-40 utterances, hypothesis files in differing orders, error rates from none to heavy, scored by sclite and piped into '
        'sc_stats -t with -u, -v, -f E/R/W; every decision, probability and detailed figure is recomputed from the piped alignments; '
        'non-trivial = some pair of systems differs significantly in some test')
ASSUMPTIONS = ['all systems transcribe the same utterances', 'the probability tables and the normal approximation above 20 events are accurate to 0.012; '
               'decisions within that margin of 0.05 are not judged']
V = 'a b c d e f g h aa bb cc'.split()


def prepare():
    build.get('sclite')


def make(ctx):
    rng = ctx.rng
    nspk = rng.choice([1, 2, 3, 5, 6, 8, 10, 12, 22, 30])
    nutt = rng.choice([1, 2, 3, 5, 8]) if nspk > 2 else rng.choice([1, 3, 10, 30])
    if nspk <= 8 and rng.random() < .2:
        nutt = rng.choice([12, 20])
    nsys = rng.choice([2, 2, 3, 4, 6])
    maxw = rng.choice([1, 3, 6, 10])
    utts = [('s%02d' % s, u, [rng.choice(V) for _ in range(rng.randint(0 if rng.random() < .1 else 1, maxw))]) for s in range(nspk) for u in range(nutt)]
    if sum(len(t) for _, _, t in utts) == 0:
        utts[0] = (utts[0][0], utts[0][1], ['a'])
    name = rng.sample(['sys%d' % i for i in range(9)] + ['lab', 'x1', 'base', 'new-sys'], nsys)
    ctx.write('r', ''.join('%s (%s-%03d)\n' % (' '.join(t), s, u) for s, u, t in utts))
    base = rng.choice([0, .02, .1, .3])
    for y in range(nsys):
        p = min(.8, base + rng.choice([0, 0, .02, .1, .3]))
        L = []
        for s, u, t in utts:
            q = p * rng.choice([0, 1, 1, 2]) if rng.random() < .5 else p
            out = []
            for w in t:
                k = rng.random()
                if k < q * .6:
                    out.append(rng.choice(V))
                elif k < q * .8:
                    pass
                else:
                    out.append(w)
                if rng.random() < q * .2:
                    out.append(rng.choice(V))
            if rng.random() < q * .1:
                out.append(rng.choice(V))
            L.append('%s (%s-%03d)\n' % (' '.join(out), s, u))
        if y and rng.random() < .15:
            L = ctx.read('h%d' % rng.randrange(y)).splitlines(True)      # a system identical to another one
        if rng.random() < .3:
            rng.shuffle(L)
        ctx.write('h%d' % y, ''.join(L))
    return name


def phi_tail(z):
    return math.erfc(abs(z) / math.sqrt(2))          # two-sided


def binom2(k, n):
    return 2.0 * float(sum(F(math.comb(n, i)) for i in range(k + 1)) / F(2) ** n)


class Sys:
    def __init__(self, sp):
        self.utt = {}                                # (speaker, id) -> list of evaluations
        self.spk = {}
        for s, paths in sp:
            for p in paths:
                self.utt[(s, p.id)] = [it[0] for it in p.items]
                c = self.spk.setdefault(s, dict(C=0, S=0, D=0, I=0))
                for it in p.items:
                    c[it[0]] += 1

    def pct(self, s, f):
        c = self.spk[s]
        n = c['C'] + c['S'] + c['D']
        e = c['S'] + c['D'] + c['I']
        if f == 'R':
            return F(100 * c['C'], n) if n else F(0)
        r = F(100 * e, n) if n else F(0)
        return r if f == 'E' else 100 - r


def segments(a, b):
    """error segments of one utterance: (ref words, errors of a, errors of b), parted by two adjacent words right in both"""
    def split(ev):
        ins, words = [0], []
        for e in ev:
            if e == 'I':
                ins[-1] += 1
            else:
                words.append(e)
                ins.append(0)
        return words, ins
    (wa, ia), (wb, ib) = split(a), split(b)
    require(len(wa) == len(wb), 'the systems do not share the reference')
    n = len(wa)
    good = [wa[i] == 'C' and wb[i] == 'C' for i in range(n)]
    # events in order: insertion slot i (before word i), word i
    bad = []                                          # (position, errors a, errors b); words at i+.5, slots at i
    for i in range(n + 1):
        if ia[i] or ib[i]:
            bad.append((i, ia[i], ib[i]))
        if i < n and not good[i]:
            bad.append((i + .5, int(wa[i] != 'C'), int(wb[i] != 'C')))
    out, cur = [], None
    for pos, ea, eb in bad:
        if cur is not None:
            # two adjacent good words between the previous event and this one?
            ws = [i for i in range(n) if cur[1] < i + .5 < pos]
            if len(ws) >= 2:
                out.append(cur)
                cur = None
        if cur is None:
            cur = [pos, pos, 0, 0]
        cur[1] = pos
        cur[2] += ea
        cur[3] += eb
    if cur is not None:
        out.append(cur)
    res = []
    for j, (p0, p1, ea, eb) in enumerate(out):
        before = [i for i in range(n) if i + .5 < p0]
        after = [i for i in range(n) if i + .5 > p1]
        lo = max(0, before[-1] - 1) if before else 0
        hi = after[1] if len(after) > 1 else n - 1
        res.append((hi - lo + 1, ea, eb))
    return res


def mapsswe(x, y):
    seg = []
    for k, ev in x.utt.items():
        seg += segments(ev, y.utt[k])
    d = [a - b for _, a, b in seg]
    n = len(d)
    mean = sum(d) / n if n else 0.0
    ss = sum((v - mean) ** 2 for v in d)
    if n < 2 or len(set(d)) == 1:
        sd = z = 0.0
    else:
        sd = math.sqrt(ss / (n - 1))
        z = mean / (sd / math.sqrt(n))
    ref = sum(r for r, _, _ in seg)
    pc = [100.0 * sum(s[i] for s in seg) / ref if ref else 0.0 for i in (1, 2)]
    return dict(n=n, mean=mean, sd=sd, z=z, pct=pc, spu=n / len(x.utt))


def orient(x, y, f):
    """the order in which the rank based tests put the two systems: larger sum first"""
    sx, sy = sum(x.pct(s, f) for s in x.spk), sum(y.pct(s, f) for s in y.spk)
    if abs(sx - sy) < F(1, 10 ** 6):
        return [0, 1]
    return [0] if sx > sy else [1]


def sign_counts(x, y, f, o):
    d = [x.pct(s, f) - y.pct(s, f) for s in x.spk]
    if o:
        d = [-v for v in d]
    thr = F(5, 1000)
    return sum(v > thr for v in d), sum(v < -thr for v in d), sum(abs(v) <= thr for v in d)


def wilc(x, y, f, o, spk):
    d = [x.pct(s, f) - y.pct(s, f) for s in spk]
    if o:
        d = [-v for v in d]
    a = sorted(abs(v) for v in d)
    rank = lambda v: F(2 * sum(u < abs(v) for u in a) + sum(u == abs(v) for u in a) + 1, 2)
    thr = F(5, 1000)
    sp = sm = F(0)
    npl = nmi = alt = 0
    for v in d:
        r = rank(v)
        if v > thr or (abs(v) <= thr and alt % 2 == 0):
            sp += r
            npl += 1
        else:
            sm += r
            nmi += 1
        if abs(v) <= thr:
            alt += 1
    n = len(d)
    # rounding may part differences that are equal: by how much the sum of the positive ranks may then move
    pos = [v for v in d if v > thr]
    slack = F(0)
    for u in set(a):
        if u > thr:
            m, p = sum(v == u for v in a), sum(v == u for v in pos)
            slack += F(p * (m - p), 2)
    Z = lambda sp: float((min(sp, F(n * (n + 1), 2) - sp) - F(n * (n + 1), 4))) / math.sqrt(n * (n + 1) * (2 * n + 1) / 24.0)
    return npl, nmi, float(sp), float(sm), Z(sp), float(slack), (Z(sp - slack), Z(sp + slack))


def pz(z):
    return phi_tail(z), .012, abs(abs(z) - 1.96) > .006, abs(z) > 1.96


def expect(x, y, f, spk):
    """per test: list of acceptable (p, tolerance, decision judged, significant, better: 0 = x, 1 = y, None)"""
    E = {}
    m = mapsswe(x, y)
    E['MP'] = [pz(m['z']) + (0 if m['mean'] < 0 else 1,)]
    lo = 0 if f == 'E' else 1                          # which of (first, second) wins when the first has the smaller value
    E['SI'] = []
    for o in orient(x, y, f):
        a, b, z = sign_counts(x, y, f, o)
        b += (z + 1) // 2
        a += z // 2
        n = a + b
        p = 1.0 if a == b else min(1.0, binom2(min(a, b), n)) if n > 20 else binom2(min(a, b), n)
        tol = .0006 if n <= 20 else .012
        first_larger = a > b                          # the first system has the larger value on most speakers
        win = (1 if first_larger else 0) if f == 'E' else (0 if first_larger else 1)
        E['SI'].append((p, tol, abs(p - .05) > (1e-9 if n <= 20 else .012), p < .05, win ^ o))
    E['WI'] = []
    for o in orient(x, y, f):
        npl, nmi, sp, sm, z, slack, zz = wilc(x, y, f, o, spk)
        win = (1 if sp > sm else 0) if f == 'E' else (0 if sp > sm else 1)
        a, c = [pz(q) for q in zz]
        p = pz(z)
        if slack:
            far = max(abs(v[0] - p[0]) for v in (a, c))
            if abs(sp - sm) <= 2 * slack:
                far = max(far, 1 - p[0])
            p = (p[0], p[1] + far, a[2] and c[2] and a[3] == p[3] == c[3], p[3])
        E['WI'].append(p + (win ^ o,))
    n01 = n10 = 0
    for k, ev in x.utt.items():
        ex, ey = any(e != 'C' for e in ev), any(e != 'C' for e in y.utt[k])
        n10 += ex and not ey
        n01 += ey and not ex
    n = n01 + n10
    p = 1.0 if n01 == n10 else binom2(min(n01, n10), n)
    E['MN'] = [(p, .0006 if n <= 20 else .012, abs(p - .05) > (1e-9 if n <= 20 else .012), p < .05, 1 if n10 > n01 else 0)]
    return E, m


def judge(E, p, who, names, pair, what):
    """some acceptable expectation agrees with the printed probability (text or None) and decision"""
    for q, tol, judged, sig, win in E:
        if p is not None:
            if p == '<0.001':
                if q > .001 + tol:
                    continue
            elif abs(float(p) - q) > tol and not (float(p) <= .001 and q < .0016):
                continue
        if judged:
            if not sig and who is not None:
                continue
            if sig and who != names[pair[win]]:
                continue
        elif who is not None and who != names[pair[win]]:
            continue
        return
    raise Violation('%s for %s vs %s: printed p=%s better=%s, expected one of %s' % (what, names[pair[0]], names[pair[1]], p, who,
                    [('p=%.4f' % e[0], 'significant' if e[3] else 'not significant', names[pair[e[4]]]) for e in E]))


def matrix(txt):
    """one-winner matrices: {(row, column): cell}"""
    rows = [[c.strip() for c in l.strip().strip('|').split('|')] for l in txt.splitlines() if l.strip().startswith('|') and '--' not in l]
    require(rows and len(rows) > 1, 'no matrix found')
    h = rows[0]
    return {(r[0], h[i]): c for r in rows[1:] for i, c in enumerate(r) if i and c}


def case(ctx):
    rng = ctx.rng
    b = build.get('sclite')
    names = make(ctx)
    cmd = [b['sclite'], '-r', 'r', 'trn', '-i', 'spu_id', '-f', '0']
    for i, n in enumerate(names):
        cmd += ['-h', 'h%d' % i, 'trn', n]
    sg = ctx.ok(cmd + ['-o', 'sgml', 'stdout']).out
    systems = [s for s in scl.parse_sgml(sg)]
    require([s['attrs']['title'] for s in systems] == names, 'systems of the sgml output: %s' % [s['attrs']['title'] for s in systems])
    S = [Sys(s['speakers']) for s in systems]
    spk = list(S[0].spk)
    f = rng.choice('EEERW')
    tests = rng.sample(['mcn', 'mapsswe', 'sign', 'wilc'], rng.randint(1, 4)) if rng.random() < .3 else ['std4']
    ab = {'mcn': 'MN', 'mapsswe': 'MP', 'sign': 'SI', 'wilc': 'WI'}
    want = set(ab.values()) if tests == ['std4'] else {ab[t] for t in tests}
    unified = rng.random() < .5
    verbose = not unified and rng.random() < .6
    ctx.ok([b['sc_stats'], '-p', '-n', 'T', '-O', '.', '-t'] + tests + ['-f', f] + (['-u'] if unified else []) + (['-v'] if verbose else []), stdin=sg)
    pairs = [(i, j) for i in range(len(S)) for j in range(i + 1, len(S))]
    EX = {pr: expect(S[pr[0]], S[pr[1]], f, spk) for pr in pairs}
    if any(e[2] and e[3] for E, _ in EX.values() for t in want for e in E[t]):
        ctx.nontrivial('%d systems %d speakers formula %s: %s' % (len(S), len(spk), f, sorted(want)))
    ctx.seen(len(S), len(spk), f, tuple(sorted(want)), unified, verbose, tuple(e[3] for E, _ in EX.values() for t in 'MP SI WI MN'.split() for e in E[t][:1]))
    ctx.count('pairs_judged', len(pairs) * len(want))
    if unified:
        check_unified(ctx.read('T.stats.unified'), names, EX, want)
        return
    for t, ext, what in (('MP', 'mapsswe', 'matched pairs test'), ('SI', 'sign', 'sign test'), ('WI', 'wilc', 'Wilcoxon test'), ('MN', 'mcn', 'McNemar test')):
        if t not in want:
            continue
        txt = ctx.read('T.stats.' + ext)
        if t == 'MN':
            M = mcn_matrix(txt, names)
        else:
            tail = txt[txt.rindex('COMPARISON MATRIX' if t == 'MP' else 'Comparison Matrix'):]
            M = {k: (None, None if v == 'same' else v) for k, v in matrix(tail).items()}
        done = set()
        for (r, c), (p, who) in M.items():
            pr = (names.index(r), names.index(c))
            sw = pr[0] > pr[1]
            pr = (min(pr), max(pr))
            require(pr not in done, '%s: pair %s shown twice' % (what, (r, c)))
            done.add(pr)
            judge(EX[pr][0][t], p, who, names, pr, what)
        require(done == set(pairs), '%s: pairs shown %s' % (what, sorted(done)))
        if verbose:
            details(txt, t, names, EX, S, f, spk)


def mcn_matrix(txt, names):
    rows = [[c.strip() for c in l.strip().strip('|').split('|')] for l in txt.splitlines() if l.strip().startswith('|') and '--' not in l and l.count('|') > 2]
    if rows and len(rows[0]) != len(names) + 1:
        rows = [r for r in rows if len(r) == len(names) + 1]
    require(len(rows) >= 1 + 2 * len(names), 'McNemar matrix incomplete')
    rows = rows[-(1 + 2 * len(names)):]
    require(rows[0][1:] == names, 'McNemar matrix columns %s' % rows[0])
    M = {}
    for i, n in enumerate(names):
        a, c = rows[1 + 2 * i], rows[2 + 2 * i]
        require(a[0] == n, 'McNemar matrix row %s' % a)
        for j in range(i + 1, len(names)):
            p = re.fullmatch(r'Conf=\(([<\d.]+)\)', a[j + 1])
            require(p, 'McNemar matrix cell %r' % a[j + 1])
            M[(n, names[j])] = (p.group(1), None if c[j + 1] == 'same' else c[j + 1])
    return M


def check_unified(txt, names, EX, want):
    rows = [l for l in txt.splitlines() if re.match(r'\s*\|\s*(MP|SI|WI|MN)\s*\|\|', l)]
    require(len(rows) == len(names) * len(want), 'composite report has %d rows' % len(rows))
    cur, seen = None, 0
    for l in rows:
        parts = l.strip().strip('|').split('||')
        t = parts[0].strip()
        require(t in want and parts[-1].strip() == t, 'composite report row %r' % l)
        cells = [c.strip() for c in parts[1].split('|')]
        if cells[0]:
            cur = names.index(cells[0])
        for j, c in enumerate(cells[1:]):
            require(bool(c) == (j > cur), 'composite report: cell for %s vs %s is %r' % (names[cur], names[j], c))
            if not c:
                continue
            f = c.split()
            who = None if f[0] == '~' else f[0]
            p = f[1]
            star = f[2] if len(f) > 2 else ''
            pv = 0.0 if p == '<0.001' else float(p)
            ok = {'***': pv <= .001, '**': .001 <= pv <= .01, '*': .01 <= pv <= .05, '': pv >= .05}[star]
            require(ok, 'composite report: %s for p=%s' % (star, p))
            judge(EX[(cur, j)][0][t], p, who, names, (cur, j), 'composite report, ' + t)
            seen += 1
    require(seen == len(EX) * len(want), 'composite report shows %d comparisons' % seen)


def details(txt, t, names, EX, S, f, spk):
    if t == 'MP':
        L = re.findall(r'MTCH_PR_RESULTS \(systems: (\S+) (\S+)\) \(# segs: (\d+)\) \(Seg per Sent: +([\d.]+)\) \(% Error: +([\d.]+) +([\d.]+)\) '
                       r'\(mean: +(-?[\d.]+)\) \(std dev: +([\d.]+)\) \(Z Stat: +(-?[\d.]+)\) \(Stat Diff: (\w+)\)', txt.replace('(mean: -', '(mean:  -').replace('Stat: -', 'Stat:  -'))
        require(len(L) == len(EX), 'matched pairs: %d result lines' % len(L))
        for a, c, n, spu, p1, p2, mean, sd, z, diff in L:
            m = EX[(names.index(a), names.index(c))][1]
            require(int(n) == m['n'], 'matched pairs %s %s: %s segments, the alignments have %d' % (a, c, n, m['n']))
            for got, val, tol, what in ((spu, m['spu'], .0006, 'segments per sentence'), (p1, m['pct'][0], .006, 'error of the first system'), (p2, m['pct'][1], .006, 'error of the second system'),
                                        (mean, m['mean'], .0006, 'mean difference'), (sd, m['sd'], .0006, 'standard deviation'), (z, m['z'], .0006, 'Z statistic')):
                require(abs(float(got) - val) <= tol + 1e-9, 'matched pairs %s %s: %s is %s, the alignments give %.4f' % (a, c, what, got, val))
            if abs(abs(m['z']) - 1.96) > .001:
                require((diff == 'Yes') == (abs(m['z']) > 1.96), 'matched pairs %s %s: %s for Z %.4f' % (a, c, diff, m['z']))
    elif t == 'SI':
        B = re.findall(r'Percentages for Systems (\S+) and (\S+)\s*\n(.*?)N\(\+\) = +(\d+).*?N\(-\) = +(\d+).*?N\(0\) = +(\d+)', txt, re.S)
        require(len(B) == len(EX), 'sign test: %d detail tables' % len(B))
        for a, c, body, np, nm, nz in B:
            x, y = S[names.index(a)], S[names.index(c)]
            want = sign_counts(x, y, f, 0)
            require((int(np), int(nm), int(nz)) == want, 'sign test %s %s: +%s -%s 0%s, the alignments give %s' % (a, c, np, nm, nz, want))
            table(body, x, y, f, 'sign test %s %s' % (a, c))
    elif t == 'WI':
        B = re.findall(r'Percentages for Systems (\S+) and (\S+)\s*\n(.*?)Sum of +(\d+) positive ranks = +([\d.]+).*?Sum of +(\d+) negative ranks = +([\d.]+).*?Z statistic = +(-?[\d.]+|-?nan)', txt, re.S)
        require(len(B) == len(EX), 'Wilcoxon test: %d detail tables' % len(B))
        for a, c, body, np, sp, nm, sm, z in B:
            x, y = S[names.index(a)], S[names.index(c)]
            w = wilc(x, y, f, 0, spk)
            require((int(np), int(nm)) == w[:2] and abs(float(sp) - w[2]) < .06 + w[5] and abs(float(sm) - w[3]) < .06 + w[5] and
                    abs(abs(float(z)) - abs(w[4])) < .0051 + max([abs(q - w[4]) for q in w[6]] + [abs(w[4]) * (abs(w[2] - w[3]) <= 2 * w[5])]),
                    'Wilcoxon test %s %s: %s ranks sum %s, %s ranks sum %s, Z %s; the alignments give %s' % (a, c, np, sp, nm, sm, z, w))
            table(body, x, y, f, 'Wilcoxon test %s %s' % (a, c))
    else:
        B = re.findall(r'McNemar test results.*?corr +(\d+) +(\d+)\n\s*incorr +(\d+) +(\d+)', txt, re.S)
        require(len(B) == len(EX), 'McNemar test: %d detail tables' % len(B))
        for g, (i, j) in zip(B, sorted(EX)):
            tb = [[0, 0], [0, 0]]
            for k, ev in S[i].utt.items():
                tb[any(e != 'C' for e in ev)][any(e != 'C' for e in S[j].utt[k])] += 1
            require([int(v) for v in g] == tb[0] + tb[1], 'McNemar test %s %s: table %s, the alignments give %s' % (names[i], names[j], g, tb))


def table(body, x, y, f, what):
    got = {}
    for l in body.splitlines():
        p = l.split()
        if len(p) >= 3 and p[0] in x.spk:
            got[p[0]] = (p[1], p[2])
    require(set(got) == set(x.spk), '%s: speakers in the table %s' % (what, sorted(got)))
    for s, (a, c) in got.items():
        require(abs(float(a) - x.pct(s, f)) <= .0051 and abs(float(c) - y.pct(s, f)) <= .0051, '%s: speaker %s shown with %s and %s, the alignments give %.3f and %.3f'
                % (what, s, a, c, x.pct(s, f), y.pct(s, f)))
