"""C09: word-weight-mediated alignment and weighted word scores follow the weight list."""
import re, statistics
from vlib import build, scl, gen, reports
from vlib.core import Violation, require

N_QUICK, N_THOROUGH = 15000, 60000
RULE = ('random weight lists (1-400 words, several columns, default weight, comments, compound words joined by =, words that are prefixes of one another) '
        'with transcript and segment inputs, alternations and optionally deletable words; the weights shown, the minimality of the alignment under the '
        'documented weight costs and all percentages of the weighted report are recomputed; non-trivial = at least one error')
ASSUMPTIONS = ['weights are positive multiples of 1/64 below 100, so sums are exact in single precision', 'percentages are compared to the printed precision']


def prepare():
    build.get('sclite', 'plain')


class WRules(scl.Rules):
    def __init__(self, W, dflt, **kw):
        scl.Rules.__init__(self, **kw)
        self.W, self.dflt = W, dflt

    def weight(self, w):
        if self.is_od(w):
            return 0.0
        if '=' in w:
            return sum(self.W.get(x, self.dflt) for x in w.split('=') if x)
        return self.W.get(w, self.dflt)

    def c_del(self, w):
        return 0.001 if w == '@' else self.weight(w)

    def c_sub(self, a, b):
        if a == '@' or b == '@':
            return 1e6
        return 0.0 if self.equal(a, b) else self.weight(a) + self.weight(b)


def wlist(rng, V, unity):
    q = lambda: rng.randint(1, 6400) / 64.0 if rng.random() < .8 else float(rng.randint(1, 9))
    W = {}
    dflt = 0.0
    ncol = rng.choice([1, 1, 2, 5])
    pool = list(V) + rng.sample(gen.EN, rng.choice([0, 5, 40])) + ['w%03d' % k for k in range(rng.choice([0, 0, 90, 150, 300]))]
    rng.shuffle(pool)
    txt = []
    for w in dict.fromkeys(pool):
        if rng.random() < .8:
            W[w] = q()
            txt.append(('%s' + rng.choice(['  ', ' ', '\t']) + '%s') % (w, ' '.join([repr(W[w])] + [repr(q()) for _ in range(ncol - 1)])))
    if not W:
        W[V[0]] = q()
        txt.append('%s %r' % (V[0], W[V[0]]) + ' 1' * (ncol - 1))
    head = []
    if rng.random() < .7:
        head.append(";; 'Headings' 'Word Spelling' " + ' '.join("'col %d'" % k for k in range(ncol)))
    if rng.random() < .8:
        dflt = q()
        head.append(";; Default missing weight '%r'" % dflt)
    if rng.random() < .3:
        head.append(rng.choice([';; a comment', ';;', '']))
    if not dflt:                       # without a default, words not listed weigh nothing: keep every word weighted
        for w in V:
            if w not in W:
                W[w] = q()
                txt.append('%s %r' % (w, W[w]) + ' 2' * (ncol - 1))
    if rng.random() < .5:
        txt = txt[:1] + head + txt[1:]
    else:
        txt = head + txt
    return W, dflt, '\n'.join(txt) + '\n'


def case(ctx):
    rng = ctx.rng
    sclite = build.get('sclite')['sclite']
    V = gen.vocab(rng, None, rng.choice(['en', 'letters', 'tiny', 'long', 'hyph']))
    V = sorted(set(V))
    unity = rng.random() < .12
    if unity:
        W, dflt = {}, 1.0
    else:
        W, dflt, txt = wlist(rng, V, unity)
        ctx.write('w.wwl', txt)
    if rng.random() < .3 and dflt:
        V = V + ['='.join(rng.choice(V) for _ in range(rng.choice([2, 3]))) for _ in range(3)]
        if rng.random() < .1:
            V.append('='.join(rng.choice(V)[:12] for _ in range(14)).rstrip('=')[:190])
    od = rng.random() < .3
    fmt = rng.choice(['trn', 'trn', 'ctm'])
    nspk = rng.choice([1, 2, 3, 5])
    nu = rng.choice([1, 2, 4, 8])
    ref, hyp, utts = '', '', []
    rate = rng.choice([0, .3, .6, 1.0])
    for k in range(nu):
        s = 's%d' % rng.randrange(nspk)
        n = rng.choice([0, 1, 3, 5, 9, 14])
        r = gen.with_alts(rng, gen.sent(rng, V, n), V, rng.choice([0, 0, .2]), rng.choice([1, 2]))
        h = gen.mutate(rng, gen.expand(rng, r), V, rate)
        cm = lambda w: gen.case_mix(rng, '(' + w + ')' if od and w != '@' and rng.random() < .3 else w)
        r, h = scl.map_words(r, cm), [cm(w) for w in h]
        if fmt == 'trn':
            ref += '%s (%s-%04d)\n' % (scl.render(r), s, k)
            hyp += '%s (%s-%04d)\n' % (' '.join(h), s, k)
        else:
            ref += 'f 1 %s %d %d %s\n' % (s, k * 100, k * 100 + 100, scl.render(r))
            for j, w in enumerate(h):
                hyp += 'f 1 %d 0.5 %s\n' % (k * 100 + 1 + j, w)
        utts.append((r, h))
    if fmt == 'ctm' and not hyp:
        hyp = 'f 1 1 0.5 %s\n' % V[0]
        utts[0] = (utts[0][0], [V[0]])
    ctx.write('r', ref)
    ctx.write('h', hyp)
    cmd = [sclite, '-h', 'h', fmt, 'nm', '-r', 'r', 'trn' if fmt == 'trn' else 'stm', '-f', '0', '-O', '.', '-n', 'out', '-o', 'wws', 'sgml', 'sum',
           '-w', 'unity' if unity else 'w.wwl'] + (['-D'] if od else [])
    if fmt == 'trn':
        cmd += ['-i', 'spu_id']
    ctx.ok(cmd)
    R = WRules(W, dflt, optdel=od)
    speakers = scl.parse_sgml(ctx.read('out.sgml'))[0]['speakers']
    byseq = sorted((p for _, ps in speakers for p in ps), key=lambda p: int(p.attrs['sequence']))
    require(len(byseq) == nu, '%d utterances in the alignments, %d given', len(byseq), nu)
    ctx.seen(fmt, unity, len(W), od, nspk, rate)
    for (r, h), p in zip(utts, byseq):
        rn, hn = scl.Net(scl.map_words(r, R.norm)), scl.Net(scl.map_words(h, R.norm))
        best = scl.best_cost(rn, hn, R)
        got = scl.explain_cost(rn, hn, p.items, R)
        ctx.count('alignments_judged')
        require(got is not None, 'not an alignment of the inputs\n ref %s\n hyp %s\n ali %s', scl.render(r), scl.render(h), p.items)
        require(got <= best + 0.0006 + 1e-6 * best, 'weighted alignment costs %.4f, %.4f is possible\n ref %s\n hyp %s\n ali %s', got, best, scl.render(r), scl.render(h), p.items)
        require(p.attrs.get('word_aux', '').split(',')[-2:] == ['r_weight', 'h_weight'], 'weights missing from the alignment: %s', p.attrs)
        for it in p.items:
            for side, v in ((1, it[-2]), (2, it[-1])):
                if it[side]:
                    require(v != '' and abs(float(v) - R.weight(it[side])) < 1e-5, 'weight of %s shown as %s, the list gives %r', it[side], v, R.weight(it[side]))
                    ctx.count('weights_judged')
                elif it[side] is None:
                    require(v == '', 'weight %s shown for no word in %s', v, it)
    # weighted report
    acc = []
    for s, ps in speakers:
        a = dict(ref=0., C=0., S=0., D=0., I=0., n=0, words=0)
        for p in ps:
            for it in p.items:
                wr = R.weight(it[1]) if it[1] else 0.
                wh = R.weight(it[2]) if it[2] else 0.
                a['words'] += it[0] != 'I'
                if it[0] == 'I':
                    a['I'] += wh
                elif it[0] == 'D':
                    a['D'] += wr
                    a['ref'] += wr
                elif it[0] == 'C':
                    a['C'] += wh
                    a['ref'] += wr
                else:
                    a['S'] += wr + wh
                    a['ref'] += wr
            a['n'] += 1
        acc.append((s, a))
    if any(a['S'] or a['D'] or a['I'] for _, a in acc):
        ctx.nontrivial('%s: %d listed words, %d utterances, %s' % (fmt, len(W), nu, [(s, round(a['ref'], 3)) for s, a in acc]))
    title, header, rows = reports.parse_sum(ctx.read('out.wws'))
    require([x[0] for x in rows][:len(acc)] == [s for s, _ in acc], 'weighted report rows %s', [x[0] for x in rows])
    tot = dict(ref=0., C=0., S=0., D=0., I=0., n=0, words=0)
    trunc = dict(tot)
    for _, a in acc:
        for k in a:
            tot[k] += a[k]
            trunc[k] = int(trunc[k] + a[k])

    def row(cells, a, name):
        if a['ref'] <= 0:
            return
        exp = [a['C'], a['S'], a['D'], a['I'], a['S'] + a['D'] + a['I']]
        require(int(float(cells[0])) == a['n'] and int(float(cells[1])) == a['words'], 'row %s: %s, alignments give %d sentences %d words', name, cells, a['n'], a['words'])
        for c, e, nm in zip(cells[2:7], exp, ('Corr', 'Sub', 'Del', 'Ins', 'Err')):
            reports.close(c, 100. * e / a['ref'], 'weighted %s of %s' % (nm, name), 0.0502)
            ctx.count('figures')
    for (s, a), (nm, cells) in zip(acc, rows):
        row(cells, a, s)
    try:
        row(rows[len(acc)][1], tot, 'Sum/Avg')
    except Violation as e:
        if trunc['ref'] > 0:
            row(rows[len(acc)][1], trunc, 'Sum/Avg (weights added up speaker by speaker and truncated to integers)')
        ctx.known_or_fail('weighted-sumavg-truncated', str(e))
    if all(a['ref'] > 0 for _, a in acc):
        names = [x[0] for x in rows]
        for nm, f in (('Mean', lambda v: sum(v) / len(v)), ('S.D.', lambda v: statistics.stdev(v) if len(v) > 1 else 0.), ('Median', statistics.median)):
            require(nm in names, 'no %s row', nm)
            cells = rows[names.index(nm)][1]
            for j, k in enumerate(('C', 'S', 'D', 'I')):
                reports.close(cells[2 + j], f([100. * a[k] / a['ref'] for _, a in acc]), 'weighted %s %s' % (nm, k), 0.0502)
