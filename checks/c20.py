"""C20: asclite's resource options never change the result, and its cost options change it exactly as documented."""
from vlib import build, scl, gen, asc
from vlib.asc import ms
from vlib.core import Violation, require
from checks import c19

N_QUICK, N_THOROUGH = 20000, 80000
RULE = ('inputs of C19 run plain and with memory compression (blocks of 1-256 KB, memory limits down to a few KB), threads, wide time windows, and with '
        'speaker maps, narrow word windows, adaptive and word-distance costs, overlap limits; non-trivial = the option had something to do')
ASSUMPTIONS = c19.ASSUMPTIONS


def prepare():
    build.get('asclite', 'plain')


def editd(a, b):
    p = list(range(len(b) + 1))
    for i, x in enumerate(a):
        q = [i + 1]
        for j, y in enumerate(b):
            q.append(min(p[j] + (x != y), p[j + 1] + 1, q[-1] + 1))
        p = q
    return p[-1]


class Model:
    """Costs in hundredths."""
    def __init__(self, window=None, adapt=False, spk=None, dist=False):
        self.window, self.adapt, self.spk, self.dist = window, adapt, spk, dist
        self.hits = set()

    def gap(self, sg, k, tk):
        a, b = sg.wtimes[k] if sg.wtimes is not None else (sg.t1, sg.t2)
        return tk.t1 - b if b < tk.t1 else a - tk.t2 if tk.t2 < a else 0

    def pair(self, w, h, sg, k, tk, g, R):
        gp = self.gap(sg, k, tk)
        if self.window is not None and gp > self.window:
            self.hits.add('window')
            return None
        c = 0
        if R.equal(w, h):
            if self.spk is not None and self.spk.get((tk.file, tk.chan, tk.spk)) != sg.spk:
                self.hits.add('speaker')
                c += 100
        else:
            c += 400
            if self.dist:
                self.hits.add('distance')
                c += editd(R.strip(w, 'r'), R.strip(h, 'h'))
        if self.adapt and gp:
            a = min([s.t1 for s in g] + [t.t1 for t in self.toks(g)])
            b = max([s.t2 for s in g] + [t.t2 for t in self.toks(g)])
            self.hits.add('adaptive')
            c += 50 * gp // (b - a)
        return c

    def toks(self, g):
        key = (g[0].file, g[0].chan)
        a, b = min(s.t1 for s in g), max(s.t2 for s in g)
        return [t for t in self.all if (t.file, t.chan) == key and a <= t.mid() < b]

    def item(self, it, p, sg, k, tk, g, R):
        if self.spk is None or not it[1] or not it[2]:
            base = asc.item_cost(it, R)
            if not it[1] or not it[2]:
                return 100 * base
        if self.spk is not None:
            eq = R.equal(it[1], it[2])
            same = self.spk.get((tk.file, tk.chan, tk.spk)) == sg.spk
            require((it[0] == 'C') == (eq and same), 'pair %r / %r, speaker %s of %s mapped to %s: reported as %s', it[1], it[2], tk.spk, sg.spk,
                    self.spk.get((tk.file, tk.chan, tk.spk)), it[0])
            cols = p.attrs.get('word_aux', '').split(',')
            require('h_isSpkrSub' in cols and 'h_spkr' in cols, 'word_aux lists no speaker columns: %s', cols)
            require(it[3 + cols.index('h_spkr')] == tk.spk, 'word %r of speaker %s reported with speaker %s', it[2], tk.spk, it[3 + cols.index('h_spkr')])
            require((it[3 + cols.index('h_isSpkrSub')] == 'true') == (eq and not same), 'pair %r / %r: speaker substitution flag is %s', it[1], it[2], it[3 + cols.index('h_isSpkrSub')])
        c = self.pair(it[1], it[2], sg, k, tk, g, R)
        require(c is not None, 'words %r / %r are further apart than %s ms', it[1], it[2], self.window)
        return c


def case(ctx):
    rng = ctx.rng
    exe = build.get('asclite')['asclite']
    V = gen.vocab(rng, rng.choice([2, 3, 6]), 'en')
    kind = rng.choice(['same', 'same', 'spk', 'window', 'adaptive', 'distance', 'overlap', 'mix'])
    rr, hr = rng.choice([(False, False), (False, False), (False, True), (True, True)])
    if kind in ('spk', 'mix'):
        hr = True
    opt = rng.choice(['none', 'none', 'ref', 'hyp', 'both'])
    wo = rng.random() < .3
    R = asc.Rules(False, False, opt)
    files = [(f, rng.choice([['1'], ['1'], ['1', '2'], ['A', 'B']])) for f in gen.names(rng, rng.choice([1, 1, 2]))]
    if rng.random() < .006:         # one word per speaker: blocks of a few bytes, which no compression makes smaller
        kind, rr, hr = 'same', False, True
        segs = [asc.Seg('f', '1', 's%d' % i, 0, 2000, [rng.choice(V)]) for i in range(4)]
        toks = [asc.Tok('f', '1', 'h%d' % i, 500 + 100 * i, 550 + 100 * i, rng.choice(V), None) for i in range(3)]
        files = []
        tight = True
    else:
        tight = False
        segs = c19.gen_ref(rng, V, files, not rr, rr, wo)
        toks = c19.gen_hyp(rng, V, segs, files, hr, True, wo)
    if not toks or all(s.ign for s in segs):
        ctx.count('no_words')
        return
    base = [exe] + c19.write_ref(ctx, segs, rr, rng) + c19.write_hyp(ctx, toks, hr) + ['-noisg', '-f', '0', '-o', 'sgml', 'rsum', 'stdout']
    base += ['-D', opt] if opt != 'none' else []
    if kind == 'same':
        extra = []
        r0 = ctx.run(base)
        require(r0.rc == 0, 'exit status %d\n%s', r0.rc, (r0.err + r0.out)[-800:])
        if tight:
            extra = ['-force-memory-compression', '-memory-compression', '1', '-memory-limit', '0.000001']
        elif rng.random() < .7:
            extra += ['-force-memory-compression']
            cells = 0
            for g in asc.grouping(segs):
                a, b = min(s.t1 for s in g), max(s.t2 for s in g)
                n = 1
                for k in {s.spk for s in g}:
                    n *= 1 + sum(len(list(scl.flat_words(s.spec))) for s in g if s.spk == k)
                tk = [t for t in toks if (t.file, t.chan) == (g[0].file, g[0].chan) and a <= t.mid() < b]
                for k in {t.spk for t in tk}:
                    n *= 1 + sum(t.spk == k for t in tk)
                cells = max(cells, n)
            if cells <= 120:        # a tiny limit makes every access compress a block: keep such runs small
                extra += ['-memory-compression', str(rng.choice([1, 1, 2, 16, 256]))] if rng.random() < .9 else []
                extra += ['-memory-limit', rng.choice(['0.0000002', '0.0000005', '0.000001', '0.000004', '0.001', '2'])] if rng.random() < .8 else []
            elif cells <= 3000:
                extra += ['-memory-compression', str(rng.choice([1, 2, 16, 256]))] if rng.random() < .8 else []
                extra += ['-memory-limit', rng.choice(['0.00001', '0.0001', '0.001', '2'])]
            else:
                extra += ['-memory-compression', '64', '-memory-limit', '0.01']
            ctx.count('compressed_cells', cells)
        if rng.random() < .3:
            extra += ['-threads', str(rng.randint(1, 8))]
        if rng.random() < .3:
            extra += ['-time-prune', '100000000']
        if rng.random() < .3:
            extra += ['-word-time-align', '100000000']
        if rng.random() < .2:
            extra += ['-difficulty-limit', '16']
        if rng.random() < .2:
            extra += ['-overlap-limit', '4']
        if rng.random() < .2:
            extra += ['-min-difficulty-limit', '0']
        r1 = ctx.run(base + extra, timeout=100)
        require(r1.rc == 0, 'exit status %d with %s\n%s', r1.rc, extra, (r1.err + r1.out)[-800:])
        cut = lambda s: [l for l in s.splitlines() if 'creation_date' not in l]
        a, b = cut(r0.out), cut(r1.out)
        if a != b:
            d = [(x, y) for x, y in zip(a, b) if x != y][:2] or [(a[len(b):][:1], b[len(a):][:1])]
            raise Violation('%s changes the result: %s' % (' '.join(extra), d))
        ctx.count('compared_lines', len(a))
        ctx.seen('same', tuple(extra))
        if extra:
            ctx.nontrivial(' '.join(extra))
        return
    m = Model()
    m.all = toks
    extra = []
    lim = (0, 4)
    if kind in ('spk', 'mix'):
        m.spk = {}
        lines = []
        for (f, c, k) in sorted({(t.file, t.chan, t.spk) for t in toks}):
            rs = sorted({s.spk for s in segs if (s.file, s.chan) == (f, c)})
            if rng.random() < .85:
                to = rng.choice(rs)
                m.spk[(f, c, k)] = to
                for x in rs:
                    if x == to or rng.random() < .5:
                        lines.append('%s,%s,%s,%s,%s,%.4f\n' % (f, c, x, k, 'mapped' if x == to else 'notmapped', rng.random() * 9))
        ctx.write('map.csv', ('File,Channel,RefSpeaker,SysSpeaker,isMapped,timeOverlap\n' if rng.random() < .9 else '# none\n') + ''.join(lines))
        extra += ['-spkr-align', 'map.csv']
    if kind in ('window', 'mix'):
        m.window = rng.choice([0, 1, 50, 200, 1000])
        extra += ['-word-time-align', str(m.window)]
    if kind in ('adaptive', 'mix'):
        m.adapt = True
        extra += ['-adaptive-cost']
    if kind in ('distance',) or kind == 'mix' and rng.random() < .5:
        m.dist = True
        extra += ['-wordalign-cost']
    if kind == 'overlap':
        lim = (rng.choice([0, 0, 1, 2]), rng.choice([0, 1, 2, 3, 4]))
        extra += ['-overlap-limit', str(lim[1])] + (['-overlap-min', str(lim[0])] if lim[0] else [])
    r = ctx.run(base + extra)
    allg = asc.grouping(segs)
    allowed = []
    score = [g for g in allg if not any(s.ign for s in g) and lim[0] <= len({s.spk for s in g}) <= lim[1]]
    for g in score:
        allowed += g
    if not allowed:
        require(r.rc == 0, 'exit status %d\n%s', r.rc, (r.err + r.out)[-800:])
        require('<PATH' not in r.out, 'segments scored outside the overlap limits %s', lim)
        ctx.count('nothing_scored')
        return
    require(r.rc == 0, 'exit status %d\n%s', r.rc, (r.err + r.out)[-800:])
    by = c19.parse_paths(r, segs, allowed) if '<SYSTEM' in r.out else {}
    for g in score:
        a, b = min(s.t1 for s in g), max(s.t2 for s in g)
        tk = [t for t in toks if (t.file, t.chan) == (g[0].file, g[0].chan) and a <= t.mid() < b]
        asc.judge_group(ctx, g, tk, None, R, str.lower, by, 40000, m)
    for s in allowed:
        require(not s.spec or id(s) in by, 'segment %s %s %s not reported', s.file, s.spk, ms(s.t1))
    ctx.seen(kind, tuple(sorted(m.hits)), rr, hr, opt, lim)
    if m.hits or kind == 'overlap' and len(score) < len(allg):
        ctx.nontrivial('%s %s' % (' '.join(extra), sorted(m.hits)))
