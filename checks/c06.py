"""C06: scoring time-marked words against time-marked words (ctm/ctm, word or time-mediated)."""
from vlib import build, scl, gen
from vlib.core import Violation, require

N_QUICK, N_THOROUGH = 8000, 100000
RULE = ('ctm references and hypotheses (one or two channels, several files, recogniser alternations, zero durations, jittered times, long '
        'channels that are scored in chunks) aligned by words and by time (-T); non-trivial = an alignment with an error, a time-mediated run or several chunks')
ASSUMPTIONS = ['times are multiples of 1/8 s', 'words of a channel are sorted by begin time', 'the alignment of a channel that is scored in chunks and holds alternations is judged for completeness, not for its cost']


def prepare():
    build.get('sclite', 'plain')


def T(x):
    return '%.3f' % (x / 8.0)


class TimeRules(scl.Rules):
    """words are 'text|t1|t2' in eighths of a second"""
    def parts(self, w):
        a, b, c = w.rsplit('|', 2)
        return a, int(b) / 8., int(c) / 8.

    def equal(self, a, b):
        return scl.Rules.equal(self, self.parts(a)[0], self.parts(b)[0])

    def is_od(self, w):
        return False

    def c_del(self, w):
        if w == '@':
            return 0.001
        _, s, e = self.parts(w)
        return e - s

    def c_sub(self, a, b):
        if a == '@' or b == '@':
            return 1e6
        x, s1, e1 = self.parts(a)
        y, s2, e2 = self.parts(b)
        return abs(s1 - s2) + abs(e1 - e2) + (0. if self.equal(a, b) else .001)


class WordRules(TimeRules):
    def c_del(self, w):
        return .001 if w == '@' else 3.0

    def c_sub(self, a, b):
        if a == '@' or b == '@':
            return 1e6
        return 0. if self.equal(a, b) else 4.


def case(ctx):
    rng = ctx.rng
    sclite = build.get('sclite')['sclite']
    tmode = rng.random() < .55
    case_s = rng.random() < .3
    V = gen.vocab(rng, 8, rng.choice(['en', 'letters', 'tiny']))
    long_ = rng.random() < .08
    chans = []
    for f in gen.names(rng, rng.choice([1, 1, 2, 3])):
        for c in rng.choice([['1'], ['a', 'b'], ['A'], ['1', '10'], ['ch', 'chx'], ['a', 'b', 'c'], ['1', '2', '3', '4']]):
            n = rng.choice([40, 90, 200]) if long_ else rng.choice([1, 2, 3, 5, 8, 12, 20])
            words = gen.sent(rng, V, n)
            t = rng.randint(0, 10)
            ref = []
            for w in words:
                d = rng.choice([0, 1, 1, 2, 4, 6]) if not long_ else rng.randint(1, 3)
                ref.append((t, t + d, w))
                t += d + rng.choice([0, 0, 1, 3])
                if long_:
                    t += rng.choice([0, 8])
            hyp = []
            for (s, e, w) in ref:
                r = rng.random()
                j = lambda x: max(0, x + rng.choice([0, 0, 0, 1, -1, 2, -3]))
                if r < .15:
                    continue
                a = j(s)
                hyp.append((a, max(a, j(e)), w if r < .8 else rng.choice(V)))
                if r > .92:
                    hyp.append((a + 1, a + 3, rng.choice(V)))
            hyp.sort(key=lambda x: (x[0], x[1]))
            if not hyp:
                hyp = [(ref[0][0], ref[0][1], rng.choice(V))]
            if not tmode and long_:
                # word mode: chunking is by time gaps; keep both sides sane
                pass
            cm = lambda lst: [(s, e, gen.case_mix(rng, w)) for s, e, w in lst]
            chans.append((f, c, units(rng, cm(ref), V, (long_ or len(words) <= 8) and rng.random() < .3), units(rng, cm(hyp), V, (long_ or len(words) <= 8) and rng.random() < .2)))

    def emit(side):
        s = ''
        for f, c, r, h in chans:
            for u in (r if side == 'r' else h):
                if isinstance(u, tuple):
                    s += '%s %s %s %s %s\n' % (f, c, T(u[0]), T(u[1] - u[0]), u[2])
                else:
                    for k, alt in enumerate(u):
                        s += '%s %s * * %s\n' % (f, c, '<ALT>' if k else '<ALT_BEGIN>')
                        for w in alt:
                            s += '%s %s %s %s %s\n' % (f, c, T(w[0]), T(w[1] - w[0]), w[2])
                    s += '%s %s * * <ALT_END>\n' % (f, c)
        return s
    ctx.write('r.ctm', emit('r'))
    ctx.write('h.ctm', emit('h'))
    if rng.random() < .06:      # the sides disagree about the channels: never score one channel against another
        how = rng.choice(['drop', 'rename', 'swap'])
        k = rng.randrange(len(chans))
        g = list(chans)
        if how == 'drop' and len(g) > 1:
            del g[k]
        elif how == 'swap' and len(g) > 1 and g[k - 1][:2] != g[k][:2]:
            g[k - 1], g[k] = g[k], g[k - 1]
        else:
            how = 'rename'
            g[k] = (g[k][0], g[k][1] + 'z') + g[k][2:]
        side = rng.choice('rh')
        keep, chans = chans, g
        ctx.write(side + '.ctm', emit(side))
        chans = keep
        r = ctx.run([sclite, '-r', 'r.ctm', 'ctm', '-h', 'h.ctm', 'ctm', '-o', 'sgml', 'stdout'] + (['-T'] if tmode else []) + (['-s'] if case_s else []))
        require(r.rc > 0, 'channels differ between the sides (%s %s of side %s) yet exit status %d', how, keep[k][:2], side, r.rc)
        ctx.count('refused')
        ctx.nontrivial('%s channel refused' % how)
        return
    r = ctx.ok([sclite, '-r', 'r.ctm', 'ctm', '-h', 'h.ctm', 'ctm', '-o', 'sgml', 'stdout'] + (['-T'] if tmode else []) + (['-s'] if case_s else []))
    base = scl.Rules(case_s)
    R = (TimeRules if tmode else WordRules)(case_s)
    spk = scl.parse_sgml(r.out)[0]['speakers']
    key = lambda w: base.norm(w[2]) + '|%d|%d' % (w[0], w[1])
    enc = lambda w: '@' if w[2] == '@' else key(w)
    fold = (lambda s: s) if case_s else str.lower
    require([s for s, _ in spk] == ['%s-%s' % (fold(f), fold(c)) for f, c, _, _ in chans], 'speakers %s', [s for s, _ in spk])
    ctx.seen(tmode, long_, len(chans), case_s)
    for (f, c, ru, hu), (s, ps) in zip(chans, spk):
        allit = []
        for k, p in enumerate(ps):
            require(p.id == '(%s-%s-%04d)' % (fold(f), fold(c), k), 'chunk id %s', p.id)
            require(p.attrs['file'] == fold(f) and p.attrs['channel'] == fold(c), 'file/channel of %s', p.id)
            its = []
            for it in p.items:
                def w(x, t):
                    if x is None:
                        return None
                    a, b = t.split('+')
                    return '%s|%d|%d' % (x, round(float(a) * 8), round(float(b) * 8))
                its.append((it[0], w(it[1], it[3]), w(it[2], it[4])))
            rw = [i[1] for i in its if i[1] is not None]
            hw = [i[2] for i in its if i[2] is not None]
            linear = all(isinstance(u, tuple) for u in ru + hu)
            if linear:
                got = linear_cost(its, R)
                best = linear_best(rw, hw, R)
            elif long_:
                got = best = 0.     # (which alternations a chunk holds is not reported: the whole channel is judged below)
            else:
                require(len(ps) == 1, 'short channel split in %d', len(ps))
                rn, hn = net(ru, enc), net(hu, enc)
                got = scl.explain_cost(rn, hn, its, R)
                best = scl.best_cost(rn, hn, R)
                require(got is not None, '%s: %s is not an alignment of the input', p.id, its)
            ctx.count('alignments')
            ctx.count('words', len(its))
            require(got <= best + .0007 + 2e-5 * len(its), '%s (%s): cost %.4f, possible %.4f: %s', p.id, 'time' if tmode else 'word', got, best, its[:40])
            allit += its
            if tmode or any(i[0] != 'C' for i in its) or len(ps) > 1:
                ctx.nontrivial('%s %s: %s' % (p.id, 'time' if tmode else 'word', ''.join(i[0] for i in its)[:80]))
        if long_ and not all(isinstance(u, tuple) for u in ru + hu):
            require(scl.explain_cost(net(ru, enc), net(hu, enc), allit, R) is not None, '%s: the chunks are not an alignment of the input: %s', s, allit[:60])
            ctx.count('chunked_alternations', len(ps))
        if all(isinstance(u, tuple) for u in ru):
            require([i[1] for i in allit if i[1] is not None] == [enc(u) for u in ru], '%s: reference words/times not conserved', s)
        if all(isinstance(u, tuple) for u in hu):
            require([i[2] for i in allit if i[2] is not None] == [enc(u) for u in hu], '%s: hypothesis words/times not conserved', s)


def net(us, enc):
    return scl.Net([enc(u) if isinstance(u, tuple) else [[enc(w) for w in a] for a in u] for u in us])


def units(rng, lst, V, alts):
    if not alts:
        return lst
    out = []
    i = 0
    while i < len(lst):
        if rng.random() < .2:
            k = min(len(lst) - i, rng.randint(1, 2))
            w = lst[i]
            out.append([lst[i:i + k], [(w[0], w[1], rng.choice(V))] if rng.random() < .6 else [(w[0], w[1], '@')]])
            i += k
        else:
            out.append(lst[i])
            i += 1
    return out


def linear_cost(its, R):
    c = 0.
    for ev, a, b in its:
        if ev == 'D':
            c += R.c_del(a)
        elif ev == 'I':
            c += R.c_del(b)
        else:
            require((ev == 'C') == R.equal(a, b), 'pair %s / %s labelled %s', a, b, ev)
            c += R.c_sub(a, b)
    return c


def linear_best(a, b, R):
    prev = [0.]
    for y in b:
        prev.append(prev[-1] + R.c_del(y))
    for x in a:
        dx = R.c_del(x)
        cur = [prev[0] + dx]
        for j, y in enumerate(b):
            cur.append(min(prev[j] + R.c_sub(x, y), prev[j + 1] + dx, cur[j] + R.c_del(y)))
        prev = cur
    return prev[-1]
