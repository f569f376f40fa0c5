"""C13: inferred word segmentation (-S algo1 | algo2 lexicon [ASCIITOO]) of sclite."""
from vlib import build, scl, gen
from vlib.core import require

N_QUICK, N_THOROUGH = 20000, 120000
RULE = ('random utterances of words over multi-byte and ASCII characters, whose segmentation into words differs between reference and hypothesis, with random lexicons of sequences of their characters, scored with -S algo1 and algo2, with and without ASCIITOO and -s, through trn/trn and stm/ctm, alternatives nest; '
        'non-trivial = at least one aligned word of the re-segmented side joins two or more units')
ASSUMPTIONS = ['words hold no syntax characters of the formats', 'the lexicon is sorted by bytes, and in one case unless -s is used',
               'the re-segmented side has no null alternatives, optional words or fragments']


def prepare():
    build.get('sclite', 'plain')


def unfold(spec, f):
    r = []
    for it in spec:
        if isinstance(it, str):
            r += [it] if it == '@' else f(it)
        else:
            r.append([unfold(a, f) for a in it])
    return r


def connect(net, lex):
    """add an arc for each sequence of consecutive units that is a word of the lexicon"""
    longest = max([len(w) for w in lex], default=0)
    new = set()

    def walk(start, node, text, k):
        if k > 1 and text in lex:
            new.add((start, node, text))
        if len(text) >= longest:
            return
        for v, w in net.out[node]:
            if w is None:
                walk(start, v, text, k)
            else:
                walk(start, v, text + w, k + 1)
    for u in range(net.n_nodes):
        walk(u, u, '', 0)
    net.arcs += sorted(new)
    net._order()
    return net


def case(ctx):
    rng = ctx.rng
    sclite = build.get('sclite')['sclite']
    enc = rng.choice(['utf-8', 'gb', 'gb', 'euc'])
    algo = rng.choice([1, 2])
    too = rng.random() < .4
    case_s = rng.random() < .3
    times = rng.random() < .4
    if enc == 'utf-8':
        special = rng.sample('中文字日本語上下人大小東西南北', rng.choice([2, 3, 6])) + rng.sample('éñ€한', rng.choice([0, 1]))
        codec = 'utf-8'
    else:
        # a character of two bytes; each stands for one private character here
        special = [bytes([rng.randrange(0xb0, 0xf7), rng.randrange(0xa1, 0xfe)]) for _ in range(rng.choice([2, 3, 6]))]
        codec = 'latin-1'
    asc = list(rng.choice(['ab', 'abcd', "a'b", 'abc9']))
    mix = rng.choice([.3, .7, .9, 1])
    A = {}                                                  # letter of this check -> text in the file
    for i, s in enumerate(sorted(set(special))):
        A[chr(0xe000 + i)] = s if enc == 'utf-8' else s.decode('latin-1')
    sp = sorted(A)
    enc_word = lambda w: ''.join(A.get(c, c) for c in w)
    B = sorted(((v, k) for k, v in A.items()), key=lambda x: -len(x[0]))

    def dec_word(t):
        if t is None:
            return None
        out, i = '', 0
        while i < len(t):
            for v, k in B:
                if t.startswith(v, i):
                    out += k
                    i += len(v)
                    break
            else:
                out += t[i]
                i += 1
        return out

    def chars(n):
        return ''.join(rng.choice(sp) if rng.random() < mix else rng.choice(asc) for _ in range(n))

    def units(w):
        if len(w) == 1:
            return [w]
        out = []
        for c in w:
            if not too and out and c in asc_all and out[-1][-1] in asc_all:
                out[-1] += c
            else:
                out.append(c)
        return out
    asc_all = set('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789\'')

    def cut(text):
        out = []
        while text:
            n = min(len(text), rng.choice([1, 1, 2, 2, 3, 5]))
            out.append(text[:n])
            text = text[n:]
        return out
    fold = (lambda w: w) if case_s else (lambda w: w.lower())
    swap = rng.choice([0, 0, .3])
    mixcase = lambda w: ''.join(c.upper() if c.isascii() and rng.random() < swap else c for c in w)
    utts = []
    lex = set()
    for k in range(rng.randint(1, 4)):
        text = chars(rng.choice([0, 1, 3, 6, 10, 16]))
        fixed = cut(text)
        t2 = list(text)
        for _ in range(rng.choice([0, 0, 1, 2, 4])):
            op = rng.random()
            i = rng.randrange(len(t2) + 1)
            if op < .35 or not t2:
                t2.insert(i, rng.choice(sp + asc))
            elif op < .7:
                del t2[min(i, len(t2) - 1)]
            else:
                t2[min(i, len(t2) - 1)] = rng.choice(sp + asc)
        free = cut(''.join(t2))
        names = (fixed + free + [chars(2)])
        fixed = [mixcase(w) for w in fixed]
        free = [mixcase(w) for w in free]
        fs = gen.with_alts(rng, fixed, names, rng.choice([0, 0, .25]), 2)
        gs = free
        if not times or algo == 2:
            gs = gen.with_alts(rng, free, names, rng.choice([0, 0, .2]), 1)
            gs = noat(gs, names[-1])
        if times and algo == 2:
            fs = fixed                                      # the hypothesis is a plain ctm
        utts.append((fs, gs))
        us = unfold([w for w in scl.flat_words(gs)], lambda w: units(fold(w)))
        for _ in range(rng.choice([0, 2, 5])):
            if us:
                i = rng.randrange(len(us))
                lex.add(''.join(us[i:i + rng.choice([1, 2, 2, 3, 4, 6])]))
        lex |= {fold(w) for w in scl.flat_words(fs) if w != '@' and rng.random() < .6}
    lex |= {chars(rng.choice([1, 2, 3])) for _ in range(rng.choice([0, 3, 30]))}
    lex.discard('')
    if rng.random() < .03:
        lex = set()
    L = sorted(enc_word(w).encode(codec) for w in lex)
    L = [w + rng.choice([b'', b'', b' 12', b'\tx y', b' ']) for w in L]
    ctx.write('lex', b''.join(w + b'\n' for w in L))
    ids = ['s-%03d' % k for k in range(len(utts))]
    rend = lambda s: scl.render(scl.map_words(s, enc_word))
    T = []
    if times:
        stm = ctm = ''
        for k, (fs, gs) in enumerate(utts):
            ref, hyp = (fs, gs) if algo == 1 else (gs, fs)
            stm += 'f 1 s %d %d %s\n' % (k * 100, k * 100 + 100, rend(ref))
            t = k * 100 + 1.
            tl = []
            for w in hyp:
                d = rng.choice([.1, .3, .77])
                ctm += 'f 1 %.2f %.2f %s\n' % (t, d, enc_word(w))
                u = units(fold(w)) if algo == 1 else [fold(w)]
                tl += [(x, t + d * i / len(u), t + d * (i + 1) / len(u)) for i, x in enumerate(u)]
                t += rng.choice([.8, 1, 2])
            T.append(tl)
        if not ctm:
            return
        ctx.write('r', stm.encode(codec))
        ctx.write('h', ctm.encode(codec))
        cmd = [sclite, '-r', 'r', 'stm', '-h', 'h', 'ctm']
    else:
        R2 = lambda side: ''.join('%s (%s)\n' % (rend(u[side]), i) for u, i in zip(utts, ids)).encode(codec)
        ctx.write('r', R2(0 if algo == 1 else 1))
        ctx.write('h', R2(1 if algo == 1 else 0))
        cmd = [sclite, '-r', 'r', 'trn', '-h', 'h', 'trn', '-i', 'spu_id']
    cmd += ['-e', enc] + (['-s'] if case_s else []) + ['-S', 'algo%d' % algo, 'lex'] + (['ASCIITOO'] if too else [])
    r = ctx.ok(cmd + ['-o', 'sgml', 'stdout'], enc=codec)
    P = [p for _, ps in scl.parse_sgml(r.out)[0]['speakers'] for p in ps]
    require(len(P) == len(utts), '%d utterances, expected %d', len(P), len(utts))
    if not times:
        d = {p.id: p for p in P}
        P = [d['(%s)' % i] for i in ids]
    R = scl.Rules(True)
    R.norm = lambda w: w
    joined = 0
    for k, (p, (fs, gs)) in enumerate(zip(P, utts)):
        norm = lambda w: fold(dec_word(w)) if w else w
        items = [(it[0], norm(it[1]), norm(it[2])) for it in p.items]
        for it in items:
            require(it[0] != 'C' or it[1] == it[2], '%s: %s and %s scored as matching', p.id, it[1], it[2])
            require(it[0] != 'S' or it[1] != it[2], '%s: %s and %s scored as different', p.id, it[1], it[2])
        F = scl.Net(scl.map_words(fs, fold))
        G = connect(scl.Net(unfold(gs, lambda w: units(fold(w)))), lex)
        rn, hn = (F, G) if algo == 1 else (G, F)
        c = scl.explain_cost(rn, hn, items, R)
        show = [(a, enc_word(x or ''), enc_word(y or '')) for a, x, y in items]
        require(c is not None, '%s: %s is not an alignment of %s and %s (re-segmented) with the lexicon %s', p.id, show, rend(fs), rend(gs), L[:30])
        b = scl.best_cost(rn, hn, R)
        require(abs(c - b) < .01, '%s: alignment %s costs %.3f, the best of %s and %s (re-segmented) costs %.3f', p.id, show, c, rend(fs), rend(gs), b)
        ctx.count('words', len(items))
        side = 2 if algo == 1 else 1
        j = sum(1 for it in items if it[side] and len(units(it[side])) > 1)
        joined += j
        if times:
            aux = p.attrs['word_aux'].split(',').index('h_t1+t2')
            n = 0
            for it, x in zip(p.items, items):
                if it[0] == 'D':
                    continue
                a, b = (float(y) for y in it[3 + aux].split('+'))
                m, t = n, ''
                while len(t) < len(x[2]) and m < len(T[k]):
                    t += T[k][m][0]
                    m += 1
                require(t == x[2], '%s: word %s at unit %d', p.id, enc_word(x[2]), n)
                require(abs(a - T[k][n][1]) < .0021 and abs(b - T[k][m - 1][2]) < .0021, '%s: word %s is at %s-%s, expected %s-%s', p.id, enc_word(x[2]), a, b, T[k][n][1], T[k][m - 1][2])
                n = m
    ctx.count('joined', joined)
    ctx.seen(enc, algo, too, case_s, times)
    if joined:
        ctx.nontrivial('algo%d %s %s: %s | %s' % (algo, enc, too, rend(utts[0][0])[:40], rend(utts[0][1])[:40]))


def noat(spec, w):
    return [(w if it == '@' else it) if isinstance(it, str) else [noat(a, w) for a in it] for it in spec]
