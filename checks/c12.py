"""C12: character encodings, language case rules and character-level alignment (-e, -c) of sclite."""
from vlib import build, scl, gen
from vlib.core import require

N_QUICK, N_THOROUGH = 16000, 80000
RULE = ('random utterances of words over the letters of each supported encoding and language profile (case mixed at random), scored as words and, with -c [NOASCII] [DH], as characters, through trn/trn and stm/ctm with and without -s; '
        'alternatives nest; non-trivial = at least one aligned multi-byte or split word')
ASSUMPTIONS = ['words hold no syntax characters of the formats ({ } / @ ; ( ) " \\ and a final *)', 'words of -c are not optional words or fragments']
LOWER = {
    'generic': '',
    'babel_turkish': 'çöüiığş',
    'babel_lithuanian': 'ąčęėįšųūž',
    'babel_kurmanji': 'çêîûş',
    'babel_cebuano': 'ñ',
    'babel_kazakh': 'аәбвгғдеёжзийкқлмнңоөпрстуұүфхһцчшщъыіьэюя',
    'babel_mongolian': 'ёабвгдежзийклмнопрстуфхцчшщъыьэюяүө',
    'babel_vietnamese': 'đáàảãạăắằẳẵặâấầẩẫậéèẻẽẹêếềểễệíìỉĩịóòỏõọơớờởỡợôốồổỗộúùủũụưứừửữựýỳỷỹỵ',
    'babel_guarani': 'ãáẽéĩíõóũúỹýñ',
    'ukrainian': 'абвгґдеєжзиіїйклмнопрстуфхцчшщьюяыэъёӑӓҽөҡѫђѕџљњћўѣҙӂҵ',
}
CASELESS = '中文字日本語كتاب€ভাष😀한글'


def prepare():
    build.get('sclite', 'plain')


def pairs(prof):
    d = {}
    for c in LOWER[prof]:
        u = {'i': 'İ', 'ı': 'I'}.get(c, c.upper()) if prof == 'babel_turkish' else c.upper()
        d[u] = c
    for c in 'abcdefghijklmnopqrstuvwxyz':
        if not (prof == 'babel_turkish' and c == 'i'):
            d[c.upper()] = c
    return d


def case(ctx):
    rng = ctx.rng
    sclite = build.get('sclite')['sclite']
    enc = rng.choice(['utf-8', 'utf-8', 'utf-8', 'utf-8', 'gb', 'euc', 'ext_ascii', 'ascii', None])
    prof = rng.choice(sorted(LOWER)) if enc == 'utf-8' else 'generic'
    case_s = rng.random() < .3
    chars = rng.random() < .65
    noascii, dh = chars and rng.random() < .5, chars and rng.random() < .4
    low = pairs(prof)                                       # upper -> lower
    if enc == 'ext_ascii':
        low.update({chr(c): chr(c + 32) for c in range(192, 224)})
    up = {v: k for k, v in low.items()}
    if enc == 'utf-8':
        special = list(LOWER[prof]) + list(CASELESS)
        if prof == 'babel_guarani':
            special += ['g\u0303'] * 4
            low['G\u0303'], up['g\u0303'] = 'g\u0303', 'G\u0303'
        codec = 'utf-8'
    elif enc in ('gb', 'euc'):
        special = [bytes([rng.randrange(0xb0, 0xf7), rng.randrange(0xa1, 0xfe)]) for _ in range(6)]
        special += [bytes([0xc4, 0xe4]), bytes([0xe4, 0xc4])]
        special = [s.decode('latin-1') for s in special]   # two characters that stand for one
        codec = 'latin-1'
    elif enc == 'ext_ascii':
        special = [chr(c) for c in range(224, 256)] + [chr(c) for c in range(161, 192)]
        codec = 'latin-1'
    else:
        special = [chr(c) for c in rng.sample(range(161, 256), 8)]
        codec = 'latin-1'
    asc = list("abcdeghik") + rng.sample(list(".'_%+=:!?0123456789-&#"), 4)
    mix = rng.choice([.2, .5, .8, 1])

    def word():
        n = rng.choice([1, 1, 2, 3, 4, 6, 9]) if rng.random() < .98 else 60
        w = tuple(rng.choice(special) if rng.random() < mix else rng.choice(asc) for _ in range(n))
        if all(c == '-' for c in w) or w[0] in '!#:=-' or w[-1] == '-':
            w = ('k',) + w + ('k',)
        return w
    # a word is a tuple of characters; the unified text is the join
    words = [word() for _ in range(rng.randint(2, 9))]
    for _ in range(rng.randint(0, 3)):                      # words that differ in one character
        w = list(rng.choice(words))
        w[rng.randrange(len(w))] = rng.choice(special)
        words.append(tuple(w))
    V = {}
    for w in words:
        V.setdefault(''.join(w), w)
    names = sorted(V)
    swap = rng.choice([0, .3, .5])

    def mixcase(w):
        return tuple(up[c] if c in up and rng.random() < swap else c for c in w)

    def fold(c):
        return c if case_s else low.get(c, c)

    def split(w):
        """word -> the tokens that are aligned"""
        if not chars:
            return [''.join(fold(c) for c in w)]
        out, last = [], False
        cs = [fold(c) for c in w]      # the text is folded before it is split
        if enc in (None, 'ascii', 'ext_ascii', 'gb', 'euc'):
            isa = lambda c: True if enc in (None, 'ascii', 'ext_ascii') else len(c) == 1
        else:
            isa = lambda c: c.isascii()
        if len(''.join(cs).encode(codec)) <= 1:
            return [''.join(cs)]
        for c in cs:
            if dh and c == '-':
                continue
            if noascii and out and isa(c) and last:
                out[-1] += c
            else:
                out.append(c)
            last = isa(c)
        return out
    utts = []

    def mapspec(spec, f):
        r = []
        for it in spec:
            if isinstance(it, str):
                r += [it] if it == '@' else f(it)
            else:
                r.append([mapspec(a, f) for a in it])
        return r
    multi = False
    times = rng.random() < .4
    nu = rng.randint(1, 4)
    alphabet = rng.random() < .35
    for k in range(nu + alphabet):
        if k == nu:                                         # every letter of the encoding or profile as a word
            letters = sorted(set(special) | set('abcdefghijklmnopqrstuvwxyz'))
            V.update((c, (c,)) for c in letters)
            ref = rng.sample(letters, min(len(letters), 40)) if rng.random() < .5 else letters
            hyp = list(ref)
        else:
            ref = gen.with_alts(rng, gen.sent(rng, names, rng.choice([0, 1, 2, 4, 7])), names, rng.choice([0, .3]), 2)
            hyp = gen.mutate(rng, gen.expand(rng, ref), names)
        inst = {}

        def tag(w, inst=inst):
            t = '\x01%d' % len(inst)
            inst[t] = mixcase(V[w])
            return [t]
        rt, ht = mapspec(ref, tag), mapspec(hyp, tag)
        txt = lambda s: mapspec(s, lambda t: [''.join(inst[t])])
        tok = lambda s: mapspec(s, lambda t: split(inst[t]))
        utts.append((scl.render(txt(rt)), txt(ht), tok(rt), tok(ht), [split(inst[t]) for t in ht]))
        multi |= any(len(split(v)) > 1 for v in inst.values()) if chars else any(not ''.join(v).isascii() for v in inst.values())
    opts = ['-s'] if case_s else []
    if enc:
        opts += ['-e', rng.choice([enc, enc.upper()])]
        if enc == 'utf-8' and (prof != 'generic' or rng.random() < .3):
            opts.append(prof)
    if chars:
        opts += ['-c'] + (['NOASCII'] if noascii else []) + (['DH'] if dh else [])
    ids = ['s-%03d' % k for k in range(len(utts))]
    if times:
        stm, ctm, T = '', '', []
        for k, u in enumerate(utts):
            stm += 'f 1 s %d %d %s\n' % (k * 100, k * 100 + 100, u[0])
            tl = []
            t = k * 100 + 1.
            for w, sp in zip(u[1], u[4]):
                d = rng.choice([.1, .3, .77])
                ctm += 'f 1 %.2f %.2f %s\n' % (t, d, w)
                tl += [(t + d * i / len(sp), t + d * (i + 1) / len(sp)) for i in range(len(sp))]
                t += rng.choice([.8, 1, 2])
            T.append(tl)
        if not ctm:
            return
        ctx.write('r', stm.encode(codec))
        ctx.write('h', ctm.encode(codec))
        cmd = [sclite, '-r', 'r', 'stm', '-h', 'h', 'ctm']
    else:
        ctx.write('r', ''.join('%s (%s)\n' % (u[0], i) for u, i in zip(utts, ids)).encode(codec))
        ctx.write('h', ''.join('%s (%s)\n' % (' '.join(u[1]), i) for u, i in zip(utts, ids)).encode(codec))
        cmd = [sclite, '-r', 'r', 'trn', '-h', 'h', 'trn', '-i', 'spu_id']
    r = ctx.ok(cmd + opts + ['-o', 'sgml', 'stdout'], enc=codec)
    P = [p for _, ps in scl.parse_sgml(r.out)[0]['speakers'] for p in ps]
    require(len(P) == len(utts), '%d utterances, expected %d', len(P), len(utts))
    R = scl.Rules(True)
    if not times:
        d = {p.id: p for p in P}
        P = [d['(%s)' % i] for i in ids]
    for k, (p, u) in enumerate(zip(P, utts)):
        def norm(w):
            return ''.join(fold(c) for c in chunk(w, low)) if w else w
        items = [(it[0], norm(it[1]), norm(it[2])) for it in p.items]
        for it in items:
            require(it[0] != 'C' or it[1] == it[2], '%s: %s and %s scored as matching', p.id, it[1], it[2])
            require(it[0] != 'S' or it[1] != it[2], '%s: %s and %s scored as different', p.id, it[1], it[2])
        rn, hn = scl.Net(u[2]), scl.Net(u[3])
        c = scl.explain_cost(rn, hn, items, R)
        require(c is not None, '%s: %s is not an alignment of %s and %s', p.id, items, u[2], u[3])
        b = scl.best_cost(rn, hn, R)
        require(abs(c - b) < .01, '%s: alignment %s costs %.3f, the best costs %.3f', p.id, items, c, b)
        ctx.count('tokens', len(items))
        require((p.attrs.get('char_align') == '1') == chars, '%s: char_align=%s', p.id, p.attrs.get('char_align'))
        if times:
            aux = p.attrs['word_aux'].split(',').index('h_t1+t2')
            got = [tuple(float(x) for x in it[3 + aux].split('+')) for it in p.items if it[0] != 'D']
            require(len(got) == len(T[k]) and all(abs(a - x) < .0021 and abs(b - y) < .0021 for (a, b), (x, y) in zip(got, T[k])), '%s: times %s, expected %s', p.id, got[:8], T[k][:8])
    ctx.seen(enc, prof, chars, noascii, dh, case_s, times)
    if multi:
        ctx.nontrivial('%s %s -c %s: %s' % (enc, prof, [chars, noascii, dh], utts[0][0][:60]))


def chunk(w, low):
    out, i = [], 0
    while i < len(w):
        n = 2 if w[i:i + 2] in low else 1
        out.append(w[i:i + n])
        i += n
    return out
