"""C02: every alignment reproduces the hypothesis and a reading of the reference, word for word, in every input format."""
from vlib import build, scl, gen
from vlib.core import Violation, require

N_QUICK, N_THOROUGH = 30000, 120000
RULE = ('random utterances with hostile spellings (punctuation, very long words, digits, 8-bit and UTF-8 text) scored through '
        'trn/trn, stm/ctm, stm/txt (-d) and trn/trn -d; non-trivial = at least one utterance with a non-empty alignment')
ASSUMPTIONS = ['words contain no double quote, backslash, semicolon, braces, slash, at-sign or parentheses: these are syntax of the formats; words up to 450 characters (ctm fields are limited to 500)']

PUNCT = "!#$%&'+,-.:<=>?[]^_`|~"


def prepare():
    build.get('sclite', 'plain')


def weird_vocab(rng, utf8):
    V = []
    for _ in range(rng.randint(2, 12)):
        k = rng.random()
        if k < .35:
            w = ''.join(rng.choice('abcdefghij' + PUNCT) for _ in range(rng.randint(1, 8)))
        elif k < .5:
            w = rng.choice(gen.EN)
        elif k < .6:
            w = ''.join(rng.choice('0123456789.') for _ in range(rng.randint(1, 6)))
        elif k < .7:
            w = ''.join(rng.choice('abcdefghijklmnop') for _ in range(rng.choice([30, 39, 40, 41, 60, 150, 300, 450])))
        elif k < .8 and utf8:
            w = ''.join(rng.choice('éüñßçøåдж中文字日本語كتاب€') for _ in range(rng.randint(1, 6)))
        else:
            w = rng.choice('abc') * rng.randint(1, 3)
        if w[0] == '<' or (len(w) > 1 and w[0] in '*'):
            w = 'q' + w
        if w == '-':
            w = 'x-'
        V.append(w)
    return V


def rd(spec, rng):
    return scl.render(spec)


def hyp_words(p):
    return [it[2] for it in p.items if it[0] != 'D' and it[2] != '']


def ref_ok(net, items):
    """items' reference words spell a path of the network (nulls free)"""
    words = [it[1] for it in items if it[0] != 'I' and it[1] != '']
    cur = {net_close(net, 0)} if False else None
    states = closure(net, {0})
    for w in words:
        nxt = set()
        for s in states:
            for (v, x) in net.out[s]:
                if x == w:
                    nxt.add(v)
        states = closure(net, nxt)
        if not states:
            return False
    return net.end in states


def closure(net, S):
    S = set(S)
    st = list(S)
    while st:
        s = st.pop()
        for (v, x) in net.out[s]:
            if (x is None or x == '@') and v not in S:
                S.add(v)
                st.append(v)
    return S


def case(ctx):
    rng = ctx.rng
    sclite = build.get('sclite')['sclite']
    mode = rng.choice(['trn', 'trn', 'trn', 'stmctm', 'stmctm', 'trndiff', 'stmtxt', 'stmctmdiff'])
    diff = mode in ('trndiff', 'stmtxt', 'stmctmdiff')
    utf8 = rng.random() < .4
    case_s = rng.random() < .5
    R = scl.Rules(case_s)

    def fold(w):          # documented: without -s case is folded; UTF-8 folding is only done for ASCII unless -e asks for it
        if len(w) > 1 and w.endswith('*'):
            w = w[:-1]
        return w if case_s else ''.join(c.lower() if c.isascii() else c for c in w)

    V = weird_vocab(rng, utf8)
    V = [w for w in V if not (len(w) > 1 and w.endswith('*'))]
    if diff:            # single marker characters are syntax of the external diff
        V = [w for w in V if w not in '><|/\\('] or ['aa']
    alts = mode in ('trn', 'stmctm')
    utts = []
    for k in range(rng.randint(1, 5)):
        words = gen.sent(rng, V, rng.choice([0, 1, 2, 3, 5, 8, 12]))
        ref = gen.with_alts(rng, words, V, rng.choice([0, .3]) if alts else 0, 2, 0.3)
        if mode == 'stmtxt':
            ref = list(words)
        hyp = gen.mutate(rng, gen.expand(rng, ref), V)
        ref = scl.map_words(ref, lambda w: w if w == '@' else (gen.case_mix(rng, w) if w.isascii() else w))
        hyp = [gen.case_mix(rng, w) if w.isascii() else w for w in hyp]
        utts.append((ref, hyp))
    if diff and not any(h for r, h in utts):
        utts[0][1].append(V[0])
    if diff and not any(list(scl.flat_words(r)) for r, h in utts):
        utts[0][0].append(V[0])
    opts = ['-s'] if case_s else []
    if utf8:
        opts += ['-e', 'utf-8']
    nl = '' if rng.random() < .15 else '\n'
    if mode in ('trn', 'trndiff'):
        ids = ['spk%d-%03d' % (rng.randint(0, 2), k) for k in range(len(utts))]
        ctx.write('r.trn', gen.trn_file([(scl.render(r), i) for (r, h), i in zip(utts, ids)]))
        order = list(zip(utts, ids))
        rng.shuffle(order)
        ctx.write('h.trn', gen.trn_file([(' '.join(h), i) for (r, h), i in order], rng).rstrip('\n') + nl)
        cmd = [sclite, '-r', 'r.trn', 'trn', '-h', 'h.trn', 'trn', '-i', 'spu_id', '-o', 'sgml', 'stdout'] + opts
        if mode == 'trndiff':
            cmd.append('-d')
        pids = ['(%s)' % i for i in ids]
        hyporder = [(u, '(%s)' % i) for u, i in order]
    else:
        stm, ctm, txt = '', '', ''
        where = [('file1', '1')] * len(utts)
        if mode == 'stmctmdiff' and rng.random() < .6:       # several recordings, one or two channels each
            slots = [(f, c) for f in gen.names(rng, rng.randint(1, 3)) for c in rng.choice([['1'], ['a', 'b'], ['1', '10']])]
            slots = sorted(rng.sample(slots, min(len(utts), len(slots))))
            where = sorted(slots + [rng.choice(slots) for _ in range(len(utts) - len(slots))])
            for f, c in slots:
                k = rng.choice([j for j, x in enumerate(where) if x == (f, c)])
                for side in (0, 1):
                    if not any(utts[j][side] for j, x in enumerate(where) if x == (f, c)):
                        utts[k][side].append(rng.choice(V))
        for k, (r, h) in enumerate(utts):
            f, c = where[k]
            lab = rng.choice(['', '<o,f0> ', ''])
            txtref = scl.render(r)
            if lab == '' and txtref.startswith('<'):
                lab = '<o> '
            stm += '%s %s spk %d %d %s%s\n' % (f, c, k * 100, k * 100 + 100, lab, txtref)
            for j, w in enumerate(h):
                ctm += '%s %s %.2f 0.5 %s\n' % (f, c, k * 100 + 1 + j, w)
            txt += ' '.join(h) + rng.choice(['\n', ' ', '\n\n'])
        ctx.write('r.stm', stm.rstrip('\n') + nl)
        if mode in ('stmctm', 'stmctmdiff'):
            if not ctm:
                ctm = 'file1 1 1.00 0.5 %s\n' % V[0]
                utts[0] = (utts[0][0], [V[0]])
            ctx.write('h.ctm', ctm.rstrip('\n') + nl)
            cmd = [sclite, '-r', 'r.stm', 'stm', '-h', 'h.ctm', 'ctm', '-o', 'sgml', 'stdout'] + opts + (['-d'] if diff else [])
        else:
            ctx.write('h.txt', txt)
            cmd = [sclite, '-r', 'r.stm', 'stm', '-h', 'h.txt', 'txt', '-o', 'sgml', 'stdout', '-d'] + opts
        pids = ['(spk-%03d)' % k for k in range(len(utts))]
        hyporder = list(zip(utts, pids))
    if mode == 'stmctmdiff' and len(set(f for f, c in where)) > 1 and rng.random() < .1:
        last = where[-1][0]          # a recording without hypothesis words must be reported, not silently left unscored
        ctx.write('h.ctm', ''.join(l + '\n' for l in ctm.rstrip('\n').split('\n') if l.split()[0] != last))
        r = ctx.run(cmd, enc=None)
        require(r.rc != 0, '%s: segments of recording %s were silently left out', mode, last)
        ctx.count('refused')
        return
    res = ctx.ok(cmd, enc=None)
    sysl = scl.parse_sgml(res.out.decode('utf-8'))
    paths = [p for _, ps in sysl[0]['speakers'] for p in ps]
    require(sorted(p.id for p in paths) == sorted(pids), 'utterances reported %s, expected %s', sorted(p.id for p in paths), sorted(pids))
    byid = {p.id: p for p in paths}
    for (ref, hyp), pid in zip(utts, pids):
        p = byid[pid]
        ctx.count('alignments')
        ctx.count('words', len(p.items))
        ctx.seen(mode, len(p.items), tuple(sorted(set(i[0] for i in p.items))))
        if p.items:
            ctx.nontrivial('%s %s | %s' % (mode, scl.render(ref)[:100], ' '.join(hyp)[:100]))
        net = scl.Net(scl.map_words(ref, fold))
        hw = [fold(w) for w in hyp]
        got = hyp_words(p)
        if not diff:
            require(got == hw, '%s %s: hypothesis words reported %s, given %s', mode, pid, got, hw)
        require(ref_ok(net, p.items), '%s %s: reference side %s is not a reading of %s', mode, pid,
                [i[1] for i in p.items], scl.render(ref))
        for it in p.items:
            if it[0] in 'CS' and it[1] != '' and it[2] != '':
                require((it[1] == it[2]) == (it[0] == 'C'), '%s %s: pair %r labelled %s', mode, pid, it[1:3], it[0])
            require(it[0] != 'C' or (it[1] != '' and it[2] != ''), 'empty correct item without -D')
    if diff:     # the external diff runs over the whole stream: words may cross utterance boundaries, but none may be lost or reordered
        if mode != 'stmctmdiff':
            where = [0] * len(hyporder)
        for g in sorted(set(where)):
            part = [x for x, w in zip(hyporder, where) if w == g]
            allh = [fold(w) for (r, h), pid in part for w in h]
            rep = [w for _, pid in part for w in hyp_words(byid[pid])]
            require(allh == rep, '%s %s: hypothesis words reported %s, given %s', mode, g, rep, allh)
