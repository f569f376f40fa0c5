"""C11: alignments survive being written and read back: reports made from piped alignments equal those made directly."""
import re
from vlib import build, scl, gen
from vlib.core import Violation, require

N_QUICK, N_THOROUGH = 2500, 30000
RULE = ('random transcript, segment and time-marked sets (confidences, times, labels, weights, optional words, case-sensitive, alternations, long words, '
        'several systems at once); every report made from the piped (-p) or saved (-o sgml) alignments is compared with the one made in the aligning run, '
        'by sclite -P, a second generation and sc_stats; non-trivial = at least one error')
ASSUMPTIONS = ['words, ids and titles contain no double quote, which the alignment format uses as delimiter']
REPS = ['sum', 'rsum', 'pra', 'prf', 'dtl', 'lur', 'sgml', 'snt', 'spk']


def prepare():
    build.get('sclite', 'plain')


def norm(t):
    return re.sub(r'(?i)creation[ _]date.?.?"[^"]*"', 'DATE', t)


def few(words):
    """at most two very long words: lines stay short enough for the (quadratic) case folding"""
    n = [0]
    out = []
    for w in words:
        if len(w) > 200:
            n[0] += 1
            if n[0] > 2:
                continue
        out.append(w)
    return out


def gen_set(ctx, rng):
    """-> (ref fmt, [hyp fmts], flags, labelled)"""
    mode = rng.choice(['trn', 'trn', 'stm', 'stm', 'ctm'])
    V = gen.vocab(rng)
    if rng.random() < .15:
        V = V + ['w' * rng.choice([60, 120, 250, 999, 1500] if mode == 'trn' else [60, 120, 250, 600])]
    if rng.random() < .15:
        V = V + ['a:b', ':', "o'clock", 'x,y', ',', 'a<tag>', '\\', 'a\\b', '%', '&amp']
    flags = []
    labelled = mode == 'stm' and rng.random() < .5
    nsys = rng.choice([1, 1, 2, 3])
    nu = rng.choice([1, 2, 5, 12])
    spk = ['s' + s for s in gen.names(rng, rng.choice([1, 2, 4]))]
    spk = [s.replace('-', '').replace('_', '') for s in spk]
    ref = ''
    hyps = [''] * nsys
    od = mode != 'ctm' and rng.random() < .2
    if od:
        flags.append('-D')
    if rng.random() < .25:
        flags.append('-s')
    if rng.random() < .15 and not od:
        flags.append('-F')
    conf = rng.random() < .5
    if mode == 'trn' and rng.random() < .2 or mode == 'stm' and rng.random() < .1:
        W = ''.join('%s %d.%d\n' % (w, rng.randint(1, 9), rng.choice([0, 25, 5])) for w in dict.fromkeys(V) if len(w) < 200)
        ctx.write('w.wwl', rng.choice(["", ";; 'Headings' 'Word Spelling' 'the count'\n"]) + ";; Default missing weight '3'\n" + W)
        flags += ['-w', 'w.wwl']
        REP_W = True
    else:
        REP_W = False
    if mode == 'ctm' and rng.random() < .5:
        flags.append('-T')
    if labelled:
        ref += ';; CATEGORY "0" "%s" "%s"\n;; LABEL "O" "Overall" "Everything, really"\n;; LABEL "F" "%s" "the f"\n;; LABEL "M" "Male" ""\n' % (
            rng.choice(['', 'Cat']), rng.choice(['', 'some desc']), rng.choice(['F', 'Fem ale']))
    for k in range(nu):
        s = rng.choice(spk)
        r = few(gen.sent(rng, V, rng.choice([0, 1, 3, 8, 20])))
        rs = gen.with_alts(rng, r, [w for w in V if len(w) < 200], rng.choice([0, 0, .3]), 2) if mode != 'ctm' else r
        cm = lambda w: gen.case_mix(rng, '(' + w + ')' if od and w != '@' and w.isalnum() and rng.random() < .3 else w)
        rs = scl.map_words(rs, cm)
        if mode == 'trn':
            ref += '%s (%s-%03d)\n' % (scl.render(rs), s, k)
        elif mode == 'stm':
            ref += 'f 1 %s %d %d %s%s\n' % (s, k * 100, k * 100 + 100, '<O,%s> ' % rng.choice('FM') if labelled and rng.random() < .9 else '', scl.render(rs))
        else:
            for j, w in enumerate(r):
                ref += 'f %s %d %.2f %s\n' % ('A', k * 100 + j, .5, w)
        for y in range(nsys):
            h = [cm(w) for w in few(gen.mutate(rng, gen.expand(rng, rs), V))]
            if mode == 'trn':
                hyps[y] += '%s (%s-%03d)\n' % (' '.join(h), s, k)
            else:
                ch = '1' if mode == 'stm' else 'A'
                for j, w in enumerate(h):
                    hyps[y] += 'f %s %.3f %.3f %s%s\n' % (ch, k * 100 + j + rng.choice([0, .125, .5]), rng.choice([.5, .3, .07]), w, ' %.4f' % rng.random() if conf else '')
    if mode != 'trn':
        hyps = [h or 'f %s 1.0 0.5 %s%s\n' % ('1' if mode == 'stm' else 'A', V[0], ' 0.5' if conf else '') for h in hyps]
        if not ref:
            ref = 'f A 1 0.5 %s\n' % V[0]
    ctx.write('r', ref)
    cmd = ['-r', 'r', 'stm' if mode == 'stm' else mode]
    for y, h in enumerate(hyps):
        ctx.write('h%d' % y, h)
        cmd += ['-h', 'h%d' % y, 'trn' if mode == 'trn' else 'ctm', 'sys%d%s' % (y, rng.choice(['', ' the one', '.v2']))]
    if mode == 'trn':
        cmd += ['-i', 'spu_id']
    reps = list(REPS) + (['wws'] if REP_W else [])
    if not labelled:
        reps.remove('lur')
    titles = [cmd[i + 3] for i, c in enumerate(cmd) if c == '-h']
    return mode, nsys, cmd + flags, reps, titles


def outputs(ctx, d, titles=()):
    import os
    out = {}
    for root, _, fs in os.walk(ctx.path(d)):
        for f in fs:
            with open(os.path.join(root, f), 'rb') as fp:
                for k, t in enumerate(titles):
                    if f.startswith(t + '.'):
                        f = 'h%d' % k + f[len(t):]
                        break
                out[f] = norm(fp.read().decode('latin-1'))
    return out


def same(a, b, what):
    require(sorted(a) == sorted(b), '%s: reports %s, directly %s', what, sorted(b), sorted(a))
    for f in a:
        if a[f] != b[f]:
            x, y = a[f].split('\n'), b[f].split('\n')
            for p, q in zip(x, y):
                if p != q:
                    raise Violation('%s: %s differs\n direct: %s\n piped:  %s' % (what, f, p[:300], q[:300]))
            raise Violation('%s: %s has %d lines, directly %d' % (what, f, len(y), len(x)))


def case(ctx):
    import os
    rng = ctx.rng
    b = build.get('sclite')
    mode, nsys, cmd, reps, titles = gen_set(ctx, rng)
    for d in 'abc':
        os.mkdir(ctx.path(d))
    ctx.ok([b['sclite']] + cmd + ['-f', '0', '-O', 'a', '-o'] + reps)
    direct = outputs(ctx, 'a')
    nerr = sum(len(re.findall(r'(?:^|[\n:])[SDI],', t)) for f, t in direct.items() if f.endswith('.sgml'))
    ctx.seen(mode, nsys, len(reps), tuple(sorted(c for c in cmd if c in ('-D', '-s', '-F', '-T', '-w'))))
    if nerr:
        ctx.nontrivial('%s, %d systems, %d erroneous words, %d reports compared' % (mode, nsys, nerr, len(direct)))
    p = ctx.ok([b['sclite']] + cmd + ['-p'], enc=None)
    ctx.count('alignments_piped', p.out.count(b'<PATH'))
    ctx.ok([b['sclite'], '-P', '-f', '0', '-O', 'b', '-o'] + [x for x in reps if x != 'wws'], stdin=p.out)
    same({f: t for f, t in direct.items() if not f.endswith('.wws')}, outputs(ctx, 'b', titles), 'reports from piped alignments')
    # saved alignments, second generation
    cat = b''.join(ctx.read(os.path.join('a', f), enc=None) for f in sorted(direct) if f.endswith('.sgml'))
    ctx.ok([b['sclite'], '-P', '-f', '0', '-O', 'c', '-o'] + [x for x in reps if x != 'wws'], stdin=cat)
    same({f: t for f, t in direct.items() if not f.endswith('.wws')}, outputs(ctx, 'c', titles), 'reports from saved alignments')
    ctx.count('reports_compared', 2 * len(direct))
    r = ctx.ok([b['sclite'], '-P', '-p'], stdin=p.out, enc=None)
    require(r.out == p.out, 'alignments read and written again differ')
