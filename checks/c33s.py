"""Stress workload for C33: unusual sizes, encodings and option combinations of sclite, sc_stats and rover."""
from vlib import build, gen

UNI = 'abcdeéñßüжщ中国語日本한글ΩÀ'


def word(rng):
    k = rng.random()
    if k < .55:
        return rng.choice(gen.EN)
    if k < .75:
        return ''.join(rng.choice(UNI) for _ in range(rng.randint(1, 6)))
    if k < .8:
        return rng.choice(['%hesitation', 'uh;noun', 'a;', ';b', ':', 'a:b', '\\', 'a\\b', '&', "'", '*', '-', '--', '@x', '#', '$1', '%s%n', '(', 'x)'])
    if k < .82:
        return rng.choice('xyz') * rng.choice([31, 63, 64, 99, 100, 101])
    if k < .92:
        return '(%s)' % rng.choice(gen.EN)
    return rng.choice(gen.EN) + '-'


def nest(rng, d):
    if d == 0 or rng.random() < .2:
        return word(rng)
    return '{ ' + ' / '.join(' '.join(nest(rng, d - 1 if i == 0 else min(1, d - 1)) for _ in range(rng.choice([1, 1, 2]))) for i in range(rng.choice([1, 2, 3]))) + ' }'


def line(rng, n, alts):
    out = []
    for _ in range(n):
        if alts and rng.random() < .1:
            out.append(nest(rng, rng.choice([1, 2, 3, 6] if n < 4 else [1, 2])))
        else:
            out.append(word(rng))
    return ' '.join(w for w in out if alts or not (set(w) & set('{}')))


def case(ctx):
    rng = ctx.rng
    b = build.get('sclite')
    fmt = rng.choice(['trn', 'trn', 'stm', 'stm', 'ctm'])
    nspk = rng.choice([0, 1, 2, 3, 7, 20])
    nsys = rng.choice([1, 1, 1, 2, 3, 4])
    if nsys > 2:
        nspk = min(nspk, 3)
    spk = ['s' * rng.choice([1, 1, 3, 30, 90]) + '%d' % i for i in range(nspk)]
    big = nspk <= 3 and nsys == 1
    utts = []
    for s in spk:
        for u in range(rng.choice([1, 2, 3, 6]) if nspk < 20 else 1):
            utts.append((s, u, line(rng, rng.choice([0, 1, 3, 8, 20] if nspk < 20 else [0, 1, 3]) if not (big and rng.random() < .05) else 60, True)))
    if rng.random() < .03 and big:
        utts += [(spk[0] if spk else 's', 1000 + i, word(rng)) for i in range(120)]
    weird = [word(rng) for _ in range(6)]
    enc = rng.choice([None, None, 'utf-8', 'gb', 'euc', 'extended', 'ascii'])
    opts = []
    if rng.random() < .3:
        opts.append('-F')
    if rng.random() < .3:
        opts.append('-D')
    if rng.random() < .3:
        opts.append('-s')
    if rng.random() < .25:
        opts += ['-c'] + rng.choice([[], ['NOASCII'], ['DH'], ['NOASCII', 'DH']])
    elif fmt in ('trn', 'stm') and rng.random() < .12:
        lex = {w[i:i + n] for w in rng.sample(gen.EN, 12) + weird for i in (0, 1) for n in (1, 2, 3)}
        ctx.write('lex', b''.join(sorted(w.encode('utf-8') + b'\n' for w in lex if w and not set(w) & set(' \t\n'))))
        opts += ['-S', rng.choice(['algo1', 'algo2']), 'lex'] + rng.choice([[], ['ASCIITOO']])
    if enc:
        opts += ['-e', enc]
        if enc == 'utf-8' and rng.random() < .5:
            opts += [rng.choice(['babel_turkish', 'babel_lithuanian', 'babel_vietnamese', 'generic'])]
    if rng.random() < .1:
        ctx.write('w.wwl', ";; 'Headings' 'Word Spelling' 'one' 'two'\n;; Default missing weight 1.5\n" + ''.join('%s %d %.2f\n' % (w, rng.randint(0, 3), rng.random()) for w in set(rng.sample(gen.EN, 12))))
        opts += ['-w', 'w.wwl']
    reps = rng.sample(['sum', 'rsum', 'pra', 'prf', 'dtl', 'lur', 'sgml', 'snt', 'spk', 'nl.sgml'], rng.randint(1, 5))
    if '-w' in opts and rng.random() < .5:
        reps.append('wws')
    conf = rng.random() < .5
    hyps = []
    labels = rng.random() < .4
    lab = ['<l%d,%s>' % (i % 4, 'm' if i % 2 else 'f') for i in range(8)]
    head = ''
    if labels:
        head = ''.join(';; LABEL "l%d" "%s" "%s"\n' % (i, 'T' * rng.choice([1, 5, 40, 120]), 'desc' * rng.choice([1, 5, 30])) for i in range(4))
        head += ';; LABEL "m" "Male" "Male talkers"\n;; LABEL "f" "Fem" "Female"\n;; CATEGORY "0" "c0" "zero"\n;; CATEGORY "1" "c1" "one"\n'
    nt = lambda s, u: '(%s-%03d)' % (s, u)
    if fmt == 'trn':
        ctx.write('r', head + ''.join('%s %s%s\n' % (t, lab[u % 8] + ' ' if labels and rng.random() < .1 else '', nt(s, u)) for s, u, t in utts))
    elif fmt == 'stm':
        t0 = 0
        L = []
        for i, (s, u, t) in enumerate(utts):
            L.append('f%d A %s %.2f %.2f %s%s\n' % (i // 30, s, 10 * (i % 30), 10 * (i % 30) + 10, lab[i % 8] + ' ' if labels else '', t))
        ctx.write('r', head + ''.join(L))
    ctmw = None
    for y in range(nsys + (fmt == 'ctm')):
        name = 'h%d' % y
        if fmt == 'trn':
            ctx.write(name, ''.join('%s %s\n' % (' '.join(gen.mutate(rng, [w for w in t.split() if not set(w) & set('{}/')], weird)), nt(s, u)) for s, u, t in utts))
        else:
            L = []
            for i, (s, u, t) in enumerate(utts):
                ws = gen.mutate(rng, [w for w in t.split() if not set(w) & set('{}/')][:40], weird)
                for j, w in enumerate(ws):
                    w = w if not w.startswith(';;') else 'x'
                    L.append('f%d A %.3f %.3f %s%s\n' % (i // 30, 10 * (i % 30) + j * 9.0 / (len(ws) + 1), rng.choice([0, .1, .3]), w, ' %.3f' % rng.random() if conf else ''))
            ctx.write(name, ''.join(L))
        hyps.append(name)
    if fmt == 'ctm':
        r, rf = hyps.pop(0), 'ctm'
    else:
        r, rf = 'r', fmt
    hf = 'trn' if fmt == 'trn' else 'ctm'
    cmd = [b['sclite'], '-r', r, rf]
    for h in hyps:
        cmd += ['-h', h, hf] + ([rng.choice(['T', 'a title', 'long title ' * 6])] if rng.random() < .5 else [])
    if fmt == 'trn':
        cmd += ['-i', rng.choice(['spu_id', 'spu_id', 'swb', 'rm', 'wsj', 'sp'])]
    if conf and hf == 'ctm' and rng.random() < .5:
        cmd += ['-C', rng.choice(['det', 'bhist', 'hist', 'sbhist'])]
    if fmt == 'stm' and rng.random() < .3:
        cmd += ['-m'] + rng.choice([[], ['ref'], ['hyp'], ['ref', 'hyp']])
    if fmt == 'trn' and rng.random() < .1 or fmt == 'stm' and rng.random() < .1:
        cmd.append('-d')
    if fmt == 'ctm' and rng.random() < .4:
        cmd.append('-T')
    if rng.random() < .2:
        cmd += ['-l', rng.choice(['40', '80', '200', '1000'])]
    cmd += opts + ['-f', rng.choice(['0', '0', '1', '2', '6'])]
    ctx.run(cmd + ['-O', '.', '-o'] + reps)
    if rng.random() < .5:
        p = ctx.run(cmd[:-2] + ['-p'], enc=None)
        if p.rc == 0 and p.out:
            ctx.run([b['sclite'], '-P', '-O', '.', '-o'] + [x for x in reps if x != 'wws'], stdin=p.out)
    if hf == 'ctm' and len(hyps) > 1:
        c = [b['rover']]
        for h in hyps:
            c += ['-h', h, 'ctm']
        ctx.run(c + ['-o', 'rv', '-m', rng.choice(['meth1', 'oracle', 'avgconf', 'maxconf', 'maxconfa', 'putat']), '-f', '0'] + (['-a', '0.3', '-c', '0.5'] if rng.random() < .5 else []) + (['-s'] if rng.random() < .2 else []) + (['-T'] if rng.random() < .3 else []))
