"""Stress workload for C34: sc_stats with many systems and speakers, long names and every test, report and graph."""
from vlib import build, gen


def case(ctx):
    rng = ctx.rng
    b = build.get('sclite')
    nsys = rng.choice([1, 2, 2, 3, 5, 9, 17, 26, 40])
    nspk = rng.choice([1, 2, 3, 8, 20, 45] if nsys < 6 else [1, 2, 4] if nsys < 20 else [1, 2])
    ln = rng.choice([1, 3, 16, 17, 30, 90])
    spk = ['s' * rng.choice([1, ln]) + '%d' % i for i in range(nspk)]
    utts = [(s, u, [rng.choice(gen.EN) for _ in range(rng.choice([0, 1, 3, 6, 12]))]) for s in spk for u in range(rng.choice([1, 2, 4]))]
    fmt = lambda us: ''.join('%s (%s-%03d)\n' % (' '.join(w), s, u) for s, u, w in us)
    labels = rng.random() < .4
    head = lambda: ''.join(';; LABEL "l%d" "%s" "%s"\n' % (i, 'T' * rng.choice([1, 5, 40, 120]), 'desc' * rng.choice([1, 5, 30])) for i in range(rng.choice([3, 3, 3, 1, 8]))) + ';; CATEGORY "0" "c0" "zero"\n' if labels else ''
    fmtr = lambda us: head() + ''.join('%s %s(%s-%03d)\n' % (' '.join(w), rng.choice(['<l0> ', '<l1> ', '<l0,l1> ', '']) if labels else '', s, u) for s, u, w in us)
    ctx.write('r', fmtr(utts))
    cmd = [b['sclite'], '-r', 'r', 'trn', '-i', 'spu_id', '-f', '0']
    apart = nsys < 6 and rng.random() < .3                # systems scored apart, with other speakers in another order
    outs = []
    base = utts
    for y in range(nsys):
        k = rng.random()
        if k < .1 and y:
            hy = base                                     # a system equal to another
        elif k < .15:
            hy = utts                                     # a perfect one
        elif k < .18:
            hy = [(s, u, []) for s, u, w in utts]         # one that recognises nothing
        else:
            hy = base = [(s, u, gen.mutate(rng, w, gen.EN[:6])) for s, u, w in utts]
        if apart:
            some = rng.sample(spk, rng.randint(1, len(spk)))
            hy = [x for x in hy if x[0] in some]
            ry = [x for x in utts if x[0] in some]
            if rng.random() < .5:
                ry.reverse()
            if rng.random() < .2:
                ry = [(s, u, gen.mutate(rng, w, gen.EN[:6])) for s, u, w in ry]
            ctx.write('h%d' % y, fmt(hy))
            ctx.write('r%d' % y, fmtr(ry))
            outs.append(ctx.run([b['sclite'], '-r', 'r%d' % y, 'trn', '-i', 'spu_id', '-f', '0', '-h', 'h%d' % y, 'trn', 'N%d' % y, '-o', 'sgml', 'stdout'], enc=None).out)
            continue
        ctx.write('h%d' % y, fmt(hy))
        cmd += ['-h', 'h%d' % y, 'trn', 'N' * rng.choice([1, 2, 14, 15, ln]) + str(y)]
    if rng.random() < .1:
        ctx.write('w.wwl', ";; 'Headings' 'Word Spelling' 'one' 'two'\n;; Default missing weight 1.5\n" + ''.join('%s %d %.2f\n' % (w, rng.randint(0, 3), rng.random()) for w in gen.EN[:12]))
        cmd += ['-w', 'w.wwl']
    if not apart:
        p = ctx.run(cmd + ['-o', 'sgml', 'stdout'], enc=None)
        if p.rc:
            return
        outs.append(p.out)
    sg = b''.join(outs)
    if not sg:
        return
    for _ in range(2):
        c = [b['sc_stats'], '-p', '-O', '.', '-n', rng.choice(['ens', 'e' * 60])]
        t = rng.sample(['mcn', 'mapsswe', 'mapsswe_seg', 'sign', 'wilc', 'anovar', 'std4'], rng.randint(0, 3))
        if t:
            c += ['-t'] + t + (['-u'] if rng.random() < .5 else []) + (['-v'] if rng.random() < .4 else [])
        if rng.random() < .6:
            c += ['-r'] + rng.sample(['lur', 'sum', 'rsum', 'es', 'res', 'prn'], rng.randint(1, 3))
        if rng.random() < .5:
            c += ['-g'] + rng.sample(['range', 'grange', 'grange2', 'det'], rng.randint(1, 3))
            if rng.random() < .4:
                c += ['-f', rng.choice('ERW')]
        if rng.random() < .4:
            c += ['-e', rng.choice(['a test', 'a long name of a test ' * 6])]
        if rng.random() < .2:
            c += ['-l', rng.choice(['40', '85', '132', '300'])]
        ctx.run(c, stdin=sg, enc=None)
