"""C08: the labelled-utterance report gives, per speaker and label, exactly the counts of the utterances carrying the label."""
import re, statistics
from vlib import build, scl, gen, reports
from vlib.core import Violation, require

N_QUICK, N_THOROUGH = 24000, 96000
RULE = ('stm/ctm sets with 1-18 labels in several categories (long ids, ids that are prefixes of one another, unlabelled and partly labelled '
        'segments, speakers without reference words under a label); the label report is recomputed from the alignments; also sets that use an '
        'undefined label or one label in two category positions; non-trivial = two or more labels')
ASSUMPTIONS = ['alignments themselves are judged by C01-C06', 'percentages are compared to the printed precision']


def prepare():
    build.get('sclite', 'plain')


def parse_lur(txt, nlab):
    rows = []
    on = False
    for l in txt.split('\n'):
        if '#Wrd' in l:
            on = True
            continue
        if not on or not l.startswith('|') or not l.endswith('|') or re.match(r'^\|[-=+|]*\|$', l):
            continue
        cells = re.split(r'\|+', l)[1:-1]
        if len(cells) != nlab + 1 or 'Speaker' in l:
            continue
        c = [x.strip() for x in cells]
        if any(c):
            rows.append(c)
    return rows


def close(a, b):
    return abs(a - b) <= 0.051


def case(ctx):
    rng = ctx.rng
    sclite = build.get('sclite')['sclite']
    V = gen.vocab(rng, 10, rng.choice(['en', 'letters']))
    case_s = rng.random() < .2
    ncat = rng.choice([1, 2, 3, 4])
    cats, used = [], set()
    for c in range(ncat):
        labs = []
        for k in range(rng.choice([1, 2, 3, 7])):
            st = rng.random()
            i = rng.choice(['O', 'F0', 'F1', 'male', 'Female', 'f', 'F', 'F10', 'bg', 'noise', 'x' * 29, 'x' * 30, 'x' * 45]) if st < .7 else 'lab%d_%d' % (c, k)
            if i.lower() in used:
                i = 'L%d%d' % (c, k) + rng.choice(['', 'long' * 9])
            if i.lower() in used or len(used) >= 18:
                continue
            used.add(i.lower())
            labs.append(i)
        if labs:
            cats.append(labs)
    ncat = len(cats)
    head = ''
    order = []
    for c, labs in enumerate(cats):
        if rng.random() < .8:
            head += ';; CATEGORY "%d" "%s" "%s"\n' % (c, rng.choice(['', 'Cat %d' % c]), rng.choice(['', 'a description']))
        for i in labs:
            head += ';; LABEL "%s" "%s" "%s"\n' % (i, rng.choice(['Title %s' % i[:5], 'T%d' % len(order)]), 'desc of ' + i)
            order.append(i)
    spk = [s.replace('-', '').replace('_', '') + 's' for s in gen.names(rng, rng.choice([1, 2, 3, 6]))]
    spk = sorted(set(spk))
    nseg = rng.choice([1, 3, 6, 12, 30])
    defect = rng.choice(['none'] * 8 + ['undef', 'twice'])
    ctm = ''
    stm = head
    labels = []
    t = 0
    for k in range(nseg):
        s = rng.choice(spk)
        r = gen.sent(rng, V, rng.choice([0, 0, 1, 3, 6]))
        h = gen.mutate(rng, r, V, rng.choice([0, .3, 1.]))
        # at most one or several labels per category position
        flds = []
        for c in cats:
            flds.append(rng.choice(c) if rng.random() < .8 else '')
        while flds and flds[-1] == '':
            flds.pop()
        if rng.random() < .15:
            flds = []
        lab = [f for f in flds if f]
        txt = '<' + ','.join(f if case_s else gen.case_mix(rng, f) for f in flds) + '>' if flds else ''
        labels.append(lab)
        stm += 'f 1 %s %d %d %s %s\n' % (s, t, t + 100, txt, ' '.join(r))
        for j, w in enumerate(h):
            ctm += 'f 1 %d.00 0.50 %s\n' % (t + 1 + j, w)
        t += 100
    if not ctm:
        ctm = 'f 1 1.00 0.50 %s\n' % V[0]
    if defect == 'undef':
        stm += 'f 1 %s %d %d <%sq%s> a\n' % (spk[0], t, t + 100, cats[0][0], rng.choice(['', ',' + cats[-1][0] if ncat > 1 else '']))
    elif defect == 'twice':
        stm += 'f 1 %s %d %d <%s> a\nf 1 %s %d %d <%s> a\n' % (spk[0], t, t + 100, cats[0][0], spk[0], t + 100, t + 200, ',' + cats[0][0])
    ctx.write('r.stm', stm)
    ctx.write('h.ctm', ctm)
    cmd = [sclite, '-r', 'r.stm', 'stm', '-h', 'h.ctm', 'ctm', 'the sys', '-f', '0', '-O', '.', '-n', 'o', '-o', 'lur', 'sgml'] + (['-s'] if case_s else [])
    r = ctx.run(cmd)
    ctx.seen(len(order), ncat, nseg, len(spk), defect)
    if len(order) >= 2:
        ctx.nontrivial('%d labels in %d categories, %d segments, defect %s' % (len(order), ncat, nseg, defect))
    if defect != 'none':
        require(r.rc > 0, '%s label accepted (exit status %d)', defect, r.rc)
        ctx.count('refused')
        return
    require(r.rc == 0, 'exit status %d on valid input\n%s', r.rc, (r.out + r.err)[-800:])
    sysl = scl.parse_sgml(ctx.read('o.sgml'))[0]['speakers']
    txt = ctx.read('o.lur')
    rows = parse_lur(txt, len(order))
    # what each label of each speaker adds up to
    seq = sorted([(int(p.attrs['sequence']), s, p) for s, ps in sysl for p in ps], key=lambda x: x[0])
    require(len(seq) == nseg, '%d segments in the alignments, %d given', len(seq), nseg)
    acc = {}
    for (q, s, p), lab in zip(seq, labels):
        ref = sum(1 for i in p.items if i[0] in 'CSD')
        err = sum(1 for i in p.items if i[0] in 'SDI')
        for l in lab:
            a = acc.setdefault((s, l), [0, 0])
            a[0] += ref
            a[1] += err
            ctx.count('labelled_utterances')
    names = [s for s, _ in sysl]
    require([x[0] for x in rows[:len(names)]] == names, 'speaker rows %s, speakers %s', [x[0] for x in rows], names)
    tail = rows[len(names):]
    require([re.sub(r' \+$', '', x[0]) for x in tail] == ['Set Sum/Avg', 'Mean', 'StdDev', 'Median'], 'summary rows %s', [x[0] for x in tail])
    for row in rows[:len(names)]:
        for l, cell in zip(order, row[1:]):
            n, e = acc.get((row[0], l), [0, 0])
            ctx.count('cells')
            if n:
                m = re.match(r'^\[(\d+)\]\s+([\d.]+)$', cell)
                require(m and int(m.group(1)) == n and close(float(m.group(2)), 100. * e / n), 'speaker %s label %s: "%s", alignments give %d words %d errors', row[0], l, cell, n, e)
            elif e:
                m = re.match(r'^0\s+\* (\d+) \*$', cell)
                require(m and int(m.group(1)) == e, 'speaker %s label %s: "%s", alignments give no reference words and %d errors', row[0], l, cell, e)
            else:
                require(cell == '', 'speaker %s label %s: "%s" although nothing was scored', row[0], l, cell)
    for j, l in enumerate(order):
        v = [acc[(s, l)] for s in names if (s, l) in acc]
        n, e = sum(x[0] for x in v), sum(x[1] for x in v)
        pos = [x for x in v if x[0] > 0]
        W = [x[0] for x in pos]
        E = [100. * x[1] / x[0] for x in pos]
        exp = [(n, 100. * e / n if n else 0)]
        if pos:
            sd = lambda z: statistics.stdev(z) if len(z) > 1 else 0
            exp += [(statistics.mean(W), statistics.mean(E)), (sd(W), sd(E)), (statistics.median(W), statistics.median(E))]
        else:
            exp += [(0, 0)] * 3
        for row, (a, b) in zip(tail, exp):
            m = re.match(r'^\[(\d+)\]\s+([\d.]+)$', row[j + 1])
            require(m and int(m.group(1)) in (int(a + 1e-9), int(a - 1e-9)) and close(float(m.group(2)), b),
                    '%s of label %s: "%s", alignments give %.3f words and %.3f%%', row[0], l, row[j + 1], a, b)
    for i in order:
        require('desc of ' + i in txt, 'label %s is not described', i)
