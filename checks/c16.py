"""C16: the multi-system reports and range graphs of sc_stats state the figures of the alignments of each system."""
import math, os, re, statistics
from vlib import build, scl, gen, reports
from vlib.core import Violation, require
from checks.c10 import nce
from checks.c08 import parse_lur

N_QUICK, N_THOROUGH = 5000, 80000
RULE = ('1-8 systems over 1-30 speakers (transcripts, some with alternations; or segments with time marks, labels in categories and confidences in some systems), '
        'files in differing orders or with differing speakers, piped into sc_stats -r sum rsum es res prn lur and -g range grange grange2 with -f E/R/W and -l; every row, '
        'alignment and data point is recomputed from the piped alignments; non-trivial = two or more systems with errors')
ASSUMPTIONS = ['alignments themselves are judged by C01-C06', 'figures are compared to the printed precision', 'words are ASCII without *']


def prepare():
    build.get('sclite')


def cells(txt):
    out = []
    for ln in txt.split('\n'):
        s = ln.strip()
        if s.startswith('|') and s.endswith('|') and not set(s) <= set('|-=+'):
            c = [x.strip() for x in s[1:-1].split('|')]
            if len(c) > 1:
                out.append(c)
    return out


def close(tok, val, what, tol=.0501):
    try:
        v = float(tok)
    except ValueError:
        raise Violation('%s: report says "%s", alignments give %.4f' % (what, tok, val))
    require(abs(v - val) <= tol, '%s: report says %s, alignments give %.4f', what, tok, val)


def sd(x):
    return statistics.stdev(x) if len(x) > 1 else 0.


def check_sum(ctx, txt, systems, spk, stats, raw):
    rs = cells(txt)
    what = 'raw' if raw else 'sys'
    require(rs and rs[0] == ['Spkr'] + systems, '%s: columns %s, systems %s', what, rs[:1], systems)
    rs = [r for r in rs[1:] if any(r)]
    names = [r[0] for r in rs]
    require(names == spk + (['Sum'] if raw else ['Average']) + ['Mean', 'StdDev', 'Median'], '%s: rows %s for speakers %s', what, names, spk)
    for y, sy in enumerate(systems):
        v = []
        for s, r in zip(spk, rs):
            d = stats[y][s]
            x = d['err'] if raw else 100. * d['err'] / d['ref']
            v.append(x)
            close(r[1 + y], x, '%s: system %s speaker %s' % (what, sy, s), .001 if raw else .0501)
            ctx.count('cells')
        E, R = sum(d['err'] for d in stats[y].values()), sum(d['ref'] for d in stats[y].values())
        n = len(spk)
        close(rs[n][1 + y], E if raw else 100. * E / R, '%s: overall of %s' % (what, sy), .001 if raw else .0501)
        close(rs[n + 1][1 + y], statistics.fmean(v), '%s: mean of %s' % (what, sy))
        close(rs[n + 2][1 + y], sd(v), '%s: standard deviation of %s' % (what, sy))
        close(rs[n + 3][1 + y], statistics.median(v), '%s: median of %s' % (what, sy))


def check_es(ctx, txt, systems, total, confs, raw):
    what = 'res' if raw else 'es'
    toks = []
    for ln in txt.split('\n'):
        s = ln.strip()
        if s.startswith('|') and s.endswith('|') and s.count('|') >= 4 and not set(s) <= set('|-=+'):
            toks.append([x.split() if i else x.strip() for i, x in enumerate(s[1:-1].split('|'))])
    anyc = any(c is not None for c in confs)
    require(toks and toks[0][0] == 'System' and (toks[0][-1] == ['NCE']) == anyc, '%s: headings %s, systems with confidences %s', what, toks[:1], [c is not None for c in confs])
    rows = toks[1:]
    require([r[0] for r in rows] == systems, '%s: rows %s for systems %s', what, [r[0] for r in rows], systems)
    for r, t, c in zip(rows, total, confs):
        v = r[1] + r[2]
        require(len(v) == 8, '%s: row %s', what, r)
        require(v[0] == str(t['nsent']) and v[1] == str(t['ref']), '%s: %s has %s sentences, %s words, alignments give %d, %d', what, r[0], v[0], v[1], t['nsent'], t['ref'])
        for k, q in zip(v[2:], ['C', 'S', 'D', 'I', 'err', 'serr']):
            x = t[q] if raw else 100. * t[q] / (t['nsent'] if q == 'serr' else t['ref'])
            close(k, x, '%s: %s of system %s' % (what, q, r[0]), .001 if raw else .0501)
            ctx.count('cells')
        if anyc:
            if c is None:
                require(r[3] == ['---'], '%s: system %s has no confidences but NCE %s', what, r[0], r[3])
            else:
                x = nce(c)
                if x is not None:
                    close(r[3][0], x, '%s: NCE of %s' % (what, r[0]), .0015)
                    ctx.count('nce')


def check_range(ctx, txt, systems, spk, P, f):
    parts = txt.split('\f')
    require(len(parts) >= 2, 'range: %d parts', len(parts))
    scale = 2
    for part, names, vals, lab in ((parts[0], spk, [P[b] for b in range(len(spk))], 'SPKR'),
                                   (parts[1], systems, [[P[b][t] for b in range(len(spk))] for t in range(len(systems))], 'SYS')):
        L = [l.strip() for l in part.split('\n')]
        k = [i for i, l in enumerate(L) if '|  high  |' in l]
        require(len(k) == 1 and L[k[0]].startswith('|   ' + lab), 'range: heading of %s', lab)
        tab = []
        for l in L[k[0] + 2:]:
            if l.startswith('|-'):
                break
            c = [x.strip() for x in re.split(r'\|+', l)[1:-1]]
            tab.append(c)
        require(sorted(c[0] for c in tab) == sorted(names), 'range: rows %s, expected %s', [c[0] for c in tab], names)
        graph = {}
        w = max([6] + [len(x) for x in names]) + 1
        g = [i for i, l in enumerate(L) if 'PERCENTAGES' in l][0]
        order = []
        for l in L[g + 4:]:
            if l.startswith('|-'):
                if order:
                    break
                continue
            if l.startswith('| ') and l.endswith('|'):
                order.append(l[2:2 + w].strip())
                graph[order[-1]] = l[3 + w:-1]
        require(order == [c[0] for c in tab], 'range: graph rows %s, table rows %s', order, [c[0] for c in tab])
        means = []
        for c in tab:
            v = vals[names.index(c[0])]
            hi, lo, s, m = max(v), min(v), sd(v), statistics.fmean(v)
            for tok, x, n in zip(c[1:], (hi, lo, s, m), ('high', 'low', 'std dev', 'mean')):
                close(tok, x, 'range: %s of %s' % (n, c[0]))
            means.append(m)
            ctx.count('range_rows')
            gr = graph[c[0]]
            require(len(gr) == 100 // scale + 1, 'range: graph of %s has %d columns', c[0], len(gr))
            for q, ch in enumerate(gr):
                j, h = q * scale, scale / 2. + .0001
                e = 1e-6
                cand = set()
                for x, y in ((e, e), (-e, -e), (e, -e), (-e, e)):
                    cand.add('|' if abs(j - m) < h + x else '+' if abs(j - m - s) < h + x or abs(j - m + s) < h + x else ' ' if j > hi + y or j < lo - y else '-')
                require(ch in cand, 'range: column %d of the graph of %s is "%s", not %s (mean %.3f sd %.3f high %.3f low %.3f)', j, c[0], ch, sorted(cand), m, s, hi, lo)
        inc = f == 'E'
        require(all(a <= b + 1e-6 if inc else a >= b - 1e-6 for a, b in zip(means, means[1:])), 'range: means of the %s rows are not in order: %s', lab, means)


def check_grange(ctx, base, systems, spk, P, f, v2):
    for ext, names, other, vals in (('spk', spk, systems, [P[b] for b in range(len(spk))]),
                                    ('sys', systems, spk, [[P[b][t] for b in range(len(spk))] for t in range(len(systems))])):
        b = '%s.%s.' % (base, ext)
        plt = ctx.read(b + 'plt')
        m = re.search(r'^set ytics \((.*)\)$', plt, re.M)
        require(m, '%s: no tics', b)
        tics = re.findall(r'"([^"]*)" (\d+)(?:,|$)', m.group(1))
        require(sorted(t[0] for t in tics) == sorted(names) and [int(t[1]) for t in tics] == list(range(1, len(names) + 1)), '%s: tics %s, expected %s', b, tics, names)
        require('set yrange [%d:0]' % (len(names) + 1) in plt, '%s: yrange', b)
        dat = [l.split() for l in ctx.read(b + 'dat').splitlines()]
        if v2:
            got = [[float(x) for x in l[1:]] for l in dat]
            require([l[0] for l in dat] == [str(i + 1) for i in range(len(names))], '%s: data rows %s', b, [l[0] for l in dat])
            ti = re.findall(r'using 2:1 "(%lf(?:%\*s)*%lf)" title "([^"]*)"', plt)
            require(sorted(t[1] for t in ti) == sorted(other), '%s: curves %s, expected %s', b, ti, other)
            cols = {t[1]: t[0].count('%*s') for t in ti}
            require(sorted(cols.values()) == list(range(len(other))), '%s: columns %s', b, cols)
        else:
            got = [[float(x[1]) for x in dat if x[0] == str(i + 1)] for i in range(len(names))]
            require(len(dat) == len(names) * len(other), '%s: %d data', b, len(dat))
            cols = None
        mean = [l.split() for l in ctx.read(b + 'mean').splitlines()]
        med = [l.split() for l in ctx.read(b + 'median').splitlines()]
        require(len(mean) == len(med) == len(names), '%s: %d means, %d medians', b, len(mean), len(med))
        ms = []
        for i, (n, _) in enumerate(tics):
            v = vals[names.index(n)]
            if cols is not None:
                for j, o in enumerate(other):
                    close(got[i][cols[o]], v[j], '%s: %s of %s' % (b, o, n), 1e-5)
            else:
                require(len(got[i]) == len(v) and all(abs(x - y) < 1e-5 for x, y in zip(sorted(got[i]), sorted(v))), '%s: data of %s: %s, alignments give %s', b, n, got[i], v)
            require(mean[i][0] == med[i][0] == str(i + 1), '%s: row numbers', b)
            close(mean[i][1], statistics.fmean(v), '%s: mean of %s' % (b, n), 1e-5)
            close(med[i][1], statistics.median(v), '%s: median of %s' % (b, n), 1e-5)
            ms.append(statistics.fmean(v))
            ctx.count('grange_rows')
        require(all(x <= y + 1e-6 if f == 'E' else x >= y - 1e-6 for x, y in zip(ms, ms[1:])), '%s: means not in order %s', b, ms)


def check_prn(ctx, txt, systems, S, case_s, width):
    n = len(systems)
    head, rest = txt.split('End of Utterance Label Definitions\n', 1)
    got = re.findall(r'^    name: (.*?)   Ref: .*$', head, re.M)
    require(got == systems, 'prn: systems %s', got)
    body, tail = rest.split('Lattice Summary:', 1)
    blocks = re.split(r'^Speaker: ', body, flags=re.M)[1:]
    # the utterances every system has
    byid = [{(s, p.id): p for s, ps in sy for p in ps} for sy in S]
    common = [(s, p.id) for s, ps in S[0] for p in ps if all((s, p.id) in b for b in byid)]
    require(len(blocks) == len(common), 'prn: %d utterances, %d in common', len(blocks), len(common))
    tot = err = 0
    wrong = {}
    for blk, key in zip(blocks, common):
        L = blk.split('\n')
        require(L[0] == key[0], 'prn: speaker %s, expected %s', L[0], key[0])
        ps = [b[key] for b in byid]
        refs = [[it[1] for it in p.items if it[0] != 'I'] for p in ps]
        if any(r != refs[0] for r in refs):
            require(L[1].startswith(';; Reference strings not identical'), 'prn: %s: different references printed as one', key)
            require(sum(1 for l in L if l.startswith('id: ')) == n, 'prn: %s: not every system printed', key)
            ctx.count('different_references')
            continue
        require(L[1] == 'Id:     ' + key[1], 'prn: %s: id line "%s"', key, L[1])
        right = [any(x) for x in zip(*[[it[0] == 'C' for it in p.items if it[0] != 'I'] for p in ps])]
        m = [l for l in L if l.startswith('Lattice Analysis')]
        require(m and m[0] == 'Lattice Analysis: #refWords %d #refErrWords %d' % (len(right), right.count(False)), 'prn: %s: %s, alignments give %d words, %d never right', key, m, len(right), right.count(False))
        tot += len(right)
        err += right.count(False)
        for w, ok in zip(refs[0], right):
            if not ok:
                wrong[w] = wrong.get(w, 0) + 1
        if 'labels' in ps[0].attrs:
            require('Labels: ' + ps[0].attrs['labels'] in L, 'prn: %s: labels', key)
        # chunks of lines
        i = L.index(m[0]) + 1
        lines = [l for l in L[i:] if l != '']
        require(len(lines) % (n + 1) == 0 and lines, 'prn: %s: %d lines for %d systems', key, len(lines), n)
        out = [[] for _ in range(n)]
        tags = ['REF:'] + [s + ':' for s in systems]
        w = max(len(t) for t in tags) + 1
        for c in range(0, len(lines), n + 1):
            rows = []
            for l, t in zip(lines[c:c + n + 1], tags):
                pre = '>>> ' if c else ''
                require(l.startswith(pre + t), 'prn: %s: line "%s" for %s', key, l, t)
                off = len(pre) + max(3, max(len(s) for s in systems)) + 2
                require(l[len(pre) + len(t):off].strip() == '', 'prn: %s: line "%s" does not keep to its columns', key, l)
                rows.append({off + x.start(): x.group() for x in re.finditer(r'\S+', l[off:])})
                longest = max([len(x) for r in rows for x in r.values()], default=0)
            require(all(len(l) <= max(width, 80, off + longest + 1) for l in lines[c:c + n + 1]), 'prn: %s: line longer than %d', key, width)
            for pos in sorted(set().union(*rows)):
                r = rows[0].get(pos)
                for y in range(n):
                    h = rows[1 + y].get(pos)
                    if r is None:
                        if h is not None:
                            out[y].append(('I', None, h))
                    else:
                        require(h is not None, 'prn: %s: nothing of %s under "%s"', key, systems[y], r)
                        out[y].append(('D', r, None) if set(h) == {'*'} else ('X', r, h))
        up = lambda x: x if case_s else x.upper()
        for y, p in enumerate(ps):
            exp = [('D', it[1], None) if it[0] == 'D' else ('I', None, up(it[2])) if it[0] == 'I' else ('X', it[1], it[2] if it[0] == 'C' else up(it[2])) for it in p.items]
            require(out[y] == exp, 'prn: %s: system %s is printed %s, alignment is %s', key, systems[y], out[y], exp)
        ctx.count('prn_alignments', n)
    m = re.match(r' #TotRefWords (\d+) #TotRefErrWords (\d+) Accuracy +(\S+)', tail)
    require(m and int(m.group(1)) == tot and int(m.group(2)) == err, 'prn: summary "%s", alignments give %d words, %d never right', tail.split('\n')[0], tot, err)
    if tot:
        close(m.group(3), 100. * (tot - err) / tot, 'prn: accuracy', .0051)
    lex = {x[1]: int(x[0]) for x in re.findall(r'^ *\d+: +(\d+)  ->  (\S+)$', tail, re.M)}
    require(lex == wrong, 'prn: words never right %s, alignments give %s', lex, wrong)


def check_lur(ctx, txt, systems, S, order):
    rows = parse_lur(txt, len(order))
    rows = [r for r in rows if not r[0] == '' and not r[0].startswith('SYSTEM')]
    require([r[0] for r in rows] == systems * 4, 'lur: rows %s', [r[0] for r in rows])
    for y, sy in enumerate(S):
        for j, l in enumerate(order):
            v = []
            for s, ps in sy:
                a = [0, 0]
                for p in ps:
                    labs = p.attrs.get('labels', '').strip('<>').split(',')
                    if l.lower() in [x.lower() for x in labs]:
                        a[0] += sum(1 for it in p.items if it[0] != 'I')
                        a[1] += sum(1 for it in p.items if it[0] != 'C')
                v.append(a)
            n, e = sum(x[0] for x in v), sum(x[1] for x in v)
            pos = [x for x in v if x[0]]
            W, E = [x[0] for x in pos], [100. * x[1] / x[0] for x in pos]
            exp = [(n, 100. * e / n if n else 0.)] + ([(statistics.fmean(W), statistics.fmean(E)), (sd(W), sd(E)), (statistics.median(W), statistics.median(E))] if pos else [(0, 0)] * 3)
            for k in range(4):
                c = rows[k * len(systems) + y][j + 1]
                m = re.match(r'^\[(\d+)\]\s+([\d.]+)$', c)
                require(m and int(m.group(1)) in (int(exp[k][0] + 1e-9), int(exp[k][0] - 1e-9)) and abs(float(m.group(2)) - exp[k][1]) <= .0501,
                        'lur: block %d of label %s, system %s: "%s", alignments give %.3f words and %.3f%%', k, l, systems[y], c, *exp[k])
                ctx.count('lur_cells')


def case(ctx):
    rng = ctx.rng
    B = build.get('sclite')
    case_s = rng.random() < .2
    seg = rng.random() < .4
    nsys = rng.choice([1, 2, 2, 3, 4, 8])
    nspk = rng.choice([1, 2, 3, 5, 9, 30])
    nutt = rng.choice([1, 2, 3, 6])
    V = gen.vocab(rng, None, rng.choice(['en', 'letters', 'tiny']))
    V = [w for w in V if w.isalnum() and w.isascii()] or ['a', 'b', 'cc']
    if rng.random() < .3:
        V += [c * k for c, k in (('q', 20), ('w', 39), ('y', 75), ('z', 77), ('x', 80), ('v', 99))]
    ln = rng.choice([1, 4, 12])
    spk = ['s%s%d' % ('p' * rng.choice([0, ln]), i) for i in range(nspk)]
    systems = rng.sample(['A', 'b', 'sys1', 'sys10', 'SYS1x', 'new-sys', 'lab.one', 'base_line', 'the_longest_name_of_a_system', 'Z9'], nsys)
    sizes = [1, 3, 6, 12, 25]
    mixed = rng.random() < .3
    alt = not seg and rng.random() < .15
    utts = []
    for s in spk:
        for u in range(nutt):
            w = gen.sent(rng, V, rng.choice(sizes) if u == 0 else rng.choice([0] + sizes))
            w = w or ([rng.choice(V)] if u == 0 else [])
            utts.append((s, u, [gen.case_mix(rng, x) if mixed and rng.random() < .3 else x for x in w]))
    apart = nsys > 1 and not seg and rng.random() < .2
    rates = [rng.choice([0, .05, .2, .5, 1.5, 3]) for _ in range(nsys)]
    order = []
    hasconf = [False] * nsys
    cmd = [B['sclite']] + (['-s'] if case_s else []) + ['-f', '0']
    outs = ''

    def mut(w, y):
        h = gen.mutate(rng, w, V, min(rates[y], 1.))
        if rates[y] > 1 and rng.random() < .6:
            h = [x for q in h for x in [q] + [rng.choice(V) for _ in range(rng.choice([0, 1, 2, int(rates[y])]))]]
        return h
    fmt = lambda us: ''.join('%s (%s-%03d)\n' % (' '.join(w), s, u) for s, u, w in us)
    if not seg:
        def ref(us):
            if not alt:
                return fmt(us)
            return ''.join('%s (%s-%03d)\n' % (' '.join('{ %s / %s }' % (x, ' '.join(rng.choice(V) for _ in range(rng.choice([1, 1, 2])))) if rng.random() < .2 else x for x in w), s, u) for s, u, w in us)
        r = ref(utts)
        ctx.write('r', r)
        for y in range(nsys):
            hy = [(s, u, mut(w, y)) for s, u, w in utts]
            if apart:
                some = rng.sample(spk, rng.randint(1, nspk)) if y else spk
                drop = rng.random() < .4 and y
                hy = [x for x in hy if x[0] in some and not (drop and x[1] and rng.random() < .3)]
                ids = {(s, u) for s, u, _ in hy}
                ry = [x for x in utts if (x[0], x[1]) in ids]
                if rng.random() < .5:
                    rng.shuffle(ry)
                ctx.write('r%d' % y, fmt(ry))
                ctx.write('h%d' % y, fmt(hy))
                outs += ctx.ok(cmd + ['-r', 'r%d' % y, 'trn', '-i', 'spu_id', '-h', 'h%d' % y, 'trn', systems[y], '-o', 'sgml', 'stdout']).out
                continue
            if rng.random() < .3:
                rng.shuffle(hy)
            ctx.write('h%d' % y, fmt(hy))
            cmd += (['-r', 'r', 'trn', '-i', 'spu_id'] if not y else []) + ['-h', 'h%d' % y, 'trn', systems[y]]
    else:
        labs = rng.sample(['O', 'F0', 'F1', 'male', 'female', 'F', 'F10', 'bg', 'x' * 30], rng.choice([0, 1, 2, 4, 6]))
        cut = rng.randint(0, len(labs))
        cats = [c for c in (labs[:cut], labs[cut:]) if c]
        head = ''
        for c, ls in enumerate(cats):
            head += ';; CATEGORY "%d" "Cat %d" "d"\n' % (c, c)
            for l in ls:
                head += ';; LABEL "%s" "T%d" "description %d"\n' % (l, len(order), len(order))
                order.append(l)
        us = list(utts)
        rng.shuffle(us)
        ctm = [''] * nsys
        hasconf = [rng.random() < .5 for _ in range(nsys)]
        stm = head
        cmd += ['-r', 'r', 'stm']
        for k, (s, u, w) in enumerate(us):
            fl = [rng.choice(c) if rng.random() < .8 else '' for c in cats]
            while fl and not fl[-1]:
                fl.pop()
            stm += 'f 1 %s %d %d %s %s\n' % (s, k * 100, k * 100 + 100, '<' + ','.join(fl) + '>' if fl else '', ' '.join(w))
            for y in range(nsys):
                for j, x in enumerate(mut(w, y)[:90]):
                    ctm[y] += 'f 1 %d.00 0.50 %s%s\n' % (k * 100 + 1 + j, x, ' %.4f' % rng.uniform(.01, .99) if hasconf[y] else '')
        ctx.write('r', stm)
        if not all(ctm):
            return
        for y in range(nsys):
            ctx.write('h%d' % y, ctm[y])
            cmd += ['-h', 'h%d' % y, 'ctm', systems[y]]
    if not apart:
        outs = ctx.ok(cmd + ['-o', 'sgml', 'stdout']).out
    P = scl.parse_sgml(outs)
    require([p['attrs']['title'] for p in P] == systems, 'alignments of %s', [p['attrs']['title'] for p in P])
    S = [p['speakers'] for p in P]
    stats = [dict(reports.spk_stats(s)) for s in S]
    f = rng.choice(['', 'E', 'R', 'W'])
    width = rng.choice([0, 0, 85, 100, 200])
    reps = ['prn'] if apart else ['sum', 'rsum', 'es', 'res', 'prn'] + (['lur'] if order else [])
    if rng.random() < .3:
        reps = rng.sample(reps, rng.randint(1, len(reps)))
    graphs = [] if apart else ['range', 'grange', 'grange2']
    c = [B['sc_stats'], '-p', '-O', '.', '-n', 'e'] + (['-e', 'a test'] if rng.random() < .5 else []) + ['-r'] + reps + (['-g'] + graphs if graphs else [])
    c += (['-f', f] if f else []) + (['-l', str(width)] if width else [])
    ctx.ok(c, stdin=outs)
    ctx.seen(seg, nsys, nspk, len(order), apart, f)
    if nsys > 1 and all(sum(d['err'] for d in st.values()) for st in stats):
        ctx.nontrivial('%d systems, %d speakers, reports %s' % (nsys, nspk, ' '.join(reps)))
    for rep, raw in (('sum', False), ('rsum', True)):
        if rep in reps:
            names = []
            for st in S:
                names += [s for s, _ in st if s not in names]
            check_sum(ctx, ctx.read('e.raw' if raw else 'e.sys'), systems, names, stats, raw)
    confs = []
    for y, sy in enumerate(S):
        ws = []
        for s, ps in sy:
            for p in ps:
                aux = p.attrs.get('word_aux', '').split(',')
                for it in p.items:
                    if it[0] != 'D' and hasconf[y]:
                        ws.append((it[0] == 'C', float(it[3 + aux.index('h_conf')])))
        confs.append(ws if hasconf[y] else None)
    for rep, raw in (('es', False), ('res', True)):
        if rep in reps:
            check_es(ctx, ctx.read('e.' + rep), systems, [reports.total(reports.spk_stats(s)) for s in S], confs, raw)
    if 'prn' in reps and nsys > 1:
        check_prn(ctx, ctx.read('e.prn'), systems, S, case_s, width or 100)
    if 'lur' in reps:
        check_lur(ctx, ctx.read('e.lur'), systems, S, order)
    if graphs:
        f = f or 'E'
        names = []
        for st in S:
            names += [s for s, _ in st if s not in names]
        pc = []
        for s in names:
            row = []
            for y in range(nsys):
                d = stats[y][s]
                row.append(100. * d['C'] / d['ref'] if f == 'R' else 100. * d['err'] / d['ref'] if f == 'E' else 100. - 100. * d['err'] / d['ref'])
            pc.append(row)
        check_range(ctx, ctx.read('e.range'), systems, names, pc, f)
        check_grange(ctx, 'e.grange', systems, names, pc, f, False)
        check_grange(ctx, 'e.grange2', systems, names, pc, f, True)
