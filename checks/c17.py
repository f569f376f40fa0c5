"""C17: rover keeps every word of every system in order, aligns each system at minimal cost and votes by its formula."""
import re
from vlib import build, gen
from vlib.core import Violation, require

N_QUICK, N_THOROUGH = 2000, 40000
RULE = ('2..12 random time-marked hypothesis files over several recordings and channels, with and without long common silences, systems that end early, every '
        'voting method, alpha, null confidence, -s and -T; non-trivial = some correspondence set holds two different words')
ASSUMPTIONS = ['confidences lie in 0..1 and are given for all words; hypothesis words hold no alternations, tags (;) or the null word @',
               'fewer than 50 different words meet in one correspondence set']
METHS = ['meth1', 'maxconf', 'avgconf']


def prepare():
    build.get('sclite', 'plain')


def q(x):
    return round(x * 8) / 8.0


def parse_putat(t, names):
    lines = t.split('\n')
    require(lines[0] == '<input names="%s">' % ' '.join(names), 'putat header wrong: %s', lines[0][:100])
    sets = []
    cur = None
    for l in lines[1:]:
        m = re.match(r'<putative_tag file=(\S+) chan=(\S+) >$', l)
        if m:
            cur = (m.group(1), m.group(2), [])
            continue
        m = re.match(r'   <attrib tag="(.*)" t1="(\S+)" t2="(\S+)" conf="(\S+)" tag1="(.*)">$', l)
        if m:
            cur[2].append((m.group(1), float(m.group(2)), float(m.group(3)), float(m.group(4)), m.group(5)))
            continue
        if l == '</putative_tag >':
            sets.append(cur)
            cur = None
            continue
        require(l == '', 'unexpected line in putat output: %s', l[:100])
    require(cur is None, 'unterminated correspondence set')
    return sets


def wcost(words, w):
    """cost of putting w (None: nothing) against a correspondence set holding words ('@' included)"""
    if w is None:
        return .001 if '@' in words else 3.0
    best = 9.
    for x in words:
        best = min(best, 1.0 if x == '@' else 0.0 if x == w else 4.0)
    return best


def optimum(sets, words):
    n = len(words)
    row = [3.0 * j for j in range(n + 1)]
    for s in sets:
        d = wcost(s, None)
        new = [row[0] + d]
        for j in range(1, n + 1):
            new.append(min(row[j] + d, new[j - 1] + 3.0, row[j - 1] + wcost(s, words[j - 1])))
        row = new
    return row[n]


def make(ctx, rng):
    V = gen.vocab(rng)
    V = [w for w in V if re.match(r'^[\w\x27.-]+$', w)] or ['a', 'b']
    nsys = rng.choice([2, 2, 3, 3, 4, 5, 8, 12])
    dense = rng.random() < .6
    cs = rng.random() < .3
    convs = []
    for f in range(rng.choice([1, 1, 2, 3])):
        for c in rng.choice([['A'], ['A', 'B'], ['1']]):
            convs.append(('file%d' % f if rng.random() < .8 else 'a.b_%d' % f, c))
    seen = set()
    convs = [c for c in convs if c[0] + c[1] not in seen and not seen.add(c[0] + c[1])]
    short = {y: rng.randrange(1, len(convs) + 1) for y in range(1, nsys) if rng.random() < .1}   # the system ends after this many channels
    data = [dict() for _ in range(nsys)]
    for k, cv in enumerate(convs):
        base = gen.sent(rng, V, rng.choice([1, 2, 5, 12, 30]))
        for y in range(nsys):
            if y in short and k >= short[y]:
                continue
            h = gen.mutate(rng, base, V) or [rng.choice(V)]
            if rng.random() < .1:
                h = h[:1]
            t = 0.0 if dense else rng.choice([0, 0, 4.])
            out = []
            for w in h:
                w = gen.case_mix(rng, w)
                d = rng.choice([.125, .25, .5])
                out.append((w, t, d, q(rng.random())))
                t += d + (0 if dense else rng.choice([0, 0, .25, 1.0, 1.125, 3, 7]))
            data[y][cv] = out
    return nsys, dense, cs, convs, data


def case(ctx):
    rng = ctx.rng
    b = build.get('sclite', 'plain')
    nsys, dense, cs, convs, data = make(ctx, rng)
    names = ['h%d' % y for y in range(nsys)]
    low = (lambda s: s) if cs else str.lower
    for y in range(nsys):
        ctx.write(names[y], ''.join('%s %s %.3f %.3f %s %.3f\n' % (c[0], c[1], t, d, w, cf) for c in convs if c in data[y] for w, t, d, cf in data[y][c])
                  + (';; a comment\n' if rng.random() < .2 else ''))
    T = rng.random() < .2
    opts = (['-s'] if cs else []) + (['-T'] if T else []) + ['-f', rng.choice(['0', '1'])]
    nc = q(rng.random())
    hs = [x for n in names for x in ('-h', n, 'ctm')]
    ctx.ok([b['rover']] + hs + opts + ['-c', nc, '-m', 'putat', '-o', 'put'])
    sets = parse_putat(ctx.read('put', 'utf-8'), names)
    # conservation: one entry per system, every word once, in order, with its own times and confidence
    got = [[] for _ in range(nsys)]
    for f, c, arcs in sets:
        require(len(arcs) == nsys, 'a correspondence set holds %d entries for %d systems', len(arcs), nsys)
        tags = [a[4] for a in arcs if a[0] != '@']
        require(len(set(tags)) == len(tags) and tags and all(t in names for t in tags), 'a correspondence set holds two words of one system or none: %r', arcs)
        for a in arcs:
            if a[0] == '@':
                require(abs(a[3] - nc) < 1e-5, 'null entry with confidence %s, expected %s', a[3], nc)
            else:
                got[int(a[4][1:])].append((f, c) + a[:4])
    for y in range(nsys):
        exp = [(low(c[0]), low(c[1]), low(w), t, t + d, cf) for c in convs if c in data[y] for w, t, d, cf in data[y][c]]
        require(len(exp) == len(got[y]), 'system %d: %d words in the aligned output, %d in its file', y, len(got[y]), len(exp))
        for e, g in zip(exp, got[y]):
            require(e[:3] == g[:3] and all(abs(p - r) < 2e-3 for p, r in zip(e[3:], g[3:])), 'system %d: word %r came out as %r', y, e, g)
    ctx.count('words_conserved', sum(map(len, got)))
    ctx.count('sets', len(sets))
    multi = any(len(set(a[0] for a in s[2])) > 1 for s in sets)
    if multi:
        ctx.nontrivial('%d systems, %d channels, %d sets, dense=%s T=%s' % (nsys, len(convs), len(sets), dense, T))
    ctx.seen('n%d' % nsys, dense, T, cs, min(len(sets), 30))
    # every system joins the composite of the preceding ones at minimal cost (one chunk per channel)
    if dense and not T:
        for cv in convs:
            key = (low(cv[0]), low(cv[1]))
            here = [s[2] for s in sets if (s[0], s[1]) == key]
            rows = [dict((int(a[4][1:]), a[0]) for a in arcs if a[0] != '@') for arcs in here]
            for k in range(1, nsys):
                comp, cost = [], 0.0
                for r in rows:
                    old = [r.get(j, '@') for j in range(k)]
                    new = r.get(k)
                    if all(o == '@' for o in old):
                        cost += 3.0 if new is not None else 0
                    else:
                        cost += wcost(old, new)
                        comp.append(old)
                best = optimum(comp, [r[k] for r in rows if k in r])
                require(cost < best + 1e-3, 'system %d of channel %s %s is aligned at cost %.3f, the minimum is %.3f', k, cv[0], cv[1], cost, best)
                ctx.count('optimal_joins')
    # voting
    for meth in rng.sample(METHS, 2):
        alpha = rng.choice([0, .25, .5, .75, 1.0, 1.0])
        ctx.ok([b['rover']] + hs + opts + ['-c', nc, '-a', alpha, '-m', meth, '-o', 'voted'])
        outl = [l.split(' ') for l in ctx.read('voted', 'utf-8').split('\n') if l]
        idx = {0}
        for f, c, arcs in sets:
            words = {}
            for a in arcs:
                words.setdefault(a[0], []).append(a)
            tot = sum(a[3] for a in arcs)
            score = {}
            for w, aa in words.items():
                occ = len(aa) / float(nsys)
                if meth == 'meth1':
                    cf = sum(a[3] for a in aa) / len(aa)
                elif meth == 'maxconf':
                    cf = max(a[3] for a in aa)
                else:
                    cf = sum(a[3] for a in aa) / tot if tot else 0.0
                score[w] = alpha * occ + (1 - alpha) * cf
            m = max(score.values())
            nxt = set()
            for w, sc in score.items():
                if sc < m - 1e-6:
                    continue
                for i in idx:
                    if w == '@':
                        nxt.add(i)
                    elif i < len(outl) and len(outl[i]) == 6:
                        aa = words[w]
                        n = len(aa)
                        e = (sum(a[1] for a in aa) / n, sum(a[2] - a[1] for a in aa) / n, sum(a[3] for a in aa) / n)
                        o = outl[i]
                        if o[0] == f and o[1] == c and o[4] == w and all(abs(x - float(v)) < 1.1e-3 for x, v in zip(e, (o[2], o[3], o[5]))):
                            nxt.add(i + 1)
            require(nxt, '%s -a %s -c %s: after output word(s) %s no winner of the set %r follows; output has %s', meth, alpha, nc, sorted(idx),
                    sorted(score.items()), [outl[i] if i < len(outl) else 'end' for i in sorted(idx)])
            idx = nxt
        require(len(outl) in idx, '%s: the voted output goes on after the last correspondence set: %r', meth, outl[max(idx):][:3])
        ctx.count('votes', len(sets))
    # oracle: the sets as alternations
    if rng.random() < .3:
        ctx.ok([b['rover']] + hs + opts + ['-c', nc, '-m', 'oracle', '-o', 'orc'])
        exp = []
        for f, c, arcs in sets:
            ws = list(dict.fromkeys(a[0] for a in arcs))
            exp.append((f, c, sorted(ws)))
        got, cur = [], None
        for l in ctx.read('orc', 'utf-8').split('\n'):
            p = l.split(' ')
            if not l:
                continue
            if p[4] == '<ALT_BEGIN>':
                cur = []
            elif p[4] == '<ALT_END>':
                got.append((p[0], p[1], sorted(cur)))
                cur = None
            elif p[4] == '<ALT>':
                pass
            elif cur is None:
                got.append((p[0], p[1], [p[4]]))
            else:
                cur.append(p[4])
        require(got == exp, 'the oracle transcript is not the set of correspondence sets: %r / %r', [g for g in got if g not in exp][:2], [g for g in exp if g not in got][:2])
        ctx.count('oracle_sets', len(sets))
    # a system with another recording or channel is refused, not merged
    if rng.random() < .1:
        y = rng.randrange(1, nsys)
        k = rng.randrange(len(convs))
        if convs[k] in data[y]:
            old = ctx.read(names[y], 'utf-8').split('\n')
            f, c = convs[k]
            if rng.random() < .5:
                nl = [re.sub(r'^(\S+) \S+', r'\1 Q', l) if l.startswith(f + ' ' + c + ' ') else l for l in old]
            else:
                nl = ['other' + l if l.startswith(f + ' ') else l for l in old]
            ctx.write(names[y], '\n'.join(nl))
            r = ctx.run([b['rover']] + hs + opts + ['-m', 'meth1', '-o', 'voted'])
            require(r.rc != 0, 'hypotheses of different recordings or channels were merged')
            ctx.count('mismatch_refused')
