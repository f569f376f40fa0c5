"""C27: md-eval's speaker diarization scores: exact time accounting under an optimal speaker mapping."""
import os, re
from vlib import build, gen
from vlib.core import Violation, require

N_QUICK, N_THOROUGH = 9000, 36000
RULE = ('reference and system RTTM files of 1-3 recordings and channels, 1-10 speakers each, overlapping speech, touching segments, silence, UEM partitions, '
        'NOSCORE zones, words, collars, -1, -a, -R/-S lists; non-trivial = several speakers and an exclusion or several recordings')
ASSUMPTIONS = ['no NON-LEX records in the reference', 'no word midpoint on a boundary', 'every reported condition has scored reference speech']


def prepare():
    build.get('perl')


def assign(w):
    """Maximum weight of a partial assignment; w: dict (i, j) -> positive weight."""
    rows = sorted({i for i, _ in w})
    cols = sorted({j for _, j in w})
    n = max(len(rows), len(cols))
    if not n:
        return 0
    a = [[0] * (n + 1) for _ in range(n + 1)]
    for (i, j), v in w.items():
        a[rows.index(i) + 1][cols.index(j) + 1] = -v
    INF = float('inf')
    u, v, p, way = [0] * (n + 1), [0] * (n + 1), [0] * (n + 1), [0] * (n + 1)
    for i in range(1, n + 1):
        p[0] = i
        j0 = 0
        minv = [INF] * (n + 1)
        used = [False] * (n + 1)
        while True:
            used[j0] = True
            i0, delta, j1 = p[j0], INF, 0
            for j in range(1, n + 1):
                if not used[j]:
                    cur = a[i0][j] - u[i0] - v[j]
                    if cur < minv[j]:
                        minv[j], way[j] = cur, j0
                    if minv[j] < delta:
                        delta, j1 = minv[j], j
            for j in range(n + 1):
                if used[j]:
                    u[p[j]] += delta
                    v[j] -= delta
                else:
                    minv[j] -= delta
            j0 = j1
            if p[j0] == 0:
                break
        while j0:
            j1 = way[j0]
            p[j0] = p[j1]
            j0 = j1
    return -sum(a[p[j]][j] for j in range(1, n + 1))


def ms(t):
    return '%d.%03d' % (t // 1000, t % 1000)


def gen_side(rng, names, end, step, dens):
    segs = []
    for k in names:
        t = rng.randrange(0, end // step) * step
        if rng.random() < .1:
            continue
        for _ in range(rng.choice(dens)):
            t += rng.choice([0, 0, 1, 3, 10, 60]) * step
            d = rng.choice([1, 2, 5, 20, 100]) * step
            if t + d > end:
                t = rng.randrange(0, end // step) * step
                if any(a < t + d and t < b for x, a, b in segs if x == k):
                    break
            segs.append((k, t, t + d))
            t += d
            if t >= end:
                break
    return segs


def perturb(rng, segs, names, end, step):
    """A system output related to the reference."""
    mp = {}
    out = []
    for k, a, b in segs:
        mp.setdefault(k, rng.choice(names))
        n = mp[k] if rng.random() < .8 else rng.choice(names)
        if rng.random() < .1:
            continue
        a2 = max(0, a + rng.choice([0, 0, 0, 1, -1, 5, -7]) * step)
        b2 = b + rng.choice([0, 0, 0, 1, -1, 5, -7]) * step
        if b2 > a2:
            out.append((n, a2, b2))
    return out


def nooverlap(segs):
    """Keep only segments that do not overlap an earlier kept one of the same speaker."""
    out = []
    for k, a, b in segs:
        if not any(x == k and c < b and a < d for x, c, d in out):
            out.append((k, a, b))
    return out


def sub(regs, cuts):
    """Regions minus cuts; both lists of (a, b)."""
    out = list(regs)
    for c, d in cuts:
        if d <= c:
            continue
        nxt = []
        for a, b in out:
            if d <= a or b <= c:
                nxt.append((a, b))
            else:
                if a < c:
                    nxt.append((a, c))
                if d < b:
                    nxt.append((d, b))
        out = nxt
    return sorted(out)


def elementary(regs, ref, sysm):
    pts = sorted({x for r in regs for x in r} | {x for _, a, b in ref + sysm for x in (a, b)})
    for a, b in zip(pts, pts[1:]):
        if any(r[0] <= a and b <= r[1] for r in regs):
            yield a, b, {k for k, c, d in ref if c <= a and b <= d}, {k for k, c, d in sysm if c <= a and b <= d}


KEYS = [('EVAL_TIME', '    EVAL TIME ='), ('EVAL_SPEECH', '  EVAL SPEECH ='), ('SCORED_TIME', '  SCORED TIME ='), ('SCORED_SPEECH', 'SCORED SPEECH ='),
        ('EVAL_WORDS', '   EVAL WORDS ='), ('SCORED_WORDS', ' SCORED WORDS ='), ('MISSED_SPEECH', 'MISSED SPEECH ='), ('FALARM_SPEECH', 'FALARM SPEECH ='),
        ('MISSED_WORDS', ' MISSED WORDS ='), ('SCORED_SPEAKER', 'SCORED SPEAKER TIME ='), ('MISSED_SPEAKER', 'MISSED SPEAKER TIME ='),
        ('FALARM_SPEAKER', 'FALARM SPEAKER TIME ='), ('SPEAKER_ERROR', ' SPEAKER ERROR TIME ='), ('ERROR_WORDS', 'SPEAKER ERROR WORDS =')]
BASE = {'EVAL_SPEECH': 'EVAL_TIME', 'SCORED_TIME': 'EVAL_TIME', 'SCORED_SPEECH': 'SCORED_TIME', 'SCORED_WORDS': 'EVAL_WORDS', 'MISSED_SPEECH': 'SCORED_TIME',
        'FALARM_SPEECH': 'SCORED_TIME', 'MISSED_WORDS': 'SCORED_WORDS', 'SCORED_SPEAKER': 'SCORED_SPEECH', 'MISSED_SPEAKER': 'SCORED_SPEAKER',
        'FALARM_SPEAKER': 'SCORED_SPEAKER', 'SPEAKER_ERROR': 'SCORED_SPEAKER', 'ERROR_WORDS': 'SCORED_WORDS'}


def parse(out):
    blocks = {}
    for m in re.finditer(r'\*\*\* Performance analysis for Speaker Diarization for (.*?) \*\*\*\n(.*?)(?=\n\*\*\* Perf|\Z)', out, re.S):
        require(m.group(1) not in blocks, 'condition %s reported twice', m.group(1))
        d = {}
        for k, head in KEYS:
            x = re.search('^' + re.escape(head) + r' *(-?[\d.]+) *(?:secs)? *(?:\( *(-?[\d.]+) percent)?', m.group(2), re.M)
            require(x is not None, '%s missing from the report for %s', k, m.group(1))
            d[k] = (float(x.group(1)), float(x.group(2)) if x.group(2) else None)
        x = re.search(r'OVERALL SPEAKER DIARIZATION ERROR = (-?[\d.]+) percent of scored speaker time  `\((.*)\)', m.group(2))
        require(x is not None and x.group(2) == m.group(1), 'no overall error for %s', m.group(1))
        d['DER'] = float(x.group(1))
        x = re.search(r'speaker weighted\n(.*?)\n---', m.group(2), re.S)
        d['NSPK'] = x.group(1)
        blocks[m.group(1)] = d
    return blocks


def case(ctx):
    rng = ctx.rng
    exe = os.path.join(build.get('perl'), 'md-eval.pl')
    step = rng.choice([1, 10, 10, 50, 7])
    files = [(f, rng.choice([['1'], ['1'], ['1', '2'], ['A', 'b']])) for f in rng.sample(['rec1', 'en_4156', 'Mtg-07', 'x'], rng.choice([1, 1, 1, 2, 3]))]
    pool = ['a', 'b', 'miss', 'fa', 'spk1', 'SPK1', 'm_1', 'fa0', 'inter', 'z9', 'Bob', 'q']
    collar = rng.choice([0, 0, 0, 250, 100, 1, 50])
    one = rng.random() < .2
    R, S, U = [], [], []
    data = {}
    infos = {}
    use_uem = rng.random() < .5
    for f, chans in files:
        for c in chans:
            end = rng.choice([2000, 20000, 60000]) // step * step
            rn = rng.sample(pool, rng.choice([1, 2, 3, 5, 10]))
            sn = rng.sample(pool, rng.choice([1, 2, 3, 5, 10]))
            ref = nooverlap(gen_side(rng, rn, end, step, [1, 2, 5]))
            if not ref:
                ref = [(rn[0], 0, step * 5)]
            if rng.random() < .7:
                sysm = perturb(rng, ref, sn, end, step)
            else:
                sysm = gen_side(rng, sn, end, step, [1, 2, 5])
            if rng.random() < .9:
                sysm = nooverlap(sysm)
            if rng.random() < .05:
                sysm = []
            nos = []
            if rng.random() < .3:
                for _ in range(rng.randint(1, 3)):
                    a = rng.randrange(0, end // step) * step
                    b = a + rng.choice([1, 5, 50]) * step
                    if not any(x < b and a < y for x, y in nos):
                        nos.append((a, b))
            words = []
            if rng.random() < .5:
                for k, a, b in ref:
                    for _ in range(rng.choice([0, 1, 3])):
                        w = rng.randrange(a, b)
                        words.append((k, w, w + 1))        # midpoint at half a millisecond: on no boundary
            uem = None
            if use_uem and rng.random() < .85:
                uem = []
                t = rng.choice([0, 0, 1, 10]) * step
                for _ in range(rng.randint(1, 4)):
                    a = t + rng.choice([0, 1, 20, 100]) * step
                    b = a + rng.choice([1, 30, 200, end // step // 4, end // step // 2, end // step]) * step
                    uem.append((a, b))
                    t = b
                for a, b in uem:
                    U.append('%s%s %s %s %s\n' % (f, rng.choice(['', '.sph']), c, ms(a), ms(b)))
            for src, segs, lines in (('R', ref, R), ('S', sysm, S)):
                for k in sorted({x[0] for x in segs}):
                    if rng.random() < .4:
                        g = rng.choice(['adult_male', 'adult_female', 'child', 'unknown'])
                        infos[(src, f, c.lower(), k)] = g
                        lines.append('SPKR-INFO %s %s <NA> <NA> <NA> %s %s <NA>\n' % (f, c, g, k))
                for k, a, b in segs:
                    lines.append('SPEAKER %s %s %s %s <NA> <NA> %s <NA>\n' % (f, c, ms(a), ms(b - a), k))
            for k, a, b in words:
                R.append('LEXEME %s %s %s %s w%d lex %s <NA>\n' % (f, c, ms(a), ms(b - a), rng.randint(1, 9), k))
            for a, b in nos:
                R.append('NOSCORE %s %s %s %s <NA> <NA> <NA> <NA>\n' % (f, c, ms(a), ms(b - a)))
            data[(f, c.lower())] = (ref, sysm, nos, words, uem)
    infl = [l for l in R if l.startswith('SPKR')] + rng.sample([l for l in R if not l.startswith('SPKR')], len([l for l in R if not l.startswith('SPKR')]))
    cond = rng.choice(['', '', 'f', 'c', 'cf'])
    cmd = ['perl', exe, '-M', 'map.csv', '-m']
    if rng.random() < .15 and len(files) > 1:
        cut = rng.randrange(0, len(infl) + 1)
        ctx.write('r1', ''.join(infl[:cut]))
        ctx.write('r2', ''.join(infl[cut:]))
        ctx.write('rl', 'r1\nr2\n')
        cmd += ['-R', 'rl']
    else:
        ctx.write('r.rttm', ';; comment\n' + ''.join(infl))
        cmd += ['-r', 'r.rttm']
    ctx.write('s.rttm', ''.join(S))
    cmd += ['-s', 's.rttm']
    if use_uem:
        ctx.write('u.uem', ';; c\n' + ''.join(U))
        cmd += ['-u', 'u.uem']
    cmd += ['-c', '%g' % (collar / 1000)] if collar else []
    cmd += ['-1'] if one else []
    cmd += ['-a', cond] if cond else []
    # ---- the accounting the report must show
    exp = {}
    wmap = {}
    NS = {}

    def names(f, c):
        out = ['ALL']
        if cond:
            out.append({'f': 'f=%s' % f, 'c': 'c=%s' % c, 'cf': 'c=%s f=%s' % (c, f)}[cond])
        return out
    pre = {}
    for (f, c), (ref, sysm, nos, words, uem) in data.items():
        if uem is None:
            tk = [(a, b) for _, a, b in ref + words]
            E = [(min(a for a, _ in tk), max(b for _, b in tk))]
        else:
            E = uem
        E = sub(E, nos)
        st = {k: 0 for k, _ in KEYS}
        w = {}
        seen_r, seen_s = set(), set()
        for a, b, r, s in elementary(E, ref, sysm):
            st['EVAL_TIME'] += b - a
            seen_r |= r
            seen_s |= s
            if r:
                st['EVAL_SPEECH'] += b - a
                for x in r:
                    for y in s:
                        w[(x, y)] = w.get((x, y), 0) + b - a
        col = [z for _, a, b in ref for z in ((a - collar, a + collar), (b - collar, b + collar))] if collar else []
        Sc = sub(E, col)
        if one:
            pts = sorted({x for _, a, b in ref for x in (a, b)})
            Sc = sub(Sc, [(a, b) for a, b in zip(pts, pts[1:]) if sum(x <= a and b <= y for _, x, y in ref) > 1])
        els = list(elementary(Sc, ref, sysm))
        st['EVAL_WORDS'] = sum(any(x < a + .5 < y for x, y in E) for _, a, b in words)
        pre[(f, c)] = (st, w, Sc, els, words)
        wmap[(f, c)] = w
        NS[(f, c)] = (seen_r, seen_s)
        for a, b, r, s in els:
            d = b - a
            st['SCORED_TIME'] += d
            st['SCORED_SPEECH'] += d if r else 0
            st['SCORED_SPEAKER'] += d * len(r)
    for cn in sorted({x for k in data for x in names(*k)}):
        tot = {}
        for k in data:
            if cn in names(*k):
                for x in ('EVAL_TIME', 'SCORED_TIME', 'SCORED_SPEECH', 'SCORED_SPEAKER'):
                    tot[x] = tot.get(x, 0) + pre[k][0][x]
        if not all(tot.values()):
            ctx.count('nothing_scored')
            return
    r = ctx.run(cmd)
    require(r.rc == 0, 'exit status %d\n%s', r.rc, (r.err + r.out)[-800:])
    require('BGM' not in r.err, 'no speaker mapping was found: %s', r.err[-300:])
    # the speaker map
    rows = {}
    chosen = {}
    L = ctx.read('map.csv').splitlines()
    require(L and L[0] == 'File,Channel,RefSpeaker,SysSpeaker,isMapped,timeOverlap', 'map file header: %s', L[:1])
    for l in L[1:]:
        f, c, a, b, m, t = l.split(',')
        require((f, c, a, b) not in rows, 'speaker pair listed twice: %s', l)
        rows[(f, c, a, b)] = float(t)
        if m == 'mapped':
            mp = chosen.setdefault((f, c), {})
            require(a not in mp and b not in mp.values(), 'speaker mapped twice: %s', l)
            mp[a] = b
    allw = {(f, c, a, b): v for (f, c), w in wmap.items() for (a, b), v in w.items()}
    require(set(rows) == set(allw), 'speaker pairs listed: unexpected %s, missing %s', sorted(set(rows) - set(allw))[:3], sorted(set(allw) - set(rows))[:3])
    for k in rows:
        require(abs(rows[k] - allw[k] / 1000) < 1.1e-4, 'overlap of %s is %s, listed as %s', k, allw[k] / 1000, rows[k])
    for k, w in wmap.items():
        got = sum(w[p] for p in chosen.get(k, {}).items())
        best = assign(w)
        require(abs(got - best) < 1, 'mapping of %s matches %s s where %s s is possible: %s', k, got / 1000, best / 1000, chosen.get(k))
        ctx.count('mapped_pairs', len(chosen.get(k, {})))
    tot = {}
    nspk = {}
    for k, (st, w, Sc, els, words) in pre.items():
        mp = chosen.get(k, {})
        for a, b, rs, ss in els:
            d = b - a
            st['MISSED_SPEECH'] += d if rs and not ss else 0
            st['FALARM_SPEECH'] += d if ss and not rs else 0
            st['MISSED_SPEAKER'] += d * max(len(rs) - len(ss), 0)
            st['FALARM_SPEAKER'] += d * max(len(ss) - len(rs), 0)
            hit = sum(mp.get(x) in ss for x in rs if x in mp)
            st['SPEAKER_ERROR'] += d * (min(len(rs), len(ss)) - hit)
            n = sum(a < t + .5 < b for _, t, _ in words)
            st['SCORED_WORDS'] += n
            st['MISSED_WORDS'] += 0 if ss else n
            st['ERROR_WORDS'] += n if not (len(rs) == len(ss) == hit) else 0
        types = lambda src, x: infos.get((src,) + k + (x,), 'unknown')
        joint = {}
        for x in NS[k][0]:
            t = types('S', mp[x]) if x in mp else 'MISS'
            joint[(types('R', x), t)] = joint.get((types('R', x), t), 0) + 1
        for y in NS[k][1]:
            if y not in mp.values():
                joint[('FALSE ALARM', types('S', y))] = joint.get(('FALSE ALARM', types('S', y)), 0) + 1
        for cn in names(*k):
            t = tot.setdefault(cn, {x: 0 for x, _ in KEYS})
            for x in t:
                t[x] += st[x]
            j = nspk.setdefault(cn, {})
            for x in joint:
                j[x] = j.get(x, 0) + joint[x]
    rep = parse(r.out)
    require(set(rep) == set(tot), 'conditions reported: %s, expected %s', sorted(rep), sorted(tot))
    for cn, t in tot.items():
        for x, _ in KEYS:
            v, pc = rep[cn][x]
            if x.endswith('WORDS'):
                require(v == t[x], '%s: %s is %d, reported as %g', cn, x, t[x], v)
            else:
                require(abs(v - t[x] / 1000) < .00502 + 1e-6 * t[x] / 1000, '%s: %s is %.4f, reported as %g', cn, x, t[x] / 1000, v)
            if pc is not None and t[BASE[x]]:
                p = 100.0 * t[x] / t[BASE[x]]
                require(abs(pc - p) < .0502, '%s: %s is %.3f percent, reported as %g', cn, x, p, pc)
        der = 100.0 * (t['MISSED_SPEAKER'] + t['FALARM_SPEAKER'] + t['SPEAKER_ERROR']) / t['SCORED_SPEAKER']
        require(abs(rep[cn]['DER'] - der) < .00502 + 1e-5 * der, '%s: the error is %.4f percent, reported as %g', cn, der, rep[cn]['DER'])
        # speaker types
        TL = rep[cn]['NSPK'].splitlines()
        cols = TL[0].split('(count)')[1].split()
        got = {}
        for l in TL[1:]:
            hd = l[:16].strip()
            vals = re.findall(r'(\d+) / *[\d.]+%', l[16:])
            for q, v in zip(cols, vals):
                if int(v):
                    got[(hd, q)] = int(v)
        require(got == nspk[cn], '%s: speaker types %s, reported as %s', cn, sorted(nspk[cn].items()), sorted(got.items()))
    ctx.count('reports', len(tot))
    ctx.count('intervals', sum(len(p[3]) for p in pre.values()))
    ctx.seen(len(data), collar > 0, one, cond, use_uem, any(d[2] for d in data.values()), any(d[3] for d in data.values()))
    if len(allw) > 1:
        ctx.nontrivial('%s %s %s' % (sorted(chosen.items()), sorted(tot['ALL'].items()), cmd[4:]))
