"""C03: which words count as the same is exactly what the options say (case, fragments, optionally deletable words)."""
from vlib import build, scl, gen
from vlib.core import Violation, require

N_QUICK, N_THOROUGH = 20000, 80000
RULE = ('word pairs and sentences built around near-misses (case variants, prefixes and suffixes, fragments on either side, optionally '
        'deletable words) scored with random -s/-F/-D; non-trivial = some pair differs as a string yet must match, or differs only in case')
ASSUMPTIONS = ['ASCII words; a fragment is matched against a whole word of the other side']


def prepare():
    build.get('sclite', 'plain')


def near(rng, w):
    r = rng.random()
    k = rng.randint(1, len(w))
    if r < .2:
        return w
    if r < .35:
        return w.upper() if rng.random() < .5 else w.capitalize()
    if r < .5:
        return w[:k]
    if r < .6:
        return w[-k:]
    if r < .7:
        return w + rng.choice('abs')
    if r < .8:
        return rng.choice('abs') + w
    return w[:k - 1] + rng.choice('abcdes') + w[k:]


def case(ctx):
    rng = ctx.rng
    sclite = build.get('sclite')['sclite']
    opts = {'case': rng.random() < .5, 'frag': rng.random() < .6, 'od': rng.random() < .5}
    R = scl.Rules(opts['case'], opts['frag'], opts['od'])
    fside = rng.choice('rh')
    stems = [''.join(rng.choice('abcdes') for _ in range(rng.randint(1, 6))) for _ in range(rng.randint(1, 4))]
    utts = []
    for k in range(rng.randint(2, 10)):
        n = rng.choice([1, 1, 1, 2, 3, 5])
        a = [near(rng, rng.choice(stems)) for _ in range(n)]
        b = [near(rng, w) for w in a]
        if rng.random() < .3 and n > 1:
            b.pop(rng.randrange(n))

        def deco(w, side):
            if side == fside and rng.random() < .35:         # fragments also appear when -F is off: then they are plain words
                w = w + '-' if rng.random() < .6 else '-' + w
            if rng.random() < .25:
                w = '(' + w + ')'
            return w
        utts.append(([deco(w, 'r') for w in a], [deco(w, 'h') for w in b]))
    ids = ['s%d-%02d' % (rng.randint(0, 1), k) for k in range(len(utts))]
    # a parenthesised last word would be taken for the id only if the id were missing: ids are always present
    ctx.write('r.trn', gen.trn_file([(' '.join(r), i) for (r, h), i in zip(utts, ids)]))
    ctx.write('h.trn', gen.trn_file([(' '.join(h), i) for (r, h), i in zip(utts, ids)]))
    flags = (['-s'] if opts['case'] else []) + (['-F'] if opts['frag'] else []) + (['-D'] if opts['od'] else [])
    base = [sclite, '-i', 'spu_id', '-o', 'sgml', 'stdout']
    r = ctx.ok(base + ['-r', 'r.trn', 'trn', '-h', 'h.trn', 'trn'] + flags)
    paths = {p.id: p for _, ps in scl.parse_sgml(r.out)[0]['speakers'] for p in ps}
    for (ref, hyp), i in zip(utts, ids):
        p = paths.get('(%s)' % i)
        require(p is not None, 'utterance %s missing', i)
        rn = scl.Net([R.norm(w) for w in ref])
        hn = scl.Net([R.norm(w) for w in hyp])
        got, best = scl.explain_cost(rn, hn, p.items, R), scl.best_cost(rn, hn, R)
        require(got is not None, 'utterance %s (options %s): ref %s hyp %s: labels do not follow the matching rules: %s', i, flags, ref, hyp, p.items)
        require(got <= best + 1e-3, 'utterance %s (options %s): ref %s hyp %s: cost %.3f but %.3f is possible: %s', i, flags, ref, hyp, got, best, p.items)
        for it in p.items:
            ctx.count('pairs')
            ctx.seen(it[0], tuple(sorted(flags)), '-' in (it[1] or ''), '-' in (it[2] or ''), it[1] == it[2])
        if any(it[0] == 'C' and it[1] != it[2] for it in p.items) or [w.lower() for w in ref] == [w.lower() for w in hyp] != [] and ref != hyp:
            ctx.nontrivial('%s | %s | %s' % (' '.join(ref), ' '.join(hyp), p.items))
    if not opts['case']:
        # case folding is a pure pre-processing of the words: another casing of the same words gives the same alignments
        rc = lambda ws: [gen.case_mix(rng, w) for w in ws]
        ctx.write('r2.trn', gen.trn_file([(' '.join(rc(r)), i) for (r, h), i in zip(utts, ids)]))
        ctx.write('h2.trn', gen.trn_file([(' '.join(rc(h)), i) for (r, h), i in zip(utts, ids)]))
        r2 = ctx.ok(base + ['-r', 'r2.trn', 'trn', '-h', 'h2.trn', 'trn'] + flags)
        p2 = {p.id: p.items for _, ps in scl.parse_sgml(r2.out)[0]['speakers'] for p in ps}
        for k, p in paths.items():
            require(p2.get(k) == p.items, 'recasing the input changed the alignment of %s: %s -> %s', k, p.items, p2.get(k))
