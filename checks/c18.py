"""C18: asclite trn scoring: every utterance is a minimum-cost alignment of its own two transcripts, with truthful verdicts and sums."""
from vlib import build, scl, gen, asc, reports
from vlib.core import Violation, require

N_QUICK, N_THOROUGH = 24000, 96000
RULE = ('trn pairs of 1-8 utterances with nested alternations (both sides), null words, fragments, optional words and mixed case, under '
        'every combination of -s -F -D; non-trivial = an utterance with at least one error or alternation')
ASSUMPTIONS = ['utterance ids are spu_id style', 'no word is made only of the markers "-", "(" and ")"']


def prepare():
    build.get('asclite', 'plain')


def deco(rng, w, frag, opt):
    if frag and len(w) > 1 and rng.random() < .2:
        k = rng.randint(1, len(w) - 1)
        w = rng.choice([w[:k] + '-', '-' + w[k:]])
    if opt and rng.random() < .2:
        w = '(' + w + ')'
    return w


def null_only(spec):
    """can the whole spec be read as nothing?"""
    return all((not isinstance(it, str) and any(null_only(a) for a in it)) or it == '@' for it in spec)


def case(ctx):
    rng = ctx.rng
    exe = build.get('asclite')['asclite']
    case_s = rng.random() < .4
    frag = rng.random() < .5
    opt = rng.choice(['none', 'none', 'ref', 'hyp', 'both', 'bare'])
    R = asc.Rules(case_s, frag, 'both' if opt == 'bare' else opt)
    V = [w for w in gen.vocab(rng)]
    n = rng.choice([1, 1, 2, 3, 8])
    utts = []
    wf, wo = rng.random() < .5, rng.random() < .5
    for k in range(n):
        base = gen.sent(rng, V, maxn=12)
        r = gen.with_alts(rng, base, V) if rng.random() < .6 else list(base)
        hb = gen.mutate(rng, gen.expand(rng, r), V)
        h = gen.with_alts(rng, hb, V, .15) if rng.random() < .2 else hb
        f = lambda w: w if w == '@' else deco(rng, gen.case_mix(rng, w), wf, wo)
        r, h = scl.map_words(r, f), scl.map_words(h, f)
        # a transcript that can be read as wholly empty is out of scope (see DESIGN)
        if null_only(r) and r:
            r = [rng.choice(V)] + r
        if null_only(h) and h:
            h = [rng.choice(V)] + h
        utts.append(('%s-%d' % (rng.choice(['al', 'bob', 'bo']), k), r, h))
    ro, ho = list(utts), list(utts)
    rng.shuffle(ro)
    rng.shuffle(ho)
    ctx.write('r.trn', ''.join('%s (%s)\n' % (scl.render(r), i) for i, r, h in ro))
    miss = {utts[0][0]} if n > 1 and rng.random() < .2 else set()
    ctx.write('h.trn', ''.join('%s (%s)\n' % (scl.render(h), i) for i, r, h in ho if i not in miss))
    utts = [(i, r, [] if i in miss else h) for i, r, h in utts]
    cmd = [exe, '-r', 'r.trn', 'trn', '-h', 'h.trn', 'trn', 'sys', '-i', 'spu_id', '-f', '0', '-o', 'sgml', 'rsum', 'stdout']
    cmd += ['-s'] if case_s else []
    cmd += ['-F'] if frag else []
    if opt == 'bare':
        cmd += ['-D']
    elif opt != 'none':
        cmd += ['-D', opt]
    r = ctx.run(cmd)
    require(r.rc == 0, 'exit status %d\n%s', r.rc, (r.err + r.out)[-800:])
    sysl = scl.parse_sgml(r.out)
    require(len(sysl) == 1, 'expected one SYSTEM, got %d', len(sysl))
    ctx.seen(case_s, frag, opt, n)
    U = {i: (a, b) for i, a, b in utts}
    seen = set()
    fold = (lambda s: s) if case_s else (lambda s: s.lower())
    tot = [0] * 4
    for spk, ps in sysl[0]['speakers']:
        for p in ps:
            i = p.id[1:-1]
            require(i in U and i not in seen, 'utterance %s reported %s', p.id, 'twice' if i in seen else 'but not in the input')
            seen.add(i)
            require(spk == i.rsplit('-', 1)[0], 'utterance %s listed under speaker %s', i, spk)
            a, b = U[i]
            rn, hn = asc.WNet([scl.map_words(a, fold)]), asc.WNet([scl.map_words(b, fold)])
            rw = [it[1] for it in p.items if it[1]]
            hw = [it[2] for it in p.items if it[2]]
            require(asc.is_path(rw, rn), 'utterance %s: reference side %s is not a reading of %s', i, rw, scl.render(a))
            require(asc.is_path(hw, hn), 'utterance %s: hypothesis side %s is not a reading of %s', i, hw, scl.render(b))
            got = sum(asc.item_cost(it, R) for it in p.items)
            exp = asc.best([rn], [hn], R)
            if exp is None:
                ctx.count('too_big')
                continue
            require(got == exp, 'utterance %s: alignment of cost %d reported where cost %d exists; ref %s ; hyp %s ; %s', i, got, exp,
                    scl.render(a), scl.render(b), p.items)
            ctx.count('utterances')
            ctx.count('words', len(p.items))
            if got or len(a) != len(rn.words):
                ctx.nontrivial('utterance of %d items, cost %d, options %s%s%s' % (len(p.items), got, case_s, frag, opt))
            for k, c in enumerate(p.counts()):
                tot[k] += c
    require(len(seen) == n, 'utterances not reported: %s', sorted(set(U) - seen))
