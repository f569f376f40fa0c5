"""C01: sclite's alignment is a minimum-cost alignment."""
from vlib import build, scl, gen
from vlib.core import Violation, require

N_QUICK, N_THOROUGH = 6000, 60000
RULE = ('random trn reference/hypothesis pairs (nested alternations, null alternatives, fragments, optionally deletable words, '
        'random case) scored by the real sclite; non-trivial = at least one utterance whose alignment contains an error or an alternation')
ASSUMPTIONS = ['utterances up to 400 words; alternation nesting up to 3']


def prepare():
    build.get('sclite', 'plain')


def utterance(rng, V, opts):
    n = rng.choice([0, 1, 2, 3, 4, 5, 6, 8, 10, 12, 15, 20, 30, 60])
    if rng.random() < .004:
        n = rng.choice([200, 400])
    words = gen.sent(rng, V, n)
    p = 0 if n > 20 else rng.choice([0, 0, 0.15, 0.4])
    ref = gen.with_alts(rng, words, V, p, rng.choice([1, 2, 3]))
    h = gen.mutate(rng, gen.expand(rng, ref), V)
    hyp = gen.with_alts(rng, h, V, 0.2, 1) if rng.random() < .12 and n <= 12 else list(h)
    fr_side = rng.choice(['r', 'h'])

    def deco(side):
        def f(w):
            if w == '@':
                return w
            if opts['frag'] and side == fr_side and rng.random() < .25 and len(w) > 0 and w.isalnum():
                k = rng.randint(1, len(w))
                w = (w[:k] + '-') if rng.random() < .7 else ('-' + w[-k:])
            elif opts['od'] and rng.random() < .3:
                w = '(' + w + ')'
            return gen.case_mix(rng, w)
        return f
    return scl.map_words(ref, deco('r')), scl.map_words(hyp, deco('h'))


def case(ctx):
    rng = ctx.rng
    sclite = build.get('sclite')['sclite']
    opts = {'case': rng.random() < .3, 'frag': rng.random() < .3, 'od': rng.random() < .3}
    V = gen.vocab(rng)
    utts = [utterance(rng, V, opts) for _ in range(rng.randint(1, 6))]
    ids = ['sp%c-%02d' % (rng.choice('ab'), k) for k in range(len(utts))]
    ctx.write('r.trn', gen.trn_file([(scl.render(r), i) for (r, h), i in zip(utts, ids)]))
    ctx.write('h.trn', gen.trn_file([(scl.render(h), i) for (r, h), i in zip(utts, ids)]))
    cmd = [sclite, '-r', 'r.trn', 'trn', '-h', 'h.trn', 'trn', '-i', 'spu_id', '-o', 'sgml', 'stdout']
    if opts['case']:
        cmd.append('-s')
    if opts['frag']:
        cmd.append('-F')
    if opts['od']:
        cmd.append('-D')
    r = ctx.ok(cmd)
    judge(ctx, r.out, utts, ids, opts)


def judge(ctx, out, utts, ids, opts):
    R = scl.Rules(opts['case'], opts['frag'], opts['od'])
    sysl = scl.parse_sgml(out)
    require(len(sysl) == 1, 'expected one SYSTEM')
    paths = {p.id: p for _, ps in sysl[0]['speakers'] for p in ps}
    for (ref, hyp), i in zip(utts, ids):
        pid = '(%s)' % i
        require(pid in paths, 'utterance %s missing from the alignments', i)
        p = paths[pid]
        rn = scl.Net(scl.map_words(ref, R.norm))
        hn = scl.Net(scl.map_words(hyp, R.norm))
        best = scl.best_cost(rn, hn, R)
        got = scl.explain_cost(rn, hn, p.items, R)
        ctx.count('alignments_judged')
        ctx.count('aligned_words', len(p.items))
        ctx.seen(tuple(it[0] for it in p.items)[:12])
        if any(it[0] != 'C' for it in p.items) or rn.n_nodes != len(ref) + 1:
            ctx.nontrivial('ref: %s | hyp: %s | %s' % (scl.render(ref)[:120], scl.render(hyp)[:120], ''.join(x[0] for x in p.items)))
        require(got is not None, 'utterance %s: reported alignment is not an alignment of the given reference and hypothesis\n ref %s\n hyp %s\n ali %s',
                i, scl.render(ref), scl.render(hyp), p.items)
        require(got <= best + 0.0006, 'utterance %s: reported alignment costs %.3f, an alignment of cost %.3f exists\n ref %s\n hyp %s\n ali %s',
                i, got, best, scl.render(ref), scl.render(hyp), p.items)
