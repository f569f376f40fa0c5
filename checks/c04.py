"""C04: trn utterances are paired by id, grouped under the right speaker, exactly once, and unscorable sets are refused."""
from vlib import build, scl, gen
from vlib.core import Violation, require

N_QUICK, N_THOROUGH = 40000, 160000
RULE = ('trn files with shuffled and surplus references, comments, blank lines, mixed-case ids, every id type, missing final newlines; and '
        'defective sets (missing reference, duplicate hypothesis, conflicting references); non-trivial = at least two utterances or a defective set')
ASSUMPTIONS = ['utterance ids made of letters, digits, "-" and "_"']
BIG = True


def prepare():
    build.get('sclite', 'plain')


def mkid(rng, idt, k, nspk):
    s = rng.randrange(nspk)
    if idt in ('wsj', 'atis'):
        return 'abcdefgh'[s] + 'xyz'[s % 3] + 'pq'[s % 2] + '%c%02d' % (rng.choice('abc'), k)
    if idt == 'sp':
        return 'spk%d-%d' % (s, k)
    sep = rng.choice('-_') if idt != 'spu_id' else '-'
    base = ['dave', 'anna0', 'sw2005', 'a', 'bc', 'bcd', 'long' * 8, 'x1'][s % 8]
    return base + sep + rng.choice(['%s%03d', '%s%d', '%s1%d']) % (rng.choice(['', '', 'a', 'b-', 'x_']), k)


def spk_of(idt, i):
    if idt in ('wsj', 'atis'):
        return i[:3]
    if idt == 'sp':
        return '(%s)' % i
    p = i.find('-')
    if p < 0:
        p = i.find('_')
    return i[:p]


def case(ctx):
    rng = ctx.rng
    sclite = build.get('sclite')['sclite']
    idt = rng.choice(['wsj', 'sp', 'rm', 'spu_id', 'swb'])
    case_s = rng.random() < .4
    n = rng.choice([1, 2, 3, 5, 8, 15, 40]) if rng.random() < .95 else rng.choice([120, 300])
    nspk = rng.choice([1, 2, 4, 8])
    V = gen.vocab(rng, 8, rng.choice(['en', 'letters']))
    ids, used = [], set()
    for k in range(n):
        i = mkid(rng, idt, k, nspk)
        while i.lower() in used:
            i = i + 'q'
        used.add(i.lower())
        ids.append(i)
    utts = {}
    for i in ids:
        r = gen.sent(rng, V, rng.choice([0, 1, 2, 4, 7]))
        utts[i] = (r, gen.mutate(rng, r, V))
    cm = (lambda i: i) if case_s else (lambda i: gen.case_mix(rng, i))
    refs = [(i, utts[i][0]) for i in ids]
    for k in range(rng.choice([0, 0, 1, 5])):     # surplus references are legal
        refs.append(('zzz%d-%d' % (k, k), gen.sent(rng, V, 3)))
    if rng.random() < .2 and refs:               # the same reference twice is legal
        refs.append(refs[0])
    rng.shuffle(refs)
    hyps = [(i, utts[i][1]) for i in ids]
    rng.shuffle(hyps)
    defect = rng.choice(['none', 'none', 'none', 'none', 'missing', 'dup', 'conflict'])
    miss = []
    if defect == 'missing':
        miss = rng.sample(ids, rng.randint(1, min(3, n)))
        refs = [x for x in refs if x[0] not in miss]
    elif defect == 'dup':
        v = rng.choice(hyps)
        hyps.insert(rng.randint(0, len(hyps)), v)
        miss = [v[0]]
    elif defect == 'conflict':
        v = rng.choice(ids)
        refs = [x for x in refs if x[0] != v]
        a, b = ['alpha'] + gen.sent(rng, V, 3), ['beta'] + gen.sent(rng, V, 3)
        x = rng.random()
        if x < .2:
            b = a[:rng.randint(0, 3)]
        elif x < .4:
            b = a + gen.sent(rng, V, 1)
        elif x < .5:
            b = a[:-1] + [a[-1] + 'x']
        if rng.random() < .5:
            a, b = b, a
        miss = [v]
        refs.insert(rng.randint(0, len(refs)), (v, a))
        refs.insert(rng.randint(0, len(refs)), (v, b))

    def emit(lst, comments):
        s = ''
        for i, w in lst:
            if comments and rng.random() < .2:
                s += rng.choice([';; a comment (not-id)\n', '\n', '   \n', ';;\n', '** info (x)\n'])
            s += ' '.join(w) + (' ' if w else '') + '(%s)\n' % cm(i)
        if rng.random() < .2:
            s = s.rstrip('\n')
        return s
    ctx.write('r.trn', emit(refs, rng.random() < .4))
    ctx.write('h.trn', emit(hyps, rng.random() < .4))
    cmd = [sclite, '-r', 'r.trn', 'trn', '-h', 'h.trn', 'trn', '-i', idt, '-o', 'sgml', 'stdout'] + (['-s'] if case_s else [])
    r = ctx.run(cmd)
    ctx.seen(idt, defect, case_s, min(n, 20))
    if defect != 'none':
        ctx.count('defective_sets')
        ctx.nontrivial('%s set of %d utterances, id type %s: exit %d' % (defect, n, idt, r.rc))
        require(r.rc != 0, 'a set with a %s was scored (exit 0)', {'missing': 'missing reference', 'dup': 'duplicated hypothesis id', 'conflict': 'conflicting pair of references'}[defect])
        require(r.rc > 0, 'killed by signal %d on a defective set', -r.rc)
        require('<PATH' not in r.out, 'alignments were reported for a refused set')
        low = r.err.lower()
        for m in miss:
            require('(%s)' % m.lower() in low, 'utterance %s (%s) is not named in the error report: %s', m, defect, r.err[:500])
        return
    require(r.rc == 0, 'exit status %d on a valid set\n%s', r.rc, r.err[-800:])
    if n > 1:
        ctx.nontrivial('%d utterances, %d speakers, id type %s' % (n, nspk, idt))
    sysl = scl.parse_sgml(r.out)
    require(len(sysl) == 1, 'expected one SYSTEM, got %d', len(sysl))
    fold = (lambda s: s) if case_s else (lambda s: s.lower())
    exp = {}
    for i, w in hyps:
        exp.setdefault(spk_of(idt, fold(i)), []).append(fold(i))
    got = {}
    for s, ps in sysl[0]['speakers']:
        require(s not in got, 'speaker %s reported twice', s)
        got[s] = [p.id for p in ps]
    e2 = {k: ['(%s)' % i for i in v] for k, v in exp.items()}
    require({k: sorted(v) for k, v in got.items()} == {k: sorted(v) for k, v in e2.items()},
            'speakers and utterances: reported %s, expected %s', got, e2)
    U = {fold(i): v for i, v in utts.items()}
    for s, ps in sysl[0]['speakers']:
        for p in ps:
            ctx.count('utterances')
            rw = [it[1] for it in p.items if it[0] != 'I']
            hw = [it[2] for it in p.items if it[0] != 'D']
            er, eh = U[p.id[1:-1]]
            require(rw == [fold(w) for w in er] and hw == [fold(w) for w in eh],
                    'utterance %s: scored %s against %s, expected %s against %s', p.id, hw, rw, eh, er)
