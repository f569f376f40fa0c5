"""C21: a UEM file restricts asclite's scoring to exactly the evaluated regions."""
from vlib import build, scl, gen, asc
from vlib.asc import Seg, Tok, ms
from vlib.core import Violation, require
from checks import c19

N_QUICK, N_THOROUGH = 36000, 144000
RULE = ('stm/rttm references and ctm/rttm hypotheses with UEM files of 0-4 regions per recording and channel that contain, exclude, touch or cut '
        'segments, applied to ref, hyp or both, with and without inter-segment gaps; non-trivial = some segment or word is left out')
ASSUMPTIONS = c19.ASSUMPTIONS + ['UEM regions of a channel are disjoint and sorted', 'no recording name is the beginning of another']


def prepare():
    build.get('asclite', 'plain')


def case(ctx):
    rng = ctx.rng
    exe = build.get('asclite')['asclite']
    V = gen.vocab(rng, rng.choice([2, 3, 6]), 'en')
    rr, hr = rng.choice([(False, False), (False, False), (False, True), (True, True)])
    R = asc.Rules(False, False, 'none')
    files = [(f, rng.choice([['1'], ['1'], ['1', '2'], ['A', 'B']])) for f in rng.sample(['q1', 'rec', 'en_4156', 'zz-top'], rng.choice([1, 1, 2]))]
    segs = c19.gen_ref(rng, V, files, not rr, rr)
    for s in segs:
        s.ign = False
    noisg = rng.random() < .4
    toks = c19.gen_hyp(rng, V, segs, files, hr, True)
    if not toks:
        return
    opt = rng.choice(['ref', 'hyp', 'both', 'both', 'ref'])
    uem = {}
    cut = rng.random() < .2 and (opt != 'hyp' or noisg)
    lines = []
    for f, chans in files:
        for c in chans:
            if rng.random() < .1:
                continue
            S = asc.grouping([s for s in segs if (s.file, s.chan) == (f, c)])
            ext = [(min(s.t1 for s in g), max(s.t2 for s in g)) for g in S]
            reg = []
            t = 0
            i = 0
            while i < len(ext):
                if rng.random() < .25:
                    i += 1
                    continue
                j = min(len(ext) - 1, i + rng.choice([0, 0, 1, 3]))
                a = ext[i][0] - rng.choice([0, 0, 1, 100, 700])
                b = ext[j][1] + rng.choice([0, 0, 1, 100, 700])
                if cut:
                    a += rng.choice([0, 0, -60, 60])
                    b += rng.choice([0, 0, -60, 60])
                if j + 1 < len(ext) and not cut:
                    b = min(b, ext[j + 1][0])
                a = max(a, t, ext[i - 1][1] if i and not cut else 0)
                if a < b:
                    reg.append((a, b))
                    t = b
                i = j + 1
            if reg:
                uem[(f, c)] = reg
            for a, b in reg:
                lines.append('%s %s %s %s\n' % (f, c, ms(a), ms(b)))
    lines += ['other 1 0.0 100.0\n'] if rng.random() < .2 or not lines else []
    ctx.write('u.uem', ';; comment\n' * rng.randint(0, 1) + ''.join(lines))
    cmd = [exe] + c19.write_ref(ctx, segs, rr, rng) + c19.write_hyp(ctx, toks, hr) + ['-f', '0', '-o', 'sgml', 'stdout', '-uem', 'u.uem', opt]
    cmd += ['-noisg'] if noisg else []
    bad = [s for s in segs if opt != 'hyp' and not any(a <= s.t1 and s.t2 <= b for a, b in uem.get((s.file, s.chan), []))
           and any(a < s.t2 and s.t1 < b for a, b in uem.get((s.file, s.chan), []))]
    keep = segs if opt == 'hyp' else [s for s in segs if any(a <= s.t1 and s.t2 <= b for a, b in uem.get((s.file, s.chan), []))]
    ktok = toks if opt == 'ref' else [t for t in toks if any(a <= t.mid() <= b for a, b in uem.get((t.file, t.chan), []))]
    if not bad and (not keep or not any(s.spec for s in keep)):
        ctx.count('nothing_to_score')
        return
    r = ctx.run(cmd)
    if bad:
        require(r.rc != 0, 'segment %s-%s of %s is cut by the UEM regions %s but was accepted', ms(bad[0].t1), ms(bad[0].t2), bad[0].file, uem.get((bad[0].file, bad[0].chan)))
        require('<SYSTEM' not in r.out, 'a report was written although segments are cut by the UEM')
        ctx.count('refused')
        ctx.nontrivial('refused cut segment %s' % opt)
        return
    require(r.rc == 0, 'exit status %d\n%s', r.rc, (r.err + r.out)[-800:])
    c19.judge(ctx, r, keep, ktok, R, str.lower, uem, not noisg)
    if len(keep) < len(segs) or len(ktok) < len(toks):
        ctx.nontrivial('%s: %d of %d segments, %d of %d words kept' % (opt, len(keep), len(segs), len(ktok), len(toks)))
    ctx.seen('uem', opt, noisg, rr, hr, len(uem), len(keep) < len(segs), len(ktok) < len(toks))
