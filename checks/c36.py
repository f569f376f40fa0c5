"""C36: hubscr scores the filtered records of its input files, whatever their order and spacing, and refuses files that do not validate."""
import os, re
from vlib import build
from vlib.core import Violation, require

N_QUICK, N_THOROUGH = 650, 8000
RULE = ('random stm references (1-3 recordings, 1-2 channels, labels, comments) and 1-3 ctm hypothesis files (confidences, extended records with types and speakers for rt-stt), records in random order with random '
        'spacing, random map files, languages and hubs, sclite and asclite; the filtered files and every report are compared with those of the canonically sorted and filtered records given to '
        'csrfilt, sclite/asclite and sc_stats directly; defective hypotheses must be refused; non-trivial = scored with at least one error')
ASSUMPTIONS = ['csrfilt, sclite, asclite and sc_stats themselves are judged by the other checks', 'no alternations in ctm input, no two words of a channel begin at the same time, no hypothesis without a scored word']
ENG = ['a', 'the', 'cat', 'dog', 'gonna', 'uh', 'um', "he's", 'well-known', 'okay', 'th-', 'house', 'of', 'to', 'go', 'going', 'i', 'U.', 'mm-hm']
ARB = ['\xd8\xa3\xd9\x87', '\xd8\xa7\xd9\x87', '\xd8\xa5\xd9\x8a\xd9\x88\xd9\x87', '\xd8\xb7\xd8\xa8\xd8\xb9\xd8\xa7\xd9\x8b', '\xd8\xb7\xd8\xa8\xd8\xb9\xd8\xa7', '\xd9\x84\xd9\x8c\xd9\x85', '\xd9\x84\xd9\x85', 'okay', 'gonna']
DATE = re.compile(r'(?i)creation[ _]date.?.?"[^"]*"|run on \d+ \w+ +\d+ at [\d:]+')


def prepare():
    build.bindir()


def glm(rng, novalid):
    L = [';; map', '* name "x.glm"', "* case_sensitive = 'F'", "* copy_no_hit = 'T'"]
    for a, b in (('GONNA', 'GOING TO'), ('UH', '(%HESITATION)'), ('UM', '(%HESITATION)'), ("HE'S", "{HE IS / HE HAS}"), ('MM-HM', '%BCACK'), ('OKAY', 'OK')):
        if rng.random() < .6 and (novalid or '{' not in b):   # (the validator of filtered references knows no alternations of this kind)
            if rng.random() < .2:
                L.append(';; INPUT_DEPENDENT_APPLICATION = "%s"' % rng.choice(['hyp', 'ref', 'stm|ctm']))
            L.append('[%s] => [%s] / [ ] __ [ ]' % (a, b))
    return '\n'.join(L) + '\n'


def lay(rng, rows, mess):
    """rows -> text with the records in random order and random spacing"""
    rows = list(rows)
    if mess > 0:
        rng.shuffle(rows)
    out = []
    for r in rows:
        sp = lambda: rng.choice([' ', '\t', '  ', ' \t ']) if mess > 1 else ' '
        out.append((' ' if mess > 1 and rng.random() < .1 else '') + r[0] + ''.join(sp() + x for x in r[1:]))
        if mess and rng.random() < .03:
            out.append('')
    t = '\n'.join(out) + '\n'
    if mess > 1 and rng.random() < .3:
        t = t.rstrip('\n')
    return t


def case(ctx):
    rng = ctx.rng
    bd = build.bindir()
    env = {'PATH': bd + ':' + os.environ.get('PATH', '/usr/bin:/bin')}
    lang = rng.choice(['english'] * 5 + ['spanish', 'italian', 'arabic'])
    V = ARB if lang == 'arabic' else ENG
    hub = rng.choice(['hub4', 'hub5', 'rt-stt', 'rt-stt'])
    asc = lang == 'english' and rng.random() < .25
    novalid = rng.random() < .15 or lang == 'arabic'
    arb = [x for x in ('-H', '-T') if rng.random() < .5] if lang == 'arabic' else []
    wwl = ['-w', 'w.wwl'] if not asc and lang != 'arabic' and rng.random() < .2 else []
    named = rng.random() < .3
    mess = rng.choice([0, 1, 1, 2, 2])
    labels = rng.random() < .4
    conf = rng.random() < .5
    files = rng.sample(['f1', 'en_4065', 'zz-2', 'F1', 'sw10'], rng.choice([1, 1, 2, 3]))
    stm, truth = [], {}
    for f in files:
        for ch in rng.choice([['A'], ['1'], ['A', 'B'], ['1', '2']]):
            t = rng.randint(0, 50)
            words = []
            for _ in range(rng.choice([1, 2, 4, 8])):
                d = rng.randint(4, 60)
                ws = [rng.choice(V) for _ in range(rng.randint(0, min(8, d // 2)))]
                k = rng.random()
                txt = ws
                if k < .05 and not asc:
                    txt, ws = ['IGNORE_TIME_SEGMENT_IN_SCORING'], []
                else:
                    txt = ['(%s)' % w if rng.random() < .06 and not w.endswith('-') and w not in ("he's",) and (novalid or w not in ('uh', 'um')) else w for w in ws]
                stm.append([f, ch, '%s_%s_%s' % (f, ch, rng.choice('xy')), '%.2f' % (t / 4), '%.2f' % ((t + d) / 4)] + (['<o,%s>' % rng.choice(['f0', 'f1'])] if labels else []) + txt)
                for i, w in enumerate(ws):
                    words.append((t * 25 + d * 25 * i // max(1, len(ws)), w))
                t += d + rng.choice([0, 0, 3, 40])
            truth[f, ch] = words
    nh = rng.choice([1, 1, 2, 3])
    hyps, bad, nerr = [], [], 0
    for h in range(nh):
        rows, seen = [], set()
        for (f, ch), words in truth.items():
            for t, w in words:
                k = rng.random()
                if k < .12:
                    nerr += 1
                    continue
                if k < .3:
                    w = rng.choice(V)
                    nerr += 1
                t += rng.randint(0, 5)
                while (f, ch, t) in seen:
                    t += 1
                seen.add((f, ch, t))
                r = [f, ch, '%.2f' % (t / 100), '%.2f' % (rng.randint(5, 20) / 100), w]
                if hub == 'rt-stt':
                    ty = rng.choice(['lex', 'lex', 'lex', 'lex', 'fp', 'frag', 'non-lex', 'misc'])
                    r += [('%.3f' % rng.random()) if conf else rng.choice(['NA', 'na']), ty, rng.choice(['spk1', 'unknown'])]
                elif conf:
                    r.append('%.3f' % rng.random())
                rows.append(r)
        if not rows:
            return
        if hub == 'rt-stt' and all(q[6] != 'lex' for q in rows):
            rows[0][6] = 'lex'      # (asclite refuses an empty hypothesis)
        hyps.append(rows)
    defect = lang == 'english' and not novalid and rng.random() < .12
    if defect:
        r = rng.choice(rng.choice(hyps))
        if hub == 'rt-stt':
            r[6] = 'lex'
        k = rng.randrange(4)
        if k == 0 and len(r) > 5:
            r[5] = '1x'
        elif k == 1:
            r[3] = '-0.10'
        else:
            r[4] = rng.choice(['x7', 'a_b', 'w+w', '5'])
    coms = [';; CATEGORY "0" "" ""', ';; LABEL "O" "Overall" "all"', ';; CATEGORY "1" "C" ""', ';; LABEL "F0" "zero" "z"', ';; LABEL "F1" "one" "z"'] if labels else []
    names = ['hyp%d.ctm' % (i + 1) for i in range(nh)]
    # (texts may not start a stm file's record order: comments come first)
    ctx.write('ref.stm', (''.join(c + '\n' for c in coms) + lay(rng, stm, mess)).encode('latin-1'))
    for n, rows in zip(names, hyps):
        ctx.write(n, ((';; hyp\n' if rng.random() < .2 else '') + lay(rng, rows, mess)).encode('latin-1'))
    ctx.write('x.glm', glm(rng, novalid))
    ens = rng.choice([[], ['-n', 'ens'], ['-n', 'ens', '-e', 'A test']]) if nh > 1 else []
    ovl = ['-o', rng.choice(['1', '2'])] if asc and rng.random() < .5 else []
    given = ['%s\\#sys_%d\\#o%d' % (n, i, i) if named else n for i, n in enumerate(names)]       # file\#title\#output name
    titles = ['sys_%d' % i if named else n for i, n in enumerate(names)]
    outs = ['o%d.filt' % i if named else n + '.filt' for i, n in enumerate(names)]
    if wwl:
        ctx.write('w.wwl', ";; 'Headings' 'W'\n;; Default missing weight '1.5'\n" + ''.join('%s %.2f\n' % (w, rng.randint(1, 12) / 4) for w in rng.sample(['THE', 'CAT', 'DOG', 'HOUSE', 'OF', 'TO', 'GO', 'the', 'cat', 'dog'], 5)))
    before = {n: ctx.read(n) for n in ['ref.stm', 'x.glm'] + names + wwl[1:]}
    cmd = [bd + '/hubscr.pl', '-g', 'x.glm', '-l', lang, '-h', hub] + (['-V'] if novalid else []) + (['-a'] if asc else []) + ovl + ens + (['-d'] if lang == 'arabic' else []) + arb + wwl + ['-r', 'ref.stm'] + given
    r = ctx.run(cmd, env=env, timeout=120)
    for n, t in before.items():
        require(ctx.read(n) == t, 'input file %s was changed', n)
    ctx.seen(lang, hub, asc, mess, nh, labels, conf, defect)
    if defect:
        require(r.rc != 0, 'a hypothesis word that is no English word was accepted: %r', r.out[-300:])
        require(not any(f.endswith(('.sys', '.sgml')) for f in os.listdir(ctx.dir)), 'reports were written although the input is defective')
        ctx.count('refused')
        return
    # ---- the same by hand
    key = lambda q, i: (q[0], q[1], float(q[i]))
    os.mkdir(ctx.dir + '/x')
    if wwl:
        ctx.write('x/w.wwl', before['w.wwl'])
    flt = {'english': [], 'spanish': ['-e'], 'italian': ['-s', '-e'], 'arabic': ['-s']}[lang]

    def by_hand(name, out, text, fmt, purpose):
        for o in arb:
            text = ctx.ok(['perl', bd + '/' + ('hamzaNorm.pl' if o == '-H' else 'tanweenFilt.pl')] + (['-a'] if o == '-T' else []) + ['-i', fmt, '--', '-', '-'], stdin=text.encode('latin-1'), env=env).out
        o = ctx.run(['sh', bd + '/csrfilt.sh'] + flt + ['-i', fmt, '-t', purpose, '-dh', 'x.glm'], stdin=text.encode('latin-1'), env=env)
        require(o.rc == 0, 'csrfilt failed: %r', o.err[-300:])
        ctx.write('x/%s' % out, o.out.encode('latin-1'))
        got = ctx.read(out)
        a, b = [[re.split(r'[ \t]+', l.strip(' \t')) for l in t.split('\n') if l.strip()] for t in (o.out, got)]
        for x, y in zip(a, b):
            require(x == y, '%s: the filtered record is %r, expected %r', name, ' '.join(y), ' '.join(x))
        require(len(a) == len(b), '%s: %d filtered records, expected %d', name, len(b), len(a))
        ctx.count('filtered_records', len(a))
        # the spacing of the filtered file is its own: score that one, now that its content is judged
        ctx.write('x/%s' % out, got.encode('latin-1'))
    require(r.rc == 0, 'exit status %d: %r %r', r.rc, r.out[-600:], r.err[-600:])
    by_hand('ref.stm', 'ref.stm.filt', ''.join(c + '\n' for c in coms) + ''.join(' '.join(q) + '\n' for q in sorted(stm, key=lambda q: key(q, 3))), 'stm', 'ref')
    for n, o, rows in zip(names, outs, hyps):
        rows = sorted(rows, key=lambda q: key(q, 2))
        if hub == 'rt-stt':
            rows = [q[:5] + ([q[5]] if q[5].lower() != 'na' else []) for q in rows if q[6] == 'lex']
        by_hand(n, o, ''.join(' '.join(q) + '\n' for q in rows), 'ctm', 'hyp')
    x = ctx.dir + '/x'
    for n, o in zip(titles, outs):
        if asc:
            q = ctx.run([bd + '/asclite', '-f', '6'] + (['-overlap-limit', ovl[1]] if ovl else []) + ['-adaptive-cost', '-time-prune', '100', '-word-time-align', '100', '-memory-compression', '256', '-memory-limit', '1',
                         '-r', 'ref.stm.filt', 'stm', '-h', o, 'ctm', n, '-F', '-D', '-spkrautooverlap', 'ref', '-o', 'sgml', 'sum', 'rsum'], cwd=x, env=env)
            require(q.rc == 0, 'asclite failed by hand only: %r', q.err[-300:])
            q = ctx.run([bd + '/sclite', '-P', '-o', 'dtl', 'pra', 'prf', '-C', 'det', 'sbhist', 'hist', '-n', o], stdin=ctx.read('x/' + o + '.sgml'), cwd=x, env=env)
        else:
            q = ctx.run([bd + '/sclite', '-r', 'ref.stm.filt', 'stm', '-h', o, 'ctm', n, '-F', '-D', '-o', 'sum', 'rsum', 'sgml', 'lur', 'dtl', 'pra', 'prf', '-C', 'det', 'sbhist', 'hist', '-n', o] + (['-s'] if lang == 'arabic' else []) + (['-w', 'w.wwl', '-o', 'wws'] if wwl else []), cwd=x, env=env)
        require(q.rc == 0, 'sclite failed by hand only: %r', q.err[-300:])
    if nh > 1:
        q = ctx.run([bd + '/sc_stats', '-p', '-r', 'sum', 'rsum', 'es', 'res', 'lur', '-t', 'std4', '-u', '-g', 'grange2', 'det'] + ens,
                    stdin=''.join(ctx.read('x/' + o + '.sgml') for o in outs), cwd=x, env=env)
        require(q.rc == 0, 'sc_stats failed by hand only: %r', q.err[-300:])
        require(DATE.sub('', q.out).strip() in DATE.sub('', r.out), 'the output of sc_stats is not part of that of hubscr')
    mine = {f for f in os.listdir(ctx.dir) if os.path.isfile(ctx.dir + '/' + f)} - set(before) - {'cmd', 'stdin'}
    theirs = set(os.listdir(x)) - {'w.wwl'}
    require(mine >= theirs, 'reports missing: %s', sorted(theirs - mine))
    for f in sorted(theirs):
        a, b = DATE.sub('', ctx.read('x/' + f)), DATE.sub('', ctx.read(f))
        require(a == b, '%s differs from the report made by hand\n%s', f, next(('%r / %r' % (p, q) for p, q in zip(a.split('\n'), b.split('\n')) if p != q), 'lengths'))
        ctx.count('reports')
    if nerr:
        ctx.nontrivial('%s %s asclite=%s mess=%d hyps=%d records=%d' % (lang, hub, asc, mess, nh, len(stm)))
