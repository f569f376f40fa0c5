"""C24: csrfilt applies the rules of the global map file to the text of each record and to nothing else."""
import re
from vlib import build
from vlib.core import Violation, require
from checks.c23 import rewrite, low

N_QUICK, N_THOROUGH = 6000, 60000
RULE = ('1-30 random trn, stm, ctm, rttm or txt records (comments, category labels, optionally deletable words, hyphenated words, fragments, alternations, confidences in any notation, non-lexical rttm records) '
        'under random map files (word rules with contexts, splits, joins, deletions, alternations, sections for input types and purposes) and -dh, -s, -e, -t; '
        'non-trivial = some rule applied')
ASSUMPTIONS = ['the two sides of a rule neither start nor end with a blank; words hold no slash and no digits; rules that delete words or make them optional do not meet words in parentheses', 'comments in txt input and the utterance map file are not covered']
BASE = ["he's", "she's", 'gonna', 'uh', 'um', 'mm-hm', 'jetliner', 'well-known', 'state-of-the-art', 'co-op', 'okay', 'o.k.', "firm's", 'a', 'the', 'cat', 'catalog', 'CAT', 'Catalog', '%hes', 'th-', '-tion', 'fran\xe7ais', '\xe9t\xe9', 'd.', 'log']


def prepare():
    build.bindir()


class R:
    pass


def glm(rng, cs):
    """lines of a map file and the rules that apply per (type, purpose)"""
    V = [w.upper() if rng.random() < .8 else w for w in BASE]
    rules = []
    for _ in range(rng.choice([1, 3, 8, 20])):
        r = R()
        a = rng.choice(V)
        k = rng.random()
        if k < .15:
            a = a + ' ' + rng.choice(V)
        elif k < .25:
            a = a[:rng.randint(1, len(a))]
        r.a = a
        k = rng.random()
        if k < .25:
            r.b = rng.choice(V) + ' ' + rng.choice(V)
        elif k < .45:
            r.b = '{' + ' / '.join(rng.choice(V) + (' ' + rng.choice(V) if rng.random() < .5 else '') for _ in range(rng.randint(2, 3))) + '}'
        elif k < .52:
            r.b = ''
        elif k < .6:
            r.b = '(%HESITATION)'
        else:
            r.b = rng.choice(V)
        ctxt = rng.random() < .7 or r.b[:1] in '({' or not r.b
        r.c, r.d = (' ', ' ') if ctxt else ('', '')
        if rng.random() < .08:
            r.c = rng.choice(V) + ' '
        r.sec = None
        rules.append(r)
    n = rng.randint(0, len(rules))
    secs = [rng.choice(['ctm', 'stm', 'trn', 'ctm|stm', '[cs]tm', 'rttm', 'txt', 'ref', 'hyp', 'hyp|ctm', '.*']) for _ in range(rng.randint(0, 3))]
    L = [';; map file', '* name "x.glm"', "* case_sensitive = '%s'" % 'FT'[cs], "* copy_no_hit = 'T'"]
    cut = sorted(rng.randint(0, len(rules)) for _ in secs)
    for i, r in enumerate(rules):
        while cut and cut[0] == i:
            cut.pop(0)
            sec = secs.pop(0)
            L.append(';;  INPUT_DEPENDENT_APPLICATION = "%s"' % sec)
            for q in rules[i:]:
                q.sec = sec
        t = '[%s] => [%s]' % (r.a, r.b)
        if r.c or r.d:
            t += ' / ' + ('[%s]' % r.c if r.c else '') + ' __ ' + ('[%s]' % r.d if r.d else '')
        L.append(t + (' ;; why' if rng.random() < .1 else ''))
        r.a, r.b, r.c, r.d = [x.encode('latin-1') for x in (r.a, r.b, r.c, r.d)]
        r.ka, r.kc, r.kd = [x if cs else low(x) for x in (r.a, r.c, r.d)]
    return L, rules


def filt(text, rules, cs, up, ext, dh, st):
    """text (str, latin-1) of one record -> filtered words as a list of tokens; ( and ) attached"""
    if up:
        text = ''.join(c.upper() if 'a' <= c <= 'z' else chr(ord(c) - 32) if ext and 0xe0 <= ord(c) <= 0xff else c for c in text)
    text = '  ' + ' '.join(text.replace('(', '( ').replace(')', ' )').split(' ')) + '  '
    t = rewrite(text.encode('latin-1'), rules, cs, True, st).decode('latin-1')
    if dh:
        t = re.sub(r'([^( ])-(?=[^) ])', r'\1 ', t)
    # words in one pair of parentheses become separately deletable
    out, depth = [], False
    for w in t.replace('(', ' ( ').replace(')', ' ) ').split():
        if w == '(':
            depth = True
        elif w == ')':
            depth = False
        else:
            out.append('(%s)' % w if depth else w)
    return out


def case(ctx):
    rng = ctx.rng
    kind = rng.choice(['trn', 'stm', 'ctm', 'ctm', 'rttm', 'txt'])
    cs = rng.random() < .3
    L, rules = glm(rng, cs)
    ctx.write('g', '\n'.join(L).encode('latin-1') + b'\n')
    dh, nup, ext, purpose = rng.random() < .4, rng.random() < .2, rng.random() < .3, rng.choice(['', '', 'ref', 'hyp'])
    # uppercase words of the rules come up in the text
    W = BASE + [r.a.decode('latin-1') for r in rules if b' ' not in r.a and r.a.strip(b'%\'.-')] + [w for r in rules for w in r.a.decode('latin-1').split() if w.strip("%'.-")]
    word = lambda: (lambda w: w if rng.random() < .5 else w.lower())(rng.choice(W))

    def text(paren=True):
        out = []
        for _ in range(rng.choice([0, 1, 2, 4, 9])):
            if rng.random() < .15:
                r = rng.choice(rules)
                out += ((r.c + r.a + r.d).decode('latin-1').split())
            elif paren and rng.random() < .08:
                out.append('(' + word() + ')')
            elif paren and rng.random() < .04:
                out.append('(' + word() + ' ' + word() + ')')
            else:
                out.append(word())
        return ' '.join(out)
    paren = not any(not r.b or b'(' in r.b for r in rules)
    recs, lines = [], []
    for i in range(rng.choice([1, 3, 10, 30])):
        sp = rng.choice([' ', ' ', '  ', '\t'])
        if kind != 'txt' and rng.random() < .1:
            c = ';;' + rng.choice(['', ' comment  gonna (x', ' LABEL "a"'])
            recs.append(('com', c))
            lines.append(c)
            continue
        if kind == 'trn':
            t, uid = text(paren), '(%s-%s%03d)' % (rng.choice(['abc', 'Gonna', 'x_y']), rng.choice(['a', 'B']), i)
            recs.append(('trn', t, uid))
            lines.append(t.replace(' ', sp) + sp + uid)
        elif kind == 'stm':
            t = text(paren)
            head = ['f%d' % (i % 3), 'A', 'spk-x', '%.2f' % i, '%.3f' % (i + 1)] + (['<o,f0,gonna>'] if rng.random() < .5 else [])
            recs.append(('stm', t, head))
            lines.append(sp.join(head + ([t.replace(' ', sp)] if t else [])))
        elif kind == 'ctm':
            w = word()
            if paren and rng.random() < .1:
                w = '(%s)' % w
            head = ['uh-f%d' % (i % 2), '1', '%.2f' % (i * .5), rng.choice(['0.3', '0.25', '.2', '1'])]
            conf = [rng.choice(['0.9', '1', '1.0', '.5', '9.5e-05', '1E-3', '-0.1'])] if rng.random() < .5 else []
            recs.append(('ctm', w, head, conf))
            lines.append(sp.join(head + [w] + conf))
        elif kind == 'rttm':
            if rng.random() < .3:
                l = rng.choice(['SPEAKER f 1 %d 2 <NA> <NA> gonna <NA>' % i, 'LEXEME f 1 %d 1 uh non-lex oth gonna <NA>' % i, 'NOSCORE f 1 1 2 <NA> <NA> <NA> <NA>',
                                'LEXEME f 1 %d 1 gonna frag x <NA>' % i])
                recs.append(('pass', l))
                lines.append(l.replace(' ', sp))
            else:
                w = word()
                pre = ['LEXEME', 'gonna', '1', '%.2f' % i, '0.4']
                post = [rng.choice(['lex', 'fp', 'un-lex', 'for-lex', 'alpha', 'acronym', 'interjection', 'propernoun', 'other']), 'uh', rng.choice(['0.9', '<NA>'])]
                recs.append(('lex', w, pre, post))
                lines.append(sp.join(pre + [w] + post))
        else:
            t = text(paren)
            recs.append(('txt', t))
            lines.append(t.replace(' ', sp))
    cmd = ['csrfilt.sh'] + (['-dh'] if dh else []) + (['-s'] if nup else []) + (['-e'] if ext else []) + (['-t', purpose] if purpose else [])
    if kind != 'trn' or rng.random() < .5:
        cmd += ['-i', kind]
    b = build.bindir()
    cmd[0] = b + '/csrfilt.sh'
    res = ctx.ok(cmd + ['g'], stdin=('\n'.join(lines) + '\n').encode('latin-1'), env={'PATH': b + ':/usr/bin:/bin'})
    got = res.out.split('\n')
    require(got.pop() == '', 'output does not end with a newline: %r' % res.out[-80:])
    act = [r for r in rules if r.sec is None or re.search(r.sec, kind) or (purpose and re.search(r.sec, purpose)) or (not purpose and re.search(r.sec, ''))]
    st = dict(hits=0, multi=0, barred=0)
    F = lambda t: filt(t, act, cs, not nup, ext, dh, st)
    pos = 0

    def take(what):
        nonlocal pos
        require(pos < len(got), 'output ends before the record for %s' % (what,))
        pos += 1
        return got[pos - 1]
    for r in recs:
        if r[0] == 'com':
            l = take(r[1])
            require(l == r[1], 'comment %r became %r' % (r[1], l))
        elif r[0] == 'pass':
            l = take(r[1])
            require(l == r[1], 'record %r became %r' % (r[1], l))
        elif r[0] == 'trn':
            l = take(r[1])
            e = F(r[1])
            require(l.endswith(r[2]) and norm(l[:-len(r[2])]) == e, 'utterance %r %s became %r, the rules give %r' % (r[1], r[2], l, ' '.join(e)))
        elif r[0] == 'stm':
            l = take(r[1])
            e = F(r[1])
            p = l.split(' ')
            require(p[:len(r[2])] == r[2] and norm(' '.join(p[len(r[2]):])) == e, 'segment %s %r became %r, the rules give %r' % (r[2], r[1], l, ' '.join(e)))
        elif r[0] == 'txt':
            l = take(r[1])
            e = F(r[1])
            require(norm(l) == e, 'text %r became %r, the rules give %r' % (r[1], l, ' '.join(e)))
        elif r[0] == 'lex':
            e = F(r[1])
            t = alts(e)
            if not e:
                continue
            want = ''.join(e) if len(e) == 1 else '_'.join(re.sub(r'([{}/@])', r' \1 ', ' '.join(e)).split())
            l = take(r[1])
            require(l.split(' ') == r[2] + [want] + r[3], 'lexeme %s became %r, the rules give %r' % (r[1:], l, want))
        else:
            e = F(r[1])
            A = alts(e)
            if not e:
                continue
            beg, dur = float(r[2][2]), float(r[2][3])
            tag = lambda t: require(take(r).split() == r[2][:2] + ['*', '*', t], 'word %s: %s expected instead of %r' % (r, t, got[min(pos, len(got)) - 1]))
            if len(A) > 1:
                tag('<ALT_BEGIN>')
            for k, ws in enumerate(A):
                if k:
                    tag('<ALT>')
                for i, w in enumerate(ws):
                    p = take(r).split(' ')
                    ok = len(p) == 5 + len(r[3]) and p[:2] == r[2][:2] and p[4:] == [w] + r[3]
                    require(ok and abs(float(p[2]) - (beg + dur * i / len(ws))) < .0011 and abs(float(p[3]) - dur / len(ws)) < .0011, 'word %s: %r, expected part %d of %s' % (r, ' '.join(p), i, ws))
            if len(A) > 1:
                tag('<ALT_END>')
    require(pos == len(got), 'output continues with %r' % got[pos:pos + 2])
    ctx.count('records', len(recs))
    ctx.count('rules_applied', st['hits'])
    ctx.seen(kind, dh, nup, ext, purpose, cs, len(act), len(recs), st['hits'])
    if st['hits']:
        ctx.nontrivial('%s: %d records, %d rules, %d applied' % (kind, len(recs), len(act), st['hits']))


def norm(t):
    return t.split()


def alts(e):
    """token list -> alternatives, each a list of words"""
    t = re.sub(r'([{}])', r' \1 ', ' '.join(e))
    return [s.replace('{', ' ').replace('}', ' ').split() for s in t.split('/')]
