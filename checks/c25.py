"""C25: the Arabic normalisers (hamzaNorm, tanweenFilt, def_art) change exactly what they name, in the words of every record."""
import re
from vlib import build
from vlib.core import Violation, require

N_QUICK, N_THOROUGH = 16000, 160000
RULE = ('random txt, ctm and stm files (Arabic, Latin and mixed words, optionally deletable words, labels, comments, confidences, leading blanks, runs of blanks and tabs, missing final newline, words made of the characters concerned) '
        'through hamzaNorm, tanweenFilt with and without -a, and def_art for romanised text, from a file or standard input; non-trivial = a word is to be changed and another is to be kept')
ASSUMPTIONS = ['the words of a transcript are separated by blanks and tabs; no word ends in two tanween marks; def_art gets no comments and no ** marks',
               'hamzaNorm leaves a word behind an opening parenthesis alone (the test suite fixes that)']
ALEF = [b'\xd8\xa2', b'\xd8\xa3', b'\xd8\xa5', b'\xd8\xa7']
TAN = [b'\xd9\x8b', b'\xd9\x8c', b'\xd9\x8d']
OTHER = [b'\xd8\xa8', b'\xd8\xaa', b'\xd9\x84', b'\xd9\x85', b'\xd9\x8a', b'\xd9\x87', b'\xd9\x8e', b'\xd8\xa4', b'\xd8\xa6', b'\xd9\x8a', b'\xd9\x82', b'\xd9\x83', b'\xd8\xa1', b'\xd9\x91', b'\xd9\x8f', b'\xd8\xa4']


def prepare():
    build.get('perl')


def word(rng):
    k = rng.random()
    if k < .12:
        return rng.choice([b'cat', b'I', b'%ah', b'b.', b'x-y', b'42', b'{', b'/', b'}', b'@', b'th-'])
    u = []
    for _ in range(rng.choice([1, 1, 2, 3, 3, 5])):
        c = rng.choice(rng.choice([ALEF, TAN, OTHER, OTHER]))
        if not (u and u[-1] in TAN and c in TAN):
            u.append(c)
    w = b''.join(u)
    if rng.random() < .15:
        w = rng.choice([b'(%s)', b'(%s)', b'(%%%s)', b'%%%s', b'%s-', b'-%s', b'"%s"', b'%s.']) % w
    return w


def hamza(w):
    return b'\xd8\xa7' + w[2:] if w[:2] in ALEF else w


def tanween(w, every):
    if every:
        return re.sub(b'\xd9[\x8b\x8c\x8d]', b'', w)
    return re.sub(b'\xd9[\x8b\x8c\x8d](\\)?)$', b'\\1', w)


def every_word(f, text):
    return re.sub(b'[^ \t]+', lambda m: f(m[0]), text)


def c_script(ctx, p):
    rng = ctx.rng
    tool = rng.choice(['hamzaNorm.pl', 'tanweenFilt.pl', 'tanweenFilt.pl'])
    alltan = tool[0] == 't' and rng.random() < .4
    f = hamza if tool[0] == 'h' else (lambda w: tanween(w, alltan))
    fmt = rng.choice(['txt', 'ctm', 'stm'])
    L, E, n, kept = [], [], 0, 0
    sp = lambda: rng.choice([b' ', b' ', b' ', b'  ', b'   ', b'\t', b' \t'])
    gap = lambda: rng.choice([b' ', b' ', b'  ', b'\t', b' \t'])
    for _ in range(rng.choice([1, 3, 10, 30])):
        ws = [word(rng) for _ in range(rng.choice([0, 1, 2, 5, 9]))]
        if fmt == 'txt':
            text = (sp() if rng.random() < .2 else b'') + b''.join(w + sp() for w in ws)
            head, tail = b'', b''
            if rng.random() < .5:
                text = text.rstrip(b' \t')
        elif rng.random() < .08:
            head, text, tail = rng.choice([b';; ', b'#', b';;']) + b' '.join(ws), b'', b''
        elif fmt == 'ctm':
            w = word(rng)
            fid = rng.choice([b'f1', b'\xd8\xa3f', b'x\xd9\x8b'])      # (names are no words)
            head = (gap() if rng.random() < .1 else b'') + b''.join(x + gap() for x in (fid, rng.choice([b'A', b'1']), b'%.2f' % (rng.randint(0, 999) / 4), b'0.10'))
            text, tail = w, (gap() + rng.choice([b'0.5', b'0.123', b'NA']) + (gap() + b'lex' + gap() + b'\xd8\xa3' if rng.random() < .3 else b'') if rng.random() < .5 else b'')
        else:
            fid = rng.choice([b'f1', b'\xd8\xa3f', b'x\xd9\x8b'])
            lab = [rng.choice([b'<o>', b'<o,f0,\xd8\xa3>', b'<\xd8\xa3\xd9\x8b>'])] if rng.random() < .4 else []
            hd = [fid, b'A', rng.choice([b'spk', b'\xd8\xa3m\xd9\x8b']), b'1.25', b'%.2f' % (1.25 + rng.randint(1, 999) / 4)] + lab
            head = (gap() if rng.random() < .1 else b'') + b''.join(x + gap() for x in hd)
            text, tail = b''.join(w + sp() for w in ws), b''
            if not ws:
                head = head.rstrip()
            elif rng.random() < .6:
                text = text.rstrip(b' \t')
        L.append(head + text + tail)
        E.append(head + every_word(f, text) + tail)
        n += sum(f(w) != w for w in text.split())
        kept += sum(f(w) == w for w in text.split())
    data = b'\n'.join(L) + (b'\n' if rng.random() < .85 or not L[-1] else b'')
    cmd = ['perl', p + '/' + tool] + (['-a'] if alltan else []) + (['-i', fmt] if fmt != 'txt' or rng.random() < .5 else [])
    go(ctx, cmd, data, E)
    if n and kept:
        ctx.nontrivial('%s%s %s lines=%d changed=%d' % (tool, ' -a' if alltan else '', fmt, len(L), n))
    ctx.count('words_changed', n)
    ctx.count('words_kept', kept)
    ctx.seen(tool, alltan, fmt, min(n, 3))


def go(ctx, cmd, data, E):
    rng = ctx.rng
    if rng.random() < .5:
        ctx.write('in', data)
        cmd, data = cmd + ['in'], b''
    else:
        cmd = cmd + ['--', '-']
    if rng.random() < .5:
        r = ctx.run(cmd + ['out'], stdin=data, enc=None)
        require(r.rc == 0, 'exit status %d: %r', r.rc, r.err[-200:])
        with open(ctx.dir + '/out', 'rb') as h:
            out = h.read()
    else:
        r = ctx.run(cmd + ['-'], stdin=data, enc=None)
        require(r.rc == 0, 'exit status %d: %r', r.rc, r.err[-200:])
        out = r.out
    got = out.split(b'\n')
    require(got and got[-1] == b'', 'the output does not end in a newline: %r', out[-50:])
    got.pop()
    for x, y in zip(got, E):
        require(x == y, 'line %r, expected %r', x, y)
    require(len(got) == len(E), '%d lines out, expected %d', len(got), len(E))


SOLAR = 'tgdrzs$SDTZnjk'


def article(w):
    """the definite article il+ detached from what follows, its l assimilated to a solar letter"""
    o, i = '', 0
    while i < len(w):
        m = re.compile(r'il\+(&?)(.)').match(w, i)
        if m and (m[2] in SOLAR or m[2].isalpha()):
            o += ('i' + m[2] if m[2] in SOLAR else 'il') + ' ' + m[1] + m[2]
            i = m.end()
        else:
            o += w[i]
            i += 1
    return o


def c_art(ctx, p):
    rng = ctx.rng
    fmt = rng.choice(['txt', 'ctm', 'stm'])

    def w():
        b = ''.join(rng.choice('abtgdrzs$SDTZnjklmhqwyAE') for _ in range(rng.randint(1, 5)))
        k = rng.random()
        return ('il+' + b if k < .35 else 'il+&' + b if k < .42 else rng.choice(['bi+', 'fa+', '&', 'wa']) + 'il+' + b if k < .55 else rng.choice(['il', 'bil' + b, 'il-' + b, b + '+' + b, 'li+' + b]) if k < .65 else b)
    L, E, n = [], [], 0
    for i in range(rng.choice([1, 3, 10])):
        ws = [w() for _ in range(rng.choice([1, 2, 5, 9]))]
        n += sum(article(x) != x for x in ws)
        if fmt == 'txt':
            L.append(' '.join(ws))
            E.append(' '.join(map(article, ws)))
        elif fmt == 'stm':
            h = 'f1 A spk %.2f %.2f' % (i, i + 1) + rng.choice(['', ' <o,f0>'])
            if rng.random() < .1:
                ws = []
            L.append(rng.choice(['', '', ' ']) + ' '.join([h] + ws))
            E.append(' '.join([h] + list(map(article, ws))))
        else:
            t, d, c = rng.randint(0, 9999) / 100, rng.randint(1, 400) / 100, rng.choice(['', '0.5', '0.125'])
            L.append('f1 A %.2f %.2f %s %s' % (t, d, ws[0], c))
            parts = article(ws[0]).split()
            for j, q in enumerate(parts):
                E.append(('f1', 'A', t + j * d / len(parts), d / len(parts), q, c))
    data = '\n'.join(L) + ('\n' if rng.random() < .85 else '')
    r = ctx.run(['perl', p + '/def_art.pl'] + (['-i', fmt] if fmt != 'txt' or rng.random() < .5 else []) + ['-', '-'], stdin=data)
    require(r.rc == 0, 'def_art: exit status %d: %r', r.rc, r.err[-200:])
    got = [l for l in r.out.split('\n')][:-1]
    require(len(got) == len(E), 'def_art: %d lines, expected %d', len(got), len(E))
    for g, e in zip(got, E):
        if fmt != 'ctm':
            require(g.split() == e.split(), 'def_art: %r, expected %r', g, e)
        else:
            q = g.split()
            require([q[0], q[1], q[4]] + q[5:] == [e[0], e[1], e[4]] + ([e[5]] if e[5] else []), 'def_art: %r, expected %r', g, e)
            require(abs(float(q[2]) - e[2]) <= .0051 and abs(float(q[3]) - e[3]) <= .00051, 'def_art: times of %r, expected %r', g, e)
    if n:
        ctx.nontrivial('def_art %s lines=%d articles=%d' % (fmt, len(L), n))
    ctx.seen('def_art', fmt, min(n, 3))
    ctx.count('articles', n)


def case(ctx):
    p = build.get('perl')
    (c_art if ctx.rng.random() < .25 else c_script)(ctx, p)
