"""C26: acomp splits compound words into words of its lexicon, and changes nothing else."""
from vlib import build
from vlib.core import require

N_QUICK, N_THOROUGH = 12000, 90000
RULE = ('random lexicons (plain words and words with marked parts, with umlauts, mixed case, further columns) and txt, ctm and stm files with compounds of two to four of their words (joined plainly, with s or en between, or with a doubled consonant that meets a third), near misses, fragments, optionally deletable words, '
        'alternatives, labels, comments and confidences, with -t, -s, -f and -m; non-trivial = a word is split')
ASSUMPTIONS = ['text is in Latin-1', 'the lexicon has no blank lines; a word is listed once']
CONS = 'BCDFGHJKLMNPQRSTVWXYZ'


def prepare():
    build.get('perl')


def up(w):
    return ''.join(c.upper() if c.isascii() else chr(ord(c) - 32) if 0xe0 <= ord(c) <= 0xff else c for c in w)


class Lex:
    def __init__(self, entries, m, trip, ins):
        self.m, self.trip, self.ins = m, trip, ins
        self.words, self.given = set(), {}
        for e in entries:
            e = up(e)
            if '-' in e or '_' in e:
                sep = [x for x in e.replace('_', '-').split('-') if x]
                self.words |= set(sep)
                for k in (e.replace('_', ''), e.replace('_', '').replace('-', '')):
                    self.given[k] = sep
            else:
                self.words.add(e)
                self.given[e] = [e]
        self.memo = {}

    def tails(self, val, i):
        """what may follow the first part val[:i]"""
        t = [val[i:]]
        p = val[:i]
        if self.trip and i > 1 and p[-1] == p[-2] and p[-1] in CONS:
            t.append(val[i - 1:])
        if self.ins and val[i:i + 1] == 'S':
            t.append(val[i + 1:])
        if self.ins and val[i:i + 2] == 'EN':
            t.append(val[i + 2:])
        return [x for x in t if len(x) >= self.m and x]

    def can(self, val):
        if val not in self.memo:
            self.memo[val] = val in self.words or any(self.can(t) for i in range(self.m, len(val)) if val[:i] in self.words for t in self.tails(val, i))
        return self.memo[val]

    def is_split(self, val, parts):
        if len(parts) == 1:
            return parts[0] == val and val in self.words
        n = len(parts[0])
        return n >= self.m and val[:n] == parts[0] and val[:n] in self.words and any(self.is_split(t, parts[1:]) for t in self.tails(val, n))


def judge(lex, frag, word, out):
    """out: the tokens written for the word"""
    w = up(word)
    if w[:1] == '(' and w[-1:] == ')' and len(w) > 1:
        body = w[1:-1]
        if frag and body.endswith('-'):
            require(out and (out[-1] == '(%s)' % body or len(out) > 1 and out[-1][:1] == '(' and out[-1][-2:] == '-)'), '%s is written as %s', word, out)
            return plain(lex, frag, body, [o for o in out[:-1]] + [out[-1][1:-1]], word)
        require(all(o[:1] == '(' and o[-1:] == ')' for o in out), '%s is written as %s', word, out)
        return plain(lex, frag, body, [o[1:-1] for o in out], word)
    return plain(lex, frag, w, out, word)


def plain(lex, frag, w, out, word):
    if w in lex.given:
        require(out == lex.given[w], '%s is written as %s, the lexicon gives %s', word, out, lex.given[w])
    elif frag and w.endswith('-'):
        best = next((i for i in range(len(w) - 2, max(lex.m, 1) - 1, -1) if lex.can(w[:i])), None)
        if best is None:
            require(out == [w], '%s is written as %s', word, out)
        else:
            require(out[-1] == w[best:] and lex.is_split(w[:best], out[:-1]), '%s is written as %s, the longest beginning of it is %s', word, out, w[:best])
    elif lex.can(w):
        require(lex.is_split(w, out), '%s is written as %s although it is made of words of the lexicon', word, out)
    else:
        require(out == [w], '%s is written as %s', word, out)
    return len(out) > 1


def case(ctx):
    rng = ctx.rng
    p = build.get('perl')
    m = rng.choice([None, 2, 2, 3, 4])
    trip, ins, frag = rng.random() < .7, rng.random() < .7, rng.random() < .5
    letters = rng.choice(['abst', 'enstrfh', 'aeioulmnrst\xe4\xf6\xfc\xdf'])
    rw = lambda n: ''.join(rng.choice(letters) for _ in range(n))
    entries = {}
    for _ in range(rng.choice([1, 3, 8, 20])):
        w = rw(rng.choice([1, 2, 3, 3, 4, 5, 8]))
        if rng.random() < .25:
            w += rng.choice('tfsnbl') * 2
        if rng.random() < .2:
            w += rng.choice(['-', '_', '_', '-_'][:3]) + rw(rng.choice([2, 3, 5]))
        if rng.random() < .3:
            w = w[:1].upper() + w[1:]
        entries.setdefault(up(w).replace('-', '').replace('_', ''), w)
    ents = [entries[k] for k in sorted(entries)]
    rng.shuffle(ents)
    lx = '\n'.join(e + rng.choice(['', '', '\tx 1', ' 12']) for e in ents) + ('\n' if rng.random() < .8 else '')
    ctx.write('lex', lx.encode('latin-1'))
    L = Lex(ents, m or 2, trip, ins)
    pool = sorted(L.words) + [rw(3)]

    def word():
        k = rng.random()
        if k < .1:
            return rng.choice(['und', '@', '%hesitation', '42', rw(4)])
        ps = [rng.choice(pool) for _ in range(rng.choice([1, 2, 2, 3, 4]))]
        w = ps[0]
        for q in ps[1:]:
            j = rng.random()
            if j < .15:
                w += 's'
            elif j < .3:
                w += 'en'
            elif j < .5 and len(w) > 1 and w[-1:] == q[:1]:
                w = w[:-1]
            w += q
        if rng.random() < .15:
            i = rng.randrange(len(w))
            w = w[:i] + w[i + 1:] or w
        if rng.random() < .15:
            w = w[:rng.randint(1, len(w))] + '-'
        if rng.random() < .15:
            w = rng.choice([w.upper() if w.isascii() else w, w.capitalize() if w.isascii() else w])
        w = '(%s)' % w if rng.random() < .12 else w
        return w
    fmt = rng.choice(['txt', 'ctm', 'stm'])
    sp = lambda: rng.choice([' ', ' ', '  ', '\t'])
    lines, exp = [], []
    for _ in range(rng.choice([1, 3, 8])):
        if rng.random() < .08:
            lines.append(';; a Comment wort')
            exp.append(('c', lines[-1]))
            continue
        if fmt == 'txt' or fmt == 'stm':
            ws = [word() for _ in range(rng.choice([0, 1, 3, 6]))]
            if ws and rng.random() < .15:
                ws += ['{', word(), '/', word(), '}']
            txt = ''.join(sp() + w for w in ws)
            if fmt == 'txt':
                lines.append(txt[1:] if txt else '')
                exp.append(('t', None, ws))
            else:
                head = ['f%d' % rng.randint(1, 3), rng.choice('A12'), 'Spk_x', '%.2f' % rng.uniform(0, 9), '%.2f' % rng.uniform(9, 20)]
                if rng.random() < .4:
                    head.append('<o,f0,Male>')
                lines.append(sp().join(head) + txt)
                exp.append(('t', head, ws))
        else:
            if rng.random() < .12:
                f = 'f%d A' % len(lines)
                for t in ['* * <ALT_BEGIN>', None, '* * <ALT>', None, '* * <ALT_END>']:
                    if t:
                        lines.append('%s %s' % (f, t))
                        exp.append(('a', lines[-1]))
                    else:
                        w = word()
                        r = [*f.split(), '%.2f' % rng.uniform(0, 50), '%.2f' % rng.uniform(0, 1), w]
                        lines.append(' '.join(r))
                        exp.append(('w', r))
                continue
            r = ['f%d' % len(lines), rng.choice('A12'), '%.*f' % (rng.choice([1, 2]), rng.uniform(0, 90)), '%.2f' % rng.uniform(0, 1.5), word()]
            if rng.random() < .6:
                r.append(rng.choice(['0.9', '1', 'NA', '0.123456']))
            lines.append(rng.choice(['', '', ' ']) + sp().join(r))
            exp.append(('w', r))
    nl = rng.random() < .85
    text = '\n'.join(lines) + ('\n' if nl else '')
    cmd = ['perl', p + '/acomp.pl', '-l', 'lex'] + (['-m', str(m)] if m else []) + ([] if trip else ['-t']) + ([] if ins else ['-s']) + (['-f'] if frag else [])
    if fmt != 'txt' or rng.random() < .5:
        cmd += ['-i', fmt]
    enc = text.encode('latin-1')
    if rng.random() < .5:
        ctx.write('in', enc)
        ctx.ok(cmd + ['in', 'out'])
        out = open(ctx.dir + '/out', 'rb').read().decode('latin-1')
    else:
        out = ctx.ok(cmd + ['--', '-', '-'], stdin=enc, enc='latin-1').out
    if not text:
        return
    rows = out.split('\n')
    require(rows[-1] == '', 'the output ends with %r', rows[-1])
    rows = rows[:-1]
    k, splits = 0, 0
    take = lambda: (require(k < len(rows), 'the output ends before record %s', e[1]), rows[k])[1]
    if not nl and exp[-1] == ('t', None, []):
        exp.pop()                                           # a last line of nothing without its newline is no line
    for e in exp:
        if e[0] == 'c':
            require(take() == e[1], 'comment %r is written as %r', e[1], rows[k])
            k += 1
        elif e[0] == 'a':
            require(take().split() == e[1].split(), 'record %r is written as %r', e[1], rows[k])
            k += 1
        elif e[0] == 't':
            got = take().split()
            k += 1
            if e[1]:
                require(got[:len(e[1])] == e[1], 'fields %s are written as %s', e[1], got[:len(e[1])])
                got = got[len(e[1]):]
            splits += judge_text(L, frag, e[2], got)
        else:
            r = e[1]
            n = 1
            # how many records belong to the word: try the numbers of parts
            last = err = None
            for n in range(1, len(rows) - k + 1):
                g = [x.split() for x in rows[k:k + n]]
                if any(x[:2] != r[:2] for x in g):
                    break
                if k + n < len(rows) and rows[k + n].split()[:2] == r[:2] and '*' not in rows[k + n].split()[2:3]:
                    continue                                # names are unique to a word: its records end where they change
                try:
                    res = judge(L, frag, r[4], [x[4] if len(x) > 4 else '' for x in g])
                    last = (n, res)
                    break
                except Exception as ex:
                    err = err or ex
            require(last, 'record %s: %s', r, err or rows[k:k + 3])
            n, res = last
            splits += res
            for i, x in enumerate(rows[k:k + n]):
                f = x.split()
                b, d = float(r[2]), float(r[3]) / n
                require(abs(float(f[2]) - (b + i * d)) < .0051 and abs(float(f[3]) - d) < .0051, 'part %d of %d of %s is at %s %s', i + 1, n, r, f[2], f[3])
                require(f[5:] == r[5:], 'part %d of %s: confidence %s', i + 1, r, f[5:])
            k += n
            ctx.count('records')
    require(k == len(rows), 'unexpected record %s', rows[k:k + 1])
    ctx.count('words_split', splits)
    ctx.seen(fmt, m, trip, ins, frag)
    if splits:
        ctx.nontrivial('%s: %s' % (fmt, text[:60]))


def judge_text(L, frag, ws, got):
    """the tokens of a text: words in order, each one token or its parts"""
    memo = {}
    first = [None]

    def go(i, j):
        if (i, j) in memo:
            return memo[i, j]
        r = None
        if i == len(ws):
            r = 0 if j == len(got) else None
        else:
            for n in range(1, min(len(got) - j, len(ws[i]) + 1) + 1):
                try:
                    x = judge(L, frag, ws[i], got[j:j + n])
                except Exception as ex:
                    if first[0] is None:
                        first[0] = ex
                    continue
                t = go(i + 1, j + n)
                if t is not None:
                    r = t + x
                    break
        memo[i, j] = r
        return r
    r = go(0, 0)
    require(r is not None, '%s is written as %s', ws, got)
    return r
