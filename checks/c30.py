"""C30: ctmValidator and stmValidator accept exactly the well-formed files and name what is wrong with the others."""
import re
from vlib import build
from vlib.core import require

N_QUICK, N_THOROUGH = 10000, 100000
RULE = ('ctm files of 1-40 records and stm files of 1-20 records, well-formed or with 1-4 random defects (field counts, blanks, source, channel, times, tags, tokens, confidences, types, speakers; tokens of every kind, comments, labels), '
        'English or not; non-trivial = the file holds a defect')
ASSUMPTIONS = ['fields of a ctm record are parted by single blanks; field-by-field defects are drawn from a catalogue', 'the stm validator is judged on the tokens of the text only: it does not look at the other fields']
TYPES = ['lex', 'frag', 'fp', 'un-lex', 'for-lex', 'non-lex', 'misc', 'noscore']


def prepare():
    build.get('perl')


def pick(rng, good, bad, p):
    """(value, is it bad)"""
    if rng.random() < p:
        return rng.choice(bad), True
    return rng.choice(good), False


GOODTOK = ['hello', 'Well-known', "he's", "'cause", '-', 'A.', 'b.x', 'U.S.A.', 'foo@bar', '@', '%hesitation', '%BCACK', '%bcnack', 'a', 'th-', 'Z.9']
BADTOK = ['hello!', '42', 'na\xefve', 'x_y', '%foo', 'hes%', 'a1', '(ok)', '.', '9.', 'ab.c', '<ALT', '{', '*', 'uh,']
TAGS = ['<ALT>', '<ALT_BEGIN>', '<ALT_END>']


def ctm(ctx, p):
    rng = ctx.rng
    lang = rng.choice(['english', 'english', None, 'English', 'arabic', 'mandarin'])
    eng = (lang or 'english').lower() == 'english'
    prob = rng.choice([0, 0, 0, .01, .05, .3])
    L, bad, nbad = [], set(), 0
    n = rng.choice([1, 2, 5, 15, 40])
    for i in range(1, n + 1):
        if rng.random() < .08:
            L.append(rng.choice([';;', ';; note', ';;x y', ';; a b c d e f g h i j']))
            continue
        if rng.random() < prob / 2:
            L.append(rng.choice(['', 'f1', 'f1 1', 'f1 1 0.5', 'f1 1 0.5 1', ' f1 1 0 1', '; not a comment', 'f 1 1 1 a 1 lex s x', 'f 1 1 1 a 1 lex s x y', ' f 1 1 1 a 1 lex s']))
            bad.add(len(L))
            continue
        f = []
        e = []
        add = lambda g, b: (lambda v: (f.append(v[0]), e.append(v[1])))(pick(rng, g, b, prob / 5))
        add(['f1', 'sw-2001_A', 'X', '-', '9', '_'], ['f.1', 'a/b', 'f1,', '\xe9', 'a+b', '*'])
        add(['1', '2', '12', 'A', 'B', '0'], ['C', 'a', '1A', '-1', 'AB', '1.0', '*'])
        typ = rng.choice(TYPES) if rng.random() < .4 else 'lex'
        nf = rng.choice([5, 5, 6, 6, 7, 8])
        if nf < 7:
            typ = 'lex'
        tag = rng.random() < .12
        if tag:
            for _ in range(2):
                add(['*'], ['0.5', '1', '**', '-'])
            f.append(rng.choice(TAGS))
        else:
            for _ in range(2):
                add(['0', '1', '12.5', '0.000', '100.25', '007', '3.1415926'], ['.5', '5.', '-1', '1e3', 'x', '1.2.3', '*', '1,5', '+1', '0.5s', 'NaN'])
            if typ == 'lex' and eng:
                add(GOODTOK, BADTOK)
            else:
                f.append(rng.choice(GOODTOK + BADTOK))
        if nf > 5:
            add(['0', '1', '0.95', '0.000001', '7.5'], ['-0.5', '.5', '1.', 'NA', '1e-5', 'x', '0.9.9', '*'])
        if nf > 6:
            if rng.random() < prob / 5 and (not eng or f[4] in GOODTOK or tag):
                f.append(rng.choice(['LEX', 'lexeme', 'word', 'non_lex', 'noscor', 'fragx', '0.5', '<NA>']))
                e.append(True)
            else:
                f.append(typ)
        if nf > 7:
            add(['spkr', 'Bob_1', 'a-b', '7'], ['s.1', 'a/b', '\xfc', '<NA>', 'a:b'])
        L.append(' '.join(f) + rng.choice(['', '', '', ' ', '\t']))
        if any(e):
            bad.add(len(L))
    if rng.random() < .1 and L:                                 # records after a defect are looked at as well
        L.append('f1 1 0.0 1.0 good')
    if L[-1] == '':                                             # (without a newline the empty record would not be there)
        L[-1] = ' x'
    name = rng.choice(['x.ctm', 'f1.ctm', 'a b.ctm' if False else 'y'])
    ctx.write(name, ('\n'.join(L) + ('\n' if rng.random() < .9 else '')).encode('latin-1'))
    res = ctx.run(['perl', p + '/ctmValidator.pl'] + (['-l', lang] if lang else []) + ['-i', name])
    got = {int(x) for x in re.findall(r'\[line (\d+)\]', res.out)}
    require(got == bad, 'defects are in lines %s, the validator names %s' % (sorted(bad), sorted(got)))
    require(res.rc == (1 if bad else 0), 'exit status %s with %d defective lines' % (res.rc, len(bad)))
    require(('Validated ' + name in res.out) == (not bad) and ('failed' in res.out) == bool(bad), 'verdict %r with %d defective lines' % (res.out[-100:], len(bad)))
    ctx.count('records', len(L))
    ctx.count('defective_lines', len(bad))
    ctx.seen('ctm', lang, len(L), len(bad))
    if bad:
        ctx.nontrivial('ctm: %d of %d lines are defective' % (len(bad), len(L)))


def eword(t):
    """a word, hyphenated word, fragment, acronym or contraction of English letters"""
    t = t.lower()
    if not t:
        return False
    low = 'abcdefghijklmnopqrstuvwxyz'
    # acronym: letters, a period, s or 's any number of times
    if '.' in t:
        a, b = t.split('.', 1)
        while b:
            if b.startswith("'s"):
                b = b[2:]
            elif b[0] == 's':
                b = b[1:]
            else:
                return False
        return bool(a) and all(c in low for c in a)
    if t.endswith('-'):
        return len(t) > 1 and all(c in low for c in t[:-1])
    parts = t.split("'")
    if any(x not in ('d', 's', 't', 're', 'll', 'm', 've', '') for x in parts[1:]):
        return False
    return parts[0] != '' and not parts[0].endswith('-') and all(c in low + '-' for c in parts[0])


def english(t):
    u = t.lower()
    if u in ('ignore_time_segment_in_scoring', '{', '}', '/', '@', "d'etre"):
        return True
    if u.startswith("o'") and len(u) > 2:
        return True
    if u in ('%hesitation', '%bcack', '%bcnack', '(%hesitation)', '(%bcack)', '(%bcnack)'):
        return True
    if u[0] == '(' and u[-1] == ')':
        return eword(u[1:-1])
    return eword(u)


PUNCT = set('!@#$^&*()`~_+={[}]|\\<,>.?/-')


def other(t):
    u = t.lower()
    if u in ('ignore_time_segment_in_scoring', '{', '}', '/', '@', '(%hesitation)'):
        return True
    if len(u) > 2 and u[0] == '(' and u[-1] == ')':
        u = u[1:-1]
    return not set(u) & PUNCT


ATOMS = ['hello', 'a', 'I', 'well', 'known', "'s", "'d", "'ve", "'ll", "'", '-', '-', '.', 's', '(', ')', '%', '%hesitation', '%bcack', '%BCNACK', '@', '{', '}', '/', "o'", "O'", "d'etre", '1', '_', '!', ',', '\xe9', '\xd9\x85',
         'ignore_time_segment_in_scoring', '*', '=', '[', ']', '<', '>', '?', '~', '+', '&', '|']
ENG = ['hello', 'I', 'co-op', '-', 'th-', '(th-)', 'U.', "u.'s", 'n.s', '(f.)', "he's", "(he's)", "y'all'd" if False else "I'd've", "(I'd've)", "boys'", "o'clock", "O'Neill", "d'etre", '%hesitation', '(%HESITATION)', '%bcack', '(%bcnack)', '{', '/', '}', '@',
       'IGNORE_TIME_SEGMENT_IN_SCORING', '(well-known)', '-known', 'state-of-the-art', '--a', "(he's", "(he's))", 'he)', '(he', '()', 'ab.c', '42', 'x_y', "'tis", 'na\xefve', '.', '%foo', '%hesitations', '((a))', "it'", 'a.b.', 'th--', "o'"]


def stm(ctx, p):
    rng = ctx.rng
    lang = rng.choice(['english', None, None, 'English', 'arabic', 'Mandarin'])
    eng = (lang or 'english').lower() == 'english'
    prob = rng.choice([0, 0, .02, .1, .5])
    fn = english if eng else other
    good = [t for t in ENG + ['\xd9\x85\xd8\xb1', 'ma%na', '%hesitation', "ma'na", '42'] if fn(t)]

    def tok():
        if rng.random() >= prob:
            return rng.choice(good)
        if rng.random() < .5:
            return rng.choice(ENG)
        return ''.join(rng.choice(ATOMS) for _ in range(rng.randint(1, 4)))
    L, bad = [], []
    for i in range(rng.choice([1, 2, 5, 20])):
        k = rng.random()
        if k < .1:
            L.append(rng.choice([';;', ';; hello, 42', ';; CATEGORY "0" "" "x"', ';; LABEL "o" "Overall" "a!b"', '', '   ']))
            continue
        f = [rng.choice(['f1', 'f2', '42']), rng.choice(['A', '1']), rng.choice(['spk', 'a.b!']), '%.2f' % i, '%.2f' % (i + 1)]
        if rng.random() < .5:
            f.append(rng.choice(['<o,f0>', '<O>', '<>']))
        toks = [tok() for _ in range(rng.choice([0, 1, 2, 5, 12]))]
        if toks and len(f) == 5 and re.match('<.*>$', toks[0]):
            toks[0] = good[0]
        toks = [t for t in toks if ';;' not in t]
        bad += [t for t in toks if not fn(t)]
        s = rng.choice([' ', ' ', '  ', '\t'])
        L.append(rng.choice(['', '', ' ']) + s.join(f + toks) + rng.choice(['', '', ' ', ' ;; what!', ';;x 42']))
    silent = rng.random() < .2
    ctx.write('x.stm', ('\n'.join(L) + ('\n' if rng.random() < .9 else '')).encode('latin-1'))
    res = ctx.run(['perl', p + '/stmValidator.pl'] + (['-l', lang] if lang else []) + (['-s'] if silent else []) + ['-i', 'x.stm'])
    if not eng:
        # tokens that only have punctuation behind a first character that may begin a word
        lax = [t for t in bad if t[0] not in '!@#$^&*()`~_+={[}' or re.match(r'\([^!@#$^&*()`~_+={[}]', t)]
    else:
        lax = []
    got = re.findall(r'Unrecognized token \S+ -(.*)-\n', res.out)
    if lax and not (set(got) & set(lax)) and (res.rc == 0) == (len(lax) == len(bad)):
        ctx.known_or_fail('stm-nonenglish-punctuation', 'not English: token %r with punctuation inside is accepted' % lax[0])
        bad = [t for t in bad if t not in lax]
    require(res.rc == (1 if bad else 0), 'exit status %s, tokens that are not words: %s' % (res.rc, bad[:5]))
    if silent:
        require(res.out == '', 'output in spite of -s: %r' % res.out[:100])
    else:
        require(sorted(got) == sorted(bad), 'tokens that are not words: %s; named are %s' % (sorted(bad)[:8], sorted(got)[:8]))
        require(('Validated x.stm' in res.out) == (not bad) and ('Failed Validation' in res.out) == bool(bad), 'verdict %r with %d bad tokens' % (res.out[-100:], len(bad)))
    ctx.count('stm_bad_tokens', len(bad))
    ctx.seen('stm', lang, len(L), len(bad), silent)
    if bad:
        ctx.nontrivial('stm: %d bad tokens' % len(bad))


def case(ctx):
    p = build.get('perl')
    (ctm if ctx.rng.random() < .5 else stm)(ctx, p)
