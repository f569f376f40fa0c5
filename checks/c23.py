"""C23: rfilter1 rewrites text as the first matching rule at each position says."""
from vlib import build
from vlib.core import Violation, require

N_QUICK, N_THOROUGH = 8000, 100000
RULE = ('1-60 (at times 400-1500) rules over a small alphabet with shared beginnings, left and right contexts, brackets, quotes, bare strings, comments and header lines '
        '(comment flags, case sensitivity, copying, rule limits), applied to 1-40 lines of overlapping matches, of any bytes and up to 30000 characters; '
        'non-trivial = some position has several applicable rules, or a rule is barred by its context only')
ASSUMPTIONS = ['rule lines have at most 131 characters', 'the sides of a rule are parted by blanks; slashes occur only in bracketed left and right hand sides, underscores and the comment flag nowhere in them']


def prepare():
    build.get('rfilter1')


class Rule:
    def __init__(self, a, b, c, d):
        self.a, self.b, self.c, self.d = a, b, c, d


def low(s):
    return bytes(c + 32 if 65 <= c <= 90 else c for c in s)


def rewrite(line, rules, cs, copy, st):
    L = line if cs else low(line)
    idx = {}
    for r in rules:
        idx.setdefault(r.ka[0], []).append(r)
    out, i, n = [], 0, len(L)
    while i < n:
        hit = None
        cand = 0
        for r in idx.get(L[i], ()):
            if L.startswith(r.ka, i):
                if (not r.kc or (i >= len(r.kc) and L[i - len(r.kc):i] == r.kc)) and L.startswith(r.kd, i + len(r.ka)):
                    cand += 1
                    if hit is None:
                        hit = r
                else:
                    st['barred'] += 1
        if hit:
            st['hits'] += 1
            st['multi'] += cand > 1
            out.append(hit.b)
            i += len(hit.ka)
        else:
            if copy:
                out.append(line[i:i + 1])
            i += 1
    return b''.join(out)


def render(rng, s, side):
    """a side of a rule: bare, in brackets or in quotes"""
    w = []
    if b'"' not in s:
        w.append(b'[' + s + b']')
        if side != 'slash' and b'/' not in s and b'[' not in s and b']' not in s:
            w.append(b'"' + s + b'"')
    else:
        w.append(b'[' + s + b']')
    if s == b'"' or s and s == s.strip() and s[:1] not in b'[]"*' and b'/' not in s and not s.startswith((b'=', b'>')):
        w += [s] * 3
    return rng.choice(w)


def word(rng, alpha, lo, hi):
    return b''.join(rng.choice(alpha) for _ in range(rng.randint(lo, hi)))


def make(rng, many):
    alpha = rng.choice([[b'a', b'b', b'c', b' '], [b'a', b'A', b'b', b'B', b' '], [b'a', b'b', b"'", b' ', b'-', b'x', b'\xe9', b'\xc9'], [b'a', b'"', b' '], [b'A', b'B', b'C', b'D', b'E', b'F', b' ', b'.', b'%']])
    n = rng.choice([400, 401, 700, 1500]) if many else rng.choice([1, 2, 4, 8, 20, 60])
    rules = []
    tail = []
    while len(rules) < n:
        a = word(rng, alpha, 1, rng.choice([1, 2, 3, 5]) if not many else 6)
        if rules and rng.random() < .3:
            a = rng.choice(rules).a[:rng.randint(1, 4)] + word(rng, alpha, 0, 2)
        b = word(rng, alpha, 0, 5)
        if rng.random() < .15:
            b = b'{' + word(rng, alpha, 1, 3) + b' / ' + word(rng, alpha, 1, 3) + b'}'
        if rng.random() < .05:
            a = a[:1] + b'/' + a[1:]
        c = d = b''
        if rng.random() < .45:
            c = b' ' if rng.random() < .4 else word(rng, alpha, 0, 3)
            d = b' ' if rng.random() < .4 else word(rng, alpha, 0, 3)
        rules.append(Rule(a, b, c, d))
    return alpha, rules


def case(ctx):
    rng = ctx.rng
    many = rng.random() < .03
    alpha, rules = make(rng, many)
    flag = rng.choice([b';;', b';;', b'#', b'@@', b'!!'])
    L = [flag + rng.choice([b'', b' rules for testing', b'   file: x'])]
    cs, copy, mx = True, True, 400
    aux = []
    key = lambda k: k if rng.random() < .5 else k.lower()
    qt = lambda v: rng.choice([b'"%s"', b"'%s'"]) % (v if rng.random() < .5 else v.lower())
    if rng.random() < .5:
        aux.append(b'* ' + key(b'NAME') + b' ' + qt(b'r1.glm'))
    if rng.random() < .3:
        aux.append(b'* ' + key(b'FORMAT') + b" = 'NIST1'")
    if rng.random() < .5:
        v = rng.choice([b'T', b'YES', b'TRUE', b'F', b'NO', b'FALSE'])
        cs = v[:1] in b'TY'
        aux.append(b'* ' + key(b'CASE_SENSITIVE') + rng.choice([b' = ', b' : ', b' ']) + qt(v))
    if rng.random() < .3:
        v = rng.choice([b'T', b'YES', b'TRUE', b'F', b'NO', b'FALSE'])
        copy = v[:1] in b'TY'
        aux.append(b'* ' + key(b'COPY_NO_HIT') + b' = ' + qt(v))
    if many or rng.random() < .3:
        mx = len(rules) + rng.choice([0, 0, 1, 50] + ([-1] if rng.random() < .3 and len(rules) > 1 else []))
        if many and rng.random() < .1:
            mx = 400
        else:
            aux.append(b'* ' + key(b'MAX_NRULES') + b" = '%d'" % mx)
    rng.shuffle(aux)
    L += aux
    for r in rules:
        for _ in range(20):
            t = rng.choice([b'', b'', b' ', b'\t']) + render(rng, r.a, 'slash' if b'/' in r.a else '') + rng.choice([b' => ', b'  =>  ', b'\t=> ']) + render(rng, r.b, 'slash' if b'/' in r.b else '')
            if r.c or r.d:
                t += rng.choice([b' / ', b'   / ']) + (render(rng, r.c, 'x') if r.c else b'') + rng.choice([b' __ ', b' ___ ', b' _ ']) + (render(rng, r.d, 'x') if r.d else b'')
            elif rng.random() < .1:
                t += b' / __ '
            if rng.random() < .2:
                t += b' ' + flag + b' see book'
            if len(t) <= 130:
                break
        else:
            raise AssertionError
        L.append(t)
        r.ka, r.kc, r.kd = [x if cs else low(x) for x in (r.a, r.c, r.d)]
        if rng.random() < .05:
            L.append(rng.choice([b'', flag + b' a => b', b'   ']))
    ctx.write('rules', b'\n'.join(L) + b'\n')
    lines = []
    for _ in range(rng.choice([1, 3, 10, 40])):
        n = rng.choice([0, 1, 5, 20, 80])
        if rng.random() < .003:
            n = rng.choice([3000, 3000, 30000])
        p = []
        while sum(map(len, p)) < n:
            k = rng.random()
            r = rng.choice(rules)
            if k < .3:
                p.append(r.a)
            elif k < .5:
                p.append(r.c + r.a + r.d)
            elif k < .6:
                p.append(r.a[:-1])
            elif k < .65:
                p.append((r.c + r.a + r.d).swapcase())
            elif k < .68:
                p.append(bytes([rng.choice([c for c in range(1, 256) if c != 10])]))
            else:
                p.append(rng.choice(alpha))
        lines.append(b''.join(p))
    text = b'\n'.join(lines) + (b'' if rng.random() < .05 else b'\n')
    if rng.random() < .02:
        text = b''
    st = dict(hits=0, multi=0, barred=0)
    res = ctx.run([build.get('rfilter1')['rfilter1'], 'rules'], stdin=text, enc=None)
    if len(rules) > mx:
        require(res.rc not in (0, None) and res.rc > 0, 'more rules (%d) than allowed (%d), and exit code %s' % (len(rules), mx, res.rc))
        ctx.count('refused_too_many_rules')
        ctx.seen('refused')
        return
    require(res.rc == 0, 'rfilter1 ended with %s: %s' % (res.rc, res.err[:300].decode('latin-1')))
    ins = text.split(b'\n')
    ins = [l + b'\n' for l in ins[:-1]] + ([ins[-1]] if ins[-1] else [])
    exp = [rewrite(l, rules, cs, copy, st) for l in ins]
    if b''.join(exp) != res.out:
        got = res.out
        pos = 0
        for l, e in zip(ins, exp):
            if got[pos:pos + len(e)] != e:
                raise Violation('line %r became %r..., the rules give %r' % (l[:200], got[pos:pos + len(e) + 40][:300], e[:300]))
            pos += len(e)
        raise Violation('output continues with %r' % got[pos:pos + 200])
    for k, v in st.items():
        ctx.count('rule_' + k, v)
    ctx.count('lines', len(ins))
    ctx.seen(len(rules), cs, copy, len(ins), st['hits'])
    if st['multi'] or st['barred']:
        ctx.nontrivial('%d rules, %d lines: %d applied, %d times several, %d barred by context' % (len(rules), len(ins), st['hits'], st['multi'], st['barred']))
