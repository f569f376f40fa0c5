"""Seeded generators of realistic and hostile inputs."""
import string

EN = ("the a of to and in that is was he for it with as his on be at by i this had not are but from or have an they "
      "which one you were her all she there would their we him been has when who will more no if out so said what").split()


def vocab(rng, n=None, style=None):
    style = style or rng.choice(['en', 'tiny', 'letters', 'long', 'hyph'])
    if style == 'en':
        return rng.sample(EN, min(len(EN), n or rng.choice([4, 10, 40])))
    if style == 'tiny':
        return ['a', 'b', 'c'][:rng.choice([2, 3])]
    if style == 'letters':
        return list('abcdefgh')
    if style == 'long':
        return [''.join(rng.choice(string.ascii_lowercase) for _ in range(rng.randint(1, 25))) for _ in range(n or 8)]
    if style == 'hyph':
        return ['uh', 'uh-huh', "it's", "don't", 'x.', 'u.s.', 'twenty-one', 'a', 'b2b', '42', 'mm-hmm', 'ok']


def case_mix(rng, w):
    r = rng.random()
    if r < 0.6:
        return w
    if r < 0.8:
        return w.upper()
    if r < 0.9:
        return w.capitalize()
    return ''.join(c.upper() if rng.random() < .5 else c for c in w)


def sent(rng, V, n=None, maxn=14):
    if n is None:
        n = rng.choice([0, 1, 1, 2, 3, 4, 6, 8, 10, maxn])
    return [rng.choice(V) for _ in range(n)]


def mutate(rng, words, V, rate=None):
    """A plausible recogniser output for a word sequence."""
    if rate is None:
        rate = rng.choice([0.0, 0.1, 0.25, 0.5, 0.9])
    out = []
    for w in words:
        r = rng.random()
        if r < rate * 0.4:
            out.append(rng.choice(V))
        elif r < rate * 0.7:
            pass
        elif r < rate:
            out.append(w)
            out.append(rng.choice(V))
        else:
            out.append(w)
    if rng.random() < rate * 0.5:
        out.insert(rng.randint(0, len(out)), rng.choice(V))
    return out


def with_alts(rng, words, V, p=0.25, depth=2, null_p=0.3):
    """Turn a word list into a spec with (nested) alternations."""
    out = []
    i = 0
    while i < len(words):
        if rng.random() < p and depth > 0:
            k = rng.randint(1, min(3, len(words) - i))
            seg = words[i:i + k]
            alts = [with_alts(rng, seg, V, p * 0.5, depth - 1, null_p)]
            for _ in range(rng.choice([1, 1, 1, 2, 3])):
                if rng.random() < null_p:
                    alts.append(['@'])
                else:
                    alts.append(with_alts(rng, mutate(rng, seg, V, 0.7) or [rng.choice(V)], V, p * 0.5, depth - 1, null_p))
            rng.shuffle(alts)
            out.append(alts)
            i += k
        else:
            out.append(words[i])
            i += 1
    return out


def expand(rng, spec):
    """Pick one expansion of a spec."""
    out = []
    for it in spec:
        if isinstance(it, str):
            if it != '@':
                out.append(it)
        else:
            out += expand(rng, rng.choice(it))
    return out


def trn_file(utts, rng=None):
    """utts: list of (text, id)"""
    s = ''
    for t, i in utts:
        sep = ' ' if rng is None or rng.random() < .8 else rng.choice(['  ', '\t', ''])
        s += '%s%s(%s)\n' % (t, sep if t else '', i)
    return s


def names(rng, n, maxlen=40):
    """n distinct lower-case names in ASCII order, chosen to be easily confused: prefixes of one another, long common heads or tails."""
    st = rng.choice(['plain', 'prefix', 'grow', 'head', 'tail', 'digits'])
    out = set()
    base = rng.choice(['f', 'en_4156', 'sw2001', 'rec', 'show-', 'cts_bnf'])
    k = 0
    while len(out) < n:
        k += 1
        if st == 'plain':
            s = base + '%d' % k
        elif st == 'prefix':
            s = base + rng.choice(['', '0', '1', '10', '100', '1_a', '1-a', 'a', 'ab', 'abc'])
            if k > 50:
                s += str(k)
        elif st == 'grow':
            s = (base + 'x' * k)[:maxlen - 4]
            if s in out:
                s += str(k)
        elif st == 'head':
            s = (base + 'averylongcommonheadthatgoeson')[:maxlen - 4] + '%d' % k
        elif st == 'tail':
            s = '%s%d_' % (rng.choice('abcxyz'), k) + 'commontail'
        else:
            s = str(rng.randint(1, 10 ** rng.randint(1, 5)))
        out.add(s)
    return sorted(out)
