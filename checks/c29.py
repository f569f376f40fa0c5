"""C29: rttmValidator accepts exactly the RTTM files that obey the format and names the offending records of the others."""
import re
from vlib import build
from vlib.core import require

N_QUICK, N_THOROUGH = 8000, 80000
RULE = ('well-formed RTTM files (1-2 recordings, channels and several speakers with SPEAKER, SU, LEXEME, EDIT, FILLER, IP, CB, A/P, NON-LEX, NON-SPEECH, SEGMENT, NOSCORE records in any order), left alone or with 1-3 defects '
        'of the syntax (field counts, types, channels, times, orthography, subtypes, confidences, speakers) or of the structure (overlaps, objects without words, words cut by objects or outside of them, NOSCORE borders, interruption points), '
        'under -u -s -e -p -S -t -f; non-trivial = the validator must refuse the file')
ASSUMPTIONS = ['times lie on a grid of 10 ms; type names are in upper case, speaker names hold letters, digits, - and _', 'no EDIT or IP ends a SU, no two IPs of a speaker coincide; of objects nested in an object of their type only the first is expected to be reported']
SUB = {'SEGMENT': ['eval', '<NA>'], 'NOSCORE': ['<NA>'], 'NO_RT_METADATA': ['<NA>'], 'SPEAKER': ['<NA>'], 'A/P': ['<NA>'],
       'LEXEME': ['lex', 'fp', 'frag', 'un-lex', 'for-lex', 'alpha', 'acronym', 'interjection', 'propernoun', 'other'],
       'NON-LEX': ['laugh', 'breath', 'lipsmack', 'cough', 'sneeze', 'other'], 'NON-SPEECH': ['noise', 'music', 'other'],
       'FILLER': ['filled_pause', 'discourse_marker', 'explicit_editing_term', 'discourse_response', 'other'],
       'EDIT': ['repetition', 'restart', 'revision', 'simple', 'complex', 'other'],
       'SU': ['statement', 'question', 'incomplete', 'backchannel', 'unannotated', 'discourse_response', 'other'],
       'IP': ['edit', 'filler', 'edit&filler', 'other'], 'CB': ['coordinating', 'clausal', 'other'], 'SPKR-INFO': ['adult_male', 'adult_female', 'child', 'unknown']}
ALLSUB = sorted({x for v in SUB.values() for x in v}) + ['zzz', 'lexx', 'edit&']


def prepare():
    build.get('perl')


class O:
    """one record; b and d in units of 10 ms or None"""
    def __init__(s, ty, src, ch, b, d, w, st, spk, cf='<NA>'):
        s.ty, s.src, s.ch, s.b, s.d, s.w, s.st, s.spk, s.cf, s.raw = ty, src, ch, b, d, w, st, spk, cf, {}

    @property
    def e(s):
        return s.b + (s.d or 0)


def build_file(rng, extra_na):
    recs = []
    srcs = rng.sample(['x', 'show_1', 'y2'], rng.choice([1, 1, 2]))
    spks = rng.sample(['spk1', 'Bob', 'a-b_c', 'S4'], rng.randint(1, 3))
    chs = rng.choice([['1'], ['1', '2']])
    word = lambda: rng.choice(['hello', "he's", 'co-op', '%hes', 'th-', 'U.S.', '[x]', 'na\xefve', 'a9'])
    for s in spks:
        recs.append(O('SPKR-INFO', srcs[0], chs[0], None, None, '<NA>', rng.choice(SUB['SPKR-INFO']), s))
    for src in srcs:
        for ch in chs:
            for s in spks:
                if rng.random() < .2:
                    continue
                t = rng.randint(0, 200)
                mk = lambda ty, b, d, w='<NA>', st=None, cf='<NA>': recs.append(O(ty, src, ch, b, d, w, st or rng.choice(SUB[ty]), s, cf))
                for _ in range(rng.choice([1, 2, 4])):
                    t0 = t
                    for _ in range(rng.choice([1, 1, 2, 3])):
                        sb = t
                        ws = []
                        for _ in range(rng.choice([1, 2, 3, 6, 10])):
                            d = rng.randint(2, 60)
                            ws.append((t, t + d))
                            t += d + rng.choice([0, 0, 0, 1, 20])
                        t = ws[-1][1]
                        for b, e in ws:
                            st = rng.choice(SUB['LEXEME'])
                            mk('LEXEME', b, e - b, rng.choice(['B.', "c.'s", 'd.s', '<NA>']) if st == 'alpha' else word(), st, rng.choice(['<NA>', '0.5', '1', '0', '.25']))
                        # edits and fillers over whole words
                        i = 0
                        while i < len(ws):
                            k = rng.random()
                            n = rng.randint(1, 2)
                            if k < .2 and i + n < len(ws) and ws[i + n - 1][1] < t:
                                mk('EDIT', ws[i][0], ws[i + n - 1][1] - ws[i][0])
                                i += n
                                end = ws[i - 1][1]
                                if rng.random() < .4 and ws[i][0] == end:
                                    mk('FILLER', ws[i][0], ws[i][1] - ws[i][0])
                                    mk('IP', end, None, st='edit&filler')
                                    i += 1
                                else:
                                    mk('IP', end, None, st='edit')
                                    if ws[i][0] == end:
                                        i += 1
                            elif k < .4:
                                mk('FILLER', ws[i][0], ws[i][1] - ws[i][0])
                                mk('IP', ws[i][0], None, st='filler')
                                i += 1
                            else:
                                i += 1
                            if i < len(ws) and rng.random() < .1:
                                mk('CB', ws[i][0] + 1, None)
                        mk('SU', sb, t - sb)
                        if rng.random() < .3:
                            g = rng.randint(1, 30)
                            t += g
                    mk('SPEAKER', t0, t - t0)
                    g = rng.choice([0, 0, 50, 100])
                    if g and rng.random() < .5:
                        mk(rng.choice(['NON-LEX', 'NON-SPEECH', 'A/P', 'SEGMENT']), t, g)
                    t += g
            if rng.random() < .1:
                b = rng.randint(0, 1500)
                recs.append(O('NOSCORE', src, ch, b, rng.randint(1, 700), '<NA>', '<NA>', '<NA>'))
                if rng.random() < .3:
                    b = recs[-1].e + rng.choice([0, 100])
                    recs.append(O('NOSCORE', src, ch, b, rng.randint(1, 700), '<NA>', '<NA>', '<NA>'))
            if extra_na and rng.random() < .3:
                recs.append(O(rng.choice(['NO_RT_METADATA', 'SEGMENT', 'NON-SPEECH']), src, ch, 5000, 100, '<NA>', None, '<NA>'))
                recs[-1].st = rng.choice(SUB[recs[-1].ty])
    return recs, spks


def damage_syntax(rng, recs, opts, bn):
    """returns the damaged record"""
    ty = rng.choice(sorted({r.ty for r in recs}))          # rare types as often as frequent ones
    o = rng.choice([r for r in recs if r.ty == ty])
    k = rng.choice(['few', 'many', 'type', 'chan', 'beg', 'dur', 'ortho', 'sub', 'conf', 'spk'])
    if o.raw:
        return None
    if k == 'few':
        o.raw['cut'] = rng.randint(1, 8)
        if o.ty == 'SPKR-INFO':
            o.raw['cut'] = 8
    elif k == 'many':
        o.raw['add'] = rng.choice([2, 3])
    elif k == 'type':
        if o.ty == 'SPKR-INFO':
            return None
        o.raw['ty'] = rng.choice(['LEX', 'SPEAKERS', 'XSU', 'NONLEX', 'WORD', 'IPS', '<NA>'])
        if re.search('SPEAKER|SU|IP', o.raw['ty']):
            pass
    elif k == 'chan':
        o.raw['ch'] = rng.choice(['3', 'A', '0', '12', '<NA>', '1.0'])
    elif k == 'beg':
        o.raw['b'] = rng.choice(['1.0', '0']) if o.ty == 'SPKR-INFO' else rng.choice(['<NA>', '-1', '-0.01', 'x', '1e2', '1,5', '.', '1.2.3', '+1'])
    elif k == 'dur':
        o.raw['d'] = rng.choice(['1.0', '0', 'x']) if o.ty in ('SPKR-INFO', 'IP', 'CB') else rng.choice(['<NA>', '-1', '-.5', 'x', '1e2', '1,5', '', '1:30'][:-2])
    elif k == 'ortho':
        if o.ty == 'LEXEME' and o.st == 'alpha':
            o.raw['w'] = rng.choice(['hello', 'ab.', 'b', '9.', "b.'t"])
        elif o.ty in ('LEXEME', 'NON-LEX'):
            return None
        else:
            o.raw['w'] = rng.choice(['word', 'NA', '<NA>x', '0'])
    elif k == 'sub':
        x = rng.choice([y for y in ALLSUB if y not in SUB[o.ty]])
        o.raw['st'] = x
        if o.ty == 'LEXEME' and 'alpha' in x:
            return None
    elif k == 'conf':
        o.raw['cf'] = rng.choice(['1.01', '-0.1', '2', 'x', '1e-3', 'NA', '0.5.5'])
    elif k == 'spk':
        if '-p' in opts or o.ty in ('SPKR-INFO', 'NOSCORE'):
            return None
        o.raw['spk'] = rng.choice(['nobody', 'spk', 'spk11', 'Bob2', '<NA>', 'xBob'])
    return o


def damage_logic(rng, recs, opts):
    k = rng.choice(['overlap', 'nowords', 'cut', 'su', 'speaker', 'ip', 'xip', 'ipsub', 'early', 'word', 'noscore', 'grow'])
    by = lambda *ty: [o for o in recs if o.ty in ty]

    def inside(x, y):
        return (x.src, x.ch, x.spk) == (y.src, y.ch, y.spk) and y.b <= x.b and x.e <= y.e
    if k == 'overlap':
        c = by('LEXEME', 'SU', 'SPEAKER', 'EDIT', 'FILLER', 'NON-LEX')
        o = rng.choice(c)
        nx = sorted((p for p in c if p.ty == o.ty and (p.src, p.ch, p.spk) == (o.src, o.ch, o.spk) and p.b >= o.e), key=lambda p: p.b)
        if nx:
            o.d = nx[0].b - o.b + 1
    elif k == 'nowords':
        c = by('SU', 'EDIT', 'FILLER')
        if c:
            o = rng.choice(c)
            recs[:] = [p for p in recs if p is o or not (p.ty in ('LEXEME', 'EDIT', 'FILLER', 'IP') and inside(p, o) and (p.ty != o.ty))]
    elif k == 'cut':
        c = by('SU', 'EDIT', 'FILLER')
        if c:
            o = rng.choice(c)
            o.d = max(o.d - 1, 1)
    elif k == 'early':
        c = by('SU', 'EDIT', 'FILLER', 'SPEAKER')
        if c:
            o = rng.choice(c)
            if o.d > 2:
                o.b += 1
                o.d -= 1
    elif k == 'grow':
        c = by('EDIT', 'FILLER')
        if c:
            rng.choice(c).d += 1
    elif k == 'word':
        o = rng.choice(by('LEXEME'))
        o.b += rng.choice([-1, 1])
    elif k in ('su', 'speaker', 'ip'):
        c = by(k.upper())
        if c:
            recs.remove(rng.choice(c))
    elif k == 'xip':
        o = rng.choice(by('SU'))
        if o.d > 3:
            b = rng.randint(o.b + 1, o.e - 1)
            if not any(p.ty == 'IP' and p.b == b and (p.src, p.ch, p.spk) == (o.src, o.ch, o.spk) for p in recs):
                recs.append(O('IP', o.src, o.ch, b, None, '<NA>', rng.choice(SUB['IP']), o.spk))
    elif k == 'ipsub':
        c = by('IP')
        if c:
            rng.choice(c).st = rng.choice(SUB['IP'])
    elif k == 'noscore':
        o = rng.choice(by('LEXEME', 'SPEAKER', 'SU'))
        recs.append(O('NOSCORE', o.src, o.ch, o.b + rng.randint(0, 1), max(1, o.d - rng.randint(0, 2)), '<NA>', '<NA>', '<NA>'))


def logic(recs, opts):
    """stages of the structure check: the offending records of the first stage that fails (None: cannot tell)"""
    G = {}
    for o in recs:
        if o.ty != 'SPKR-INFO':
            G.setdefault((o.src, o.ch, o.spk), {}).setdefault(o.ty, []).append(o)
    for g in G.values():
        for L in g.values():
            L.sort(key=lambda o: o.b)
    bad, opt = set(), set()
    for g in G.values():
        for ty, L in g.items():
            for i, o in enumerate(L[1:], 1):
                if L[i - 1].e > o.b:
                    bad.add(o)
                    if any(p.b == o.b for p in L if p is not o):
                        opt |= {p for p in L if p.b == o.b}
                elif any(p.e > o.b for p in L[:i]):
                    opt.add(o)
                elif any(p.b == o.b for p in L if p is not o) and any(p.d for p in L if p.b == o.b):
                    opt |= {p for p in L if p.b == o.b}
    if bad:
        return 'overlap', bad, opt
    if opt:
        return None, None, None
    for g in G.values():
        for ty in ('SU', 'EDIT', 'FILLER'):
            for o in g.get(ty, []):
                if not any(w.b >= o.b and w.e <= o.e for w in g.get('LEXEME', [])):
                    bad.add(o)
    if bad:
        return 'no words', bad, set()
    for g in G.values():
        for w in g.get('LEXEME', []):
            for ty in ('SU', 'EDIT', 'FILLER'):
                for o in g.get(ty, []):
                    if w.e > o.b and w.b < o.e and not (w.b >= o.b and w.e <= o.e):
                        bad.add(w)
    if bad:
        return 'partial word', bad, set()
    for (src, ch, spk), g in G.items():
        for n in G.get((src, ch, '<NA>'), {}).get('NOSCORE', []):
            for ty in ('SU', 'EDIT', 'FILLER', 'SPEAKER', 'LEXEME', 'NON-LEX', 'NON-SPEECH'):
                for o in g.get(ty, []):
                    if o.e > n.b and o.b < n.e and not (o.b >= n.b and o.e <= n.e):
                        bad.add(o)
    if bad:
        return 'noscore', bad, set()
    for ty, f in (('SU', '-u'), ('SPEAKER', '-s')):
        if f in opts:
            continue
        for g in G.values():
            for w in g.get('LEXEME', []):
                if not any(w.b >= o.b and w.e <= o.e for o in g.get(ty, [])):
                    bad.add(w)
        if bad:
            return 'word outside ' + ty, bad, set()
    if '-e' not in opts:
        for g in G.values():
            for su in g.get('SU', []):
                ed = [o for o in g.get('EDIT', []) if o.b >= su.b and o.e <= su.e]
                fi = [o for o in g.get('FILLER', []) if o.b >= su.b and o.e <= su.e]
                nxt = any(o.b == su.e for o in g['SU'])
                if any(o.b == su.e and not (nxt and 'filler' in o.st) for o in g.get('IP', [])) or any(o.e == su.e for o in ed):
                    return None, None, None
                ips = [o for o in g.get('IP', []) if su.b <= o.b < su.e]
                ok = set()
                for ip in ips:
                    e = [o for o in ed if o.e == ip.b]
                    f = [o for o in fi if o.b == ip.b]
                    if ip.st == 'edit' and e:
                        ok |= {ip, *e}
                    elif ip.st == 'filler' and f:
                        ok |= {ip, *f}
                    elif ip.st == 'edit&filler' and e and f:
                        ok |= {ip, *e, *f}
                bad |= {o for o in ed + fi + ips if o not in ok}
        if bad:
            return 'interruption points', bad, set()
    return '', set(), set()


def num(rng, x):
    if x is None:
        return '<NA>'
    s = '%d.%02d' % divmod(x, 100)
    if rng.random() < .2 and s.endswith('0'):
        s = s.rstrip('0')
        s = s if rng.random() < .5 else s.rstrip('.')
    if rng.random() < .05 and s.startswith('0.') and len(s) > 2:
        s = s[1:]
    return s


def case(ctx):
    rng = ctx.rng
    p = build.get('perl')
    opts = [o for o in ('-u', '-s', '-e', '-p', '-S', '-t', '-f') if rng.random() < .2]
    recs, spks = build_file(rng, '-p' in opts)
    k = rng.random()
    if not any(o.ty == 'LEXEME' for o in recs):
        k = 0
    bad, opt, stage = set(), set(), ''
    bn = rng.random() < .05
    if .3 < k < .6:
        for _ in range(rng.choice([1, 1, 2, 3])):
            o = damage_syntax(rng, recs, opts, bn)
            if o:
                bad.add(o)
        recs2 = [o for o in recs if o.raw and o not in bad]
        if recs2:
            for o in recs2:
                o.raw = {}
    elif k >= .6:
        for _ in range(rng.choice([1, 1, 1, 2])):
            damage_logic(rng, recs, opts)
    if bn:
        bad |= {o for o in recs if o.ch == '2' and 'ch' not in o.raw}
        if any('cut' in o.raw for o in bad):
            bn = False
            bad = {o for o in recs if o.raw}
    if rng.random() < .1 and '-p' not in opts and not bad and len(spks) > 1:
        gone = rng.choice(spks)
        recs = [o for o in recs if not (o.ty == 'SPKR-INFO' and o.spk == gone)]
        bad = {o for o in recs if o.spk == gone}
        stage = 'speaker'
    if bad:
        stage = 'syntax'
    else:
        stage, bad, opt = logic(recs, opts)
    rng.shuffle(recs)
    L, where = [], {}
    if bn:
        L.append(';; EXP-ID: x_bnews_y')
    for o in recs:
        if rng.random() < .05:
            L.append(rng.choice(['', ';; note', '  ;; SPEAKER', ';; EXP-ID: cts' if not bn else ';;']))
        f = [o.ty, o.src, o.ch, num(rng, o.b), num(rng, o.d), o.w, o.st, o.spk, o.cf]
        for i, n in enumerate(('ty', 'src', 'ch', 'b', 'd', 'w', 'st', 'spk', 'cf')):
            if n in o.raw:
                f[i] = o.raw[n]
        if 'cut' in o.raw:
            f = f[:o.raw['cut']]
        elif 'add' in o.raw:
            f += ['<NA>'] * o.raw['add']
        elif rng.random() < .1:
            f.append(rng.choice(['<NA>', '12.5']))
        L.append(rng.choice(['', '', '', ' ']) + rng.choice([' ', ' ', '\t', '  ']).join(f))
        where[len(L)] = o
    ctx.write('x.rttm', ('\n'.join(L) + '\n').encode('latin-1'))
    res = ctx.run(['perl', p + '/rttmValidator.pl'] + opts + ['-i', 'x.rttm'])
    if stage is None:
        ctx.count('not_judged')
        return
    line = {o: n for n, o in where.items()}
    want, may = {line[o] for o in bad}, {line[o] for o in opt}
    errs = [l for l in res.out.splitlines() if l.startswith('ERROR')]
    got = set()
    for l in errs:
        m = re.search(r'line (\d+)$', l)
        require(m, 'error without a line: %r' % l)
        got.add(int(m.group(1)))
    if may:
        require((got & want or got & may) and got <= want | may, '%s: lines %s expected, named are %s: %s' % (stage, sorted(want), sorted(got), errs[:3]))
    else:
        require(got == want, '%s: lines %s expected, named are %s; missing %s, surplus %s' % (stage, sorted(want)[:9], sorted(got)[:9], [L[n - 1] for n in want - got][:2], [l for l in errs if int(l.split()[-1]) not in want][:2]))
    require(res.rc == (1 if want else 0), 'exit status %s with %d offending records' % (res.rc, len(want)))
    ctx.count('records', len(recs))
    ctx.count('offending', len(want))
    ctx.count('stage_' + (stage or 'valid').replace(' ', '_'))
    ctx.seen(stage, len(recs), len(want), tuple(opts))
    if want:
        ctx.nontrivial('%s: %d of %d records' % (stage, len(want), len(recs)))
