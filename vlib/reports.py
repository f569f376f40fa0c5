"""Parsers of sclite's reports and the arithmetic they must agree with."""
import re, statistics
from .core import require, Violation


def parse_sum(txt):
    """.sys/.raw table -> (title, header list, [(row name, [cells as text])]).  Groups of columns are joined in order."""
    rows, title, header = [], None, None
    for ln in txt.split('\n'):
        s = ln.strip()
        if not (s.startswith('|') and s.endswith('|')) or set(s) <= set('|-=+'):
            continue
        cells = [c.strip() for c in s[1:-1].split('|')]
        if len(cells) == 1:
            if title is None:
                title = cells[0]
            continue
        if header is None and cells[0] in ('SPKR', 'Speaker') and '#' in cells[1]:
            header = cells
            continue
        toks = []
        for c in cells[1:]:
            toks += re.findall(r'UNDEF|NaN|nan|-?inf|-?\d+(?:\.\d+)?[*+#]?', c)
        rows.append((cells[0], toks))
    return title, header, rows


def num(tok):
    return float(tok.rstrip('*+#'))


def close(tok, val, what, tol=0.0501):
    require(abs(num(tok) - val) <= tol, '%s: report says %s, alignments give %.4f', what, tok, val)


def spk_stats(speakers):
    """[(spk, paths)] -> {spk: dict(nsent, C, S, D, I, serr, ...)} in order"""
    out = []
    for s, ps in speakers:
        d = dict(nsent=len(ps), C=0, S=0, D=0, I=0, serr=0, ssub=0, sdel=0, sins=0)
        for p in ps:
            c, sub, de, ins = p.counts()
            d['C'] += c
            d['S'] += sub
            d['D'] += de
            d['I'] += ins
            d['serr'] += 1 if sub + de + ins else 0
            d['ssub'] += 1 if sub else 0
            d['sdel'] += 1 if de else 0
            d['sins'] += 1 if ins else 0
        d['ref'] = d['C'] + d['S'] + d['D']
        d['err'] = d['S'] + d['D'] + d['I']
        out.append((s, d))
    return out


def total(stats):
    t = {}
    for _, d in stats:
        for k, v in d.items():
            t[k] = t.get(k, 0) + v
    return t


def check_sys(txt, stats, raw, what, has_nce=False, nonempty=False):
    title, header, rows = parse_sum(txt)
    names = [r[0] for r in rows]
    n = len(stats)
    require(len(rows) >= n + 4, '%s: %d rows for %d speakers', what, len(rows), n)
    require(names[:n] == [s for s, _ in stats], '%s: speakers %s, expected %s', what, names[:n], [s for s, _ in stats])
    require(names[n] in ('Sum/Avg', 'Sum') and names[n + 1:n + 4] == ['Mean', 'S.D.', 'Median'], '%s: summary rows %s', what, names[n:])

    def vals(d):
        r = 1.0 if raw or d['ref'] == 0 else 100.0 / d['ref']
        v = [d['C'] * r, d['S'] * r, d['D'] * r, d['I'] * r, d['err'] * r]
        v.append(float(d['serr']) if raw else (100.0 * d['serr'] / d['nsent'] if d['nsent'] else 0.))
        return v
    cols = []
    for (s, d), (nm, t) in zip(stats, rows):
        require(len(t) >= 8, '%s: row of %s has cells %s', what, s, t)
        require(t[0] == str(d['nsent']) and t[1] == str(d['ref']), '%s: %s has %s sentences %s words, alignments give %d and %d', what, s, t[0], t[1], d['nsent'], d['ref'])
        v = vals(d)
        for k in range(6):
            close(t[2 + k], v[k], '%s speaker %s column %d' % (what, s, k), 0.0501 if not raw else 0.001)
            if not raw and d['ref'] == 0 and k < 5:
                require(t[2 + k].endswith('*'), '%s: speaker %s has no reference words but a percentage %s', what, s, t[2 + k])
        cols.append((d['nsent'], d['ref']) + tuple(v))
    T = total(stats)
    t = rows[n][1]
    require(t[0] == str(T['nsent']) and t[1] == str(T['ref']), '%s: totals %s %s, alignments give %d %d', what, t[0], t[1], T['nsent'], T['ref'])
    v = vals(T)
    if T['ref'] or raw:
        for k in range(6):
            close(t[2 + k], v[k], '%s overall column %d' % (what, k), 0.0501 if not raw else 0.001)
    # speaker statistics: percentages only over speakers that have reference words
    some = any(d['ref'] for _, d in stats)
    for col in range(8):
        xs = [c[col] for c, (s, d) in zip(cols, stats) if (raw and not nonempty) or not (2 <= col <= 6) or d['ref'] > 0]
        if not xs or (not some and not raw):
            continue
        me = statistics.fmean(xs)
        md = statistics.median(xs)
        close(rows[n + 1][1][col], me, '%s mean of column %d' % (what, col))
        close(rows[n + 3][1][col], md, '%s median of column %d' % (what, col))
        if len(xs) > 1:
            close(rows[n + 2][1][col], statistics.stdev(xs), '%s standard deviation of column %d' % (what, col))
    return rows


ALI = re.compile(r'^(?:>> )?(REF|HYP|Eval): {1,2}(.*)$')


def parse_pra(txt):
    """.pra / .prf / .snt -> {utterance id: dict(scores, cols=[(eval, ref, hyp)], attrs, spk)}; checks the column layout as it goes."""
    out, order = {}, []
    cur, spk = None, None
    ref = hyp = None
    for ln in txt.split('\n'):
        m = re.match(r'^Speaker sentences\s+\d+:\s+(.*?)\s+(?:#utts: (\d+)|utt# (\d+) of (\d+))$', ln)
        if m:
            spk = m.group(1)
        m = re.match(r'^SPEAKER (.*)$', ln)
        if m:
            spk = m.group(1).strip()
        if ln.startswith('id: '):
            cur = {'id': ln[4:].rstrip(), 'cols': [], 'spk': spk, 'attrs': {}}
            require(cur['id'] not in out, 'utterance %s reported twice', cur['id'])
            out[cur['id']] = cur
            order.append(cur['id'])
        elif cur is not None and ln.startswith('Scores:'):
            m = re.match(r'^Scores: \(#C #S #D #I\) (\d+) (\d+) (\d+) (\d+)$', ln)
            require(m, 'Scores line %r', ln)
            cur['scores'] = tuple(int(x) for x in m.groups())
        elif cur is not None and re.match(r'^(File|Channel|Labels|Ref times|Attributes):', ln):
            k, v = ln.split(':', 1)
            cur['attrs'][k] = v.strip()
        m = ALI.match(ln)
        if m and cur is not None:
            body = ln.split(':', 1)[1]
            if m.group(1) == 'REF':
                ref = body
            elif m.group(1) == 'HYP':
                hyp = body
            else:
                ev = body
                rt = [(x.start(), x.group()) for x in re.finditer(r'\S+', ref)]
                ht = [(x.start(), x.group()) for x in re.finditer(r'\S+', hyp)]
                # the label row may start one column off for continued lines: compare relative to the label width
                require(len(rt) == len(ht), '%s: %d reference and %d hypothesis columns:\n%s\n%s', cur['id'], len(rt), len(ht), ref, hyp)
                et = {x.start(): x.group() for x in re.finditer(r'\S', ev)}
                off = 0
                used = 0
                for (a, x), (b, y) in zip(rt, ht):
                    require(a == b, '%s: columns of %s and %s are not aligned:\n%s\n%s', cur['id'], x, y, ref, hyp)
                    e = et.get(a - 1 + off, 'C') if False else None
                    cur['cols'].append([a, x, y])
                starts = [a for a, _ in rt]
                # Eval label is one character longer than REF/HYP ("Eval:" vs "REF: "), text column is absolute
                lab_ref = ref_label_len(ln)
                evs = {}
                for pos, chh in et.items():
                    evs[pos + len(ln.split(':', 1)[0]) + 1] = chh
                k0 = len(cur['cols']) - len(rt)
                for i, (a, x) in enumerate(rt):
                    absa = a + (len('>> REF:') if ln.startswith('>>') else len('REF:'))
                    e = evs.pop(absa, 'C')
                    cur['cols'][k0 + i] = (e, x, ht[i][1])
                require(not evs, '%s: evaluation marks under no word: %r\n%s\n%s', cur['id'], ev, ref, hyp)
    return out, order


def ref_label_len(ln):
    return 0


def check_pra(txt, speakers, what, case_s, ci=False):
    """every utterance's printed alignment equals the (machine readable) alignment"""
    got, order = parse_pra(txt)
    exp = {p.id: (s, p) for s, ps in speakers for p in ps}
    require(set(got) == set(exp), '%s: utterances %s, expected %s', what, sorted(got)[:8], sorted(exp)[:8])
    for i, (s, p) in exp.items():
        g = got[i]
        require(g['spk'] == s, '%s: %s under speaker %s, expected %s', what, i, g['spk'], s)
        require(g['scores'] == p.counts(), '%s: %s scores %s, alignment gives %s', what, i, g['scores'], p.counts())
        cols = g['cols']
        require(len(cols) == len(p.items), '%s: %s prints %d columns for %d aligned items: %s', what, i, len(cols), len(p.items), cols)
        for (e, x, y), it in zip(cols, p.items):
            require(e == it[0], '%s: %s column %s/%s marked %s, alignment says %s', what, i, x, y, e, it[:3])
            for shown, w in ((x, it[1]), (y, it[2])):
                if w is None or w == '':
                    require(set(shown) == {'*'}, '%s: %s shows %r where there is no word', what, i, shown)
                elif case_s:
                    require(shown == w, '%s: %s shows %r for %r', what, i, shown, w)
                else:
                    require(shown == (w if e == 'C' else asc_upper(w)), '%s: %s shows %r for %r (%s)', what, i, shown, w, e)
    return order


def asc_upper(w):
    return ''.join(c.upper() if c.isascii() else c for c in w)


SECT = ['CONFUSION PAIRS', 'INSERTIONS', 'DELETIONS', 'SUBSTITUTIONS', 'FALSELY RECOGNIZED']


def parse_dtl(txt):
    """one detailed report -> (dict of named numbers, {section: (total, {entry: count}, printed sum)})"""
    nums = {}
    secs = {}
    cur = None
    for ln in txt.split('\n'):
        m = re.match(r'^\s*(sentences|with errors|with substitutions|with deletions|with insertions|Percent [A-Z][A-Za-z ]*?|Ref\. words|Hyp\. words|Aligned words)\s*=?\s+(UNDEF%|-?[\d.]+%?)?\s*(?:\(\s*(\d+)\))?\s*$', ln)
        if m:
            nums[m.group(1)] = (m.group(2), int(m.group(3)) if m.group(3) else None)
            continue
        m = re.match(r'^(%s)\s+Total\s+\((\d+)\)' % '|'.join(SECT), ln)
        if m:
            cur = m.group(1)
            secs[cur] = [int(m.group(2)), {}, None, []]
            continue
        m = re.match(r'^\s+With >=\s+(\d+) occurrences \((\d+)\)', ln)
        if m:
            secs[cur].append(int(m.group(2)))
            continue
        m = re.match(r'^\s*(\d+):\s+(\d+)\s+->\s+(.*)$', ln)
        if m and cur:
            e = m.group(3).strip()
            require(e not in secs[cur][1], '%s entry %s listed twice', cur, e)
            secs[cur][1][e] = int(m.group(2))
            secs[cur][3].append(int(m.group(2)))
            continue
        m = re.match(r'^\s+(\d+)\s*$', ln)
        if m and cur and secs[cur][2] is None:
            secs[cur][2] = int(m.group(1))
    return nums, secs


def check_dtl(txt, speakers, what):
    """one detailed report against the alignments of the given speakers"""
    nums, secs = parse_dtl(txt)
    d = total(spk_stats(speakers)) if speakers else {}
    items = [it for _, ps in speakers for p in ps for it in p.items]

    def pct(name, cnt, den, p=True):
        require(name in nums, '%s: no line "%s"', what, name)
        a, b = nums[name]
        require(b == cnt, '%s: %s (%s), alignments give %d', what, name, b, cnt)
        if p:
            if den == 0:
                require(a == 'UNDEF%' or a is None or float(a.rstrip('%')) == 0, '%s: %s = %s of nothing', what, name, a)
            else:
                require(abs(float(a.rstrip('%')) - 100. * cnt / den) <= .0501, '%s: %s = %s, alignments give %.3f%%', what, name, a, 100. * cnt / den)
    require(nums.get('sentences', ('', 0))[0] == str(d['nsent']), '%s: sentences %s, expected %d', what, nums.get('sentences'), d['nsent'])
    pct('with errors', d['serr'], d['nsent'])
    pct('with substitutions', d['ssub'], d['nsent'])
    pct('with deletions', d['sdel'], d['nsent'])
    pct('with insertions', d['sins'], d['nsent'])
    pct('Percent Total Error', d['err'], d['ref'])
    pct('Percent Correct', d['C'], d['ref'])
    pct('Percent Substitution', d['S'], d['ref'])
    pct('Percent Deletions', d['D'], d['ref'])
    pct('Percent Insertions', d['I'], d['ref'])
    pct('Ref. words', d['ref'], 0, False)
    pct('Hyp. words', d['C'] + d['S'] + d['I'], 0, False)
    pct('Aligned words', len(items), 0, False)
    if d['ref']:
        a = nums['Percent Word Accuracy'][0]
        require(abs(float(a.rstrip('%')) - 100. * (d['ref'] - d['err']) / d['ref']) <= .0501, '%s: word accuracy %s', what, a)
    exp = {k: {} for k in SECT}

    def add(k, e):
        exp[k][e] = exp[k].get(e, 0) + 1
    for it in items:
        if it[0] == 'S':
            add('CONFUSION PAIRS', '%s ==> %s' % (it[1], it[2]))
            add('SUBSTITUTIONS', it[1])
            add('FALSELY RECOGNIZED', it[2])
        elif it[0] == 'I':
            add('INSERTIONS', it[2])
        elif it[0] == 'D':
            add('DELETIONS', it[1])
    for k in SECT:
        require(k in secs, '%s: section %s missing', what, k)
        tot, ent, sm, order = secs[k][:4]
        require(ent == exp[k], '%s: %s lists %s, alignments give %s', what, k, dict(sorted(ent.items())[:6]), dict(sorted(exp[k].items())[:6]))
        require(tot == len(exp[k]) and sm == sum(exp[k].values()), '%s: %s totals %s/%s, alignments give %d/%d', what, k, tot, sm, len(exp[k]), sum(exp[k].values()))
        require(order == sorted(order, reverse=True), '%s: %s is not listed by descending count', what, k)
