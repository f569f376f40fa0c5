"""Reference model of asclite's documented alignment: word networks per speaker, a joint alignment in which one step consumes one
reference word, one hypothesis word, or one of each; costs 0 correct, 4 substitution, 3 insertion/deletion, 2 for an optional word."""
import heapq
from .core import require

INF = 1 << 40


def simplify(spec):
    """Normal form of a transcript spec as asclite defines it: '@' is nothing."""
    return spec


class WNet:
    """Epsilon-free word DAG: words[i], pred[i] (set of word indices, -1 = start), last (set of word indices / -1)."""
    def __init__(self, specs):
        self.words = []
        self.pred = []
        self.seg = []
        cur = {-1}
        for k, spec in enumerate(specs):
            cur = self._seq(spec, cur, k)
        self.last = cur

    def _seq(self, spec, cur, k):
        for it in spec:
            if isinstance(it, str):
                if it == '@':
                    continue
                self.words.append(it)
                self.pred.append(set(cur))
                self.seg.append(k)
                cur = {len(self.words) - 1}
            else:
                nxt = set()
                for alt in it:
                    nxt |= self._seq(alt, set(cur), k)
                cur = nxt
        return cur


class Rules:
    """case, frag: options; opt: 'none','ref','hyp','both'"""
    def __init__(self, case=False, frag=False, opt='none'):
        self.case, self.frag = case, frag
        self.oref, self.ohyp = opt in ('ref', 'both'), opt in ('hyp', 'both')

    def opt(self, w, side):
        o = self.oref if side == 'r' else self.ohyp
        return o and len(w) >= 2 and w[0] == '(' and w[-1] == ')'

    def strip(self, w, side):
        if self.opt(w, side):
            w = w[1:-1]
        return w if self.case else w.lower()

    def frag_of(self, w):
        if self.frag and len(w) > 1:
            if w[-1] == '-':
                return 'b', w[:-1]
            if w[0] == '-':
                return 'e', w[1:]
        return '', w

    def equal(self, r, h):
        a, b = self.strip(r, 'r'), self.strip(h, 'h')
        (fa, a), (fb, b) = self.frag_of(a), self.frag_of(b)
        if not fa and not fb:
            return a == b
        if fa and fb:
            if fa != fb:
                return False
            f = str.startswith if fa == 'b' else str.endswith
            return f(a, b) or f(b, a)
        if fa:
            return b.startswith(a) if fa == 'b' else b.endswith(a)
        return a.startswith(b) if fb == 'b' else a.endswith(b)

    def gap(self, w, side):
        return 2 if self.opt(w, side) else 3

    def pair(self, r, h):
        return 0 if self.equal(r, h) else 4


def best(refs, hyps, R, limit=400000, pairf=None, scale=1):
    """Minimum joint cost; refs, hyps: lists of WNet.  Uniform-cost search backwards from the ends (costs are small integers)."""
    nets = list(refs) + list(hyps)
    nr = len(refs)
    heap = []
    dist = {}

    def ends(i, acc):
        if i == len(nets):
            yield tuple(acc)
            return
        for e in nets[i].last:
            for x in ends(i + 1, acc + [e]):
                yield x
    for s in ends(0, []):
        dist[s] = 0
        heap.append((0, s))
    heapq.heapify(heap)
    goal = tuple([-1] * len(nets))
    eq = {}
    while heap:
        d, s = heapq.heappop(heap)
        if d > dist[s]:
            continue
        if s == goal:
            return d
        if len(dist) > limit:
            return None

        def push(t, c):
            if c < dist.get(t, INF):
                dist[t] = c
                heapq.heappush(heap, (c, t))
        for i in range(len(nets)):
            if s[i] < 0:
                continue
            w = nets[i].words[s[i]]
            side = 'r' if i < nr else 'h'
            g = R.gap(w, side) * scale
            for p in nets[i].pred[s[i]]:
                push(s[:i] + (p,) + s[i + 1:], d + g)
            if i < nr:
                for j in range(nr, len(nets)):
                    if s[j] < 0:
                        continue
                    h = nets[j].words[s[j]]
                    if pairf:
                        c = pairf(i, s[i], j - nr, s[j])
                        if c is None:
                            continue
                    else:
                        c = eq.get((w, h))
                        if c is None:
                            c = eq[(w, h)] = R.pair(w, h)
                    for p in nets[i].pred[s[i]]:
                        for q in nets[j].pred[s[j]]:
                            t = list(s)
                            t[i], t[j] = p, q
                            push(tuple(t), d + c)
    return None


def is_path(words, net):
    """Is this word list one of the paths of the net?"""
    cur = {-1}
    for w in words:
        nxt = {i for i, x in enumerate(net.words) if x == w and net.pred[i] & cur}
        if not nxt:
            return False
        cur = nxt
    return bool(cur & net.last)


def item_cost(it, R):
    """Cost of one reported item, after checking that the verdict is the right one for these words."""
    ev, a, b = it[0], it[1], it[2]
    if ev == 'D':
        require(not R.opt(a, 'r'), 'optional reference word %r counted as a deletion', a)
        return 3
    if ev == 'I':
        require(not R.opt(b, 'h'), 'optional hypothesis word %r counted as an insertion', b)
        return 3
    if b == '' or b is None:
        require(R.opt(a, 'r'), 'reference word %r with no hypothesis word reported correct', a)
        return 2
    if a == '' or a is None:
        require(R.opt(b, 'h'), 'hypothesis word %r with no reference word reported correct', b)
        return 2
    require((ev == 'C') == R.equal(a, b), 'pair %r / %r reported as %s', a, b, ev)
    return 0 if ev == 'C' else 4


# ------------------------------------------------------------------ segment references, time-marked hypotheses
class Seg:
    def __init__(self, file, chan, spk, t1, t2, spec, ign=False, lab='', wtimes=None):
        self.file, self.chan, self.spk, self.t1, self.t2 = file, chan, spk, t1, t2
        self.spec, self.ign, self.lab, self.wtimes = spec, ign, lab, wtimes

    def mid(self):
        return (self.t1 + self.t2) // 2


class Tok:
    def __init__(self, file, chan, spk, t1, t2, w, conf):
        self.file, self.chan, self.spk, self.t1, self.t2, self.w, self.conf = file, chan, spk, t1, t2, w, conf

    def mid(self):
        return (self.t1 + self.t2) // 2


ISG = 'inter_segment_gap'


def grouping(segs):
    """Groups of reference segments: maximal runs of overlapping segments of one recording and channel, in time order."""
    out = []
    for key in sorted({(s.file, s.chan) for s in segs}):
        cur, end = [], None
        for s in sorted((s for s in segs if (s.file, s.chan) == key), key=lambda s: (s.t1, s.t2)):
            if cur and s.t1 >= end:
                out.append(cur)
                cur = []
            if not cur:
                end = s.t2
            cur.append(s)
            end = max(end, s.t2)
        if cur:
            out.append(cur)
    return out


def gaps(segs, regions):
    """Inter-segment gaps: what the regions {key: [(t1,t2)]} hold besides the groups."""
    out = []
    for key in sorted(regions):
        gs = [(min(s.t1 for s in g), max(s.t2 for s in g)) for g in grouping(segs) if (g[0].file, g[0].chan) == key]
        if not gs:
            continue
        for (a, b) in regions[key]:
            t = a
            for (x, y) in gs:
                if y <= a or x >= b:
                    continue
                if x > t:
                    out.append(Seg(key[0], key[1], ISG, t, x, []))
                t = max(t, y)
            if t < b:
                out.append(Seg(key[0], key[1], ISG, t, b, []))
    return out


def ms(t):
    return '%d.%03d' % (t // 1000, t % 1000)


def judge_group(ctx, g, toks, paths, R, fold, by_seg, limit=60000, model=None):
    """g: reference segments; toks: hypothesis words of the group; paths: reported paths of these segments."""
    where = 'group %s %s %s-%s' % (g[0].file, g[0].chan, ms(min(s.t1 for s in g)), ms(max(s.t2 for s in g)))
    spks = sorted({s.spk for s in g})
    refs = {k: sorted((s for s in g if s.spk == k), key=lambda s: s.t1) for k in spks}
    hspk = sorted({t.spk for t in toks})
    hyps = {k: [t for t in toks if t.spk == k] for k in hspk}
    left = {(t.t1, t.t2): t for t in toks}
    used = {}
    cost = 0
    succ = {}
    nodes = []
    ref_order = {k: [] for k in spks}
    for k in spks:
        words = []
        net = WNet([scl_map(s.spec, fold) for s in refs[k]])
        for si, s in enumerate(refs[k]):
            p = by_seg.get(id(s))
            for it in (p.items if p else []):
                n = len(nodes)
                nodes.append(it)
                if model is None:
                    cost += item_cost(it, R)
                if it[1]:
                    words.append((it[1], si))
                    ref_order[k].append(n)
                if it[2]:
                    tm = it[p.hcol] if p.hcol is not None else ''
                    a, b = [int(round(float(x) * 1000)) for x in tm.split('+')]
                    t = left.get((a, b))
                    require(t is not None and (a, b) not in used and fold(t.w) == it[2], '%s: word %r of %s is not a hypothesis word of this group (or twice)', where, it[2], tm)
                    used[(a, b)] = n
                    tok = t
                else:
                    tok = None
                if model is not None:
                    cost += model.item(it, p, s, len([1 for w_, x in words if x == si]) - 1, tok, g, R)
                if it[2]:
                    if p.ccol is not None and t.conf is not None:
                        require(it[p.ccol] != '' and abs(float(it[p.ccol]) - t.conf) < 2e-6, '%s: confidence %s of word %s of %s, given as %s', where, it[p.ccol], it[2], tm, t.conf)
        require(seg_path(words, net), '%s: speaker %s: the words reported are no reading of the segments in order: %s', where, k, words)
    missing = [t for t in toks if (t.t1, t.t2) not in used]
    require(not missing, '%s: hypothesis words not reported: %s', where, [(t.w, ms(t.t1)) for t in missing[:5]])
    # one joint order must exist
    for k in spks:
        for a, b in zip(ref_order[k], ref_order[k][1:]):
            succ.setdefault(a, set()).add(b)
    for k in hspk:
        seq = [used[(t.t1, t.t2)] for t in hyps[k]]
        for a, b in zip(seq, seq[1:]):
            succ.setdefault(a, set()).add(b)
    indeg = {n: 0 for n in range(len(nodes))}
    for a in succ:
        for b in succ[a]:
            indeg[b] += 1
    todo = [n for n in indeg if not indeg[n]]
    done = 0
    while todo:
        n = todo.pop()
        done += 1
        for b in succ.get(n, ()):
            indeg[b] -= 1
            if not indeg[b]:
                todo.append(b)
    require(done == len(nodes), '%s: the pairs reported cross: no common order of the words exists', where)
    rn = [WNet([scl_map(s.spec, fold) for s in refs[k]]) for k in spks]
    hn = [WNet([[fold(t.w) for t in hyps[k]]]) for k in hspk]
    if model is None:
        exp = best(rn, hn, R, limit)
    else:
        def pairf(i, x, j, y):
            sg = refs[spks[i]][rn[i].seg[x]]
            k = x - min(n for n in range(len(rn[i].seg)) if rn[i].seg[n] == rn[i].seg[x])
            tk = hyps[hspk[j]][y]
            return model.pair(rn[i].words[x], fold(tk.w), sg, k, tk, g, R)
        exp = best(rn, hn, R, limit, pairf, 100)
    if exp is None:
        ctx.count('groups_too_big_for_the_oracle')
        return
    require(cost == exp, '%s: alignment of cost %d reported where cost %d exists: %s', where, cost, exp, nodes)
    ctx.count('groups')
    ctx.count('group_words', len(nodes))
    ctx.seen('group', len(spks), len(hspk), min(len(g), 6), min(len(toks), 8))
    if len(spks) + len(hspk) > 2:
        ctx.nontrivial('%d reference speakers, %d hypothesis speakers, %d items, cost %d' % (len(spks), len(hspk), len(nodes), cost))


def scl_map(spec, f):
    return [f(x) if isinstance(x, str) else [scl_map(a, f) for a in x] for x in spec]


def seg_path(words, net):
    cur = {-1}
    for w, k in words:
        nxt = {i for i, x in enumerate(net.words) if x == w and net.seg[i] == k and net.pred[i] & cur}
        if not nxt:
            return False
        cur = nxt
    return bool(cur & net.last)
