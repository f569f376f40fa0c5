"""Reference model of sclite's documented scoring semantics, and parsers of its reports.
Everything is judged from inputs given to and reports read from the real program."""
import re
from .core import Violation, require

# ----------------------------------------------------------------------- SGML alignments
TAG = re.compile(r'([A-Za-z_0-9]+)="([^"]*)"')


class Path:
    __slots__ = ('id', 'attrs', 'items', 'spk', 'hcol', 'ccol')

    def counts(self):
        c = {'C': 0, 'S': 0, 'D': 0, 'I': 0}
        for it in self.items:
            c[it[0]] += 1
        return c['C'], c['S'], c['D'], c['I']


def split_tokens(s, sep=':'):
    out, cur, q = [], '', False
    for ch in s:
        if ch == '"':
            q = not q
            cur += ch
        elif ch == sep and not q:
            out.append(cur)
            cur = ''
        else:
            cur += ch
    out.append(cur)
    return out


def parse_sgml(txt):
    """-> [ {attrs, labels:[...], cats, speakers:[(id,[Path])]} ]"""
    systems = []
    lines = txt.split('\n')
    i = 0
    cur = spk = path = None
    for ln in lines:
        if ln.startswith('<SYSTEM'):
            cur = {'attrs': dict(TAG.findall(ln)), 'labels': [], 'cats': [], 'speakers': []}
            systems.append(cur)
        elif ln.startswith('</SYSTEM'):
            cur = None
        elif ln.startswith('<LABEL'):
            cur['labels'].append(dict(TAG.findall(ln)))
        elif ln.startswith('<CATEGORY'):
            cur['cats'].append(dict(TAG.findall(ln)))
        elif ln.startswith('<SPEAKER'):
            spk = (dict(TAG.findall(ln))['id'], [])
            cur['speakers'].append(spk)
        elif ln.startswith('</SPEAKER'):
            spk = None
        elif ln.startswith('<PATH'):
            path = Path()
            path.attrs = dict(TAG.findall(ln))
            path.id = path.attrs['id']
            path.items = []
            path.spk = spk[0]
        elif ln.startswith('</PATH'):
            require(int(path.attrs['word_cnt']) == len(path.items), 'PATH %s: word_cnt=%s but %d aligned items',
                    path.id, path.attrs['word_cnt'], len(path.items))
            spk[1].append(path)
            path = None
        elif path is not None:
            if ln == '':
                continue
            for tok in split_tokens(ln):
                f = split_tokens(tok, ',')
                ev = f[0]
                require(ev in 'CSDI' and len(ev) == 1 and len(f) >= 3, 'PATH %s: bad item %r', path.id, tok)
                a = f[1][1:-1] if f[1] != '' else None
                b = f[2][1:-1] if f[2] != '' else None
                require((a is None) == (ev == 'I') and (b is None) == (ev == 'D'), 'PATH %s: item %r', path.id, tok)
                path.items.append((ev, a, b) + tuple(f[3:]))
    return systems


# ----------------------------------------------------------------------- word networks
def tokens(s):
    return s.split()


class Net:
    """DAG of words.  arcs: list of (u, v, word); nodes 0..n-1 in topological order; start 0, end n-1."""
    def __init__(self, spec):
        # spec: list of items; item = str | list of alternatives (each a spec list)
        self.arcs = []
        self.n = 1
        self.eps = []
        end = self._seq(spec, 0)
        self.n_nodes = self.n
        self.end = end
        self._order()

    def _new(self):
        self.n += 1
        return self.n - 1

    def _seq(self, spec, u):
        for it in spec:
            if isinstance(it, str):
                v = self._new()
                self.arcs.append((u, v, it))
            else:
                outs = [self._seq(alt, u) for alt in it]
                v = self._new()
                for o in outs:
                    self.arcs.append((o, v, None))   # epsilon
            u = v
        return u

    def _order(self):
        # epsilon arcs removed by folding them as zero-cost moves; node numbering is already topological
        self.out = [[] for _ in range(self.n_nodes)]
        self.inn = [[] for _ in range(self.n_nodes)]
        for (u, v, w) in self.arcs:
            self.out[u].append((v, w))
            self.inn[v].append((u, w))


def render(spec):
    """spec -> transcript text"""
    out = []
    for it in spec:
        if isinstance(it, str):
            out.append(it)
        else:
            out.append('{ ' + ' / '.join(render(a) for a in it) + ' }')
    return ' '.join(out)


def map_words(spec, f):
    return [f(it) if isinstance(it, str) else [map_words(a, f) for a in it] for it in spec]


def flat_words(spec):
    for it in spec:
        if isinstance(it, str):
            yield it
        else:
            for a in it:
                for w in flat_words(a):
                    yield w


# ----------------------------------------------------------------------- matching rules
class Rules:
    def __init__(self, case=False, frag=False, optdel=False):
        self.case, self.frag, self.optdel = case, frag, optdel

    def norm(self, w):
        if len(w) > 1 and w.endswith('*'):
            w = w[:-1]
        return w if self.case else w.lower()

    def is_od(self, w):
        return self.optdel and len(w) >= 2 and w[0] == '(' and w[-1] == ')'

    def inner(self, w):
        return w[1:-1] if self.is_od(w) else w

    def equal(self, a, b):
        """a, b normalised words"""
        x, y = self.inner(a), self.inner(b)
        if self.frag:
            for p, q in ((x, y), (y, x)):
                if len(p) > 1 and p[0] == '-':
                    return q.endswith(p[1:])
                if len(p) > 1 and p[-1] == '-':
                    return q.startswith(p[:-1])
        return x == y

    def c_del(self, w):
        if w == '@':
            return 0.001
        return 2.0 if self.is_od(w) else 3.0

    def c_sub(self, a, b):
        if a == '@' or b == '@':
            return 1e6        # a null alternative is only ever dropped (cost 0.001), never paired with a word
        return 0.0 if self.equal(a, b) else 4.0


def best_cost(ref, hyp, R):
    """Minimum alignment cost between two Nets (independent DP over the node product)."""
    INF = 1e18
    nr, nh = ref.n_nodes, hyp.n_nodes
    D = [[INF] * nh for _ in range(nr)]
    D[0][0] = 0.0
    for i in range(nr):
        Di = D[i]
        for j in range(nh):
            best = Di[j]
            for (u, w) in ref.inn[i]:
                c = D[u][j] + (0.0 if w is None else R.c_del(w))
                if c < best:
                    best = c
            for (v, x) in hyp.inn[j]:
                c = Di[v] + (0.0 if x is None else R.c_del(x))
                if c < best:
                    best = c
            for (u, w) in ref.inn[i]:
                if w is None:
                    continue
                for (v, x) in hyp.inn[j]:
                    if x is None:
                        continue
                    c = D[u][v] + R.c_sub(w, x)
                    if c < best:
                        best = c
            Di[j] = best
    return D[ref.end][hyp.end]


def explain_cost(ref, hyp, items, R):
    """Cheapest way the reported alignment can be read as an alignment of the two networks
    (None: it is not an alignment of these inputs at all).  Items are (ev, refword, hypword)."""
    INF = 1e18
    K = len(items)
    best = {(0, 0, 0): 0.0}
    # process states in topological order (i, j, k)
    order = []
    nr, nh = ref.n_nodes, hyp.n_nodes
    layers = [[[INF] * nh for _ in range(nr)] for _ in range(K + 1)]
    layers[0][0][0] = 0.0
    for k in range(K + 1):
        L = layers[k]
        it = items[k] if k < K else None
        N = layers[k + 1] if k < K else None
        for i in range(nr):
            for j in range(nh):
                c = L[i][j]
                if c >= INF:
                    continue
                for (u, w) in ref.out[i]:
                    if w is None:
                        if c < L[u][j]:
                            L[u][j] = c
                    elif w == '@':
                        if c + 0.001 < L[u][j]:
                            L[u][j] = c + 0.001
                for (v, x) in hyp.out[j]:
                    if x is None:
                        if c < L[i][v]:
                            L[i][v] = c
                    elif x == '@':
                        if c + 0.001 < L[i][v]:
                            L[i][v] = c + 0.001
                if it is None:
                    continue
                ev, a, b = it[0], it[1], it[2]
                if ev == 'D' or (ev == 'C' and b == ''):
                    for (u, w) in ref.out[i]:
                        if w is not None and w == a and w != '@':
                            if (ev == 'C') != R.is_od(w):
                                continue
                            cc = c + R.c_del(w)
                            if cc < N[u][j]:
                                N[u][j] = cc
                elif ev == 'I' or (ev == 'C' and a == ''):
                    for (v, x) in hyp.out[j]:
                        if x is not None and x == b and x != '@':
                            if (ev == 'C') != R.is_od(x):
                                continue
                            cc = c + R.c_del(x)
                            if cc < N[i][v]:
                                N[i][v] = cc
                else:
                    for (u, w) in ref.out[i]:
                        if w is None or w != a or w == '@':
                            continue
                        for (v, x) in hyp.out[j]:
                            if x is None or x != b or x == '@':
                                continue
                            if (ev == 'C') != R.equal(w, x):
                                continue
                            cc = c + R.c_sub(w, x)
                            if cc < N[u][v]:
                                N[u][v] = cc
    r = layers[K][ref.end][hyp.end]
    return None if r >= INF else r
