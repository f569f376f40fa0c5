"""developer helper: run N cases of a sanitizer check without stopping, group reports by site"""
import sys, os, re, collections, importlib, tempfile, shutil, multiprocessing as mp
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core
prop, n = sys.argv[1], int(sys.argv[2])
start = int(sys.argv[3]) if len(sys.argv) > 3 else 0
mod = importlib.import_module('checks.' + prop.lower()); mod.prepare()
tmp = tempfile.mkdtemp(prefix='triage-')
g = collections.defaultdict(list); cnt = collections.Counter()
seed = os.environ.get('VERIF_SEED', '1')
with mp.get_context('fork').Pool(8, initializer=core.limit) as pool:
    for idx, viol, inc, rp, c, k, note, ih, kf in pool.imap_unordered(core._one, [('checks.' + prop.lower(), prop, seed, i, 'quick', tmp) for i in range(start, start + n)], 2):
        cnt.update(c)
        if viol:
            m = re.search(r'(\w+\.(?:c|cpp|h):\d+):?\d*: runtime error: ([^\n]*)', viol[0])
            fr = [x for x in re.findall(r' in (\S+) /\S*/src/\S*?/([\w.]+:\d+)', viol[0])]
            head = viol[0].split('\n')[1][:90] if '\n' in viol[0] else viol[0][:120]
            head = re.sub(r'==\d+==|0x[0-9a-f]+|at pc.*', '', head)
            g[(head, tuple('%s@%s' % f for f in fr[:3]))].append(idx)
            if len(g[(head, tuple('%s@%s' % f for f in fr[:3]))]) > 2:
                shutil.rmtree(rp, ignore_errors=True)
shutil.rmtree(tmp, ignore_errors=True)
for k, v in sorted(g.items(), key=lambda x: -len(x[1])):
    print(len(v), v[:3], k[0], k[1])
print(dict((k, v) for k, v in cnt.items() if 'run' in k or 'damag' in k))
