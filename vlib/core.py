"""Check driver: runs generated cases against the real programs under monitors, aggregates verdicts."""
import collections, hashlib, importlib, json, multiprocessing as mp, os, random, re, shutil, subprocess, sys
import resource, signal, tempfile, time, traceback
from . import build

VERIF = build.VERIF
EVID = os.path.join(VERIF, 'evidence')
REPLAYS = os.path.join(VERIF, 'replays')
KNOWN = os.path.join(VERIF, 'known_findings.jsonl')


class Violation(Exception):
    """A monitor decided that an observed execution breaks the property."""
    def __init__(self, msg, sig=None):
        Exception.__init__(self, msg)
        self.sig = sig


class Inconclusive(Exception):
    """The execution could not be judged (infrastructure trouble): never a verdict."""


ENV = dict(PATH=os.environ.get('PATH', '/usr/bin:/bin'), HOME='/nonexistent', LANG='C.UTF-8', LC_ALL='C.UTF-8',
           ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=1:max_malloc_fill_size=4096:malloc_fill_byte=190',
           UBSAN_OPTIONS='print_stacktrace=1:halt_on_error=1:exitcode=99',
           MSAN_OPTIONS='exitcode=99')

KF = {}
HUNG = []                                  # set after a confirmed hang: this worker waits less from then on
FSIZE = 64 << 20                           # no program under test may write a larger file
BUDGET = {'quick': 600, 'thorough': 3000}  # seconds after which no further case is waited for
Res = collections.namedtuple('Res', 'rc out err')


class Ctx:
    """One case: a scratch directory, a seeded rng, counters of what the monitors observed."""
    def __init__(self, prop, seed, idx, tier, tmproot):
        self.prop, self.seed, self.idx, self.tier = prop, seed, idx, tier
        self.rng = random.Random('%s/%s/%s' % (prop, seed, idx))
        self.dir = tempfile.mkdtemp(dir=tmproot)
        self.counts = collections.Counter()
        self.keys = set()
        self.log = []
        self.note = None
        self.nontriv = False
        self.inh = hashlib.sha256()
        self.kf = set()

    def nontrivial(self, note=None):
        """This case exercised what the property is about (the rule in the evidence says how)."""
        self.nontriv = True
        if note is not None:
            self.note = note

    def path(self, name):
        return os.path.join(self.dir, name)

    def write(self, name, data):
        p = self.path(name)
        if isinstance(data, str):
            data = data.encode('utf-8')
        self.inh.update(name.encode() + b'\0' + data)
        with open(p, 'wb') as f:
            f.write(data)
        return p

    def read(self, name, enc='latin-1'):
        try:
            with open(self.path(name), 'rb') as f:
                d = f.read()
        except FileNotFoundError:
            raise Violation('expected output file %s was not produced' % name)
        return d.decode(enc) if enc else d

    def count(self, k, n=1):
        self.counts[k] += n

    def seen(self, *key):
        self.keys.add(key if len(key) > 1 else key[0])

    def run(self, cmd, stdin=None, timeout=30, env=None, enc='latin-1', cwd=None):
        cmd = [str(c) for c in cmd]
        self.log.append(' '.join("'%s'" % c if re.search(r"[^\w./:=+,-]", c) else c for c in cmd))
        if isinstance(stdin, str):
            stdin = stdin.encode('utf-8')
        self.inh.update(' '.join(os.path.basename(c) for c in cmd).encode('utf-8', 'replace') + (stdin or b''))
        e = dict(ENV)
        if env:
            e.update(env)
        for attempt, to in enumerate((timeout, timeout * 3) if not HUNG else (min(5, timeout),)):
            # output goes through files, so that the file size limit of the workers bounds it too
            with open(self.dir + '.in', 'w+b') as fi, open(self.dir + '.out', 'w+b') as fo, open(self.dir + '.err', 'w+b') as fe:
                try:
                    if stdin:
                        fi.write(stdin)
                        fi.flush()
                        fi.seek(0)
                    rc = subprocess.call(cmd, stdin=fi, stdout=fo, stderr=fe, cwd=cwd or self.dir, timeout=to, env=e)
                    self.counts['program_runs'] += 1
                    if rc == -signal.SIGXFSZ:
                        raise Violation('runaway output (over %d MB): %s' % (FSIZE >> 20, self.log[-1]), 'runaway')
                    fo.seek(0)
                    fe.seek(0)
                    out, err = fo.read(), fe.read()
                    if enc:
                        return Res(rc, out.decode(enc), err.decode(enc))
                    return Res(rc, out, err)
                except subprocess.TimeoutExpired:
                    self.counts['timeouts'] += 1
        HUNG.append(1)
        raise Violation('did not terminate within %ds (twice): %s' % (timeout * 3, self.log[-1]), 'hang')

    def known_or_fail(self, sig, msg):
        """A precisely characterised deviation: listed in known_findings.jsonl -> noted, otherwise a violation."""
        if any(d.get('signature') == sig for d in KF.setdefault(self.prop, load_known(self.prop))):
            self.kf.add(sig)
        else:
            raise Violation(msg, sig)

    def ok(self, cmd, **kw):
        r = self.run(cmd, **kw)
        if r.rc != 0:
            raise Violation('exit status %d from valid input: %s\n%s' % (r.rc, self.log[-1], (r.out[-1500:] + r.err[-1500:])
                            if isinstance(r.out, str) else ''))
        return r


def require(cond, msg, *a):
    if not cond:
        raise Violation(msg % a if a else msg)


def _one(args):
    modname, prop, seed, idx, tier, tmproot = args
    mod = importlib.import_module(modname)
    ctx = Ctx(prop, seed, idx, tier, tmproot)
    viol = None
    inc = None
    try:
        mod.case(ctx)
    except Violation as e:
        viol = (str(e), e.sig)
    except Inconclusive as e:
        inc = str(e)
    except (MemoryError, PermissionError, build.BuildError) as e:
        inc = repr(e)
    except OSError as e:
        inc = repr(e)
    except Exception:
        viol = ('the observed output could not be interpreted:\n' + traceback.format_exc(), 'uninterpretable')
    rp = None
    if viol:
        rp = os.path.join(REPLAYS, prop, '%s-%s' % (seed, idx))
        try:
            shutil.rmtree(rp, ignore_errors=True)
            os.makedirs(os.path.dirname(rp), exist_ok=True)
            shutil.copytree(ctx.dir, rp, ignore=lambda d, names: [n for n in names if os.path.isfile(os.path.join(d, n))
                                                                  and os.path.getsize(os.path.join(d, n)) > (1 << 20)])
            with open(os.path.join(rp, 'REPLAY.txt'), 'w') as f:
                f.write('property %s\nrerun: cd /verif && VERIF_SEED=%s VERIF_TIER=%s python3 check.py %s --case %s\n\ncommands (run in the case directory %s):\n%s\n\nverdict:\n%s\n'
                        % (prop, seed, tier, prop, idx, ctx.dir, '\n'.join(ctx.log), viol[0]))
        except OSError:
            pass
    shutil.rmtree(ctx.dir, ignore_errors=True)
    for x in ('.in', '.out', '.err'):
        try:
            os.unlink(ctx.dir + x)
        except OSError:
            pass
    return idx, viol, inc, rp, dict(ctx.counts), list(ctx.keys), ctx.note, (ctx.inh.digest()[:12] if ctx.nontriv else None), sorted(ctx.kf)


def limit():
    resource.setrlimit(resource.RLIMIT_FSIZE, (FSIZE, FSIZE))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def load_known(prop):
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l:
                d = json.loads(l)
                if d.get('property') == prop and d.get('status') == 'known':
                    out.append(d)
    return out


def main(argv):
    prop = argv[0]
    modname = 'checks.' + prop.lower()
    seed = os.environ.get('VERIF_SEED', '1')
    tier = os.environ.get('VERIF_TIER', 'quick')
    only = None
    jobs = int(os.environ.get('VERIF_JOBS', '8'))
    n_over = None
    i = 1
    while i < len(argv):
        if argv[i] == '--case':
            only = int(argv[i + 1]); i += 1
        elif argv[i] == '--n':
            n_over = int(argv[i + 1]); i += 1
        elif argv[i] == '--tier':
            tier = argv[i + 1]; i += 1
        i += 1
    t0 = time.time()
    mod = importlib.import_module(modname)
    try:
        mod.prepare()                      # builds from /repo's current tree; children inherit the paths
    except build.BuildError as e:
        print('BUILD FAILED\n%s' % e)
        return 3
    n = n_over or (mod.N_THOROUGH if tier == 'thorough' else mod.N_QUICK)
    tmproot = tempfile.mkdtemp(prefix='verif-%s-' % prop)
    idxs = [only] if only is not None else list(range(n))
    args = [(modname, prop, seed, k, tier, tmproot) for k in idxs]
    viols, incs = [], []
    kfseen = set()
    counts = collections.Counter()
    keys = set()
    inhs = set()
    notes = []
    done = 0
    shutil.rmtree(os.path.join(REPLAYS, prop), ignore_errors=True)
    tviol = None
    try:
        if len(args) == 1:
            limit()
            it = map(_one, args)
            pool = None
        else:
            pool = mp.get_context('fork').Pool(jobs, initializer=limit)
            it = pool.imap_unordered(_one, args, chunksize=max(1, min(4, len(args) // (jobs * 4))))
        for idx, viol, inc, rp, c, k, note, ih, kfs in it:
            kfseen.update(kfs)
            done += 1
            counts.update(c)
            if ih:
                inhs.add(ih)
            for kk in k:
                if len(keys) < 2000000:
                    keys.add(kk)
            if note is not None and len(notes) < 8:
                notes.append(note)
            if inc:
                incs.append((idx, inc))
            if viol:
                viols.append((idx, viol[0], viol[1], rp))
                tviol = tviol or time.time()
                if len(viols) >= 25 and only is None:
                    break
            if time.time() - t0 > BUDGET.get(tier, 600) or (tviol and time.time() - tviol > 60):
                break
        if pool:
            pool.terminate()
            pool.join()
    finally:
        shutil.rmtree(tmproot, ignore_errors=True)
    known = load_known(prop)
    new, kf = [], {d['signature']: d for d in known if d['signature'] in kfseen}
    for v in sorted(viols, key=lambda x: x[0]):
        hit = None
        for d in known:
            if v[2] is not None and v[2] == d['signature']:
                hit = d
        if hit:
            kf[hit['signature']] = hit
        else:
            new.append(v)
    for s, d in kf.items():
        print('KNOWN-FINDING: property=%s %s' % (prop, d['what']))
    for v in new[:10]:
        print('VIOLATION property=%s replay=%s' % (prop, v[3]))
        print('  case %s: %s' % (v[0], v[1].replace('\n', '\n    ')[:900]))
    if incs:
        print('inconclusive cases: %d, e.g. %s' % (len(incs), incs[0]))
    wall = time.time() - t0
    nontriv = len(inhs)
    rule = getattr(mod, 'RULE', 'distinct keys recorded by the monitors')
    ev = {'property': prop, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': int(seed) if seed.isdigit() else 1, 'level': getattr(mod, 'LEVEL', 'exploration'),
          'coverage': {'evaluations': done, 'distinct_nontrivial': nontriv, 'rule': rule,
                       'samples': [str(x)[:400] for x in notes][:8] or ['(no note)'],
                       'observed': {k: int(v) for k, v in sorted(counts.items())},
                       'distinct_states_observed': len(keys),
                       'states_sample': sorted(str(x)[:160] for x in list(keys)[:12]),
                       'inconclusive': len(incs)},
          'violations': len(new), 'violation_details': [{'case': v[0], 'what': v[1][:500], 'replay': v[3]} for v in new[:25]],
          'assumptions': getattr(mod, 'ASSUMPTIONS', []),
          'wall_s': round(wall, 2)}
    os.makedirs(EVID, exist_ok=True)
    if only is None:
        tmp = os.path.join(EVID, '.%s.%d' % (prop, os.getpid()))
        with open(tmp, 'w') as f:
            json.dump(ev, f, indent=1)
        os.rename(tmp, os.path.join(EVID, prop + '.json'))
    print('%s: %d cases, %d distinct non-trivial, %d states, %d new violations, %d known, %.1fs; observed %s' % (
        prop, done, nontriv, len(keys), len(new), len(kf), wall, dict(counts)))
    if new:
        return 1
    if incs and len(incs) > max(2, done // 20):
        print('too many inconclusive cases: no verdict')
        return 4
    return 0
