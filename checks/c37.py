"""C37: runs are reproducible and independent of other runs, of memory contents and of the environment; inputs are left alone."""
import importlib, os, re, shutil, subprocess
from vlib import build, core
from vlib.core import Violation, require

N_QUICK, N_THOROUGH = 3000, 60000
RULE = ('the commands of the workloads of the other checks, each run once and then three times at the same time in copies of its directory, with fresh memory filled with '
        'varying bytes, varying hash seeds, addresses, environments, umasks and time zones; exit status, standard output, messages and every file written are compared; '
        'non-trivial = a command that exits 0 and writes something')
ASSUMPTIONS = ['creation dates may differ', 'mergectm2rttm chooses among overlapping speakers at random and is left out']
HOSTS = ['c01', 'c02', 'c02', 'c03', 'c04', 'c05', 'c06', 'c07', 'c08', 'c09', 'c10', 'c11', 'c12', 'c15', 'c16', 'c17', 'c18', 'c19', 'c20', 'c21', 'c22', 'c23', 'c24', 'c24', 'c24', 'c27', 'c29', 'c30', 'c31']
K = 3
LAST = {}       # program -> latest (directory contents, command, stdin, env, cwd): run at the same time as the next command of the program
DATE = re.compile(rb'(?i)creation[ _]date.?.?"[^"]*"|run on \d+ \w+ +\d+ at [\d:]+')


def prepare():
    for h in sorted(set(HOSTS)):
        importlib.import_module('checks.' + h).prepare()


def snapshot(d):
    out = {}
    for root, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(root, f)
            with open(p, 'rb') as fh:
                out[os.path.relpath(p, d)] = fh.read()
    return out


def norm(b, d):
    return DATE.sub(b'', b.replace(d.encode(), b'DIR'))


class Stop(Exception):
    pass


class RepCtx(core.Ctx):
    def __init__(self, base):
        self.__dict__ = base.__dict__
        self._inputs = {}

    def write(self, name, data):
        p = core.Ctx.write(self, name, data)
        with open(p, 'rb') as fh:
            self._inputs[os.path.relpath(p, self.dir)] = fh.read()
        return p

    def run(self, cmd, stdin=None, timeout=30, env=None, enc='latin-1', cwd=None):
        cmd = [str(c) for c in cmd]
        rng = self.rng
        st = rng.getstate()
        copies = []
        raw_stdin = stdin.encode('utf-8') if isinstance(stdin, str) else stdin
        prog = re.sub(r'^[0-9a-f]{32}-', '', os.path.basename(cmd[0]))
        if prog in ('perl', 'sh', 'bash') and len(cmd) > 1:
            prog = os.path.basename(cmd[1])
        if prog == 'mergectm2rttm.pl':                      # gives a word in overlapping speech to one of its speakers at random
            return core.Ctx.run(self, cmd, stdin=stdin, timeout=timeout, env=env, enc=enc, cwd=cwd)
        other = LAST.get(prog)
        me = (self.dir, snapshot(self.dir), cmd, raw_stdin, env, cwd)
        for k in range(K):
            d = self.dir + '.c%d' % k
            shutil.rmtree(d, ignore_errors=True)
            shutil.copytree(self.dir, d, symlinks=True)
            copies.append(d)
        try:
            r = core.Ctx.run(self, cmd, stdin=stdin, timeout=timeout, env=env, enc=None, cwd=cwd)
            self.log_cmd = self.log[-1]
            base = snapshot(self.dir)
            for n, b in self._inputs.items():
                require(base.get(n) == b, 'input file %s was changed by: %s', n, self.log_cmd)
            if isinstance(stdin, str):
                stdin = stdin.encode('utf-8')
            ps = []
            dist = []
            if other:
                dd = self.dir + '.d'
                shutil.rmtree(dd, ignore_errors=True)
                od, osnap, ocmd, ostdin, oenv, ocwd = other
                os.mkdir(dd)
                for n, b in osnap.items():
                    q = os.path.join(dd, n)
                    os.makedirs(os.path.dirname(q), exist_ok=True)
                    with open(q, 'wb') as fh:
                        fh.write(b)
                with open(dd + '.in', 'wb') as fh:
                    fh.write(ostdin or b'')
            for k, d in enumerate(copies):
                if other:
                    e = dict(core.ENV)
                    e.update(oenv or {})
                    dist.append(subprocess.Popen([c.replace(od, dd) for c in ocmd], stdin=open(dd + '.in', 'rb'), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                                                 cwd=dd if not ocwd else ocwd.replace(od, dd), env=e))
                    self.counts['other_runs_at_the_same_time'] += 1
                e = dict(core.ENV)
                e.update(env or {})
                e['MALLOC_PERTURB_'] = str(rng.randrange(1, 256))
                e['PERL_HASH_SEED'] = str(rng.randrange(1 << 16))
                e['PERL_PERTURB_KEYS'] = rng.choice(['0', '1', '2'])
                e['PADDING'] = 'x' * rng.randrange(5000)
                e['TZ'] = rng.choice(['UTC', 'Asia/Tokyo', 'America/New_York'])
                c2 = [c.replace(self.dir, d) for c in cmd]
                files = [open(d + s, 'w+b') for s in ('.in', '.out', '.err')]
                files[0].write(stdin or b'')
                files[0].flush()
                files[0].seek(0)
                ps.append((d, files, subprocess.Popen(c2, stdin=files[0], stdout=files[1], stderr=files[2], cwd=d if not cwd else cwd.replace(self.dir, d), env=e, umask=rng.choice([0o022, 0o077]))))
            late = False
            for p in dist:
                try:
                    p.wait(timeout=timeout * 4)
                except subprocess.TimeoutExpired:
                    p.kill()
                    p.wait()
            for d, files, p in ps:
                try:
                    p.wait(timeout=timeout * 4)
                except subprocess.TimeoutExpired:
                    p.kill()
                    p.wait()
                    late = True
            if late:
                self.counts['slow'] += 1
                raise Stop()
            for d, files, p in ps:
                got = []
                for f in files[1:]:
                    f.seek(0)
                    got.append(norm(f.read(), d))
                    f.close()
                files[0].close()
                self.counts['compared_runs'] += 1
                require(p.returncode == r.rc, 'exit status %d, and %d when repeated: %s', r.rc, p.returncode, self.log_cmd)
                for a, b, n in ((norm(r.out, self.dir), got[0], 'standard output'), (norm(r.err, self.dir), got[1], 'messages')):
                    require(a == b, '%s differs between runs of %s\n%s', n, self.log_cmd, diff(a, b))
                snap = snapshot(d)
                require(sorted(snap) == sorted(base), 'files written: %s, and when repeated %s: %s', sorted(base), sorted(snap), self.log_cmd)
                for n in base:
                    a, b = norm(base[n], self.dir), norm(snap[n], d)
                    require(a == b, 'file %s differs between runs of %s\n%s', n, self.log_cmd, diff(a, b))
                    self.counts['compared_files'] += 1
            self.counts['ran_' + prog] += 1
            if r.rc == 0 and (r.out or len(base) > len(self._inputs)):
                self.ok_runs = getattr(self, 'ok_runs', 0) + 1
            self.seen(prog, r.rc, len(base), len(r.out).bit_length())
            if enc:
                r = core.Res(r.rc, r.out.decode(enc), r.err.decode(enc))
            return r
        except Violation as e:
            if e.sig is None or e.sig == '':
                e.sig = 'rep'
            raise
        finally:
            rng.setstate(st)
            if prog not in LAST or sum(map(len, me[1].values())) < 300000:
                LAST[prog] = me
            for d in copies + [self.dir + '.d']:
                shutil.rmtree(d, ignore_errors=True)
                for s in ('.in', '.out', '.err'):
                    try:
                        os.remove(d + s)
                    except OSError:
                        pass


def diff(a, b):
    A, B = a.split(b'\n'), b.split(b'\n')
    for i, (x, y) in enumerate(zip(A, B)):
        if x != y:
            return 'line %d: %r / %r' % (i + 1, x[:300], y[:300])
    return '%d and %d lines' % (len(A), len(B))


def case(ctx):
    h = os.environ['HOSTS'] if 'HOSTS' in os.environ else ctx.rng.choice(HOSTS)
    mod = importlib.import_module('checks.' + h)
    c = RepCtx(ctx)
    prop = ctx.prop
    try:
        mod.case(c)
    except Violation as e:
        if e.sig in ('rep', 'hang', 'runaway'):
            raise
        ctx.counts['other_oracle'] += 1
    except (core.Inconclusive, MemoryError, OSError):
        raise
    except Stop:
        pass
    except Exception:
        ctx.counts['other_oracle'] += 1
    finally:
        ctx.prop = prop
    ctx.count('workload_' + h)
    if getattr(ctx, 'ok_runs', 0):
        ctx.nontrivial('%s: %s' % (h, ctx.log[0][:200]))
