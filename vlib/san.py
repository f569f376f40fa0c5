"""Sanitizer monitors: rerun other checks' workloads, and mutations of their inputs, under instrumented builds.
Only the sanitizers' reports, crashes and hangs decide; what the programs print is not judged here."""
import os, random, re, shutil
from . import build, core
from .core import Violation

REPORT = re.compile(r'ERROR: AddressSanitizer|WARNING: MemorySanitizer|ERROR: MemorySanitizer|runtime error:|ERROR: LeakSanitizer|UndefinedBehaviorSanitizer')


class Stop(Exception):
    """The workload ended early (its own oracle or an early exit): nothing for the sanitizer monitor."""


def frames(err):
    """the report's head and the frames inside the programs' sources"""
    m = REPORT.search(err)
    t = err[m.start():] if m else err[:600]
    head = t.split('\n')[0][:300]
    fr = re.findall(r'#\d+ 0x[0-9a-f]+ in (\S+) [^\n]*?([\w.]+:\d+)', t)
    return head, ['%s@%s' % f for f in fr[:8]]


def judge(res, cmd):
    err = res.err if isinstance(res.err, str) else res.err.decode('latin-1')
    if REPORT.search(err):
        h, f = frames(err)
        raise Violation('sanitizer report from %s\n%s\n%s\n\n%s' % (cmd, h, '\n'.join(f), err[:6000]), 'san')
    if res.rc == -6 and 'could not read and entire line' in err:
        return                               # the documented refusal of over-long lines in word-weight files
    if res.rc < 0 or res.rc in (99, 134, 139):
        raise Violation('killed (status %d): %s\n%s' % (res.rc, cmd, err[-2000:]), 'san')


class SanCtx(core.Ctx):
    """Ctx whose programs are watched by the sanitizer; mutates input files between runs when asked."""
    def __init__(self, base, mutate, targets, timeout, hangs=True, small=False):
        self.__dict__ = base.__dict__
        self._small = small
        self._mutate, self._targets, self._to, self._hangs = mutate, targets, timeout, hangs

    def run(self, cmd, stdin=None, timeout=30, env=None, enc='latin-1', cwd=None):
        prog = re.sub(r'^[0-9a-f]{32}-', '', os.path.basename(str(cmd[0])))
        kw = dict(timeout=max(timeout, self._to), env=env, enc=enc, cwd=cwd)
        try:
            r = core.Ctx.run(self, cmd, stdin=stdin, **(kw if self._hangs else dict(kw, timeout=8)))
        except Violation as e:
            if e.sig != 'hang' or self._hangs:
                raise
            del core.HUNG[:]                 # deliberately oversized input: slow is not wrong
            self.counts['stress_slow'] += 1
            raise Stop()
        self.counts['runs_' + prog] += 1
        judge(r, self.log[-1])
        if self._mutate and prog in self._targets:
            for _ in range(self._mutate):
                self.one_mutation(cmd, stdin, kw)
        return r

    def one_mutation(self, cmd, stdin, kw):
        rng = self.rng
        cand = [c for c in cmd[1:] if isinstance(c, str) and os.path.isfile(self.path(c)) and '/' not in c]
        if isinstance(stdin, str):
            stdin = stdin.encode('utf-8')
        if stdin:
            cand.append(None)
        if not cand:
            return
        f = rng.choice(cand)
        keep = None
        s2 = stdin
        if f is None:
            s2, what = damage(rng, stdin, self._small)
        else:
            with open(self.path(f), 'rb') as fh:
                keep = fh.read()
            d, what = damage(rng, keep, self._small)
            with open(self.path(f), 'wb') as fh:
                fh.write(d)
        try:
            r = core.Ctx.run(self, cmd, stdin=s2, **dict(kw, timeout=10))
            self.counts['damaged_input_runs'] += 1
            self.counts['damaged_refused' if r.rc else 'damaged_accepted'] += 1
            self.seen(os.path.basename(cmd[0]), what, r.rc, len(r.out) % 7)
            judge(r, self.log[-1] + '   [%s %s]' % (f, what))
        except Violation as e:
            if e.sig == 'hang':              # slow under instrumentation: no verdict on damaged input
                del core.HUNG[:]
                self.counts['damaged_slow'] += 1
                return
            keep = None                      # leave the damaged input for the replay
            raise
        finally:
            if keep is not None:
                with open(self.path(f), 'wb') as fh:
                    fh.write(keep)


def damage(rng, d, small=False):
    """one or a few edits a broken producer, a truncated copy or a careless editor could make"""
    what = []
    for _ in range(rng.choice([1, 1, 1, 2, 4])):
        k = rng.choice(['cut', 'dropline', 'dupline', 'swapfield', 'dropfield', 'longword', 'longline', 'byte', 'punct', 'blank',
                        'nonl', 'dropchar', 'number', 'manyfields'])
        lines = d.split(b'\n')
        i = rng.randrange(len(lines))
        f = lines[i].split(b' ')
        if k == 'cut':
            d = d[:rng.randrange(len(d) + 1)]
        elif k == 'dropline':
            del lines[i]
            d = b'\n'.join(lines)
        elif k == 'dupline':
            lines.insert(rng.randrange(len(lines) + 1), lines[i])
            d = b'\n'.join(lines)
        elif k == 'swapfield' and len(f) > 1:
            a, b = rng.randrange(len(f)), rng.randrange(len(f))
            f[a], f[b] = f[b], f[a]
            lines[i] = b' '.join(f)
            d = b'\n'.join(lines)
        elif k == 'dropfield':
            del f[rng.randrange(len(f))]
            lines[i] = b' '.join(f)
            d = b'\n'.join(lines)
        elif k == 'longword':
            f[rng.randrange(len(f))] = bytes(rng.choice(b'abz') for _ in range(1)) * rng.choice([50, 99, 100, 101, 199, 200, 255, 256, 300, 511, 511, 512, 700, 1000, 1024])
            lines[i] = b' '.join(f)
            d = b'\n'.join(lines)
        elif k == 'longline':
            lines[i] = lines[i] + b' w' * rng.choice([50, 100, 300])
            d = b'\n'.join(lines)
        elif k == 'manyfields':
            f[rng.randrange(len(f)):0] = [b'1'] * rng.choice([1, 2, 5, 20])
            lines[i] = b' '.join(f)
            d = b'\n'.join(lines)
        elif k == 'byte' and d:
            j = rng.randrange(len(d))
            d = d[:j] + bytes([rng.choice([0, 9, 13, 32, 34, 60, 62, 92, 127, 128, 195, 255])]) + d[j + rng.randrange(2):]
        elif k == 'punct' and d:
            j = rng.randrange(len(d))
            d = d[:j] + rng.choice([b'{', b'}', b'/', b'(', b')', b';;', b'"', b'<', b'>', b'@', b'%', b'*', b'-', b',', b':', b'=>', b'[', b']', b'&']) + d[j:]
        elif k == 'blank':
            lines[i] = rng.choice([b'', b' ', b'\t', b'   '])
            d = b'\n'.join(lines)
        elif k == 'nonl':
            d = d.rstrip(b'\n')
        elif k == 'dropchar' and d:
            j = rng.randrange(len(d))
            d = d[:j] + d[j + 1:]
        elif k == 'number':
            n = [j for j, x in enumerate(f) if re.fullmatch(rb'-?[\d.]+', x)]
            if n:
                f[rng.choice(n)] = rng.choice([b'-1', b'0', b'-0.5', b'x', b'', b'1.2.3', b'99999'] if small else [b'-1', b'0', b'1e30', b'nan', b'-0.5', b'99999999999', b'2147483648', b'x', b'', b'1.2.3', b'inf'])
                lines[i] = b' '.join(f)
                d = b'\n'.join(lines)
        what.append(k)
    return d, '+'.join(what)


def run_case(ctx, hosts, variant, mutate, targets, timeout=60, small=False):
    """run a host check's case under the sanitizer build of `variant`"""
    import importlib
    name = ctx.rng.choice(hosts)
    mod = importlib.import_module('checks.' + name)
    build.FORCE = variant
    prop = ctx.prop
    try:
        mod.case(SanCtx(ctx, mutate, targets, timeout, not name.endswith('s'), small))
    except Violation as e:
        if e.sig in ('san', 'hang', 'runaway'):
            raise
        ctx.counts['other_oracle'] += 1
    except (core.Inconclusive, MemoryError, OSError):
        raise
    except Stop:
        pass
    except Exception:
        ctx.counts['other_oracle'] += 1
    finally:
        build.FORCE = None
        ctx.prop = prop
    ctx.count('workload_' + name)
