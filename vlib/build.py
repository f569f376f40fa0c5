"""Builds SCTK from /repo's *current working tree* into /verif/.build (never inside /repo).

Variants:
  plain : gcc -Os, the flags of the project's own makefiles
  asan  : gcc -O1 -fsanitize=address,undefined   (memory / UB monitor)
  msan  : clang -O1 -fsanitize=memory            (uninitialised-read monitor; C programs only)
Objects are cached by content hash, so a rebuild only compiles what changed.
"""
import hashlib, os, re, shutil, subprocess, sys, glob, tempfile
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, '.build'))

SCLITE_PROGS = ['sclite', 'sc_stats', 'rover', 'sctkUnit']
SLM_PROGS = ['idngram2lm', 'evallm', 'text2wngram', 'text2idngram', 'binlm2arpa', 'ngram2mgram',
             'idngram2stats', 'wfreq2vocab', 'text2wfreq', 'wngram2idngram', 'mergeidngram', 'interpolate']
PERL_TOOLS = ['acomp/acomp.pl', 'chfilt/chfilt.pl', 'csrfilt/csrfilt.sh', 'ctmValidator/ctmValidator.pl',
              'def_art/def_art.pl', 'hamzaNorm/hamzaNorm.pl', 'hubscr/hubscr.pl', 'md-eval/md-eval.pl',
              'mergectm2rttm/mergectm2rttm.pl', 'rttm2ctm/rttm2ctm.pl', 'rttmSmooth/rttmSmooth.pl',
              'rttmSort/rttmSort.pl', 'rttmValidator/rttmValidator.pl', 'slatreport/slatreport.pl',
              'spkr2sad/spkr2sad.pl', 'stm2rttm/stm2rttm.pl', 'tanweenFilt/tanweenFilt.pl',
              'utf_filt/utf_filt.pl']

VARIANTS = {
    'plain': dict(cc='gcc', cxx='g++', opt=['-Os', '-w']),
    'asan': dict(cc='gcc', cxx='g++', opt=['-O1', '-g', '-w', '-fno-omit-frame-pointer',
                 '-fsanitize=address,undefined', '-fno-sanitize=float-divide-by-zero,nonnull-attribute']),
    'msan': dict(cc='clang', cxx='clang++', opt=['-O1', '-g', '-w', '-fno-omit-frame-pointer',
                 '-fsanitize=memory', '-fno-sanitize-memory-param-retval', '-Wno-implicit-int',
                 '-Wno-implicit-function-declaration', '-Wno-int-conversion', '-Wno-return-type',
                 '-Wno-incompatible-function-pointer-types', '-Wno-implicit-const-int-float-conversion']),
}
SC_DEFS = ['-DHAVE_LIBM=1', '-DSTDC_HEADERS=1', '-DHAVE_UNISTD_H=1', '-DDIFF_EXE="/usr/bin/diff"', '-DWITH_SLM']
AS_DEFS = ['-DHAVE_LIBM=1', '-DSTDC_HEADERS=1', '-DHAVE_UNISTD_H=1', '-DHAVE_STRING_H=1', '-DHAVE_STDIO_H=1',
           '-DHAVE_STDLIB_H=1', '-DHAVE_MATH_H=1', '-DHAVE_TIME_H=1', '-DHAVE_ASSERT_H=1', '-DHAVE_FLOAT_H=1',
           '-DHAVE_LIMITS_H=1']


class BuildError(Exception):
    pass


def _sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b'\0')
    return h.hexdigest()[:32]


def _read(p):
    with open(p, 'rb') as f:
        return f.read()


def _run(cmd, cwd=None):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd), r.stdout.decode('latin-1')[-3000:]))


def _atomic(cmd_fn, out):
    """Build into a temporary beside out, then rename (safe with concurrent checks)."""
    if os.path.exists(out):
        return
    os.makedirs(os.path.dirname(out), exist_ok=True)
    tmp = '%s.%d.tmp%s' % (out, os.getpid(), os.path.splitext(out)[1])
    try:
        cmd_fn(tmp)
        os.rename(tmp, out)
    finally:
        if os.path.exists(tmp):
            os.unlink(tmp)


def _headers(d):
    out = []
    for root, _, fs in os.walk(d):
        for f in sorted(fs):
            if f.endswith(('.h', '.hpp')):
                p = os.path.join(root, f)
                out.append(p.encode() + b'=' + _read(p))
    return _sha(*sorted(out))


def _mk_list(mk, names):
    """Value of make variables (with continuation lines) from a makefile."""
    txt = open(mk, encoding='latin-1').read().replace('\\\n', ' ')
    res = []
    for n in names:
        m = re.search(r'^%s\s*=\s*(.*)$' % re.escape(n), txt, re.M)
        if not m:
            raise BuildError('no %s in %s' % (n, mk))
        res += m.group(1).split()
    return res


def _compile_all(jobs):
    """jobs: list of (cmd prefix, src, hdrhash) -> list of objects"""
    def one(j):
        cmd, src, hh = j
        out = os.path.join(BUILD, 'obj', _sha('\1'.join(cmd), src, _read(src), hh) + '.o')
        _atomic(lambda t: _run(cmd + ['-c', '-o', t, src], cwd=os.path.dirname(src)), out)
        return out
    with ThreadPoolExecutor(8) as ex:
        return list(ex.map(one, jobs))


def _link(cmd, objs, libs, name, variant):
    out = os.path.join(BUILD, 'lnk', _sha(' '.join(cmd), *objs) + '-' + name)
    _atomic(lambda t: _run(cmd + ['-o', t] + objs + libs), out)
    return out


def build_sclite(variant, progs=None):
    v = VARIANTS[variant]
    d = os.path.join(REPO, 'src/sclite')
    lists = ['glib_c', 'statlib_c', 'netlib_c', 'align_c']
    lib = [f for f in _mk_list(os.path.join(d, 'makefile.in'), lists)]
    hh = _headers(d)
    progs = progs or SCLITE_PROGS
    cmd = [v['cc']] + v['opt'] + SC_DEFS + ['-I.']
    slmd = os.path.join(d, 'slm_v2/src')
    slm_mk = os.path.join(slmd, 'makefile.in')
    slm_o = []
    for n in ['PC_OBJS', 'RR_OBJS', 'IDNGRAM2LM_OBJS', 'EVALLM_OBJS', 'BINLM2ARPA_OBJS']:
        for o in _mk_list(slm_mk, [n]):
            if o not in slm_o:
                slm_o.append(o)
    if 'get_ngram.o' not in slm_o:
        slm_o.append('get_ngram.o')
    scmd = [v['cc']] + v['opt'] + ['-DSLM_SWAP_BYTES']
    jobs = [(cmd, os.path.join(d, f), hh) for f in lib]
    njl = len(jobs)
    jobs += [(scmd, os.path.join(slmd, o[:-2] + '.c'), hh) for o in slm_o]
    nsl = len(jobs)
    jobs += [(cmd, os.path.join(d, p + '.c'), hh) for p in progs]
    objs = _compile_all(jobs)
    res = {}
    ld = [v['cc']] + v['opt']
    slm_a = os.path.join(BUILD, 'lnk', _sha(*objs[njl:nsl]) + '-SLM2.a')
    _atomic(lambda t: _run(['ar', 'rcs', t] + objs[njl:nsl]), slm_a)
    for i, p in enumerate(progs):
        res[p] = _link(ld, objs[:njl] + [objs[nsl + i], slm_a], ['-lm'], p, variant)
    return res


def build_slm(variant):
    v = VARIANTS[variant]
    d = os.path.join(REPO, 'src/sclite')
    hh = _headers(d)
    slmd = os.path.join(d, 'slm_v2/src')
    slm_mk = os.path.join(slmd, 'makefile.in')
    slm_o = []
    for n in ['PC_OBJS', 'RR_OBJS', 'IDNGRAM2LM_OBJS', 'EVALLM_OBJS', 'BINLM2ARPA_OBJS']:
        for o in _mk_list(slm_mk, [n]):
            if o not in slm_o:
                slm_o.append(o)
    if 'get_ngram.o' not in slm_o:
        slm_o.append('get_ngram.o')
    scmd = [v['cc']] + v['opt'] + ['-DSLM_SWAP_BYTES']
    jobs = [(scmd, os.path.join(slmd, o[:-2] + '.c'), hh) for o in slm_o]
    n = len(jobs)
    jobs += [(scmd, os.path.join(slmd, p + '.c'), hh) for p in SLM_PROGS]
    objs = _compile_all(jobs)
    ld = [v['cc']] + v['opt']
    slm_a = os.path.join(BUILD, 'lnk', _sha(*objs[:n]) + '-SLM2.a')
    _atomic(lambda t: _run(['ar', 'rcs', t] + objs[:n]), slm_a)
    return {p: _link(ld, [objs[n + i], slm_a], ['-lm'], p, variant) for i, p in enumerate(SLM_PROGS)}


def build_asclite(variant):
    v = VARIANTS[variant]
    d = os.path.join(REPO, 'src/asclite/core')
    srcs = sorted(glob.glob(d + '/*.cpp') + glob.glob(d + '/*.c') + glob.glob(d + '/lzma/*.c'))
    hh = _headers(d)
    jobs = [([v['cxx'] if s.endswith('.cpp') else v['cc']] + v['opt'] + AS_DEFS + ['-I' + d], s, hh) for s in srcs]
    objs = _compile_all(jobs)
    return {'asclite': _link([v['cxx']] + v['opt'], objs, ['-lm'], 'asclite', variant)}


def build_rfilter(variant):
    v = VARIANTS[variant]
    d = os.path.join(REPO, 'src/rfilter1')
    opt = [o for o in v['opt'] if o != '-Os']
    objs = _compile_all([([v['cc']] + opt + ['-DNEED_STRCMP=1'], d + '/rfilter1.c', _tree_hash(d))])
    return {'rfilter1': _link([v['cc']] + opt, objs, [], 'rfilter1', variant)}


def _tree_hash(d):
    parts = []
    for root, dirs, fs in os.walk(d):
        dirs.sort()
        for f in sorted(fs):
            p = os.path.join(root, f)
            if os.path.isfile(p):
                parts.append(os.path.relpath(p, d).encode() + b'=' + _read(p))
    return _sha(*parts)


def build_perl():
    """A directory holding every script tool, as 'make install' would lay it out."""
    src = os.path.join(REPO, 'src')
    dirs = sorted({t.split('/')[0] for t in PERL_TOOLS} | {'align2html', 'stmValidator'})
    h = hashlib.sha256()
    for d in dirs:
        for p in sorted(glob.glob(os.path.join(src, d, '*'))):
            if os.path.isfile(p):
                h.update(p.encode() + b'\0' + _read(p))
    out = os.path.join(BUILD, 'perl', h.hexdigest()[:32])
    if not os.path.isdir(out):
        os.makedirs(os.path.join(BUILD, 'perl'), exist_ok=True)
        tmp = tempfile.mkdtemp(dir=os.path.join(BUILD, 'perl'))
        os.chmod(tmp, 0o755)
        for t in PERL_TOOLS:
            dst = os.path.join(tmp, os.path.basename(t))
            shutil.copyfile(os.path.join(src, t), dst)
            os.chmod(dst, 0o755)
        for f in glob.glob(os.path.join(src, 'utf_filt', '*.dtd')):
            shutil.copy(f, tmp)
        for d in ('align2html', 'stmValidator'):
            r = subprocess.run(['perl', 'buildInstallVersion.pl'], cwd=os.path.join(src, d), stdout=subprocess.PIPE)
            if r.returncode:
                raise BuildError('buildInstallVersion %s' % d)
            dst = os.path.join(tmp, d + '.pl')
            open(dst, 'wb').write(r.stdout)
            os.chmod(dst, 0o755)
        try:
            os.rename(tmp, out)
        except OSError:
            shutil.rmtree(tmp)
    return out


_cache = {}


FORCE = None                               # the sanitizer checks redirect the other checks' programs to this variant


def get(what, variant='plain'):
    """what: 'sclite' | 'slm' | 'asclite' | 'rfilter1' -> dict name->path ; 'perl' -> directory"""
    if FORCE and variant == 'plain' and what != 'perl':
        variant = FORCE
    k = (what, variant)
    if k not in _cache:
        if what == 'perl':
            _cache[k] = build_perl()
        else:
            _cache[k] = {'sclite': build_sclite, 'slm': build_slm, 'asclite': build_asclite,
                         'rfilter1': build_rfilter}[what](variant)
    return _cache[k]


def bindir(variant='plain'):
    """One directory with all tools (binaries and scripts), for pipelines such as hubscr."""
    tools = {}
    for w in ('sclite', 'asclite', 'rfilter1'):
        tools.update(get(w, variant))
    pd = get('perl')
    key = _sha(pd, *['%s=%s' % i for i in sorted(tools.items())])
    out = os.path.join(BUILD, 'bin', key)
    if not os.path.isdir(out):
        os.makedirs(os.path.join(BUILD, 'bin'), exist_ok=True)
        tmp = tempfile.mkdtemp(dir=os.path.join(BUILD, 'bin'))
        os.chmod(tmp, 0o755)
        for n, p in tools.items():
            os.symlink(p, os.path.join(tmp, n))
        for f in os.listdir(pd):
            os.symlink(os.path.join(pd, f), os.path.join(tmp, f))
        try:
            os.rename(tmp, out)
        except OSError:
            shutil.rmtree(tmp)
    return out


if __name__ == '__main__':
    import time
    for var in sys.argv[1:] or ['plain', 'asan', 'msan']:
        t = time.time()
        for w in ('sclite', 'slm', 'rfilter1') + (('asclite',) if var != 'msan' else ()):
            print(var, w, get(w, var))
        print('%s: %.1fs' % (var, time.time() - t))
    print(get('perl'), bindir())
