"""Builds the library under test (from /repo's working tree) in several configurations, and the harnesses against them."""
import concurrent.futures, glob, hashlib, os, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
H = os.path.join(VERIF, 'harness')

ASAN = ['-fsanitize=address,undefined', '-fno-sanitize=shift-base,alignment,function,null,object-size', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer']
ASM = ['-DRACRYPT_USE_ASM']
NO128 = ['-U__SIZEOF_INT128__']      # the multiplication without 128-bit integers
SMALL = ['-DBN_WORD_BYTE=4', '-DRACRYPT_AES_MIN_TABLE', '-DRACRYPT_PRIME_MIN_TABLE']
# name: (compiler, flags, link flags, options)   options: small (32-bit words, harness macro), rolled (digest loops not unrolled),
#   plain (no libc redirection), strict assertions are on unless NDEBUG
VARIANTS = {
    'ship':    ('gcc', ['-O2', '-g'] + ASM, [], set()),
    'san':     ('clang', ['-O1', '-g'] + ASM + ASAN, ASAN, set()),
    'w32':     ('clang', ['-O1', '-g'] + SMALL + ASAN, ASAN, {'w32', 'rolled'}),
    'w32f':    ('gcc', ['-O2', '-g'] + SMALL, [], {'w32', 'rolled'}),
    'port':    ('gcc', ['-O2', '-g', '-DNDEBUG'] + NO128, [], set()),
    'sannd':   ('clang', ['-O1', '-g', '-DNDEBUG'] + NO128 + ASAN, ASAN, set()),
    'w32nd':   ('clang', ['-O1', '-g', '-DNDEBUG'] + SMALL + ASAN, ASAN, {'w32', 'rolled'}),
    'shipv':   ('gcc', ['-O2', '-g', '-DRACRYPT_RSA_VERIFY_KEY'] + ASM, [], set()),
    'gccO0':   ('gcc', ['-O0', '-g'] + ASM, [], set()),
    'gccO3':   ('gcc', ['-O3', '-g', '-DNDEBUG'] + ASM, [], {'rolled'}),
    'clangO2': ('clang', ['-O2', '-g'] + ASM, [], set()),
    'clangO0': ('clang', ['-O0', '-g', '-DRACRYPT_PRIME_MIN_TABLE'], [], {'rolled'}),
    'clangO3': ('clang', ['-O3', '-g', '-DRACRYPT_AES_MIN_TABLE', '-DNDEBUG'], [], set()),
    'gccOs':   ('gcc', ['-Os', '-g', '-DRACRYPT_PRIME_MIN_TABLE', '-DRACRYPT_AES_MIN_TABLE'] + ASM, [], {'rolled'}),
    'clangO1': ('clang', ['-O1', '-g', '-DBN_WORD_BYTE=4', '-DRACRYPT_AES_MIN_TABLE'], [], {'w32'}),
    'w32c':    ('clang', ['-O2', '-g', '-DBN_WORD_BYTE=4', '-DNDEBUG'] + ASM, [], {'w32'}),
    'fuzz':    ('clang', ['-O1', '-g', '-fsanitize=fuzzer-no-link'] + ASM + ASAN, ASAN + ['-fsanitize=fuzzer'], {'fuzz'}),
    'fuzzw32': ('clang', ['-O1', '-g', '-fsanitize=fuzzer-no-link'] + SMALL + ASAN, ASAN + ['-fsanitize=fuzzer'], {'fuzz', 'w32', 'rolled'}),
    'fuzznd':  ('clang', ['-O1', '-g', '-DNDEBUG', '-fsanitize=fuzzer-no-link'] + ASM + ASAN, ASAN + ['-fsanitize=fuzzer'], {'fuzz'}),
    'tsan':    ('clang', ['-O1', '-g', '-fsanitize=thread'] + ASM, ['-fsanitize=thread'], {'plain', 'hsan'}),
    'tsanp':   ('clang', ['-O1', '-g', '-fsanitize=thread'] + SMALL, ['-fsanitize=thread'], {'plain', 'hsan', 'w32', 'rolled'}),
    'msan':    ('clang', ['-O1', '-g', '-fsanitize=memory', '-fsanitize-memory-track-origins'], ['-fsanitize=memory'], {'plain', 'hsan'}),
    'msan32':  ('clang', ['-O1', '-g', '-fsanitize=memory', '-fsanitize-memory-track-origins'] + SMALL, ['-fsanitize=memory'], {'plain', 'hsan', 'w32', 'rolled'}),
}


class BuildError(Exception):
    pass


def sources():
    out = []
    for d in ('com', 'pk', 'digest', 'cipher'):
        for f in sorted(glob.glob(os.path.join(REPO, 'src', d, '*.c'))):
            if not f.endswith('_arm64.c'):
                out.append(f)
    return out


def _read(p):
    with open(p, 'rb') as f:
        return f.read()


def _headers_digest():
    h = hashlib.sha256()
    for f in sorted(glob.glob(os.path.join(REPO, 'src', '*', '*.h'))):
        h.update(os.path.basename(f).encode() + b'\0' + _read(f) + b'\0')
    return h.hexdigest()


def _rolled_headers():
    """Public headers with the digest unrolling switched off (the define is unconditional in racrypt.h)."""
    src = os.path.join(REPO, 'src', 'include')
    h = hashlib.sha256()
    for f in sorted(os.listdir(src)):
        h.update(_read(os.path.join(src, f)))
    d = os.path.join(BUILD, 'inc-' + h.hexdigest()[:16])
    if not os.path.isdir(d):
        t = d + '.%d' % os.getpid()
        os.makedirs(t, exist_ok=True)
        for f in os.listdir(src):
            b = _read(os.path.join(src, f))
            if f == 'racrypt.h':
                b = b.replace(b'#define RACRYPT_DIGEST_UNROLL', b'//#define RACRYPT_DIGEST_UNROLL')
            with open(os.path.join(t, f), 'wb') as o:
                o.write(b)
        try:
            os.rename(t, d)
        except OSError:
            subprocess.run(['rm', '-rf', t])
    return d


def _run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    if r.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd), r.stdout[-4000:]))


def _obj(kind, cmd, src, hd, redirect):
    h = hashlib.sha256()
    h.update('\0'.join(cmd).encode() + hd.encode() + _read(src) + src.encode())
    sy = os.path.join(H, 'redefine.syms')
    if redirect:
        h.update(_read(sy))
    out = os.path.join(BUILD, 'obj', '%s-%s.o' % (os.path.basename(src), h.hexdigest()[:24]))
    if os.path.exists(out):
        os.utime(out)
        return out
    t = out + '.%d.tmp' % os.getpid()
    _run(cmd + ['-c', src, '-o', t])
    if redirect:
        _run(['objcopy', '--redefine-syms=' + sy, t])
    os.rename(t, out)
    return out


def _prune():
    fs = glob.glob(os.path.join(BUILD, 'obj', '*.o')) + glob.glob(os.path.join(BUILD, 'bin', '*'))
    tot = 0
    for f in sorted(fs, key=os.path.getmtime, reverse=True):
        tot += os.path.getsize(f)
        if tot > 3 << 30:
            try:
                os.unlink(f)
            except OSError:
                pass


def build(targets, jobs=8):
    """targets: list of (harness source list, variant). Returns {(harness tuple, variant): binary path}."""
    os.makedirs(os.path.join(BUILD, 'obj'), exist_ok=True)
    os.makedirs(os.path.join(BUILD, 'bin'), exist_ok=True)
    hd = _headers_digest()
    hh = hashlib.sha256()
    for f in sorted(glob.glob(os.path.join(H, '*.h'))):
        hh.update(_read(f))
    hh = hh.hexdigest()
    objs = {}
    with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
        def want(kind, cmd, src, d, redirect):
            k = (tuple(cmd), src, redirect)
            if k not in objs:
                objs[k] = ex.submit(_obj, kind, cmd, src, d, redirect)
            return objs[k]
        plan = []
        # harness objects first: they take longest
        for hs, v in targets:
            cc, fl, ld, opt = VARIANTS[v]
            hdef = (['-DBN_WORD_BYTE=4'] if 'w32' in opt else [])
            inc = ['-I' + (_rolled_headers() if 'rolled' in opt else os.path.join(REPO, 'src', 'include'))]
            hobj = []
            for s in hs:
                src = os.path.join(H, s)
                if 'hsan' in opt:
                    san = [f for f in fl if f.startswith('-fsanitize')]
                    cmd = [('clang++' if s.endswith('.cpp') else 'clang'), '-O1', '-g'] + san
                elif s == 'vf_cfg.c':
                    cmd = ['gcc', '-O1'] + [f for f in fl if f.startswith('-D')]
                elif s.endswith('.cpp'):
                    cmd = ['g++', '-O1', '-g', '-std=c++17'] + (['-DVF_FUZZ'] if 'fuzz' in opt and s == 'main.cpp' else [])
                else:
                    cmd = ['gcc', '-O1', '-g']
                cmd = cmd + hdef + ['-I' + os.path.join(REPO, 'src', 'include'), '-w']
                hobj.append(want('h', cmd, src, hh + hd, False))
            plan.append((hs, v, hobj, None))
        for i, (hs, v, hobj, _) in enumerate(plan):
            cc, fl, ld, opt = VARIANTS[v]
            if 'rolled' in opt:
                inc = ['-I' + _rolled_headers()]
            else:
                inc = ['-I' + os.path.join(REPO, 'src', 'include')]
            lobj = [want('l', [cc] + fl + inc + ['-w'], s, hd, 'plain' not in opt) for s in sources()]
            plan[i] = (hs, v, hobj, lobj)
        res = {}

        def link(hs, v, hobj, lobj):
            cc, fl, ld, opt = VARIANTS[v]
            os_ = [f.result() for f in hobj + lobj]
            key = hashlib.sha256(('\0'.join(os_) + v + repr(ld)).encode()).hexdigest()[:24]
            out = os.path.join(BUILD, 'bin', '%s-%s-%s' % (os.path.splitext(hs[-1])[0], v, key))
            if not os.path.exists(out):
                t = out + '.%d.tmp' % os.getpid()
                drv = 'clang++' if cc == 'clang' else 'g++'
                _run([drv, '-g'] + ld + os_ + ['-o', t] + ([] if 'plain' in opt else ['-lcrypto']) + ['-lpthread', '-lrt', '-lm'])
                os.rename(t, out)
            else:
                os.utime(out)
            return out
        try:
            for p in plan:
                for f in p[2] + p[3]:
                    f.result()
            links = [(p[0], p[1], ex.submit(link, *p)) for p in plan]
            for hs, v, f in links:
                res[(tuple(hs), v)] = f.result()
        except BuildError:
            for f in objs.values():
                f.cancel()
            raise
    _prune()
    return res
