"""Which lines of the library the checks reach: builds instrumented configurations, runs every check's cases and reports the lines never executed.
Not a check of its own; python3 tools/coverage.py [scale]"""
import concurrent.futures, os, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'lib'))
import build as B
from specs import SPECS
COV = ['-fprofile-instr-generate', '-fcoverage-mapping']
B.VARIANTS['cov'] = ('clang', ['-O1', '-g'] + B.ASM + COV, ['-fprofile-instr-generate'], set())
B.VARIANTS['covp'] = ('clang', ['-O1', '-g', '-DNDEBUG', '-DRACRYPT_RSA_VERIFY_KEY'] + B.SMALL + COV, ['-fprofile-instr-generate'], {'w32', 'rolled'})
scale = sys.argv[1] if len(sys.argv) > 1 else '0.2'
targets = []
for p, s in SPECS.items():
    for v in ('cov', 'covp'):
        targets.append((tuple(s['harness']), v))
bins = B.build([(list(h), v) for h, v in dict.fromkeys(targets)])
tmp = tempfile.mkdtemp(prefix='vf-cov-')


def one(p, v, i):
    b = bins[(tuple(SPECS[p]['harness']), v)]
    env = dict(os.environ, LLVM_PROFILE_FILE=os.path.join(tmp, 'p-%s-%s-%d-%%p.profraw' % (p, v, i)))
    r = subprocess.run([b, 'run', '--prop', p, '--tier', 'quick', '--seed', '77', '--shard', '%d/%d' % (i, 4), '--scale', scale, '--out', os.path.join(tmp, 'o-%s-%s-%d' % (p, v, i)), '--cur', os.path.join(tmp, 'c-%s-%s-%d' % (p, v, i))],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, cwd=tmp, timeout=1500)
    return p, v, r.returncode


with concurrent.futures.ThreadPoolExecutor(8) as ex:
    for f in concurrent.futures.as_completed([ex.submit(one, p, v, i) for p in SPECS for v in ('cov', 'covp') for i in range(2)]):
        p, v, rc = f.result()
        if rc:
            print('run of', p, v, 'ended with', rc)
raws = [os.path.join(tmp, f) for f in os.listdir(tmp) if f.endswith('.profraw')]
lst = os.path.join(tmp, 'list')
open(lst, 'w').write('\n'.join(raws))
for v in ('cov', 'covp'):
    open(lst, 'w').write('\n'.join(f for f in raws if '-%s-' % v in f))
    prof = os.path.join(tmp, v + '.prof')
    subprocess.run(['llvm-profdata-18' if os.path.exists('/usr/bin/llvm-profdata-18') else 'llvm-profdata', 'merge', '-sparse', '-f', lst, '-o', prof], check=True)
    bs = sorted({b for (h, vv), b in bins.items() if vv == v})
    cov = 'llvm-cov-18' if os.path.exists('/usr/bin/llvm-cov-18') else 'llvm-cov'
    args = [bs[0]] + ['-object=' + b for b in bs[1:]] + ['-instr-profile=' + prof]
    print(subprocess.run([cov, 'report'] + args, stdout=subprocess.PIPE, text=True).stdout)
    show = subprocess.run([cov, 'show'] + args, stdout=subprocess.PIPE, text=True).stdout
    name = ''
    for l in show.splitlines():
        if l.startswith('/') and l.endswith(':'):
            name = os.path.basename(l[:-1])
        parts = l.split('|', 2)
        if len(parts) == 3 and parts[1].strip() == '0':
            print('%s %s:%s: %s' % (v, name, parts[0].strip(), parts[2][:120]))
subprocess.run(['rm', '-rf', tmp])
