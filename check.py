#!/usr/bin/env python3
"""check.py <PROPERTY> : builds the code from /repo's working tree, runs the monitors of one property, writes evidence.
   check.py --replay <file> : re-runs one recorded violation."""
import hashlib, zlib, json, os, re, shutil, signal, struct, subprocess, sys, tempfile, time, concurrent.futures
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import build as B
from specs import SPECS, PLAIN

VERIF = B.VERIF
TIER = os.environ.get('VERIF_TIER', 'quick')
if TIER not in ('quick', 'thorough'):
    TIER = 'quick'
try:
    SEED = int(os.environ.get('VERIF_SEED', '1'))
except ValueError:
    SEED = 1
NSH = 8
ENV = dict(os.environ,
           ASAN_OPTIONS='abort_on_error=1:detect_leaks=0:allocator_may_return_null=1:handle_abort=0:detect_stack_use_after_return=0:symbolize=1:max_malloc_fill_size=4096',
           UBSAN_OPTIONS='print_stacktrace=1:abort_on_error=1:halt_on_error=1',
           TSAN_OPTIONS='halt_on_error=1:abort_on_error=0:exitcode=66:second_deadlock_stack=1',
           MSAN_OPTIONS='halt_on_error=1:exitcode=66',
           LC_ALL='C')


def known_findings():
    p = os.path.join(VERIF, 'known_findings.json')
    try:
        with open(p) as f:
            return json.load(f)
    except FileNotFoundError:
        return {'findings': [], 'fixed': []}


def crash_key(log, rc, what):
    """A stable name for a process-level failure."""
    if what.startswith('HANG') or 'VF-HANG' in log or rc in (97,):
        return 'hang'
    if 'libFuzzer: timeout' in log:
        return 'hang'
    m = re.search(r'ASSERTION (\S+?):\d+ (\w+): (.*)', log)
    if m:
        return 'assert:%s:%s' % (os.path.basename(m.group(1)), m.group(2))
    fr = ''
    for m in re.finditer(r'#\d+ 0x[0-9a-f]+ in (\w+) (\S+)', log):
        if '/src/' in m.group(2) and 'compiler-rt' not in m.group(2):
            fr = m.group(1)
            break
    m = re.search(r'ERROR: AddressSanitizer: ([\w-]+)', log)
    if m:
        return 'asan:%s:%s' % (m.group(1), fr)
    m = re.search(r'(\S+\.c):\d+:\d+: runtime error: (.*)', log)
    if m:
        return 'ubsan:%s:%s' % (fr or os.path.basename(m.group(1)), re.sub(r'[-0-9x]+', 'N', m.group(2))[:60])
    m = re.search(r'WARNING: MemorySanitizer: ([\w-]+)', log)
    if m:
        return 'msan:%s:%s' % (m.group(1), fr)
    m = re.search(r'WARNING: ThreadSanitizer: ([\w -]+)', log)
    if m:
        return 'tsan:%s:%s' % (m.group(1).strip(), fr)
    if 'vf: heap overrun' in log:
        return 'heap-overrun'
    if 'vf: bad free' in log:
        return 'bad-free'
    if rc < 0:
        try:
            return 'signal:%s' % signal.Signals(-rc).name
        except ValueError:
            return 'signal:%d' % -rc
    return 'exit:%d' % rc


def read_cur(path):
    try:
        d = open(path, 'rb').read()
    except OSError:
        return None
    if len(d) < 16 + 64 + 16 + 512 + 16:
        return None
    s = lambda b: b.split(b'\0')[0].decode('latin1')
    prop, name = s(d[0:16]), s(d[16:80])
    idx, seed = struct.unpack('<QQ', d[80:96])
    what = s(d[96:608])
    done, = struct.unpack('<Q', d[608:616])
    return dict(prop=prop, name=name, idx=idx, seed=seed, what=what, done=done)


def limit():
    import resource
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


class Run:
    def __init__(self, prop):
        self.prop = prop
        self.spec = SPECS[prop]
        self.violations = []   # dict(key, msg, replay info)
        self.stats = {'evals': 0, 'tried': 0, 'cover': {}, 'max': {}, 'samples': []}
        self.distinct = set()
        self.known = {}
        self.notes = []
        self.variants = []
        self.traces = {}       # (case, group, idx, case seed) -> {variant: value}
        self.t0 = time.time()
        self.stop = False      # a violation is established: the rest need not run
        self.procs = set()
        self.broken = []       # reasons why a part gave no answer
        self.tmp = tempfile.mkdtemp(prefix='vf-%s-' % prop)

    def add_stats(self, path):
        try:
            with open(path) as f:
                d = json.load(f)
        except (OSError, ValueError):
            return None
        self.stats['evals'] += d['evals']
        self.stats['tried'] += d['tried']
        for k, v in d['cover'].items():
            self.stats['cover'][k] = self.stats['cover'].get(k, 0) + v
        for k, v in d['max'].items():
            self.stats['max'][k] = max(self.stats['max'].get(k, 0), v)
        self.stats['samples'] += d['samples']
        for k, (n, msg) in d.get('known', {}).items():
            e = self.known.setdefault(k, [0, msg])
            e[0] += n
        try:
            b = open(path + '.set', 'rb').read()
            self.distinct.update(struct.unpack('<%dQ' % (len(b) // 8), b))
        except OSError:
            pass
        return d

    def spawn(self, cmd, env, cwd):
        """Runs a monitor process within the time a check has; (None, log) if it does not end in time."""
        if self.stop:
            return None, ''
        left = None if TIER == 'thorough' else max(20, 780 - (time.time() - self.t0))
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, env=env, preexec_fn=limit, cwd=cwd, start_new_session=True)
        self.procs.add(p)
        try:
            out, _ = p.communicate(timeout=left)
            return (None if self.stop else p.returncode), out.decode('latin1')
        except subprocess.TimeoutExpired:
            self.kill(p)
            out, _ = p.communicate()
            return None, out.decode('latin1')
        finally:
            self.procs.discard(p)

    def kill(self, p):
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass

    def stop_all(self):
        self.stop = True
        for p in list(self.procs):
            if p.poll() is None:
                self.kill(p)

    def shard(self, binary, variant, scale, i, n):
        out = os.path.join(self.tmp, '%s-%d.json' % (variant, i))
        cur = os.path.join(self.tmp, '%s-%d.cur' % (variant, i))
        cmd = [binary, 'run', '--prop', self.prop, '--tier', TIER, '--seed', str(SEED * 1000003 + (0 if self.spec.get('compare') else zlib.crc32(variant.encode()) % 1000)), '--shard', '%d/%d' % (i, n),
               '--scale', str(scale), '--out', out, '--cur', cur]
        t = time.time()
        rc, log = self.spawn(cmd, ENV, self.tmp)
        return dict(variant=variant, rc=rc, log=log, out=out, cur=cur, binary=binary, wall=time.time() - t, shard=i)

    def handle(self, res):
        d = self.add_stats(res['out'])
        if os.environ.get('VF_TIMING'):
            for l in res['log'].splitlines():
                if l.startswith('VF-TIME') and res['shard'] == 0:
                    print('   ', res['variant'], l)
        try:
            with open(res['out'] + '.trace') as f:
                for l in f:
                    name, idx, seed, h = l.split()
                    self.traces.setdefault((name, int(idx), int(seed)), {})[res['variant']] = h
        except OSError:
            pass
        if res['rc'] is None and self.stop:
            return
        if res['rc'] is None:
            self.notes.append('%s shard %d was stopped at the time limit of a check' % (res['variant'], res['shard']))
            return
        if d is not None and res['rc'] in (0, 1):
            for f in d['failures']:
                self.violations.append(dict(kind='case', variant=res['variant'], case=f['case'], key=f['key'], msg=f['msg'], idx=f['idx'], seed=f['seed']))
            return
        c = read_cur(res['cur'])
        key = crash_key(res['log'], res['rc'], c['what'] if c else '')
        if c is None or not c['name']:
            self.broken.append(('' if res['rc'] == 3 else 'harness died before its first case (%s): ' % res['rc']) + res['log'][-2000:])
            return
        v = dict(kind='case', variant=res['variant'], case=c['name'], key=key, msg=(c['what'] + ' ' if c['what'] else '') + res['log'][-3000:], idx=c['idx'], seed=c['seed'])
        if (key == 'hang' or key.startswith('signal:SIGKILL') or key.startswith('signal:SIGTERM')) and not any(x['key'] == key for x in self.violations):
            # a busy machine must not look like a hang: the case has to repeat on its own
            try:
                r = subprocess.run(replay_cmd(res['binary'], self.prop, v) + ['--hang', '60'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV, preexec_fn=limit, cwd=self.tmp, timeout=400)
                if r.returncode == 0:
                    self.notes.append('case %s idx %d ended as %s once and passed when repeated alone' % (v['case'], v['idx'], key))
                    return
            except subprocess.TimeoutExpired:
                pass
        self.violations.append(v)

    def fuzz_job(self, binary, variant, runs, i, maxlen):
        d = os.path.join(self.tmp, 'fz-%s-%d' % (variant, i))
        os.makedirs(d)
        out = os.path.join(d, 'stats.json')
        env = dict(ENV, VF_PROP=self.prop, VF_OUT=out, VF_TIER=TIER)
        cmd = [binary, '-runs=%d' % runs, '-seed=%d' % (SEED * 1000 + i + 1), '-max_len=%d' % maxlen, '-len_control=20', '-use_value_profile=%d' % (i & 1), '-timeout=60',
               '-rss_limit_mb=3000', '-artifact_prefix=' + d + '/art-', '-print_final_stats=1', '-reload=0', '-handle_abrt=1']
        rc, log = self.spawn(cmd, env, d)
        return dict(variant=variant, rc=rc, log=log, dir=d, out=out, binary=binary)

    def handle_fuzz(self, res):
        d = self.add_stats(res['out'])
        if res['rc'] is None and self.stop:
            return
        if res['rc'] is None:
            self.notes.append('a fuzz job was stopped at the time limit of a check')
            return
        m = re.findall(r'stat::number_of_executed_units: (\d+)', res['log'])
        if m:
            self.stats['cover']['fuzz executions'] = self.stats['cover'].get('fuzz executions', 0) + int(m[-1])
        m = re.findall(r'cov: (\d+) ft: (\d+)', res['log'])
        if m:
            self.stats['max']['fuzz edges'] = max(self.stats['max'].get('fuzz edges', 0), int(m[-1][0]))
            self.stats['max']['fuzz features'] = max(self.stats['max'].get('fuzz features', 0), int(m[-1][1]))
        if res['rc'] == 0:
            return
        arts = [os.path.join(res['dir'], f) for f in os.listdir(res['dir']) if f.startswith('art-')]
        arts = [a for a in arts if '/art-slow-unit' not in a]
        if not arts:
            self.broken.append('fuzzer ended with %d and no artifact: %s' % (res['rc'], res['log'][-2000:]))
            return
        data = open(arts[0], 'rb').read()
        m = re.search(r'VF-FAIL (\w+)/([^/]+)/(\S+) idx=\d+ seed=\d+: (.*)', res['log'])
        if m:
            case, key, msg = m.group(2), m.group(3), m.group(4)
        else:
            case, key, msg = 'fuzz', crash_key(res['log'], res['rc'], ''), res['log'][-3000:]
        if ('/art-timeout' in arts[0] or '/art-oom' in arts[0] or key == 'hang') and not any(x['key'] == key for x in self.violations):
            p = arts[0]
            try:
                r = subprocess.run([res['binary'], '-timeout=150', '-rss_limit_mb=6000', p], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=dict(ENV, VF_PROP=self.prop, VF_HANG='90', VF_TIER=TIER), preexec_fn=limit, cwd=res['dir'], timeout=400)
                if r.returncode == 0:
                    self.notes.append('a fuzz input ended as %s once and passed when repeated alone' % key)
                    return
            except subprocess.TimeoutExpired:
                pass
        self.violations.append(dict(kind='fuzz', variant=res['variant'], case=case, key=key, msg=msg, data=data.hex()))

    def go(self):
        spec = self.spec
        fuzz = spec.get('fuzz', [])
        hs_ = lambda v: harness_of(spec, v)
        targets = [(hs_(v), v) for v, _ in spec['variants']] + [(hs_(v), v) for v, _, _ in fuzz]
        bins = {}
        try:
            bins = B.build(targets)
        except B.BuildError as e:
            # find out which configurations still build; one that does not is judged by V01 only
            for t in dict.fromkeys(targets):
                try:
                    bins.update(B.build([t]))
                except B.BuildError as e2:
                    self.notes.append('configuration %s does not build: %s' % (t[1], str(e2)[:300]))
                    if t[1] == 'ship':
                        print(e2)
                        return 2
                    if spec.get('all_configs'):
                        self.violations.append(dict(kind='build', variant=t[1], case='build', key='build:' + t[1], msg=str(e2)[:3000]))
        # longest first keeps the tail short
        mul = spec.get('quick', 1)
        with concurrent.futures.ThreadPoolExecutor(NSH) as ex:
            fs = []
            for v, runs, maxlen in fuzz:
                n = runs[TIER == 'thorough'] * (mul if TIER == 'quick' else 1)
                if (hs_(v), v) in bins and n:
                    for i in range(NSH):
                        fs.append(('f', ex.submit(self.fuzz_job, bins[(hs_(v), v)], v, n // NSH, i, maxlen)))
            for v, scale in spec['variants']:
                if (hs_(v), v) in bins:
                    self.variants.append(v)
                    for i in range(NSH):
                        fs.append(('s', ex.submit(self.shard, bins[(hs_(v), v)], v, scale * (mul if TIER == 'quick' else 1), i, NSH)))
            kind = dict((f, k) for k, f in fs)
            early = not any('case' in f for f in known_findings().get('findings', []) if f['property'] == self.prop)
            for f in concurrent.futures.as_completed(kind):
                r = f.result()
                if os.environ.get('VF_TIMING'):
                    print('  %s %s rc=%s %.1fs' % (kind[f], r['variant'], r['rc'], r.get('wall', 0)))
                (self.handle if kind[f] == 's' else self.handle_fuzz)(r)
                if self.violations and not self.stop and TIER == 'quick' and early:
                    self.stop_all()
        if spec.get('compare') and not self.stop:
            self.compare()
        if self.broken and not self.violations:
            print('machinery error: ' + self.broken[0])
            return 2
        return 0

    def compare(self):
        """Equal inputs must have given equal results in every configuration."""
        n = 0
        for (name, idx, seed), d in sorted(self.traces.items()):
            if len(d) < 2:
                continue
            n += 1
            vals = list(d.values())
            if len(set(vals)) == 1:
                continue
            common = max(sorted(set(vals)), key=vals.count)
            odd = sorted(v for v in d if d[v] != common)
            ref = sorted((v for v in d if d[v] == common), key=lambda v: (v != 'ship', v))[0]
            self.violations.append(dict(kind='compare', variant=odd[0], other=ref, case=name.split('/')[0], key='differs', idx=idx, seed=seed,
                                        msg='%s idx %d: configuration %s computes another result than %s' % (name, idx, ', '.join(odd), ', '.join(sorted(v for v in d if d[v] == common)))))
            if len(self.violations) >= 20:
                break
        self.stats['cover']['results compared across configurations'] = n
        self.stats['max']['configurations compared'] = max([len(d) for d in self.traces.values()] or [0])


def harness_of(spec, v):
    return tuple(PLAIN) if 'plain' in B.VARIANTS[v][3] else tuple(spec['harness'])


def replay_cmd(binary, prop, v):
    return [binary, 'replay', '--prop', prop, '--case', v['case'], '--idx', str(v['idx']), '--cseed', str(v['seed']), '--tier', TIER]


def replay(path):
    with open(path) as f:
        v = json.load(f)
    global TIER
    TIER = v.get('tier', TIER)
    spec = SPECS[v['property']]
    hs = harness_of(spec, v['variant']) if v.get('variant') else None
    if v['kind'] == 'deviation':
        print('re-run the check: the deviation is counted over all its cases')
        return 1
    if v['kind'] == 'build':
        try:
            B.build([(hs, v['variant'])])
            return 0
        except B.BuildError as e:
            print(e)
            return 1
    b = B.build([(hs, v['variant'])])[(hs, v['variant'])]
    if v['kind'] == 'compare':
        o = B.build([(hs, v['other'])])[(hs, v['other'])]
        res = []
        for name, x in ((v['variant'], b), (v['other'], o)):
            r = subprocess.run(replay_cmd(x, v['property'], v), env=ENV, stdout=subprocess.PIPE, text=True)
            res.append([l for l in r.stdout.splitlines() if l.startswith('trace ')])
            print(name, res[-1])
        print('results agree' if res[0] == res[1] else 'results DIFFER')
        return 0 if res[0] == res[1] else 1
    if v['kind'] == 'fuzz':
        t = tempfile.NamedTemporaryFile(delete=False)
        t.write(bytes.fromhex(v['data']))
        t.close()
        r = subprocess.run([b, '-timeout=60', t.name], env=dict(ENV, VF_PROP=v['property']))
        os.unlink(t.name)
    else:
        r = subprocess.run(replay_cmd(b, v['property'], v), env=ENV)
    print('exit status', r.returncode)
    return 0 if r.returncode == 0 else 1


def main():
    if len(sys.argv) == 3 and sys.argv[1] == '--replay':
        sys.exit(replay(sys.argv[2]))
    prop = sys.argv[1]
    t0 = time.time()
    run = Run(prop)
    try:
        rc = run.go()
    finally:
        shutil.rmtree(run.tmp, ignore_errors=True)
    if rc:
        sys.exit(rc)
    kf = [f for f in known_findings().get('findings', []) if f['property'] == prop]
    unknown, seen = [], {}
    ids = {f['id'] for f in kf}
    for k, (n, msg) in run.known.items():
        if k in ids:
            seen[k] = n
        else:
            run.violations.append(dict(kind='deviation', variant='', case='deviation', key=k, msg='%d times, first: %s' % (n, msg)))
    for v in run.violations:
        hit = None
        for f in kf:
            if 'case' in f and re.fullmatch(f['case'], v['case']) and re.fullmatch(f['key'], v['key']) and (not f.get('variant') or re.fullmatch(f['variant'], v['variant'])) and (not f.get('msg') or re.search(f['msg'], v['msg'])):
                hit = f
                break
        if hit:
            seen[hit['id']] = seen.get(hit['id'], 0) + 1
        else:
            unknown.append(v)
    for f in kf:
        print('KNOWN-FINDING: property=%s %s' % (prop, f['what']))
    rep = None
    if unknown:
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        for v in unknown[:20]:
            body = dict(v, property=prop, tier=TIER)
            rep_ = os.path.join(VERIF, 'replays', '%s-%s.json' % (prop, hashlib.sha256(json.dumps(body, sort_keys=True).encode()).hexdigest()[:12]))
            with open(rep_, 'w') as f:
                json.dump(body, f, indent=1)
            rep = rep or rep_
            print('%s %s/%s [%s] %s' % (prop, v['case'], v['key'], v['variant'], v['msg'][:1500]))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    samples = []
    for s in run.stats['samples']:
        if s not in samples:
            samples.append(s)
    cov = dict(sorted(run.stats['cover'].items()))
    ev = dict(property=prop, tier=TIER, seed=SEED, level=run.spec.get('level', 'exploration'),
              coverage=dict(evaluations=run.stats['tried'], oracle_checks=run.stats['evals'], distinct_nontrivial=len(run.distinct), rule=run.spec['rule'],
                            samples=samples[:12], observed=cov, maxima=dict(sorted(run.stats['max'].items())), configurations=run.variants + [v for v, n, _ in run.spec.get('fuzz', []) if n[TIER == 'thorough']]),
              wall_s=round(time.time() - t0, 2), violations=len(unknown), known_findings_seen=dict(sorted(seen.items())), notes=run.notes)
    tmp = os.path.join(VERIF, 'evidence', '.%s.%d' % (prop, os.getpid()))
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1)
    os.rename(tmp, os.path.join(VERIF, 'evidence', prop + '.json'))
    if unknown:
        print('VIOLATION property=%s replay=%s' % (prop, rep))
        sys.exit(1)
    print('OK property=%s tier=%s evaluations=%d distinct=%d wall=%.1fs' % (prop, TIER, run.stats['evals'], len(run.distinct), time.time() - t0))


if __name__ == '__main__':
    main()
