"""Shared machinery of the checks: building harnesses from /repo, running generated cases in parallel,
confirming, shrinking and recording failures, and writing the evidence files."""
import array, json, os, re, resource, shutil, struct, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VM_REPO', '/repo')
NCPU = max(1, min(8, os.cpu_count() or 1))
TIER = 'thorough' if os.environ.get('VERIF_TIER', 'quick') == 'thorough' else 'quick'
try: SEED = int(os.environ.get('VERIF_SEED', '1')) & 0x7fffffffffffffff
except ValueError: SEED = 1
T0 = time.time()

CXX = ['g++', '-std=gnu++17', '-w', '-pipe']
VARIANTS = {
    'plain': ['-O1'],
    'san': ['-O1', '-g1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer'],
}
ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:hard_rss_limit_mb=3000:allocator_may_return_null=0:detect_stack_use_after_return=0:abort_on_error=0:exitcode=99',
           UBSAN_OPTIONS='print_stacktrace=0', LC_ALL='C')


class Broken(Exception):
    """The check itself cannot run (exit 2)."""


def sh(cmd, timeout=None, cwd=None, env=ENV, stdin=None, limit_mb=None):
    def pre():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if limit_mb: resource.setrlimit(resource.RLIMIT_AS, (limit_mb << 20, limit_mb << 20))
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL if stdin is None else None,
                           input=stdin, timeout=timeout, cwd=cwd, env=env, preexec_fn=pre)
        return p.returncode, p.stdout.decode('utf-8', 'replace'), p.stderr.decode('utf-8', 'replace')
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b'').decode('utf-8', 'replace'), (e.stderr or b'').decode('utf-8', 'replace') + '\n[timeout]'


def builddir(pid):
    d = os.path.join(VERIF, 'build', pid)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d


def write_dict(d):
    """Numeric literals of the library sources: constants worth trying in generated inputs."""
    vals = set([0.0, 1.0, 2.0, -1.0, 10.0, 0.5])
    for root, _, files in os.walk(os.path.join(REPO, 'viennamath')):
        for f in files:
            try: t = open(os.path.join(root, f), errors='replace').read()
            except OSError: continue
            t = re.sub(r'/\*.*?\*/', ' ', t, flags=re.S); t = re.sub(r'//[^\n]*', ' ', t); t = re.sub(r'"[^"\n]*"', ' ', t)
            for m in re.finditer(r'(?<![\w.])(0x[0-9a-fA-F]+|\d+\.?\d*(?:[eE][-+]?\d+)?|\.\d+(?:[eE][-+]?\d+)?)', t):
                try: v = float(int(m.group(1), 16)) if m.group(1).startswith('0x') else float(m.group(1))
                except ValueError: continue
                if abs(v) <= 1e12: vals.add(v)
    lst = sorted(vals)[:4000]
    ints = [int(v) for v in lst if v == int(v) and 0 <= v <= 40]
    with open(os.path.join(d, 'dict.hpp'), 'w') as f:
        f.write('static const double vm_dict[] = { %s };\nstatic const unsigned vm_dict_n = %d;\n' % (', '.join(repr(v) for v in lst), len(lst)))
        f.write('static const unsigned vm_idict[] = { %s };\nstatic const unsigned vm_idict_n = %d;\n' % (', '.join(str(v) for v in ints), len(ints)))


def toolchain_ok(d):
    """A trivial program using the library must compile; otherwise this is no verdict about a property."""
    src = os.path.join(d, 'sanity.cpp')
    open(src, 'w').write('#include <iostream>\nint main() { std::cout << 1; }\n')
    rc, o, e = sh(CXX + [src, '-o', os.path.join(d, 'sanity')], timeout=120)
    if rc: raise Broken('the compiler does not work here: ' + e[-500:])


class Result:
    def __init__(self, pid):
        self.pid = pid; self.evaluations = 0; self.distinct = 0; self.rule = ''; self.samples = []; self.extra = {}
        self.violations = []      # (message, replay path)
        self.inconclusive = []


def replay_path(pid, n=0):
    d = os.path.join(VERIF, 'evidence', 'replays')
    os.makedirs(d, exist_ok=True)
    return os.path.join(d, '%s-%d.json' % (pid, n))


def finish(res):
    ev = {'property': res.pid, 'tier': TIER, 'seed': SEED, 'level': 'exploration',
          'coverage': dict({'evaluations': res.evaluations, 'distinct_nontrivial': res.distinct, 'rule': res.rule, 'samples': res.samples[:12]}, **res.extra),
          'assumptions': ['the reference model and generators in /verif are right', 'g++ and its sanitizers are right'],
          'wall_s': round(time.time() - T0, 2), 'violations': len(res.violations)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', res.pid + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    for line in known_findings(res.pid): print(line)
    for msg, path in res.violations:
        print('VIOLATION property=%s replay=%s' % (res.pid, path))
        print('  ' + msg.replace('\n', '\n  ')[:3000])
    if res.violations: return 1
    if res.inconclusive:
        print('INCONCLUSIVE: ' + '; '.join(res.inconclusive)[:2000]); return 2
    print('%s held on %d generated cases (%d distinct non-trivial) in %.1f s' % (res.pid, res.evaluations, res.distinct, ev['wall_s']))
    return 0


def known_findings(pid):
    out = []
    try:
        for line in open(os.path.join(VERIF, 'KNOWN_FINDINGS.txt')):
            if line.startswith('known: property=%s ' % pid): out.append('KNOWN-FINDING: ' + line[len('known: '):].strip())
    except OSError: pass
    return out


# ------------------------------------------------------------------------------------------------ runtime harnesses
def compile_rt(pid, d, variants):
    write_dict(d)
    src = os.path.join(VERIF, 'rt', pid + '.cpp')
    def job(v):
        out = os.path.join(d, v)
        return v, sh(CXX + VARIANTS[v] + ['-I', REPO, '-I', os.path.join(VERIF, 'rt'), '-DVM_DICT="%s"' % os.path.join(d, 'dict.hpp'), src, '-o', out], timeout=600)
    with ThreadPoolExecutor(len(variants)) as ex: rs = list(ex.map(job, variants))
    for v, (rc, o, e) in rs:
        if rc == 124 or 'internal compiler error' in e or 'Killed signal' in e: raise Broken('compiler gave no answer for %s: %s' % (pid, e[-500:]))
        if rc: return e
    return None


def exec_bytes(d, variant, path):
    rc, o, e = sh([os.path.join(d, variant), 'exec', path], timeout=120)
    return rc, o, e


def crash_text(o, e):
    m = re.search(r'^FAIL (.*)$', o, re.M)
    if m: return m.group(1)
    for pat in (r'runtime error: .*', r'ERROR: AddressSanitizer: .*', r'AddressSanitizer: .*', r'Assertion .*', r'HANG: .*', r'terminate called.*'):
        m = re.search(pat, e)
        if m: return m.group(0)
    return (e.strip() or 'abnormal end')[-300:]


def run_rt(pid, plan, thorough_extra=None):
    """plan: {variant: (number of cases, worker count)}, time cap per worker."""
    res = Result(pid)
    d = builddir(pid)
    toolchain_ok(d)
    variants = [v for v in plan['cases'] if plan['cases'][v] > 0]
    err = compile_rt(pid, d, variants)
    if err is not None:
        rp = replay_path(pid)
        json.dump({'property': pid, 'kind': 'compile', 'log': err[:20000]}, open(rp, 'w'), indent=1)
        first = next((l for l in err.splitlines() if 'error' in l), err[:300])
        res.violations.append(('uses of the public interface that this property covers do not compile any more: ' + first, rp))
        res.rule = 'harness did not compile'; res.samples = [first]
        return finish(res)
    rc, rule, e = sh([os.path.join(d, variants[0]), 'rule'], timeout=60)
    res.rule = rule.strip()
    jobs = []
    weights = {'plain': 4, 'san': 4}
    for v in variants:
        w = NCPU if len(variants) == 1 else max(1, NCPU * weights[v] // 8)
        for k in range(w): jobs.append((v, k, w, plan['cases'][v]))
    def job(j):
        v, k, w, n = j
        pre = os.path.join(d, '%s.%d' % (v, k))
        # distinct variants explore distinct case numbers
        base = 0 if v == 'plain' else 1 << 40
        rc, o, e = sh([os.path.join(d, v), 'run', str(SEED), str(base + k), str(w), str(base + n), str(plan['cap']), pre], timeout=plan['cap'] + 120)
        return j, rc, o, e, pre, base
    with ThreadPoolExecutor(len(jobs)) as ex: outs = list(ex.map(job, jobs))
    hashes = set(); labels = {}; capped = False; per = {}
    nontriv = 0
    for (v, k, w, n), rc, o, e, pre, base in outs:
        st = {}
        if os.path.exists(pre + '.stat'):
            for line in open(pre + '.stat', errors='replace'):
                key, _, val = line.rstrip('\n').partition(' ')
                if key == 'label': c, _, name = val.partition(' '); labels[name] = labels.get(name, 0) + int(c)
                elif key == 'sample': res.samples.append(val[:600])
                else: st[key] = val
            res.evaluations += int(st['cases']); nontriv += int(st['nontrivial']); capped |= st['timed'] == '1'
            per[v] = per.get(v, 0) + int(st['cases'])
            a = array.array('Q'); raw = open(pre + '.hash', 'rb').read(); a.frombytes(raw[:len(raw) // 8 * 8]); hashes.update(a)
        if rc == 0: continue
        try: idx = struct.unpack('<Q', open(pre + '.progress', 'rb').read(8))[0]
        except Exception:
            res.inconclusive.append('worker %s.%d ended with %d before its first case: %s' % (v, k, rc, crash_text(o, e))); continue
        if 'failidx' in st: idx = int(st['failidx'])
        res._fail = getattr(res, '_fail', []) + [(v, base + k, w, idx, rc, st.get('failmsg') or crash_text(o, e), st.get('faildesc', ''))]
    res.distinct = len(hashes)
    res.samples = res.samples[::max(1, len(res.samples) // 10)]
    res.extra = {'nontrivial_cases': nontriv, 'labels': labels, 'cases_per_build': per, 'time_cap_reached': capped}
    fails = getattr(res, '_fail', [])
    if fails:
        fails.sort(key=lambda f: (f[3] & ((1 << 40) - 1)))
        for f in fails[:4]:
            r = confirm_rt(pid, d, f)
            if r: res.violations.append(r); break
        if not res.violations:
            res.inconclusive.append('failures did not reproduce: %s' % (fails[:3],))
    elif thorough_extra:
        thorough_extra(res, d)
    return finish(res)


def confirm_rt(pid, d, f):
    v, first, stride, idx, rc, msg, desc = f
    rp = replay_path(pid)
    raw = os.path.join(d, 'fail.bin')
    sh([os.path.join(d, v), 'bytes', str(SEED), str(idx), raw], timeout=60)
    r = confirm_bytes(pid, d, v, raw)
    if r: return r
    # not reproducible alone: the history of the worker
    def hist(a):
        r = sh([os.path.join(d, v), 'history', str(SEED), str(a), str(stride), str(idx)], timeout=400)
        return r if r[0] != 0 else None
    n = (idx - first) // stride
    for back in (10, 100, 1000, n):
        a = idx - min(back, n) * stride
        r = hist(a)
        if r and hist(a):
            json.dump({'property': pid, 'kind': 'history', 'build': v, 'seed': SEED, 'first': a, 'stride': stride, 'last': idx, 'failure': crash_text(r[1], r[2]), 'stderr': r[2][-3000:],
                       'replay_with': 'python3 check.py %s --replay <this file>' % pid}, open(rp, 'w'), indent=1)
            return ('history of %d cases: %s' % ((idx - a) // stride + 1, crash_text(r[1], r[2])), rp)
        if back >= n: break
    return None


def fuzz_rt(res, d, seconds):
    """Coverage-guided search with libFuzzer over the same generator, seeded with random inputs."""
    pid = res.pid; exe = os.path.join(d, 'fuzz')
    rc, o, e = sh(['clang++', '-std=gnu++17', '-w', '-O1', '-g1', '-fsanitize=fuzzer,address,undefined', '-fno-sanitize-recover=all', '-DVM_LIBFUZZER', '-I', REPO, '-I', os.path.join(VERIF, 'rt'),
                   '-DVM_DICT="%s"' % os.path.join(d, 'dict.hpp'), os.path.join(VERIF, 'rt', pid + '.cpp'), '-o', exe], timeout=900)
    if rc: res.extra['libfuzzer'] = 'not run, does not build with clang: ' + e[-300:]; return
    seeds = os.path.join(d, 'seeds'); os.makedirs(seeds)
    for k in range(200): sh([os.path.join(d, 'plain'), 'bytes', str(SEED), str((1 << 41) + k), os.path.join(seeds, str(k))], timeout=60)
    def job(k):
        w = os.path.join(d, 'fz%d' % k); os.makedirs(os.path.join(w, 'corpus'))
        return sh([exe, os.path.join(w, 'corpus'), seeds, '-max_total_time=%d' % seconds, '-max_len=3000', '-len_control=0', '-timeout=30', '-rss_limit_mb=3000', '-seed=%d' % (SEED * 100 + k + 1),
                   '-artifact_prefix=' + w + '/', '-print_final_stats=1'], timeout=seconds + 300)
    with ThreadPoolExecutor(NCPU) as ex: outs = list(ex.map(job, range(NCPU)))
    execs = cov = 0
    for k, (rc, o, e) in enumerate(outs):
        m = re.search(r'stat::number_of_executed_units:\s*(\d+)', e); execs += int(m.group(1)) if m else 0
        for m in re.finditer(r'cov: (\d+)', e): cov = max(cov, int(m.group(1)))
        for f in sorted(os.listdir(os.path.join(d, 'fz%d' % k))):
            if f.startswith(('crash-', 'timeout-', 'oom-')) and not res.violations:
                r = confirm_bytes(pid, d, 'san', os.path.join(d, 'fz%d' % k, f)) or confirm_bytes(pid, d, 'plain', os.path.join(d, 'fz%d' % k, f))
                if r: res.violations.append(r)
                elif f.startswith('crash-'): res.inconclusive.append('a libFuzzer input did not reproduce: ' + crash_text(o, e))
    res.extra['libfuzzer'] = {'executions': execs, 'edges_covered': cov, 'seconds': seconds, 'workers': NCPU}
    res.evaluations += execs


def confirm_bytes(pid, d, v, raw):
    """Replays, shrinks and records an input given as bytes."""
    rp = replay_path(pid); small = os.path.join(d, 'small.bin')
    runs = [exec_bytes(d, v, raw) for _ in range(3)]
    if not all(r[0] != 0 for r in runs): return None
    src, info = raw, ''
    rc2, o, e = sh([os.path.join(d, v), 'shrink', raw, small, '3000', '40'], timeout=200)
    if rc2 == 0 and os.path.exists(small):
        rs = [exec_bytes(d, v, small) for _ in range(3)]
        if all(r[0] != 0 for r in rs): src, runs, info = small, rs, o
    o, e = runs[0][1], runs[0][2]
    case = re.search(r'^CASE (.*)$', o, re.M); text = crash_text(o, e)
    json.dump({'property': pid, 'kind': 'case', 'build': v, 'bytes': open(src, 'rb').read().hex(), 'case': case.group(1) if case else '',
               'failure': text, 'shrink': info, 'stderr': e[-3000:], 'replay_with': 'python3 check.py %s --replay <this file>' % pid}, open(rp, 'w'), indent=1)
    return ((('case: ' + case.group(1) + '\n') if case and case.group(1) else '') + text, rp)


def replay_rt(pid, f):
    r = json.load(open(f))
    d = builddir(pid); toolchain_ok(d)
    v = r.get('build', 'san')
    err = compile_rt(pid, d, [v])
    if err is not None:
        print(err[:3000]); print('VIOLATION property=%s replay=%s' % (pid, f)); return 1
    if r['kind'] == 'compile': print('compiles'); return 0
    if r['kind'] == 'case':
        p = os.path.join(d, 'replay.bin'); open(p, 'wb').write(bytes.fromhex(r['bytes']))
        rc, o, e = exec_bytes(d, v, p)
    else:
        rc, o, e = sh([os.path.join(d, v), 'history', str(r['seed']), str(r['first']), str(r['stride']), str(r['last'])], timeout=800)
    print(o + e[-3000:])
    if rc: print('VIOLATION property=%s replay=%s' % (pid, f)); return 1
    return 0
