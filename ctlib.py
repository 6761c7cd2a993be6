"""Generated-program checks for the compile-time part: random types and expressions are compiled against /repo in batches,
the results are printed as text, read back and compared with exact rational arithmetic."""
import hashlib, json, os, random, re, shutil, sys, time
from concurrent.futures import ThreadPoolExecutor
import vmlib
from vmlib import Broken, NCPU, REPO, SEED, TIER, VERIF, Result, finish, replay_path, sh
import ctprops

FLAGS = ['g++', '-std=gnu++17', '-w', '-pipe', '-O0', '-ftemplate-depth=2000']
SAN = ['-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fsanitize-address-use-after-scope']


def pch(d, san):
    """Precompiled headers from /repo's current tree."""
    h = os.path.join(d, 'ctcore.hpp')
    shutil.copy(os.path.join(VERIF, 'ct', 'ctcore.hpp'), h)
    cmd = FLAGS + (SAN if san else []) + ['-I', REPO, '-x', 'c++-header', h, '-o', h + '.gch']
    rc, o, e = sh(cmd, timeout=300)
    return rc, e


def program(prop, cases, ids):
    out = ['#include "ctcore.hpp"']
    for i in ids: out.append('static void c%d() { const int I = %d; (void)I;\n%s\n}' % (i, i, prop.emit(cases[i])))
    out.append('int main() { setvbuf(stdout, 0, _IOFBF, 1 << 16);')
    for i in ids: out.append(' c%d(); fflush(stdout);' % i)
    out.append('}')
    return '\n'.join(out)


class Outcome:
    def __init__(self): self.lines = {}; self.bad = {}     # id -> {tag: text}; id -> message


def build_and_run(prop, cases, ids, d, name, out, budget_s=240):
    """Compiles one batch; bisects when it does not compile or does not run."""
    src = os.path.join(d, name + '.cpp'); exe = os.path.join(d, name)
    open(src, 'w').write(program(prop, cases, ids))
    rc, o, e = sh(FLAGS + (SAN if prop.san else []) + ['-I', d, '-I', REPO, src, '-o', exe], timeout=budget_s)
    if rc:
        if rc == 124 or 'internal compiler error' in e or 'Killed' in e or 'out of memory' in e:
            if len(ids) == 1:
                out.bad[ids[0]] = ('limit', 'the compiler gave no answer: ' + e[-300:]); return
        elif len(ids) == 1:
            first = next((l for l in e.splitlines() if 'error' in l), e[:300])
            first = re.sub(r'^\S*?:\d+:\d+: ', '', first)
            out.bad[ids[0]] = ('compile', 'does not compile: ' + first[:400]); return
        h = len(ids) // 2
        build_and_run(prop, cases, ids[:h], d, name + 'a', out); build_and_run(prop, cases, ids[h:], d, name + 'b', out)
        return
    rc, o, e = sh([exe], timeout=60)
    for line in o.splitlines():
        p = line.split(' ', 2)
        if len(p) < 2: continue
        out.lines.setdefault(int(p[0]), {})[p[1]] = p[2].strip() if len(p) > 2 else ''
    for f in (src, exe):
        try: os.remove(f)
        except OSError: pass
    if rc:
        if len(ids) == 1: out.bad[ids[0]] = ('run', vmlib.crash_text(o, e)); return
        h = len(ids) // 2
        build_and_run(prop, cases, ids[:h], d, name + 'a', out); build_and_run(prop, cases, ids[h:], d, name + 'b', out)


def verdict(prop, case, out, i):
    if i in out.bad: return out.bad[i]
    try: m = prop.judge(case, out.lines.get(i, {}))
    except ctprops.Bad as e: m = str(e)
    return ('value', m) if m else None


def evaluate(prop, cases, d, tag, batch=None):
    """Runs all cases; returns list of verdicts (None = held)."""
    batch = batch or prop.batch
    out = Outcome()
    groups, weight = [], batch
    for i, c in enumerate(cases):
        if weight >= batch: groups.append([]); weight = 0
        groups[-1].append(i); weight += prop.cost(c)
    def job(g): build_and_run(prop, cases, g, d, '%s_%d' % (tag, g[0]), out)
    with ThreadPoolExecutor(NCPU) as ex: list(ex.map(job, groups))
    return [verdict(prop, c, out, i) for i, c in enumerate(cases)]


def minimise(prop, case, kind, d):
    cur, n, t0 = case, 0, time.time()
    for rnd in range(60):
        cands = []; seen = set()
        for c in prop.shrink(cur):
            k = repr(c)
            if k in seen or prop.size(c) >= prop.size(cur): continue
            seen.add(k)
            if prop.valid(c): cands.append(c)
        if not cands or time.time() - t0 > 120: break
        cands = sorted(cands, key=prop.size)[:64]
        vs = evaluate(prop, cands, d, 'shr%d' % rnd, batch=1 if kind == 'compile' else max(1, len(cands) // NCPU)); n += len(cands)
        best = next((c for c, v in zip(cands, vs) if v and v[0] == kind), None)
        if best is None: break
        cur = best
    return cur, n


def generate(prop, n, seed):
    rng = random.Random('%s/%d' % (prop.id, seed)); cases = []; seen = set(); tries = 0
    for c in prop.exhaustive():
        if prop.valid(c): seen.add(hashlib.md5(repr(c).encode()).digest()); cases.append(c)
    n += len(cases)
    while len(cases) < n and tries < 60 * n:
        tries += 1
        c = prop.gen(rng)
        if c is None or not prop.valid(c): continue
        k = hashlib.md5(repr(c).encode()).digest()
        if k in seen: continue
        seen.add(k); cases.append(c)
    return cases, tries


def run(pid, n, cap):
    prop = ctprops.PROPS[pid](); res = Result(pid)
    d = vmlib.builddir(pid); vmlib.toolchain_ok(d)
    res.rule = prop.rule
    rc, e = pch(d, prop.san)
    if rc:
        if rc == 124: raise Broken('precompiling the headers took too long')
        rp = replay_path(pid); json.dump({'property': pid, 'kind': 'headers', 'log': e[:20000]}, open(rp, 'w'), indent=1)
        first = next((l for l in e.splitlines() if 'error' in l), e[:300])
        res.violations.append(('the compile-time headers do not compile: ' + first, rp)); res.samples = [first]
        return finish(res)
    step = prop.batch * NCPU * 12; done = 0; capped = False; labels = {}
    allcases, tries = generate(prop, n, SEED)
    bad = None
    while done < len(allcases):
        if time.time() - vmlib.T0 > cap: capped = True; break
        part = allcases[done:done + step]
        vs = evaluate(prop, part, d, 'b%d' % done)
        for c, v in zip(part, vs):
            res.evaluations += 1
            for l in prop.labels(c): labels[l] = labels.get(l, 0) + 1
            if prop.nontrivial(c): res.distinct += 1
            if v and v[0] == 'limit': res.inconclusive.append(v[1]); continue
            if v and bad is None: bad = (c, v)
        done += len(part)
        if bad: break
    res.samples = [prop.desc(c) for c in allcases[:done:max(1, done // 10)]]
    res.extra = {'labels': labels, 'generator_attempts': tries, 'time_cap_reached': capped}
    if len(res.inconclusive) < 3: res.inconclusive = []       # a single huge type may exceed the compiler; many are suspicious
    if bad:
        c, v = bad
        again = evaluate(prop, [c, c], d, 'again', batch=1)
        if all(a and a[0] == v[0] for a in again):
            small, tried = minimise(prop, c, v[0], d)
            fin = evaluate(prop, [small], d, 'fin', batch=1)[0]
            if not fin: small, fin = c, v
            rp = replay_path(pid)
            json.dump({'property': pid, 'kind': 'program', 'case': small, 'text': prop.desc(small), 'failure': fin[1], 'original_case': c, 'shrink_tries': tried,
                       'program': program(prop, [small], [0]), 'replay_with': 'python3 check.py %s --replay <this file>' % pid}, open(rp, 'w'), indent=1)
            res.violations.append(('case: %s\n%s' % (prop.desc(small), fin[1]), rp))
        else: res.inconclusive = ['a failure did not reproduce: %s' % (v,)]
    shutil.rmtree(d, ignore_errors=True)
    return finish(res)


def totuple(x): return tuple(totuple(y) for y in x) if isinstance(x, list) else x


def replay(pid, f):
    prop = ctprops.PROPS[pid](); r = json.load(open(f)); d = vmlib.builddir(pid); vmlib.toolchain_ok(d)
    rc, e = pch(d, prop.san)
    if rc: print(e[:3000]); print('VIOLATION property=%s replay=%s' % (pid, f)); return 1
    if r['kind'] == 'headers': print('compiles'); return 0
    c = totuple(r['case']); v = evaluate(prop, [c], d, 'replay', batch=1)[0]
    print(prop.desc(c)); print(v[1] if v else 'held')
    if v: print('VIOLATION property=%s replay=%s' % (pid, f)); return 1
    return 0
