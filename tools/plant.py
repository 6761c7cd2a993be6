#!/usr/bin/env python3
"""tools/plant.py SPEC.py [ID...]: development aid. Makes seeded/<id>/ from a spec (list BUGS of dicts id, prop, edits, demo, needs, what),
confirming in a scratch copy that the change applies, builds, passes the 7 tests, and is shown by the demonstration.
With env CHECK=1 also runs the property's check against the changed copy."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PRE = '''#include <cassert>
#include <cstdio>
#include <cmath>
#include <sstream>
#include <string>
#include <vector>
#include <iostream>
#include <memory>
#include "viennamath/expression.hpp"
#include "viennamath/manipulation/eval.hpp"
#include "viennamath/manipulation/simplify.hpp"
#include "viennamath/manipulation/substitute.hpp"
#include "viennamath/manipulation/diff.hpp"
#include "viennamath/manipulation/expand.hpp"
#include "viennamath/manipulation/coefficient.hpp"
#include "viennamath/manipulation/drop_dependent_terms.hpp"
#include "viennamath/manipulation/integrate.hpp"
#include "viennamath/manipulation/latex.hpp"
#include "viennamath/manipulation/apply_coordinate_system.hpp"
#include "viennamath/runtime/numerical_quadrature.hpp"
#include "viennamath/compiletime/ct_equation.hpp"
#include "viennamath/compiletime/ct_interval.hpp"
namespace vm = viennamath;
static int bad = 0;
static void near(const char * what, double got, double want)
{ if (!(std::fabs(got - want) <= 1e-9 * (1 + std::fabs(want)))) { std::printf("%s: got %g, expected %g\\n", what, got, want); bad = 1; } }
static void yes(const char * what, bool ok) { if (!ok) { std::printf("wrong: %s\\n", what); bad = 1; } }
template <typename T> std::string text(T const & t) { std::ostringstream s; s << t; return s.str(); }
'''
SH = '''#!/bin/sh
# compiles demo.cpp against the library headers in the current directory (/repo) and runs it
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
g++ -std=gnu++17 -w %s -I "$PWD" "$d/demo.cpp" -o "$t/demo" || exit 3
cd "$t" && ASAN_OPTIONS=detect_leaks=%d ./demo
'''
TESTS = ['compiletime_evaluation', 'compiletime_manipulation', 'compiletime_test', 'diff_test', 'equation_test', 'runtime_test']

def run(cmd, cwd=None, env=None, timeout=900):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode('utf-8', 'replace')

def tests(w):
    from concurrent.futures import ThreadPoolExecutor
    def one(t):
        if t == 'external_linkage':
            src = [w + '/tests/src/external_1.cpp', w + '/tests/src/external_2.cpp']
        else: src = [w + '/tests/src/' + t + '.cpp']
        x = w + '/_t_' + t
        rc, o = run(['g++', '-w', '-g', '-O0', '-I' + w, '-I' + w + '/external'] + src + ['-o', x])
        if rc: return t + ' does not compile: ' + o[:600]
        rc, o = run([x], cwd=w)
        return '' if rc == 0 else '%s fails: %s' % (t, o[-300:])
    with ThreadPoolExecutor(8) as ex: return [r for r in ex.map(one, TESTS + ['external_linkage']) if r]

def main():
    ns = {}; exec(open(sys.argv[1]).read(), ns); ids = sys.argv[2:]
    for b in ns['BUGS']:
        if ids and b['id'] not in ids: continue
        w = '/tmp/plant/' + b['id']
        shutil.rmtree(w, ignore_errors=True); os.makedirs('/tmp/plant', exist_ok=True)
        run(['git', '-C', '/repo', 'worktree', 'prune'])
        rc, o = run(['git', 'clone', '-q', '/repo', w]); assert rc == 0, o
        ok = True
        for f, old, new in b['edits']:
            p = w + '/viennamath/' + f; t = open(p).read()
            if t.count(old) != 1: print(b['id'], 'EDIT matches %d times in %s: %r' % (t.count(old), f, old[:80])); ok = False; break
            open(p, 'w').write(t.replace(old, new))
        if not ok: continue
        d = V + '/seeded/' + b['id']; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        _, diff = run(['git', '-C', w, 'diff'])
        open(d + '/patch.diff', 'w').write(diff)
        open(d + '/demo.cpp', 'w').write(PRE + b['demo'])
        open(d + '/demo.sh', 'w').write(SH % (b.get('flags', ''), 1 if b.get('leak') else 0)); os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['what']}, open(d + '/meta.json', 'w'), indent=1)
        r1, o1 = run(['sh', d + '/demo.sh'], cwd='/repo'); r2, o2 = run(['sh', d + '/demo.sh'], cwd=w)
        t = tests(w)
        print('%-28s %s demo clean=%d patched=%d tests=%s' % (b['id'], b['prop'], r1, r2, 'ok' if not t else t), flush=True)
        if r1 or not r2 or t:
            print('   NOT KEPT', o1[:1500] if r1 else '', o2[:300], flush=True); shutil.rmtree(d); continue
        print('   patched demo says:', o2[:160].replace('\n', ' | '))
        if os.environ.get('CHECK'):
            rc, o = run(['python3', V + '/check.py', b['prop']], env=dict(os.environ, VM_REPO=w, VERIF_SEED='1', VERIF_TIER='quick'), timeout=1500)
            print('   CHECK rc=%d %s' % (rc, [l[:300] for l in o.splitlines() if 'VIOLATION' in l or 'ERROR' in l or 'INCONC' in l][:2]), flush=True)
        shutil.rmtree(w)
main()
