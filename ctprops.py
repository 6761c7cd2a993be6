"""The compile-time properties C19..C26: generators, emitted programs and exact oracles.

Expressions are tuples: ('c', n)  ('v', i)  ('+'|'-'|'*'|'/', a, b)  ('u', i) ('t', i) function symbols  ('f', name, a) unary functions.
The oracle is arithmetic with Fractions on these tuples; the library only ever sees the emitted C++ program."""
import hashlib, random
from fractions import Fraction as Fr
from math import isfinite
from vmlib import SEED


class Bad(Exception): pass          # the printed result is itself a failure
class Undef(Exception): pass        # no value at this point

OPN = {'+': 'A', '-': 'S', '*': 'M', '/': 'Q'}


# ------------------------------------------------------------------------------------------------ expressions
def tname(e):
    k = e[0]
    if k == 'c': return 'K<%d>' % e[1]
    if k == 'v': return 'W<%d>' % e[1]
    if k == 'u': return 'vm::ct_function_symbol<vm::unknown_tag<%d> >' % e[1]
    if k == 't': return 'vm::ct_function_symbol<vm::test_tag<%d> >' % e[1]
    if k == 'f': return 'vm::ct_unary_expr<%s, vm::op_%s<D> >' % (tname(e[2]), e[1])
    return '%s<%s,%s>' % (OPN[k], tname(e[1]), tname(e[2]))


def opname(e):
    """The expression written with operators."""
    k = e[0]
    if k in 'cv': return tname(e) + '()'
    return '(%s %s %s)' % (opname(e[1]), k, opname(e[2]))


def infix(e):
    k = e[0]
    if k == 'c': return str(e[1])
    if k in 'vut': return {'v': 'x', 'u': 'u', 't': 'w'}[k] + str(e[1])
    if k == 'f': return '%s(%s)' % (e[1], infix(e[2]))
    return '(%s %s %s)' % (infix(e[1]), k, infix(e[2]))


def kids(e):
    if e[0] in '+-*/' : return (e[1], e[2])
    if e[0] == 'f': return (e[2],)
    return ()


def rebuild(e, ch):
    if e[0] in '+-*/': return (e[0],) + tuple(ch)
    if e[0] == 'f': return ('f', e[1], ch[0])
    return e


def size(e): return 1 + sum(size(k) for k in kids(e))
def weight(e): return size(e) * 1000 + sum(min(abs(n), 900) + (n < 0) if k == 'c' else n for k, n in leaves(e))


def leaves(e):
    ch = kids(e)
    if not ch: yield (e[0], e[1])
    for c in ch:
        for l in leaves(c): yield l


def variables(e): return {n for k, n in leaves(e) if k == 'v'}


def nodes(e):
    yield e
    for c in kids(e):
        for n in nodes(c): yield n


def uninterpreted(name, x): 
    h = hashlib.md5(('%s/%s' % (name, x)).encode()).digest()
    return Fr(int.from_bytes(h[:2], 'big') - 30000, 1 + h[2] % 7)


def ev(e, pt):
    k = e[0]
    if k == 'c': return Fr(e[1])
    if k == 'v': return pt[e[1]]
    if k in 'ut': return uninterpreted(k, e[1])
    if k == 'f': return uninterpreted(e[1], ev(e[2], pt))
    a = ev(e[1], pt); b = ev(e[2], pt)
    if k == '+': return a + b
    if k == '-': return a - b
    if k == '*': return a * b
    if b == 0: raise Undef()
    return a / b


def tryev(e, pt):
    try: return ev(e, pt)
    except Undef: return None


def everr(e, pt):
    """Value and a bound of the rounding error of a floating point evaluation."""
    k = e[0]
    if k == 'c': return Fr(e[1]), abs(Fr(e[1])) * EPS
    if k == 'v': return pt[e[1]], Fr(0)
    a, da = everr(e[1], pt); b, db = everr(e[2], pt)
    if k in '+-':
        v = a + b if k == '+' else a - b
        d = da + db
    elif k == '*': v = a * b; d = abs(a) * db + abs(b) * da + da * db
    else:
        if abs(b) <= 2 * db or b == 0: raise Undef()
        v = a / b; d = (da + abs(v) * db) / (abs(b) - db)
    return v, rnd(d + abs(v) * EPS)


EPS = Fr(1, 2 ** 51)
def rnd(x): return x if x == 0 else Fr(float(x) * 1.01) if x > Fr(1, 10 ** 300) else Fr(1, 10 ** 300)


def parse(text):
    """The prefix text of type_<T>."""
    tok = text.split(); pos = [0]
    def rec():
        if pos[0] >= len(tok): raise Bad('the result type could not be printed: %r' % text[:300])
        t = tok[pos[0]]; pos[0] += 1
        if t in OPN:
            a = rec(); b = rec(); return (t, a, b)
        if t[0] in 'cvut' and (t[1:].lstrip('-').isdigit()): return (t[0], int(t[1:]))
        if t[0] == 'f': return ('f', t[1:], rec())
        raise Bad('the result type contains something else than the operands: %r' % text[:300])
    e = rec()
    if pos[0] != len(tok): raise Bad('the result type could not be read: %r' % text[:300])
    return e


def get(out, tag):
    if tag not in out: raise Bad('no result printed for ' + tag)
    return out[tag]


class Point(list):
    """Coordinates; those of variables with large indices are made when they are asked for."""
    def far(self, j):
        if not hasattr(self, 'more'): self.more = {}
        if j not in self.more:
            r = random.Random('%s %d' % (list.__repr__(self), j)); self.more[j] = Fr(r.randint(-40, 40), r.choice((1, 2, 3, 5, 7, 11)))
        return self.more[j]
    def __getitem__(self, j): return list.__getitem__(self, j) if j < len(self) else self.far(j)
    def moved(self, j, by):
        p = Point(list.copy(self)); p.more = dict(getattr(self, 'more', {}))
        if j < len(p): p[j] += by
        else: p.more[j] = self.far(j) + by
        return p


def points(case, nvars=8, n=6):
    """Points of exact rational numbers that only depend on the case."""
    r = random.Random(hashlib.md5(repr(case).encode()).hexdigest())
    out = [Point([Fr(1)] * nvars), Point(Fr(r.choice((0, 1, -1, 2, -2))) for _ in range(nvars))]
    for _ in range(n - 2): out.append(Point(Fr(r.randint(-40, 40), r.choice((1, 1, 2, 3, 5, 7, 11))) for _ in range(nvars)))
    return out


def bound(e):
    """Product of |c|+1 over all constants: bounds every numerator and denominator of exact rational arithmetic."""
    p = 1
    for k, n in leaves(e):
        if k == 'c': p *= abs(n) + 1
    return p


def defined_somewhere(e, case):
    return any(tryev(e, p) is not None for p in points(case))


def zero_denominator(e):
    """A denominator without any variable which is zero, or which vanishes at every point."""
    for n in nodes(e):
        if n[0] == '/' and all(tryev(n[2], p) in (None, 0) for p in points(n[2], 16)): return True
    return False


def compare(orig, res, case, what='result'):
    """None, or how the value of the parsed result differs from the original where that is defined."""
    for p in points(case):
        a = tryev(orig, p)
        if a is None: continue
        b = tryev(res, p)
        if a != b:
            vs = sorted(variables(orig) | variables(res))
            return '%s %s has the value %s at %s, expected %s' % (what, infix(res)[:400], b, ', '.join('x%d=%s' % (v, p[v]) for v in vs), a)
    return None


# ------------------------------------------------------------------------------------------------ generators
CONSTS = (0, 0, 1, 1, 2, 2, 3, -1, -1, -2, 4, 5, 6, 7, 8, 9, 10, 12, -3, -5, -6, 15, 100)
BIGC = (2 ** 31, 2 ** 31 - 1, -2 ** 31, 65536, 2 ** 33 + 7, 46341, 1000003, 2 ** 40, -2 ** 36 + 5, 99999)


def gconst(r, big=0.0):
    if r.random() < big: return ('c', r.choice(BIGC))
    if r.random() < 0.1: return ('c', r.randint(-60, 60))
    if r.random() < 0.05: return gmag(r, 17)
    return ('c', r.choice(CONSTS))


def gmag(r, bits):
    """A constant of any order of magnitude."""
    return ('c', r.choice((1, -1)) * r.getrandbits(r.randint(1, bits)))


def renumber(e, ids): return ('v', ids[e[1]]) if e[0] == 'v' else rebuild(e, tuple(renumber(k, ids) for k in kids(e)))


def numbering(r, nv, rate=0.1):
    """The variables' indices: 0, 1, 2... or, in some cases, larger ones."""
    if r.random() >= rate: return list(range(nv))
    pool = [r.randint(3, 20), 7, 8, 9, 10, 15, 16, 31, 32, 33, 63, 64, 99, 100, 107, 127, 128, 255, 256, 257, 511, 1000, 1024, 32767, 32768, 65535, 65536, 65537, 1 << 20, 2 ** 31 - 1, 2 ** 31, 2 ** 32, 2 ** 32 + 1] + list(range(nv))
    ids = r.sample(sorted(set(pool)), nv)
    if nv > 1 and r.random() < 0.4:            # two that agree in their lower digits
        k = r.choice((8, 16, 100, 256, 1000, 65536, 2 ** 32)); i, j = r.sample(range(nv), 2)
        if ids[i] + k not in ids: ids[j] = ids[i] + k
    return ids


def gsym(r): return r.randint(0, 1) if r.random() < 0.93 else r.choice((2, 3, 8, 16, 99, 100, 101, 255, 256, 257, 65536, 2 ** 32))


def gexpr(r, n, nv, ops='+-*/', pc=0.5, big=0.0, funs=False):
    """A random tree with about n leaves."""
    if n <= 1:
        if funs and r.random() < 0.15: return (r.choice('ut'), gsym(r))
        if r.random() < pc: return gconst(r, big)
        return ('v', r.randrange(nv))
    if funs and r.random() < 0.12: return ('f', r.choice(FUNS), gexpr(r, n - 1, nv, ops, pc, big, funs))
    if r.random() < 0.1:                       # two related operands
        a = gexpr(r, (n + 1) // 2, nv, ops, pc, big, funs); b = kin(r, a, ops)
        return (r.choice(ops), a, b) if r.random() < 0.5 else (r.choice(ops), b, a)
    k = r.randint(1, n - 1) if r.random() < 0.7 else r.choice((1, n - 1))
    return (r.choice(ops), gexpr(r, k, nv, ops, pc, big, funs), gexpr(r, n - k, nv, ops, pc, big, funs))


def kin(r, a, ops):
    """The same expression, or nearly."""
    m = r.randrange(6); ch = kids(a)
    if m < 2 or not ch: return a
    if a[0] == 'f' or m == 2: return r.choice(ch)
    if m == 3: return (a[0], a[2], a[1])
    if m == 4: return (r.choice(ops), a[1], a[2])
    i = r.randrange(2); return rebuild(a, tuple(kin(r, c, ops) if i == j else c for j, c in enumerate(ch)))


FUNS = ('sin', 'cos', 'exp', 'sqrt', 'log', 'fabs')


def gsize(r, hi): return min(hi, 1 + int(r.expovariate(1.0 / (hi * 0.4))))


def shrink_expr(e):
    """Smaller candidates."""
    for c in kids(e): yield c
    if e[0] == 'c':
        for n in (0, 1, 2, e[1] // 2, -e[1] if e[1] < 0 else 0):
            if n != e[1]: yield ('c', n)
    elif e[0] == 'v':
        if e[1]:
            for n in {0, 1, 2, e[1] // 2, e[1] - 1}:
                if n < e[1]: yield ('v', n)
    elif e[0] in 'ut': yield ('v', 0)
    else:
        yield ('v', 0); yield ('c', 1)
    ch = kids(e)
    for i, c in enumerate(ch):
        for s in shrink_expr(c): yield rebuild(e, ch[:i] + (s,) + ch[i + 1:])


class Prop:
    batch = 60; san = False; limit = 2 ** 56
    def exhaustive(self): return ()
    def cost(self, case): return 1              # relative effort of the compiler
    def size(self, case): return sum(weight(x) if isinstance(x, tuple) and x and isinstance(x[0], str) else (abs(x) if isinstance(x, int) else 0) for x in case)
    def labels(self, case):
        e = case[0]; ks = {n[0] for n in nodes(e)}
        yield 'leaves:%s' % ('1' if size(e) == 1 else '2-4' if size(e) < 8 else '5-9' if size(e) < 18 else '10+')
        if '/' in ks: yield 'with quotient'
    def nontrivial(self, case): return size(case[0]) >= 5 and len(variables(case[0])) >= 1
    def shrink(self, case):
        for i, x in enumerate(case):
            if isinstance(x, tuple) and x and isinstance(x[0], str):
                for s in shrink_expr(x): yield case[:i] + (s,) + case[i + 1:]
            elif isinstance(x, int) and x > 0:
                for y in {0, 1, 2, x // 2, x - 1}:
                    if y < x: yield case[:i] + (y,) + case[i + 1:]
    def desc(self, case): return '; '.join(infix(x) if isinstance(x, tuple) and x and isinstance(x[0], str) else str(x) for x in case)


# ------------------------------------------------------------------------------------------------ C19
class C19(Prop):
    id = 'C19'; batch = 30
    rule = 'a case is one random formula; non-trivial: at least 3 leaves, and at least one variable'
    def gen(self, r):
        nv = r.choice((1, 2, 3, 3, 5)); big = 0.05 if r.random() < 0.2 else 0
        e = gexpr(r, gsize(r, 14), nv, r.choice(('+-*/', '+-*/', '+-*', '+-')), r.choice((0.3, 0.5, 0.7)), big)
        if r.random() < 0.35: e = self.fold_shape(r, nv)
        if r.random() < 0.55:            # only the formula is looked at, which is much cheaper
            if r.random() < 0.8: e = self.fold_shape(r, nv)
            ids = numbering(r, nv, 0.2)
            return (renumber(e, r.sample(range(8), nv) if ids == list(range(nv)) else ids), 8, ())
        if r.random() < 0.25:            # numbers of any size, in a short formula
            nv = r.choice((1, 2, 3)); e = gexpr(r, r.choice((1, 1, 2)), nv, '+-*/', 0.2)
            return (e, nv, tuple(tuple(gmag(r, 40)[1] for _ in range(nv)) for _ in range(3)))
        pts = tuple(tuple(r.choice((0, 1, -1, 2, 3, -4, 5, 8, 12, -15, 40, 100)) for _ in range(nv)) for _ in range(3))
        return (e, nv, pts)
    def exhaustive(self):
        """Every operator on two related small operands: (L o R) with every (L' o R') made from the same leaves and one more. Only the formula is looked at."""
        x, y, z = ('v', 0), ('v', 1), ('v', 2)
        for L, R, Z in ((x, y, z), (x, x, ('c', 2)), (x, ('c', 2), ('c', 3)), (('c', 2), y, x), (x, ('c', 1), y)):
            lv = sorted({L, R, Z})
            for o in '+-*/':
                b = (o, L, R)
                for p in '+-*/':
                    for l in lv: yield ((p, b, l), 3, ()); yield ((p, l, b), 3, ())
                    for q in '+-*/':
                        for l in lv:
                            for m in lv: yield ((p, b, (q, l, m)), 3, ())
    def cost(self, case): return 1 if case[2] else 0.2
    def fold_shape(self, r, nv):
        """Shapes near the operators' special cases."""
        x = lambda: gexpr(r, r.choice((1, 1, 2, 3)), nv)
        c = lambda: gmag(r, 26) if r.random() < 0.3 else gconst(r)
        o = lambda s='+-*/': r.choice(s)
        e = r.choice((lambda: (o(), c(), (o(), c(), x())), lambda: (o(), (o(), c(), x()), c()), lambda: (o(), (o(), x(), c()), c()),
                      lambda: (lambda a: (o(), a, a))(x()), lambda: (lambda a: (o(), (o(), a, x()), a))(('v', r.randrange(nv))),
                      lambda: (lambda a: (o(), a, (o(), a, x())))(('v', r.randrange(nv))), lambda: (lambda a: (o(), (o(), x(), a), a))(x()),
                      lambda: (o(), (o(), c(), x()), (o(), c(), x())), lambda: self.related(r, x(), x(), x()), lambda: self.related(r, x(), x(), x())))()
        if r.random() < 0.3: e = (o(), e, x()) if r.random() < 0.5 else (o(), x(), e)
        return e
    def related(self, r, a, b, c):
        """Two operands made from the same parts, at most one of them different."""
        o = lambda: r.choice('+-*/')
        p = (o(), a, b); l = r.choice((a, b, c)); m = r.choice((a, b))
        if r.random() < 0.5: l, m = m, l
        q = (p[0] if r.random() < 0.5 else o(), l, m)
        if r.random() < 0.3: q = (o(), q, c) if r.random() < 0.5 else (o(), c, q)
        return (o(), p, q) if r.random() < 0.5 else (o(), q, p)
    def valid(self, case):
        e, nv, pts = case
        if bound(e) > self.limit or size(e) > 40 or zero_denominator(e): return False
        if not pts: return defined_somewhere(e, case)
        if any(len(p) < nv for p in pts) or any(v >= nv for v in variables(e)): return False
        if any(abs(x) > 100 for p in pts for x in p):
            if size(e) > 3: return False
            for p in pts:
                m = 1
                for n in nodes(e):
                    if n[0] in 'cv': m *= abs(n[1] if n[0] == 'c' else p[n[1]]) + 1
                if m >= 2 ** 53: return False
        return any(tryev(e, list(map(Fr, p))) is not None for p in pts)
    def emit(self, case):
        e, nv, pts = case; t = tname(e); L = []
        L.append('auto e = %s; typedef %s T; T t;' % (opname(e), t))
        L.append('type_of(I, "op", e); const auto ce(e); type_of(I, "cp", ce);')
        if not pts: return ' '.join(L)
        L.append('E re(e), rt; rt = t;')
        for i, p in enumerate(pts):
            L.append('{ std::vector<double> p = { %s };' % ', '.join('%d' % x for x in p))
            for tag, ob in (('o', 'e'), ('t', 't')):
                L.append('val(I, "%s%d", vm::eval(%s, p)); val(I, "%sc%d", %s(p));' % (tag, i, ob, tag, i, ob))
            L.append('val(I, "r%d", vm::eval(re, p)); val(I, "s%d", rt(p));' % (i, i))
            if nv <= 3:
                ds = ['p[%d]' % j for j in range(nv)]
                L.append('auto cv = vm::make_vector(%s); val(I, "v%d", vm::eval(t, cv)); val(I, "w%d", e(cv));' % (', '.join(ds), i, i))
                if tryev(e, list(map(Fr, p))) is not None:
                    L.append('%s' % ' '.join('K<%d> k%d;' % (p[j], j) for j in range(nv)))
                    L.append('auto kv = vm::make_vector(%s); typedef decltype(kv) KV;' % ', '.join('k%d' % j for j in range(nv)))
                    L.append('type_<typename vm::result_of::eval<T, KV>::type>(I, "k%d"); val(I, "kd%d", vm::eval(t, kv));' % (i, i))
                    if e[0] in OPN: L.append('val(I, "kw%d", t(kv));' % i)
                if nv == 1:
                    L.append('val(I, "q%d", re(p[0]));' % i)
            L.append('}')
        return ' '.join(L)
    def judge(self, case, out):
        e, nv, pts = case
        for tag in ('op', 'cp'):
            m = compare(e, parse(get(out, tag)), case, 'the expression built with operators,')
            if m: return m
        for i, p in enumerate(pts):
            P = list(map(Fr, p))
            try: v, d = everr(e, P)
            except Undef: continue
            res = parse(get(out, 'op'))
            try: d2 = everr(res, P)[1]
            except Undef: d2 = d
            tol = max(d, d2) * 4
            tags = ['o%d' % i, 'oc%d' % i, 't%d' % i, 'tc%d' % i, 'r%d' % i, 's%d' % i]
            if nv <= 3:
                tags += ['v%d' % i, 'w%d' % i]
                k = parse(get(out, 'k%d' % i))
                if tryev(k, P) != v or any(n[0] == 'v' for n in nodes(k)) or size(k) > 3: return 'compile-time evaluation at %s gives %s, expected %s' % (p, infix(k), v)
                tags += ['kd%d' % i]
                if e[0] in OPN: tags += ['kw%d' % i]
                if nv == 1: tags.append('q%d' % i)
            for tag in tags:
                g = float(get(out, tag))
                if not isfinite(g) or abs(Fr(g) - v) > tol: return 'evaluation %s at %s gives %r, expected %s' % (tag, p, g, v if v.denominator < 10 ** 6 else float(v))
        return None
    def desc(self, case): return '%s at %s' % (infix(case[0]), case[2] or 'no point')
    def size(self, case): return weight(case[0]) + 500 * len(case[2]) + case[1] + sum(abs(x) for p in case[2] for x in p)
    def shrink(self, case):
        e, nv, pts = case
        for s in shrink_expr(e): yield (s, nv, pts)
        for i in range(len(pts)):
            if len(pts) > 1: yield (e, nv, pts[:i] + pts[i + 1:])
            for j in range(len(pts[i])):
                for w in (1, 2, 3):
                    if pts[i][j] != w: yield (e, nv, pts[:i] + (pts[i][:j] + (w,) + pts[i][j + 1:],) + pts[i + 1:])
        if nv > 1: yield (e, nv - 1, tuple(p[:nv - 1] for p in pts))


# ------------------------------------------------------------------------------------------------ C20
def canonical_violation(e):
    """A reducible operation left in a simplified type, or None."""
    for n in nodes(e):
        if n[0] not in OPN: continue
        k, a, b = n
        z = lambda x, v: x == ('c', v)
        if k == '+' and (z(a, 0) or z(b, 0)): return n
        if k == '-' and z(b, 0): return n
        if k == '*' and (z(a, 0) or z(b, 0) or z(a, 1) or z(b, 1)): return n
        if k == '/' and (z(a, 0) or z(b, 1)): return n
        if k in '+-*' and a[0] == 'c' and b[0] == 'c': return n
    return None


class C20(Prop):
    id = 'C20'; batch = 120
    rule = 'a case is one random expression type; non-trivial: at least 3 leaves and one variable'
    small = (('c', 0), ('c', 1), ('c', -1), ('c', 2), ('c', 6), ('v', 0), ('v', 1))
    def exhaustive(self):
        """Every type with two or three leaves from a small set."""
        S = self.small
        two = [(o, a, b) for o in '+-*/' for a in S for b in S]
        for e in two: yield (e,)
        for o in '+-*/':
            for t in two:
                for a in S: yield ((o, t, a),); yield ((o, a, t),)
    def gen(self, r):
        nv = r.choice((1, 2, 3)); big = 0.2 if r.random() < 0.25 else 0
        m = r.random()
        if m < 0.55: e = gexpr(r, gsize(r, 16), nv, r.choice(('+-*/', '+-*/', '+-*', '*/', '+-', '-')), r.choice((0.3, 0.5, 0.8, 0.95)), big)
        else: e = self.shape(r, nv, 0 if r.random() < 0.4 else 1)
        return (symbolize(r, renumber(e, numbering(r, nv)), 0.1),)
    def shape(self, r, nv, more):
        """Shapes built from the neutral elements, fractions and negations."""
        def atom(d):
            m = r.randrange(9)
            if m == 0: return ('c', 0)
            if m == 1: return ('c', r.choice((1, 1, -1)))
            if m == 2: return gconst(r)
            if m == 3: return ('v', r.randrange(nv))
            if m == 4: return ('-', ('c', 0), atom(d - 1) if d > 0 else ('v', r.randrange(nv)))
            if m == 5: return ('/', ('c', 1), atom(d - 1) if d > 0 else ('v', r.randrange(nv)))
            if m == 6: return ('/', gconst(r), gconst(r))
            if m == 7: return ('/', gconst(r), atom(d - 1) if d > 0 else ('v', r.randrange(nv)))
            return (r.choice('+-*/'), atom(d - 1), atom(d - 1)) if d > 0 else ('v', r.randrange(nv))
        e = (r.choice('+-*/'), atom(1), atom(1))
        for _ in range(more):
            e = (r.choice('+-*/'), e, atom(1)) if r.random() < 0.5 else (r.choice('+-*/'), atom(1), e)
        return e
    def valid(self, case):
        e, = case
        return size(e) <= 41 and bound(e) <= self.limit and not zero_denominator(e) and defined_somewhere(e, case)
    def emit(self, case):
        e, = case
        s = 'typedef %s T; typedef vm::result_of::simplify<T>::type R; type_<R>(I, "s"); type_<vm::result_of::simplify<R>::type>(I, "ss");' % tname(e)
        return s
    def judge(self, case, out):
        e, = case; s = parse(get(out, 's'))
        m = compare(e, s, case, 'the simplified expression')
        if m: return m
        n = canonical_violation(s)
        if n: return 'simplified to %s, which still contains %s' % (infix(s), infix(n))
        if get(out, 'ss') != get(out, 's'): return 'simplified to %s, simplified again to %s' % (infix(s), infix(parse(get(out, 'ss'))))
        return None


# ------------------------------------------------------------------------------------------------ C21
def msubst(e, s, rpl):
    if e == s: return rpl
    return rebuild(e, tuple(msubst(k, s, rpl) for k in kids(e)))


class C21(Prop):
    id = 'C21'; batch = 150
    rule = 'a case is an expression, a searched item and its replacement; non-trivial: at least 3 leaves and the item occurs'
    def gen(self, r):
        nv = r.choice((1, 2, 3, 4))
        e = gexpr(r, gsize(r, 14), nv, '+-*/', r.choice((0.2, 0.5)), 0, True)
        m = r.random()
        if m < 0.55: s = ('v', r.randrange(nv))
        elif m < 0.8: s = r.choice(list(nodes(e)))
        else: s = gexpr(r, r.choice((1, 1, 2)), nv, '+-*/', 0.4, 0, True)
        rpl = gexpr(r, gsize(r, 5), nv + 1, '+-*/', 0.4, 0, True)
        if r.random() < 0.1: rpl = s
        ids = numbering(r, nv + 1)
        return tuple(renumber(x, ids) for x in (e, s, rpl))
    def valid(self, case): return size(case[0]) <= 40 and size(case[2]) <= 15
    def emit(self, case):
        e, s, rpl = case
        # compile-time functions of an argument exist as types only, no object of them can be made
        return 'typedef %s T; typedef %s Se; typedef %s Re; type_<vm::result_of::substitute<Se, Re, T>::type>(I, "s");' % tuple(map(tname, (e, s, rpl))) + (
            '' if self.fun(case) else ' type_of(I, "f", vm::substitute(Se(), Re(), T()));')
    def fun(self, case): return any(n[0] == 'f' for x in case for n in nodes(x))
    def judge(self, case, out):
        e, s, rpl = case; want = msubst(e, s, rpl)
        for tag in 's' if self.fun(case) else 'sf':
            res = parse(get(out, tag))
            if res == want: continue
            for p in points(case):
                a, b = tryev(want, p), tryev(res, p)
                if a != b: return '%s := %s gives %s, expected %s' % (infix(s), infix(rpl), infix(res), infix(want))
        return None
    def nontrivial(self, case): return size(case[0]) >= 5 and case[1] in nodes(case[0])
    def labels(self, case):
        yield 'searched: ' + {'c': 'constant', 'v': 'variable', 'u': 'function symbol', 't': 'function symbol', 'f': 'function'}.get(case[1][0], 'binary')
        n = sum(x == case[1] for x in nodes(case[0])); yield 'occurrences: ' + ('3+' if n > 2 else str(n))
    def desc(self, case): return '%s with %s := %s' % tuple(map(infix, case))


# ------------------------------------------------------------------------------------------------ C22
def taylor(e, pt, var, order):
    """Taylor coefficients of e at pt in direction of var up to the given order."""
    k = e[0]; n = order + 1
    if k == 'c': return [Fr(e[1])] + [Fr(0)] * order
    if k == 'v':
        a = [pt[e[1]]] + [Fr(0)] * order
        if e[1] == var and order: a[1] = Fr(1)
        return a
    a = taylor(e[1], pt, var, order); b = taylor(e[2], pt, var, order)
    if k == '+': return [x + y for x, y in zip(a, b)]
    if k == '-': return [x - y for x, y in zip(a, b)]
    if k == '*': return [sum(a[i] * b[j - i] for i in range(j + 1)) for j in range(n)]
    if b[0] == 0: raise Undef()
    q = []
    for j in range(n): q.append((a[j] - sum(q[i] * b[j - i] for i in range(j))) / b[0])
    return q


def cmp_derivs(e, var, out, tags, case):
    for order, tag in tags:
        res = parse(get(out, tag)); f = 1
        for i in range(2, order + 1): f *= i
        for p in points(case):
            try: w = taylor(e, p, var, order)[order] * f
            except Undef: continue
            g = tryev(res, p)
            if g != w:
                return 'derivative %s (order %d) is %s with the value %s at %s, expected %s' % (tag, order, infix(res)[:300], g, ', '.join('x%d=%s' % (v, p[v]) for v in sorted(variables(e))), w)
    return None


class C22(Prop):
    id = 'C22'; batch = 60
    rule = 'a case is an expression, a variable and an order; non-trivial: at least 3 leaves and the variable occurs'
    def gen(self, r):
        nv = r.choice((1, 2, 3)); order = r.choice((1, 1, 1, 2, 2, 3))
        e = gexpr(r, gsize(r, {1: 16, 2: 8, 3: 5}[order]), nv, r.choice(('+-*/', '+-*', '*/', '/-')), r.choice((0.15, 0.4)))
        ids = numbering(r, nv + 1)
        return (renumber(e, ids), ids[r.randrange(nv + 1) if r.random() < 0.2 else r.randrange(nv)], order)
    def valid(self, case):
        e, var, order = case
        return order >= 1 and size(e) <= (41, 21, 13)[order - 1] and not zero_denominator(e) and bound(e) ** (1 << order) <= 2 ** 60
    def emit(self, case):
        e, var, order = case
        s = 'typedef %s T0; typedef W<%d> X;' % (tname(e), var)
        for i in range(1, order + 1): s += ' typedef vm::result_of::diff<T%d, X>::result_type T%d; type_<T%d>(I, "d%d");' % (i - 1, i, i, i)
        s += ' type_of(I, "f", vm::diff(T0(), X())); type_<vm::result_of::simplify<T%d>::type>(I, "s");' % order
        return s
    def judge(self, case, out):
        e, var, order = case
        return cmp_derivs(e, var, out, [(i, 'd%d' % i) for i in range(1, order + 1)] + [(1, 'f'), (order, 's')], case)
    def nontrivial(self, case): return size(case[0]) >= 5 and case[1] in variables(case[0])
    def labels(self, case):
        for l in Prop.labels(self, case): yield l
        yield 'order %d' % case[2]
    def desc(self, case): return 'd^%d/dx%d^%d of %s' % (case[2], case[1], case[2], infix(case[0]))
    def shrink(self, case):
        for c in Prop.shrink(self, case):
            if c[2] >= 1: yield c


# ------------------------------------------------------------------------------------------------ C23
def has_sum(e):
    if e[0] in '+-': return True
    if e[0] == '*': return has_sum(e[1]) or has_sum(e[2])
    if e[0] == '/': return has_sum(e[1])
    return False


def expanded_size(e):
    """Number of terms after expansion."""
    if e[0] in '+-': return expanded_size(e[1]) + expanded_size(e[2])
    if e[0] == '*': return expanded_size(e[1]) * expanded_size(e[2])
    if e[0] == '/': return expanded_size(e[1])
    return 1


def gdenom(r, nested=True):
    """A constant other than zero."""
    if nested and r.random() < 0.25:
        while True:
            d = (r.choice('+-*/'), gdenom(r, False), gdenom(r, False))
            if tryev(d, ()) not in (None, 0): return d
    return ('c', r.choice((1, 2, 3, 4, -1, -2, 6)))


def symbolize(r, e, rate=0.15):
    """Some variables become function symbols."""
    vs = sorted(variables(e))
    if r.random() < rate:
        for v in r.sample(vs, r.randint(1, len(vs)) if vs else 0): e = msubst(e, ('v', v), (r.choice('ut'), gsym(r)))
    return e


def gpoly(r, n, nv, pc, denoms, dvars=None):
    """Polynomial; denominators are constants (denoms=1) or expressions in dvars (denoms=2)."""
    if n <= 1:
        if r.random() < pc: return ('c', r.choice((0, 1, 1, 2, 2, 3, -1, -2, 4, 5, 6, -7)))
        return ('v', r.randrange(nv))
    if denoms and r.random() < 0.12:
        if denoms == 2 and dvars and r.random() < 0.5:
            d = gexpr(r, r.choice((1, 1, 2)), 1, '+-*', 0.3)
            d = msubst(d, ('v', 0), ('v', r.choice(dvars)))
        else: d = gdenom(r)
        return ('/', gpoly(r, n - 1, nv, pc, denoms, dvars), d)
    k = r.randint(1, n - 1)
    return (r.choice('+-**' if n > 2 else '+-*'), gpoly(r, k, nv, pc, denoms, dvars), gpoly(r, n - k, nv, pc, denoms, dvars))


class C23(Prop):
    id = 'C23'; batch = 60
    rule = 'a case is a polynomial type; non-trivial: it contains a product with a sum as factor'
    def gen(self, r):
        nv = r.choice((1, 2, 3))
        return (symbolize(r, renumber(gpoly(r, gsize(r, 12), nv, r.choice((0.1, 0.3, 0.5)), r.choice((0, 1, 1))), numbering(r, nv))),)
    def valid(self, case):
        e, = case
        return size(e) <= 31 and expanded_size(e) <= 48 and not zero_denominator(e)
    def emit(self, case):
        return 'typedef %s T; type_<vm::result_of::expand<T>::type>(I, "x"); type_of(I, "f", vm::expand(T()));' % tname(case[0])
    def judge(self, case, out):
        e, = case
        for tag in 'xf':
            s = parse(get(out, tag))
            m = compare(e, s, case, 'the expanded expression')
            if m: return m
            for n in nodes(s):
                if n[0] == '*' and (has_sum(n[1]) or has_sum(n[2])): return 'expanded to %s, which still contains the product %s' % (infix(s), infix(n))
        return None
    def nontrivial(self, case): return any(n[0] == '*' and (has_sum(n[1]) or has_sum(n[2])) for n in nodes(case[0]))


# ------------------------------------------------------------------------------------------------ C24
class C24(Prop):
    id = 'C24'; batch = 40
    rule = 'a case is an expression polynomial in the variable, and the variable; non-trivial: at least 3 leaves and the variable occurs'
    def gen(self, r):
        nv = r.choice((1, 2, 3)); var = r.randrange(nv) if r.random() < 0.9 else nv
        den = [v for v in range(nv) if v != var]
        e = gpoly(r, gsize(r, 10), nv, r.choice((0.1, 0.3, 0.5)), r.choice((0, 1, 2)), den)
        ids = numbering(r, nv + 1)
        e = renumber(e, ids); var = ids[var]
        if r.random() < 0.3:               # a function symbol is searched, or there are others
            x = (r.choice('ut'), gsym(r))
            if r.random() < 0.7: e = msubst(e, ('v', var), x); var = x
            for v in sorted(variables(e)):
                if v != var and r.random() < 0.4:
                    y = r.choice(((x[0], x[1] + r.choice((1, 8, 256))), ({'u': 't', 't': 'u'}[x[0]], x[1]), (r.choice('ut'), gsym(r))))
                    if y != x or v != var: e = msubst(e, ('v', v), y)
        return (e, var)
    FRESH = 5000000
    def fresh(self, e, var): return e if isinstance(var, int) else msubst(e, var, ('v', self.FRESH))
    def valid(self, case):
        e, var = case
        e = self.fresh(e, var)
        if not isinstance(var, int): var = self.FRESH
        if size(e) > 27 or expanded_size(e) > 30 or zero_denominator(e): return False
        return not any(n[0] == '/' and var in variables(n[2]) for n in nodes(e)) and bound(e) ** 3 < 2 ** 60
    def emit(self, case):
        e, var = case
        return ('typedef %s T; typedef %s X; type_<vm::result_of::coefficient<X, T>::type>(I, "c"); type_of(I, "cf", vm::coefficient(X(), T()));'
                ' type_<vm::result_of::drop_dependent_terms<X, T>::type>(I, "d"); type_of(I, "df", vm::drop_dependent_terms(X(), T()));') % (tname(e), tname(('v', var) if isinstance(var, int) else var))
    def judge(self, case, out):
        e, var = case; sym = var
        if not isinstance(var, int): e = self.fresh(e, var); var = self.FRESH
        x = ('v', var)
        for a, b in (('c', 'd'), ('cf', 'df')):
            c = self.fresh(parse(get(out, a)), sym); d = self.fresh(parse(get(out, b)), sym)
            if var in variables(d):
                # a variable that is left must have no influence
                for p in points(case):
                    q = p.moved(var, 1)
                    if tryev(d, p) != tryev(d, q): return 'the remainder %s depends on x%d' % (infix(d), var)
            m = compare(msubst(e, x, ('c', 0)), d, case, 'the remainder')
            if m: return m
            m = compare(e, ('+', ('*', x, c), d), case, 'x%d times the coefficient plus the remainder,' % var)
            if m: return m
        return None
    def nontrivial(self, case): return size(case[0]) >= 5 and self.item(case) in nodes(case[0])
    def item(self, case): return ('v', case[1]) if isinstance(case[1], int) else case[1]
    def desc(self, case): return '%s in %s' % (infix(self.item(case)), infix(case[0]))


# ------------------------------------------------------------------------------------------------ C25
def mpoly(e):
    """Polynomial as {exponents (sorted tuple of (var, power)): coefficient}; denominators must be constant."""
    k = e[0]
    if k == 'c': return {(): Fr(e[1])} if e[1] else {}
    if k == 'v': return {((e[1], 1),): Fr(1)}
    a = mpoly(e[1]); b = mpoly(e[2])
    if k in '+-':
        r = dict(a)
        for m, c in b.items(): r[m] = r.get(m, 0) + (c if k == '+' else -c)
        return r
    if k == '*':
        r = {}
        for m, c in a.items():
            for n, d in b.items():
                w = dict(m)
                for v, q in n: w[v] = w.get(v, 0) + q
                w = tuple(sorted(w.items())); r[w] = r.get(w, 0) + c * d
        return r
    return {m: c / b[()] for m, c in a.items()}


def integral_at(steps, e, pt):
    """Value of the iterated integral at pt; steps from inner to outer: (lo, hi, var)."""
    poly = mpoly(e); 
    def padd(r, m, c): r[m] = r.get(m, 0) + c
    def pmul(a, b):
        r = {}
        for m, c in a.items():
            for n, d in b.items():
                w = dict(m)
                for v, q in n: w[v] = w.get(v, 0) + q
                padd(r, tuple(sorted(w.items())), c * d)
        return r
    for lo, hi, var in steps:
        L, H = mpoly(lo), mpoly(hi); res = {}
        powers = {'L': [{(): Fr(1)}], 'H': [{(): Fr(1)}]}
        for m, c in poly.items():
            d = dict(m); k = d.pop(var, 0) + 1; rest = {tuple(sorted(d.items())): c / k}
            for name, b in (('L', L), ('H', H)):
                while len(powers[name]) <= k: powers[name].append(pmul(powers[name][-1], b))
            for mm, cc in pmul(rest, powers['H'][k]).items(): padd(res, mm, cc)
            for mm, cc in pmul(rest, powers['L'][k]).items(): padd(res, mm, -cc)
        poly = res
    s = Fr(0)
    for m, c in poly.items():
        for v, q in m: c *= pt[v] ** q
        s += c
    return s


def degree(e, v=None):
    if e[0] == 'c': return 0
    if e[0] == 'v': return int(v is None or e[1] == v)
    if e[0] == '*': return degree(e[1], v) + degree(e[2], v)
    if e[0] == '/': return degree(e[1], v)
    return max(degree(e[1], v), degree(e[2], v))


class C25(Prop):
    id = 'C25'; batch = 25
    rule = 'a case is a polynomial and one or two integrations (bounds, variable); non-trivial: at least 3 leaves and the first variable occurs'
    def gen(self, r):
        nv = r.choice((1, 2, 3))
        e = gpoly(r, gsize(r, 8), nv, r.choice((0.1, 0.3, 0.5)), r.choice((0, 0, 1)))
        var = r.randrange(nv) if r.random() < 0.9 else nv
        steps = [self.step(r, nv, var)]
        if r.random() < 0.3: steps.append(self.step(r, nv, r.choice([v for v in range(nv + 1) if v != var])))
        ids = numbering(r, nv + 1)
        return (renumber(e, ids), tuple((renumber(l, ids), renumber(h, ids), ids[v]) for l, h, v in steps))
    def step(self, r, nv, var):
        def b():
            m = r.random()
            if m < 0.55: return ('c', r.choice((0, 0, 1, 1, 2, -1, -2, 3, 4, 5)))
            others = [v for v in range(nv + 1) if v != var]
            v = ('v', r.choice(others))
            if m < 0.8: return v
            return (r.choice('+-*'), v, ('c', r.choice((1, 2, -1)))) if r.random() < 0.6 else ('/', ('c', r.choice((1, -1, 3))), ('c', r.choice((2, 3, 4))))
        lo, hi = b(), b()
        if r.random() < 0.35:              # related bounds
            k = ('c', r.choice((1, 2, -1)))
            hi = r.choice((lambda: lo, lambda: ('-', ('c', 0), lo), lambda: ('*', ('c', -1), lo), lambda: ('+', lo, k), lambda: ('-', k, lo), lambda: ('*', k, lo), lambda: ('c', -lo[1]) if lo[0] == 'c' else lo))()
            if r.random() < 0.5: lo, hi = hi, lo
        return (lo, hi, var)
    def valid(self, case):
        e, steps = case
        if size(e) > 19 or expanded_size(e) > 12 or degree(e) > 5 or not steps: return False
        if zero_denominator(e) or any(variables(n[2]) for n in nodes(e) if n[0] == '/'): return False
        big = bound(e)
        for lo, hi, var in steps:
            if var in variables(lo) | variables(hi) or zero_denominator(lo) or zero_denominator(hi): return False
            big *= (bound(lo) * bound(hi)) ** 2
        if len(steps) == 2 and (expanded_size(e) > 4 or degree(e) > 3 or size(e) > 11): return False
        return big < 2 ** 24
    def emit(self, case):
        e, steps = case
        s = 'typedef %s T0;' % tname(e)
        for i, (lo, hi, var) in enumerate(steps):
            s += ' typedef vm::result_of::integrate<%s, %s, T%d, W<%d> >::type T%d; type_<T%d>(I, "i%d");' % (tname(lo), tname(hi), i, var, i + 1, i + 1, i)
            s += ' type_of(I, "f%d", vm::integrate(vm::ct_interval<%s, %s>(), T%d(), W<%d>()));' % (i, tname(lo), tname(hi), i, var)
        return s
    def judge(self, case, out):
        e, steps = case
        for i in range(len(steps)):
            for tag in ('i%d' % i, 'f%d' % i):
                res = parse(get(out, tag))
                for p in points(case, n=5):
                    w = integral_at(steps[:i + 1], e, p); g = tryev(res, p)
                    if g != w: return 'the integral (%s) is %s with the value %s at %s, expected %s' % (tag, infix(res)[:300], g, ', '.join('x%d=%s' % (v, p[v]) for v in sorted(variables(e))), w)
        return None
    def nontrivial(self, case): return size(case[0]) >= 5 and case[1][0][2] in variables(case[0])
    def size(self, case): return weight(case[0]) + sum(400 + weight(l) + weight(h) + v for l, h, v in case[1])
    def labels(self, case):
        for l in Prop.labels(self, case): yield l
        yield 'integrations: %d' % len(case[1])
        if any(variables(l) | variables(h) for l, h, v in case[1]): yield 'bounds with variables'
    def shrink(self, case):
        e, st = case
        for s in shrink_expr(e): yield (s, st)
        if len(st) > 1: yield (e, st[:1])
        for i, (l, h, v) in enumerate(st):
            for s in shrink_expr(l): yield (e, st[:i] + ((s, h, v),) + st[i + 1:])
            for s in shrink_expr(h): yield (e, st[:i] + ((l, s, v),) + st[i + 1:])
            for w in {0, 1, 2, 3, v - 1}:
                if 0 <= w < v: yield (e, st[:i] + ((l, h, w),) + st[i + 1:])
    def desc(self, case): return 'integral of %s %s' % (infix(case[0]), ', then '.join('over x%d from %s to %s' % (v, infix(l), infix(h)) for l, h, v in case[1]))


# ------------------------------------------------------------------------------------------------ C26
import math, struct
CFUN = ('sin', 'cos', 'exp', 'fabs', 'sqrt', 'log', 'log10', 'tan')
CK = ('dl', 'il', 'rc', 'lc', 'cc', 'fc', 'ic', 'fl')
REALK = ('dl', 'rc', 'fc', 'fl'); SINGLE = ('fc', 'fl'); FEPS = Fr(1, 2 ** 22)
LIT = ('dl', 'il', 'fl')                 # C++ literals: an operator needs a library object on the other side
CTK = ('cv', 'cc')
DVALS = ('0.5', '2.5', '-1.25', '3.0', '1.0', '0.0', '-2.0', '0.25', '7.0', '1024.0', '0.1', '-3.7', '100.001', '16777217.0', '1e-5')
def single(x): return struct.unpack('f', struct.pack('f', float(x)))[0]


class C26(Prop):
    id = 'C26'; batch = 12; san = True
    rule = 'a case is one program of mixed operands; non-trivial: operands of at least 3 kinds, among them a variable'
    KINDS = ('dl', 'il', 'rc', 'lc', 'rv', 'rv', 'cv', 'cv', 'cc') * 4 + ('fc', 'ic', 'fl') * 2
    def leaf(self, r, lit=True):
        k = r.choice(self.KINDS)
        while k in LIT and not lit: k = r.choice(self.KINDS)
        if k in REALK: return (k, r.choice(DVALS))
        if k in ('il', 'lc', 'cc', 'ic'): return (k, r.choice((0, 1, 1, 2, 2, 3, -1, -2, 5, 10, 16, 17, -20, 33, 100, 128, -257, 1000, 4097)))
        return (k, r.randrange(3))
    def const(self, r):
        while True:
            x = self.leaf(r)
            if x[0] in CK: return x
    def exhaustive(self):
        """Two constants of any kinds and a variable in all arrangements, and two operations on the same two operands."""
        r = random.Random('C26 exhaustive/%d' % SEED); pts = lambda: (tuple(r.choice((3, 0.5, -1.5, 7, 10, -6)) for _ in range(3)),)
        def const(k): return (k, r.choice(DVALS) if k in REALK else r.choice((17, 20, -23, 33, 61, 128, -257, 1000, 2, 3, -1)))
        n = 0
        args = [('rc', '2.5'), ('lc', 3), ('rv', 0), ('cv', 0), ('cv', 1), ('cc', 5), ('E', ('rv', 1)), ('E', ('dl', '3.0'))]
        args += [(o, a, b) for o in '+-*/' for a, b in ((('cv', 0), ('cc', 2)), (('cc', 20), ('cv', 1)), (('cv', 0), ('cv', 1)), (('rv', 0), ('cc', 2)), (('cv', 2), ('rc', '0.25')), (('rc', '7.0'), ('cc', 3)), (('rv', 2), ('dl', '0.5')), (('E', ('rv', 1)), ('cv', 0)), (('fn', 'fabs', ('cv', 0)), ('cc', 2)))]
        for f in sorted(set(CFUN)):
            for a in args:
                for e in (('fn', f, a), ('fn', 'fabs', ('fn', f, a)), ('*', ('cv', 2), ('fn', f, a))): n += 1; yield (e, 4 + n % 2, ((3, 10, 7),))
        for p in '+-*/':
            for q in '+-*/':
                for k in CK:
                    for l in CK:
                        if k in CK[5:] and l in CK[5:] and k != l: continue
                        for x in (('cv', 0), ('rv', 1)):
                            if x[0] == 'rv' and (k in CK[5:] or l in CK[5:]) and r.random() < 0.8: continue
                            c, d = const(k), const(l); n += 1
                            for i, e in enumerate(((p, c, (q, d, x)), (p, c, (q, x, d)), (p, (q, d, x), c), (p, (q, x, d), c))): yield (e, 4 + (n + i) % 2, pts())
                for a in (('cv', 0), ('rv', 0), ('rc', '2.5'), ('cc', 3), ('lc', 19)):
                    for b in (('cv', 1), ('rv', 1), ('cv', 0), ('cc', 20)):
                        for e in ((p, (q, a, b), a), (p, (q, b, a), a), (p, a, (q, a, b)), (p, a, (q, b, a)), (p, (q, a, b), (q, b, a)), (p, (q, a, b), (q, a, b))): n += 1; yield (e, 4 + n % 2, pts())
    def special(self, r):
        """The shapes with special operators: constants of all kinds next to sums and products with constants, equal operands."""
        o = lambda: r.choice('++--*/')
        x = lambda: self.tree(r, r.choice((1, 1, 1, 2)), False)
        c = lambda: self.const(r)
        def inner():
            a, b = c(), x()
            return (o(), a, b) if r.random() < 0.75 or a[0] in LIT and b[0] in LIT else (o(), b, a)
        m = r.randrange(10)
        if m < 2: e = (o(), c(), inner())
        elif m < 4: e = (o(), inner(), c())
        elif m == 4: e = (o(), inner(), inner())
        elif m == 5:
            a = x(); e = (o(), a, a)
        elif m == 6:
            a, b = x(), x(); e = (o(), (o(), a, b), r.choice((a, b)))
        elif m >= 8:
            a, b, d = x(), x(), x(); l, k = r.choice((a, b, d)), r.choice((a, b)); p = (o(), a, b)
            if r.random() < 0.5: l, k = k, l
            q = (p[0] if r.random() < 0.5 else o(), l, k); e = (o(), p, q)
        else:
            a, b = x(), x(); e = (o(), r.choice((a, b)), (o(), a, b))
        if r.random() < 0.25: e = (o(), e, x()) if r.random() < 0.5 else (o(), c(), e)
        return e
    def tree(self, r, n, lit=True):
        if n <= 1:
            return self.leaf(r, lit)
        m = r.random()
        if m < 0.08: return ('E', self.tree(r, n, True))
        if m < 0.16: return ('fn', r.choice(CFUN), self.tree(r, n if r.random() < 0.5 else n - 1, True))
        k = r.randint(1, n - 1) if r.random() < 0.6 else r.choice((1, n - 1))
        a = self.tree(r, k, True); b = self.tree(r, n - k, a[0] not in LIT)
        return (r.choice('+-*/'), a, b)
    def gen(self, r):
        n = r.choice((1, 2, 2, 3, 3, 4, 4, 5, 6, 8))
        e = self.tree(r, n, n > 1 or r.random() < 0.3)
        if r.random() < 0.45: e = self.special(r)
        if e[0] in LIT: e = ('E', e if e != ('il', 0) else ('dl', '0.0'))
        pts = tuple(tuple(r.choice((0, 1, -1, 0.5, 2, -1.5, 3, 4, -6, 10)) for _ in range(3)) for _ in range(2))
        if r.random() < 0.5: return (e if r.random() < 0.3 or e[0] == 'E' else self.special(r), r.randrange(4, 6), pts[:1])      # a cheaper program
        return (e, r.randrange(4), pts)
    def cost(self, case): return 0.3 if case[1] > 3 else 1
    def sub(self, e): return [x for x in e[1:] if isinstance(x, tuple)]
    def all(self, e):
        yield e
        for c in self.sub(e):
            for n in self.all(c): yield n
    def count(self, e): return sum(1 for _ in self.all(e))
    def valid(self, case):
        e, mode, pts = case
        if e[0] in LIT: return False
        for n in self.all(e):
            if n[0] in '+-*/' and n[1][0] in LIT and n[2][0] in LIT: return False
            if n[0] in ('E', 'fn') and n[-1] == ('il', 0): return False      # a literal zero is also a null pointer in C++
        big = 1
        for n in self.all(e):
            if n[0] in ('il', 'lc', 'cc', 'ic'): big *= abs(n[1]) + 1
        return big < 2 ** 31 and self.count(e) <= 24 and any(self.try_value(e, p) is not None for p in pts)
    def value(self, e, p):
        k = e[0]
        if k in CK:                # constants may be combined with each other, in single precision if there is such a constant
            v = Fr(single(e[1])) if k in SINGLE else Fr(float(e[1])) if k in REALK else Fr(e[1])
            return v, abs(v) * self.eps
        if k in ('rv', 'cv'): return Fr(p[e[1]]), Fr(0)
        if k == 'E': return self.value(e[1], p)
        if k == 'fn':
            a, d = self.value(e[2], p)
            if e[1] == 'fabs': return abs(a), d
            if abs(a) > 300 or d > Fr(1, 1000): raise Undef()
            if e[1] in ('log', 'log10', 'sqrt') and a <= 4 * d + Fr(1, 10 ** 6): raise Undef()
            if e[1] == 'tan' and abs(math.cos(float(a))) < 0.05: raise Undef()
            v = Fr(getattr(math, e[1])(float(a))); x = d + abs(a) * EPS
            if e[1] == 'exp': d = x * v * 2
            elif e[1] in ('log', 'log10'): d = x / a * 2
            elif e[1] == 'sqrt': d = x / v
            elif e[1] == 'tan': d = x * (1 + v * v) * 3
            else: d = x
            return v, rnd(d + abs(v) * EPS * 4 + EPS * Fr(1, 1024))
        a, da = self.value(e[1], p); b, db = self.value(e[2], p)
        if k in '+-': v = a + b if k == '+' else a - b; d = da + db
        elif k == '*': v = a * b; d = abs(a) * db + abs(b) * da + da * db
        else:
            if b == 0 or abs(b) <= 2 * db: raise Undef()
            v = a / b; d = (da + abs(v) * db) / (abs(b) - db)
        if abs(v) > 10 ** 200: raise Undef()
        return Fr(v), rnd(d + abs(v) * self.eps)
    eps = EPS
    def try_value(self, e, p):
        self.eps = FEPS if any(n[0] in SINGLE for n in self.all(e)) else EPS
        try: return self.value(e, p)
        except (Undef, OverflowError): return None
    def cpp(self, e):
        k = e[0]
        if k == 'dl': return '(%s)' % e[1]
        if k == 'il': return '(%d)' % e[1]
        if k == 'rc': return 'RC(%s)' % e[1]
        if k == 'lc': return 'LC(%d)' % e[1]
        if k == 'ic': return 'IC(%d)' % e[1]
        if k == 'fc': return 'FC(%sf)' % e[1]
        if k == 'fl': return '(%sf)' % e[1]
        if k == 'rv': return 'V(%d)' % e[1]
        if k == 'cv': return 'W<%d>()' % e[1]
        if k == 'cc': return 'K<%d>()' % e[1]
        if k == 'E': return 'E(%s)' % self.cpp(e[1])
        if k == 'fn': return ('vm::%s(E(%s))' if e[2][0] in LIT else 'raw_%s(%s)') % (e[1], self.cpp(e[2]))
        return '(%s %s %s)' % (self.cpp(e[1]), k, self.cpp(e[2]))
    def stmts(self, e, L):
        """One named object per node."""
        k = e[0]
        if k in LIT: return self.cpp(e)
        if k == 'E': t = 'E(%s)' % self.stmts(e[1], L)
        elif k == 'fn': t = ('vm::%s(E(%s))' if e[2][0] in LIT else 'raw_%s(%s)') % (e[1], self.stmts(e[2], L))
        elif k in '+-*/': a = self.stmts(e[1], L); b = self.stmts(e[2], L); t = '%s %s %s' % (a, k, b)
        else: t = self.cpp(e)
        n = 'n%d' % len(L); L.append('auto %s = %s;' % (n, t)); return n
    def emit(self, case):
        e, mode, pts = case; L = []
        if mode & 1: L.append('auto a = %s;' % self.stmts(e, L))
        else: L.append('auto a = %s;' % self.cpp(e))
        if mode & 4:
            L.append('E x = E(a); std::vector<double> p = { %s }; val(I, "a0", vm::eval(a, p)); val(I, "x0", x(p)); val(I, "s0", stored(a)(p)); val(I, "t0", stored2(a)(p));' % ', '.join(repr(float(t)) for t in pts[0])); return ' '.join(L)
        if mode & 2: L.append('E x; x = a; E y(V(1)); y = E(a);')
        else: L.append('E x = E(a), y(x);')
        for i, p in enumerate(pts):
            L.append('{ std::vector<double> p = { %s };' % ', '.join(repr(float(t)) for t in p))
            L.append('val(I, "a%d", vm::eval(a, p)); val(I, "x%d", vm::eval(x, p)); val(I, "y%d", y(p)); auto cp = vm::make_vector(p[0], p[1], p[2]);' % (i, i, i))
            L.append('val(I, "b%d", route(a, cp)); val(I, "z%d", vm::eval(x, cp)); }' % (i, i))
        return ' '.join(L)
    def judge(self, case, out):
        e, mode, pts = case
        for i, p in enumerate(pts):
            w = self.try_value(e, p)
            if w is None: continue
            v, d = w
            for t in 'axst' if mode & 4 else 'axybz':
                g = float(get(out, t + str(i)))
                if not isfinite(g) or abs(Fr(g) - v) > 8 * d + abs(v) * self.eps: return 'evaluation %s at %s gives %r, expected %s' % ({'a': 'of the result', 'x': 'as runtime expression', 'y': 'of a copy', 's': 'of the stored result', 't': 'of the result stored twice', 'b': 'of the result at a compile-time vector', 'z': 'as runtime expression at a compile-time vector'}[t], p, g, v if v.denominator < 10 ** 6 else float(v))
        return None
    def nontrivial(self, case):
        ks = {n[0] for n in self.all(case[0])}
        return len(ks & {'dl', 'il', 'rc', 'lc', 'ic', 'fc', 'fl', 'rv', 'cv', 'cc', 'E', 'fn'}) >= 3 and bool(ks & {'rv', 'cv'})
    def labels(self, case):
        for n in self.all(case[0]):
            if n[0] in '+-*/': yield '%s %s %s' % tuple('op' if x in '+-*/' else x for x in (n[1][0], '*', n[2][0]))
    def size(self, case):
        e, mode, pts = case
        return sum(100 + (1 if n[0] in ('rv', 'cv') else 2) + len(str(n[1])) for n in self.all(e)) + 10 * mode + 50 * len(pts) + int(sum(abs(x) for p in pts for x in p))
    def shrink(self, case):
        e, mode, pts = case
        def rec(e):
            for c in self.sub(e): yield c
            if e[0] in REALK:
                for v in ('1.0', '2.5'):
                    if v != e[1]: yield (e[0], v)
            elif e[0] in ('il', 'lc', 'cc', 'ic'):
                for v in (1, 2):
                    if v != e[1]: yield (e[0], v)
            elif e[0] in ('rv', 'cv'):
                if e[1]: yield (e[0], 0)
            else: yield ('rv', 0)
            for i, c in enumerate(e):
                if isinstance(c, tuple):
                    for s in rec(c): yield e[:i] + (s,) + e[i + 1:]
        for s in rec(e): yield (s, mode, pts)
        for m in (0, 1, 2):
            if m < mode and (mode < 4 or m < 2): yield (e, m, pts)
        for i in range(len(pts)):
            if len(pts) > 1: yield (e, mode, pts[:i] + pts[i + 1:])
            for j in range(3):
                for w in (1, 2):
                    if pts[i][j] != w: yield (e, mode, pts[:i] + (pts[i][:j] + (w,) + pts[i][j + 1:],) + pts[i + 1:])
    def desc(self, case): return '%s at %s (mode %d)' % (self.cpp(case[0]), case[2], case[1])



# ------------------------------------------------------------------------------------------------ C28
class TextReader:
    """The stream output of compile-time objects."""
    import re as _re
    TOK = _re.compile(r'\s*(ct_constant<\s*-?\d+\s*>|ct_variable<\s*\d+\s*>|unknown\[\s*\d+\s*\]|test\[\s*\d+\s*\]|vector<|ct_interval\(|ct_equation\(|[-+*/\[\]<>(),=])')
    def __init__(self, text):
        self.t = []; self.text = text; i = 0; text = text.rstrip()
        while i < len(text):
            m = self.TOK.match(text, i)
            if not m: raise Bad('unreadable output %r' % text[:300])
            self.t.append(m.group(1)); i = m.end()
        self.i = 0
    def next(self, want=None):
        x = self.t[self.i] if self.i < len(self.t) else ''
        self.i += 1
        if want is not None and x != want: raise Bad('output %r: %r where %r is expected' % (self.text[:300], x, want))
        return x
    def expr(self):
        x = self.next()
        n = lambda: int(self._re.search(r'-?\d+', x).group(0))
        for pre, k in (('ct_constant<', 'c'), ('ct_variable<', 'v'), ('unknown[', 'u'), ('test[', 't')):
            if x.startswith(pre): return (k, n())
        if x == '[':
            a = self.expr(); o = self.next(); b = self.expr(); self.next(']')
            if o not in OPN: raise Bad('output %r: %r where an operation is expected' % (self.text[:300], o))
            return (o, a, b)
        raise Bad('output %r: %r where an expression is expected' % (self.text[:300], x))
    def end(self):
        if self.i != len(self.t): raise Bad('output %r goes on after its end' % self.text[:300])
    def whole(self): e = self.expr(); self.end(); return e
    def seq(self, first, sep, last, n):
        self.next(first); out = []
        for k in range(n):
            if k: self.next(sep)
            out.append(self.expr())
        self.next(last); self.end(); return tuple(out)


class C28(Prop):
    id = 'C28'; batch = 40; san = True
    rule = 'a case is an expression, or the operands of a compile-time vector, interval or equation; non-trivial: at least 3 leaves in all'
    def gen(self, r):
        nv = r.choice((1, 3, 3, 12)); k = r.choice(('expr', 'expr', 'interval', 'equation', 'interval', 'equation', 'vector', 'numbers'))
        def x(n):
            if r.random() < 0.45: n = 1
            e = gexpr(r, gsize(r, n), nv, '+-*/', r.choice((0.3, 0.5)), 0.05, True)
            return self.plain(e)
        def large(e):
            if e[0] == 'c': return ('c', r.choice((2 ** 31, -2 ** 31, 2 ** 32, 5000000000, 2 ** 63 - 1, -2 ** 63 + 1, r.choice((1, -1)) * r.getrandbits(r.randint(20, 63)))))
            return rebuild(e, tuple(large(k) for k in kids(e)))
        ids = numbering(r, nv, 0.25); y = x; wide = k not in ('expr', 'numbers') and r.random() < 0.15
        x = lambda n: renumber(large(y(n)) if wide else y(n), ids)
        if k == 'expr': return (k, renumber(self.plain(gexpr(r, gsize(r, 12), nv, '+-*/', r.choice((0.3, 0.5)), 0.05, r.random() < 0.6)), ids))
        if k == 'vector': return (k,) + tuple(x(5) for _ in range(r.choice((1, 2, 3))))
        if k == 'numbers': return (k,) + tuple(('d', r.choice((r.randint(-50, 50), r.randint(-400, 400) / 8.0))) for _ in range(r.choice((1, 2, 3))))
        return (k, x(5), x(5))
    def exhaustive(self):
        """Every kind of object with every other."""
        r = random.Random('C28 exhaustive/%d' % SEED)
        def leafs():
            return [('c', r.choice((1, -1)) * (2 ** 32 + r.getrandbits(40))), ('c', r.choice((0, 3, -7))), ('v', r.choice((0, 1, 70000, 5000000000))), ('u', r.choice((0, 3, 4000000000))), ('t', r.choice((0, 2, 4000000000)))]
        for k in ('equation', 'interval', 'vector'):
            A = leafs(); B = leafs()
            A += [(r.choice('+-*/'), r.choice(A), r.choice(A)) for _ in range(2)]; B += [(r.choice('+-*/'), r.choice(B), r.choice(B)) for _ in range(2)]
            for a in A:
                for b in B:
                    yield (k, a, b)
                    if k == 'vector': yield (k, a, b, r.choice(A + B))
    def plain(self, e):
        if e[0] == 'f': return self.plain(e[2])
        return rebuild(e, tuple(self.plain(k) for k in kids(e)))
    def valid(self, case): return len(case) > 1 and all(e[0] == 'd' or size(e) <= 40 for e in case[1:]) and (len(case) == 3 or case[0] not in ('interval', 'equation'))
    def ops(self, case): return case[0] == 'expr' and case[1][0] in OPN and not any(n[0] in 'ut' for n in nodes(case[1])) and not zero_denominator(case[1])
    def emit(self, case):
        k = case[0]; L = []
        if k == 'numbers':
            n = len(case) - 1; v = [repr(e[1]) for e in case[1:]]
            L.append('auto v = vm::make_vector(%s); const auto w(v);' % ', '.join(v))
            L.append('{ auto other = vm::make_vector(%s); (void)other; }' % ', '.join('%d.25' % (7 + j) for j in range(n)))
            for j in range(n): L.append('val(I, "e%d", v[vm::ct_index<%d>()]); val(I, "w%d", w[vm::ct_index<%d>()]);' % (j, j, j, j))
            L.append('val(I, "size", double(w.size())); text(I, "v", v);')
            return ' '.join(L)
        for j, e in enumerate(case[1:]): L.append('typedef %s T%d; T%d t%d;' % (tname(e), j, j, j))
        if k == 'expr':
            L.append('text(I, "t", t0); const T0 c0(t0); text(I, "c", c0);')
            if self.ops(case): L.append('auto o = %s; type_of(I, "o", o); text(I, "ot", o);' % opname(case[1]))
        elif k == 'vector':
            n = len(case) - 1
            L.append('auto v = vm::make_vector(%s); const auto w(v); text(I, "v", v); text(I, "w", w); val(I, "size", double(v.size()));' % ', '.join('t%d' % j for j in range(n)))
            for j in range(n): L.append('text(I, "e%d", v[vm::ct_index<%d>()]);' % (j, j))
        else:
            L.append('text(I, "p", vm::make_%s(t0, t1)); text(I, "q", vm::ct_%s<T0, T1>()); auto p = vm::make_%s(T0(), T1()); printf("%%d same %%d\\n", I, int(std::is_same<decltype(p), vm::ct_%s<T0, T1> >::value));' % (k, k, k, k))
        return ' '.join(L)
    def judge(self, case, out):
        k = case[0]; want = tuple(case[1:]); R = lambda tag: TextReader(get(out, tag))
        if k == 'numbers':
            for j, e in enumerate(want):
                for t in 'ew':
                    if float(get(out, t + str(j))) != float(e[1]): return 'entry %d of the compile-time vector is %s instead of %s' % (j, get(out, t + str(j)), e[1])
            if float(get(out, 'size')) != len(want): return 'the size is %s instead of %d' % (get(out, 'size'), len(want))
            t = get(out, 'v').strip(); body = t[t.find('<') + 1:t.rfind('>')].split(',')
            try: ok = [float(x) for x in body] == [float('%.6g' % e[1]) for e in want]
            except ValueError: ok = False
            return None if ok and t.startswith('vector<') else 'the vector prints as %r' % t
        if k == 'expr':
            for t in 'tc':
                g = R(t).whole()
                if g != want[0]: return 'the output %r shows %s' % (get(out, t), infix(g))
            if self.ops(case):
                g = R('ot').whole()
                if g != parse(get(out, 'o')): return 'the output %r shows %s instead of %s' % (get(out, 'ot'), infix(g), infix(parse(get(out, 'o'))))
            return None
        if k == 'vector':
            for t in 'vw':
                if R(t).seq('vector<', ',', '>', len(want)) != want: return 'the vector prints as %r' % get(out, t)
            for j, e in enumerate(want):
                if R('e%d' % j).whole() != e: return 'entry %d of the vector is %s' % (j, get(out, 'e%d' % j))
            if float(get(out, 'size')) != len(want): return 'the size is %s instead of %d' % (get(out, 'size'), len(want))
            return None
        for t in 'pq':
            if R(t).seq('ct_%s(' % k, ',' if k == 'interval' else '=', ')', 2) != want: return 'the %s prints as %r' % (k, get(out, t))
        if get(out, 'same') != '1': return 'make_%s does not give the %s of its two arguments' % (k, k)
        return None
    def nontrivial(self, case): return case[0] == 'numbers' and len(case) > 2 or case[0] != 'numbers' and sum((size(e) + 1) // 2 for e in case[1:]) >= 3
    def labels(self, case):
        if case[0] in ('interval', 'equation'):
            n = lambda e: {'c': 'constant', 'v': 'variable', 'u': 'symbol', 't': 'symbol'}.get(e[0], 'expression')
            yield '%s of %s and %s' % (case[0], n(case[1]), n(case[2]))
        else: yield case[0]
    def size(self, case): return sum(100 + abs(e[1]) if e[0] == 'd' else weight(e) for e in case[1:])
    def shrink(self, case):
        if len(case) > 2 and case[0] in ('vector', 'numbers'):
            for j in range(1, len(case)): yield case[:j] + case[j + 1:]
        for j in range(1, len(case)):
            if case[j][0] == 'd':
                for v in (0, 1, 2.5): yield case[:j] + (('d', v),) + case[j + 1:]
            else:
                for x in shrink_expr(case[j]): yield case[:j] + (x,) + case[j + 1:]
    def desc(self, case): return case[0] + ' ' + ' ; '.join(str(e[1]) if e[0] == 'd' else infix(e) for e in case[1:])


PROPS = {c.id: c for c in (C19, C20, C21, C22, C23, C24, C25, C26, C28)}
