"""Separating valuations for normal forms.

Two normal forms that differ syntactically are only reported as different when a valuation of their atoms tells them
apart.  Nothing of the repository is executed here: atoms (reads of unknown memory, uninterpreted applications) get
values by hashing, and the closed forms (sums, range stores, recurrences, folds, gates) are evaluated under them.
"""
import math, hashlib, random, time
from fractions import Fraction
import terms
from terms import Poly, Ite, ATOMS, BV, ATOM_INT, ATOM_NN, C, A, CBL
import vg
from vg import Mat, Struct, Arr, Opq, Str, Null, LV, LVIte, Ptr, It, Fn, Val


LONG = 60          # iterations after which a valuation is given up


class Skip(Exception):
    """valuation outside the domain (division by zero, ...)"""


class Unevaluable(Exception):
    pass


class Tok(tuple):
    __slots__ = ()


class CM:
    __slots__ = ('r', 'c', 'e')

    def __init__(self, r, c, e):
        self.r, self.c, self.e = r, c, e


class CA:
    __slots__ = ('n', 'e')

    def __init__(self, n, e):
        self.n, self.e = n, e


class CS:
    __slots__ = ('d',)

    def __init__(self, d):
        self.d = d


MAXN = 12
LEVELS = {}
ALEVELS = {}


def rnd(x):
    if isinstance(x, bool):
        return x
    if x == 0:
        return 0.0
    return float('%.9g' % x)


IDX = {}            # atom -> level of the element index it stands for (0: none)


def level(a):
    """loop level of a bound variable; a negative one for the index of the element compared; 0 for anything else"""
    l = CBL.get(a)
    if l is not None:
        return l
    l = IDX.get(a)
    if l is None:
        d = ATOMS[a]
        l = IDX[a] = -1 - int(d[1][2:]) if d[0] == 'sym' and isinstance(d[1], str) and d[1][:2] == '$i' and d[1][2:].isdigit() else 0
    return l


class Valuation:
    POOL = [-2.0, -1.0, -0.5, 0.0, 0.5, 1.0, 2.0, 3.0]

    def __init__(self, I, seed):
        self.I = I
        self.seed = seed
        self.mode = seed % 3       # 0: generic reals, 1: generic reals positive-ish, 2: small pool with collisions
        self.ibase = (seed // 3) % 4
        self.wide = seed % 7 == 6  # some containers are long, counts are small
        self.flat = seed % 5 == 4  # unknown functions are constant (iterations reach a fixed point)
        self.env = {}
        self.memo = {}
        self.fixed = {}            # token -> value
        self.sorted = set()        # tokens of arrays with increasing elements
        self.hints = {}            # atom -> values near the thresholds it is compared with
        self.depth = 0
        self.ver = {}
        self.keep = []
        self.nver = 0
        self.tokof = {}            # atom -> token its value is drawn for
        self.btok = {}             # boolean variable -> token

    # ---- hashing
    def h(self, tok):
        d = hashlib.blake2b(repr((self.seed, tok)).encode(), digest_size=8).digest()
        return int.from_bytes(d, 'big')

    def number(self, tok, integer, nonneg):
        v = self.fixed.get(tok)
        if v is not None:
            return v
        if self.sorted and tok[0] == '@' and isinstance(tok[1], tuple) and len(tok[1]) == 3 and tok[1][0] == 'el' and tok[1][1] in self.sorted:
            b, i = tok[1][1], tok[1][2]
            v = self.POOL[self.h(('s0', b)) % 6]
            if i >= 0:
                for k in range(int(i) + 1):
                    st_ = (0.5, 1.0, 1.0, 0.5)[self.h(('s', b, k)) % 4]
                    v += math.ceil(st_) if integer else st_
                return float(math.floor(v)) if integer else v
        h = self.h(tok)
        if integer:
            m = h % 3
            size = str(tok[0]) == 'size' or tok[0] == '@' and isinstance(tok[1], tuple) and tok[1] and tok[1][0] == 'size'
            if self.wide and (tok[0] == 'bv' or size and m):
                k = (h >> 8) % 24 if tok[0] == 'bv' else 8 + (h >> 8) % 16
            elif self.wide or self.ibase == 3:
                # mixed: containers of a few elements, counts that are often zero
                if size:
                    k = 2 + (h >> 8) % 3
                else:
                    k = (0, 0, 1, 2, 3)[(h >> 8) % 5]
            else:
                k = self.ibase + (0 if m == 0 else (h >> 8) % 3)
            if not nonneg and (h >> 20) % 5 == 0:
                k = -k
            return float(k)
        if self.mode == 2:
            return self.POOL[h % len(self.POOL)]
        u = (h % 1000003) / 1000003.0
        if self.mode == 1:
            return 0.1 + 2.5 * u
        return -3.0 + 6.0 * u

    def num(self, a, tok, integer, nonneg):
        """value of an atom that is drawn (and may be pinned by the directed search)"""
        if not self.sorted:
            self.tokof[a] = tok
        return self.number(tok, integer, nonneg)

    def coin(self, b, tok, odds=2):
        self.btok[b] = tok
        v = self.fixed.get(tok)
        if v is not None:
            return v
        return self.h(tok) & 1 == 1 if odds == 2 else self.h(tok) % odds != 0

    # ---- directed search
    def pinpoly(self, p, lo, hi, rng, again, depth=0):
        """try to move p into [lo, hi] by pinning one atom that occurs linearly"""
        try:
            x = self.ev(p)
        except (Skip, Unevaluable):
            return False
        if not isinstance(x, float):
            return False
        if lo - 1e-11 <= x <= hi + 1e-11:
            return True
        if not isinstance(p, Poly) or depth > 3:
            return False
        cand = []
        for m, c in p.t.items():
            for a, e in m:
                if e == 1 and sum(1 for m2 in p.t for b, _ in m2 if b == a) == 1:
                    cand.append((a, m, c))
        rng.shuffle(cand)
        for a, m, c in cand:
            d = ATOMS[a]
            inner = d[0] == 'app' and d[1] == 'relu'
            if not inner and (a not in self.tokof or self.tokof[a] in self.fixed and not again):
                continue
            try:
                k = float(c)
                for b, e in m:
                    if b != a:
                        k *= self.atom(b) ** float(e)
                rest = x - k * self.atom(a)
            except (Skip, Unevaluable, ZeroDivisionError, OverflowError, TypeError):
                continue
            if isinstance(k, complex) or abs(k) < 1e-9:
                continue
            u, v = sorted(((lo - rest) / k, (hi - rest) / k))
            integer, nn = ATOM_INT.get(a, False), a in ATOM_NN
            if nn:
                u = max(u, 0.0)
            if u > v + 1e-11:
                continue
            if integer:
                u, v = math.ceil(u - 1e-9), math.floor(v + 1e-9)
                if u > v:
                    continue
                val = float(rng.randint(int(max(u, -1e6)), int(min(v, max(u, -1e6) + 2))))
                if abs(val) > 1e6:
                    continue
            else:
                val = u if u == v else u + (v - u) * rng.choice((0.0, 0.5, 1.0, rng.random()))
            if inner:
                if self.pinpoly(d[2], val, val, rng, again, depth + 1):
                    return True
                continue
            self.fixed[self.tokof[a]] = val
            self.memo.clear()
            try:
                y = self.ev(p)
            except (Skip, Unevaluable):
                continue
            if lo - 1e-9 <= y <= hi + 1e-9:
                return True
        return False

    def pinlit(self, v, want, rng, again):
        try:
            if self.bv(v) == want:
                return True
        except (Skip, Unevaluable):
            return False
        d = BV[v]
        if d[0] in ('pos', 'eq0') and isinstance(d[1], Poly):
            integer = terms.is_int(d[1])
            one = 1.0 if integer else 0.25
            if d[0] == 'eq0':
                r = (0.0, 0.0) if want else rng.choice(((one, one + 1), (-one - 1, -one)))
            else:
                r = (one, one + 2) if want else (-one - 1, 0.0) if rng.random() < .6 else (0.0, 0.0)
            return self.pinpoly(d[1], r[0], r[1], rng, again)
        t = self.btok.get(v)
        if t is None or t in self.fixed and not again:
            return False
        self.fixed[t] = want
        self.memo.clear()
        return self.bv(v) == want

    # ---- tokens
    def tok(self, v, depth=0):
        if isinstance(v, bool) or v is None:
            return v
        if isinstance(v, (int, float)):
            return rnd(float(v))
        if isinstance(v, Tok):
            return tuple(v)
        if isinstance(v, CM):
            return ('M', v.r, v.c) + tuple(rnd(x) if not isinstance(x, tuple) else x for x in v.e)
        if isinstance(v, CA):
            return ('A', rnd(v.n)) + tuple(self.tok(x) for x in v.e)
        if isinstance(v, CS):
            return ('S',) + tuple((k, self.tok(x)) for k, x in sorted(v.d.items()))
        if isinstance(v, tuple):
            return tuple(self.tok(x) for x in v)
        return repr(v)

    # ---- evaluation
    def ev(self, v):
        if isinstance(v, Poly):
            return self.poly(v)
        if isinstance(v, bool) or v is None or isinstance(v, str):
            return v
        if isinstance(v, (int, float)):
            return v
        if isinstance(v, Fraction):
            return float(v)
        if isinstance(v, Ite):
            return self.ev(v.hi if self.bv(v.v) else v.lo)
        self.depth += 1
        try:
            if self.depth > 150:
                raise Unevaluable('depth')
            if isinstance(v, Mat):
                return CM(v.r, v.c, [self.ev(x) for x in v.e])
            if isinstance(v, Arr):
                return self.arr(v)
            if isinstance(v, Struct):
                return self.struct(v)
            if isinstance(v, Opq):
                m = self.opqmat(v.path)
                return m if m is not None else self.path(v.path)
            if isinstance(v, Ptr):
                return Tok(('P', self.tok(self.ev(v.lv))))
            if isinstance(v, It):
                return Tok(('It', self.tok(self.ev(v.lv)), self.tok(self.ev(v.idx))))
            if isinstance(v, LV):
                return Tok(('LV', self.ptok(v.key), self.ptok(v.acc)))
            if isinstance(v, LVIte):
                return self.ev(v.a) if self.ev(v.c) else self.ev(v.b)
            if isinstance(v, Str):
                return Tok(('str', v.s))
            if isinstance(v, Null):
                return Tok(('null',))
            if isinstance(v, Fn):
                return Tok(('fn', v.fn['loc'][0], v.fn['loc'][1]))
            if isinstance(v, tuple):
                return Tok(('t',) + tuple(self.tok(self.ev(x)) for x in v))
            return Tok(('?', repr(v)))
        finally:
            self.depth -= 1

    def opqmat(self, p):
        """matrices of run-time dimensions"""
        if not p:
            return None
        if p[0] == 'emptymat':
            return CM(0, 0, [])
        if p[0] in ('zeros', 'dynmat'):
            if len(p) == 2 and isinstance(p[1], Opq) and p[1].path and p[1].path[0] == 'dims':
                b = self.ev(p[1].path[1])
                if isinstance(b, CM):
                    n, m = float(b.r), float(b.c)
                else:
                    t = self.tok(b)
                    n, m = float(1 + self.h(('rows', t)) % 5), float(1 + self.h(('cols', t)) % 5)
            elif len(p) == 3:
                n, m = (self.ev(x) for x in p[1:])
            else:
                return None
            if isinstance(n, float) and isinstance(m, float) and 0 <= n * m <= 400:
                n, m = int(n), int(m)
                # uninitialised elements are arbitrary
                return CM(n, m, [0.0 if p[0] == 'zeros' else self.number(('uninit', i, j), False, False) for i in range(n) for j in range(m)])
        if p[0] == 'setelem' and len(p) == 5:
            b = self.ev(p[1])
            i, j, x = (self.ev(y) for y in p[2:])
            if isinstance(b, CM) and isinstance(i, float) and isinstance(j, float) and isinstance(x, float):
                i, j = int(i), int(j)
                if not (0 <= i < b.r and 0 <= j < b.c):
                    raise Skip('index')
                e = list(b.e)
                e[i * b.c + j] = x
                return CM(b.r, b.c, e)
        return None

    def poly(self, p):
        s = 0.0
        for m, c in p.t.items():
            t = float(c)
            for a, e in m:
                x = self.atom(a)
                if e == 1:
                    t *= x
                    continue
                if x == 0 and e < 0:
                    raise Skip('division by zero')
                if e.denominator != 1:
                    if x < 0:
                        raise Skip('root of negative')
                    t *= x ** float(e)
                else:
                    t *= x ** int(e)
            s += t
        if abs(s) > 1e60:
            raise Skip('overflow')
        return s

    def atom(self, a):
        if a in CBL:
            l = CBL[a]
            if l in self.env:
                return self.env[l]
            return self.number(('cb', l), True, True)
        if self.env and level(a) in self.env:
            return self.env[level(a)]
        k = (a, self.astamp(a)) if self.env else a
        r = self.memo.get(k)
        if r is not None:
            return r
        r = self.atom_(a)
        if isinstance(r, bool):
            r = 1.0 if r else 0.0
        self.memo[k] = r
        return r

    def inverse(self, e, n):
        k = ('inverse', e)
        r = self.memo.get(k)
        if r is None:
            a = [list(e[i * n:i * n + n]) + [1.0 if j == i else 0.0 for j in range(n)] for i in range(n)]
            for i in range(n):
                p = max(range(i, n), key=lambda q: abs(a[q][i]))
                if abs(a[p][i]) < 1e-6:
                    raise Skip('singular')
                a[i], a[p] = a[p], a[i]
                a[i] = [x / a[i][i] for x in a[i]]
                for q in range(n):
                    if q != i and a[q][i]:
                        a[q] = [x - a[q][i] * y for x, y in zip(a[q], a[i])]
            r = self.memo[k] = [row[n:] for row in a]
        return r

    def eigen(self, p):
        """(eigenvalues, eigenvectors) of a symmetric matrix given to an eigenvalue decomposition"""
        if not (isinstance(p, tuple) and len(p) == 3 and p[0] == 'ret' and p[1] in ('eigenvalues', 'eigenvectors')):
            return None
        f = p[2]
        if not (isinstance(f, Opq) and f.path and f.path[0] == 'fact' and isinstance(f.path[2], Mat)):
            return None
        m = self.ev(f.path[2])
        n = m.r
        if not all(isinstance(x, (int, float)) for x in m.e) or any(
                abs(m.e[i * n + j] - m.e[j * n + i]) > 1e-9 * (1 + abs(m.e[i * n + j])) for i in range(n) for j in range(i)):
            return None
        k = ('eigen', tuple(m.e))
        r = self.memo.get(k)
        if r is None:
            a = [list(m.e[i * n:i * n + n]) for i in range(n)]
            v = [[1.0 if i == j else 0.0 for j in range(n)] for i in range(n)]
            for _ in range(60):
                off = max(((abs(a[i][j]), i, j) for i in range(n) for j in range(i)), default=(0, 0, 0))
                if off[0] < 1e-13:
                    break
                _, q, p_ = off
                t = 0.5 * math.atan2(2 * a[p_][q], a[q][q] - a[p_][p_])
                c, s = math.cos(t), math.sin(t)
                for x in range(n):
                    a[x][p_], a[x][q] = c * a[x][p_] - s * a[x][q], s * a[x][p_] + c * a[x][q]
                for x in range(n):
                    a[p_][x], a[q][x] = c * a[p_][x] - s * a[q][x], s * a[p_][x] + c * a[q][x]
                for x in range(n):
                    v[x][p_], v[x][q] = c * v[x][p_] - s * v[x][q], s * v[x][p_] + c * v[x][q]
            r = self.memo[k] = ([a[i][i] for i in range(n)], v)
        return r

    def astamp(self, a):
        l = ALEVELS.get(a)
        if l is None:
            l = ALEVELS[a] = tuple(sorted({level(y) for y in terms.atoms_in(A(a)) if level(y)}))
        return tuple(self.ver.get(y, 0) for y in l) if l else ()

    def stamp(self, i, x):
        """identifies the bindings of the loop variables that x depends on"""
        l = LEVELS.get(i)
        if l is None or l[0] is not x and l[0] != x:
            l = LEVELS[i] = (x, tuple(sorted({level(y) for y in terms.atoms_in(x) if level(y)})))
        return tuple(self.ver.get(y, 0) for y in l[1])

    def bind(self, lvl, key, val):
        self.nver += 1
        self.env[key] = val
        self.ver[lvl] = self.nver

    def atom_(self, a):
        d = ATOMS[a]
        integer, nn = ATOM_INT.get(a, False), a in ATOM_NN
        if d[0] == 'sym':
            return self.num(a, ('sym', d[1]), integer, nn)
        if d[0] == 'pw':
            return self.poly(d[1])
        n, args = d[1], d[2:]
        if n == '@':
            e = self.eigen(args[0])
            if e is not None and len(args) == 3:
                return e[0][args[1]] if args[0][1] == 'eigenvalues' else e[1][args[1]][args[2]]
            v = self.path(args[0])
            if isinstance(v, CM):
                if len(args) == 3:
                    return v.e[args[1] * v.c + args[2]]
                if v.r * v.c == 1:
                    return v.e[0]
            if isinstance(v, (float, int, bool)) and not isinstance(v, Tok):
                return float(v)
            t = ('@', self.tok(v)) + tuple(args[1:])
            hs = self.hints.get(a)
            if hs and t not in self.fixed and not self.sorted and self.h(('hint', t)) % 4:
                x = hs[self.h(('hintv', t)) % len(hs)]
                if not (nn and x < 0):
                    self.fixed[t] = x
            return self.num(a, t, integer, nn)
        if n == 'bv':
            return self.num(a, ('bv', args), True, True)
        if n == 'relu':
            return max(0.0, self.ev(args[0]))
        if n == 'big':
            return self.ev(args[0])
        if n == 'imag' and isinstance(args[0], Poly) and len(args[0].t) == 1:
            (mono, _), = args[0].t.items()
            if len(mono) == 1:
                y = ATOMS[mono[0][0]]
                if y[:2] == ('app', '@') and self.eigen(y[2]) is not None:
                    return 0.0
        if n == 'inv' and isinstance(args[0], Mat) and len(args) == 3 and isinstance(args[1], int):
            m = self.ev(args[0])
            if isinstance(m, CM) and m.r == m.c and all(isinstance(x, (int, float)) for x in m.e):
                return self.inverse(tuple(m.e), m.r)[args[1]][args[2]]
        if n == 'sum':
            N = self.count(args[0])
            return self.under(args[1], lambda: sum(self.at_each(args[1], N, args[2])))
        if n == 'first':
            N = self.count(args[0])

            def f():
                for i in range(N):
                    self.bind(args[1], args[1], float(i))
                    if self.ev(args[2]):
                        return float(i)
                if N >= LONG:
                    raise Skip('long loop')
                return float(N)
            return self.under(args[1], f)
        if n in ('exp', 'sin', 'cos', 'tan', 'tanh', 'log', 'atan', 'asin', 'acos', 'sinh', 'cosh', 'log10', 'floor', 'ceil', 'round'):
            x = self.ev(args[0])
            try:
                return float(getattr(math, n)(x)) if n != 'round' else float(math.floor(abs(x) + .5) * (1 if x >= 0 else -1))
            except (ValueError, OverflowError):
                raise Skip(n)
        if n in ('trunc', 'int'):
            x = self.ev(args[0])
            if isinstance(x, float):
                return float(math.trunc(x))
        if n == 'intround':
            pass
        if n == 'idiv':
            x, y = self.ev(args[0]), self.ev(args[1])
            if y == 0:
                raise Skip('div0')
            return float(math.trunc(x / y))
        if n == 'imod':
            x, y = self.ev(args[0]), self.ev(args[1])
            if y == 0:
                raise Skip('div0')
            return float(math.fmod(x, y))
        if n == 'ceildiv':
            return float(max(0, math.ceil(self.ev(args[0]) / self.ev(args[1]) - 1e-12)))
        if n == 'floordiv1':
            return float(max(0, math.floor(self.ev(args[0]) / self.ev(args[1]) + 1e-12) + 1))
        if n == 'pow':
            try:
                r = self.ev(args[0]) ** self.ev(args[1])
                if isinstance(r, complex):
                    raise Skip('pow')
                return r
            except (ZeroDivisionError, OverflowError):
                raise Skip('pow')
        if n == 'size':
            v = self.path(args[0])
            if isinstance(v, CA):
                return v.n
            return self.num(a, ('size', self.tok(v)), True, True)
        if n == 'inf':
            return float(LONG)
        if n in ('trip', 'sum?'):
            raise Unevaluable(n)
        t = (n,) + tuple(self.ptok(x) for x in args)
        return self.num(a, t, integer, nn)

    def under(self, lvl, f):
        old, ov = dict(self.env), dict(self.ver)
        try:
            return f()
        finally:
            self.env, self.ver = old, ov

    def at_each(self, lvl, N, body):
        for i in range(N):
            self.bind(lvl, lvl, float(i))
            yield self.ev(body)

    def count(self, n):
        x = self.ev(n)
        if not isinstance(x, float):
            raise Unevaluable('count')
        k = int(round(x))
        if k > LONG:
            raise Skip('long loop')
        return max(0, k)

    def bv(self, b):
        d = BV[b]
        k = d[0]
        if k == 'pos':
            return self.poly(d[1]) > 1e-11
        if k == 'eq0':
            return abs(self.poly(d[1])) <= 1e-11
        if k == '@':
            v = self.path(d[1])
            if isinstance(v, bool):
                return v
            if isinstance(v, float):
                return v != 0
            return self.coin(b, ('b', self.tok(v)))
        if k == 'exists':
            N = self.count(d[1])
            r = self.under(d[2], lambda: any(self.at_each(d[2], N, d[3])))
            if not r and N >= LONG:
                raise Skip('long loop')
            return r
        if k == 'same':
            return self.tok(self.ev(d[1])) == self.tok(self.ev(d[2]))
        if k == 'nonnull':
            return self.coin(b, ('nn', self.ptok(d[1])), 8)
        if k in ('isnan',):
            return False
        if k == 'isfinite':
            return True
        return self.coin(b, (k,) + tuple(self.ptok(x) for x in d[1:]))

    def arr(self, v):
        n = self.ev(v.size)
        if not isinstance(n, float):
            raise Unevaluable('size')
        k = int(round(n))
        if k > 40:
            raise Skip('large array')
        return CA(n, [self.ev(self.I.aget(v, C(i))) for i in range(max(0, min(k, MAXN * 2 if self.wide else MAXN)))])

    def struct(self, v):
        rec = self.I.rec_of(v.tid) if v.tid is not None else None
        fs = self.I.db.fields(rec) if rec else None
        if vg.opaque_path(v.path):
            b = self.path(v.path)
            if not v.ups:
                return b
            if isinstance(b, CS):
                return CS({**b.d, **{k: self.ev(w) for k, w in v.ups}})
            return CS({**{k: self.ev(w) for k, w in v.ups}, '@path': b})
        if not fs and v.ups:
            return CS({**{k: self.ev(w) for k, w in v.ups}, '@path': self.path(v.path) if v.path else None})
        if not fs or self.depth > 40:
            return Tok(('Sp', self.ptok(v.path)) + tuple((k, self.tok(self.ev(w))) for k, w in v.ups))
        if self.depth > 12 and not v.ups:
            return Tok(('Sp', self.ptok(v.path)))
        d = {}
        for k in fs:
            d[k] = self.ev(self.I.sget(v, k))
        for k, w in v.ups:
            if k.startswith('@'):
                d[k] = self.ev(w)
        return CS(d)

    # ---- paths
    def ptok(self, p):
        if isinstance(p, tuple) and len(p) == 4 and p[0] == 'iteo':
            return self.ptok(p[2] if self.ev(p[1]) else p[3])
        if isinstance(p, tuple) and not isinstance(p, Tok):
            return self.tok(self.path(p)) if p and isinstance(p[0], str) else tuple(self.ptok(x) for x in p)
        if isinstance(p, (Poly, Ite, Val)):
            return self.tok(self.ev(p))
        return self.tok(p) if not isinstance(p, (str, int)) or isinstance(p, bool) else p

    def path(self, p):
        if not isinstance(p, tuple) or not p:
            return Tok((self.ptok(p),))
        k = p[0]
        if k == 'el' and len(p) == 3:
            b = self.path(p[1])
            i = self.ev(p[2])
            if isinstance(b, CA):
                j = int(round(i))
                if 0 <= j < len(b.e):
                    return b.e[j]
                return Tok(('oob', rnd(i)))
            if isinstance(b, CM):
                j = int(round(i))
                return b.e[j]
            return Tok(('el', self.tok(b), self.tok(i)))
        if k == 'f' and len(p) == 3:
            b = self.path(p[1])
            if isinstance(b, CS) and p[2] in b.d:
                return b.d[p[2]]
            return Tok(('f', self.tok(b), p[2]))
        if k == 'FV':
            lvl = CBL[next(iter(next(iter(p[1][1].t))))[0]]
            e = self.env.get(('FV', lvl))
            if e is None:
                return Tok(('FV', lvl, p[2]))
            return e[p[2]]
        if k == 'self' and len(p) == 2:
            lvl = CBL[next(iter(next(iter(p[1].t))))[0]]
            e = self.env.get(('self', lvl))
            if e is None:
                return Tok(('self', lvl))
            return e
        if k in ('fold', 'rec'):
            m = (id(p), self.stamp(('p', id(p)), p))
            r = self.memo.get(m)
            if r is None:
                r = self.memo[m] = self.fold(p) if k == 'fold' else self.rec(p)
                self.keep.append(p)
            return r
        if k == 'ite':
            return self.ev(p[2]) if self.ev(p[1]) else self.ev(p[3])
        if k == '?unsupported':
            raise Unevaluable('unsupported construct')
        if self.flat and k == 'ret' and isinstance(p[1], str):
            return Tok(('ret', p[1]))
        if len(p) < 3:
            return Tok((k,) + tuple(self.ptok(x) for x in p[1:]))
        m = (id(p), self.stamp(('p', id(p)), p))
        r = self.memo.get(m)
        if r is None:
            r = self.memo[m] = Tok((k,) + tuple(self.ptok(x) for x in p[1:]))
            self.keep.append(p)
        return r

    def fold(self, p):
        _, N, guard, inits, exprs, lvl = p
        n = self.count(N)
        cur = [self.ev(x) for x in inits]

        def f():
            nonlocal cur
            for i in range(n):
                self.bind(lvl, lvl, float(i))
                self.bind(lvl, ('FV', lvl), cur)
                if guard is not True and not self.ev(guard):
                    break
                cur = [self.ev(x) for x in exprs]
            return cur[0]
        return self.under(lvl, f)

    def rec(self, p):
        _, lo, hi, beta, e0, val, guard, lvl = p
        a = self.ev(e0)
        if not isinstance(a, CA):
            raise Unevaluable('rec')
        l, h = self.ev(lo), self.ev(hi)
        l, h = int(round(l)), int(round(h))
        cur = CA(a.n, list(a.e))
        rng = range(l, h) if self.ev(beta) > 0 else range(h - 1, l - 1, -1)
        if len(rng) > 60:
            raise Skip('long')

        def f():
            for j in rng:
                self.bind(lvl, lvl, float(j))
                self.bind(lvl, ('self', lvl), cur)
                if guard is not True and not self.ev(guard):
                    continue
                v = self.ev(val)
                if 0 <= j < len(cur.e):
                    cur.e[j] = v
            return cur
        return self.under(lvl, f)


def close(a, b):
    """equality of concrete values"""
    if isinstance(a, bool) or isinstance(b, bool):
        if isinstance(a, (bool, float)) and isinstance(b, (bool, float)):
            return float(a) == float(b)
        return a == b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return abs(a - b) <= 1e-6 * (1 + max(abs(a), abs(b)))
    if isinstance(a, CM) and isinstance(b, CM):
        return (a.r, a.c) == (b.r, b.c) and all(close(x, y) for x, y in zip(a.e, b.e))
    if isinstance(a, CA) and isinstance(b, CA):
        return close(a.n, b.n) and len(a.e) == len(b.e) and all(close(x, y) for x, y in zip(a.e, b.e))
    if isinstance(a, CA) and isinstance(b, CM) or isinstance(a, CM) and isinstance(b, CA):
        x, y = (a, b) if isinstance(a, CA) else (b, a)
        return min(y.r, y.c) == 1 and close(x.n, y.r * y.c) and len(x.e) == len(y.e) and all(close(p, q) for p, q in zip(x.e, y.e))
    if isinstance(a, CS) and isinstance(b, CS):
        return all(k in a.d and k in b.d and close(a.d[k], b.d[k]) for k in a.d.keys() | b.d.keys())
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
    if type(a) is not type(b):
        return None if (isinstance(a, Tok) or isinstance(b, Tok)) else False
    return a == b


def thresholds(*vs):
    """atom -> constants it is compared with in the gates of vs (and their neighbours)"""
    out = {}
    for x in vs:
        if not isinstance(x, Ite):
            continue
        for v in terms.support(x):
            d = BV[v]
            if d[0] not in ('eq0', 'pos') or not isinstance(d[1], Poly):
                continue
            c0 = k = a = None
            for m, c in d[1].t.items():
                if not m:
                    c0 = c
                elif len(m) == 1 and m[0][1] == 1 and a is None:
                    a, k = m[0][0], c
                else:
                    a = False
                    break
            if not a and a != 0 or a is False or ATOMS[a][0] != 'app' or ATOMS[a][1] != '@':
                continue
            r = float(-(c0 or 0) / k)
            if ATOM_INT.get(a):
                vals = [float(round(r)), float(round(r)) + 1, float(round(r)) - 1]
            elif d[0] == 'eq0':
                vals = [r, r, r + 0.5]
            else:
                vals = [r, r + 0.25, r - 0.25]
            o = out.setdefault(a, [])
            for y in vals:
                if y not in o:
                    o.append(y)
    for a, o in out.items():
        o.sort()
        if not ATOM_INT.get(a):
            o += [(x + y) / 2 for x, y in zip(o, o[1:])]
    return dict(sorted(out.items())) if len(out) <= 12 else {}


class Big(Exception):
    pass


def differ(a, b, cap=4000):
    """the condition under which the leaves of a and b are different terms"""
    memo = {}

    def go(a, b):
        if a is b:
            return False
        ia, ib = isinstance(a, Ite), isinstance(b, Ite)
        if not ia and not ib:
            return not (type(a) is type(b) and a == b)
        k = (id(a), id(b))
        r = memo.get(k)
        if r is None:
            if len(memo) > cap:
                raise Big()
            v = min(x.v for x in (a, b) if isinstance(x, Ite))
            h, l = [go(*[(x.hi if val else x.lo) if isinstance(x, Ite) and x.v == v else x for x in (a, b)]) for val in (True, False)]
            r = memo[k] = terms.mk(v, h, l)
        return r
    return go(a, b)


def infeasible(x, cap=400):
    """every path to True of x contradicts itself within the bounds on one linear form"""
    left = [cap]

    def empty(lits):
        cls = {}
        for v, h in lits:
            if terms.BV_CLS[v] is not None:
                cls.setdefault(id(terms.BV_CLS[v][0]), []).append(terms._interval(v, h) + (terms.BV_CLS[v][4],))
        for ss in cls.values():
            lo, hi, los, his = -math.inf, math.inf, False, False
            npt = set()
            for q in ss:
                if q[0] == 'npt':
                    npt.add(q[1])
                    continue
                if q[0] in ('pt', 'gt'):
                    st = q[0] == 'gt' and q[2]
                    if (q[1], st) > (lo, los):
                        lo, los = q[1], st
                if q[0] in ('pt', 'lt'):
                    st = q[0] == 'lt' and q[2]
                    if q[1] < hi or q[1] == hi and st:
                        hi, his = q[1], st
            if lo > hi or lo == hi and (los or his or lo in npt):
                return True
        return False

    def go(x, lits):
        if x is False:
            return True
        left[0] -= 1
        if left[0] < 0:
            return False
        if empty(lits):
            return True
        if not isinstance(x, Ite):
            return False
        return go(x.hi, lits + [(x.v, True)]) and go(x.lo, lits + [(x.v, False)])
    return go(x, [])


def inner_gates(*vs, cap=60):
    """conditions inside the arguments of atoms (not those on loop variables)"""
    out, seen = [], set()
    todo = list(vs)
    bound = set(CBL)
    while todo and len(out) < cap and len(seen) < 3000:
        x = todo.pop()
        if isinstance(x, (Poly, Ite, tuple)) or hasattr(x, 'children'):
            if id(x) in seen:
                continue
            seen.add(id(x))
        if isinstance(x, Poly):
            for m in x.t:
                for a, _ in m:
                    todo.append(ATOMS[a])
        elif isinstance(x, Ite):
            if x.v not in seen:
                seen.add(x.v)
                d = BV[x.v]
                todo.append(d)
                if not (terms._desc_atoms(d) & bound):
                    out.append(x.v)
            todo += [x.hi, x.lo]
        elif isinstance(x, tuple):
            todo += list(x)
        elif hasattr(x, 'children'):
            todo += list(x.children())
    return out


def separate(I, a, b, care=True, tries=240, want=3, prep=None, directed=160):
    """('sep', seed, text) | ('same', n) | ('unk', why)"""
    good = inc = 0
    why = ''
    hints = thresholds(a, b, care)
    try:
        dif = terms.band(care, differ(a, b))
    except Big:
        dif = None
    if dif is False:
        return 'same', 1, ''
    gates = None
    reached = False
    idx = {level(y) for y in terms.atoms_in(care)} if isinstance(care, Ite) else ()
    idx = min((l for l in idx if l < 0), default=None)
    t0 = time.time()
    for seed in range(1, tries + directed + 1):
        if time.time() - t0 > 12 and seed > 8:
            break
        V = Valuation(I, seed)
        if prep:
            prep(V)
        try:
            if seed <= tries:
                V.hints = hints
                for h in hints:
                    V.atom(h)
            else:
                rng = random.Random(seed)
                if gates is None:
                    gates = inner_gates(a, b)
                lits, x = [], dif if dif is not None else care
                while isinstance(x, Ite):
                    h = x.lo is False or x.hi is not False and rng.random() < .5
                    lits.append((x.v, h))
                    x = x.hi if h else x.lo
                for again in (False, False, True):
                    if all([V.pinlit(v, h, rng, again) for v, h in lits]):
                        break
                if gates and seed % 2:
                    for v in rng.sample(gates, min(len(gates), rng.randint(1, 3))):
                        V.pinlit(v, rng.random() < .5, rng, False)
                V.memo.clear()
            if care is not True and not V.ev(care):
                continue
            if dif is not None and V.ev(dif):
                reached = True
            x = V.ev(a)
            y = V.ev(b)
        except Skip:
            continue
        except Unevaluable as e:
            why = str(e)
            continue
        c = close(x, y)
        if c is None:
            why = 'incomparable'
            inc += 1
            continue
        if c is False:
            return 'sep', seed, f'{show(x)} vs {show(y)}'
        good += 1
        if idx is not None and (V.wide or V.ibase == 3) and seed <= tries:
            # the other elements of the same array under the same valuation
            for k in range(2 * MAXN if V.wide else MAXN):
                V.bind(idx, idx, float(k))
                try:
                    if care is not True and not V.ev(care):
                        continue
                    x, y = V.ev(a), V.ev(b)
                except (Skip, Unevaluable):
                    continue
                if close(x, y) is False:
                    return 'sep', seed, f'element {k}: {show(x)} vs {show(y)}'
    if inc:
        return 'unk', 0, why
    if good and (reached or dif is None):
        return 'same', good, ''
    if good and infeasible(dif):
        return 'same', good, ''
    if good:
        return 'unk', 0, 'no valuation reaches the case in which they differ'
    return 'unk', 0, why or 'no valuation satisfies the precondition'


def show(x):
    if isinstance(x, float):
        return '%.6g' % x
    if isinstance(x, CM):
        return '[' + ' '.join(show(y) for y in x.e) + ']'
    if isinstance(x, CA):
        return f'({int(x.n)} elements: ' + ', '.join(show(y) for y in x.e[:4]) + ')'
    if isinstance(x, CS):
        return '{' + ', '.join(f'{k}={show(v)}' for k, v in list(x.d.items())[:4]) + '}'
    if isinstance(x, Tok):
        return str(tuple(x))[:120]
    return str(x)[:80]
