"""Value domain of the value-graph analysis.

Scalars are multivariate polynomials with rational coefficients over interned atoms (symbols, uninterpreted
applications, rational powers of sums), gated by a reduced ordered decision diagram over comparison atoms.  Two
expressions that are equal in real arithmetic up to ring identities, if/ternary/early-return form, min/max/abs form
and term order have the same normal form.  No path is enumerated and no solver is called.
"""
from fractions import Fraction
import itertools

ATOMS = []          # id -> description tuple
ATOM_ID = {}
ATOM_INT = {}       # id -> True when integer valued
ATOM_NN = set()     # integer atoms known >= 0
FACTS = []          # polys known >= 0 (context facts, pushed by loops)


class Budget(Exception):
    pass


def atom(desc, integer=False, nonneg=False):
    i = ATOM_ID.get(desc)
    if i is None:
        i = len(ATOMS)
        ATOMS.append(desc)
        ATOM_ID[desc] = i
        ATOM_INT[i] = integer
        if nonneg:
            ATOM_NN.add(i)
    return i


class Poly:
    __slots__ = ('t', 'h')
    _tab = {}

    def __new__(cls, t):
        key = frozenset(t.items())
        o = cls._tab.get(key)
        if o is None:
            o = object.__new__(cls)
            o.t = t
            o.h = hash(key)
            cls._tab[key] = o
        return o

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        return pretty(self)

    def const(self):
        if not self.t:
            return Fraction(0)
        if len(self.t) == 1 and () in self.t:
            return self.t[()]
        return None


def C(v):
    v = Fraction(v)
    return Poly({(): v} if v else {})


ZERO, ONE = C(0), C(1)


def sym(name, integer=False, nonneg=False):
    return Poly({((atom(('sym', name), integer, nonneg), Fraction(1)),): Fraction(1)})


def A(i):
    return Poly({((i, Fraction(1)),): Fraction(1)})


def app(name, *args, integer=False, nonneg=False):
    return A(atom(('app', name) + args, integer, nonneg))


CBL = {}            # canonical bound variable atom -> level


def cb(level):
    i = atom(('app', 'bv', ('c', level)), True, True)
    CBL[i] = level
    return i


def bindvar(b, *vals):
    """close vals over the open variable b: returns (level, vals with b replaced by the canonical bound variable)"""
    lv = 0
    for v in vals:
        for a in atoms_in(v):
            l = CBL.get(a)
            if l is not None and l > lv:
                lv = l
    lv += 1
    m = {b: A(cb(lv))}
    return (lv,) + tuple(subst(v, m) if not isinstance(v, bool) else v for v in vals)


def padd(a, b):
    if not b.t:
        return a
    if not a.t:
        return b
    t = dict(a.t)
    for m, c in b.t.items():
        n = t.get(m, 0) + c
        if n:
            t[m] = n
        else:
            t.pop(m, None)
    return Poly(t)


def pscale(a, k):
    k = Fraction(k)
    if k == 0:
        return ZERO
    if k == 1:
        return a
    return Poly({m: c * k for m, c in a.t.items()})


def pneg(a):
    return pscale(a, -1)


def psub(a, b):
    return padd(a, pneg(b))


def _mmul(m1, m2):
    """multiply two monomials; returns (mono, extra poly factor or None)"""
    d = dict(m1)
    for a, e in m2:
        n = d.get(a, 0) + e
        if n:
            d[a] = n
        else:
            d.pop(a, None)
    extra = None
    for a in [x for x in d if ATOMS[x][0] == 'pw']:
        e = d[a]
        if e >= 1:
            k = int(e)
            p = ATOMS[a][1]
            f = p
            for _ in range(k - 1):
                f = pmul(f, p)
            extra = f if extra is None else pmul(extra, f)
            if e - k:
                d[a] = e - k
            else:
                del d[a]
    return tuple(sorted(d.items())), extra


_MULC = {}
BIGPROD = 3000      # products with more terms than this are not multiplied out


def fold(p):
    """a large factor as one atom (its value is that of the polynomial it stands for)"""
    if len(p.t) <= 20:
        return p
    lc = p.t[_lead(p)]
    return pscale(app('big', pscale(p, 1 / lc)), lc)


def pmul(a, b):
    ca, cb = a.const(), b.const()
    if ca is not None:
        return pscale(b, ca)
    if cb is not None:
        return pscale(a, cb)
    k = (a, b) if id(a) < id(b) else (b, a)
    r = _MULC.get(k)
    if r is not None:
        return r
    if len(a.t) * len(b.t) > BIGPROD:
        a, b = fold(a), fold(b)
    t = {}
    extras = []
    for m1, c1 in a.t.items():
        for m2, c2 in b.t.items():
            m, ex = _mmul(m1, m2)
            c = c1 * c2
            if ex is None:
                n = t.get(m, 0) + c
                if n:
                    t[m] = n
                else:
                    t.pop(m, None)
            else:
                extras.append(pmul(Poly({m: c}), ex))
    r = Poly(t)
    for e in extras:
        r = padd(r, e)
    _MULC[k] = r
    return r


def _lead(p):
    return min(p.t)


def ppow(a, e):
    """a ** e for rational e"""
    e = Fraction(e)
    if e == 0:
        return ONE
    if e == 1:
        return a
    c = a.const()
    if e.denominator == 1 and e > 0 and (len(a.t) <= 12 or e <= 2):
        r = a
        for _ in range(int(e) - 1):
            r = pmul(r, a)
        return r
    if c is not None:
        if e.denominator == 1 and c != 0:
            return C(c ** int(e))
        if e == Fraction(1, 2) and c >= 0:
            from math import isqrt
            n, d = isqrt(c.numerator), isqrt(c.denominator)
            if n * n == c.numerator and d * d == c.denominator:
                return C(Fraction(n, d))
        return Poly({((atom(('pw', a)), e),): Fraction(1)})
    if len(a.t) == 1:
        (m, k), = a.t.items()
        if e.denominator == 1 and k != 0:
            return Poly({tuple((x, y * e) for x, y in m): k ** int(e)})
        return Poly({((atom(('pw', a)), e),): Fraction(1)})
    lc = a.t[_lead(a)]
    if e.denominator == 1:
        a0 = pscale(a, 1 / lc)
        return Poly({((atom(('pw', a0)), e),): lc ** int(e)})
    if lc < 0:
        return Poly({((atom(('pw', a)), e),): Fraction(1)})
    # keep sqrt(lc) exact only if lc is a square; otherwise leave inside
    return Poly({((atom(('pw', a)), e),): Fraction(1)})


def pdiv(a, b):
    return pmul(a, ppow(b, -1))


def is_int(p):
    return all(c.denominator == 1 for c in p.t.values()) and all(
        ATOM_INT.get(x, False) and e > 0 and e.denominator == 1 for m in p.t for x, e in m)


def pw_zero(p, depth=0):
    """decide p == 0 modulo the defining relations of rational powers"""
    if not p.t:
        return True
    if depth > 8:
        return False
    pws = sorted({x for m in p.t for x, e in m if ATOMS[x][0] == 'pw'}, reverse=True)
    if not pws:
        return False
    a = pws[0]
    den = 1
    mn = Fraction(0)
    for m in p.t:
        for x, e in m:
            if x == a:
                den = max(den, e.denominator)
                mn = min(mn, e)
    base = ATOMS[a][1]
    groups = {}
    for m, c in p.t.items():
        e = dict(m).get(a, Fraction(0)) - mn
        rest = tuple((x, y) for x, y in m if x != a)
        k = int(e)
        frac = e - k
        q = Poly({rest: c})
        for _ in range(k):
            q = pmul(q, base)
        groups[frac] = padd(groups.get(frac, ZERO), q)
    return all(pw_zero(g, depth + 1) for g in groups.values())


# ---------------------------------------------------------------- decision diagrams
class Ite:
    __slots__ = ('v', 'hi', 'lo', 'h')
    _tab = {}

    def __new__(cls, v, hi, lo):
        k = (v, hi, lo)
        o = cls._tab.get(k)
        if o is None:
            o = object.__new__(cls)
            o.v, o.hi, o.lo = k
            o.h = hash(k)
            cls._tab[k] = o
            if len(cls._tab) > 2000000:
                raise Budget('decision diagram too large')
        return o

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        return pretty(self)


BV = []             # bool var id -> description tuple
BV_ID = {}
BV_CLS = []         # (linear class poly or None, sign/kind, const)


def _norm_lin(p):
    """split p = s*(y) + c with y normalised (lead coeff 1); returns (y, s, c)"""
    c = p.t.get((), Fraction(0))
    t = {m: k for m, k in p.t.items() if m != ()}
    y = Poly(t)
    lc = t[_lead(y)]
    return pscale(y, 1 / lc), lc, c


def bvar(desc):
    i = BV_ID.get(desc)
    if i is None:
        i = len(BV)
        BV.append(desc)
        BV_ID[desc] = i
        cls = None
        if desc[0] in ('pos', 'eq0'):
            y, s, c = _norm_lin(desc[1])
            cls = (y, desc[0], s, c, is_int(desc[1]))
        BV_CLS.append(cls)
    return i


def _interval(v, val):
    """set of y (as list of (lo, lo_open, hi, hi_open)) when bool var v has value val; None = complement of a point"""
    y, kind, s, c, integer = BV_CLS[v]
    r = -c / s      # threshold on y
    if kind == 'eq0':
        return ('pt', r) if val else ('npt', r)
    if (s > 0) == val:
        # pos true with s>0: y > r ; pos false with s<0: s*y+c<=0 -> y >= r
        return ('gt', r, val)       # strict iff val
    return ('lt', r, val)


def _implies(v, val, w):
    """truth of w given v==val: True/False/None"""
    a, b = BV_CLS[v], BV_CLS[w]
    if a is None or b is None or a[0] is not b[0]:
        return None
    S = _interval(v, val)
    T = _interval(w, True)
    F = _interval(w, False)

    def subset(S, T):
        if S[0] == 'pt':
            x = S[1]
            if T[0] == 'pt':
                return T[1] == x
            if T[0] == 'npt':
                return T[1] != x
            if T[0] == 'gt':
                return x > T[1] or (x == T[1] and not T[2])
            return x < T[1] or (x == T[1] and not T[2])
        if S[0] == 'npt':
            return T == S
        if T[0] == 'pt':
            return False
        if T[0] == 'npt':
            x = T[1]
            if S[0] == 'gt':
                return x < S[1] or (x == S[1] and S[2])
            return x > S[1] or (x == S[1] and S[2])
        if S[0] != T[0]:
            return False
        if S[0] == 'gt':
            return S[1] > T[1] or (S[1] == T[1] and (S[2] or not T[2]))
        return S[1] < T[1] or (S[1] == T[1] and (S[2] or not T[2]))
    if subset(S, T):
        return True
    if subset(S, F):
        return False
    return None


_SUPP = {}


def support(x):
    if not isinstance(x, Ite):
        return frozenset()
    s = _SUPP.get(x)
    if s is None:
        s = frozenset((x.v,)) | support(x.hi) | support(x.lo)
        _SUPP[x] = s
    return s


_RESTR = {}


def restrict(x, w, val):
    if not isinstance(x, Ite) or w not in support(x):
        return x
    k = (x, w, val)
    r = _RESTR.get(k)
    if r is None:
        if x.v == w:
            r = restrict(x.hi if val else x.lo, w, val)
        else:
            r = mk(x.v, restrict(x.hi, w, val), restrict(x.lo, w, val))
        _RESTR[k] = r
    return r


def mk(v, hi, lo):
    if hi is lo or (not isinstance(hi, Ite) and not isinstance(lo, Ite) and type(hi) is type(lo) and hi == lo):
        return hi
    if BV_CLS[v] is not None:
        for w in support(hi):
            t = _implies(v, True, w)
            if t is not None:
                hi = restrict(hi, w, t)
        for w in support(lo):
            t = _implies(v, False, w)
            if t is not None:
                lo = restrict(lo, w, t)
        if hi is lo:
            return hi
        d = BV[v]
        if isinstance(hi, Poly) and isinstance(lo, Poly):
            if d[0] == 'pos':
                p = d[1]
                diff = psub(hi, lo)
                k = _ratio(diff, p)
                if k is None and is_int(p):
                    # ints: pos(p) <=> p>=1 ; a>=b ? a : b style uses pos(a-b+1)
                    p1 = psub(p, ONE)
                    k = _ratio(diff, p1)
                    if k is not None:
                        p = p1
                if k is not None:
                    return padd(lo, pscale(relu(p), k))
            elif d[0] == 'eq0':
                # x==c ? e1 : e2 where e2 at x=c equals e1
                pass
        else:
            # eq0 absorption: eq0(p)?hi:lo
            pass
        # a test on equality whose branches agree under the equality
        if d[0] == 'eq0' and isinstance(hi, Poly) and isinstance(lo, Poly):
            y = d[1]
            at = _solve_atom(y)
            if at is not None:
                x, expr = at
                if subst(lo, {x: expr}) is subst(hi, {x: expr}):
                    return lo
    if not isinstance(hi, (Ite, Poly, bool)) and False:
        pass
    if isinstance(hi, Ite) and hi.v == v:
        hi = hi.hi
    if isinstance(lo, Ite) and lo.v == v:
        lo = lo.lo
    if hi is lo:
        return hi
    return Ite(v, hi, lo)


def _solve_atom(p):
    """p linear in some atom occurring once: return (atom, expr) with atom=expr <=> p==0"""
    for m, c in sorted(p.t.items(), reverse=True):
        if len(m) == 1 and m[0][1] == 1:
            x = m[0][0]
            if sum(1 for mm in p.t for a, e in mm if a == x) == 1:
                rest = Poly({mm: cc for mm, cc in p.t.items() if mm != m})
                if x not in atoms_in(rest):
                    return x, pscale(rest, -1 / c)
    return None


def _ratio(a, b):
    """rational k with a == k*b, else None"""
    if not a.t or not b.t or len(a.t) != len(b.t):
        return None
    m = _lead(b)
    if m not in a.t:
        return None
    k = a.t[m] / b.t[m]
    return k if pscale(b, k) is a else None


def relu(p):
    """max(p,0), canonical under sign"""
    c = p.const()
    if c is not None:
        return C(max(c, 0))
    lc = p.t[_lead(p)]
    k = abs(lc)
    q = pscale(p, 1 / k)
    if lc < 0:
        # relu(p) = relu(-p) + p
        return padd(pscale(A(atom(('app', 'relu', pneg(q)), is_int(q))), k), p)
    return pscale(A(atom(('app', 'relu', q), is_int(q))), k)


_APPLY = {}


def lift(f, *xs, key=None):
    """apply f to the leaves of decision diagrams"""
    if not any(isinstance(x, Ite) for x in xs):
        return f(*xs)
    k = None
    if key is not None:
        try:
            k = (key,) + xs
            r = _APPLY.get(k)
            if r is not None:
                return r
        except TypeError:
            k = None
    v = min(x.v for x in xs if isinstance(x, Ite))
    hi = lift(f, *[x.hi if isinstance(x, Ite) and x.v == v else x for x in xs], key=key)
    lo = lift(f, *[x.lo if isinstance(x, Ite) and x.v == v else x for x in xs], key=key)
    r = _mk_any(v, hi, lo)
    if k is not None:
        _APPLY[k] = r
    return r


def _mk_any(v, hi, lo):
    # hi/lo may have smaller vars at top after theory simplification; rebuild by ite if so
    m = min([x.v for x in (hi, lo) if isinstance(x, Ite)] or [v + 1])
    if m > v:
        return mk(v, hi, lo)
    return ite(mk(v, True, False), hi, lo)


_ITE = {}


def ite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if a is b:
        return a
    k = (c, a, b)
    try:
        r = _ITE.get(k)
    except TypeError:
        r = None
        k = None
    if r is not None:
        return r
    v = min(x.v for x in (c, a, b) if isinstance(x, Ite))

    def cof(x, s):
        return (x.hi if s else x.lo) if isinstance(x, Ite) and x.v == v else x
    hi = ite(cof(c, True), cof(a, True), cof(b, True))
    lo = ite(cof(c, False), cof(a, False), cof(b, False))
    m = min([x.v for x in (hi, lo) if isinstance(x, Ite)] or [v + 1])
    r = mk(v, hi, lo) if m > v else Ite(v, hi, lo)
    if k is not None:
        _ITE[k] = r
    return r


def band(a, b):
    return ite(a, b, False)


def bor(a, b):
    return ite(a, True, b)


def bnot(a):
    return ite(a, False, True)


def bx(desc):
    return mk(bvar(desc), True, False)


def prove_nn(p):
    """sufficient test for p >= 0 over the integers/reals from FACTS and non-negative atoms"""
    c = p.const()
    if c is not None:
        return c >= 0

    def simple(q):
        return all(k >= 0 and all(x in ATOM_NN and e > 0 for x, e in m) for m, k in q.t.items())
    if simple(p):
        return True
    for f in FACTS:
        d = psub(p, f)
        if simple(d):
            return True
    for i, f in enumerate(FACTS):
        d = psub(p, f)
        for g in FACTS[i:]:
            if simple(psub(d, g)):
                return True
    return False


def _relu_of(p):
    """(k, q) with p = k*relu(q), k = 1 or -1 up to scaling, or None"""
    for m, k in p.t.items():
        if len(m) == 1 and m[0][1] == 1:
            d = ATOMS[m[0][0]]
            if d[0] == 'app' and d[1] == 'relu' and isinstance(d[2], Poly):
                if len(p.t) == 1:
                    return k, d[2]
                rest = psub(p, Poly({m: k}))
                if rest == pscale(d[2], -k):
                    return k, pneg(d[2])
    return None


def pos(p):
    """p > 0 as a boolean"""
    c = p.const()
    if c is not None:
        return c > 0
    r = _relu_of(p)
    if r:
        return pos(r[1]) if r[0] > 0 else False
    integer = is_int(p)
    if integer:
        if prove_nn(psub(p, ONE)):
            return True
    if prove_nn(pneg(p)):
        return False
    y, s, c0 = _norm_lin(p)
    q = pscale(p, 1 / abs(s))
    if integer:
        # canonical sign: express pos(-y + c) as not pos(y - c + 1)
        if s < 0 and is_int(q):
            return bnot(bx(('pos', padd(pneg(q), ONE))))
    else:
        pass
    return bx(('pos', q))


def lt(a, b):
    return lift(lambda x, y: pos(psub(y, x)), a, b, key='lt')


def le(a, b):
    def f(x, y):
        d = psub(y, x)
        if is_int(d):
            return pos(padd(d, ONE))
        return bnot(pos(pneg(d)))
    return lift(f, a, b, key='le')


def eq0(p):
    c = p.const()
    if c is not None:
        return c == 0
    integer = is_int(p)
    if integer and (prove_nn(psub(p, ONE)) or prove_nn(psub(pneg(p), ONE))):
        return False
    r = _relu_of(p)
    if r:
        return bnot(pos(r[1]))
    lc = p.t[_lead(p)]
    q = pscale(p, 1 / lc)
    return bx(('eq0', q))


def eq(a, b):
    def f(x, y):
        if isinstance(x, Poly) and isinstance(y, Poly):
            return eq0(psub(x, y))
        if isinstance(x, bool) and isinstance(y, bool):
            return x == y
        if x is y or (type(x) is type(y) and x == y):
            return True
        a_, b_ = sorted((x, y), key=lambda z: repr(z))
        return bx(('same', a_, b_))
    return lift(f, a, b, key='eq')


# lifted arithmetic
def add(a, b):
    return lift(padd, a, b, key='+')


def sub(a, b):
    return lift(psub, a, b, key='-')


def mul(a, b):
    return lift(pmul, a, b, key='*')


def div(a, b):
    return lift(pdiv, a, b, key='/')


def neg(a):
    return lift(pneg, a, key='n')


def fapp(name, *xs, integer=False):
    return lift(lambda *p: app(name, *p, integer=integer), *xs, key='f' + name + ('i' if integer else ''))


def vmax(a, b):
    return lift(lambda x, y: padd(y, relu(psub(x, y))), a, b, key='max')


def vmin(a, b):
    return lift(lambda x, y: psub(x, relu(psub(x, y))), a, b, key='min')


def vabs(a):
    return lift(lambda x: psub(pscale(relu(x), 2), x), a, key='abs')


def tonum(b):
    """bool diagram -> 0/1"""
    return lift(lambda x: C(1 if x is True else 0) if isinstance(x, bool) else x, b, key='b2n')


def tobool(x):
    def f(p):
        if isinstance(p, bool):
            return p
        if isinstance(p, Poly):
            return bnot(eq0(p))
        return bx(('truth', p))
    return lift(f, x, key='tob')


# ---------------------------------------------------------------- traversal
_ATIN = {}


def atoms_in(v):
    """all atom ids occurring (deeply) in a value"""
    try:
        r = _ATIN.get(v)
        if r is not None:
            return r
        hashable = True
    except TypeError:
        hashable = False
    out = set()
    if isinstance(v, Poly):
        for m in v.t:
            for x, _ in m:
                if x not in out:
                    out.add(x)
                    out |= _desc_atoms(ATOMS[x])
    elif isinstance(v, Ite):
        out |= _desc_atoms(BV[v.v]) | atoms_in(v.hi) | atoms_in(v.lo)
    elif isinstance(v, tuple):
        for x in v:
            out |= atoms_in(x)
        b, _ = _binds(v)
        if b is not None:       # also where nothing in its scope mentions it: an outer binder must get another level
            out.add(b)
    elif hasattr(v, 'children'):
        for x in v.children():
            out |= atoms_in(x)
    r = frozenset(out)
    if hashable:
        _ATIN[v] = r
    return r


def _desc_atoms(d):
    out = set()
    for x in d:
        if isinstance(x, (Poly, Ite, tuple)) or hasattr(x, 'children'):
            out |= atoms_in(x)
    b, _ = _binds(d)
    if b is not None:
        out.add(b)
    return out


_SUB = {}


def subst(v, m):
    """replace atoms by values (Poly or Ite), deeply"""
    if not m:
        return v
    key = frozenset(m.items())
    return _subst(v, m, key, frozenset(m))


def _binds(v):
    """(bound variable, positions of its scope) when the tuple v is a binder"""
    if not v or not isinstance(v[0], str):
        return None, ()
    h, n = v[0], len(v)
    if h == 'r' and n == 6 and isinstance(v[4], int):
        return v[4], (1, 5)
    if h == 'fold' and n == 6 and isinstance(v[5], int):
        return cb(v[5]), (2, 4)
    if h == 'rec' and n == 8 and isinstance(v[7], int):
        return cb(v[7]), (5, 6)
    if h == 'foreach' and n == 3 and isinstance(v[1], int):
        return cb(v[1]), (2,)
    if h == 'each' and n == 5 and isinstance(v[3], int):
        return cb(v[3]), (4,)
    if h == 'exists' and n == 4 and isinstance(v[2], int):
        return cb(v[2]), (3,)
    if h == 'app' and n == 5 and v[1] in ('sum', 'first') and isinstance(v[3], int):
        return cb(v[3]), (4,)
    return None, ()


def _less(m, b):
    m2 = {k: x for k, x in m.items() if k != b}
    return m2, frozenset(m2.items()), frozenset(m2)


def _subst_in(d, m, key, dom, start):
    """the arguments of the description d from position start, respecting what d binds"""
    b, inner = _binds(d)
    if b is not None and b in dom:
        m2, key2, dom2 = _less(m, b)
        return [(_subst(y, m2, key2, dom2) if m2 else y) if i in inner else _subst(y, m, key, dom)
                for i, y in enumerate(d) if i >= start]
    return [_subst(y, m, key, dom) for y in d[start:]]


def _subst(v, m, key, dom):
    if isinstance(v, (bool, int, str, Fraction)) or v is None:
        return v
    if not (atoms_in(v) & dom):
        return v
    k = (v, key)
    r = _SUB.get(k)
    if r is not None:
        return r
    if isinstance(v, Poly):
        r = ZERO
        for mono, c in v.t.items():
            term = C(c)
            for x, e in mono:
                y = _subst_atom(x, m, key, dom)
                if e == 1:
                    term = mul(term, y)
                else:
                    term = mul(term, lift(lambda p, e=e: ppow(p, e), y))
            r = add(r, term)
    elif isinstance(v, Ite):
        c = _subst_bv(v.v, m, key, dom)
        r = vite(c, _subst(v.hi, m, key, dom), _subst(v.lo, m, key, dom))
    elif isinstance(v, tuple):
        b, inner = _binds(v)
        if b is not None and b in dom:
            m2, key2, dom2 = _less(m, b)
            r = tuple(_subst(x, m2, key2, dom2) if i in inner and m2 else x if i in inner else _subst(x, m, key, dom)
                      for i, x in enumerate(v))
        else:
            r = tuple(_subst(x, m, key, dom) for x in v)
    elif hasattr(v, 'rebuild'):
        r = v.rebuild([_subst(x, m, key, dom) for x in v.children()])
    else:
        r = v
    _SUB[k] = r
    return r


def vite(c, a, b):
    return ite(c, a, b)


def rebuild_app(d, args):
    """d is an ('app', name, ...) description; rebuild with new args, re-simplifying known functions"""
    name = d[1]
    if name == 'relu':
        return lift(relu, args[0])
    if name == 'big':
        return lift(fold, args[0])
    integer = ATOM_INT.get(ATOM_ID.get(d), False)
    nn = ATOM_ID.get(d) in ATOM_NN
    if name in ('sum', 'first') and len(args) == 3:
        # the body stays under its binder
        return lift(lambda p: A(atom(('app', name, p) + tuple(args[1:]), integer, nn)), args[0])
    if any(isinstance(x, Ite) and not isinstance(_leaf(x), bool) for x in args):
        return lift(lambda *p: A(atom(('app', name) + p, integer, nn)), *args)
    return A(atom(('app', name) + tuple(args), integer, nn))


def _leaf(x):
    while isinstance(x, Ite):
        x = x.hi
    return x


def _subst_atom(x, m, key, dom):
    if x in m:
        return m[x]
    d = ATOMS[x]
    if not (_desc_atoms(d) & dom):
        return A(x)
    if d[0] == 'pw':
        return _subst(d[1], m, key, dom)
    if d[0] == 'app':
        return rebuild_app(d, _subst_in(d, m, key, dom, 2))
    return A(x)


def _subst_bv(v, m, key, dom):
    d = BV[v]
    if not (_desc_atoms(d) & dom):
        return mk(v, True, False)
    if d[0] == 'pos':
        return lift(lambda p: pos(p), _subst(d[1], m, key, dom))
    if d[0] == 'eq0':
        return lift(lambda p: eq0(p), _subst(d[1], m, key, dom))
    if d[0] == 'same':
        return eq(_subst(d[1], m, key, dom), _subst(d[2], m, key, dom))
    return bx((d[0],) + tuple(_subst_in(d, m, key, dom, 1)))


def diff(p, x):
    """derivative of a scalar with respect to atom x; None if not differentiable in this domain"""
    if isinstance(p, Ite):
        if x in _desc_atoms(BV[p.v]):
            return None
        a, b = diff(p.hi, x), diff(p.lo, x)
        if a is None or b is None:
            return None
        return ite(mk(p.v, True, False), a, b)
    r = ZERO
    for mono, c in p.t.items():
        for i, (a, e) in enumerate(mono):
            da = diff_atom(a, x)
            if da is None:
                return None
            if isinstance(da, Poly) and not da.t:
                continue
            rest = Poly({mono[:i] + mono[i + 1:]: c * e})
            term = pmul(rest, Poly({((a, e - 1),): Fraction(1)}) if e != 1 else ONE)
            r = add(r, mul(term, da))
    return r


def diff_atom(a, x):
    if a == x:
        return ONE
    d = ATOMS[a]
    if x not in _desc_atoms(d):
        return ZERO
    if d[0] == 'pw':
        return diff(d[1], x)
    if d[0] == 'app':
        n, args = d[1], d[2:]
        if n == 'exp':
            di = diff(args[0], x)
            return None if di is None else mul(A(a), di)
        if n == 'sin':
            di = diff(args[0], x)
            return None if di is None else mul(fapp('cos', args[0]), di)
        if n == 'cos':
            di = diff(args[0], x)
            return None if di is None else neg(mul(fapp('sin', args[0]), di))
        if n == 'log':
            di = diff(args[0], x)
            return None if di is None else div(di, args[0])
        if n == 'tanh':
            di = diff(args[0], x)
            return None if di is None else mul(sub(ONE, mul(A(a), A(a))), di)
    return None


def same_scalar(a, b):
    """equality decision: normal forms, then modulo rational powers"""
    if a is b:
        return True
    if isinstance(a, bool) or isinstance(b, bool):
        return False
    try:
        d = sub(a, b)
    except AttributeError:
        return False

    def z(d):
        if isinstance(d, Ite):
            return z(d.hi) and z(d.lo)
        return isinstance(d, Poly) and (not d.t or pw_zero(d))
    return z(d)


# ---------------------------------------------------------------- printing
_PB = [10 ** 9]       # nodes left to print (shared subterms can make the printed form exponentially long)


def pretty(v, depth=0):
    _PB[0] -= 1
    if depth > 12 or _PB[0] < 0:
        return '...'
    if isinstance(v, Poly):
        if not v.t:
            return '0'
        out = []
        for m, c in sorted(v.t.items()):
            s = '*'.join((_pa(x, depth) + ('' if e == 1 else '^' + str(e))) for x, e in m)
            if not s:
                out.append(str(c))
            elif c == 1:
                out.append(s)
            elif c == -1:
                out.append('-' + s)
            else:
                out.append(str(c) + '*' + s)
        s = ' + '.join(out).replace('+ -', '- ')
        return s
    if isinstance(v, Ite):
        return '(' + _pb(v.v, depth) + ' ? ' + pretty(v.hi, depth + 1) + ' : ' + pretty(v.lo, depth + 1) + ')'
    if isinstance(v, tuple):
        return '(' + ', '.join(pretty(x, depth + 1) for x in v) + ')'
    if hasattr(v, 'pretty'):
        return v.pretty(depth + 1)
    return str(v)


def _pa(x, depth):
    d = ATOMS[x]
    if d[0] == 'sym':
        return str(d[1])
    if d[0] == 'pw':
        return '(' + pretty(d[1], depth + 1) + ')'
    if d[0] == 'app':
        return str(d[1]) + '(' + ', '.join(pretty(y, depth + 1) for y in d[2:]) + ')'
    return str(d)


def _pb(v, depth):
    d = BV[v]
    if d[0] == 'pos':
        return pretty(d[1], depth + 1) + ' > 0'
    if d[0] == 'eq0':
        return pretty(d[1], depth + 1) + ' == 0'
    return d[0] + '(' + ', '.join(pretty(y, depth + 1) for y in d[1:]) + ')'


def reset():
    """forget all interned terms (a fresh universe per obligation: names of different classes cannot collide)"""
    for d in (ATOMS, ATOM_ID, ATOM_INT, ATOM_NN, FACTS, CBL, BV, BV_ID, BV_CLS, _MULC, _SUPP, _RESTR, _APPLY, _ITE, _ATIN, _SUB, Ite._tab):
        d.clear()
    Poly._tab.clear()
    for p in (ZERO, ONE):
        Poly._tab[frozenset(p.t.items())] = p
