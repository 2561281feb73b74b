"""Value-graph construction: an abstract interpreter over the resolved AST whose abstract values are the normal forms of
terms.py.  Branches are joined by gating, calls into the repository are inlined, calls to unknown code become
uninterpreted applications, loops over a symbolic range are summarised (sums, range stores, recurrences).  It never
enumerates paths and never calls a solver."""
import re
from fractions import Fraction
from terms import *
import terms
import db as DBM

HALF = Fraction(1, 2)


# ------------------------------------------------------------------ structured values
class Val:
    __slots__ = ()

    def children(self):
        return ()


class Mat(Val):
    __slots__ = ('r', 'c', 'e', 'h')

    def __init__(self, r, c, e):
        self.r, self.c, self.e = r, c, tuple(e)
        assert len(self.e) == r * c, (r, c, len(self.e))
        self.h = hash((r, c, self.e))

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return isinstance(o, Mat) and self.r == o.r and self.c == o.c and self.e == o.e

    def at(self, i, j):
        return self.e[i * self.c + j]

    def children(self):
        return self.e

    def rebuild(self, ch):
        return Mat(self.r, self.c, ch)

    def pretty(self, d=0):
        return '[' + '; '.join(', '.join(pretty(self.at(i, j), d) for j in range(self.c)) for i in range(self.r)) + ']'

    __repr__ = pretty


class Struct(Val):
    """record value: lazily symbolic at path (or uninitialised when path is None) with field updates"""
    __slots__ = ('path', 'tid', 'ups', 'h')

    def __init__(self, path, tid, ups=()):
        self.path, self.tid = path, tid
        self.ups = tuple(sorted(ups, key=lambda x: x[0])) if ups else ()
        self.h = hash((path, self.ups))

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return isinstance(o, Struct) and self.path == o.path and self.ups == o.ups

    def get(self, f):
        for k, v in self.ups:
            if k == f:
                return v
        return None

    def set(self, f, v):
        return Struct(self.path, self.tid, [(k, w) for k, w in self.ups if k != f] + [(f, v)])

    def children(self):
        return (self.path,) + tuple(v for _, v in self.ups)

    def rebuild(self, ch):
        return Struct(ch[0], self.tid, [(k, v) for (k, _), v in zip(self.ups, ch[1:])])

    def pretty(self, d=0):
        return '{' + ppath(self.path) + ''.join(f' .{k}={pretty(v, d)}' for k, v in self.ups) + '}'

    __repr__ = pretty


class Arr(Val):
    """container value.  ups: tuple of
       ('s', guard, idx, val)             single store
       ('r', guard, lo, hi, bv, val)      for lo <= bv < hi: [bv] = val(bv)
       ('x', path)                        contents replaced by opaque contents"""
    __slots__ = ('path', 'et', 'size', 'ups', 'h')

    def __init__(self, path, et, size, ups=()):
        self.path, self.et, self.size, self.ups = path, et, size, tuple(ups)
        self.h = hash((path, size, self.ups))

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return isinstance(o, Arr) and self.path == o.path and self.size == o.size and self.ups == o.ups

    def children(self):
        return (self.path, self.size, self.ups)

    def rebuild(self, ch):
        ups = []
        for u in ch[2]:
            ups.append(u)
        return Arr(ch[0], self.et, ch[1], ups)

    def pretty(self, d=0):
        s = 'arr<' + ppath(self.path) + ' size=' + pretty(self.size, d)
        for u in self.ups:
            if u[0] == 's':
                s += f' [{pretty(u[2], d)}]={pretty(u[3], d)}' + ('' if u[1] is True else f' if {pretty(u[1], d)}')
            elif u[0] == 'r':
                s += f' [{pretty(u[2], d)}..{pretty(u[3], d)})={pretty(u[5], d)}' + (
                    '' if u[1] is True else f' if {pretty(u[1], d)}')
            else:
                s += ' ' + str(u[0])
        return s + '>'

    __repr__ = pretty


class Opq(Val):
    __slots__ = ('path', 'tid', 'h')

    def __init__(self, path, tid=None):
        self.path, self.tid = path, tid
        self.h = hash(path)

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return isinstance(o, Opq) and self.path == o.path

    def children(self):
        return (self.path,)

    def rebuild(self, ch):
        return Opq(ch[0], self.tid)

    def pretty(self, d=0):
        return ppath(self.path)

    __repr__ = pretty


class Str(Val):
    __slots__ = ('s',)

    def __init__(self, s):
        self.s = s

    def __hash__(self):
        return hash(('str', self.s))

    def __eq__(self, o):
        return isinstance(o, Str) and o.s == self.s

    def __repr__(self):
        return repr(self.s)


class Null(Val):
    def __repr__(self):
        return 'null'

    def __hash__(self):
        return 77

    def __eq__(self, o):
        return isinstance(o, Null)


NULL = Null()


class LV(Val):
    """lvalue: root key + accessor path"""
    __slots__ = ('key', 'acc', 'h')

    def __init__(self, key, acc=()):
        self.key, self.acc = key, acc
        self.h = hash((key, acc))

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return isinstance(o, LV) and self.key == o.key and self.acc == o.acc

    def ext(self, *a):
        if self.acc and self.acc[-1][0] == 'mp' and a[0] == ('f', 'second'):   # mapped value of a map entry
            return LV(self.key, self.acc[:-1] + (('i', self.acc[-1][1]),) + a[1:])
        return LV(self.key, self.acc + a)

    def children(self):
        return (self.key, self.acc)

    def rebuild(self, ch):
        return LV(ch[0], ch[1])

    def pretty(self, d=0):
        return '&' + ppath(self.key) + ''.join('.' + str(a[1:] if a[0] != 'f' else a[1]) for a in self.acc)

    __repr__ = pretty


class LVIte(Val):
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def ext(self, *x):
        return LVIte(self.c, self.a.ext(*x), self.b.ext(*x))


class Ptr(Val):
    __slots__ = ('lv', 'h')

    def __init__(self, lv):
        self.lv = lv
        self.h = hash(('ptr', lv))

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return isinstance(o, Ptr) and o.lv == self.lv

    def children(self):
        return (self.lv,)

    def rebuild(self, ch):
        return Ptr(ch[0])

    def pretty(self, d=0):
        return self.lv.pretty(d)

    __repr__ = pretty


class MapIt(Val):
    """iterator to the entry of a key in the map at lv (None: end)"""
    __slots__ = ('lv', 'idx', 'h')

    def __init__(self, lv, idx):
        self.lv, self.idx = lv, idx
        self.h = hash(('mapit', lv, idx))

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return isinstance(o, MapIt) and o.lv == self.lv and o.idx == self.idx

    def pretty(self, d=0):
        return 'find(%s, %s)' % (self.lv.pretty(d), self.idx)


class It(Val):
    """iterator into the container at lv"""
    __slots__ = ('lv', 'idx', 'h')

    def __init__(self, lv, idx):
        self.lv, self.idx = lv, idx
        self.h = hash(('it', lv, idx))

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return isinstance(o, It) and o.lv == self.lv and o.idx == self.idx

    def children(self):
        return (self.lv, self.idx)

    def rebuild(self, ch):
        return It(ch[0], ch[1])

    def pretty(self, d=0):
        return f'it({self.lv}+{pretty(self.idx, d)})'

    __repr__ = pretty


class Fn(Val):
    """closure"""
    n = 0

    def __init__(self, fn, env, this):
        self.fn, self.env, self.this = fn, env, this
        Fn.n += 1
        self.id = Fn.n

    def __hash__(self):
        return hash(('fn', self.id))

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        return f'lambda@{self.fn["loc"]}'


class Comma(Val):
    def __init__(self, lv, r, c, rows, cols, bh):
        self.lv, self.r, self.c, self.rows, self.cols, self.bh = lv, r, c, rows, cols, bh


def ppath(p):
    terms._PB[0] -= 1
    if terms._PB[0] < 0:
        return '...'
    if isinstance(p, tuple) and p:
        if p[0] == 'f' and len(p) > 2:
            return ppath(p[1]) + '.' + str(p[2])
        if p[0] == 'el' and len(p) > 2:
            return ppath(p[1]) + '[' + pretty(p[2]) + ']'
        if p[0] == 'deref' and len(p) > 1:
            return '*' + ppath(p[1])
        if p[0] == 'ret' and len(p) > 1:
            return str(p[1]) + '(' + ', '.join(pretty(x) for x in p[2:]) + ')'
        if len(p) == 1:
            return str(p[0])
        return str(p[0]) + '(' + ', '.join(ppath(x) if isinstance(x, tuple) else pretty(x) for x in p[1:]) + ')'
    return pretty(p)


terms._pa_orig = terms._pa


def _pa(x, depth):
    d = ATOMS[x]
    if d[0] == 'app' and d[1] == '@':
        s = ppath(d[2])
        if len(d) > 3:
            s += '(' + ','.join(str(y) for y in d[3:]) + ')'
        return s
    return terms._pa_orig(x, depth)


terms._pa = _pa


def gcof(f, c):
    """simplify diagram f under care set c"""
    if c is True or not isinstance(f, Ite) or c is False:
        return f
    v = min(f.v, c.v)
    c1 = c.hi if c.v == v else c
    c0 = c.lo if c.v == v else c
    if c.v == v:
        if c1 is False:
            return gcof(f.lo if f.v == v else f, c0)
        if c0 is False:
            return gcof(f.hi if f.v == v else f, c1)
        if f.v != v:
            return gcof(f, bor(c1, c0))
    return _mk_any2(v, gcof(f.hi if f.v == v else f, c1), gcof(f.lo if f.v == v else f, c0))


def _mk_any2(v, hi, lo):
    return terms._mk_any(v, hi, lo)


def opaque_path(p):
    return isinstance(p, tuple) and bool(p) and p[0] in ('after', 'fold', 'ite')


def merge(c, a, b):
    """c ? a : b on arbitrary values"""
    if a is b or c is True:
        return a
    if c is False:
        return b
    if a is None:
        return b
    if b is None:
        return a
    if type(a) is type(b) and not isinstance(a, (Ite,)) and a == b:
        return a
    if isinstance(a, Mat) and isinstance(b, Mat) and (a.r, a.c) == (b.r, b.c):
        return Mat(a.r, a.c, [ite(c, x, y) for x, y in zip(a.e, b.e)])
    if isinstance(a, Struct) and isinstance(b, Struct) and a.path == b.path:
        ks = {k for k, _ in a.ups} | {k for k, _ in b.ups}
        ups = []
        for k in ks:
            va, vb = a.get(k), b.get(k)
            if va is None:
                va = CUR.fieldinit(a, k)
            if vb is None:
                vb = CUR.fieldinit(b, k)
            ups.append((k, merge(c, va, vb)))
        return Struct(a.path, a.tid, ups)
    if isinstance(a, Struct) and isinstance(b, Struct):
        if opaque_path(a.path) or opaque_path(b.path):
            return Struct(('ite', c, a, b), a.tid)
        rec = CUR.rec_of(a.tid)
        if rec:
            ups = []
            for k in CUR.db.fields(rec):
                ups.append((k, merge(c, CUR.sget(a, k), CUR.sget(b, k))))
            return Struct(('merged',), a.tid, ups)
    if isinstance(a, Arr) and isinstance(b, Arr):
        if a.path == b.path:
            n = 0
            while n < len(a.ups) and n < len(b.ups) and a.ups[n] == b.ups[n]:
                n += 1
            sa, sb = list(a.ups[n:]), list(b.ups[n:])
            pre = list(a.ups[:n])
            size = ite(c, a.size, b.size)
            if len(sa) == 1 and len(sb) == 1 and sa[0][0] == 's' and sb[0][0] == 's' and sa[0][2] == sb[0][2] and \
                    sa[0][1] is True and sb[0][1] is True:
                return Arr(a.path, a.et, size, pre + [('s', True, sa[0][2], merge(c, sa[0][3], sb[0][3]))])
            if len(sa) == 1 and len(sb) == 1 and sa[0][0] == 'r' and sb[0][0] == 'r' and sa[0][2:5] == sb[0][2:5] and \
                    sa[0][1] is True and sb[0][1] is True:
                return Arr(a.path, a.et, size, pre + [('r', True) + sa[0][2:5] + (merge(c, sa[0][5], sb[0][5]),)])
            return Arr(a.path, a.et, size, pre + [(u[0], band(c, u[1])) + u[2:] for u in sa] +
                       [(u[0], band(bnot(c), u[1])) + u[2:] for u in sb])
        return Arr(('ite', c, a, b), a.et, ite(c, a.size, b.size))
    if isinstance(a, It) and isinstance(b, It) and a.lv == b.lv:
        return It(a.lv, ite(c, a.idx, b.idx))
    if isinstance(a, Mat) and isinstance(b, (Poly, Ite)) and a.r * a.c == 1:
        return Mat(1, 1, [ite(c, a.e[0], b)])
    return ite(c, a, b)


class State:
    __slots__ = ('heap', 'cond', 'trace')

    def __init__(self, heap=None, cond=True, trace=()):
        self.heap = heap if heap is not None else {}
        self.cond = cond
        self.trace = list(trace)

    def copy(self):
        return State(dict(self.heap), self.cond, self.trace)

    def become(self, o):
        self.heap, self.cond, self.trace = o.heap, o.cond, o.trace


def join(a, b):
    """merge two states with disjoint conditions"""
    if a is None or a.cond is False:
        return b
    if b is None or b.cond is False:
        return a
    u = bor(a.cond, b.cond)
    c = gcof(a.cond, u)
    heap = {}
    for k in a.heap.keys() | b.heap.keys():
        va, vb = a.heap.get(k), b.heap.get(k)
        if va is vb:
            heap[k] = va
            continue
        if va is None:
            va = CUR.init_of(k)
        if vb is None:
            vb = CUR.init_of(k)
        if va is None and vb is None:
            continue
        heap[k] = merge(c, va, vb)
    n = 0
    ta, tb = a.trace, b.trace
    while n < len(ta) and n < len(tb) and ta[n] is tb[n]:
        n += 1
    return State(heap, u, ta[:n] + ta[n:] + tb[n:])


class Unsupported(Exception):
    pass


CUR = None

# virtual functions supplied by the user of the toolbox; assumed to be functions of their arguments and of what was set
PURE = {'computeDynamics', 'computeControlledDynamics', 'computePdot', 'computeVdot', 'computeControl', 'getDerivativeState',
        'getDerivativeControl', 'getDerivatives', 'getAandB', 'propagateDynamics', 'propagateControlledDynamics', 'evaluate', 'eval',
        'evaluateIntermediate', 'evaluateTerminal', 'stateDerivative', 'controlDerivative', 'stateSecondDerivative',
        'controlSecondDerivative', 'stateControlDerivative', 'jacobianState', 'jacobianInput', 'isActive', 'computeActivation', 'clone',
        'stateDerivativeIntermediate', 'stateDerivativeTerminal', 'stateSecondDerivativeIntermediate', 'stateSecondDerivativeTerminal',
        'controlDerivativeIntermediate', 'controlDerivativeTerminal', 'controlSecondDerivativeIntermediate',
        'controlSecondDerivativeTerminal', 'stateControlDerivativeIntermediate', 'stateControlDerivativeTerminal',
        'getDerivativeU0', 'getDerivativeU', 'getDerivativeUf', 'computeOutput', 'computeMeasurement', 'computeDerivativeState',
        'computeDerivativeNoise', 'jacobianStateSparse', 'jacobianInputSparse', 'sparsityPatternState', 'sparsityPatternInput',
        'getNumNonZerosJacobianState', 'getNumNonZerosJacobianInput', 'getConstraintSize', 'getConstraintsCount', 'callOnSubsteps', 'checkEvent',
        'jacobianStateIntermediate', 'jacobianInputIntermediate', 'jacobianStateTerminal', 'jacobianInputTerminal', 'sparsityPatternStateIntermediate',
        'sparsityPatternInputIntermediate', 'sparsityPatternStateTerminal', 'sparsityPatternInputTerminal', 'jacobianStateSparseIntermediate',
        'jacobianInputSparseIntermediate', 'jacobianStateSparseTerminal', 'jacobianInputSparseTerminal'}

# accessors: asking again, or not at all, changes nothing
ACCESSOR = re.compile('(get|is|has)[A-Z_]')

# calls on an LQ solver that compute separate parts of its result: their order does not matter, and a getter depends only on its part
FACET_W = {'compute_lv': 'lv', 'computeFeedbackMatrices': 'L', 'computeStatesAndControls': 'xu'}
FACET_R = {'get_lv': 'lv', 'getSolutionFeedback': 'L', 'getSolutionState': 'xu', 'getSolutionControl': 'xu'}


def facet_read(stt, f):
    """the history without the trailing updates of other parts"""
    if isinstance(stt, Opq) and isinstance(stt.path, tuple) and stt.path[0] == 'upd' and stt.path[1] in FACET_W:
        r = facet_read(stt.path[2], f)
        return r if FACET_W[stt.path[1]] != f else Opq(('upd', stt.path[1], r, *stt.path[3:]))
    return stt


def facet_write(stt, name, hs):
    """insert the update in canonical order among the commuting updates at the end of the history"""
    if isinstance(stt, Opq) and isinstance(stt.path, tuple) and stt.path[0] == 'upd' and stt.path[1] in FACET_W and not stt.path[3:] and not hs:
        if stt.path[1] == name:
            return stt
        if stt.path[1] > name:
            return Opq(('upd', stt.path[1], facet_write(stt.path[2], name, hs)))
    return Opq(('upd', name, stt, *hs))


IGNORED_STREAM = ('std::cout', 'std::cerr', 'std::clog')


class Interp:
    def __init__(self, db, dyncls=None, models=None, inline=True):
        global CUR
        CUR = self
        self.db = db
        self.dyncls = dyncls        # dynamic class of *this
        self.models = models or {}
        self.frames = 0
        self.objtypes = {}
        self.bufs = {}             # raw buffers of the caller that are seen as vectors
        self.unsup = []
        self.oob = []
        self.throws = []            # (cond, type, loc)
        self.givens = {}
        self.depth = 0
        self.loopdepth = 0
        self.tmpn = 0
        self.stack = []
        self.inlined = set()
        self.opaque_calls = {}
        self.foreign = set()        # library functions without a model that were treated as uninterpreted
        self.dyntypes = {}          # key -> clskey for pointers with known dynamic type
        self.noinline = set()
        self.shared = set()         # members that other threads change while this one waits
        self.effects = set()        # not inlined, and only the sequence of calls counts
        self.inout = set()          # not inlined, and their mutable reference arguments are also inputs
        self.pure = set()           # not inlined, known (by an obligation of its own) to write only its reference arguments
        self.assumes = True
        self.opq_log = []
        self.fuel = 400000
        terms.FACTS.clear()

    # ---- types
    def T(self, tid):
        return self.db.types[tid]

    def rec_of(self, tid):
        if tid is None:
            return None
        t = self.T(self.db.noref(tid))
        return t.get('key')

    def int_map(self, t):
        """std::map with integral, enumeration or string keys: an array over all keys"""
        return t.get('name') in ('std::map', 'std::unordered_map') and len(t.get('targs') or ()) > 1 and isinstance(t['targs'][0], int) and \
            (self.T(t['targs'][0]).get('k') in ('int', 'enum') or 'basic_string' in self.T(t['targs'][0]).get('s', ''))

    def vec_elem(self, t):
        """element type id if t is std::vector-like"""
        n = t.get('name')
        if n in ('std::vector', 'std::array', 'std::deque', 'std::initializer_list'):
            return t['targs'][0]
        if self.int_map(t):
            return t['targs'][1]
        if t.get('k') == 'rec' and t.get('own'):
            rec = self.db.records.get(t['key'])
            if rec:
                for b in rec['bases']:
                    r = self.vec_elem(self.T(b[1]))
                    if r is not None:
                        return r
        return None

    def pointee(self, t):
        if t.get('k') == 'ptr':
            return t['to']
        if t.get('name') in ('std::shared_ptr', 'std::unique_ptr', 'std::weak_ptr'):
            return t['targs'][0]
        return None

    def fresh(self, tid, path):
        """symbolic value of type tid at path"""
        tid = self.db.noref(tid)
        t = self.T(tid)
        k = t.get('k')
        if k == 'flt':
            return A(atom(('app', '@', path)))
        if k == 'int':
            return A(atom(('app', '@', path), True, bool(t.get('u'))))
        if k == 'enum':
            return A(atom(('app', '@', path), True, True))
        if k == 'bool':
            return bx(('@', path))
        if 'eig' in t:
            r, c = t['eig'][0], t['eig'][1]
            st = self.T(t['eig'][3])
            isint = st.get('k') == 'int'
            if r > 0 and c > 0:
                return Mat(r, c, [A(atom(('app', '@', path, i, j), isint)) for i in range(r) for j in range(c)])
            if c == 1 or r == 1:
                return Arr(path, t['eig'][3], A(atom(('app', 'size', path), True, True)))
            return Opq(path, tid)
        et = self.vec_elem(t)
        if et is not None:
            if t.get('name') == 'std::array':
                return Arr(path, et, C(t['targs'][1]))
            return Arr(path, et, A(atom(('app', 'size', path), True, True)))
        p = self.pointee(t)
        if p is not None:
            key = ('obj', ('deref', path))
            self.objtypes.setdefault(key, p)
            return Ptr(LV(key))
        if k == 'rec' and (t.get('own') or t.get('name') in ('std::pair', 'std::tuple')):
            return Struct(path, tid)
        if t.get('name') == 'std::atomic':
            return self.fresh(t['targs'][0], path)
        if t.get('name') == 'Eigen::Map' and isinstance(t['targs'][0], int):
            return self.fresh(t['targs'][0], path)
        return Opq(path, tid)

    def default(self, tid):
        """default-constructed value; POD left uninitialised"""
        tid = self.db.noref(tid)
        t = self.T(tid)
        self.tmpn += 1
        k = t.get('k')
        if k == 'rec':
            et = self.vec_elem(t)
            if et is not None:
                if t.get('name') == 'std::array':
                    return self.fresh(tid, ('uninit',))
                if self.int_map(t):
                    return Arr(('emptymap',), et, A(atom(('app', 'size', ('allkeys',)), True, True)))
                return Arr(('empty',), et, ZERO)
            if t.get('name') in ('std::shared_ptr', 'std::unique_ptr'):
                return NULL
            if 'eig' in t and (t['eig'][0] < 0 or t['eig'][1] < 0):
                if t['eig'][0] == 1 or t['eig'][1] == 1:
                    return Arr(('empty',), t['eig'][3], ZERO)
                return Opq(('emptymat',), tid)
        if k == 'ptr':
            return Opq(('uninit',), tid)
        return self.fresh(tid, ('uninit',))

    def zero(self, tid):
        t = self.T(self.db.noref(tid))
        k = t.get('k')
        if k in ('flt', 'int', 'enum'):
            return ZERO
        if k == 'bool':
            return False
        if k == 'ptr':
            return NULL
        return self.default(tid)

    def uns(self, why, tid=None):
        self.unsup.append(why)
        self.tmpn += 1
        p = ('?unsupported', why, self.tmpn)
        if tid is not None:
            try:
                return self.fresh(tid, p)
            except Exception:
                pass
        return Opq(p)

    # ---- heap
    def init_of(self, key):
        if key[0] == 'obj' and key[1][0] == 'calls':
            return Opq(('nocalls', key[1][1]))
        if key[0] == 'obj' and key[1][0] == 'foreach':
            return Opq(('nocalls', key[1]))
        if key in self.bufs:
            return self.bufs[key]
        tid = self.objtypes.get(key)
        if tid is None:
            return None
        if key[0] == 'obj':
            t = self.T(self.db.noref(tid))
            dyn = self.dyntypes.get(key)
            if t.get('k') == 'rec' and not ('eig' in t) and t.get('name') != 'Eigen::Map' and self.vec_elem(t) is None and self.pointee(t) is None:
                return Struct(key[1], tid)
            return self.fresh(tid, key[1])
        return None

    def load_root(self, st, key):
        v = st.heap.get(key)
        if v is None:
            v = self.init_of(key)
            if v is None:
                v = Opq(('unknown', key))
        return v

    def sget(self, s, f):
        v = s.get(f)
        if v is None and isinstance(s.path, tuple) and s.path and s.path[0] == 'ite' and len(s.path) == 4:
            return merge(s.path[1], self.sget(s.path[2], f), self.sget(s.path[3], f))
        return v if v is not None else self.fieldinit(s, f)

    def fieldinit(self, s, f):
        rec = self.rec_of(s.tid)
        t = None
        if rec:
            fi = self.db.fields(rec).get(f)
            if fi:
                t = fi[0]
            if t is None and self.dyncls and s.path == ('this',):
                fi = self.db.fields(self.dyncls).get(f)
                if fi:
                    t = fi[0]
        if t is None and s.tid is not None and f in ('first', 'second'):
            tt = self.T(self.db.noref(s.tid))
            if tt.get('name') == 'std::pair':
                t = tt['targs'][0 if f == 'first' else 1]
        if t is None:
            t = self.fieldtypes.get(f) if hasattr(self, 'fieldtypes') else None
        if t is None:
            return Opq(('f', s.path, f))
        return self.fresh(t, ('f', s.path, f))

    def aget(self, a, i):
        """read element i of an array value"""
        if isinstance(a, Ite):
            return merge_ite(a, lambda x: self.aget(x, i))
        if isinstance(a, Mat):
            k = i.const() if isinstance(i, Poly) else None
            if k is not None and 0 <= k < len(a.e):
                return a.e[int(k)]
            return self.matdyn(a, i)
        if not isinstance(a, Arr):
            if isinstance(a, Opq):
                return Opq(('el', a.path, i))
            return self.uns('index of ' + type(a).__name__)
        if isinstance(i, Ite):
            return lift_any(lambda j: self.aget(a, j), i)
        if a.et is None and not a.ups and a.path is not None and a.path[0] not in ('fill', 'copyof', 'ite', 'concat'):
            return Opq(('el', a.path, i))
        v = None
        acc = []        # pending (cond, val)
        for u in reversed(a.ups):
            if u[0] == 's':
                e = band(u[1], eq(u[2], i))
                if e is True:
                    v = u[3]
                    break
                if e is not False:
                    acc.append((e, u[3]))
            elif u[0] == 'r':
                if a.path == ('none',) and u[1] is True and u[2] is ZERO and u[3] is a.size:
                    ins = True      # an element-wise result has no other elements
                else:
                    ins = band(u[1], band(le(u[2], i), lt(i, u[3])))
                if ins is False:
                    continue
                val = subst(u[5], {u[4]: i})
                if ins is True:
                    v = val
                    break
                acc.append((ins, val))
            elif u[0] == 'x':
                v = self.elem0(a, ('el', u[1], i))
                break
        if v is None:
            if a.path is not None and a.path[0] == 'fill':
                v = a.path[1]
            elif a.path is not None and a.path[0] == 'copyof':
                v = self.aget(a.path[1], add(i, a.path[2]))
            elif a.path is not None and a.path[0] == 'ite':
                v = merge(a.path[1], self.aget(a.path[2], i), self.aget(a.path[3], i))
            elif a.path is not None and a.path[0] == 'concat':
                x, y = a.path[1], a.path[2]
                v = merge(lt(i, x.size), self.aget(x, i), self.aget(y, sub(i, x.size)))
            else:
                v = self.elem0(a, ('el', a.path, i))
        for e, w in reversed(acc):
            v = merge(e, w, v)
        return v

    def elem0(self, a, path):
        if a.et is not None:
            return self.fresh(a.et, path)
        for u in a.ups:
            if u[0] in 'sr' and isinstance(terms._leaf(u[-1]) if isinstance(u[-1], Ite) else u[-1], Poly):
                return A(atom(('app', '@', path)))
        return Opq(path)

    def matdyn(self, m, i):
        v = m.e[-1]
        for k in range(len(m.e) - 2, -1, -1):
            v = ite(eq(i, C(k)), m.e[k], v)
        return v

    def aset(self, a, i, v):
        if isinstance(a, Mat):
            k = i.const() if isinstance(i, Poly) else None
            if k is not None:
                e = list(a.e)
                e[int(k)] = v
                return Mat(a.r, a.c, e)
            return Mat(a.r, a.c, [ite(eq(i, C(k)), v, a.e[k]) for k in range(len(a.e))])
        if not isinstance(a, Arr):
            return Opq(('store', a, i, v))
        ups = list(a.ups)
        # drop an earlier store to the same index when everything in between is provably elsewhere
        for n in range(len(ups) - 1, -1, -1):
            u = ups[n]
            if u[0] != 's':
                break
            e = eq(u[2], i)
            if e is True:
                if u[1] is True or True:
                    ups.pop(n)
                break
            if e is not False:
                break
        return Arr(a.path, a.et, a.size, ups + [('s', True, i, v)])

    def read(self, st, lv):
        if isinstance(lv, LVIte):
            return merge(lv.c, self.read(st, lv.a), self.read(st, lv.b))
        if not isinstance(lv, LV):
            return lv
        v = self.load_root(st, lv.key)
        for a in lv.acc:
            v = self.racc(st, v, a)
        return v

    def inrange(self, st, i, n):
        """False (and noted) if the index is certainly outside 0..n-1"""
        k = i.const() if isinstance(i, Poly) else None
        m = n.const() if isinstance(n, Poly) else n if isinstance(n, int) else None
        if k is not None and (k < 0 or m is not None and k >= m):
            self.oob.append((st.cond,))
            return False
        return True

    def racc(self, st, v, a):
        if isinstance(v, Ite) and a[0] != 'T':
            return merge_ite(v, lambda x: self.racc(st, x, a))
        k = a[0]
        if k == 'f':
            if isinstance(v, Struct):
                return self.sget(v, a[1])
            if isinstance(v, Opq):
                t = None
                rec = self.rec_of(v.tid) if v.tid is not None else None
                if rec:
                    fi = self.db.fields(rec).get(a[1])
                    t = fi[0] if fi else None
                return self.fresh(t, ('f', v.path, a[1])) if t is not None else Opq(('f', v.path, a[1]))
            return self.uns(f'field {a[1]} of {type(v).__name__}')
        if k == 'i':
            if isinstance(v, (Mat, Arr)):
                self.inrange(st, a[1], len(v.e) if isinstance(v, Mat) else v.size)
            return self.aget(v, a[1])
        if k == 'e':
            if isinstance(v, Mat):
                r, c = a[1].const() if isinstance(a[1], Poly) else None, a[2].const() if isinstance(a[2], Poly) else None
                if r is not None and c is not None:
                    if not (self.inrange(st, a[1], v.r) and self.inrange(st, a[2], v.c)):
                        return v.e[0]
                    return v.at(int(r), int(c))
                return self.matdyn(Mat(v.r * v.c, 1, v.e), add(mul(a[1], C(v.c)), a[2]))
            return app('elem', v, a[1], a[2])
        if k == 'blk':
            r0, c0, nr, nc = a[1:]
            cs = [x.const() if isinstance(x, Poly) else None for x in (r0, c0, nr, nc)]
            if isinstance(v, Mat) and all(x is not None for x in cs):
                r0, c0, nr, nc = map(int, cs)
                if r0 < 0 or c0 < 0 or r0 + nr > v.r or c0 + nc > v.c:
                    self.oob.append((st.cond,))
                    return Mat(nr, nc, [ZERO] * (nr * nc))
                return Mat(nr, nc, [v.at(r0 + i, c0 + j) for i in range(nr) for j in range(nc)])
            if isinstance(v, Mat) and cs[2] is not None and cs[3] is not None:
                nr, nc = int(cs[2]), int(cs[3])
                fl = Mat(v.r * v.c, 1, v.e)
                return Mat(nr, nc, [self.matdyn(fl, add(mul(add(r0, C(i)), C(v.c)), add(c0, C(j)))) for i in range(nr) for j in range(nc)])
            if isinstance(v, Arr) and cs[2] is not None and cs[3] == 1:
                return Mat(int(cs[2]), 1, [self.aget(v, add(r0, C(i))) for i in range(int(cs[2]))])
            if isinstance(v, Arr) and cs[3] == 1:
                return Arr(('copyof', v, r0), v.et, nr)
            if cs[2] is not None and cs[3] is not None:
                nr, nc = int(cs[2]), int(cs[3])
                return Mat(nr, nc, [app('elem', v, add(r0, C(i)), add(c0, C(j))) for i in range(nr) for j in range(nc)])
            return Opq(('block', v, r0, c0, nr, nc))
        if k == 'T':
            return transpose(v)
        if k == 'diag':
            if isinstance(v, Mat):
                return Mat(min(v.r, v.c), 1, [v.at(i, i) for i in range(min(v.r, v.c))])
            return Opq(('diag', v))
        if k == 'id':
            return v
        if k == 'ridx':      # reverse-iterated element
            return self.aget(v, sub(sub(v.size, ONE), a[1]))
        return self.uns('accessor ' + k)

    def write(self, st, lv, v):
        if isinstance(lv, LVIte):
            old = st.copy()
            sa, sb = st.copy(), st.copy()
            self.write(sa, lv.a, v)
            self.write(sb, lv.b, v)
            for k in set(sa.heap) | set(sb.heap):
                x, y = sa.heap.get(k), sb.heap.get(k)
                x = self.init_of(k) if x is None else x
                y = self.init_of(k) if y is None else y
                st.heap[k] = merge(lv.c, x, y)
            return
        if not isinstance(lv, LV):
            self.uns('write to rvalue')
            return
        if not lv.acc:
            st.heap[lv.key] = v
            return
        root = self.load_root(st, lv.key)
        st.heap[lv.key] = self.upd(st, root, lv.acc, v)

    def upd(self, st, base, acc, v):
        if not acc:
            return v
        a = acc[0]
        k = a[0]
        if isinstance(base, Ite):
            return merge_ite(base, lambda x: self.upd(st, x, acc, v))
        if k == 'f':
            if isinstance(base, Opq):
                base = Struct(base.path, base.tid)
            if not isinstance(base, Struct):
                return self.uns('field write')
            return base.set(a[1], self.upd(st, self.sget(base, a[1]) if len(acc) > 1 else None, acc[1:], v))
        if k == 'i':
            if isinstance(base, (Mat, Arr)) and not self.inrange(st, a[1], len(base.e) if isinstance(base, Mat) else base.size):
                return base
            inner = self.upd(st, self.aget(base, a[1]) if len(acc) > 1 else None, acc[1:], v)
            if isinstance(a[1], Ite):
                return merge_ite(a[1], lambda j: self.aset(base, j, inner))
            return self.aset(base, a[1], inner)
        if k == 'e':
            if isinstance(base, Mat):
                r, c = a[1].const() if isinstance(a[1], Poly) else None, a[2].const() if isinstance(a[2], Poly) else None
                if r is not None and c is not None:
                    if not (self.inrange(st, a[1], base.r) and self.inrange(st, a[2], base.c)):
                        return base
                    e = list(base.e)
                    e[int(r) * base.c + int(c)] = v
                    return Mat(base.r, base.c, e)
                idx = add(mul(a[1], C(base.c)), a[2])
                return Mat(base.r, base.c, [ite(eq(idx, C(n)), v, x) for n, x in enumerate(base.e)])
            return Opq(('setelem', base, a[1], a[2], v), getattr(base, 'tid', None))
        if k == 'blk':
            r0, c0, nr, nc = a[1:]
            inner = self.upd(st, self.racc(st, base, a) if len(acc) > 1 else None, acc[1:], v)
            cs = [x.const() if isinstance(x, Poly) else None for x in (r0, c0, nr, nc)]
            if isinstance(base, Mat) and isinstance(inner, Mat) and cs[0] is not None and cs[1] is not None:
                r0, c0 = int(cs[0]), int(cs[1])
                if r0 < 0 or c0 < 0 or r0 + inner.r > base.r or c0 + inner.c > base.c:
                    self.oob.append((st.cond,))
                    return base
                e = list(base.e)
                for i in range(inner.r):
                    for j in range(inner.c):
                        e[(r0 + i) * base.c + c0 + j] = inner.at(i, j)
                return Mat(base.r, base.c, e)
            if isinstance(base, Mat) and isinstance(inner, Mat):
                for i in range(inner.r):
                    for j in range(inner.c):
                        base = self.upd(st, base, (('e', add(r0, C(i)), add(c0, C(j))),), inner.at(i, j))
                return base
            if isinstance(base, Arr) and isinstance(inner, Mat) and (inner.c == 1 or inner.r == 1):
                off = r0 if cs[3] == 1 else c0
                for i, x in enumerate(inner.e):
                    base = self.aset(base, add(off, C(i)), x)
                return base
            if isinstance(base, Arr) and isinstance(inner, Arr):
                b = bvatom(900 + self.loopdepth)
                off = r0
                lvl, bval = bindvar(b, self.aget(inner, sub(A(b), off)))
                return Arr(base.path, base.et, base.size, base.ups + (
                    ('r', True, off, add(off, nr), cb(lvl), bval),))
            return Opq(('setblock', base, r0, c0, nr, nc, inner), getattr(base, 'tid', None))
        if k == 'T':
            b = self.racc(st, base, a)
            return transpose(self.upd(st, b, acc[1:], v))
        if k == 'diag':
            if isinstance(base, Mat) and isinstance(v, Mat):
                e = list(base.e)
                for i in range(v.r * v.c):
                    e[i * base.c + i] = v.e[i]
                return Mat(base.r, base.c, e)
            return Opq(('setdiag', base, v))
        if k == 'id':
            return self.upd(st, base, acc[1:], v)
        return self.uns('write accessor ' + k)

    # ---- values
    def rv(self, st, x):
        if isinstance(x, (LV, LVIte)):
            return self.read(st, x)
        return x

    def coerce(self, v, tid):
        """value semantics when v initialises/assigns an object of type tid"""
        if tid is None:
            return v
        t = self.T(self.db.noref(tid))
        if 'eig' in t:
            r, c = t['eig'][0], t['eig'][1]
            if isinstance(v, (Poly, Ite)) and r == 1 and c == 1 and not isinstance(terms._leaf(v), Val):
                return Mat(1, 1, [v])
            if isinstance(v, Mat) and r > 0 and c > 0 and (v.r, v.c) != (r, c) and v.r * v.c == r * c:
                return Mat(r, c, v.e)
            if isinstance(v, Arr) and r > 0 and c > 0 and (r == 1 or c == 1):
                return Mat(r, c, [self.aget(v, C(i)) for i in range(r * c)])
            if isinstance(v, Opq) and r > 0 and c > 0:
                return self.fresh(tid, v.path) if v.path[0] != '?unsupported' else v
            return v
        if t.get('k') == 'flt' and isinstance(v, Mat) and v.r * v.c == 1:
            return v.e[0]
        if t.get('k') in ('flt', 'int') and (isinstance(v, bool) or (isinstance(v, Ite) and isinstance(terms._leaf(v), bool))):
            return tonum(v)
        if t.get('k') == 'bool' and not isinstance(v, bool):
            if isinstance(v, Ite) and isinstance(terms._leaf(v), bool):
                return v
            if isinstance(v, (Poly, Ite)):
                return tobool(v)
        return v

    def num(self, v):
        if isinstance(v, bool):
            return C(1 if v else 0)
        if isinstance(v, Ite) and isinstance(terms._leaf(v), bool):
            return tonum(v)
        if isinstance(v, Mat) and v.r * v.c == 1:
            return v.e[0]
        if isinstance(v, (Poly, Ite)):
            return v
        if isinstance(v, Opq):
            return A(atom(('app', '@', v.path)))
        return app('num', v if isinstance(v, Val) else str(v))

    def boolean(self, v):
        if isinstance(v, bool):
            return v
        if isinstance(v, Ite):
            return lift_any(self.boolean, v)
        if isinstance(v, Poly):
            return tobool(v)
        if isinstance(v, Ptr):
            if v.lv.key[0] == 'obj' and v.lv.key[1][0] == 'deref' and not v.lv.acc:
                return bx(('nonnull', v.lv.key[1][1]))
            return True
        if isinstance(v, Null):
            return False
        if isinstance(v, Fn):
            return True
        if isinstance(v, Opq):
            return bx(('truth', v.path))
        if isinstance(v, Mat) and v.r * v.c == 1:
            return tobool(v.e[0])
        return bx(('truth', v))

    # ---- calls
    def frame(self):
        self.frames += 1
        return {'id': self.frames}

    def bind(self, st, fr, did, tid, arg):
        """bind a parameter / declare a variable"""
        t = self.T(tid)
        if t.get('k') == 'ref' and isinstance(arg, (LV, LVIte)):
            fr[did] = arg
            return
        key = ('loc', fr['id'], did)
        self.objtypes[key] = self.db.noref(tid)
        fr[did] = LV(key)
        v = self.rv(st, arg)
        st.heap[key] = self.coerce(v, tid)

    def run(self, st, fn, this, args, loc=None):
        """inline fn; mutates st; returns value (may be LV)"""
        if self.depth > 60:
            return self.uns('inline depth at ' + fn['key'], fn['ret'])
        if self.stack.count(fn['key']) > 1:
            return self.uns('recursion ' + fn['key'], fn['ret'])
        self.depth += 1
        self.stack.append(fn['key'])
        self.inlined.add(fn['key'])
        fr = self.frame()
        fr['this'] = this
        try:
            for (did, name, tid), a in zip(fn['params'], args):
                self.bind(st, fr, did, tid, a)
            if 'inits' in fn:
                self.ctor_inits(st, fr, fn, this)
            out = self.ex(fn['body'], st, fr) if fn['body'] else {'n': st}
            res = self.finish(out, fn)
            st2, val = res
            if st2 is None:
                st.cond = False
                return Opq(('noreturn',))
            st.become(st2)
            return val
        finally:
            self.stack.pop()
            self.depth -= 1

    def finish(self, out, fn):
        stn = out.get('n')
        rets = list(out.get('r', []))
        if stn is not None and stn.cond is not False:
            rets.append((stn, None))
        rets = [(s, v) for s, v in rets if s.cond is not False]
        rt = fn.get('ret')
        if rt is not None and self.T(rt).get('k') != 'ref':
            rets = [(s, self.coerce(self.rv(s, v), rt)) for s, v in rets]
        if not rets:
            return None, None
        s, v = rets[0]
        for s2, v2 in rets[1:]:
            u = bor(s.cond, s2.cond)
            c = gcof(s.cond, u)
            if isinstance(v, (LV, LVIte)) or isinstance(v2, (LV, LVIte)):
                if v == v2:
                    nv = v
                elif isinstance(v, (LV, LVIte)) and isinstance(v2, (LV, LVIte)):
                    nv = LVIte(c, v, v2)
                else:
                    nv = merge(c, self.rv(s, v), self.rv(s2, v2))
            else:
                nv = merge(c, v, v2)
            s = join(s, s2)
            v = nv
        return s, v

    def ctor_inits(self, st, fr, fn, this):
        cls = fn.get('clskey')
        done = set()
        for kind, name, e, written, loc in fn['inits']:
            if kind == 'field':
                done.add(name)
                fi = self.db.fields(cls).get(name)
                tid = fi[0] if fi else None
                if e is None:
                    continue
                ft = self.T(tid) if tid is not None else {}
                if ft.get('k') == 'ref':
                    self.write(st, this.ext(('f', name)), self.ev(e, st, fr))
                    continue
                v = self.ev_init(e, st, fr, tid)
                self.write(st, this.ext(('f', name)), self.coerce(self.rv(st, v), tid))
            elif kind == 'base':
                self.construct_into(st, fr, e, this, name)
            else:
                self.construct_into(st, fr, e, this, cls)

    def construct_into(self, st, fr, e, this, clskey):
        if e is None:
            return
        if e[0] == 'ctor':
            fn = self.db.fns.get(e[1])
            args = [self.ev(a, st, fr) for a in e[2]]
            if fn is not None and not fn.get('implicit') and not fn.get('defaulted'):
                self.run(st, fn, this, args)
                return
            if e[4].get('copy') or e[4].get('move'):
                src = self.rv(st, args[0])
                if isinstance(src, Struct):
                    for f in self.db.fields(clskey):
                        self.write(st, this.ext(('f', f)), self.sget(src, f))
                    return
                cur = self.read(st, this)
                if isinstance(cur, Arr):
                    self.write(st, this, src)
                return
            if fn is not None:
                self.run(st, fn, this, args)
                return
            # base outside the repository (std::vector, Eigen): value construct
            t = self.T(e[3])
            if 'eig' in t or self.vec_elem(t) is not None:
                v = self.build(st, e, args)
                self.write(st, this, v)
            elif clskey not in self.db.records and args:
                self.write(st, this.ext(('f', '@base')), Opq(('ctor', clskey) + tuple(self.hv(st, a) for a in args)))
        elif e[0] in ('init', 'zero'):
            return

    def hv(self, st, a):
        """hashable rvalue for use inside an uninterpreted application"""
        v = self.rv(st, a)
        if isinstance(v, Ptr):
            # pass pointee identity, plus the contents of local objects
            if v.lv.key[0] in ('tmp', 'loc'):
                return self.hv(st, v.lv)
            return v
        if isinstance(v, (Comma,)):
            return Opq(('comma',))
        if isinstance(v, Ite) and self.has_ptr(v):
            return merge(mk(v.v, True, False), self.hv(st, v.hi), self.hv(st, v.lo))
        return v

    def has_ptr(self, v):
        return self.has_ptr(v.hi) or self.has_ptr(v.lo) if isinstance(v, Ite) else isinstance(v, Ptr)

    def call_fn(self, st, callee, args, tid, loc, modes=None):
        """call through a function value"""
        if isinstance(callee, Ite):
            pass
        if isinstance(callee, Fn):
            fr = self.frame()
            fr.update({k: v for k, v in callee.env.items() if k != 'id'})
            fr['this'] = callee.this
            fn = callee.fn
            self.depth += 1
            try:
                if self.depth > 60:
                    return self.uns('depth')
                for (did, name, t), a in zip(fn['params'], args):
                    self.bind(st, fr, did, t, a)
                out = self.ex(fn['body'], st, fr)
                st2, v = self.finish(out, fn)
                if st2 is None:
                    st.cond = False
                    return Opq(('noreturn',))
                st.become(st2)
                return v
            finally:
                self.depth -= 1
        if (tid is None or self.T(tid).get('k') == 'void') and modes and len(modes) == len(args) and 'm' not in modes and 'r' not in modes:
            # a call for its effect only: the callee has seen these arguments, in this order
            key = ('obj', ('calls', callee))
            old = self.load_root(st, key)
            st.heap[key] = Opq(('upd', 'called', old) + tuple(self.hv(st, a) for a in args))
            return None
        return self.opaque(st, 'call', ('fnval', callee), args, modes if modes and len(modes) == len(args) else ['c'] * len(args), tid, loc, const=True, outs=True)

    def opaque(self, st, name, objdesc, args, modes, tid, loc, const=True, objlv=None, outs=False, touched=None):
        """uninterpreted call; outs: mutable reference arguments are pure outputs"""
        outs = outs and name not in self.inout
        hs = tuple(Opq(('out',)) if m in ('m', 'r') and outs else self.hv(st, a) for a, m in zip(args, modes or ['c'] * len(args))) if \
            len(modes or ()) in (0, len(args)) else tuple(self.hv(st, a) for a in args)
        self.opaque_calls[name] = self.opaque_calls.get(name, 0) + 1
        stt = None
        if objlv is not None:
            stt = self.objstate(st, objlv, touched)
            if stt is not None and name in FACET_R and not isinstance(stt, Struct):
                stt = facet_read(stt, FACET_R[name])
        base = (name,) + ((objdesc,) if objdesc is not None else ()) + ((stt,) if stt is not None else ())
        st.trace.append((st.cond, name, objdesc, hs, loc))
        for i, (a, m) in enumerate(zip(args, modes)):
            if m in ('m', 'r'):
                tgt = None
                v = self.rv(st, a)
                if m == 'r':
                    tgt = a if isinstance(a, (LV, LVIte)) else None
                elif isinstance(v, Ptr):
                    tgt = v.lv
                elif isinstance(v, Null):
                    continue
                elif isinstance(a, (LV, LVIte)):
                    tgt = a
                if tgt is not None:
                    old = self.read(st, tgt)
                    self.write(st, tgt, self.havoc_like(old, ('ret', f'{name}#{i}', *base[1:], *hs)))
        if objlv is not None and not const and name not in PURE and name not in self.pure and name not in FACET_R and not ACCESSOR.match(name):
            b0 = stt if stt is not None else objdesc
            self.write(st, objlv.ext(('f', '@st')), facet_write(b0, name, hs) if name in FACET_W else Opq(('upd', name, b0, *hs)))
        if tid is None or self.T(tid).get('k') == 'void':
            return None
        return self.fresh(tid, ('ret', name, *base[1:], *hs))

    def objstate(self, st, lv, touched=None):
        v = self.read(st, lv)
        if isinstance(v, Struct):
            s = v.get('@st')
            if v.ups and any(k != '@st' for k, _ in v.ups):
                ups = v.ups
                if touched is not None:
                    # what the callee cannot reach is no part of its input
                    ups = tuple((k, x) for k, x in ups if k.startswith('@') or k in touched)
                    if all(k == '@st' for k, _ in ups):
                        return s
                return Struct(None, None, ups)
            return s
        return None

    def havoc_like(self, old, path):
        if isinstance(old, Mat):
            return Mat(old.r, old.c, [A(atom(('app', '@', path, i, j))) for i in range(old.r) for j in range(old.c)])
        if isinstance(old, Arr):
            return Arr(path, old.et, A(atom(('app', 'size', path), True, True)))
        if isinstance(old, Struct):
            return Struct(path, old.tid)
        if isinstance(old, bool) or (isinstance(old, Ite) and isinstance(terms._leaf(old), bool)):
            return bx(('@', path))
        if isinstance(old, (Poly, Ite)):
            l = old if isinstance(old, Poly) else terms._leaf(old)
            return A(atom(('app', '@', path), isinstance(l, Poly) and is_int(l) and bool(l.t)))
        return Opq(path, getattr(old, 'tid', None))

    def tmp(self, st, v, tid=None):
        self.tmpn += 1
        key = ('tmp', self.tmpn)
        st.heap[key] = v
        if tid is not None:
            self.objtypes[key] = tid
        return LV(key)

    def deref(self, st, p):
        p = self.rv(st, p)
        if isinstance(p, Ptr):
            return p.lv
        if isinstance(p, Ite):
            def go(x):
                if isinstance(x, Ite):
                    a, b = go(x.hi), go(x.lo)
                    if a is None:
                        return b
                    if b is None:
                        return a
                    return LVIte(mk(x.v, True, False), a, b)
                if isinstance(x, Ptr):
                    return x.lv
                if isinstance(x, Opq):
                    return self.deref(st, x)
                return None
            r = go(p)
            if r is not None:
                return r
        if isinstance(p, It):
            return p.lv.ext(('i', p.idx))
        if isinstance(p, MapIt) and p.idx is not None:
            return p.lv.ext(('mp', p.idx))
        if isinstance(p, Opq):
            key = ('obj', ('deref', p.path))
            t = self.pointee(self.T(p.tid)) if p.tid is not None else None
            if t is not None:
                self.objtypes.setdefault(key, t)
            return LV(key)
        if isinstance(p, (LV,)):
            return p
        if isinstance(p, Arr):
            return self.tmp(st, p).ext(('i', ZERO))
        self.unsup.append('deref of ' + type(p).__name__)
        return self.tmp(st, Opq(('deref?', p)))


def bvatom(d):
    return atom(('app', 'bv', d), True, True)


def lift_any(f, x):
    if isinstance(x, Ite):
        return merge(mk(x.v, True, False), lift_any(f, x.hi), lift_any(f, x.lo))
    return f(x)


merge_ite = lambda x, f: lift_any(f, x)


def transpose(v):
    if isinstance(v, Mat):
        return Mat(v.c, v.r, [v.at(i, j) for j in range(v.c) for i in range(v.r)])
    if isinstance(v, (Poly, Ite)):
        return v
    if isinstance(v, Opq) and v.path[0] == 'T':
        return v.path[1]
    return Opq(('T', v))


from vg_expr import *        # noqa: E402  (adds expression/statement/builtin methods to Interp)
