"""Expression and statement transfer functions of the value-graph interpreter."""
from fractions import Fraction
import re
import sys
vg = sys.modules['vg']
from terms import *
import terms
from vg import (Val, Mat, Struct, Arr, Opq, Str, Null, NULL, LV, LVIte, Ptr, It, MapIt, Fn, Comma, State, Interp, merge, join,
                gcof, bvatom, lift_any, merge_ite, transpose, Unsupported, IGNORED_STREAM, ppath)

SMART = ('std::shared_ptr', 'std::unique_ptr', 'std::__shared_ptr', 'std::__shared_ptr_access', 'std::weak_ptr')
VECS = ('std::vector', 'std::array', 'std::deque', 'std::_Vector_base')
MATH1 = {'exp', 'sin', 'cos', 'tan', 'tanh', 'log', 'atan', 'asin', 'acos', 'sinh', 'cosh', 'floor', 'ceil', 'round', 'log10'}


def flit(s):
    s = s.rstrip('fFlL')
    try:
        return Fraction(s)
    except ValueError:
        try:
            return Fraction(float(s))
        except ValueError:
            return None


def ev(self, e, st, fr):
    self.fuel -= 1
    if self.fuel < 0:
        raise Budget('fuel')
    k = e[0]
    f = EV.get(k)
    if f is None:
        return self.uns('expr ' + k + ' ' + str(e[1])[:40])
    return f(self, e, st, fr)


def rve(self, e, st, fr):
    return self.rv(st, self.ev(e, st, fr))


def ev_init(self, e, st, fr, tid):
    return self.ev(e, st, fr)


def e_var(self, e, st, fr):
    lv = fr.get(e[1])
    if lv is None:
        # static local or captured by unknown
        if len(e) > 4:
            key = ('static', e[1])
            self.objtypes[key] = e[3]
            return LV(key)
        return self.uns('unbound variable ' + e[2], e[3])
    return lv


def e_gvar(self, e, st, fr):
    if e[1] in IGNORED_STREAM:
        return Opq(('stream',))
    key = ('obj', ('global', e[1]))
    self.objtypes[key] = e[2]
    return LV(key)


def e_this(self, e, st, fr):
    return Ptr(fr['this']) if fr.get('this') is not None else self.uns('this')


def e_mem(self, e, st, fr):
    b = self.ev(e[1], st, fr)
    if e[5]:
        lv = self.deref(st, b)
    else:
        lv = b if isinstance(b, (LV, LVIte)) else self.tmp(st, b)
    if not hasattr(self, 'fieldtypes'):
        self.fieldtypes = {}
    self.fieldtypes[e[2]] = e[4]
    if isinstance(lv, LV) and lv.acc and lv.acc[-1][0] == 'mp' and e[2] == 'first':
        return lv.acc[-1][1]
    r = lv.ext(('f', e[2]))
    if self.T(e[4]).get('k') == 'ref':
        v = self.read(st, r)
        if isinstance(v, (LV, LVIte)):
            return v
    return r


def e_un(self, e, st, fr):
    op = e[1]
    if op == '*':
        return self.deref(st, self.ev(e[2], st, fr))
    if op == '&':
        x = self.ev(e[2], st, fr)
        if isinstance(x, LV):
            return Ptr(x)
        if isinstance(x, LVIte):
            return merge(x.c, Ptr(x.a), Ptr(x.b))
        return Ptr(self.tmp(st, x))
    if op in ('++', '--', '++p', '--p'):
        lv = self.ev(e[2], st, fr)
        v = self.rv(st, lv)
        d = ONE if op.startswith('+') else C(-1)
        if isinstance(v, It):
            n = It(v.lv, add(v.idx, d))
        else:
            n = add(self.num(v), d)
        self.write(st, lv, n)
        return v if op.endswith('p') else lv
    v = self.rve(e[2], st, fr)
    if op == '-':
        return neg(self.num(v)) if not isinstance(v, Mat) else Mat(v.r, v.c, [neg(x) for x in v.e])
    if op == '+':
        return v
    if op == '!':
        return bnot(self.boolean(v))
    if op == '~':
        return app('bitnot', v)
    return self.uns('unary ' + op)


def shortcircuit(self, e, st, fr, is_and):
    a = self.boolean(self.rve(e[2], st, fr))
    if a is (False if is_and else True):
        return a
    g = a if is_and else bnot(a)
    if g is True:
        return self.boolean(self.rve(e[3], st, fr))
    s2 = st.copy()
    s2.cond = band(st.cond, g)
    b = self.boolean(self.rve(e[3], s2, fr))
    s1 = st.copy()
    s1.cond = band(st.cond, bnot(g))
    changed = any(s2.heap.get(k) is not st.heap.get(k) for k in s2.heap if k[0] != 'tmp') or len(s2.trace) != len(st.trace) \
        or s2.cond is not band(st.cond, g)
    if changed:
        j = join(s2, s1)
        st.become(j)
    else:
        for k, v in s2.heap.items():
            if k not in st.heap:
                st.heap[k] = v
    return band(a, b) if is_and else bor(a, b)


def ptr_eq(self, a, b):
    if isinstance(a, Null):
        a, b = b, a
    if isinstance(b, Null):
        return bnot(self.boolean(a))

    def fixed(x):
        return isinstance(x, Ptr) and isinstance(x.lv, LV) and (x.lv.key[0] in ('loc', 'tmp') or (
            x.lv.key[0] == 'obj' and x.lv.key[1][0] in ('this', 'arg')))
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        if a == b:
            return True
        if fixed(a) and fixed(b):
            # distinct objects: arguments are assumed not to alias *this
            return False
    return None


def e_bin(self, e, st, fr):
    op = e[1]
    if op == '&&':
        return shortcircuit(self, e, st, fr, True)
    if op == '||':
        return shortcircuit(self, e, st, fr, False)
    if op == ',':
        self.ev(e[2], st, fr)
        return self.ev(e[3], st, fr)
    a = self.rve(e[2], st, fr)
    b = self.rve(e[3], st, fr)
    return self.binop(op, a, b, e[4], st)


def binop(self, op, a, b, tid, st):
    t = self.T(tid)
    if op in ('==', '!='):
        if isinstance(a, Null) or isinstance(b, Null):
            r = ptr_eq(self, a, b)
            return r if op == '==' else bnot(r)
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            r = ptr_eq(self, a, b)
            if r is not None:
                return r if op == '==' else bnot(r)
        if isinstance(a, MapIt) and isinstance(b, MapIt):
            r = self.mapit_eq(st, a, b)
        elif isinstance(a, It) and isinstance(b, It):
            r = eq(a.idx, b.idx)
        elif isinstance(a, (Poly, Ite, bool)) or isinstance(b, (Poly, Ite, bool)):
            if isinstance(a, bool) or isinstance(b, bool) or (isinstance(a, Ite) and isinstance(terms._leaf(a), bool)):
                if t.get('k') == 'bool' and all(isinstance(x, bool) or isinstance(x, Ite) for x in (a, b)) and \
                        all(isinstance(terms._leaf(x), bool) for x in (a, b)):
                    r = ite(a, b, bnot(b))
                else:
                    r = eq(self.num(a), self.num(b))
            elif isinstance(terms._leaf(a), Val) or isinstance(terms._leaf(b), Val):
                def f(x, y):
                    if isinstance(x, Null) or isinstance(y, Null):
                        return ptr_eq(self, x, y)
                    return eq(x, y)
                r = lift(f, a, b)
            else:
                r = eq(self.num(a), self.num(b))
        else:
            r = eq(a, b)
        return r if op == '==' else bnot(r)
    if isinstance(a, It) or isinstance(b, It):
        if op == '-' and isinstance(a, It) and isinstance(b, It):
            return sub(a.idx, b.idx)
        if op in ('+', '-') and isinstance(a, It):
            n = self.num(b)
            return It(a.lv, add(a.idx, n) if op == '+' else sub(a.idx, n))
        if op in ('<', '<=', '>', '>=') and isinstance(a, It) and isinstance(b, It):
            a, b = a.idx, b.idx
    if isinstance(a, Ptr) or isinstance(b, Ptr):
        if op == '+' and isinstance(a, Ptr):
            return Ptr(a.lv.ext(('off', self.num(b))))
        return self.uns('pointer arithmetic')
    a, b = self.num(a), self.num(b)
    if op == '+':
        return add(a, b)
    if op == '-':
        return sub(a, b)
    if op == '*':
        return mul(a, b)
    if op == '/':
        if t.get('k') == 'int':
            return idiv(a, b)
        return div(a, b)
    if op == '%':
        def md(x, y):
            cx, cy = x.const(), y.const()
            if cx is not None and cy:
                return C(int(cx) % int(cy))
            return app('imod', x, y, integer=True, nonneg=True)
        return lift(md, a, b)
    if op == '<':
        return lt(a, b)
    if op == '>':
        return lt(b, a)
    if op == '<=':
        return le(a, b)
    if op == '>=':
        return le(b, a)
    if op in ('&', '|', '^', '<<', '>>'):
        if t.get('k') == 'bool':
            x, y = self.boolean(a), self.boolean(b)
            return {'&': band, '|': bor}.get(op, lambda p, q: ite(p, bnot(q), q))(x, y)
        def bits(x, y):
            cx, cy = x.const(), y.const()
            if cx is not None and cy is not None and cx >= 0 and cy >= 0:
                return C({'&': int.__and__, '|': int.__or__, '^': int.__xor__, '<<': int.__lshift__, '>>': int.__rshift__}[op](int(cx), int(cy)))
            return app('bit' + op, x, y, integer=True)
        return lift(bits, tonum(a) if isinstance(a, bool) else a, tonum(b) if isinstance(b, bool) else b)
    return self.uns('binary ' + op)


def idiv(a, b):
    def f(x, y):
        cy = y.const()
        cx = x.const()
        if cx is not None and cy:
            q = abs(int(cx)) // abs(int(cy))
            return C(q if (cx >= 0) == (cy > 0) else -q)
        if cy and all((c / cy).denominator == 1 for c in x.t.values()) and is_int(x):
            return pscale(x, 1 / cy)
        return app('idiv', x, y, integer=True, nonneg=prove_nn(x) and prove_nn(y))
    return lift(f, a, b)


def e_asg(self, e, st, fr):
    op = e[1]
    if op == '=':
        v = self.rve(e[3], st, fr)
        lv = self.ev(e[2], st, fr)
        self.write(st, lv, self.coerce(v, e[4]))
        return lv
    lv = self.ev(e[2], st, fr)
    b = self.rve(e[3], st, fr)
    a = self.rv(st, lv)
    self.write(st, lv, self.coerce(self.binop(op[:-1], a, b, e[4], st), e[4]))
    return lv


def e_cond(self, e, st, fr):
    c = self.boolean(self.rve(e[1], st, fr))
    if c is True:
        return self.ev(e[2], st, fr)
    if c is False:
        return self.ev(e[3], st, fr)
    s1, s2 = st.copy(), st.copy()
    s1.cond, s2.cond = band(st.cond, c), band(st.cond, bnot(c))
    a = self.ev(e[2], s1, fr)
    b = self.ev(e[3], s2, fr)
    if s1.cond is False:
        st.become(s2)
        return b
    if s2.cond is False:
        st.become(s1)
        return a
    if isinstance(a, (LV, LVIte)) and isinstance(b, (LV, LVIte)):
        r = LVIte(c, a, b) if a != b else a
        # materialise when used as rvalue only
        va, vb = self.rv(s1, a), self.rv(s2, b)
        j = join(s1, s2)
        st.become(j)
        self._last_cond = merge(c, va, vb)
        return r
    va, vb = self.rv(s1, a), self.rv(s2, b)
    st.become(join(s1, s2))
    return merge(c, self.coerce(va, e[4]), self.coerce(vb, e[4]))


def e_idx(self, e, st, fr):
    b = self.ev(e[1], st, fr)
    i = self.num(self.rve(e[2], st, fr))
    v = self.rv(st, b)
    if isinstance(v, Ptr):
        return v.lv.ext(('i', i))
    if isinstance(b, LV):
        return b.ext(('i', i))
    return self.tmp(st, v).ext(('i', i))


def toint(p):
    c = p.const()
    if c is not None:
        return C(int(c))
    if is_int(p):
        return p
    # trunc of an integer-valued rounding is itself
    if len(p.t) == 1:
        (m, k), = p.t.items()
        if k == 1 and len(m) == 1 and m[0][1] == 1:
            d = ATOMS[m[0][0]]
            if d[0] == 'app' and d[1] in ('round', 'floor', 'ceil'):
                return app('int' + d[1], *d[2:], integer=True)
    return app('trunc', p, integer=True)


def e_cast(self, e, st, fr):
    kind = e[1]
    v = self.ev(e[3], st, fr)
    if kind == 'tobool':
        return self.boolean(self.rv(st, v))
    if kind == 'toint':
        return lift(toint, self.num(self.rv(st, v)))
    if kind == 'icast':
        x = self.rv(st, v)
        if self.T(e[2]).get('k') == 'bool':
            return self.boolean(x)
        return x if isinstance(x, Val) else self.num(x)
    if kind == 'void':
        return None
    if kind == 'dyn':
        x = self.rv(st, v)
        return Opq(('dyncast', x if isinstance(x, Val) else str(x), self.T(e[2])['s']), e[2])
    return v


def e_lambda(self, e, st, fr):
    env = {}
    for cap in e[2]:
        if cap[0] == 'ref':
            if cap[1] in fr:
                env[cap[1]] = fr[cap[1]]
        elif cap[0] == 'val':
            if cap[1] in fr:
                v = self.rv(st, fr[cap[1]])
                env[cap[1]] = self.tmp(st, v)
    return Fn(e[3], env, fr.get('this'))


def e_throw(self, e, st, fr):
    t = '?'
    if e[1] is not None:
        x = e[1]
        if x[0] == 'ctor':
            t = self.T(x[3])['s']
            if not x[1].startswith('std::') and False:
                pass
    self.throws.append((st.cond, t, at_throw(self, st, self.db.loc(e[2]))))
    st.cond = False
    return None


class ThrowLoc(str):
    """source location of a throw, with the state it left behind"""
    st = None


def at_throw(self, st, loc):
    if not getattr(self, 'tries', 0):
        return loc
    loc = ThrowLoc(loc)
    loc.st = st.copy()
    return loc


def e_new(self, e, st, fr):
    tid = e[1]
    key_tid = tid
    init = e[2]
    if init is not None and init[0] == 'ctor' and self.T(tid).get('own'):
        lv = self.tmp(st, Opq(('uninit',)), tid)
        v = self.build(st, init, [self.ev(a, st, fr) for a in init[2]], target=lv)
        st.heap[lv.key] = self.rv(st, v)
        self.dyntypes[lv.key] = self.T(tid).get('key')
        return Ptr(lv)
    if init is None:
        v = self.default(tid)
    else:
        v = self.rv(st, self.ev(init, st, fr))
    lv = self.tmp(st, v, tid)
    self.dyntypes[lv.key] = self.T(tid).get('key')
    return Ptr(lv)


def e_init(self, e, st, fr):
    t = self.T(e[2])
    vals = [self.rv(st, self.ev(x, st, fr)) for x in e[1]]
    if t.get('k') == 'rec' and t.get('own'):
        rec = self.db.records.get(t['key'])
        if rec and len(vals) == len(rec['fields']) and not rec['bases']:
            return Struct(('agg',), e[2], list(zip([f[0] for f in rec['fields']], vals)))
    if len(vals) == 1 and t.get('k') in ('int', 'flt', 'bool', 'ptr', 'enum'):
        return vals[0]
    if not vals and t.get('k') in ('int', 'flt', 'bool', 'ptr', 'enum'):
        return self.zero(e[2])
    et = t.get('to') if t.get('k') == 'arr' else self.vec_elem(t)
    if t.get('name') == 'std::array' and len(vals) == 1 and isinstance(vals[0], Arr):
        return vals[0]
    if et is not None:
        a = Arr(('lit',), et, C(len(vals)))
        for i, v in enumerate(vals):
            a = self.aset(a, C(i), v)
        return a
    return Opq(('init',) + tuple(v if isinstance(v, (Val, Poly, Ite)) else str(v) for v in vals), e[2])


def e_zero(self, e, st, fr):
    return self.zero(e[1])


def e_str(self, e, st, fr):
    return Str(e[1])


def e_fn(self, e, st, fr):
    return Opq(('fn', e[2]))


def e_ctor(self, e, st, fr):
    args = [self.ev(a, st, fr) for a in e[2]]
    return self.build(st, e, args)


def build(self, st, e, args, target=None):
    """value of a constructed object; target: where it lives (constructors may capture this)"""
    tid, fl = e[3], e[4]
    t = self.T(tid)
    m = self.models.get('ctor:' + fl['cls'])
    if m:
        r = m(self, st, e, None, args)
        if r is not NotImplemented:
            return r
    if 'ctor:' + fl['cls'].split('::')[-1].split('<')[0] in self.noinline and t.get('own'):
        return Struct(('new', fl['cls']) + tuple(self.hv(st, a) for a in args), tid)
    if (fl.get('copy') or fl.get('move')) and len(args) >= 1:
        fn = self.db.fns.get(e[1])
        if fn is None or fn.get('implicit') or fn.get('defaulted') or 'eig' in t or self.vec_elem(t) is not None:
            return self.rv(st, args[0])
    if 'eig' in t:
        r, c = t['eig'][0], t['eig'][1]
        vals = [self.rv(st, a) for a in args]
        if not vals:
            return self.default(tid)
        if len(vals) == 1:
            v = vals[0]
            if isinstance(v, (Poly, Ite)) and (r < 0 or c < 0) and (not isinstance(v, Ite) or isinstance(terms._leaf(v), Poly)):
                return self.sized(v, ONE, tid)
            if isinstance(v, (Poly, Ite)) and r * c != 1:
                return self.uns('matrix from scalar', tid)
            return self.coerce(v, tid)
        if r > 0 and c > 0 and r * c == len(vals):
            return Mat(r, c, [self.num(x) for x in vals])
        if len(vals) == 2 and (r < 0 or c < 0):
            return self.sized(vals[0], vals[1], tid)
        return self.uns('matrix ctor', tid)
    et = self.vec_elem(t)
    if et is not None:
        fn = self.db.fns.get(e[1])
        if fn is not None and not fn.get('implicit') and not fn.get('defaulted'):
            lv = self.tmp(st, Arr(('empty',), et, ZERO), tid)
            self.run(st, fn, lv, args)
            return self.read(st, lv)
        vals = [self.rv(st, a) for a in args]
        vals = [v for v in vals if not (isinstance(v, Opq) and v.path and v.path[0] == 'alloc')]
        if not vals:
            return self.default(tid) if self.int_map(t) else Arr(('empty',), et, ZERO)
        if self.int_map(t):
            if isinstance(vals[0], Arr) and vals[0].path != ('lit',):
                return vals[0]
            return map_lit(self, st, vals[0], tid)
        if isinstance(vals[0], Arr) and len(vals) == 1:
            return vals[0]
        if isinstance(vals[0], It) and len(vals) >= 2 and isinstance(vals[1], It):
            src = self.read(st, vals[0].lv)
            n = sub(vals[1].idx, vals[0].idx)
            if vals[0].idx is ZERO and isinstance(src, Arr) and n is src.size:
                return src
            return Arr(('copyof', src, vals[0].idx), et, n)
        n = self.num(vals[0])
        if len(vals) >= 2 and not isinstance(vals[1], Opq):
            return Arr(('fill', vals[1]), et, n)
        d = self.zero(et)
        return Arr(('fill', d), et, n)
    if t.get('name') in ('std::shared_ptr', 'std::unique_ptr'):
        if not args:
            return NULL
        return self.rv(st, args[0])
    if t.get('name') == 'std::function':
        return self.rv(st, args[0]) if args else NULL
    if t.get('name', '').startswith('std::') and t.get('name') in ('std::allocator',) or 'aligned_allocator' in t.get('name', ''):
        return Opq(('alloc',))
    if t.get('lambda'):
        return self.rv(st, args[0]) if args else self.uns('lambda ctor')
    if t.get('name') in ('std::basic_string', 'std::__cxx11::basic_string'):
        v = self.rv(st, args[0]) if args else Str('')
        return v
    if t.get('name') == 'std::pair' and not args:
        return Struct(('pair',), tid, [('first', self.default(t['targs'][0])), ('second', self.default(t['targs'][1]))])
    if t.get('name') == 'std::pair' and len(args) == 2:
        return Struct(('pair',), tid, [('first', self.rv(st, args[0])), ('second', self.rv(st, args[1]))])
    if t.get('name') == 'std::atomic' and args:
        return self.rv(st, args[0])
    fn = self.db.fns.get(e[1])
    if fn is not None and t.get('own'):
        if fn.get('implicit') or fn.get('defaulted'):
            if fl.get('copy') or fl.get('move'):
                return self.rv(st, args[0])
        if target is not None:
            lv = target
            st.heap[lv.key] = Struct(('new', fl['cls']), tid)
        else:
            lv = self.tmp(st, Struct(('new', fl['cls']), tid), tid)
        self.dyntypes[lv.key] = t.get('key')
        self.run(st, fn, lv, args)
        return self.read(st, lv)
    if t.get('name', '').startswith('__gnu_cxx::__normal_iterator') and args:
        return self.rv(st, args[0])
    if fl['cls'] == 'Eigen::Ref' and args:
        return self.rv(st, args[0])
    if fl['cls'] == 'Eigen::Map' and len(args) >= 2:
        # the storage of a matrix (column-major) seen as a vector
        p, n = self.rv(st, args[0]), self.rv(st, args[1])
        if isinstance(p, Ptr) and isinstance(n, Poly) and all(x == ONE for x in (self.rv(st, y) for y in args[2:]) if isnum(x)) and p.lv.key[0] != 'obj':
            v = self.read(st, p.lv)
            if isinstance(v, Arr) and v.size is n or isinstance(v, Mat) and v.c == 1 and n == C(v.r):
                return p.lv
            if isinstance(v, Mat) and n == C(v.r * v.c):
                return Mat(v.r * v.c, 1, [v.at(i, j) for j in range(v.c) for i in range(v.r)])
        if isinstance(p, Ptr) and isinstance(n, Poly) and not any(isnum(self.rv(st, x)) for x in args[2:]) and p.lv.key[0] == 'obj' and p.lv.key[1][0] == 'deref' and p.lv == LV(p.lv.key) \
                and isinstance(t['targs'][0], int) and 'eig' in self.T(t['targs'][0]) and self.T(t['targs'][0])['eig'][1] == 1:
            # a raw buffer of the caller, seen as a vector of the given length
            key = ('obj', ('buf', p.lv.key[1][1]))
            v = Arr(key[1], self.T(t['targs'][0])['eig'][3], n)
            self.bufs.setdefault(key, v)
            o = st.heap.get(key)
            if o is None:
                st.heap[key] = v
            if o is None or isinstance(o, Arr) and o.size is n:
                return LV(key)
    if fl['cls'] == 'std::complex' and args:
        # a real number seen as a complex one
        a = [self.rv(st, x) for x in args]
        if all(isnum(x) for x in a) and (len(a) == 1 or self.num(a[1]) == ZERO):
            return self.num(a[0])
    self.foreign.add(fl['cls'])
    return Opq(('ctor', fl['cls']) + tuple(self.hv(st, a) for a in args), tid)


def sized(self, r, c, tid):
    t = self.T(self.db.noref(tid))
    fr_, fc = t['eig'][0], t['eig'][1]
    if fr_ > 0:
        r = C(fr_)
    if fc > 0:
        c = C(fc)
    cr, cc = (x.const() if isinstance(x, Poly) else None for x in (r, c))
    self.tmpn += 1
    if cr is not None and cc is not None and cr * cc <= 400:
        return Mat(int(cr), int(cc), [A(atom(('app', '@', ('uninit',), i, j))) for i in range(int(cr)) for j in range(int(cc))])
    if cc == 1:
        return Arr(('uninitvec',), t['eig'][3], r)
    if cr == 1:
        return Arr(('uninitvec',), t['eig'][3], c)
    return Opq(('dynmat', r, c), tid)


def e_call(self, e, st, fr):
    key, name, obj, args, tid, fl, loc = e[1], e[2], e[3], e[4], e[5], e[6], e[7]
    cls = fl.get('cls')
    # stream output has no modelled effect
    if (name.endswith('operator<<')) and self.is_stream(e, st, fr):
        return Opq(('stream',))
    for mk_ in ((cls + '::' + name) if cls else None, name):
        if mk_ in self.models:
            o = self.ev(obj, st, fr) if obj is not None else None
            if o is not None and fl.get('arrow'):
                o = self.deref(st, o)
            a = [self.ev(x, st, fr) for x in args]
            r = self.models[mk_](self, st, e, o, a)
            if r is not NotImplemented:
                return r
    if fl.get('lam'):
        c = self.rve(obj, st, fr)
        return self.call_fn(st, c, [self.ev(x, st, fr) for x in args], tid, loc)
    if cls is None or fl.get('static'):
        fn = self.db.fns.get(key)
        if not (fn is not None and fn['body'] is not None and name.startswith('Eigen::')):
            r = self.builtin_free(name, e, args, st, fr, tid)
            if r is not NotImplemented:
                return r
        a = [self.ev(x, st, fr) for x in args]
        if fn is not None and fn['body'] is not None and name not in self.noinline:
            return self.run(st, fn, None, a)
        if not fl.get('own') and (fn is None or fn['body'] is None):
            self.foreign.add(name)
        return self.opaque(st, name, None, a, fl.get('p', []), tid, loc)
    # methods
    o = self.ev(obj, st, fr)
    if fl.get('arrow'):
        o = self.deref(st, o)
    ov = None
    if cls.startswith('Eigen::') or cls.startswith('std::') or cls.startswith('__gnu_cxx') or cls.startswith('ct::core::') and name.startswith('operator') or not fl.get('own'):
        r = self.builtin_method(cls, name, e, o, args, st, fr, tid, fl)
        if r is not NotImplemented:
            return r
    a = [self.ev(x, st, fr) for x in args]
    target = key
    if fl.get('virt'):
        dyn = None
        if isinstance(o, LV):
            if o.key == ('obj', ('this',)) and not o.acc:
                dyn = self.dyncls
            elif not o.acc and o.key in self.dyntypes:
                dyn = self.dyntypes[o.key]
        target = self.db.overrider(dyn, key) if dyn else None
    fn = self.db.fns.get(target) if target else None
    lo = o if isinstance(o, (LV, LVIte)) else self.tmp(st, o)
    if fn is not None and fn['body'] is not None and (cls + '::' + name) not in self.noinline and name not in self.noinline:
        if fn.get('implicit') or fn.get('defaulted'):
            if name == 'operator=':
                self.write(st, lo, self.rv(st, a[0]))
                return lo
        return self.run(st, fn, lo, a)
    if name == 'operator=' and a:
        self.write(st, lo, self.coerce(self.rv(st, a[0]), tid))
        return lo
    return self.mcall(st, lo, name, a, tid, fl, loc, fn, key)


def mcall(self, st, lo, name, a, tid, fl, loc, fn, key=None):
    """call of a member function that is not analysed; on a conditional receiver: one call per alternative"""
    if isinstance(lo, LVIte):
        sa, sb = st.copy(), st.copy()
        sa.cond, sb.cond = band(st.cond, lo.c), band(st.cond, bnot(lo.c))
        if sa.cond is False or sb.cond is False:
            return self.mcall(st, lo.b if sa.cond is False else lo.a, name, a, tid, fl, loc, fn, key)
        ra = self.mcall(sa, lo.a, name, a, tid, fl, loc, fn, key)
        rb = self.mcall(sb, lo.b, name, a, tid, fl, loc, fn, key)
        c0 = st.cond
        st.become(join(sa, sb))
        st.cond = c0
        if ra is None or rb is None:
            return None
        if isinstance(ra, (LV, LVIte)) and isinstance(rb, (LV, LVIte)):
            return ra if ra == rb else LVIte(lo.c, ra, rb)
        return merge(lo.c, self.rv(st, ra), self.rv(st, rb))
    if name == 'get' and (fl.get('cls') or '').endswith('basic_ptree') and len(a) in (1, 2):
        # an entry of a configuration file: absent, or read as the type asked for
        ks = (self.hv(st, lo), self.hv(st, a[0]))
        gone = bx(('missing',) + ks)
        x = self.fresh(tid, ('entry',) + ks)
        if len(a) == 2:
            return merge(gone, self.coerce(self.rv(st, a[1]), tid), x)
        self.throws.append((band(st.cond, gone), 'ptree_error', at_throw(self, st, loc)))
        st.cond = band(st.cond, bnot(gone))
        return x
    desc = self.objdesc(st, lo)
    if name in self.effects and isinstance(lo, LV) and fl.get('own'):
        # the sequence of these calls with their arguments is the effect that is compared
        hs = tuple(self.hv(st, x) for x in a)
        st.trace.append((st.cond, name, desc, hs, loc))
        cur = self.read(st, lo)
        s0 = cur.get('@st') if isinstance(cur, Struct) else None
        self.write(st, lo.ext(('f', '@st')), Opq(('upd', name, s0 if s0 is not None else Opq(('nocalls', 0)), *hs)))
        return None if self.T(tid).get('k') == 'void' else self.fresh(tid, ('ret', name) + hs)
    if name in self.noinline and name not in self.pure and isinstance(lo, LV) and not lo.acc and not fl.get('const') and fl.get('own'):
        cur = self.load_root(st, lo.key)
        hs = tuple(self.hv(st, x) for x in a)
        st.trace.append((st.cond, name, desc, hs, loc))
        if isinstance(cur, Struct):
            # reference members keep their identity
            cur = detmp(self, st, cur)
            new = Struct(('after', name, cur) + hs, cur.tid)
            st.heap[lo.key] = new
            for i, (x, m_) in enumerate(zip(a, fl.get('p', []))):
                if m_ in ('m', 'r') and isinstance(x, (LV, LVIte)):
                    self.write(st, x, self.havoc_like(self.read(st, x), ('ret', f'{name}#{i}', cur) + hs))
            if self.T(tid).get('k') == 'void':
                return None
            return self.fresh(tid, ('ret', name, cur) + hs)
    if isinstance(lo, LV) and name.startswith('set') and not fl.get('const') and self.T(tid).get('k') == 'void':
        hs = tuple(self.hv(st, x) for x in a)
        st.trace.append((st.cond, name, desc, hs, loc))
        self.write(st, lo.ext(('f', '@' + name)), hs[0] if len(hs) == 1 else Opq(('args',) + hs))
        return None
    if not fl.get('own') and (fn is None or fn['body'] is None):
        self.foreign.add(name)
    r = self.opaque(st, name, desc, a, fl.get('p', []), tid, loc, const=bool(fl.get('const')),
                    objlv=lo if isinstance(lo, LV) else None, outs=bool(fl.get('own')), touched=self.db.touched(key) if key and fl.get('own') else None)
    if name in COUNT_OF and isinstance(r, Arr) and not a and key and fl.get('own'):
        # the length of what a constraint returns is the count it announces (C07 decides that)
        szt = next((i for i, t in enumerate(self.db.types) if t.get('s') == 'unsigned long'), None)
        if szt is not None:
            c = COUNT_OF[name]
            k2 = key.rsplit('::', 1)[0] + '::' + c + '()'
            n = self.opaque(st, c, desc, [], [], szt, loc, const=False, objlv=lo if isinstance(lo, LV) else None, outs=True,
                            touched=self.db.touched(k2))
            r = Arr(r.path, r.et, n, r.ups)
    return r


COUNT_OF = {}
for _k in ('Intermediate', 'Terminal'):
    for _n in ('evaluate%s', 'getLowerBounds%s', 'getUpperBounds%s'):
        COUNT_OF[_n % _k] = 'get%sConstraintsCount' % _k
    for _n in ('State', 'Input'):
        COUNT_OF['jacobian%sSparse%s' % (_n, _k)] = 'getJacobian%sNonZeroCount%s' % (_n, _k)


def detmp(self, st, v, depth=0):
    """pointers to objects created here stand for the contents of these objects"""
    if depth > 4:
        return v
    if isinstance(v, Ptr) and isinstance(v.lv, LV) and v.lv.key[0] == 'tmp':
        return Opq(('ptrto', detmp(self, st, self.read(st, v.lv), depth + 1)))
    if isinstance(v, Struct) and v.ups:
        ups = [(k, detmp(self, st, x, depth + 1)) for k, x in v.ups]
        if any(a is not b for (_, a), (_, b) in zip(ups, v.ups)):
            return Struct(v.path, v.tid, ups)
    if isinstance(v, Ite) and not isinstance(terms._leaf(v), (Poly, bool)):
        return merge(mk(v.v, True, False), detmp(self, st, v.hi, depth + 1), detmp(self, st, v.lo, depth + 1))
    return v


def objdesc(self, st, lo):
    if isinstance(lo, LV):
        if lo.key[0] in ('loc', 'tmp'):
            v = self.read(st, lo)
            return v if not isinstance(v, (bool,)) else Opq(('b',))
        return (lo.key[1] if lo.key[0] == 'obj' else lo.key,) + tuple(lo.acc)
    if isinstance(lo, LVIte):
        return ('iteo', lo.c, self.objdesc(st, lo.a), self.objdesc(st, lo.b))
    return lo


def is_stream(self, e, st, fr):
    x = e
    n = 0
    while x and x[0] == 'call' and x[2].endswith('operator<<') and n < 200:
        n += 1
        x = x[3] if x[3] is not None else x[4][0]
    if x and x[0] == 'gvar':
        return x[1] in IGNORED_STREAM or 'ostream' in self.T(x[2])['s']
    if x and x[0] in ('var', 'mem'):
        t = self.T(self.db.noref(x[3] if x[0] == 'var' else x[4]))
        return 'stream' in t['s']
    return False


def e_icall(self, e, st, fr):
    c = self.rve(e[1], st, fr)
    a = [self.ev(x, st, fr) for x in e[2]]
    return self.call_fn(st, c, a, e[3], e[4])


def e_bfn(self, e, st, fr):
    return Opq(('bfn', e[2]))


EV = {
    'int': lambda s, e, st, fr: C(e[1]),
    'enum': lambda s, e, st, fr: C(e[1]),
    'flt': lambda s, e, st, fr: C(flit(e[1])) if flit(e[1]) is not None else s.uns('literal ' + e[1]),
    'bool': lambda s, e, st, fr: bool(e[1]),
    'str': e_str, 'null': lambda s, e, st, fr: NULL, 'this': e_this, 'var': e_var, 'gvar': e_gvar, 'mem': e_mem,
    'un': e_un, 'bin': e_bin, 'asg': e_asg, 'cond': e_cond, 'idx': e_idx, 'cast': e_cast, 'lambda': e_lambda,
    'throw': e_throw, 'new': e_new, 'init': e_init, 'zero': e_zero, 'fn': e_fn, 'ctor': e_ctor, 'call': e_call,
    'icall': e_icall, 'bfn': e_bfn, 'delete': lambda s, e, st, fr: None,
}


# ---------------------------------------------------------------------------------------------- builtins
def matop(f, a, b):
    return Mat(a.r, a.c, [f(x, y) for x, y in zip(a.e, b.e)])


def isnum(v):
    return isinstance(v, (Poly, bool)) or (isinstance(v, Ite) and isinstance(terms._leaf(v), (Poly, bool)))


def vadd(self, a, b, s=1):
    if isinstance(a, Mat) and isinstance(b, Mat):
        if (a.r, a.c) == (b.r, b.c):
            return matop(add if s > 0 else sub, a, b)
        if a.r * a.c == b.r * b.c:
            return Mat(a.r, a.c, [(add if s > 0 else sub)(x, y) for x, y in zip(a.e, b.e)])
        return self.uns('matrix add dims')
    if isinstance(a, Mat) and isnum(b):
        b = self.num(b)
        return Mat(a.r, a.c, [(add if s > 0 else sub)(x, b) for x in a.e])
    if isnum(a) and isinstance(b, Mat):
        a = self.num(a)
        return Mat(b.r, b.c, [(add if s > 0 else sub)(a, x) for x in b.e])
    if isnum(a) and isnum(b):
        return (add if s > 0 else sub)(self.num(a), self.num(b))
    if isinstance(a, Mat):
        b = Mat(a.r, a.c, [app('elem', b, C(i), C(j)) for i in range(a.r) for j in range(a.c)]) if not isinstance(b, Arr) else \
            Mat(a.r, a.c, [self.aget(b, C(i)) for i in range(a.r * a.c)])
        return vadd(self, a, b, s)
    if isinstance(b, Mat):
        a = Mat(b.r, b.c, [app('elem', a, C(i), C(j)) for i in range(b.r) for j in range(b.c)]) if not isinstance(a, Arr) else \
            Mat(b.r, b.c, [self.aget(a, C(i)) for i in range(b.r * b.c)])
        return vadd(self, a, b, s)
    if isinstance(a, Arr) and (isnum(b) or isinstance(b, Arr)) or isnum(a) and isinstance(b, Arr):
        return arrmap(self, add if s > 0 else sub, a, b)
    return Opq(('madd' if s > 0 else 'msub', a, b))


def arrmap(self, f, a, b):
    """element-wise operation on dynamic vectors (or a dynamic vector and a scalar)"""
    x = a if isinstance(a, Arr) else b
    bv = bvatom(930 + self.loopdepth)
    g = lambda v: self.num(self.aget(v, A(bv))) if isinstance(v, Arr) else self.num(v)
    lvl, fv = bindvar(bv, f(g(a), g(b)))
    return normfill(Arr(('none',), x.et, x.size), cb(lvl), fv)


def vmul(self, a, b):
    if isinstance(a, Mat) and isinstance(b, Mat):
        if a.c == b.r:
            out = []
            for i in range(a.r):
                for j in range(b.c):
                    s = ZERO
                    for k in range(a.c):
                        s = add(s, mul(a.at(i, k), b.at(k, j)))
                    out.append(s)
            return Mat(a.r, b.c, out)
        if a.r * a.c == 1:
            return Mat(b.r, b.c, [mul(a.e[0], x) for x in b.e])
        if b.r * b.c == 1:
            return Mat(a.r, a.c, [mul(b.e[0], x) for x in a.e])
        return self.uns('matrix product dims')
    if isinstance(a, Mat) and isnum(b):
        b = self.num(b)
        return Mat(a.r, a.c, [mul(x, b) for x in a.e])
    if isnum(a) and isinstance(b, Mat):
        return vmul(self, b, a)
    if isnum(a) and isnum(b):
        return mul(self.num(a), self.num(b))
    return Opq(('mmul', a, b))


def vscale_div(self, a, b):
    b = self.num(b)
    if isinstance(a, Mat):
        return Mat(a.r, a.c, [div(x, b) for x in a.e])
    if isnum(a):
        return div(self.num(a), b)
    return Opq(('mdiv', a, b))


def minv(self, m):
    if isinstance(m, Mat):
        if m.r == m.c == 1:
            return Mat(1, 1, [div(ONE, m.e[0])])
        k = Mat(m.r, m.c, m.e)
        return Mat(m.r, m.c, [app('inv', k, i, j) for i in range(m.r) for j in range(m.c)])
    return Opq(('inv', m))


def builtin_free(self, name, e, args, st, fr, tid):
    if name in ('__assert_fail', 'abort', 'std::abort', 'exit', 'std::exit', 'std::terminate', '__assert_rtn', 'quick_exit'):
        if name == '__assert_fail' and fr.get('looped'):
            # an assertion about what a loop has computed is compiled out, not a precondition
            return None
        if name == '__assert_fail':
            self.assumes = band(self.assumes, bnot(st.cond))
        else:
            self.throws.append((st.cond, name, self.db.loc(e[7])))
        st.cond = False
        return None
    if name == 'spec::assume':
        c = self.boolean(self.rve(args[0], st, fr))
        self.assumes = band(self.assumes, bor(bnot(st.cond), c))
        st.cond = band(st.cond, c)
        return None
    if name == 'spec::given':
        a, b = self.rve(args[0], st, fr), self.rve(args[1], st, fr)
        (m, k), = a.t.items()
        self.givens[m[0][0]] = b
        return None
    n = name.split('::')[-1]
    std = name.startswith('std::') or '::' not in name or name.startswith('__builtin') or name.startswith('__gnu')
    A_ = lambda i: self.rve(args[i], st, fr)
    if n in ('operator+', 'operator-', 'operator*', 'operator/', 'operator==', 'operator!=', 'operator<', 'operator>', 'operator<=',
             'operator>=') and (name.startswith('Eigen') or name.startswith('std') or name.startswith('__gnu') or '::' not in name):
        op = n[8:]
        a = A_(0)
        b = A_(1) if len(args) > 1 else None
        if b is None:
            return NotImplemented
        if op in ('==', '!='):
            if isinstance(a, Mat) and isinstance(b, Mat):
                r = True
                for x, y in zip(a.e, b.e):
                    r = band(r, eq(x, y))
                return r if op == '==' else bnot(r)
            return self.binop(op, a, b, tid, st)
        if isinstance(a, It) or isinstance(b, It):
            return self.binop(op, a, b, tid, st)
        if isinstance(a, (Str,)) or isinstance(b, Str) or 'basic_string' in self.T(self.db.noref(tid))['s']:
            return strcat(a, b)
        if op == '+':
            return vadd(self, a, b)
        if op == '-':
            return vadd(self, a, b, -1)
        if op == '*':
            return vmul(self, a, b)
        if op == '/':
            return vscale_div(self, a, b)
        return self.binop(op, a, b, tid, st)
    if not std and not name.startswith('Eigen'):
        return NotImplemented
    if n in ('move', 'forward', 'ref', 'cref', 'addressof') and len(args) == 1:
        r = self.ev(args[0], st, fr)
        return Ptr(r) if n == 'addressof' else r
    if n == 'as_const':
        return self.ev(args[0], st, fr)
    if n in ('static_pointer_cast', 'const_pointer_cast', 'reinterpret_pointer_cast') or n == 'dynamic_pointer_cast':
        v = A_(0)
        if n == 'dynamic_pointer_cast':
            return Opq(('dyncast', v, self.T(tid)['s']), tid)
        return v
    if n in ('make_shared', 'allocate_shared', 'make_unique'):
        t = self.pointee(self.T(tid))
        a = [self.ev(x, st, fr) for x in args]
        if n == 'allocate_shared':
            a = a[1:]
        return self.make(st, t, a)
    if n in ('max', 'min', 'fmax', 'fmin') and len(args) == 2:
        a, b = A_(0), A_(1)
        if isnum(a) and isnum(b):
            return (vmax if 'max' in n else vmin)(self.num(a), self.num(b))
    if n in ('abs', 'fabs'):
        a = A_(0)
        if isnum(a):
            return vabs(self.num(a))
    if n in MATH1:
        a = A_(0)
        if isnum(a):
            a = self.num(a)

            def g(p):
                c = p.const()
                if n in ('floor', 'ceil', 'round'):
                    if is_int(p):
                        return p
                    if c is not None:
                        import math
                        return C({'floor': math.floor, 'ceil': math.ceil, 'round': lambda z: math.floor(z + Fraction(1, 2)) if z >= 0 else -math.floor(-z + Fraction(1, 2))}[n](c))
                if n == 'exp' and c == 0:
                    return ONE
                if n in ('sin', 'tanh', 'tan', 'atan') and c == 0:
                    return ZERO
                if n == 'cos' and c == 0:
                    return ONE
                return app(n, p)
            return lift(g, a)
    if n == 'lround' or n == 'llround':
        return fapp('intround', self.num(A_(0)), integer=True)
    if n == 'sqrt':
        return lift(lambda p: ppow(p, Fraction(1, 2)), self.num(A_(0)))
    if n == 'pow':
        a, b = A_(0), A_(1)
        if isinstance(a, Mat):
            bs = b.e if isinstance(b, Mat) else [self.num(b)] * len(a.e)
            return Mat(a.r, a.c, [npow(x, y) for x, y in zip(a.e, bs)])
        return npow(self.num(a), self.num(b))
    if n in ('isnan', 'isinf', 'isfinite') or n in ('__builtin_isnan',):
        a = self.num(A_(0))
        return lift(lambda p: bx((n, p)) if p.const() is None else (n == 'isfinite'), a)
    if n == 'atan2' or n == 'fmod' or n == 'hypot':
        return fapp(n, self.num(A_(0)), self.num(A_(1)))
    if n == 'swap' and len(args) == 2:
        a, b = self.ev(args[0], st, fr), self.ev(args[1], st, fr)
        va, vb = self.rv(st, a), self.rv(st, b)
        self.write(st, a, vb)
        self.write(st, b, va)
        return None
    if n == 'make_pair':
        return Struct(('pair',), tid, [('first', A_(0)), ('second', A_(1))])
    if n in ('begin', 'cbegin', 'end', 'cend'):
        o = self.ev(args[0], st, fr)
        v = self.rv(st, o)
        if isinstance(v, (Arr, Mat)):
            o = o if isinstance(o, LV) else self.tmp(st, v)
            return It(o, ZERO if 'begin' in n else (v.size if isinstance(v, Arr) else C(v.r * v.c)))
    if n == 'distance':
        a, b = A_(0), A_(1)
        if isinstance(a, It) and isinstance(b, It):
            return sub(b.idx, a.idx)
    if n in ('next', 'prev') and isinstance(A_(0), It):
        a = A_(0)
        d = self.num(A_(1)) if len(args) > 1 else ONE
        return It(a.lv, add(a.idx, d) if n == 'next' else sub(a.idx, d))
    if n == 'advance':
        lv = self.ev(args[0], st, fr)
        a = self.rv(st, lv)
        if isinstance(a, It):
            self.write(st, lv, It(a.lv, add(a.idx, self.num(A_(1)))))
            return None
    if n in ('fill',) and isinstance(A_(0), It) and isinstance(A_(1), It):
        a, b, v = A_(0), A_(1), A_(2)
        return self.range_store(st, a.lv, a.idx, b.idx, lambda i: v)
    if n in ('copy', 'move') and len(args) == 3 and isinstance(A_(0), It) and isinstance(A_(2), It):
        a, b, d = A_(0), A_(1), A_(2)
        src = self.read(st, a.lv)
        self.range_store(st, d.lv, d.idx, add(d.idx, sub(b.idx, a.idx)), lambda i: self.aget(src, add(a.idx, sub(i, d.idx))))
        return It(d.lv, add(d.idx, sub(b.idx, a.idx)))
    if n == 'accumulate' and len(args) == 3:
        a, b, init = A_(0), A_(1), A_(2)
        if isinstance(a, It) and isinstance(b, It):
            src = self.read(st, a.lv)
            return self.sum_over(init, a.idx, b.idx, lambda i: self.aget(src, i))
    if n in ('lower_bound', 'upper_bound') and len(args) >= 3:
        a, b, v = A_(0), A_(1), A_(2)
        if isinstance(a, It) and isinstance(b, It):
            src = self.read(st, a.lv)
            # meaning on a sorted range: first element > v (>= v), or the end
            bv_ = bvatom(600 + self.loopdepth)
            el = self.num(self.aget(src, add(a.idx, A(bv_))))
            cnd = lt(self.num(v), el) if n == 'upper_bound' else le(self.num(v), el)
            return It(a.lv, add(a.idx, self.first_of(sub(b.idx, a.idx), bv_, cnd)))
    if n in ('max_element', 'min_element') and len(args) == 2:
        a, b = A_(0), A_(1)
        if isinstance(a, It):
            return It(a.lv, app(n, self.read(st, a.lv), a.idx, b.idx, integer=True, nonneg=True))
    if n == 'accumulate' and len(args) in (3, 4) and isinstance(A_(0), It) and isinstance(A_(1), It):
        a, b, x0 = A_(0), A_(1), self.rv(st, A_(2))
        f = A_(3) if len(args) == 4 else None
        self.tmpn += 1
        key = ('tmp', self.tmpn)
        self.objtypes[key] = self.db.noref(tid)
        acc = LV(key)
        st.heap[key] = self.coerce(x0, self.db.noref(tid))

        def step(st2, el):
            old = self.read(st2, acc)
            r = self.rv(st2, self.call_fn(st2, f, [old, el], None, e[7])) if f is not None else self.vadd(old, self.rv(st2, el))
            self.write(st2, acc, self.coerce(r, self.db.noref(tid)))
        self.sym_range_loop(st, a, b, step, None)
        return self.read(st, acc)
    if n in ('any_of', 'all_of', 'none_of', 'for_each', 'transform', 'find_if', 'find', 'count_if', 'generate', 'iota') :
        if n == 'for_each' and isinstance(A_(0), It):
            a, b, f = A_(0), A_(1), A_(2)
            self.sym_range_loop(st, a, b, f, None)
            return f
        if n in ('any_of', 'all_of', 'none_of', 'find_if', 'find', 'count_if') and isinstance(A_(0), It) and isinstance(A_(1), It):
            a, b, f = A_(0), A_(1), A_(2)
            bv_ = bvatom(600 + self.loopdepth)
            self.loopdepth += 1
            try:
                el = a.lv.ext(('i', add(a.idx, A(bv_))))
                if n == 'find':
                    cnd = eq(self.rv(st, el), f)
                else:
                    cnd = self.boolean(self.rv(st, self.call_fn(st, f, [el], None, e[7])))
            finally:
                self.loopdepth -= 1
            cnt = sub(b.idx, a.idx)
            if n == 'count_if':
                return mksum(ZERO, cnt, bv_, tonum(cnd))
            if n in ('find_if', 'find'):
                return It(a.lv, add(a.idx, self.first_of(cnt, bv_, cnd)))
            if n == 'all_of':
                cnd = bnot(cnd)
            ex_ = self.exists(cnt, bv_, cnd)
            return ex_ if n == 'any_of' else bnot(ex_)
        if n == 'transform' and len(args) in (4, 5):
            it = [A_(i) for i in range(len(args) - 1)]
            f = A_(len(args) - 1)
            if all(isinstance(x, It) for x in it):
                srcs = [self.read(st, x.lv) for x in ([it[0], it[2]] if len(args) == 5 else [it[0]])]
                offs = [it[0].idx, it[2].idx] if len(args) == 5 else [it[0].idx]
                dst = it[-1]
                ft = self.T(self.db.noref(args[-1][5] if args[-1][0] == 'call' else f.tid)) if isinstance(f, (Opq, Struct)) and getattr(f, 'tid', None) is not None else {}
                fname = ft.get('name', '')

                def g(i):
                    k = sub(i, dst.idx)
                    xs = [self.aget(sx, add(o, k)) for sx, o in zip(srcs, offs)]
                    if fname in ('std::plus', 'std::minus') and len(xs) == 2:
                        return self.vadd(xs[0], xs[1], 1 if fname == 'std::plus' else -1)
                    if isinstance(f, Fn):
                        return self.rv(st, self.call_fn(st, f, xs, None, e[7]))
                    return self.uns('transform functor ' + fname)
                self.range_store(st, dst.lv, dst.idx, add(dst.idx, sub(it[1].idx, it[0].idx)), g)
                return It(dst.lv, add(dst.idx, sub(it[1].idx, it[0].idx)))
        return self.uns('std::' + n, tid)
    if n in ('to_string',):
        return Opq(('tostr', A_(0)))
    if n == 'endl' or n == 'flush':
        return Opq(('stream',))
    if n in ('numeric_limits', ) or 'numeric_limits' in name:
        return NotImplemented
    if n in ('infinity', 'max', 'min', 'lowest', 'epsilon', 'quiet_NaN') and not args:
        return A(atom(('app', n, self.T(tid)['s'])))
    if n in ('fill_n',):
        return NotImplemented
    if n.startswith('operator<<'):
        return Opq(('stream',))
    if n == 'bind':
        return Opq(('bind',) + tuple(self.hv(st, self.ev(x, st, fr)) for x in args))
    if name.startswith('std::this_thread') or name.startswith('std::chrono'):
        return self.opaque(st, name, None, [self.ev(x, st, fr) for x in args], [], tid, e[7])
    # Eigen static functions come here
    t = self.T(self.db.noref(tid))
    cls = e[6].get('cls') or ''
    if n in ('Zero', 'Ones', 'Identity', 'Constant', 'Random', 'Unit', 'UnitX', 'UnitY', 'UnitZ', 'LinSpaced') and cls.startswith('Eigen'):
        return self.eigen_static(n, e, args, st, fr)
    return NotImplemented


def first_of(self, N, b, c):
    if isinstance(c, bool) or b not in atoms_in(c):
        return ite(c, ZERO, N)
    return lift(lambda n_: app('first', n_, *bindvar(b, c), integer=True, nonneg=True), N)


def exists(self, N, b, c):
    if isinstance(c, bool) or b not in atoms_in(c):
        return band(c, lt(ZERO, N))
    return lift(lambda n_: bx(('exists', n_) + bindvar(b, c)), N)


def sum_over(self, init, lo, hi, f):
    d = self.loopdepth
    b = bvatom(d)
    self.loopdepth += 1
    try:
        v = f(A(b))
    finally:
        self.loopdepth -= 1

    def one(i, x):
        return add(i, mksum(lo, hi, b, x))
    if isinstance(v, Mat) and isinstance(init, Mat):
        return Mat(v.r, v.c, [one(i, x) for i, x in zip(init.e, v.e)])
    return one(self.num(init), self.num(v))


def range_store(self, st, lv, lo, hi, f):
    a = self.read(st, lv)
    cl, ch = (x.const() if isinstance(x, Poly) else None for x in (lo, hi))
    if isinstance(a, Mat) and cl is not None and ch is not None:
        for i in range(int(cl), int(ch)):
            a = self.aset(a, C(i), f(C(i)))
        self.write(st, lv, a)
        return None
    if not isinstance(a, Arr):
        self.write(st, lv, self.uns('range store'))
        return None
    b = bvatom(500 + self.loopdepth)
    lvl, fv = bindvar(b, f(A(b)))
    if lo is ZERO and hi is a.size:
        self.write(st, lv, normfill(a, cb(lvl), fv))
        return None
    self.write(st, lv, Arr(a.path, a.et, a.size, a.ups + (('r', True, lo, hi, cb(lvl), fv),)))
    return None


def normfill(a, b, v):
    if b not in atoms_in(v):
        return Arr(('fill', v), a.et, a.size)
    return Arr(('none',), a.et, a.size, (('r', True, ZERO, a.size, b, v),))


def make(self, st, t, a):
    """construct an object of type id t from evaluated args; returns pointer"""
    td = self.T(t)
    rec = self.db.records.get(td.get('key'))
    v = None
    if rec:
        cand = [m for m in rec['methods'] if 'ctor' in m]
        vals = [self.rv(st, x) for x in a]
        if len(vals) == 1 and isinstance(vals[0], Struct) and self.rec_of(vals[0].tid) == td.get('key'):
            cc = [m for m in cand if m['ctor'] == 'copy']
            fn = self.db.fns.get(cc[0]['key']) if cc else None
            if fn is None or fn.get('implicit') or fn.get('defaulted'):
                v = vals[0]
            else:
                lv = self.tmp(st, Struct(('new', rec['qn']), t), t)
                self.run(st, fn, lv, a)
                v = self.read(st, lv)
        else:
            fns = [self.db.fns.get(m['key']) for m in cand if m['ctor'] in ('o', 'def')]
            fns = [f for f in fns if f is not None and len(f['params']) == len(a)]
            if len(fns) == 1:
                lv = self.tmp(st, Struct(('new', rec['qn']), t), t)
                self.run(st, fns[0], lv, a)
                v = self.read(st, lv)
    if v is None:
        v = Struct(('make', td['s']) + tuple(self.hv(st, x) for x in a), t) if td.get('own') else (
            self.rv(st, a[0]) if len(a) == 1 else Opq(('make', td['s']) + tuple(self.hv(st, x) for x in a), t))
    lv = self.tmp(st, v, t)
    self.dyntypes[lv.key] = td.get('key')
    return Ptr(lv)


def eigen_static(self, n, e, args, st, fr):
    m = re.search(r'Eigen::(?:Matrix|Array)<(\w+), (-?\d+), (-?\d+)', e[1])
    if not m:
        return self.uns('eigen static ' + e[1][:60])
    r, c = int(m.group(2)), int(m.group(3))
    vals = [self.num(self.rve(a, st, fr)) for a in args]
    if n == 'Constant':
        k = vals.pop()
    if r < 0 or c < 0:
        dims = vals
        if len(dims) == 1:
            dims = [dims[0], ONE] if c == 1 else [ONE, dims[0]]
        if len(dims) == 2:
            cr, cc = (x.const() if isinstance(x, Poly) else None for x in dims)
            if cr is not None and cc is not None:
                r, c = int(cr), int(cc)
            else:
                fill = {'Zero': ZERO, 'Ones': ONE}.get(n)
                if n == 'Constant':
                    fill = k
                if n == 'Zero' and r < 0 and c < 0 and cc != 1:
                    return Opq(('zeros',) + tuple(dims))
                if fill is not None and (cc == 1 or cr == 1):
                    return Arr(('fill', fill), None, dims[0] if cc == 1 else dims[1])
                return Opq((n,) + tuple(dims))
        else:
            return self.uns('eigen static dims')
    if n == 'Zero':
        return Mat(r, c, [ZERO] * (r * c))
    if n == 'Ones':
        return Mat(r, c, [ONE] * (r * c))
    if n == 'Constant':
        return Mat(r, c, [k] * (r * c))
    if n == 'Identity':
        return Mat(r, c, [ONE if i == j else ZERO for i in range(r) for j in range(c)])
    if n == 'Unit' and vals and isinstance(vals[-1], Poly):
        k = vals[-1].const()
        if k is not None:
            return Mat(r, c, [ONE if i == int(k) else ZERO for i in range(r * c)])
        return Mat(r, c, [tonum(eq(vals[-1], C(i))) for i in range(r * c)])
    if n in ('UnitX', 'UnitY', 'UnitZ'):
        return Mat(r, c, [ONE if i == 'XYZ'.index(n[-1]) else ZERO for i in range(r * c)])
    self.tmpn += 1
    return Mat(r, c, [app('random', self.tmpn, i) for i in range(r * c)])


def builtin_method(self, cls, name, e, o, args, st, fr, tid, fl):
    ta = fl.get('ta') or []
    A_ = lambda i: self.rve(args[i], st, fr)
    N_ = lambda i: self.num(A_(i))
    if cls == 'Eigen::VectorwiseOp':
        v = self.rv(st, o)
        if isinstance(v, Opq) and v.path[0] == 'vw':
            m, col = v.path[1], v.path[2] == 'colwise'
            if name in ('operator+', 'operator-') and len(args) == 1:
                x = A_(0)
                if isinstance(x, Mat) and len(x.e) == (m.r if col else m.c):
                    f = add if name == 'operator+' else sub
                    return Mat(m.r, m.c, [f(m.at(i, j), x.e[i if col else j]) for i in range(m.r) for j in range(m.c)])
            if name in ('sum', 'squaredNorm') and not args:
                g = (lambda a: a) if name == 'sum' else (lambda a: mul(a, a))
                out = []
                for j in range(m.c if col else m.r):
                    t = ZERO
                    for i in range(m.r if col else m.c):
                        t = add(t, g(m.at(i, j) if col else m.at(j, i)))
                    out.append(t)
                return Mat(1, m.c, out) if col else Mat(m.r, 1, out)
        return self.uns('vectorwise ' + name)
    # ---- smart pointers
    if cls in SMART:
        if name == 'operator*' or name == 'operator->':
            if name == 'operator->':
                v = self.rv(st, o)
                return v
            return self.deref(st, o)
        if name == 'get' or name == 'lock':
            return self.rv(st, o)
        if name == 'operator bool':
            return self.boolean(self.rv(st, o))
        if name == 'operator=':
            v = A_(0)
            self.write(st, o, v)
            return o
        if name == 'reset':
            v = A_(0) if args else NULL
            self.write(st, o, v)
            return None
        if name == 'use_count':
            return self.uns('use_count', tid)
        if name == 'swap':
            p = self.ev(args[0], st, fr)
            a, b = self.rv(st, o), self.rv(st, p)
            self.write(st, o, b)
            self.write(st, p, a)
            return None
        if name == 'release':
            return self.rv(st, o)
    if cls == 'std::function' or cls.startswith('std::_Function') or cls.startswith('std::_Maybe'):
        if name == 'operator()':
            c = self.rv(st, o)
            return self.call_fn(st, c, [self.ev(x, st, fr) for x in args], tid, e[7], fl.get('p'))
        if name == 'operator bool':
            return self.boolean(self.rv(st, o))
        if name == 'operator=':
            v = A_(0)
            self.write(st, o, v)
            return o
    if cls.startswith('std::atomic') or cls.startswith('std::__atomic'):
        if name in ('load',) or name.startswith('operator ') :
            return self.rv(st, o)
        if name in ('store', 'operator='):
            v = A_(0)
            self.write(st, o, v)
            return v
        if name in ('operator++', 'operator--', 'fetch_add', 'fetch_sub'):
            old = self.num(self.rv(st, o))
            d = N_(0) if name.startswith('fetch') else ONE
            new = add(old, d) if name in ('operator++', 'fetch_add') else sub(old, d)
            self.write(st, o, new)
            return old if (args or name.startswith('fetch')) else new
    if cls.startswith('std::_Rb_tree') or cls.startswith('std::__detail::_Node'):
        v = self.rv(st, o)
        if isinstance(v, MapIt):
            if name in ('operator*', 'operator->') and v.idx is not None:
                lv = v.lv.ext(('mp', v.idx))
                return lv if name == 'operator*' else Ptr(lv)
            if name in ('operator==', 'operator!=') and args:
                b = A_(0)
                if isinstance(b, MapIt):
                    r = self.mapit_eq(st, v, b)
                    return r if name == 'operator==' else bnot(r)
            if name == 'operator=':
                self.write(st, o, A_(0))
                return o
            return self.uns('map iterator ' + name)
    if cls.startswith('std::reverse_iterator') or cls.startswith('__gnu_cxx::__normal_iterator') or cls in ('std::_Bit_iterator', 'std::_Bit_const_iterator'):
        v = self.rv(st, o)
        if isinstance(v, It):
            if name in ('operator*', 'operator->'):
                lv = v.lv.ext(('i', v.idx))
                return lv if name == 'operator*' else Ptr(lv)
            if name in ('operator++', 'operator--'):
                n = It(v.lv, add(v.idx, ONE if name.endswith('++') else C(-1)))
                self.write(st, o, n)
                return v if args else o
            if name in ('operator+', 'operator-') and args:
                b = A_(0)
                if isinstance(b, It):
                    return sub(v.idx, b.idx)
                return It(v.lv, add(v.idx, self.num(b)) if name.endswith('+') else sub(v.idx, self.num(b)))
            if name in ('operator+=', 'operator-='):
                b = N_(0)
                self.write(st, o, It(v.lv, add(v.idx, b) if name[-2] == '+' else sub(v.idx, b)))
                return o
            if name == 'operator[]':
                return v.lv.ext(('i', add(v.idx, N_(0))))
            if name == 'operator=':
                self.write(st, o, A_(0))
                return o
            if name == 'base':
                return v
    if 'condition_variable' in cls and name == 'wait' and self.shared and isinstance(o, LV):
        return wait_for(self, st, o, A_(1) if len(args) > 1 else None, None, fr, e[7])
    if cls == 'std::thread' and name == 'join' and self.shared and isinstance(o, LV):
        self.write(st, o.ext(('f', '@joined')), C(1))
        return None
    if cls.startswith('std::mutex') or 'lock_guard' in cls or 'unique_lock' in cls or 'condition_variable' in cls or cls == 'std::thread':
        return self.opaque(st, cls + '::' + name, None, [], [], tid, e[7])
    v = self.rv(st, o) if isinstance(o, (LV, LVIte)) else o
    if isinstance(v, Ite) and not isnum(v):
        leaf = terms._leaf(v)
        if isinstance(leaf, (Arr, Opq)) and fl.get('const'):
            pass
    # ---- containers
    if isinstance(v, Arr) and (cls in VECS or cls.startswith('Eigen') or cls.startswith('std::') or cls.startswith('ct::core')):
        r = self.arr_method(cls, name, e, o, v, args, st, fr, tid, fl)
        if r is not NotImplemented:
            return r
    if isinstance(v, (Mat, Poly, Ite, bool)) and (cls.startswith('Eigen') or cls.startswith('ct::core') or cls in VECS):
        r = self.mat_method(cls, name, e, o, v, args, st, fr, tid, fl)
        if r is not NotImplemented:
            return r
    if isinstance(v, Comma):
        if name in ('operator,', 'operator<<'):
            self.comma_put(st, v, A_(0))
            return v
        if name == 'finished':
            return v.lv
    if isinstance(v, Struct) and cls == 'std::pair':
        if name == 'operator=':
            self.write(st, o, A_(0))
            return o
    if isinstance(v, Opq):
        if v.path and v.path[0] == 'stream':
            return v
        if v.path and v.path[0] == 'fact':
            # decomposition object
            m = v.path[2]
            if name == 'solve':
                b = A_(0)
                if isinstance(m, Mat) and m.r != m.c:
                    # rectangular: some solution, determined by the decomposition and the right-hand side
                    if isinstance(b, Mat):
                        return Mat(m.c, b.c, [app('lsolve', v.path[1], m, b, i, j) for i in range(m.c) for j in range(b.c)])
                    return Opq(('lsolve', v.path[1], m, b))
                return vmul(self, minv(self, m), b)
            if name == 'inverse':
                return minv(self, m)
            if name == 'compute':
                m2 = A_(0)
                nv = Opq(('fact', v.path[1], m2))
                if isinstance(o, LV):
                    self.write(st, o, nv)
                return nv
        if cls.startswith('Eigen::') and name == 'compute' and isinstance(o, LV):
            m2 = A_(0)
            self.write(st, o, Opq(('fact', cls, m2), v.tid))
            return o
        if cls.startswith('Eigen::') or cls.startswith('ct::core'):
            r = self.opq_method(cls, name, e, o, v, args, st, fr, tid, fl)
            if r is not NotImplemented:
                return r
        if name == 'operator=' and isinstance(o, (LV, LVIte)):
            self.write(st, o, A_(0))
            return o
        if cls.startswith('std::'):
            a = [self.ev(x, st, fr) for x in args]
            hs = tuple(self.hv(st, x) for x in a)
            if not fl.get('const') and isinstance(o, LV):
                self.write(st, o, Opq((cls + '::' + name, v) + hs, v.tid))
            if self.T(tid).get('k') == 'void':
                return None
            return self.fresh(tid, ('ret', name, v) + hs)
    if isinstance(v, Str):
        if name in ('c_str', 'data'):
            return v
        if name in ('operator=',):
            self.write(st, o, A_(0))
            return o
        a = [self.hv(st, self.ev(x, st, fr)) for x in args]
        return self.fresh(tid, ('ret', name, v) + tuple(a)) if self.T(tid).get('k') != 'void' else None
    if isinstance(v, (Poly, Ite)) and cls.startswith('std::') and name == 'operator=':
        x = A_(0)
        self.write(st, o, x)
        return o
    if name == 'operator=' and isinstance(o, (LV, LVIte)) and (cls.startswith('std::') or cls.startswith('Eigen')):
        x = A_(0)
        self.write(st, o, x)
        return o
    if isinstance(v, Null) and cls in SMART:
        return NULL
    return NotImplemented


def mapit_eq(self, st, a, b):
    if a.idx is not None and b.idx is not None:
        return eq(a.idx, b.idx)
    if a.idx is None and b.idx is None:
        return True
    k = a if a.idx is not None else b
    return absent(self, self.read(st, k.lv), k.idx)


def map_lit(self, st, lit, tid, like=None):
    """a map from its list of entries: the first entry of a key counts, the order does not matter"""
    m = Arr(('emptymap',), like.et, like.size) if like is not None else self.default(tid)
    if not isinstance(lit, Arr) or lit.size.const() is None:
        return self.uns('map contents')
    ups = {}
    for i in range(int(lit.size.const())):
        p = self.tmp(st, self.aget(lit, C(i)))
        k, x = mapkey(self, self.rv(st, p.ext(('f', 'first')))), self.rv(st, p.ext(('f', 'second')))
        if k.const() is None:
            return self.uns('map contents')
        ups.setdefault(k.const(), ('s', True, k, self.coerce(x, m.et)))
    return Arr(m.path, m.et, m.size, tuple(ups[k] for k in sorted(ups)))


def mapkey(self, x):
    """the key of a map entry as an index: numbers as they are, strings by their text"""
    if isinstance(x, Str):
        return C(int.from_bytes(b'\1' + x.s.encode(), 'big'))
    if isinstance(x, (Poly, bool)) or isinstance(x, Ite) and isnum(x):
        return self.num(x)
    return A(atom(('app', 'key', x), True, True))


def absent(self, v, k):
    if isinstance(v, Arr) and v.path == ('emptymap',) and all(u[0] == 's' and u[1] is True for u in v.ups):
        r = True
        for u in v.ups:
            r = band(r, bnot(eq(u[2], k)))
        return r
    return bx(('absent', v, k))


def map_method(self, cls, name, e, o, v, args, st, fr, tid, fl):
    """std::map with integral keys, as an array over all keys"""
    A_ = lambda i: self.rve(args[i], st, fr)
    lv = o if isinstance(o, (LV, LVIte)) else None
    if not isinstance(lv, LV):
        lv = self.tmp(st, v)
    if name in ('operator[]', 'at') and len(args) == 1:
        return lv.ext(('i', mapkey(self, A_(0))))
    if name in ('find', 'lower_bound') and len(args) == 1 and name == 'find':
        return MapIt(lv, mapkey(self, A_(0)))
    if name in ('begin', 'cbegin'):
        return Opq(('mapbegin', v))
    if name in ('end', 'cend'):
        return MapIt(lv, None)
    if name == 'count' or name == 'contains':
        c = absent(self, v, mapkey(self, A_(0)))
        return ite(c, ZERO, ONE) if name == 'count' else bnot(c)
    if name == 'clear':
        self.write(st, lv, Arr(('emptymap',), v.et, v.size))
        return None
    if name in ('insert', 'emplace', 'insert_or_assign'):
        vals = [A_(i) for i in range(len(args))]
        if len(vals) == 1:
            p = self.tmp(st, vals[0])
            k, x = self.rv(st, p.ext(('f', 'first'))), self.rv(st, p.ext(('f', 'second')))
        elif len(vals) == 2:
            k, x = vals
        else:
            return self.uns('map ' + name)
        k = mapkey(self, k)
        if name != 'insert_or_assign':
            # an existing entry would stay as it is: accept only keys that cannot have been inserted before
            if any(u[0] != 's' or eq(u[2], k) is not False for u in v.ups):
                return self.uns('map insert of a key that may exist')
        self.write(st, lv, self.aset(v, k, self.coerce(x, v.et)))
        return Opq(('mapinsert',))
    if name == 'operator=':
        x = A_(0)
        self.write(st, lv, map_lit(self, st, x, None, v) if isinstance(x, Arr) and x.path == ('lit',) else x)
        return lv
    return self.uns('map ' + name)


def arr_method(self, cls, name, e, o, v, args, st, fr, tid, fl):
    if cls in ('std::map', 'std::unordered_map'):
        return map_method(self, cls, name, e, o, v, args, st, fr, tid, fl)
    A_ = lambda i: self.rve(args[i], st, fr)
    N_ = lambda i: self.num(A_(i))
    ta = fl.get('ta') or []
    lv = o if isinstance(o, (LV, LVIte)) else None

    def L():
        return lv if lv is not None else self.tmp(st, v)
    if name in ('operator[]', 'at', 'operator()', 'coeff', 'coeffRef') and len(args) == 1:
        return L().ext(('i', N_(0)))
    if name in ('size', 'length', 'rows') and not args:
        return v.size
    if name == 'cols':
        return ONE
    if name == 'empty':
        return eq(v.size, ZERO)
    if name in ('front', 'back') and not args:
        return L().ext(('i', ZERO if name == 'front' else sub(v.size, ONE)))
    if name in ('begin', 'cbegin', 'end', 'cend'):
        return It(L(), ZERO if 'begin' in name else v.size)
    if name in ('rbegin', 'rend', 'crbegin', 'crend'):
        return self.uns('reverse iterator')
    if name == 'data':
        return Ptr(L())
    if name in ('push_back', 'emplace_back'):
        if name == 'emplace_back' and len(args) != 1:
            a = [self.ev(x, st, fr) for x in args]
            if a and self.T(v.et).get('s', '').startswith('std::thread'):
                x = Opq(('ctor', 'std::thread') + tuple(self.hv(st, y) for y in a), v.et)
            else:
                x = self.fresh(v.et, ('emplace',) + tuple(self.hv(st, y) for y in a)) if a else self.default(v.et)
        else:
            x = A_(0)
        x = self.coerce(x, v.et) if v.et is not None else x
        n = self.aset(v, v.size, x) if isinstance(v.size, Poly) else Arr(('pushed', v, x), v.et, v.size)
        self.write(st, lv, Arr(n.path, v.et, add(v.size, ONE), n.ups))
        return None
    if name == 'pop_back':
        self.write(st, lv, Arr(v.path, v.et, sub(v.size, ONE), v.ups))
        return None
    if name == 'clear':
        self.write(st, lv, Arr(('empty',), v.et, ZERO))
        return None
    if name == 'resize' or name == 'conservativeResize':
        n = N_(0)
        if cls.startswith('Eigen') and name == 'resize':
            self.write(st, lv, self.sized_like(v, n))
            return None
        fillv = A_(1) if len(args) > 1 else None
        if v.size is ZERO and v.path == ('empty',) and not v.ups:
            if fillv is None:
                fillv = self.zero(v.et) if v.et is not None else ZERO
            self.write(st, lv, Arr(('fill', fillv), v.et, n))
            return None
        ups = list(v.ups)
        if fillv is not None:
            ups.append(('r', True, v.size, n, cb(1), fillv))
        self.write(st, lv, Arr(v.path, v.et, n, ups))
        return None
    if name == 'reserve' or name == 'shrink_to_fit':
        return None
    if name == 'assign' and len(args) == 2:
        a, b = A_(0), A_(1)
        if isinstance(a, It):
            src = self.read(st, a.lv)
            n = sub(b.idx, a.idx)
            self.write(st, lv, src if a.idx is ZERO and isinstance(src, Arr) and n is src.size else Arr(('copyof', src, a.idx), v.et, n))
        else:
            self.write(st, lv, Arr(('fill', b), v.et, self.num(a)))
        return None
    if name == 'erase':
        a = A_(0)
        if isinstance(a, It):
            b = A_(1) if len(args) > 1 else It(a.lv, add(a.idx, ONE))
            if a.idx is ZERO:
                self.write(st, lv, Arr(('copyof', v, b.idx), v.et, sub(v.size, b.idx)))
            elif b.idx is v.size:
                self.write(st, lv, Arr(v.path, v.et, a.idx, v.ups))
            else:
                self.write(st, lv, Arr(('erase', v, a.idx, b.idx), v.et, sub(v.size, sub(b.idx, a.idx))))
            return It(L(), a.idx)
    if name == 'insert':
        a = [self.ev(x, st, fr) for x in args]
        p = self.rv(st, a[0])
        rest = [self.rv(st, x) for x in a[1:]]
        if isinstance(p, It) and p.idx is v.size and len(rest) == 2 and isinstance(rest[0], It):
            src = self.read(st, rest[0].lv)
            n = sub(rest[1].idx, rest[0].idx)
            part = src if rest[0].idx is ZERO else Arr(('copyof', src, rest[0].idx), v.et, n)
            self.write(st, lv, Arr(('concat', v, Arr(part.path, part.et, n, part.ups)), v.et, add(v.size, n)))
            return p
        hs = tuple(x if isinstance(x, (Val, Poly, Ite)) else str(x) for x in [p] + rest)
        self.write(st, lv, Arr(('insert', v) + hs, v.et, app('insertsize', v, *hs, integer=True, nonneg=True)))
        return p
    if name == 'swap':
        p = self.ev(args[0], st, fr)
        b = self.rv(st, p)
        self.write(st, p, v)
        self.write(st, lv, b)
        return None
    if name == 'operator=':
        x = A_(0)
        fn = self.db.fns.get(e[1])
        if fl.get('own') and fn is not None and not fn.get('implicit') and not fn.get('defaulted'):
            return NotImplemented
        if lv is not None:
            self.write(st, lv, x)
        return o
    if cls.startswith('Eigen'):
        if name in ('setZero', 'setConstant', 'setOnes', 'fill'):
            n = v.size
            vals = [self.num(A_(i)) for i in range(len(args))]
            k = {'setZero': ZERO, 'setOnes': ONE}.get(name)
            if k is None:
                k = vals.pop()
            if vals:
                n = vals[0]
            self.write(st, lv, Arr(('fill', k), v.et, n))
            return lv
        if name in ('segment', 'head', 'tail', 'block', 'topRows', 'bottomRows', 'middleRows'):
            off, n = ZERO, None
            nargs = [self.num(A_(i)) for i in range(len(args))]
            if ta and isinstance(ta[0], int) and ta[0] >= 0:
                n = C(ta[0])
                if name in ('segment', 'middleRows'):
                    off = nargs[0]
                elif name == 'block':
                    off = nargs[0]
            else:
                if name in ('segment', 'middleRows'):
                    off, n = nargs[0], nargs[1]
                elif name == 'block':
                    off, n = nargs[0], nargs[2]
                else:
                    n = nargs[0]
            if name in ('tail', 'bottomRows'):
                off = sub(v.size, n)
            return L().ext(('blk', off, ZERO, n, ONE))
        if name == 'noalias' or name == 'derived' or name == 'array' or name == 'matrix' or name == 'eval' or name == 'col':
            return L()
        if name == 'cast' and not re.search(r'scalar_cast_op<(double|float), *(int|long|unsigned|short)', self.T(self.db.noref(tid)).get('s', '')):
            return v
        if name == 'transpose':
            return Opq(('T', v))
        if name == 'operator<<':
            return Opq(('stream',))
        if name in ('operator+=', 'operator-=', 'operator*=', 'operator/='):
            x = A_(0)
            r = self.opq_bin(name[8:-1], v, x)
            self.write(st, lv, r)
            return lv
        if name in ('operator+', 'operator-', 'operator*', 'operator/'):
            if not args:
                return self.opq_bin('*', v, C(-1))
            x = A_(0)
            return self.opq_bin(name[8:], v, x)
        if name in ('cwiseMax', 'cwiseMin') or name in ('max', 'min') and args and cls.startswith('Eigen::Array'):
            x = A_(0)
            if isnum(x) or isinstance(x, Arr):
                return arrmap(self, vmax if name.lower().endswith('max') else vmin, v, x)
        if name in ('cwiseProduct', 'cwiseQuotient'):
            x = A_(0)
            if isinstance(x, Arr):
                return arrmap(self, mul if 'Prod' in name else div, v, x)
        if name in ('cwiseAbs', 'abs', 'cwiseAbs2', 'abs2', 'square', 'cwiseSqrt', 'sqrt', 'cwiseInverse') and not args or \
                name == 'inverse' and cls.startswith('Eigen::Array'):
            f = vabs if name in ('abs', 'cwiseAbs') else (lambda a, b: mul(a, a)) if name in ('square', 'abs2', 'cwiseAbs2') else \
                (lambda a, b: lift(lambda p: ppow(p, Fraction(1, 2)), a)) if 'qrt' in name else (lambda a, b: div(ONE, a))
            return arrmap(self, (lambda a, b: vabs(a)) if f is vabs else f, v, ZERO)
        if name in ('sum', 'squaredNorm', 'norm', 'dot', 'mean') and (name != 'dot' or isinstance(A_(0), Arr)):
            bv_ = bvatom(930 + self.loopdepth)
            x = self.num(self.aget(v, A(bv_)))
            if name in ('squaredNorm', 'norm'):
                x = mul(x, x)
            elif name == 'dot':
                x = mul(x, self.num(self.aget(A_(0), A(bv_))))
            r = mksum(ZERO, v.size, bv_, x)
            return div(r, v.size) if name == 'mean' else r if name != 'norm' else lift(lambda p: ppow(p, Fraction(1, 2)), r)
        x = [self.hv(st, self.ev(a, st, fr)) for a in args]
        self.foreign.add(name)
        r = self.fresh(tid, ('ret', name, v) + tuple(x)) if self.T(tid).get('k') != 'rec' else Opq(('ret', name, v) + tuple(x), tid)
        return r
    return NotImplemented


def sized_like(self, v, n):
    return Arr(('uninitvec',), v.et, n)


def opq_bin(self, op, a, b):
    if op == '+':
        return vadd(self, a, b)
    if op == '-':
        return vadd(self, a, b, -1)
    if op == '*':
        return vmul(self, a, b)
    return vscale_div(self, a, b)


def npow(a, b):
    cb = b.const() if isinstance(b, Poly) else None
    if cb is not None and cb.denominator in (1, 2):
        return lift(lambda p: ppow(p, cb), a)
    return fapp('pow', a, b)


def strcat(*parts):
    """string concatenation: flattened, adjacent literals merged, empty literals dropped"""
    out = []
    for p in parts:
        if not isinstance(p, (Val, Poly, Ite)):
            p = Str(str(p))
        for q in (p.path[1:] if isinstance(p, Opq) and isinstance(p.path, tuple) and p.path and p.path[0] == 'strcat' else (p,)):
            if isinstance(q, Str):
                if not q.s:
                    continue
                if out and isinstance(out[-1], Str):
                    out[-1] = Str(out[-1].s + q.s)
                    continue
            out.append(q)
    if not out:
        return Str('')
    return out[0] if len(out) == 1 else Opq(('strcat',) + tuple(out))


def opq_method(self, cls, name, e, o, v, args, st, fr, tid, fl):
    A_ = lambda i: self.rve(args[i], st, fr)
    lv = o if isinstance(o, (LV, LVIte)) else None
    if name == 'operator=' and lv is not None:
        self.write(st, lv, A_(0))
        return lv
    if cls.endswith('basic_string') and name in ('operator+=', 'append') and lv is not None and len(args) == 1:
        self.write(st, lv, strcat(v, A_(0)))
        return lv
    if name in ('operator+', 'operator-', 'operator*', 'operator/') and args:
        return self.opq_bin(name[8:], v, A_(0))
    if name in ('operator+=', 'operator-=', 'operator*=', 'operator/=') and lv is not None:
        self.write(st, lv, self.opq_bin(name[8:-1], v, A_(0)))
        return lv
    if name == 'operator-' and not args:
        return vmul(self, v, C(-1))
    if name in ('noalias', 'derived', 'eval', 'array', 'matrix'):
        return lv if lv is not None else v
    if name == 'transpose':
        return lv.ext(('T',)) if lv is not None else transpose(v)
    if name == 'setZero' and lv is not None:
        dims = [self.num(A_(i)) for i in range(len(args))]
        dd = dims or (list(v.path[1:]) if v.path and v.path[0] in ('dynmat', 'zeros') else [])
        if len(dd) == 2 and dd[1] is ONE:
            self.write(st, lv, Arr(('fill', ZERO), None, dd[0]))
            return lv
        self.write(st, lv, Opq(('zeros', *(dims if dims else (v.path[1:] if v.path and v.path[0] in ('dynmat', 'zeros') else (Opq(('dims', v)),)))), v.tid))
        return lv
    if name == 'resize' and lv is not None:
        na = [self.num(A_(i)) for i in range(len(args))]
        self.write(st, lv, self.sized(na[0], na[1], v.tid) if len(na) == 2 and v.tid is not None and self.T(self.db.noref(v.tid)).get('eig') else Opq(('dynmat',) + tuple(na), v.tid))
        return None
    if name in ('rows', 'cols', 'size') and not args:
        if v.path and v.path[0] in ('dynmat', 'zeros') and len(v.path) == 3 and name != 'size':
            return v.path[1 if name == 'rows' else 2]
        return app(name, v, integer=True, nonneg=True)
    if name in ('block', 'row', 'col', 'topRows', 'bottomRows', 'leftCols', 'rightCols', 'middleRows', 'middleCols', 'topLeftCorner'):
        n = [self.num(A_(i)) for i in range(len(args))]
        ta = [C(x) for x in (fl.get('ta') or []) if isinstance(x, int)]
        rows, cols = app('rows', v, integer=True, nonneg=True), app('cols', v, integer=True, nonneg=True)
        if v.path and v.path[0] in ('dynmat', 'zeros') and len(v.path) == 3:
            rows, cols = v.path[1], v.path[2]
        t = v.tid is not None and self.T(self.db.noref(v.tid)).get('eig')
        if t:
            rows = C(t[0]) if t[0] > 0 else rows
            cols = C(t[1]) if t[1] > 0 else cols
        acc = None
        if name == 'block':
            if len(ta) == 2 and len(n) >= 2:
                acc = ('blk', n[0], n[1], ta[0], ta[1])
            elif len(n) == 4:
                acc = ('blk', n[0], n[1], n[2], n[3])
        elif name == 'row':
            acc = ('blk', n[0], ZERO, ONE, cols)
        elif name == 'col':
            acc = ('blk', ZERO, n[0], rows, ONE)
        else:
            k = (ta or n)[0] if (ta or n) else None
            off = n[0] if ta and n else None
            if k is not None:
                if name == 'topRows':
                    acc = ('blk', ZERO, ZERO, k, cols)
                elif name == 'bottomRows':
                    acc = ('blk', sub(rows, k), ZERO, k, cols)
                elif name == 'leftCols':
                    acc = ('blk', ZERO, ZERO, rows, k)
                elif name == 'rightCols':
                    acc = ('blk', ZERO, sub(cols, k), rows, k)
                elif name == 'middleRows':
                    acc = ('blk', n[0], ZERO, ta[0] if ta else n[1], cols)
                elif name == 'middleCols':
                    acc = ('blk', ZERO, n[0], rows, ta[0] if ta else n[1])
        if acc is not None:
            b = lv if lv is not None else self.tmp(st, v)
            return b.ext(acc)
    if name in ('segment', 'head', 'tail') and cls.startswith('Eigen'):
        n = [self.num(A_(i)) for i in range(len(args))]
        ta = [C(x) for x in (fl.get('ta') or []) if isinstance(x, int) and x >= 0]
        b = lv if lv is not None else self.tmp(st, v)
        if name == 'segment':
            return b.ext(('blk', n[0], ZERO, ta[0] if ta else n[1], ONE))
        k = ta[0] if ta else n[0]
        return b.ext(('blk', ZERO if name == 'head' else sub(app('size', v, integer=True, nonneg=True), k), ZERO, k, ONE))
    if name in ('operator()', 'coeff', 'coeffRef') and len(args) == 2:
        b = lv if lv is not None else self.tmp(st, v)
        return b.ext(('e', self.num(A_(0)), self.num(A_(1))))
    if name == 'operator<<':
        return Opq(('stream',))
    if name in ('operator=', 'operator+=', 'operator-=', 'operator*=', 'operator/='):
        return self.uns('assignment to an unmodelled view')
    if name in ('ldlt', 'llt', 'lu', 'partialPivLu', 'fullPivLu', 'colPivHouseholderQr', 'fullPivHouseholderQr', 'householderQr'):
        return Opq(('fact', name, v))
    if name == 'inverse':
        return minv(self, v)
    if name == 'solve':
        return Opq(('ret', 'solve', v, A_(0)))
    hs = tuple(self.hv(st, self.ev(a, st, fr)) for a in args)
    if not fl.get('own'):
        self.foreign.add(name)
    if not fl.get('const') and lv is not None and self.T(tid).get('k') == 'void':
        self.write(st, lv, Opq(('upd', name, v) + hs, v.tid))
        return None
    if self.T(tid).get('k') == 'void':
        return None
    if not fl.get('const') and lv is not None and not cls.startswith('Eigen') and name not in RDONLY:
        self.write(st, lv, Opq(('upd', name, v) + hs, v.tid))
    return self.fresh(tid, ('ret', name, v) + hs)


RDONLY = {'begin', 'end', 'rbegin', 'rend', 'front', 'back', 'at', 'operator[]', 'operator()', 'operator*', 'operator->', 'get', 'data', 'find', 'size',
          'value', 'c_str', 'first', 'second', 'lower_bound', 'upper_bound', 'count', 'empty', 'lock', 'native_handle', 'str', 'rdbuf', 'operator<<',
          'operator>>', 'hash_code', 'tuple'}


def comma_put(self, st, cm, x):
    if isinstance(x, (Poly, Ite, bool)):
        x = Mat(1, 1, [self.num(x)])
    if not isinstance(x, Mat):
        self.uns('comma init')
        return
    if cm.c >= cm.cols:
        cm.r += cm.bh
        cm.c = 0
        cm.bh = x.r
    self.write(st, cm.lv.ext(('blk', C(cm.r), C(cm.c), C(x.r), C(x.c))), x)
    cm.c += x.c
    cm.bh = x.r


def mat_method(self, cls, name, e, o, v, args, st, fr, tid, fl):
    A_ = lambda i: self.rve(args[i], st, fr)
    N_ = lambda i: self.num(A_(i))
    ta = fl.get('ta') or []
    lv = o if isinstance(o, (LV, LVIte)) else None
    scal = not isinstance(v, Mat)
    if scal:
        v = Mat(1, 1, [self.num(v)])

    def L():
        return lv if lv is not None else self.tmp(st, v)
    own = self.db.fns.get(e[1])
    if name == 'operator=':
        x = A_(0)
        if lv is None:
            return self.uns('assign to temporary')
        if isinstance(x, Mat) and (x.r, x.c) != (v.r, v.c) and x.r * x.c == v.r * v.c:
            x = Mat(v.r, v.c, x.e)
        if isnum(x) and not isinstance(x, Mat):
            x = Mat(v.r, v.c, [self.num(x)] * (v.r * v.c))
        if isinstance(x, Arr):
            t = self.T(self.db.noref(tid))
            if v.r * v.c and not ('eig' in t and (t['eig'][0] < 0 or t['eig'][1] < 0)):
                x = Mat(v.r, v.c, [self.aget(x, C(i)) for i in range(v.r * v.c)])
        if isinstance(x, Opq):
            x = Mat(v.r, v.c, [app('elem', x, C(i), C(j)) for i in range(v.r) for j in range(v.c)])
        self.write(st, lv, x)
        return lv
    if own is not None and fl.get('own') and name not in ('operator=',):
        return NotImplemented
    if name in ('noalias', 'derived', 'array', 'matrix', 'eval', 'const_cast_derived', 'selfadjointView', 'triangularView', 'real'):
        if name in ('selfadjointView', 'triangularView'):
            mode = next((x for x in ta if isinstance(x, int)), None)
            if mode not in (1, 2) or v.r != v.c:
                return self.uns(name, None)
            low = mode == 1
            if name == 'selfadjointView':
                return Mat(v.r, v.c, [v.at(max(i, j), min(i, j)) if low else v.at(min(i, j), max(i, j)) for i in range(v.r) for j in range(v.c)])
            return Mat(v.r, v.c, [v.at(i, j) if (i >= j if low else i <= j) else ZERO for i in range(v.r) for j in range(v.c)])
        return L()
    if name in ('operator()', 'operator[]', 'coeff', 'coeffRef', 'at'):
        if len(args) == 1:
            i = N_(0)
            return L().ext(('e', i, ZERO) if v.c == 1 else ('e', ZERO, i))
        return L().ext(('e', N_(0), N_(1)))
    if name in ('x', 'y', 'z', 'w') and not args:
        i = C('xyzw'.index(name))
        return L().ext(('e', i, ZERO) if v.c == 1 else ('e', ZERO, i))
    if name == 'transpose' or name == 'adjoint':
        return lv.ext(('T',)) if lv is not None else transpose(v)
    if name == 'transposeInPlace' and lv is not None:
        self.write(st, lv, transpose(v))
        return None
    if name in ('rows', 'cols', 'size') and not args:
        return C({'rows': v.r, 'cols': v.c, 'size': v.r * v.c}[name])
    if name in ('block', 'segment', 'head', 'tail', 'row', 'col', 'topRows', 'bottomRows', 'leftCols', 'rightCols', 'middleRows', 'middleCols',
                'topLeftCorner', 'topRightCorner', 'bottomLeftCorner', 'bottomRightCorner'):
        n = [self.num(A_(i)) for i in range(len(args))]
        t = [C(x) for x in ta if isinstance(x, int) and x >= 0]
        R_, C_ = C(v.r), C(v.c)
        b = None
        if name == 'block':
            b = (n[0], n[1]) + (tuple(t[:2]) if len(t) >= 2 and len(n) <= 2 else (n[2], n[3]))
        elif name in ('segment', 'head', 'tail'):
            if t:
                off, k = (n[0] if name == 'segment' else ZERO), t[0]
            else:
                off, k = (n[0], n[1]) if name == 'segment' else (ZERO, n[0])
            if name == 'tail':
                off = sub(C(v.r * v.c), k)
            b = (off, ZERO, k, ONE) if v.c == 1 else (ZERO, off, ONE, k)
        elif name == 'row':
            b = (n[0], ZERO, ONE, C_)
        elif name == 'col':
            b = (ZERO, n[0], R_, ONE)
        elif name in ('topRows', 'bottomRows', 'leftCols', 'rightCols'):
            k = t[0] if t else n[0]
            b = {'topRows': (ZERO, ZERO, k, C_), 'bottomRows': (sub(R_, k), ZERO, k, C_), 'leftCols': (ZERO, ZERO, R_, k),
                 'rightCols': (ZERO, sub(C_, k), R_, k)}[name]
        elif name in ('middleRows', 'middleCols'):
            k = t[0] if t else n[1]
            b = (n[0], ZERO, k, C_) if name == 'middleRows' else (ZERO, n[0], R_, k)
        else:
            p, q_ = (t + n)[:2]
            b = (ZERO if 'top' in name else sub(R_, p), ZERO if 'Left' in name else sub(C_, q_), p, q_)
        return L().ext(('blk',) + tuple(b))
    if name == 'diagonal':
        return L().ext(('diag',))
    if name == 'asDiagonal':
        n = v.r * v.c
        return Mat(n, n, [v.e[i] if i == j else ZERO for i in range(n) for j in range(n)])
    if name == 'toDenseMatrix':
        return v
    if name in ('setZero', 'setOnes', 'setIdentity', 'setConstant', 'fill', 'setRandom'):
        na = [self.num(A_(i)) for i in range(len(args))]
        r, c = v.r, v.c
        k = na.pop() if name in ('setConstant', 'fill') else None
        if na:
            cs = [x.const() for x in na if isinstance(x, Poly)]
            if len(cs) != len(na) or any(x is None for x in cs):
                if name == 'setZero' and len(na) == 1:
                    self.write(st, lv, Arr(('fill', ZERO), None, na[0]))
                    return lv
                return self.uns('dynamic ' + name)
            r, c = (int(cs[0]), int(cs[1])) if len(cs) == 2 else (int(cs[0]), 1)
        if name == 'setRandom':
            self.tmpn += 1
            x = Mat(r, c, [app('random', self.tmpn, i) for i in range(r * c)])
        else:
            x = Mat(r, c, [{'setZero': ZERO, 'setOnes': ONE, 'setIdentity': ONE if i == j else ZERO}.get(name, k) for i in range(r) for j in range(c)])
        if lv is None:
            return x
        self.write(st, lv, x)
        return lv
    if name in ('operator+=', 'operator-=', 'operator*=', 'operator/='):
        x = A_(0)
        op = name[8:-1]
        r = self.opq_bin(op, v, x)
        if isinstance(r, Mat) and (r.r, r.c) != (v.r, v.c) and r.r * r.c == v.r * v.c:
            r = Mat(v.r, v.c, r.e)
        self.write(st, lv, r)
        return lv
    if name in ('operator+', 'operator-', 'operator*', 'operator/'):
        if not args:
            return Mat(v.r, v.c, [neg(x) for x in v.e]) if name == 'operator-' else v
        x = A_(0)
        if cls.startswith('Eigen::Array') and name in ('operator*', 'operator/') and isinstance(x, Mat):
            return matop(mul if name[-1] == '*' else div, v, x)
        return self.opq_bin(name[8:], v, x)
    if name in ('operator==', 'operator!=') and args:
        x = A_(0)
        if isinstance(x, Mat):
            r = True
            for a, b in zip(v.e, x.e):
                r = band(r, eq(a, b))
            return r if name == 'operator==' else bnot(r)
    if name in ('operator<', 'operator<=', 'operator>', 'operator>=') and args:
        x = A_(0)
        xs = x.e if isinstance(x, Mat) else [self.num(x)] * len(v.e)
        f = {'<': lt, '<=': le, '>': lambda a, b: lt(b, a), '>=': lambda a, b: le(b, a)}[name[8:]]
        return Mat(v.r, v.c, [f(a, b) for a, b in zip(v.e, xs)])
    if name in ('any', 'all'):
        r = name == 'all'
        for a in v.e:
            a = self.boolean(a)
            r = band(r, a) if name == 'all' else bor(r, a)
        return r
    if name in ('cwiseProduct', 'cwiseQuotient'):
        x = A_(0)
        if isinstance(x, Mat):
            return matop(mul if 'Prod' in name else div, v, x)
    if name in ('cwiseMax', 'cwiseMin'):
        x = A_(0)
        f = vmax if 'Max' in name else vmin
        return matop(f, v, x) if isinstance(x, Mat) else Mat(v.r, v.c, [f(a, self.num(x)) for a in v.e])
    if name in ('max', 'min') and args and cls.startswith('Eigen::Array'):
        x = A_(0)
        f = vmax if name == 'max' else vmin
        return matop(f, v, x) if isinstance(x, Mat) else Mat(v.r, v.c, [f(a, self.num(x)) for a in v.e])
    if name in ('cwiseAbs', 'abs'):
        return Mat(v.r, v.c, [vabs(a) for a in v.e])
    if name in ('cwiseAbs2', 'square', 'abs2'):
        return Mat(v.r, v.c, [mul(a, a) for a in v.e])
    if name in ('cwiseSqrt', 'sqrt'):
        return Mat(v.r, v.c, [lift(lambda p: ppow(p, Fraction(1, 2)), a) for a in v.e])
    if name in ('cwiseInverse', 'inverse') and (name == 'cwiseInverse' or cls.startswith('Eigen::Array')):
        return Mat(v.r, v.c, [div(ONE, a) for a in v.e])
    if name == 'pow' and args:
        x = A_(0)
        xs = x.e if isinstance(x, Mat) else [self.num(x)] * len(v.e)
        return Mat(v.r, v.c, [npow(a, b) for a, b in zip(v.e, xs)])
    if name in ('exp', 'sin', 'cos', 'log', 'tanh'):
        return Mat(v.r, v.c, [fapp(name, a) for a in v.e])
    if name == 'inverse':
        return minv(self, v)
    if name in ('ldlt', 'llt', 'lu', 'partialPivLu', 'fullPivLu', 'colPivHouseholderQr', 'fullPivHouseholderQr', 'householderQr'):
        return Opq(('fact', name, v))
    if name in ('solveInPlace',):
        return self.uns(name)
    if name == 'dot':
        x = A_(0)
        if isinstance(x, Mat):
            s = ZERO
            for a, b in zip(v.e, x.e):
                s = add(s, mul(a, b))
            return s
    if name == 'cross':
        x = A_(0)
        if isinstance(x, Mat) and len(x.e) == 3:
            a, b = v.e, x.e
            return Mat(v.r, v.c, [sub(mul(a[1], b[2]), mul(a[2], b[1])), sub(mul(a[2], b[0]), mul(a[0], b[2])), sub(mul(a[0], b[1]), mul(a[1], b[0]))])
    if name == 'squaredNorm' or name == 'norm':
        s = ZERO
        for a in v.e:
            s = add(s, mul(a, a))
        return s if name == 'squaredNorm' else lift(lambda p: ppow(p, Fraction(1, 2)), s)
    if name == 'lpNorm':
        p = ta[0] if ta else None
        if p == 1:
            s = ZERO
            for a in v.e:
                s = add(s, vabs(a))
            return s
        if p == 2:
            s = ZERO
            for a in v.e:
                s = add(s, mul(a, a))
            return lift(lambda q: ppow(q, Fraction(1, 2)), s)
        if p == -1:
            s = vabs(v.e[0])
            for a in v.e[1:]:
                s = vmax(s, vabs(a))
            return s
    if name == 'sum':
        s = ZERO
        for a in v.e:
            s = add(s, a)
        return s
    if name == 'prod':
        s = ONE
        for a in v.e:
            s = mul(s, a)
        return s
    if name == 'mean':
        s = ZERO
        for a in v.e:
            s = add(s, a)
        return div(s, C(len(v.e)))
    if name == 'trace':
        s = ZERO
        for i in range(min(v.r, v.c)):
            s = add(s, v.at(i, i))
        return s
    if name in ('maxCoeff', 'minCoeff') and not args:
        s = v.e[0]
        for a in v.e[1:]:
            s = (vmax if 'max' in name else vmin)(s, a)
        return s
    if name in ('hasNaN',):
        r = False
        for a in v.e:
            r = bor(r, lift(lambda p: bx(('isnan', p)) if p.const() is None else False, a))
        return r
    if name in ('allFinite',):
        r = True
        for a in v.e:
            r = band(r, lift(lambda p: bx(('isfinite', p)) if p.const() is None else True, a))
        return r
    if name == 'isApprox':
        return bx(('isApprox', v, A_(0)))
    if name == 'isZero':
        r = True
        for a in v.e:
            r = band(r, eq(a, ZERO))
        return r
    if name in ('cast', 'template cast'):
        if re.search(r'scalar_cast_op<(double|float), *(int|long|unsigned|short)', self.T(self.db.noref(tid)).get('s', '')):
            return Mat(v.r, v.c, [lift(toint, a) for a in v.e])
        return v
    if name == 'data':
        return Ptr(L())
    if name in ('operator<<',):
        x = A_(0)
        t = self.T(self.db.noref(tid))
        cm = Comma(L(), 0, 0, v.r, v.c, 1)
        self.comma_put(st, cm, x)
        return cm
    if name == 'replicate':
        n = [self.num(A_(i)).const() for i in range(len(args))] if args else [x for x in ta if isinstance(x, int)]
        if len(n) == 2 and None not in n:
            p, q_ = int(n[0]), int(n[1])
            return Mat(v.r * p, v.c * q_, [v.at(i % v.r, j % v.c) for i in range(v.r * p) for j in range(v.c * q_)])
    if name == 'swap':
        p = self.ev(args[0], st, fr)
        b = self.rv(st, p)
        self.write(st, p, v)
        self.write(st, lv, b)
        return None
    if name == 'determinant':
        return app('det', v)
    if name == 'imag':
        return Mat(v.r, v.c, [lift(lambda p: app('imag', p), a) for a in v.e])
    if name == 'eigenvalues' and v.r == v.c:
        return Mat(v.r, 1, [app('eigval', v, i) for i in range(v.r)])
    if name in ('isDiagonal', 'isIdentity', 'isUpperTriangular', 'isLowerTriangular') and len(args) <= 1:
        return bx((name, v) + tuple(A_(i) for i in range(len(args))))
    if name == 'normalized':
        s = ZERO
        for a in v.e:
            s = add(s, mul(a, a))
        n = lift(lambda p: ppow(p, Fraction(1, 2)), s)
        return Mat(v.r, v.c, [div(a, n) for a in v.e])
    if name == 'resize' and lv is not None:
        na = [self.num(A_(i)) for i in range(len(args))]
        self.write(st, lv, self.sized(na[0], na[1] if len(na) > 1 else ONE, tid) if False else self.resized(na, v))
        return None
    if name in ('size', 'empty') and not args:
        return C(v.r * v.c)
    if name == 'operator bool' or name.startswith('operator '):
        if v.r * v.c == 1:
            return v.e[0]
    if name in ('begin', 'end'):
        return It(L(), ZERO if name == 'begin' else C(v.r * v.c))
    if name in ('unaryExpr',):
        f = A_(0)
        if isinstance(f, Fn):
            return Mat(v.r, v.c, [self.num(self.rv(st, self.call_fn(st, f, [a], tid, e[7]))) for a in v.e])
    if name in ('rowwise', 'colwise'):
        return Opq(('vw', v, name))
    x = [self.hv(st, self.ev(a, st, fr)) for a in args]
    r = self.T(self.db.noref(tid))
    if r.get('k') == 'void':
        return self.uns('eigen ' + name)
    self.unsup.append('eigen method ' + name)
    return self.fresh(tid, ('ret', '?eigen:' + name, v) + tuple(x)) if r.get('k') in ('flt', 'int', 'bool') else Opq(('ret', '?eigen:' + name, v) + tuple(x), tid)


def resized(self, na, v):
    cs = [x.const() if isinstance(x, Poly) else None for x in na]
    self.tmpn += 1
    if None not in cs:
        r, c = (int(cs[0]), int(cs[1])) if len(cs) == 2 else ((int(cs[0]), 1) if v.c == 1 else (1, int(cs[0])))
        if (r, c) == (v.r, v.c):
            return v
        return Mat(r, c, [A(atom(('app', '@', ('uninit',), i, j))) for i in range(r) for j in range(c)])
    if len(na) == 1:
        return Arr(('uninitvec',), None, na[0])
    return Opq(('dynmat',) + tuple(na))


# ---------------------------------------------------------------------------------------------- statements
def ex(self, s, st, fr):
    """execute; returns outcomes {'n': state|None, 'r': [(state,val)], 'b': state, 'c': state}"""
    self.fuel -= 1
    if self.fuel < 0:
        raise Budget('fuel')
    if s is None:
        return {'n': st}
    if st is None or st.cond is False:
        return {'n': None}
    if s[0] in ('for', 'while', 'do', 'rfor'):
        fr['looped'] = True
    return ST[s[0]](self, s, st, fr) if s[0] in ST else self.st_uns(s, st)


def st_uns(self, s, st):
    self.unsup.append('stmt ' + s[0])
    return {'n': st}


def addout(out, o):
    for k in ('b', 'c'):
        if o.get(k) is not None:
            out[k] = join(out.get(k), o[k])
    if o.get('r'):
        out.setdefault('r', []).extend(o['r'])


def s_block(self, s, st, fr):
    out = {'n': st}
    for x in s[1]:
        if out['n'] is None or out['n'].cond is False:
            out['n'] = None
            break
        o = self.ex(x, out['n'], fr)
        addout(out, o)
        out['n'] = o.get('n')
    return out


def s_decl(self, s, st, fr):
    for did, name, tid, init, loc, *static in s[1]:
        if static:
            key = ('static', did)
            self.objtypes[key] = self.db.noref(tid)
            fr[did] = LV(key)
            continue
        t = self.T(tid)
        if init is not None and init[0] == 'ctor' and t.get('own') and t.get('k') == 'rec':
            key = ('loc', fr['id'], did)
            self.objtypes[key] = tid
            fr[did] = LV(key)
            v = self.build(st, init, [self.ev(a, st, fr) for a in init[2]], target=LV(key))
            if st.cond is False:
                return {'n': None}
            st.heap[key] = self.coerce(self.rv(st, v), tid)
            continue
        if init is None:
            v = self.default(tid)
        else:
            v = self.ev(init, st, fr)
        if st.cond is False:
            return {'n': None}
        if t.get('name') == 'Eigen::Map' and init is not None and init[0] == 'ctor' and isinstance(v, (LV, Mat)):
            fr[did] = v if isinstance(v, LV) else self.uns('a view of a matrix')
            if not isinstance(v, LV):
                fr[did] = self.tmp(st, v, tid)
            continue
        if t.get('k') == 'ref':
            if not isinstance(v, (LV, LVIte)):
                v = self.tmp(st, v, self.db.noref(tid))
            fr[did] = v
        else:
            key = ('loc', fr['id'], did)
            self.objtypes[key] = tid
            fr[did] = LV(key)
            st.heap[key] = self.coerce(self.rv(st, v), tid)
            if init is None and t.get('k') == 'rec' and isinstance(st.heap[key], Struct):
                pass
    return {'n': st}


def s_expr(self, s, st, fr):
    self.ev(s[1], st, fr)
    return {'n': st if st.cond is not False else None}


def s_if(self, s, st, fr):
    c = self.boolean(self.rve(s[1], st, fr))
    if st.cond is False:
        return {'n': None}
    c = gcof(c, st.cond)
    if c is True:
        return self.ex(s[2], st, fr)
    if c is False:
        return self.ex(s[3], st, fr) if s[3] is not None else {'n': st}
    s1, s2 = st.copy(), st.copy()
    s1.cond, s2.cond = band(st.cond, c), band(st.cond, bnot(c))
    o1 = self.ex(s[2], s1, fr) if s1.cond is not False else {'n': None}
    o2 = (self.ex(s[3], s2, fr) if s[3] is not None else {'n': s2}) if s2.cond is not False else {'n': None}
    out = {'n': join(o1.get('n'), o2.get('n'))}
    addout(out, o1)
    addout(out, o2)
    return out


def s_ret(self, s, st, fr):
    v = self.ev(s[1], st, fr) if s[1] is not None else None
    if st.cond is False:
        return {'n': None}
    # return by value: materialise locals
    if isinstance(v, LV) and v.key[0] in ('loc', 'tmp'):
        v = self.read(st, v)
    elif isinstance(v, LVIte) and not _lvite_lives(v):
        v = self.read(st, v)
    return {'n': None, 'r': [(st, v)]}


def _lvite_lives(v):
    """every alternative of a conditional lvalue outlives the function"""
    if isinstance(v, LVIte):
        return _lvite_lives(v.a) and _lvite_lives(v.b)
    return isinstance(v, LV) and v.key[0] not in ('loc', 'tmp')


def s_try(self, s, st, fr):
    n0 = len(self.throws)
    st0 = st.copy()
    self.tries = getattr(self, 'tries', 0) + 1
    try:
        out = self.ex(s[1], st, fr)
    finally:
        self.tries -= 1
    thrown = [x for x in self.throws[n0:] if x[1] not in ENDS]
    if thrown:
        caught = False
        for h in s[2]:
            if h[0] is None or any(x in self.T(self.db.noref(h[0][2]))['s'] for x in ('exception', 'runtime_error', 'logic_error', 'out_of_range')):
                caught = True
                break
        if caught:
            self.throws[n0:] = [x for x in self.throws[n0:] if x[1] in ENDS]
            out2 = dict(out)
            if all(isinstance(tl, ThrowLoc) for _, _, tl in thrown):
                starts = []
                for tc, _, tl in thrown:
                    hs = tl.st.copy()
                    hs.cond = tc
                    starts.append(hs)
            else:
                c = False
                for tc, _, _ in thrown:
                    c = bor(c, tc)
                hs = st0
                hs.cond = c
                starts = [hs]
                self.unsup.append('catch handler (pre-state approximated)')
            for hs in starts:
                if h[0] is not None:
                    key = ('loc', fr['id'], h[0][0])
                    hs.heap[key] = Opq(('exc',))
                    fr[h[0][0]] = LV(key)
                o = self.ex(h[1], hs, fr)
                o2 = {'n': join(out2.get('n'), o.get('n'))}
                addout(o2, out2)
                addout(o2, o)
                out2 = o2
            return out2
    return out


ENDS = ('abort', 'std::abort', 'exit', 'std::exit', 'std::terminate', 'quick_exit')


def s_switch(self, s, st, fr):
    v = self.num(self.rve(s[1], st, fr))
    items = s[2][1] if s[2] and s[2][0] == '{' else [s[2]]
    # flatten nested case labels
    flat = []

    def put(x):
        if x[0] == 'case':
            flat.append(('L', x[1]))
            put(x[2])
        elif x[0] == 'default':
            flat.append(('D', None))
            put(x[1])
        else:
            flat.append(('S', x))
    for x in items:
        if x is not None:
            put(x)
    labels = [self.num(self.rve(x[1], st, fr)) for x in flat if x[0] == 'L']
    anyc = False
    for l in labels:
        anyc = bor(anyc, eq(v, l))
    out = {'n': None}
    cur = None
    broke = None
    seen_default = False
    rest = st
    for x in flat:
        if x[0] in ('L', 'D'):
            c = eq(v, self.num(self.rve(x[1], st, fr))) if x[0] == 'L' else bnot(anyc)
            if x[0] == 'D':
                seen_default = True
            c = gcof(c, st.cond) if st.cond is not True else c
            if c is False:
                continue
            e = st.copy()
            e.cond = band(st.cond, c)
            if e.cond is not False:
                cur = join(cur, e)
        elif cur is not None and cur.cond is not False:
            o = self.ex(x[1], cur, fr)
            if o.get('b') is not None:
                broke = join(broke, o.pop('b'))
            addout(out, o)
            cur = o.get('n')
    if not seen_default:
        e = st.copy()
        e.cond = band(st.cond, bnot(anyc))
        if e.cond is not False:
            broke = join(broke, e)
    out['n'] = join(cur, broke)
    return out


def s_for(self, s, st, fr):
    if s[1] is not None:
        before = set(st.heap)
        o = self.ex(s[1], st, fr)
        st = o['n']
        if any(isinstance(st.heap[k], Opq) and st.heap[k].path[0] == 'mapbegin' for k in st.heap.keys() - before):
            # over the entries of a map: only where the body has no effect (it prints them)
            n_t, n_u = len(self.throws), len(self.unsup)
            s2 = st.copy()
            o = self.ex(s[4], s2, fr)
            n = o.get('n')
            if len(self.throws) == n_t and n is not None and not o.get('r') and o.get('b') is None and o.get('c') is None and \
                    len(n.trace) == len(st.trace) and all(n.heap.get(k) == v for k, v in st.heap.items()):
                del self.unsup[n_u:]
                return {'n': st}
            del self.throws[n_t:]
    if always(s[2]) and s[3] is None:
        o = rotate(self, s[4], st, fr, s[5])
        if o is not None:
            return o
    return self.loop(st, fr, s[2], s[3], s[4], s[5])


def always(c):
    return c is None or isinstance(c, list) and c and (c[0] == 'bool' and c[1] or c[0] == 'int' and c[1])


def jumps(s, kinds):
    """the statement contains one of these jumps out of the loop it is in"""
    if not isinstance(s, list) or not s:
        return False
    if isinstance(s[0], str):
        if s[0] in kinds:
            return True
        if s[0] in ('for', 'while', 'do', 'rfor', 'switch') and kinds != ('ret',):
            kinds = ('ret',)
        if s[0] in ('lambda',):
            return False
    return any(jumps(x, kinds) for x in s if isinstance(x, list))


def bare(s, last):
    """the block is nothing but this jump, without a value"""
    while s and s[0] == '{' and len(s[1]) == 1:
        s = s[1][0]
    return s is last and (s[0] == 'break' or len(s) < 2 or not isinstance(s[1], list))


def ends_with(self, body):
    """the loop with this body is the last statement of the function being analysed"""
    fn = self.db.fns.get(self.stack[-1]) if self.stack else None
    b = fn and fn.get('body')
    return bool(b and b[0] == '{' and b[1] and b[1][-1] and any(x is body for x in b[1][-1] if isinstance(x, list)))


def rotate(self, body, st, fr, loc):
    """for (;;) { A; if (c) { E; leave } B }  as  A; while (!c) { B; A }  E; leave"""
    if not (isinstance(body, list) and body and body[0] == '{'):
        return None
    at = None
    for i, x in enumerate(body[1]):
        if x and x[0] == 'if' and x[3] is None and jumps(x[2], ('ret', 'break', 'cont')):
            at = i
            break
        if jumps(x, ('ret', 'break', 'cont')):
            return None
    if at is None:
        return None
    ife = body[1][at]
    last = ife[2]
    while last and last[0] == '{' and last[1]:
        last = last[1][-1]
    if not last or last[0] not in ('ret', 'break') or jumps(body[1][at + 1:], ('cont',)):
        return None
    if jumps(body[1][at + 1:], ('break',)) and not (bare(ife[2], last) and ends_with(self, body)):
        return None
    o = self.ex(['{', body[1][:at]], st, fr)
    st = o.get('n')
    if st is None or o.get('r') or o.get('b') is not None or o.get('c') is not None:
        return None
    out = self.loop(st, fr, lambda t: bnot(self.boolean(self.rve(ife[1], t, fr))), None, ['{', body[1][at + 1:] + body[1][:at]], loc)
    res = {'n': None, 'r': list(out.get('r', []))}
    n = out.get('n')
    if n is not None and n.cond is not False:
        o = self.ex(ife[2], n, fr)
        res['r'] += o.get('r', [])
        res['n'] = join(o.get('n'), o.get('b'))
    return res


def wait_for(self, st, cv, pred, until, fr, loc):
    """the others run until the predicate holds: what they change is not known any more"""
    root = LV(cv.key)
    cur = self.read(st, root)
    if not isinstance(cur, Struct):
        return None
    cur = detmp(self, st, cur)
    for f in sorted(self.shared):
        t = self.comp_type(cv.key, (('f', f),))
        if t is not None:
            self.write(st, root.ext(('f', f)), self.fresh(t, ('others', f, cur)))
    if pred is not None:
        p = self.boolean(self.rv(st, self.call_fn(st, pred, [], None, loc)))
    elif until is not None:
        p = bnot(self.boolean(self.rve(until, st, fr)))
    else:
        p = True
    cur2 = self.read(st, root)
    s0 = cur2.get('@st') if isinstance(cur2, Struct) else None
    self.write(st, root.ext(('f', '@st')), Opq(('upd', 'wait', s0 if s0 is not None else Opq(('nocalls', 0)), cur, tonum(p))))
    return None


def only_wait(body):
    while body and body[0] == '{' and len(body[1]) == 1:
        body = body[1][0]
    if body and body[0] == 'expr':
        body = body[1]
    return bool(body and body[0] == 'call' and body[2] == 'wait' and len(body[4]) == 1 and 'condition_variable' in body[6].get('cls', ''))


def s_while(self, s, st, fr):
    if self.shared and only_wait(s[2]):
        w = s[2]
        while w[0] in ('{', 'expr'):
            w = w[1] if w[0] == 'expr' else w[1][0]
        o = self.ev(w[3], st, fr)
        if isinstance(o, LV):
            wait_for(self, st, o, None, s[1], fr, s[3])
            return {'n': st}
    if always(s[1]):
        o = rotate(self, s[2], st, fr, s[3])
        if o is not None:
            return o
    return self.loop(st, fr, s[1], None, s[2], s[3])


def s_do(self, s, st, fr):
    # body once, then while
    o = self.ex(s[2], st, fr)
    n = join(o.get('n'), o.get('c'))
    if n is None:
        return {'n': o.get('b'), 'r': o.get('r', [])}
    out = {'n': None, 'r': list(o.get('r', []))}
    o2 = self.loop(n, fr, s[1], None, s[2], s[3])
    out['r'] += o2.get('r', [])
    out['n'] = join(o.get('b'), o2.get('n'))
    return out


def s_rfor(self, s, st, fr):
    did, name, tid, init, loc = s[1][:5]
    rng = self.ev(s[2], st, fr)
    v = self.rv(st, rng)
    lv = rng if isinstance(rng, (LV, LVIte)) else self.tmp(st, v)
    if isinstance(v, Mat):
        n = C(v.r * v.c)
    elif isinstance(v, Arr):
        n = v.size
    else:
        self.unsup.append('range-for over ' + type(v).__name__)
        return {'n': st}
    # desugar with a hidden index
    self.tmpn += 1
    key = ('tmp', self.tmpn)
    st.heap[key] = ZERO
    hid = LV(key)
    isref = self.T(tid).get('k') == 'ref'

    def pre(st2):
        i = self.read(st2, hid)
        el = lv.ext(('i', i))
        if isref:
            fr[did] = el
        else:
            k2 = ('loc', fr['id'], did)
            fr[did] = LV(k2)
            self.objtypes[k2] = tid
            st2.heap[k2] = self.coerce(self.read(st2, el), tid)
    return self.loop(st, fr, lambda st2: lt(self.read(st2, hid), n), lambda st2: self.write(st2, hid, add(self.read(st2, hid), ONE)),
                     s[3], s[4], pre=pre)


def sym_range_loop(self, st, a, b, f, loc):
    """std::for_each(a, b, f)"""
    self.tmpn += 1
    key = ('tmp', self.tmpn)
    st.heap[key] = a.idx
    hid = LV(key)

    def body(st2):
        el = a.lv.ext(('i', self.read(st2, hid)))
        if callable(f):
            f(st2, el)
        else:
            self.call_fn(st2, f, [el], None, loc)
    out = self.loop(st, {'id': 0}, lambda s2: lt(self.read(s2, hid), b.idx), lambda s2: self.write(s2, hid, add(self.read(s2, hid), ONE)),
                    body, loc or [0, 0])
    if out.get('n') is not None:
        st.become(out['n'])


MAXUNROLL = 80


def fixed_bound(self, cond, st, fr, first=True):
    """the condition is a conjunction with a part that compares fixed numbers"""
    while cond and cond[0] in ('paren', 'cast') and isinstance(cond[1], list):
        cond = cond[1]
    if not cond or cond[0] != 'bin':
        return False
    if cond[1] == '&&':
        return fixed_bound(self, cond[2], st, fr, first) or fixed_bound(self, cond[3], st, fr, first)
    if cond[1] not in ('<', '>', '<=', '>=', '!=') or first is None:
        return False
    n_t, n_u = len(self.throws), len(self.unsup)
    try:
        s2 = st.copy()
        a, b = (self.rve(x, s2, fr) for x in cond[2:4])
    finally:
        del self.throws[n_t:]
        del self.unsup[n_u:]
    return all(isinstance(x, Poly) and x.const() is not None for x in (a, b))


def loop(self, st, fr, cond, inc, body, loc, pre=None):
    def do_cond(s):
        if cond is None:
            return True
        if callable(cond):
            return cond(s)
        return self.boolean(self.rve(cond, s, fr))

    def do_inc(s):
        if inc is None:
            return
        if callable(inc):
            inc(s)
        else:
            self.ev(inc, s, fr)

    def do_body(s):
        if pre:
            pre(s)
        if callable(body):
            body(s)
            return {'n': s}
        return self.ex(body, s, fr)
    out = {'n': None, 'r': []}
    brk = None
    cur = st
    for it in range(MAXUNROLL):
        probe = cur.copy()
        c = do_cond(probe)
        c = gcof(c, probe.cond) if probe.cond is not True else c
        if c is False:
            out['n'] = join(probe, brk)
            return out
        if c is not True:
            break
        cur = probe
        o = do_body(cur)
        if o.get('b') is not None:
            brk = join(brk, o['b'])
        out['r'] += o.get('r', [])
        n = join(o.get('n'), o.get('c'))
        if n is None or n.cond is False:
            out['n'] = brk
            return out
        do_inc(n)
        cur = n
    else:
        self.unsup.append('loop unroll limit at ' + self.db.loc(loc))
        out['n'] = join(cur, brk)
        return out
    # a fixed bound and something else: each iteration under the condition that it is reached
    if isinstance(cond, list) and fixed_bound(self, cond, cur, fr):
        st1, exits, rets, brk1 = cur.copy(), None, [], None
        n_t, n_u = len(self.throws), len(self.unsup)
        done = False
        for it in range(24):
            if it and not fixed_bound(self, cond, st1, fr, False):
                break
            c = do_cond(st1)
            c = gcof(c, st1.cond) if st1.cond is not True else c
            if c is False:
                exits, done = join(exits, st1), True
                break
            if c is not True:
                x = st1.copy()
                x.cond, st1.cond = band(st1.cond, bnot(c)), band(st1.cond, c)
                exits = join(exits, x)
                if st1.cond is False:
                    done = True
                    break
            o = do_body(st1)
            if o.get('b') is not None:
                brk1 = join(brk1, o['b'])
            rets += o.get('r', [])
            st1 = join(o.get('n'), o.get('c'))
            if st1 is None or st1.cond is False:
                done = True
                break
            do_inc(st1)
        if done:
            out['r'] += rets
            out['n'] = join(join(exits, brk1), brk)
            return out
        del self.throws[n_t:]
        del self.unsup[n_u:]
    # symbolic
    o = self.summarise(cur, do_cond, do_body, do_inc, loc)
    out['r'] += o.get('r', [])
    out['n'] = join(o.get('n'), brk)
    return out


# ---- component paths of a value that differ
def diffcomp(self, old, new, acc=()):
    if old is new:
        return []
    if isinstance(old, Struct) and isinstance(new, Struct) and old.path == new.path:
        r = []
        for k in {k for k, _ in old.ups} | {k for k, _ in new.ups}:
            r += diffcomp(self, self.sget(old, k), self.sget(new, k), acc + (('f', k),))
        return r
    if isinstance(old, Mat) and isinstance(new, Mat) and (old.r, old.c) == (new.r, new.c):
        return [acc + (('e', C(i), C(j)),) for i in range(old.r) for j in range(old.c) if old.at(i, j) is not new.at(i, j)]
    if isinstance(old, Arr) and isinstance(new, Arr):
        r = []
        if old.size is not new.size:
            r.append(acc + (('sz',),))
        if old.path != new.path or old.ups != new.ups:
            r.append(acc + (('ct',),))
        return r
    if isinstance(old, It) and isinstance(new, It) and old.lv == new.lv:
        return [acc + (('ix',),)] if old.idx is not new.idx else []
    if type(old) is type(new) and not isinstance(old, (Ite,)) and old == new:
        return []
    return [acc]


def cget(self, st, key, acc):
    v = self.load_root(st, key)
    for i, a in enumerate(acc):
        if a[0] == 'sz':
            return v.size if isinstance(v, Arr) else self.uns('size component')
        if a[0] == 'ct':
            return v
        if a[0] == 'ix':
            return v.idx
        v = self.racc(st, v, a)
    return v


def cset(self, st, key, acc, val):
    if acc and acc[-1][0] in ('sz', 'ct', 'ix'):
        lv = LV(key, acc[:-1])
        v = self.read(st, lv)
        if acc[-1][0] == 'sz':
            self.write(st, lv, Arr(v.path, v.et, val, v.ups))
        elif acc[-1][0] == 'ix':
            self.write(st, lv, It(v.lv, val))
        else:
            self.write(st, lv, Arr(val.path, val.et, v.size, val.ups))
    else:
        self.write(st, LV(key, acc), val)


def mksum(lo, hi, b, x):
    """sum_{b in [lo,hi)} x"""
    if isinstance(x, Ite):
        # push out conditions that do not depend on b
        if b not in terms._desc_atoms(BV[x.v]):
            return ite(mk(x.v, True, False), mksum(lo, hi, b, x.hi), mksum(lo, hi, b, x.lo))
    if not isinstance(x, (Poly, Ite)):
        return app('sum?', x)
    if isinstance(lo, Ite):
        return lift(lambda l: mksum(l, hi, b, x), lo)
    if isinstance(hi, Ite):
        return lift(lambda h: mksum(lo, h, b, x), hi)
    if isinstance(x, Poly):
        # linear: split by monomials, factor out b-free parts
        r = ZERO
        n = psub(hi, lo)
        for m, c in x.t.items():
            free = tuple((a, e) for a, e in m if a != b and b not in terms._desc_atoms(ATOMS[a]))
            dep = tuple((a, e) for a, e in m if a == b or b in terms._desc_atoms(ATOMS[a]))
            if not dep:
                r = padd(r, pmul(Poly({free: c}), n))
            else:
                body = Poly({dep: Fraction(1)})
                # canonical range: 0..n
                body0 = subst(body, {b: padd(A(b), lo)})
                alt = subst(body, {b: psub(psub(hi, ONE), A(b))})
                cands = [x for x in (body0, alt)]
                best = min(cands, key=lambda z: (dirscore(z, b), pretty(z)))
                r = padd(r, pmul(Poly({free: c}), app('sum', n, *bindvar(b, best))))
        return r
    body0 = subst(x, {b: padd(A(b), lo)})
    alt = subst(x, {b: psub(psub(hi, ONE), A(b))})
    best = min((body0, alt), key=lambda z: (dirscore(z, b), pretty(z)))
    return app('sum', psub(hi, lo), *bindvar(b, best))


def dirscore(z, b):
    """prefer ascending index use of the bound variable"""
    s = 0
    seen = set()

    def walk(v):
        nonlocal s
        if isinstance(v, Poly):
            for m, c in v.t.items():
                for a, e in m:
                    if a == b and len(m) == 1:
                        s += 1 if c < 0 else -1
                    if a not in seen:
                        seen.add(a)
                        for y in ATOMS[a][1:]:
                            walk(y)
        elif isinstance(v, Ite):
            for y in BV[v.v][1:]:
                walk(y)
            walk(v.hi)
            walk(v.lo)
        elif isinstance(v, tuple):
            for y in v:
                walk(y)
        elif isinstance(v, Val):
            for y in v.children():
                walk(y)
    walk(z)
    return s


def linear_in(p, x):
    """p = k*x + r with x not in r: (k, r) or None"""
    if not isinstance(p, Poly):
        return None
    k = Fraction(0)
    r = {}
    for m, c in p.t.items():
        if any(a == x for a, e in m):
            if m == ((x, Fraction(1)),):
                k = c
            else:
                return None
        else:
            r[m] = c
    r = Poly(r)
    if x in atoms_in(r):
        return None
    return k, r


def summarise(self, st, do_cond, do_body, do_inc, loc):
    d = self.loopdepth
    self.loopdepth += 1
    nthrow0 = len(self.throws)
    facts0 = len(terms.FACTS)
    unsup0 = len(self.unsup)
    try:
        return self._summarise(st, do_cond, do_body, do_inc, loc, d, nthrow0, facts0)
    finally:
        del terms.FACTS[facts0:]
        self.loopdepth -= 1


def _summarise(self, st, do_cond, do_body, do_inc, loc, d, nthrow0, facts0):
    carried = []            # (key, acc)
    entry = {}
    out = None

    def run(havoc):
        del self.throws[nthrow0:]
        s = st.copy()
        s.trace = []
        s.cond = True
        for (k, acc) in carried:
            if (k, acc) in havoc:
                cset(self, s, k, acc, havoc[(k, acc)])
        base = s.copy()
        c = do_cond(s)
        top[0] = s.copy()
        o = do_body(s)
        n = join(o.get('n'), o.get('c'))
        if n is not None and n.cond is not False:
            do_inc(n)
        else:
            n = None
        return base, c, o, n
    top = [None]            # the state in which the loop condition has just been evaluated

    def sym_for(i, key, acc, cur):
        p = ('L', d, i)
        if isinstance(cur, Arr) and acc and acc[-1][0] == 'ct':
            return Arr(p, cur.et, cur.size)
        if acc and acc[-1][0] in ('sz', 'ix'):
            return A(atom(('app', '@', p), True, True))
        t = self.comp_type(key, acc)
        if t is not None:
            tt = self.T(self.db.noref(t))
            if tt.get('k') in ('int', 'flt', 'bool', 'enum'):
                if tt.get('k') == 'int':
                    return A(atom(('app', '@', p), True, False))
                return self.fresh(t, p)
        if isinstance(cur, bool) or (isinstance(cur, Ite) and isinstance(terms._leaf(cur), bool)):
            return bx(('@', p))
        if isinstance(cur, (Poly, Ite)) and (isinstance(cur, Poly) or isinstance(terms._leaf(cur), Poly)):
            l = cur if isinstance(cur, Poly) else terms._leaf(cur)
            # hidden counters hold integers
            return A(atom(('app', '@', p), key[0] == 'tmp' and is_int(l)))
        if isinstance(cur, Mat):
            return Mat(cur.r, cur.c, [A(atom(('app', '@', p, i_, j_))) for i_ in range(cur.r) for j_ in range(cur.c)])
        if isinstance(cur, Struct):
            return Struct(p, cur.tid)
        return Opq(p, getattr(cur, 'tid', None))

    havoc = {}
    for rnd in range(8):
        base, c, o, n = run(havoc)
        new = []
        states = [x for x in [n] if x is not None]
        for s2 in states:
            for k in list(s2.heap):
                if k not in base.heap and k[0] in ('tmp', 'loc', 'static'):
                    continue
                old = base.heap.get(k)
                if old is None:
                    old = self.init_of(k)
                    if old is None:
                        continue
                for acc in diffcomp(self, old, s2.heap[k]):
                    if (k, acc) not in havoc:
                        new.append((k, acc))
        if not new:
            break
        for ka in new:
            # replace finer components when a whole value is havoced
            carried.append(ka)
            cur = cget(self, st, *ka)
            entry[ka] = cur
            havoc[ka] = sym_for(len(carried), ka[0], ka[1], cur)
    else:
        self.unsup.append('loop did not stabilise at ' + self.db.loc(loc))
    del self.throws[nthrow0:]

    bn = bvatom(d)
    N = None
    n_ = A(bn)

    def latom(h):
        if isinstance(h, Poly) and len(h.t) == 1:
            (m, k), = h.t.items()
            if k == 1 and len(m) == 1 and m[0][1] == 1:
                return m[0][0]
        return None
    # induction variables
    ind = {}
    for ka in carried:
        h = havoc[ka]
        a = latom(h)
        if a is None or n is None:
            continue
        u = cget(self, n, *ka)
        if isinstance(u, Poly):
            dlt = psub(u, h).const()
            if dlt is not None and dlt != 0:
                ind[ka] = (a, dlt)
    msub = {}
    for ka, (a, dlt) in ind.items():
        e0 = entry[ka]
        if isinstance(e0, (Poly, Ite)):
            msub[a] = add(e0, mul(C(dlt), n_))
    cc = subst(c, msub) if not isinstance(c, bool) else c
    # trip count
    others = {latom(havoc[ka]) for ka in carried if ka not in ind}
    extra_exit = False

    def trip(cc):
        if not isinstance(cc, Ite):
            return None
        dsc = BV[cc.v]
        positive = cc.hi is True and cc.lo is False
        negative = cc.hi is False and cc.lo is True
        if not (positive or negative) or dsc[0] not in ('pos', 'eq0'):
            return None
        li = linear_in(dsc[1], bn)
        if li is None:
            return None
        k, r = li
        if any(p[1] == d for p in atoms_in_paths(r)):
            return None         # the bound itself changes while the loop runs
        if dsc[0] == 'eq0':
            # loop while not equal
            if negative and k != 0:
                z = pscale(r, -1 / k)
                return z
            return None
        if positive and k < 0:
            # while k n + r > 0
            if is_int(dsc[1]) and k == -1:
                return r
            return app('ceildiv', r, C(-k), integer=True, nonneg=True)
        if negative and k > 0:
            # while k n + r <= 0  <=> n <= -r/k
            if is_int(dsc[1]) and k == 1:
                return padd(pneg(r), ONE)
            return app('floordiv1', pneg(r), C(k), integer=True, nonneg=True)
        return None
    # cond may be a conjunction / gated by loop-invariant conditions
    N = trip(cc)
    exit_guard = False
    if N is None and isinstance(cc, Ite):
        # the bound depends on conditions fixed before the loop
        def gated(x):
            if isinstance(x, bool):
                return ZERO if not x else None
            if bn in terms._desc_atoms(BV[x.v]) or any(p[:2] == ('L', d) for p in atoms_in_paths(mk(x.v, True, False))):
                return trip(x)
            h, l = gated(x.hi), gated(x.lo)
            if h is None or l is None:
                return None
            if h is l:
                return h
            # min or max of two bounds
            if BV[x.v][0] != 'pos' or not isinstance(BV[x.v][1], Poly):
                return None
            for c_ in (1, -1):
                df = psub(psub(h, l), pscale(BV[x.v][1], Fraction(c_)))
                if df.const() in (0, 1, -1) and (df.const() == 0 or is_int(BV[x.v][1])):
                    # integers: p > 0 means p - 1 >= 0, so bounds that differ by p - 1 agree at the switch as well
                    q = BV[x.v][1] if df.const() == 0 else psub(psub(h, l), ZERO) if c_ == 1 else psub(l, h)
                    if df.const() == 0 or df.const() == -c_:
                        return padd(l, pscale(terms.relu(q), Fraction(c_)))
            return None
        N = gated(cc)
    if N is None and isinstance(cc, Ite):
        # try conjunction: cofactor wrt each variable
        for v in sorted(support(cc)):
            pos_ = mk(v, True, False)
            for lit, other in ((pos_, restrict(cc, v, True)), (bnot(pos_), restrict(cc, v, False))):
                if band(lit, other) is cc:
                    t = trip(lit)
                    if t is not None:
                        N = t
                        exit_guard = other
                        break
            if N is not None:
                break
    if N is None:
        # irregular loop: runs until its condition fails
        N = app('inf', integer=True, nonneg=True)
        exit_guard = cc
        irregular = True
    else:
        irregular = False
    # final pass with induction variables closed and range facts
    if isinstance(N, Poly) and not irregular:
        terms.FACTS.append(psub(psub(N, ONE), n_))
    hv2 = {ka: (msub[ind[ka][0]] if ka in ind and ind[ka][0] in msub else havoc[ka]) for ka in carried}
    base, c2, o, n = run(hv2)
    throws = self.throws[nthrow0:]
    del self.throws[nthrow0:]
    # while (g && n < N) is while (n < N) { if (!g) break; ... }
    early = None
    if exit_guard is not False:
        early = top[0]
        early.cond = band(early.cond, bnot(exit_guard))
        throws = [(band(exit_guard, tc), tt, tl) for tc, tt, tl in throws]
    throws = [(tc, tt, str(tl)) for tc, tt, tl in throws]
    exits = []
    if early is not None and early.cond is not False:
        exits.append(('b', early, None))
    if o.get('b') is not None and o['b'].cond is not False:
        if exit_guard is not False:
            o['b'].cond = band(o['b'].cond, exit_guard)
        exits.append(('b', o['b'], None))
    for s2, v in o.get('r', []):
        if s2.cond is not False:
            if exit_guard is not False:
                s2.cond = band(s2.cond, exit_guard)
            exits.append(('r', s2, v))
    trace = []
    if n is not None:
        trace = n.trace
    upd = {}
    for ka in carried:
        if n is not None:
            upd[ka] = detmp(self, n, cget(self, n, *ka))
    # resolve
    resolved = {}       # ka -> function n -> value at start of iteration n (as value with bn)
    final = {}
    smap = {}           # atom -> value at iteration start (in bn)
    for ka in ind:
        if ind[ka][0] in msub:
            smap[ind[ka][0]] = msub[ind[ka][0]]
            resolved[ka] = msub[ind[ka][0]]
            final[ka] = subst(msub[ind[ka][0]], {bn: N}) if isinstance(N, (Poly,)) else add(entry[ka], mul(C(ind[ka][1]), N))
    todo = [ka for ka in carried if ka not in resolved]
    lpaths = {('L', d, i + 1): ka for i, ka in enumerate(carried)}

    def dep_on(v):
        """unresolved carried components v depends on"""
        r = set()
        for a in atoms_in_paths(v):
            ka = lpaths.get(a)
            if ka is not None and ka not in resolved:
                r.add(ka)
        return r
    progress = True
    arrsub = {}
    while progress and todo:
        progress = False
        for ka in list(todo):
            h, u, e0 = havoc[ka], upd.get(ka), entry[ka]
            if u is None:
                resolved[ka] = e0
                final[ka] = e0
                todo.remove(ka)
                progress = True
                continue
            u = self.apply_res(u, smap, arrsub)
            a = latom(h)
            if a is not None and isinstance(u, (Poly, Ite)):
                dlt = sub(u, h) if not isinstance(terms._leaf(u), bool) else None
                if dlt is not None and not dep_on(dlt):
                    s_n = add(e0, mksum(ZERO, n_, bvatom(d + 100), subst(dlt, {bn: A(bvatom(d + 100))})))
                    resolved[ka] = s_n
                    smap[a] = s_n
                    final[ka] = add(e0, mksum(ZERO, N, bn, dlt))
                    todo.remove(ka)
                    progress = True
                    continue
            if not dep_on(u) and not (ka[1] and ka[1][-1][0] == 'ct'):
                # overwritten every iteration; value at start of iteration n is u(n-1) (entry for n=0)
                used_elsewhere = bool(exits or throws) or any(ka in dep_on(self.apply_res(upd[k2], smap, arrsub)) for k2 in todo if k2 != ka and upd.get(k2) is not None)
                last = subst(u, {bn: sub(N, ONE)})
                prev = merge(eq(n_, ZERO), e0, subst(u, {bn: sub(n_, ONE)})) if used_elsewhere else e0
                final[ka] = merge(le(ONE, N), last, e0)
                resolved[ka] = prev
                if a is not None and isinstance(prev, (Poly, Ite)):
                    smap[a] = prev
                todo.remove(ka)
                progress = True
                continue
            if ka[1] and ka[1][-1][0] == 'ct' and isinstance(u, Arr) and u.path == h.path:
                r = self.solve_arr(ka, h, u, e0, bn, N, d, dep_on, smap, arrsub)
                if r is not None:
                    final[ka] = r[0]
                    resolved[ka] = r[1]
                    arrsub[h.path] = r[1]
                    todo.remove(ka)
                    progress = True
                    continue
    # the rest: folds
    at_iter = {}
    for ka in todo:
        h, u, e0 = havoc[ka], upd.get(ka), entry[ka]
        u = self.apply_res(u, smap, arrsub) if u is not None else None
        comps, exprs = [ka], []
        i = 0
        while i < len(comps):
            w = self.apply_res(upd.get(comps[i]), smap, arrsub)
            exprs.append(w)
            for x in sorted(dep_on(w), key=lambda y: (0, repr(y), 0) if y[0][0] == 'obj' else (1, '', carried.index(y))):
                if x not in comps:
                    comps.append(x)
            i += 1
        ren = {}
        # canonical names for the carried components inside the fold
        sub_atoms = {}
        for j, x in enumerate(comps):
            ren[('L', d, carried.index(x) + 1)] = ('FV', d, j)
        exprs = tuple(rename_paths(w, ren) for w in exprs)
        inits = tuple(entry[x] for x in comps)
        bb = bindvar(bn, True, exprs)
        # the carried components are named after the binder
        mark = ('FVL', A(cb(bb[0])))
        bb2 = rename_paths(bb[1:], {('FV', d, j): ('FV', mark, j) for j in range(len(comps))})
        path = ('fold', N, bb2[0], inits, bb2[1], bb[0])
        # its value at the start of iteration n
        at_iter[('L', d, carried.index(ka) + 1)] = ('fold', n_, bb2[0], inits, bb2[1], bb[0])
        final[ka] = self.fold_val(e0, h, u, path)
    # assemble
    res = st.copy()
    for ka in carried:
        if ka[0][0] == 'obj' and any(p[1] == d for p in atoms_in_paths(ka[0])):
            continue        # an object named by the iteration: see below
        cset(self, res, ka[0], ka[1], final[ka])
    out = {'n': None, 'r': []}

    def close(v):
        v = self.apply_res(v, smap, arrsub)
        if at_iter and not isinstance(v, bool):
            v = rename_paths(v, at_iter)
        return v
    # what every iteration does to an object of its own
    each = []
    if n is not None:
        for k, v in n.heap.items():
            if k[0] != 'obj' or not isinstance(v, Struct) or base.heap.get(k) is v or k[1][0] == 'foreach' or not path_has(k[1], bn):
                continue
            w = close(v)
            if isinstance(w, Struct) and w.ups:
                lvl, pth, val = bindvar(bn, Opq(close(Opq(k[1])).path), w)
                each.append((('obj', ('foreach', lvl, pth.path)), lvl, val))
    for k, lvl, val in each:
        res.heap[k] = Opq(('each', self.load_root(st, k), N, lvl, val))
    # throws inside the loop
    if exits and throws:
        throws = [(close(tc), tt, tl) for tc, tt, tl in throws]
    elif len(throws) > 1 and len({tt for _, tt, _ in throws}) == 1:
        # one kind of exception: thrown when some iteration meets one of the conditions
        g = False
        for tc, tt, tl in throws:
            g = bor(g, tc)
        throws = [(g, throws[0][1], throws[0][2])]
    for tc, tt, tl in throws if not exits else ():
        g = close(tc)
        if isinstance(g, bool) or bn not in atoms_in(g):
            c3 = band(g, pos(N)) if isinstance(N, Poly) else g
        else:
            c3 = bx(('exists', N) + bindvar(bn, g))
        self.throws.append((band(st.cond, c3), tt, tl))
        res.cond = band(res.cond, bnot(c3))
    # early exits
    if exits:
        allg = False
        for kind, s2, v in exits:
            allg = bor(allg, close(s2.cond))
        for tc, tt, tl in throws:
            allg = bor(allg, tc)
        if isinstance(allg, bool) or bn not in atoms_in(allg):
            E = band(allg, pos(N)) if isinstance(N, Poly) else allg
            F = ZERO
        else:
            E = bx(('exists', N) + bindvar(bn, allg))
            F = app('first', N, *bindvar(bn, allg), integer=True, nonneg=True)
        normal = res
        normal.cond = band(res.cond, bnot(E)) if not irregular else False
        for tc, tt, tl in throws:
            self.throws.append((band(band(st.cond, E), subst(tc, {bn: F}) if not isinstance(tc, bool) else tc), tt, tl))
        several = len(exits) + len(throws) > 1
        for kind, s2, v in exits:
            es = st.copy()
            g = close(s2.cond)
            gF = subst(g, {bn: F}) if not isinstance(g, bool) else g
            es.cond = band(band(st.cond, E), gF if several else True)
            for k, lvl, val in each:
                es.heap[k] = Opq(('each', self.load_root(st, k), F, lvl, val))
            for k in list(s2.heap):
                if k not in base.heap and k[0] in ('loc', 'static'):
                    continue
                val = s2.heap[k]
                val = close(val) if isinstance(val, (Val, Poly, Ite)) else val
                es.heap[k] = subst(val, {bn: F}) if isinstance(val, (Val, Poly, Ite)) else val
            if kind == 'b':
                out['n'] = join(out['n'], es)
            else:
                vv = self.rv(s2, v) if not isinstance(v, LV) or v.key[0] in ('loc', 'tmp') else v
                vv = close(vv) if isinstance(vv, (Val, Poly, Ite)) else vv
                out['r'].append((es, subst(vv, {bn: F}) if isinstance(vv, (Val, Poly, Ite)) else vv))
        res = normal
    # trace of calls inside the loop, quantified
    for ent in trace:
        tc, nm, od, hs, lc = ent
        res.trace.append((band(st.cond, close(tc)) if not isinstance(tc, bool) else st.cond, nm,
                          close(od) if isinstance(od, (Val, Poly, Ite, tuple)) else od, ('each', N) + tuple(close(x) if isinstance(x, (Val, Poly, Ite, tuple)) else x for x in hs), lc))
    out['n'] = join(res, out['n']) if res.cond is not False else out['n']
    if irregular:
        self.irregular = getattr(self, 'irregular', 0) + 1
    return out


def comp_type(self, key, acc):
    t = self.objtypes.get(key)
    if t is None:
        return None
    for a in acc:
        td = self.T(self.db.noref(t))
        if a[0] == 'f':
            rec = td.get('key')
            fi = self.db.fields(rec).get(a[1]) if rec else None
            if fi is None and self.dyncls and key == ('obj', ('this',)):
                fi = self.db.fields(self.dyncls).get(a[1])
            if fi is None:
                return None
            t = fi[0]
        elif a[0] == 'i':
            t = self.vec_elem(td)
            if t is None:
                t = td.get('to')
            if t is None:
                return None
        elif a[0] == 'e':
            if 'eig' in td:
                t = td['eig'][3]
            else:
                return None
        else:
            return None
    return t


_AIP = {}


def path_has(p, a):
    if isinstance(p, tuple):
        return any(path_has(x, a) for x in p)
    return isinstance(p, (Poly, Ite, Val)) and a in atoms_in(p)


def atoms_in_paths(v):
    """set of ('L',d,i) paths occurring in v"""
    out = set()
    seen = set()

    def walk(x):
        if isinstance(x, tuple):
            if len(x) == 3 and x[0] == 'L' and isinstance(x[1], int):
                out.add(x)
                return
            for y in x:
                walk(y)
        elif isinstance(x, Poly):
            if id(x) in seen:
                return
            seen.add(id(x))
            for m in x.t:
                for a, _ in m:
                    if ('a', a) not in seen:
                        seen.add(('a', a))
                        walk(ATOMS[a][1:])
        elif isinstance(x, Ite):
            if id(x) in seen:
                return
            seen.add(id(x))
            walk(BV[x.v][1:])
            walk(x.hi)
            walk(x.lo)
        elif isinstance(x, Val):
            for y in x.children():
                walk(y)
    walk(v)
    return out


def rename_paths(v, ren):
    """rename tuple paths inside a value"""
    memo = {}

    def go(x):
        if isinstance(x, tuple):
            if x in ren:
                return ren[x]
            return tuple(go(y) for y in x)
        if isinstance(x, Poly):
            if x in memo:
                return memo[x]
            m = {}
            r = ZERO
            for mono, c in x.t.items():
                t = C(c)
                for a, e in mono:
                    d_ = ATOMS[a]
                    if d_[0] == 'app':
                        nd = go(d_[2:])
                        y = terms.rebuild_app(d_, list(nd)) if nd != d_[2:] else A(a)
                    elif d_[0] == 'pw':
                        y = go(d_[1])
                    else:
                        y = A(a)
                    t = mul(t, lift(lambda p, e=e: ppow(p, e), y) if e != 1 else y)
                r = add(r, t)
            memo[x] = r
            return r
        if isinstance(x, Ite):
            d_ = BV[x.v]
            nd = go(d_[1:])
            if nd == d_[1:]:
                c = mk(x.v, True, False)
            elif d_[0] == 'pos':
                c = lift(pos, nd[0])
            elif d_[0] == 'eq0':
                c = lift(eq0, nd[0])
            else:
                c = bx((d_[0],) + nd)
            return merge(c, go(x.hi), go(x.lo))
        if isinstance(x, Val) and x.children():
            return x.rebuild([go(y) for y in x.children()])
        return x
    return go(v)


def apply_res(self, v, smap, arrsub):
    if v is None:
        return None
    if smap and not isinstance(v, bool):
        v = subst(v, smap)
    if arrsub and not isinstance(v, bool):
        v = self.sub_arr(v, arrsub)
    return v


def sub_arr(self, v, arrsub):
    """replace reads of a carried array's loop-entry contents by reads of its closed form"""
    memo = {}

    def hit(path):
        # ('el', P, idx) with P carried
        return isinstance(path, tuple) and len(path) == 3 and path[0] == 'el' and path[1] in arrsub

    def path_val(path, mi=None):
        if hit(path):
            return self.aget(arrsub[path[1]], go(path[2]))
        if isinstance(path, tuple) and len(path) == 3 and path[0] == 'f':
            b = path_val(path[1])
            if b is not None and isinstance(b, Struct):
                return self.sget(b, path[2])
        if isinstance(path, tuple) and len(path) == 3 and path[0] == 'el':
            b = path_val(path[1])
            if b is not None:
                return self.aget(b, go(path[2]))
        return None

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if isinstance(x, Poly):
            if x in memo:
                return memo[x]
            r = ZERO
            for mono, c in x.t.items():
                t = C(c)
                for a, e in mono:
                    d_ = ATOMS[a]
                    y = None
                    if d_[0] == 'app' and d_[1] == '@':
                        pv = path_val(d_[2])
                        if pv is not None:
                            if isinstance(pv, Mat) and len(d_) == 5:
                                y = pv.at(d_[3], d_[4])
                            elif isinstance(pv, (Poly, Ite)) and len(d_) == 3:
                                y = pv
                    if y is None:
                        if d_[0] == 'app':
                            nd = go(d_[2:])
                            y = terms.rebuild_app(d_, list(nd)) if nd != d_[2:] else A(a)
                        elif d_[0] == 'pw':
                            y = go(d_[1])
                        else:
                            y = A(a)
                    t = mul(t, lift(lambda p, e=e: ppow(p, e), y) if e != 1 else y)
                r = add(r, t)
            memo[x] = r
            return r
        if isinstance(x, Ite):
            d_ = BV[x.v]
            c = None
            if d_[0] == '@':
                pv = path_val(d_[1])
                if pv is not None and (isinstance(pv, bool) or isinstance(pv, Ite)):
                    c = pv
            if c is None:
                nd = go(d_[1:])
                if nd == d_[1:]:
                    c = mk(x.v, True, False)
                elif d_[0] == 'pos':
                    c = lift(pos, nd[0])
                elif d_[0] == 'eq0':
                    c = lift(eq0, nd[0])
                else:
                    c = bx((d_[0],) + nd)
            return merge(c, go(x.hi), go(x.lo))
        if isinstance(x, Arr) and x.path in arrsub:
            a = arrsub[x.path]
            return Arr(a.path, x.et, go(x.size), a.ups + tuple(go(u) for u in x.ups))
        if isinstance(x, (Struct, Opq)) and hit(x.path):
            pv = path_val(x.path)
            if isinstance(pv, Struct) and isinstance(x, Struct):
                for k, w in x.ups:
                    pv = pv.set(k, go(w))
                return pv
            if isinstance(x, Opq):
                return pv
        if isinstance(x, Val) and x.children():
            return x.rebuild([go(y) for y in x.children()])
        return x
    return go(v)


def solve_arr(self, ka, h, u, e0, bn, N, d, dep_on, smap, arrsub):
    """stores arr[alpha + beta*n] = v(n)"""
    base = h.path
    if not isinstance(e0, Arr):
        return None
    stores = list(u.ups)
    if not stores:
        return e0, e0
    rng = []
    for s in stores:
        if s[0] != 's':
            # inner loop range store whose target does not depend on this loop's contents: keep only if independent
            if s[0] == 'r' and not (dep_on(s) - {ka}) and bn not in atoms_in(s[2:4]) and bn not in atoms_in(s[5]) and ka not in dep_on(s):
                rng.append(s)
                continue
            return None
        g, idx, val = s[1], s[2], s[3]
        li = linear_in(idx, bn)
        if dep_on(idx):
            return None
        if li is None or abs(li[0]) != 1:
            if li is not None and li[0] == 0 and len(stores) == 1 and not dep_on((g, val)) and (isinstance(g, bool) or bn not in atoms_in(g)):
                at = lambda m: Arr(e0.path, e0.et, e0.size, e0.ups + (('s', band(g, le(ONE, m)), idx, subst(val, {bn: sub(m, ONE)})),))
                return at(N), at(A(bn))
            return None
        beta, alpha = li
        jb = bvatom(d + 200)
        j = A(jb)
        nval = psub(j, alpha) if beta == 1 else psub(alpha, j)
        lo, hi = (alpha, padd(alpha, N)) if beta == 1 else (padd(psub(alpha, N), ONE), padd(alpha, ONE))
        # own reads
        deps = dep_on((g, val))
        if deps - {ka}:
            return None
        vj = subst(val, {bn: nval})
        gj = subst(g, {bn: nval}) if not isinstance(g, bool) else g
        if ka in deps:
            # reads of own contents: allowed at the same index (not yet written), or at indices not written before
            ok = [True]
            reads = own_reads((g, val), base)
            before = True
            for r in reads:
                if r is None:
                    ok[0] = False
                    continue
                if r is idx:
                    continue
                df = psub(r, idx).const() if isinstance(r, Poly) else None
                # not yet written: ahead in iteration order
                if df is not None and (df > 0) == (beta == 1):
                    continue
                before = False
            if not ok[0]:
                return None
            if before:
                vj = self.sub_arr(vj, {base: e0})
                gj = self.sub_arr(gj, {base: e0}) if not isinstance(gj, bool) else gj
            else:
                # genuine recurrence
                lvl, vj2, gj2 = bindvar(jb, vj, gj)
                ren = {base: ('self', A(cb(lvl)))}
                path = ('rec', lo, hi, C(beta), e0, rename_paths(vj2, ren), gj2 if isinstance(gj2, bool) else rename_paths(gj2, ren), lvl)
                if len(stores) != 1:
                    return None
                a = Arr(path, e0.et, e0.size)
                a.size
                return a, a
        lvl, gj, vj = bindvar(jb, gj, vj)
        rng.append(('r', gj, lo, hi, cb(lvl), vj))
    if len(rng) > 1 and not all(r[1] is True for r in rng):
        # several guarded stores at the same range are fine (later wins); different ranges need care
        pass
    if len(rng) > 1:
        los = {(r[2], r[3]) for r in rng}
        top = max(r[4] for r in rng)
        rng = [('r', subst(r[1], {r[4]: A(top)}) if not isinstance(r[1], bool) else r[1], r[2], r[3], top, subst(r[5], {r[4]: A(top)})) for r in rng]
        if len(los) > 1:
            return None
        # combine: later store wins
        g, v = rng[0][1], rng[0][5]
        cur = None
        acc = None
        for r in rng:
            if acc is None:
                acc = (r[1], r[5])
            else:
                acc = (bor(acc[0], r[1]), merge(r[1], r[5], acc[1]))
        rng = [('r', acc[0]) + rng[0][2:5] + (acc[1],)]
    r = rng[0]
    if e0.ups and e0.ups[-1][0] == 's' and e0.ups[-1][1] is True and r[1] is True and len(stores) == 1 and \
            isinstance(e0.ups[-1][2], Poly) and isinstance(r[2], Poly) and psub(r[2], e0.ups[-1][2]) is ONE and \
            subst(r[5], {r[4]: e0.ups[-1][2]}) == e0.ups[-1][3]:
        # the store just before the loop is the one its first iteration would have made
        fin = Arr(e0.path, e0.et, e0.size, e0.ups[:-1] + (('r', True, e0.ups[-1][2]) + r[3:],))
        li = linear_in(stores[0][2], bn) if stores[0][0] == 's' else None
        part = fin if li is None else Arr(e0.path, e0.et, e0.size, e0.ups + ((('r', r[1]) + ((li[1], padd(li[1], A(bn))) if li[0] == 1 else (
            padd(psub(li[1], A(bn)), ONE), padd(li[1], ONE))) + r[4:]),))
        if fin.ups[-1][2] is ZERO and fin.ups[-1][3] is e0.size:
            fin = Arr(('fill', r[5]), e0.et, e0.size) if r[4] not in atoms_in(r[5]) else Arr(('none',), e0.et, e0.size, fin.ups[-1:])
        return fin, part
    full = r[1] is True and r[2] is ZERO and r[3] is e0.size
    if full and r[4] not in atoms_in(r[5]):
        fin = Arr(('fill', r[5]), e0.et, e0.size)
    elif full:
        fin = Arr(('none',), e0.et, e0.size, (r,))
    else:
        fin = Arr(e0.path, e0.et, e0.size, e0.ups + (r,))
    # contents at the start of iteration n
    n_ = A(bn)
    li = linear_in(stores[0][2], bn) if stores[0][0] == 's' else None
    if li is not None:
        lo, hi = (li[1], padd(li[1], n_)) if li[0] == 1 else (padd(psub(li[1], n_), ONE), padd(li[1], ONE))
        part = Arr(e0.path, e0.et, e0.size, e0.ups + (('r', r[1], lo, hi, r[4], r[5]),))
    else:
        part = fin
    return fin, part


def own_reads(v, base):
    """indices at which contents of array path base are read inside v; None for an unknown use"""
    out = []
    seen = set()

    def walk(x):
        if isinstance(x, tuple):
            if len(x) == 3 and x[0] == 'el' and x[1] == base:
                out.append(x[2])
                walk(x[2])
                return
            if x == base:
                out.append(None)
                return
            for y in x:
                walk(y)
        elif isinstance(x, Poly):
            if id(x) in seen:
                return
            seen.add(id(x))
            for m in x.t:
                for a, _ in m:
                    walk(ATOMS[a][1:])
        elif isinstance(x, Ite):
            if id(x) in seen:
                return
            seen.add(id(x))
            walk(BV[x.v][1:])
            walk(x.hi)
            walk(x.lo)
        elif isinstance(x, Val):
            for y in x.children():
                walk(y)
    walk(v)
    return out


def fold_val(self, e0, h, u, path):
    if isinstance(e0, Arr):
        return Arr(path, e0.et, e0.size)
    if isinstance(e0, Mat):
        return Mat(e0.r, e0.c, [A(atom(('app', '@', path, i, j))) for i in range(e0.r) for j in range(e0.c)])
    if isinstance(e0, bool) or (isinstance(e0, Ite) and isinstance(terms._leaf(e0), bool)):
        return bx(('@', path))
    if isinstance(e0, (Poly, Ite)):
        integer = isinstance(h, Poly) and is_int(h)
        return A(atom(('app', '@', path), integer))
    if isinstance(e0, Struct):
        return Struct(path, e0.tid)
    return Opq(path, getattr(e0, 'tid', None))


ST = {
    '{': s_block, 'decl': s_decl, 'expr': s_expr, 'if': s_if, 'ret': s_ret, 'for': s_for, 'while': s_while, 'do': s_do,
    'rfor': s_rfor, 'switch': s_switch, 'try': s_try,
    'break': lambda self, s, st, fr: {'n': None, 'b': st},
    'cont': lambda self, s, st, fr: {'n': None, 'c': st},
    'nop': lambda self, s, st, fr: {'n': st},
    'case': lambda self, s, st, fr: self.ex(s[2], st, fr),
    'default': lambda self, s, st, fr: self.ex(s[1], st, fr),
    'omp': lambda self, s, st, fr: self.ex(s[2], st, fr),
}

for _n in ('first_of', 'exists', 'vadd', 'ev', 'rve', 'ev_init', 'mcall', 'binop', 'build', 'sized', 'objdesc', 'is_stream', 'builtin_free', 'sum_over', 'range_store', 'make',
           'eigen_static', 'builtin_method', 'arr_method', 'mapit_eq', 'sized_like', 'opq_bin', 'opq_method', 'comma_put', 'mat_method', 'resized',
           'ex', 'st_uns', 'loop', 'summarise', '_summarise', 'comp_type', 'apply_res', 'sub_arr', 'solve_arr', 'fold_val', 'sym_range_loop'):
    setattr(Interp, _n, globals()[_n])
