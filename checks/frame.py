"""Obligation bookkeeping, known findings, evidence, exit codes."""
import json, os, sys, time, traceback, signal, resource
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(60000)
import db as DBM
import terms, vg, vg_expr, evalnf
from terms import *
from vg import *

VERIF = DBM.VERIF
KNOWN = os.path.join(VERIF, 'known_findings.json')


class Ctx:
    def __init__(self, pid):
        self.pid = pid
        self.t0 = time.time()
        self.obl = []           # (name, status, rule, detail)
        self.viol = []
        self.fnset = {}
        self.rules = []
        self.counts = {}
        self.errors = []

    def rule(self, r):
        if r not in self.rules:
            self.rules.append(r)

    def analysed(self, D, keys):
        for k in keys:
            f = D.fns.get(k)
            if f is not None:
                l = D.loc(f['loc'])
                if not l.startswith('harness/'):
                    self.fnset[k] = l

    def ok(self, name, detail=''):
        self.obl.append((name, 'ok', detail))

    def undecided(self, name, why):
        self.obl.append((name, 'undecided', why))

    def violation(self, name, where, fn, what):
        """where: file:line, fn: function or class"""
        self.obl.append((name, 'violation', what))
        self.viol.append({'obligation': name, 'where': where, 'function': fn, 'what': what})

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def finish(self):
        known = []
        if os.path.exists(KNOWN):
            known = [k for k in json.load(open(KNOWN)).get('findings', []) if k['property'] == self.pid]
        new, hit = [], []
        for v in self.viol:
            k = next((k for k in known if k['obligation'] == v['obligation'] and k.get('match', '') in v['what']), None)
            if k is not None:
                hit.append((k, v))
            else:
                new.append(v)
        tier = os.environ.get('VERIF_TIER', 'quick')
        if tier not in ('quick', 'thorough'):
            tier = 'quick'
        und = [o for o in self.obl if o[1] == 'undecided']
        ev = {
            'property': self.pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
            'coverage': {
                'explanation': 'Static analysis of the instantiated, type-checked AST extracted by clang from the working tree of '
                               + DBM.REPO + '. Rules: ' + ' | '.join(self.rules),
                'obligations': len(self.obl),
                'discharged': sum(1 for o in self.obl if o[1] == 'ok'),
                'undecided': [{'obligation': o[0], 'why': o[2]} for o in und],
                'functions_analysed': len(self.fnset),
                'counts': self.counts,
                'obligation_list': [f'{o[0]}: {o[1]}' for o in self.obl],
                'functions': sorted(f'{l} {k}' for k, l in self.fnset.items())[:600],
            },
            'wall_s': round(time.time() - self.t0, 2),
            'assumptions': ['matrices are analysed at the dimensions instantiated in harness/*.cpp',
                            'real arithmetic (no rounding), user supplied virtual functions are functions of their arguments'],
            'violations': [{'obligation': v['obligation'], 'where': v['where'], 'function': v['function'], 'what': v['what']} for v in new],
        }
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for o in und:
            print(f'UNDECIDED property={self.pid} {o[0]}: {o[2]}')
        for k, v in hit:
            print(f'KNOWN-FINDING: property={self.pid} {k["obligation"]}: {k["what"]}')
        print(f'{self.pid}: {len(self.obl)} obligations, {ev["coverage"]["discharged"]} discharged, {len(und)} undecided, '
              f'{len(new)} violations, {len(self.fnset)} functions analysed, {ev["wall_s"]} s')
        if self.errors:
            for e in self.errors:
                print('ERROR', e)
        if new:
            rp = os.path.join(VERIF, 'build', f'report_{self.pid}.json')
            os.makedirs(os.path.dirname(rp), exist_ok=True)
            json.dump(new, open(rp, 'w'), indent=1)
            for v in new:
                print(f'  {v["where"]}: {v["function"]}: {v["what"]}')
            print(f'VIOLATION property={self.pid} replay={rp}')
            return 1
        if self.errors:
            return 2
        return 0


# ------------------------------------------------------------------------------------------ reference equivalence
THIS = ('obj', ('this',))


def find_tid(D, key):
    for i, t in enumerate(D.types):
        if t.get('key') == key and t.get('k') == 'rec':
            return i
    return None


def param_syms(I, D, params, names=None):
    """symbolic arguments; references become roots of their own"""
    args = []
    for n, (did, name, tid) in enumerate(params):
        t = D.types[tid]
        base = D.noref(tid)
        path = ('arg', n)
        if t.get('k') == 'ref':
            key = ('obj', path)
            I.objtypes[key] = base
            args.append(LV(key))
        else:
            # (a reference whose parameter is called null_... speaks about calls that pass a null pointer there)
            args.append(vg.NULL if names and names[n].startswith('null_') else I.fresh(base, path))
    return args


def isscal(v):
    return isinstance(v, (bool, Poly)) or isinstance(v, Ite) and isinstance(terms._leaf(v), (bool, Poly))


class Cmp:
    def __init__(self, I, sa, sb, care, skip):
        self.I, self.sa, self.sb, self.care, self.skip = I, sa, sb, care, skip
        self.bad = []
        self.n = 0
        self.seen = set()
        self.rawctor = False
        self.nsplit = 0

    def val(self, where, a, b, depth=0):
        I = self.I
        if a is b:
            self.n += 1
            return
        if depth > 40:
            return
        if isinstance(a, (LV, LVIte)):
            a = I.read(self.sa, a)
        if isinstance(b, (LV, LVIte)):
            b = I.read(self.sb, b)
        if isinstance(a, Ite):
            a = gcof(a, self.care)
        if isinstance(b, Ite):
            b = gcof(b, self.care)
        if a is b:
            self.n += 1
            return
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a == b:
                self.n += 1
                return
            if a.lv.key[0] in ('tmp', 'loc') and b.lv.key[0] in ('tmp', 'loc'):
                k = (a.lv, b.lv)
                if k in self.seen:
                    return
                self.seen.add(k)
                x, y = I.read(self.sa, a.lv), I.read(self.sb, b.lv)
                if isinstance(x, Struct) and isinstance(y, Struct) and x.tid is not None and y.tid is not None and \
                        I.rec_of(x.tid) != I.rec_of(y.tid):
                    self.bad.append((f'class of *{where}', Str(str(I.rec_of(x.tid))), Str(str(I.rec_of(y.tid))), self.care))
                    return
                return self.val('*' + where, I.read(self.sa, a.lv), I.read(self.sb, b.lv), depth + 1)
        if isinstance(a, Mat) and isinstance(b, Mat) and (a.r, a.c) == (b.r, b.c):
            for i in range(a.r):
                for j in range(a.c):
                    self.val(f'{where}({i},{j})', a.at(i, j), b.at(i, j), depth + 1)
            return
        if isinstance(a, Struct) and isinstance(b, Struct):
            ks = {k for k, _ in a.ups} | {k for k, _ in b.ups}
            if a.path != b.path and (cond_path(a.path) or cond_path(b.path)) and self.nsplit < 400:
                # different histories under different conditions
                self.nsplit += 1
                c = a.path[1] if cond_path(a.path) else b.path[1]
                care0 = self.care
                try:
                    for hi in (True, False):
                        k = band(care0, c if hi else bnot(c))
                        if k is not False:
                            self.care = k
                            self.val(where, under(a, k, c, hi), under(b, k, c, hi), depth + 1)
                finally:
                    self.care = care0
                return
            if a.path != b.path and (opaque_path(a.path) or opaque_path(b.path)):
                if a == b:
                    self.n += 1
                    return
                m = lost_call(a, b)
                if m:
                    self.bad.append((f'{where}: {m} called', m in chain(a)[0], m in chain(b)[0], self.care))
                    return
                self.bad.append((where, a, b, self.care))
                return
            if a.path != b.path:
                rec = I.rec_of(a.tid) if a.tid is not None else None
                if rec:
                    ks |= set(I.db.fields(rec))
            ign = new_fields(I.db, I.rec_of(a.tid) if a.tid is not None else None)
            for k in sorted(ks):
                if k[0] == '@' and k != '@st' and not (a.get(k) is None and b.get(k) is None):
                    x, y = gcof(called(a.get(k)), self.care), gcof(called(b.get(k)), self.care)
                    if x is not y:
                        self.bad.append((f'{where}: {k[1:]} called', x, y, self.care))
                        continue
                if k in ign or k in self.skip or (self.rawctor and where == 'this' and k not in dict(b.ups)):
                    continue        # (a constructor's reference says nothing about this member)
                self.val(f'{where}.{k}', I.sget(a, k), I.sget(b, k), depth + 1)
            return
        if isinstance(a, Arr) and isinstance(b, Arr):
            if a == b:
                self.n += 1
                return
            self.val(where + '.size', a.size, b.size, depth + 1)
            if overrun(a) and not overrun(b):
                self.bad.append((where + ' written past its end', True, False, self.care))
            ix = A(atom(('sym', '$i%d' % depth), True, True))
            x, y = I.aget(a, ix), I.aget(b, ix)
            care0 = self.care
            inb = lt(ix, subst(a.size, I.givens) if I.givens else a.size)
            self.care = band(care0, inb)
            try:
                self.val(where + '[i]', x, y, depth + 1)
            finally:
                self.care = care0
            return
        if type(a) is type(b) and not isinstance(a, (Ite, Poly)) and a == b:
            self.n += 1
            return
        if isinstance(a, Arr) and isinstance(b, Mat) or isinstance(a, Mat) and isinstance(b, Arr):
            # a vector of known length seen once as a dynamic and once as a fixed-size one
            m, r = (b, a) if isinstance(b, Mat) else (a, b)
            k = r.size.const() if isinstance(r.size, Poly) else None
            if k is not None and min(m.r, m.c) == 1 and k == m.r * m.c:
                m2 = Mat(m.r, m.c, [I.aget(r, C(i)) for i in range(int(k))])
                return self.val(where, *((m2, b) if r is a else (a, m2)), depth + 1)
        if isinstance(a, Mat) and a.r * a.c == 1 and isinstance(b, (Poly, Ite)):
            return self.val(where, a.e[0], b, depth)
        if isinstance(b, Mat) and b.r * b.c == 1 and isinstance(a, (Poly, Ite)):
            return self.val(where, a, b.e[0], depth)
        if I.givens and isinstance(a, (Poly, Ite, Opq, Arr)) and isinstance(b, (Poly, Ite, Opq, Arr)):
            a, b = subst(a, I.givens), subst(b, I.givens)
            if type(a) is type(b) and a == b:
                self.n += 1
                return
        if (isinstance(a, Ite) or isinstance(b, Ite)) and not (isscal(a) and isscal(b)) and self.nsplit < 400:
            # different objects under different conditions
            self.nsplit += 1
            v = min(x.v for x in (a, b) if isinstance(x, Ite))
            care0 = self.care
            try:
                for lit, hi in ((mk(v, True, False), True), (mk(v, False, True), False)):
                    c = band(care0, lit)
                    if c is not False:
                        self.care = c
                        self.val(where, restrict(a, v, hi) if isinstance(a, Ite) else a, restrict(b, v, hi) if isinstance(b, Ite) else b, depth + 1)
            finally:
                self.care = care0
            return
        if isinstance(a, (Poly, Ite)) and isinstance(b, (Poly, Ite)):
            try:
                if same_scalar(a, b):
                    self.n += 1
                    return
                d = gcof(sub(a, b), self.care) if not isinstance(terms._leaf(a), bool) else None
                if d is not None and same_scalar(d, ZERO):
                    self.n += 1
                    return
            except (AttributeError, TypeError):
                pass
        if isinstance(a, Opq) and isinstance(b, Opq) and (a.path[:1] == ('nocalls',)) != (b.path[:1] == ('nocalls',)):
            self.bad.append((where + ' called', b.path[:1] == ('nocalls',), a.path[:1] == ('nocalls',), self.care))
            return
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Opq) and isinstance(y, (Arr, Mat)) and entry_path(x.path) and not mentions(y, x.path):
                # left as it was on entry here, assigned there
                self.bad.append((where + ' assigned', x is b, x is a, self.care))
                return
        self.bad.append((where, a, b, self.care))


def entry_path(p):
    """a location of the state on entry"""
    while isinstance(p, tuple) and p and p[0] in ('f', 'deref', 'el') and len(p) >= 2:
        p = p[1]
    return isinstance(p, tuple) and bool(p) and p[0] in ('this', 'arg')


def mentions(v, path):
    """v may depend on the object at path (or on what contains it)"""
    while path and path[0] == 'el':
        path = path[1]
    seen = set()

    def walk(x):
        if isinstance(x, tuple):
            return x == path or any(walk(y) for y in x)
        if isinstance(x, (Poly, Ite, Val)):
            if x in seen:
                return False
            seen.add(x)
        if isinstance(x, Poly):
            return any(walk(ATOMS[a][1:]) for m in x.t for a, _ in m)
        if isinstance(x, Ite):
            return walk(BV[x.v][1:]) or walk(x.hi) or walk(x.lo)
        if isinstance(x, Val):
            return any(walk(y) for y in x.children())
        return False
    return walk(v)


def dynshape(v):
    """does v mention the run-time shape of a matrix"""
    t = short(v, 10 ** 9, 200000)
    return ' rows(' in t or ' cols(' in t or '(rows(' in t or '(cols(' in t


def leaks(*vs):
    """a placeholder for the state at the start of an iteration is left outside its loop: the summary is incomplete"""
    seen = set()

    def walk(x):
        if isinstance(x, tuple):
            if len(x) == 3 and x[0] == 'L' and isinstance(x[1], int) and isinstance(x[2], int):
                return True
            return any(walk(y) for y in x)
        if isinstance(x, (Poly, Ite, Val)):
            if id(x) in seen:
                return False
            seen.add(id(x))
        if isinstance(x, Poly):
            return any(walk(ATOMS[a][1:]) for m in x.t for a, _ in m)
        if isinstance(x, Ite):
            return walk(BV[x.v][1:]) or walk(x.hi) or walk(x.lo)
        if isinstance(x, Val):
            return any(walk(y) for y in x.children())
        return False
    return any(walk(v) for v in vs)


def overrun(a):
    """an element behind the end of the container has certainly been written"""
    for u in a.ups:
        hi = add(u[2], ONE) if u[0] == 's' else u[3] if u[0] == 'r' else None
        if u[1] is not True or not isinstance(hi, Poly) or not isinstance(a.size, Poly):
            continue
        d = sub(hi, a.size).const()
        if d is not None and d > 0:
            return True
    return False


def cond_path(p):
    return isinstance(p, tuple) and len(p) == 4 and p[0] == 'ite'


def under(s, care, c, hi):
    """the object given that care holds, where c is hi"""
    while isinstance(s, Struct) and cond_path(s.path):
        g = hi if s.path[1] is c else gcof(s.path[1], care)
        if not isinstance(g, bool):
            break
        b = s.path[2] if g else s.path[3]
        if isinstance(b, Ite):
            b = gcof(b, care)
        if not isinstance(b, Struct):
            break
        for k, w in s.ups:
            b = b.set(k, w)
        s = b
    if isinstance(s, Struct) and s.ups:
        s = Struct(s.path, s.tid, [(k, gcof(w, care) if isinstance(w, Ite) else w) for k, w in s.ups])
    return s


def chain(s):
    """(names of the calls an object has gone through, members assigned in between, the object before them)"""
    names, ups = [], {k for k, _ in s.ups}
    while s.path and s.path[0] == 'after' and isinstance(s.path[2], Struct):
        names.append(s.path[1])
        s = s.path[2]
        ups |= {k for k, _ in s.ups}
    return names, ups, s.path


def lost_call(a, b):
    """the call one of the objects has not gone through, all else alike"""
    (na, ua, pa), (nb, ub, pb) = chain(a), chain(b)
    if pa != pb or opaque_path(pa):
        return None
    if len(na) > len(nb):
        na, ua, nb, ub = nb, ub, na, ua
    extra = [x for x in nb if x not in na]
    if not extra or [x for x in nb if x in na] != na or not ua <= ub:
        return None
    return extra[0]


def called(v):
    """condition under which the recorded call took place"""
    if v is None:
        return False
    if isinstance(v, Ite) and not isinstance(terms._leaf(v), (Poly, bool)):
        return ite(mk(v.v, True, False), called(v.hi), called(v.lo))
    return not (isinstance(v, Opq) and len(v.path) == 3 and v.path[0] == 'f' and isinstance(v.path[2], str) and v.path[2][:1] == '@')


_BASE = None


def new_fields(D, rec):
    """members of the class that did not exist when the references were written (see mkbaseline.py)"""
    global _BASE
    if rec is None:
        return ()
    if _BASE is None:
        p = os.path.join(VERIF, 'checks', 'baseline_fields.json')
        _BASE = json.load(open(p)) if os.path.exists(p) else {}
    out = set()
    for k, (_, own) in D.fields(rec).items():
        qn = D.records[own]['qn']
        if qn in _BASE and k not in _BASE[qn]:
            out.add(k)
    return out


def bools(throws):
    c = False
    for t in throws:
        c = bor(c, t[0])
    return c


def short(v, n=260, nodes=1500):
    terms._PB[0] = nodes
    s = pretty(v) if isinstance(v, (Poly, Ite, tuple)) or hasattr(v, 'pretty') else str(v)
    terms._PB[0] = 10 ** 9
    return s if len(s) <= n else s[:n] + '…'


def run_one(I, D, fn, cls, this_tid, params, names=None, prep=None):
    st = State()
    I.objtypes[THIS] = this_tid
    I.throws = []
    I.assumes = True
    I.unsup = []
    I.oob = []
    args = param_syms(I, D, params, names)
    if prep:
        prep(I, st)
    v = I.run(st, fn, LV(THIS), args)
    return st, v, list(I.throws), I.assumes, list(I.unsup)


def raw_object(I, D, st, cls, tid):
    """*this before its constructor ran: class-type members are empty, the rest is indeterminate"""
    if I.vec_elem(I.T(tid)) is not None:
        st.heap[THIS] = I.default(tid)
        return
    v = Struct(('this',), tid)
    for f, (t, _) in D.fields(cls).items():
        td = I.T(D.noref(t))
        if td.get('k') == 'rec' and (I.vec_elem(td) is not None or td.get('name') in ('std::shared_ptr', 'std::unique_ptr')):
            v = v.set(f, I.default(t))
    st.heap[THIS] = v


def stale_lines(D):
    """lines of harness files at which the reference text no longer compiles"""
    out = {}
    for e in D.errors:
        p = e.split(':')
        if len(p) > 2 and p[1].isdigit() and '/harness/' in p[0]:
            out.setdefault(os.path.basename(p[0]), []).append(int(p[1]))
    return out


LIMIT = int(os.environ.get('CT_LIMIT', '100'))      # seconds per obligation
TOTAL = 600                                         # seconds per check


def _alarm(*_):
    raise Budget('time')


def equiv(ctx, D, cls, fn, spec, name, dry=False, **kw):
    """equiv_ within a time and memory budget"""
    left = TOTAL - (time.time() - ctx.t0)
    if left < 5:
        dry or ctx.undecided(name, 'analysis budget exceeded: time of the whole check')
        return
    resource.setrlimit(resource.RLIMIT_AS, (14 << 30, resource.getrlimit(resource.RLIMIT_AS)[1]))
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, min(LIMIT, left))
    n = len(ctx.obl)
    try:
        return equiv_(ctx, D, cls, fn, spec, name, dry=dry, **kw)
    except (Budget, MemoryError) as e:
        del ctx.obl[n:]
        dry or ctx.undecided(name, f'analysis budget exceeded: {e or "memory"}')
    except Exception as e:
        del ctx.obl[n:]
        traceback.print_exc()
        dry or ctx.undecided(name, f'internal error: {type(e).__name__}: {e}')
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def equiv_(ctx, D, cls, fn, spec, name, skip=(), models=None, prep=None, noinline=(), sorted_=(), dry=False, scenario=False, pure=(), inout=()):
    """decide: for every input, fn leaves the same state and result as the reference spec"""
    sl = stale_lines(D)
    sf = os.path.basename(D.files[spec['loc'][0]])
    for l in sl.get(sf, []):
        if spec['loc'][1] <= l <= spec['end'][1] or scenario and fn['loc'][1] <= l <= fn['end'][1]:
            if not dry:
                ctx.undecided(name, f'the reference no longer compiles against the tree (harness/{sf}:{l})')
            return
    terms.reset()
    vg_expr._AIP.clear()
    evalnf.LEVELS.clear()
    evalnf.ALEVELS.clear()
    evalnf.IDX.clear()
    tid = find_tid(D, cls) if cls else None
    I = Interp(D, dyncls=cls, models=models or {})
    I.noinline = {n.lstrip('!') for n in noinline}
    I.pure = set(pure)
    I.inout = set(inout)
    I.effects = {n[1:] for n in noinline if n[0] == '!'}
    sparams = spec['params'][1:] if cls else spec['params']
    if len(sparams) != len(fn['params']):
        dry or ctx.undecided(name, f'parameter list of {fn["key"]} changed')
        return
    where = D.loc(fn['loc'])
    try:
        if 'inits' in fn:
            p0 = prep

            def prep(I, st, p0=p0):
                raw_object(I, D, st, cls, tid)
                if p0:
                    p0(I, st)
        sa, va, ta, aa, ua = run_one(I, D, fn, cls, tid, fn['params'], names=[q[1] for q in sparams], prep=prep)
        ctx.analysed(D, I.inlined)
        fa, I.foreign = I.foreign, set()
        if scenario:
            ls = [D.loc(D.fns[k]['loc']) + ' ' + D.fns[k]['name'].split('::')[-1] for k in sorted(I.inlined) if k in D.fns]
            where += ' through ' + ', '.join(l for l in ls if not l.startswith('harness/'))[:300]
        # the reference: self is bound to *this
        st = State()
        oa, I.oob = I.oob, []
        I.throws, I.assumes, I.unsup = [], True, []
        I.inlined = set()
        args = param_syms(I, D, sparams, [q[1] for q in sparams])
        if prep:
            prep(I, st)
        vb = I.run(st, spec, None, ([LV(THIS)] if cls else []) + args)
        sb, tb, ab, ub = st, list(I.throws), I.assumes, list(I.unsup)
    except RecursionError:
        dry or ctx.undecided(name, 'analysis recursion limit')
        return
    if ua or ub:
        dry or ctx.undecided(name, 'unsupported construct: ' + '; '.join(map(str, (ua + ub)[:3])))
        return
    care = band(aa, ab)
    ca, cbb = bools(ta), bools(tb)
    c = Cmp(I, sa, sb, care, set(skip))
    c.rawctor = 'inits' in fn
    c.foreign = fa - I.foreign
    c.val('throws', gcof(ca, care), gcof(cbb, care))
    c.care = band(care, band(bnot(ca), bnot(cbb)))
    if c.care is not False:
        c.val('index out of range', gcof(bools(oa), c.care), gcof(bools(I.oob), c.care))
        if D.types[fn['ret']].get('k') != 'void':
            c.val('return value', va, vb)
        for k in sorted(set(sa.heap) | set(sb.heap), key=repr):
            if k[0] in ('loc', 'tmp', 'static'):
                continue
            x, y = sa.heap.get(k), sb.heap.get(k)
            x = I.init_of(k) if x is None else x
            y = I.init_of(k) if y is None else y
            if x is None or y is None:
                continue
            c.val(rootname(k), x, y)
    ctx.count('components compared', c.n + len(c.bad))
    if dry:
        return not c.bad

    def vprep(V):
        for p in sorted_:
            V.sorted.add(V.tok(V.path(p)))
    judge(ctx, I, c, name, where, fn, vprep if sorted_ else None)


def rootname(k):
    if k == THIS:
        return 'this'
    return ppath(k[1]) if len(k) > 1 and isinstance(k[1], tuple) else str(k)


def judge(ctx, I, c, name, where, fn, vprep=None):
    """turn the mismatches in c into a verdict"""
    seps, unk, same = [], [], []
    for w, a, b, care in c.bad[:60]:
        if c.foreign:
            # a library function this tool has no model of decides the value
            t = short(a, 10 ** 9, 200000)
            f = [x for x in c.foreign if x in t]
            if f:
                unk.append((w, f'no model of {f[0]}', a, b))
                continue
        if dynshape(a) != dynshape(b):
            unk.append((w, 'the shape of a matrix sized at run time appears on one side only', a, b))
            continue
        if leaks(a, b):
            unk.append((w, 'a loop is not summarised completely', a, b))
            continue
        try:
            r = evalnf.separate(I, a, b, care, prep=vprep)
        except (RecursionError, KeyError, TypeError, AttributeError, ValueError, IndexError, AssertionError) as e:
            r = ('unk', 0, f'valuation failed: {type(e).__name__} {e}')
        if r[0] == 'sep':
            seps.append((w, a, b, r))
            if seps:
                break
        elif r[0] == 'unk':
            unk.append((w, r[2], a, b))
        else:
            same.append(w)
    if seps:
        w, a, b, r = seps[0]
        ctx.violation(name, where, fn['key'],
                      f'{w} differs from the reference: code {short(a)} | reference {short(b)} | separated by {r[2]}'
                      + (f' (and {len(c.bad) - 1} more components)' if len(c.bad) > 1 else ''))
    elif unk:
        ctx.undecided(name, f'{unk[0][0]}: normal forms differ but cannot be evaluated ({unk[0][1]}): {short(unk[0][2], 120)} | {short(unk[0][3], 120)}')
    elif same:
        ctx.ok(name, f'{c.n} components have equal normal forms; {len(same)} differ in form only (no separating valuation): {same[:3]}')
        ctx.count('components equal only under valuations', len(same))
    else:
        ctx.ok(name, f'{c.n} components, all normal forms equal')


def specs(D, prefix=''):
    return {f['name'].split('::')[-1]: f for fs in D.byname.values() for f in fs
            if f.get('qn', '').startswith('spec::' + prefix) and f['body'] is not None}
