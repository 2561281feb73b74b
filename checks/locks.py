"""Locks, condition variables and tasks of a class whose member functions run in several threads.

The bodies of the member functions are walked along all structured paths, calls of members of the same class inlined, loops to a
fixpoint.  A state is: the locks held, the condition variables whose waiter could still miss a change (the predicate changed since the
waiter's mutex was last acquired), the condition variables for which a notification is due, whether a task has been published to the
workers and not been waited for, and the values of local variables where they are constants."""
import itertools

GUARDS = ('std::lock_guard', 'std::unique_lock', 'std::scoped_lock')
MAXSTATES = 4000


class St:
    __slots__ = ('held', 'miss', 'due', 'pub', 'env', 'called')

    def __init__(self, held=(), miss=(), due=(), pub=None, env=(), called=()):
        self.held, self.miss, self.due, self.pub, self.env, self.called = frozenset(held), frozenset(miss), frozenset(due), pub, env, frozenset(called)

    def key(self):
        return (self.held, self.miss, self.due, self.pub, self.env, self.called)

    def w(self, **k):
        d = dict(held=self.held, miss=self.miss, due=self.due, pub=self.pub, env=self.env, called=self.called)
        d.update(k)
        return St(**d)

    def get(self, did):
        return dict(self.env).get(did)

    def let(self, did, v):
        d = dict(self.env)
        if v is None:
            d.pop(did, None)
        else:
            d[did] = v
        return self.w(env=tuple(sorted(d.items(), key=repr)))

    def __hash__(self):
        return hash(self.key())

    def __eq__(self, o):
        return self.key() == o.key()


class Unknown(Exception):
    pass


def strip(e):
    while isinstance(e, list) and e:
        if e[0] == 'cast':
            e = e[3]
        elif e[0] == 'call' and e[3] is not None and (e[2] == 'load' or e[2].startswith('operator ') and not e[4]):
            e = e[3]
        elif e[0] == 'ctor' and len(e[2]) == 1 and not e[4].get('cls', '').startswith(GUARDS):
            e = e[2][0]
        else:
            break
    return e


def field(e):
    """name of the data member of this that e denotes (or an element or part of it)"""
    e = strip(e)
    while isinstance(e, list) and e:
        if e[0] == 'mem':
            if e[1] and e[1][0] == 'this':
                return e[2]
            e = e[1]
        elif e[0] == 'call' and e[2] in ('operator[]', 'at', 'front', 'back', 'operator->', 'operator*', 'get') and e[3]:
            e = e[3]
        elif e[0] in ('idx', 'sub') or e[0] == 'un' and e[1] in ('*', '&'):
            e = e[1] if e[0] != 'un' else e[2]
        else:
            e = strip(e)
            if not (isinstance(e, list) and e and e[0] in ('mem',)):
                return None
    return None


def walk(e):
    if isinstance(e, list):
        if e and isinstance(e[0], str):
            yield e
        for x in e:
            yield from walk(x)
    elif isinstance(e, dict):
        for x in e.values():
            yield from walk(x)


class Analysis:
    def __init__(self, D, cls, stagefns=()):
        self.stagefns = set(stagefns)
        self.D, self.cls = D, cls
        self.fns = {k: f for k, f in D.fns.items() if k.startswith(cls + '::') and f.get('body') and 'operator' not in k}
        self.bad = []           # (function, loc, what)
        self.unk = []
        self.order = {}         # (a, b) -> location: b acquired while a is held
        self.nacc = 0
        self.access = {}
        self.stack = []
        self.fix = None
        self.npath = 0
        self.facts = 0
        self.pubs = {}
        self.rec = next((r for k, r in D.records.items() if k == cls), None)
        self.ftypes = {}
        for k in D.bases(cls):
            for f in (D.records.get(k) or {}).get('fields', []):
                self.ftypes.setdefault(f[0], D.types[D.noref(f[1])].get('s', ''))
        self.cvs = sorted(f for f, t in self.ftypes.items() if 'condition_variable' in t)
        self.mutexes = {f for f, t in self.ftypes.items() if t.startswith('std::mutex') or t.startswith('std::recursive_mutex')}
        self.waits = {}
        self.collect()

    # ---- who waits for what
    def collect(self):
        called = set()
        self.entries = set()
        for k, f in self.fns.items():
            for e in walk(f['body']):
                if e[0] == 'call' and e[1] in self.fns:
                    called.add(e[1])
                if e[0] == 'fn' and len(e) > 1 and e[1] in self.fns:
                    self.entries.add(e[1])
        self.roots = [k for k in self.fns if k not in called or k in self.entries]
        for k, f in self.fns.items():
            self.find_waits(f['body'], k, None)
        self.predf = {cv: set() for cv in self.cvs}
        for cv, ws in self.waits.items():
            for w in ws:
                for e in walk(w['pred'] or []):
                    if e[0] == 'mem' and e[1] and e[1][0] == 'this':
                        self.predf[cv].add(e[2])

    def find_waits(self, e, fn, loop):
        if isinstance(e, dict):
            e = list(e.values())
        if not isinstance(e, list):
            return
        if e and e[0] == 'while':
            loop = e[1]
        if e and e[0] in ('for', 'do', 'rfor'):
            loop = e[2] if e[0] == 'for' else e[1] if e[0] == 'do' else None
        if e and e[0] == 'call' and e[2] in ('wait', 'wait_for', 'wait_until') and 'condition_variable' in (e[6].get('cls') or ''):
            cv = field(e[3])
            if cv:
                pred, neg = None, False
                lam = next((x for x in e[4] if isinstance(x, list) and strip(x) and strip(x)[0] == 'lambda'), None)
                if lam is not None:
                    body = strip(lam)[3].get('body') if isinstance(strip(lam)[3], dict) else None
                    rets = [x for x in walk(body) if x[0] == 'ret']
                    pred = rets[0][1] if len(rets) == 1 else body
                elif loop is not None and len(e[4]) == 1:
                    pred, neg = loop, True
                self.waits.setdefault(cv, []).append(dict(fn=fn, loc=e[7], pred=pred, neg=neg, lock=e[4][0] if e[4] else None))
        for x in e:
            self.find_waits(x, fn, loop)

    # ---- expressions with constant values
    def val(self, e, st, fix=None):
        """integer value or None when it is not a constant"""
        e = strip(e)
        if not isinstance(e, list) or not e:
            return None
        fix = self.fix if fix is None else fix
        k = e[0]
        if k in ('int', 'bool'):
            return int(e[1])
        if k == 'enum':
            return e[1] if isinstance(e[1], int) else None
        if k == 'var':
            v = st.get(e[1]) if st is not None else None
            return v if isinstance(v, int) else None
        if k == 'mem' and e[1] and e[1][0] == 'this' and fix is not None:
            return fix.get(e[2])
        if k == 'un' and e[1] == '!':
            v = self.val(e[2], st, fix)
            return None if v is None else int(not v)
        if k == 'bin':
            op = e[1]
            a, b = self.val(e[2], st, fix), self.val(e[3], st, fix)
            if op in ('||', 'or'):
                return 1 if a or b else 0 if a == 0 and b == 0 else None
            if op in ('&&', 'and'):
                return 0 if a == 0 or b == 0 else 1 if a and b else None
            if a is None or b is None:
                return None
            try:
                return {'==': lambda: int(a == b), '!=': lambda: int(a != b), '<': lambda: int(a < b), '<=': lambda: int(a <= b),
                        '>': lambda: int(a > b), '>=': lambda: int(a >= b), '+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b}[op]()
            except KeyError:
                return None
        return None

    def resolve(self, e, env):
        """e with local variables replaced by what they were initialised with"""
        if isinstance(e, list):
            if e and e[0] == 'var':
                v = env.get(e[1])
                if isinstance(v, tuple) and v[0] == 'def':
                    return v[1].e
            return [self.resolve(x, env) for x in e]
        return e

    # ---- reporting
    def report(self, loc, what):
        fn = self.stack[-1] if self.stack else self.cls
        x = (fn, self.D.loc(loc) if loc else '', what)
        if x not in self.bad:
            self.bad.append(x)

    # ---- effects
    def acquire(self, st, m, loc):
        if m is None:
            self.unk.append('lock of something that is not a member at ' + self.D.loc(loc))
            return st
        self.facts += 1
        if m in st.held:
            self.report(loc, f'{m} is locked again while this thread holds it')
        for h in st.held:
            self.order.setdefault((h, m), (self.stack[-1], self.D.loc(loc)))
        return st.w(held=st.held | {m}, miss=frozenset(c for c in st.miss if self.mutex_of(c) != m))

    def release(self, st, m, loc):
        if m is not None and m not in st.held:
            self.report(loc, f'{m} is unlocked on a path on which this thread does not hold it')
        return st.w(held=st.held - {m})

    def mutex_of(self, cv):
        for w in self.waits.get(cv, ()):
            m = w.get('mutex')
            if m:
                return m
        return None

    def write(self, st, f, loc, value=None):
        self.note(st, f, True, loc)
        if any(isinstance(v, tuple) and v[0] == 'def' and f in v[1].s for _, v in st.env):
            st = st.w(env=tuple((d, v) for d, v in st.env if not (isinstance(v, tuple) and v[0] == 'def' and f in v[1].s)))
        if st.pub is not None and f != st.pub[0] and not self.in_worker():
            self.report(loc, f'{f} is changed after the workers have been given their task and before they are done')
        for cv in self.cvs:
            if f not in self.predf.get(cv, ()) or not self.waits.get(cv):
                continue
            if any(w['fn'] in self.rootfns for w in self.waits[cv]):
                continue        # the waiter itself
            v = True
            if value is not None:
                vs = []
                for w in self.waits[cv]:
                    p = self.val(w['pred'], None, {f: value})
                    vs.append(None if p is None else bool(p) != w['neg'])
                if all(x is False for x in vs):
                    v = False
            if not v:
                if st.pub and st.pub[0] == f:
                    self.report(loc, f'the task is withdrawn before the workers are done')
                continue
            m = self.mutex_of(cv)
            if m not in st.held:
                st = st.w(miss=st.miss | {cv})
            st = st.w(due=st.due | {(cv, self.D.loc(loc))})
            if value is not None and not self.in_worker():
                st = st.w(pub=(f, value))
                self.pubs.setdefault(value, set()).add(self.rootname)
        return st

    def note(self, st, f, w, loc):
        self.nacc += 1
        if self.in_worker() and 'atomic' not in self.ftypes.get(f, '') and f in self.ftypes and f not in self.mutexes and f not in self.cvs:
            task = self.stack[1] if len(self.stack) > 1 else self.stack[0]
            self.access.setdefault((task, f), []).append((w, st.held, self.D.loc(loc) if loc else ''))

    def in_worker(self):
        return bool(self.stack) and self.stack[0] in self.entries

    # ---- expressions
    def ev(self, e, sts):
        """effects of evaluating e on a set of states"""
        if not isinstance(e, list) or not e or not isinstance(e[0], str):
            if isinstance(e, list):
                for x in e:
                    sts = self.ev(x, sts)
            return sts
        k = e[0]
        if k == 'lambda':
            return sts
        if k == 'mem' and e[1] and e[1][0] == 'this':
            for s in sts:
                self.note(s, e[2], False, e[6] if len(e) > 6 else None)
            return sts
        if k == 'bin' and e[1] in ('&&', '||'):
            sts = self.ev(e[2], sts)
            return sts | self.ev(e[3], sts)
        if k == 'asg':
            sts = self.ev(e[3], sts)
            f = field(e[2])
            t = strip(e[2])
            if f is not None:
                return {self.write(s, f, e[5] if len(e) > 5 else None, self.val(e[3], s) if e[1] == '=' else None) for s in sts}
            sts = self.ev(e[2], sts)
            if t and t[0] == 'var':
                return {s.let(t[1], self.val(e[3], s) if e[1] == '=' else None) for s in sts}
            return sts
        if k == 'un' and ('++' in str(e[1]) or '--' in str(e[1])):
            f = field(e[2])
            if f is not None:
                return {self.write(s, f, e[4] if len(e) > 4 else None) for s in sts}
            t = strip(e[2])
            if t and t[0] == 'var':
                return {s.let(t[1], None) for s in sts}
            return sts
        if k == 'call':
            return self.call(e, sts)
        for x in e[1:]:
            if isinstance(x, (list,)):
                sts = self.ev(x, sts)
        return sts

    def call(self, e, sts):
        key, name, obj, args, fl, loc = e[1], e[2], e[3], e[4], e[6], e[7]
        cls = fl.get('cls') or ''
        for a in args:
            sts = self.ev(a, sts)
        if 'condition_variable' in cls:
            cv = field(obj)
            if cv is None:
                self.unk.append('condition variable that is not a member at ' + self.D.loc(loc))
                return sts
            if name.startswith('notify'):
                out = set()
                for s in sts:
                    self.facts += 1
                    if cv in s.miss:
                        self.report(loc, f'{name} of {cv}: the waiter can miss this, {self.mutex_of(cv)} has not been acquired since the condition changed')
                    out.add(s.w(due=frozenset(d for d in s.due if d[0] != cv)))
                return out
            if name.startswith('wait'):
                out = set()
                for s in sts:
                    self.facts += 1
                    lk = strip(args[0])
                    g = s.get(lk[1]) if lk and lk[0] == 'var' else None
                    if isinstance(g, tuple) and g[0] == 'guard':
                        m = g[1]
                        if m not in s.held:
                            self.report(loc, f'wait on {cv} without holding {m}')
                        if s.held - {m}:
                            self.report(loc, f'wait on {cv} while holding {", ".join(sorted(s.held - {m}))}')
                        for w in self.waits.get(cv, ()):
                            if w['loc'] == loc:
                                w['mutex'] = m
                    else:
                        self.unk.append('lock of a wait at ' + self.D.loc(loc))
                    for d in s.due:
                        if d[0] != cv:
                            self.report(loc, f'waits for the others while {d[0]} has not been notified of the change at {d[1]}')
                    out.add(s.w(pub=None))
                return out
            return sts
        if cls in ('std::mutex', 'std::recursive_mutex') and name in ('lock', 'unlock'):
            m = field(obj)
            return {self.acquire(s, m, loc) if name == 'lock' else self.release(s, m, loc) for s in sts}
        if cls in GUARDS and name in ('lock', 'unlock'):
            v = strip(obj)
            out = set()
            for s in sts:
                g = s.get(v[1]) if v and v[0] == 'var' else None
                if not (isinstance(g, tuple) and g[0] == 'guard'):
                    self.unk.append('guard at ' + self.D.loc(loc))
                    out.add(s)
                    continue
                s = self.acquire(s, g[1], loc) if name == 'lock' else self.release(s, g[1], loc)
                out.add(s.let(v[1], ('guard', g[1], name == 'lock')))
            return out
        if key in self.fns and (obj is None or strip(obj)[0] == 'this'):
            return self.inline(key, args, sts)
        if obj is not None:
            f = field(obj)
            if f is not None and not (f in self.cvs or f in self.mutexes):
                if name in ('load',) or fl.get('const') or name.startswith('operator ') or name in ('operator[]', 'at', 'operator->', 'operator*', 'get', 'begin', 'end', 'size', 'join'):
                    sts2 = set()
                    for s in sts:
                        self.note(s, f, False, loc)
                        sts2.add(s)
                    return sts2
                v = args[0] if name in ('operator=', 'store') and args else None
                return {self.write(s, f, loc, self.val(v, s) if v is not None else None) for s in sts}
            sts = self.ev(obj, sts)
        if name in self.stagefns:
            sts = {s.w(called=s.called | {name}) for s in sts}
            if self.in_worker():
                for s in sts:
                    self.facts += 1
                    if args and not self.is_id(args[0], s):
                        self.report(loc, f'{name} is not called with the number of the worker: two workers can use the same instances')
        return sts

    def is_id(self, e, st):
        e = strip(e)
        return bool(e and e[0] == 'var' and st.get(e[1]) == 'id')

    def inline(self, key, args, sts):
        if key in self.stack or len(self.stack) > 12:
            return sts
        fn = self.fns[key]
        self.stack.append(key)
        out = set()
        groups = {}
        for s in sts:
            vals = tuple('id' if self.is_id(a, s) else self.val(a, s) for a in args)
            groups.setdefault((s.env, vals), set()).add(s)
        for (env, vals), g in groups.items():
            inner = set()
            for s in g:
                s = s.w(env=())
                for (did, nm, tid), v in zip(fn['params'], vals):
                    s = s.let(did, v)
                inner.add(s)
            o = self.ex(fn['body'], inner)
            for s in o['n'] | o['r']:
                out.add(s.w(env=env))
        self.stack.pop()
        return out

    # ---- statements
    def ex(self, s, sts):
        """outcomes: n(ormal), r(eturn), b(reak), c(ontinue)"""
        N = lambda x: {'n': x, 'r': set(), 'b': set(), 'c': set()}
        if len(sts) > MAXSTATES:
            raise Unknown('too many states')
        if not s or not sts:
            return N(sts)
        k = s[0]
        if k == '{':
            out = N(sts)
            guards = [d[0] for x in s[1] if x and x[0] == 'decl' for d in x[1] if self.is_guard(d)]
            for x in s[1]:
                o = self.ex(x, out['n'])
                out['n'] = o['n']
                for q in 'rbc':
                    out[q] |= o[q]
                if not out['n']:
                    break
            if guards:
                for q in 'nrbc':
                    out[q] = {self.leave(t, guards) for t in out[q]}
            return out
        if k == 'expr':
            return N(self.ev(s[1], sts))
        if k == 'decl':
            for d in s[1]:
                sts = self.decl(d, sts)
            return N(sts)
        if k == 'ret':
            return {'n': set(), 'r': self.ev(s[1], sts) if len(s) > 1 and isinstance(s[1], list) and s[1] and isinstance(s[1][0], str) else sts, 'b': set(), 'c': set()}
        if k == 'break':
            return {'n': set(), 'r': set(), 'b': sts, 'c': set()}
        if k == 'cont':
            return {'n': set(), 'r': set(), 'b': set(), 'c': sts}
        if k == 'throw':
            return N(set())
        if k == 'if':
            sts = self.ev(s[1], sts)
            t, e = self.split(s[1], sts, s)
            a = self.ex(s[2], t)
            b = self.ex(s[3], e) if len(s) > 3 and s[3] else N(e)
            return {q: a[q] | b[q] for q in 'nrbc'}
        if k in ('while', 'for', 'do', 'rfor'):
            return self.loop(s, sts)
        if k == 'switch':
            return self.switch(s, sts)
        if k in ('case', 'default'):
            return self.ex(s[-1] if k == 'default' else s[2], sts)
        if k == 'try':
            return self.ex(s[1], sts)
        for x in s[1:]:
            if isinstance(x, list):
                sts = self.ev(x, sts)
        return N(sts)

    def is_guard(self, d):
        i = d[3]
        return isinstance(i, list) and i and i[0] == 'ctor' and i[4].get('cls') in GUARDS

    def leave(self, st, guards):
        for d in guards:
            g = st.get(d)
            if isinstance(g, tuple) and g[0] == 'guard':
                if g[2]:
                    st = self.release(st, g[1], None)
                st = st.let(d, None)
        return st

    def decl(self, d, sts):
        did, init = d[0], d[3]
        loc = d[4] if len(d) > 4 else None
        if self.is_guard(d):
            ms = [field(a) for a in init[2] if field(a) in self.mutexes]
            defer = any('defer_lock' in str(a) for a in init[2])
            adopt = any('adopt_lock' in str(a) for a in init[2])
            out = set()
            for s in sts:
                if len(ms) != 1:
                    self.unk.append('guard at ' + self.D.loc(loc))
                    out.add(s)
                    continue
                if not defer and not adopt:
                    s = self.acquire(s, ms[0], loc)
                out.add(s.let(did, ('guard', ms[0], not defer)))
            return out
        sts = self.ev(init, sts) if isinstance(init, list) else sts
        out = set()
        for s in sts:
            v = self.val(init, s) if isinstance(init, list) else None
            if isinstance(init, list) and self.is_id(init, s):
                v = 'id'
            if v is None and isinstance(init, list) and strip(init) and strip(init)[0] in ('bin', 'mem', 'un'):
                v = ('def', Box(strip(init)))
            out.add(s.let(did, v))
        return out

    def split(self, cond, sts, stmt=None):
        t, e = set(), set()
        for s in sts:
            v = self.val(cond, s)
            if v is None or v:
                t.add(self.settle(s, cond, False) if v is None and s.due else s)
            if v is None or not v:
                e.add(self.settle(s, cond, True) if v is None and s.due else s)
        return t, e

    def settle(self, s, cond, holds):
        """where nobody's predicate holds, there is nothing to tell"""
        return s.w(due=frozenset(d for d in s.due if not self.implied(d[0], cond, s, holds)))

    def implied(self, cv, cond, s, holds):
        """whenever the predicate of the waiters holds, cond has the value holds"""
        c = self.resolve(cond, dict(s.env))
        mine = {x[2] for x in walk(c) if x[0] == 'mem' and x[1] and x[1][0] == 'this'}
        fs = sorted({x[2] for w in self.waits[cv] for x in walk(w['pred']) if x[0] == 'mem' and x[1] and x[1][0] == 'this'} | mine)
        if len(fs) > 5 or not mine & self.predf[cv]:
            return False
        known = False
        for vals in itertools.product(range(4), repeat=len(fs)):
            fx = dict(zip(fs, vals))
            ps = []
            for w in self.waits[cv]:
                # unsigned differences: only ranges that are not empty
                if any(x[0] == 'bin' and x[1] == '-' and (self.val(x, None, fx) or 0) < 0 for x in walk(w['pred'])):
                    ps = None
                    break
                p = self.val(w['pred'], None, fx)
                ps.append(None if p is None else bool(p) != w['neg'])
            if ps is None:
                continue
            q = self.val(c, None, fx)
            if q is None or any(p is None for p in ps):
                return False
            known = True
            if any(ps) and bool(q) != holds:
                return False
        return known

    def loop(self, s, sts):
        k = s[0]
        if k == 'for':
            init, cond, inc, body = s[1], s[2], s[3], s[4]
            if init:
                sts = self.ex(init, sts)['n']
        elif k == 'while':
            init, cond, inc, body = None, s[1], None, s[2]
        elif k == 'do':
            init, cond, inc, body = None, s[1], None, s[2]
        else:
            init, cond, inc, body = None, None, None, s[3] if len(s) > 3 else None
            if len(s) > 2 and isinstance(s[2], list):
                sts = self.ev(s[2], sts)
        waits = k == 'while' and any(x[0] == 'call' and x[2].startswith('wait') and 'condition_variable' in (x[6].get('cls') or '') for x in walk(body)) \
            and not any(x[0] == 'call' and x[1] in self.fns and x[3] for x in walk(body))
        seen, todo, exits, rets = set(), set(sts), set(), set()
        inner = self.loopdepth
        self.loopdepth += 1
        n = 0
        while todo:
            n += 1
            if n > 200:
                raise Unknown('loop')
            cur = todo - seen
            todo = set()
            if not cur:
                break
            seen |= cur
            if k == 'rfor':
                t, e = cur, cur
            elif cond is None:
                t, e = cur, set()
            else:
                cur = self.ev(cond, cur)
                t, e = self.split(cond, cur)
            if waits:
                e = {x.w(pub=None) for x in e}      # what is waited for holds
            exits |= e
            o = self.ex(body, t)
            exits |= o['b']
            rets |= o['r']
            nx = o['n'] | o['c']
            if inc:
                nx = self.ev(inc, nx)
            todo |= nx
        self.loopdepth = inner
        return {'n': exits, 'r': rets, 'b': set(), 'c': set()}

    def switch(self, s, sts):
        out = {'n': set(), 'r': set(), 'b': set(), 'c': set()}
        sts = self.ev(s[1], sts)
        items = s[2][1] if s[2] and s[2][0] == '{' else [s[2]]
        labels = []             # (value or None for default, index)
        flat = []
        for x in items:
            while x and x[0] in ('case', 'default'):
                labels.append((self.val(x[1], St(), {}) if x[0] == 'case' else None, len(flat)))
                x = x[2] if x[0] == 'case' else x[1]
            flat.append(x)
        for st in sts:
            v = self.val(s[1], st)
            starts = []
            if v is not None:
                starts = [i for c, i in labels if c == v] or [i for c, i in labels if c is None]
            else:
                starts = [i for _, i in labels]
            if not starts or v is None and not any(c is None for c, _ in labels):
                out['n'].add(st)
            for i in starts:
                st1 = st
                o = self.ex(['{', flat[i:]], {st1})
                out['n'] |= o['n'] | o['b']
                out['r'] |= o['r']
                out['c'] |= o['c']
        return out

    # ---- the whole class
    def run(self):
        # twice: the mutex of each wait is known after the first pass
        for rnd in range(2):
            self.bad, self.unk, self.order, self.access, self.facts, self.nacc, self.pubs = [], [], {}, {}, 0, 0, {}
            for r in sorted(self.roots):
                fn = self.fns[r]
                self.stack, self.loopdepth = [r], 0
                self.rootname = r
                self.rootfns = self.reach(r)
                miss = {cv for cv in self.cvs}
                o = self.ex(fn['body'], {self.start(r, fn, St(miss=miss))})
                self.npath += len(o['n'] | o['r'])
                for s in o['n'] | o['r']:
                    if s.held:
                        self.report(fn['loc'], f'returns on some path while {", ".join(sorted(s.held))} is locked')
                    for cv, at in s.due:
                        self.report(fn['loc'], f'{cv} is not notified on some path after the change at {at} that its waiter waits for')
        for cv, ws in self.waits.items():
            self.stack = [ws[0]['fn']]
            ms = {w.get('mutex') for w in ws}
            if len(ms) > 1:
                self.report(ws[0]['loc'], f'the waits on {cv} use different mutexes: {sorted(map(str, ms))}')
            for w in ws:
                self.stack = [w['fn']]
                if w['pred'] is None:
                    self.report(w['loc'], f'wait on {cv} without a condition that is checked again after waking up')
            if not any(x[0] == 'call' and x[2].startswith('notify') and field(x[3]) == cv for f in self.fns.values() for x in walk(f['body'])):
                self.report(ws[0]['loc'], f'nothing ever notifies {cv}')
        # order of the locks
        g = {}
        for (a, b), at in self.order.items():
            g.setdefault(a, {})[b] = at

        def reach(a, b, seen):
            return any(x == b or x not in seen and reach(x, b, seen | {x}) for x in g.get(a, ()))
        for (a, b), (f, at) in sorted(self.order.items()):
            if a != b and reach(b, a, {b}):
                self.bad.append((f, at, f'{b} is acquired while {a} is held, and elsewhere in the opposite order'))
        # what the workers share
        for (task, f), acc in sorted(self.access.items()):
            if not any(w for w, _, _ in acc):
                continue
            common = frozenset.intersection(*[h for _, h, _ in acc])
            self.facts += 1
            if not common:
                w, h, at = min(acc, key=lambda x: (len(x[1]), not x[0]))
                self.bad.append((task, at, f'{f} is {"written" if w else "read"} by a worker without the lock that protects the writes of the other workers'))
        return self

    def reach(self, r):
        seen, todo = set(), [r]
        while todo:
            k = todo.pop()
            if k in seen:
                continue
            seen.add(k)
            todo += [e[1] for e in walk(self.fns[k]['body']) if e[0] == 'call' and e[1] in self.fns]
        return seen

    def dispatch(self, taskfield, activefield, expect, stop):
        """what a worker does for each published task"""
        byroot = {}
        for v, roots in self.pubs.items():
            for r in roots:
                byroot.setdefault(r.split('(')[0].rsplit('::', 1)[-1], set()).add(v)
        bad0, unk0 = list(self.bad), list(self.unk)
        res = []
        for entry in sorted(self.entries):
            fn = self.fns[entry]
            for root, need in expect.items():
                for v in sorted(byroot.get(root, ())):
                    self.fix = {taskfield: v, activefield: 1}
                    self.stack, self.loopdepth, self.rootname, self.rootfns = [entry], 0, entry, self.reach(entry)
                    calls = self.calls_of(fn)
                    self.fix = None
                    for x in sorted(need - calls):
                        res.append((entry, self.D.loc(fn['loc']), f'the task {v} that {root} publishes does not make a worker run {x}'))
                    for x in sorted(calls - need):
                        res.append((entry, self.D.loc(fn['loc']), f'the task {v} that {root} publishes makes a worker run {x}'))
            for v in sorted(byroot.get(stop, ())):
                self.fix = {taskfield: v, activefield: 1}
                self.stack, self.loopdepth, self.rootname, self.rootfns = [entry], 0, entry, self.reach(entry)
                o, back = self.once(fn)
                self.fix = None
                if back:
                    res.append((entry, self.D.loc(fn['loc']), f'a worker goes on after the task {v} of {stop}'))
        self.bad, self.unk = bad0 + res, unk0
        return len(res)

    def start(self, key, fn, st):
        if key in self.entries and fn['params']:
            st = st.let(fn['params'][0][0], 'id')
        return st

    def outer(self, body):
        for x in body[1] if body and body[0] == '{' else [body]:
            if x and x[0] in ('while', 'for', 'do'):
                return x
            if x and x[0] == '{':
                y = self.outer(x)
                if y is not None:
                    return y
        return None

    def once(self, fn):
        """one round of the outermost loop of the entry function"""
        lp = self.outer(fn['body'])
        if lp is None:
            raise Unknown('no loop in the thread function')
        body = lp[4] if lp[0] == 'for' else lp[2]
        sts = {self.start(self.stack[0], fn, St())}
        o = self.ex(body, sts)
        return o, o['n'] | o['c']

    def calls_of(self, fn):
        o, back = self.once(fn)
        out = set()
        for q in 'nrbc':
            for s in o[q]:
                out |= s.called
        return out


class Box:
    """an expression as a value in an environment"""
    __slots__ = ('e', 's')

    def __init__(self, e):
        self.e, self.s = e, repr(e)

    def __eq__(self, o):
        return isinstance(o, Box) and self.s == o.s

    def __hash__(self):
        return hash(self.s)

    def __repr__(self):
        return self.s
