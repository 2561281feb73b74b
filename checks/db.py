"""Loads the extractor's output and builds it on demand from /repo's working tree."""
import re, json, os, subprocess, sys, hashlib, time, shutil, glob, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('CT_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
TOOL = os.path.join(BUILD, 'ctx-extract')
FLAGS = ['-std=c++14', '-w', '-fopenmp', '-DCPPAD', '-DCT_USE_LAPACK', '-DBUILD_WITH_IPOPT_SUPPORT', '-DHAVE_CSTDDEF',
         '-fno-access-control', '-ferror-limit=0',
         f'-I{REPO}/ct_core/include', f'-I{REPO}/ct_optcon/include', f'-I{REPO}/ct_rbd/include',
         f'-I{VERIF}/harness', f'-I{VERIF}/harness/stubs', '-isystem', '/usr/include/eigen3']


def build_tool():
    src = os.path.join(VERIF, 'tool', 'extract.cpp')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()
    stamp = TOOL + '.sha'
    if os.path.exists(TOOL) and os.path.exists(stamp) and open(stamp).read() == h:
        return
    os.makedirs(BUILD, exist_ok=True)
    fl = subprocess.check_output(['llvm-config-18', '--cxxflags'], text=True).split()
    fl = [f for f in fl if not f.startswith('-std=') and f != '-fno-exceptions']
    tmp = TOOL + '.%d' % os.getpid()
    cmd = ['g++', '-O1', '-std=c++17', '-fno-rtti', '-w'] + fl + [src, '-o', tmp, '-L/usr/lib/llvm-18/lib',
                                                               '-l:libclang-cpp.so.18.1', '-lLLVM-18']
    subprocess.run(cmd, check=True)
    os.replace(tmp, TOOL)
    open(stamp, 'w').write(h)


def tree_hash():
    """hash of everything the extraction depends on"""
    h = hashlib.sha256()
    pats = []
    for d in ('ct_core/include', 'ct_optcon/include', 'ct_rbd/include/ct/rbd/state'):
        for root, _, fs in sorted(os.walk(os.path.join(REPO, d))):
            for f in sorted(fs):
                pats.append(os.path.join(root, f))
    for root, _, fs in sorted(os.walk(os.path.join(VERIF, 'harness'))):
        for f in sorted(fs):
            pats.append(os.path.join(root, f))
    pats.append(os.path.join(VERIF, 'tool', 'extract.cpp'))
    for p in pats:
        h.update(p.encode())
        try:
            h.update(open(p, 'rb').read())
        except OSError:
            pass
    h.update(repr(FLAGS).encode())
    return h.hexdigest()[:24]


def overlay():
    """gcc accepts 'x.template f(...)' for a member that is not a template, clang does not: show clang the text without the
    redundant keyword (same length, so that all locations stay)"""
    odir = os.path.join(BUILD, 'overlay')
    roots = []
    for d in ('ct_core/include', 'ct_optcon/include'):
        for root, _, fs in os.walk(os.path.join(REPO, d)):
            for f in fs:
                p = os.path.join(root, f)
                try:
                    t = open(p, encoding='utf-8', errors='surrogateescape').read()
                except OSError:
                    continue
                t2 = re.sub(r'(\.|->)template (\w+)\(', lambda m: m.group(1) + ' ' * 9 + m.group(2) + '(', t)
                if t2 != t:
                    os.makedirs(odir, exist_ok=True)
                    q = os.path.join(odir, hashlib.sha256(p.encode()).hexdigest()[:12] + os.path.splitext(f)[1])
                    open(q, 'w', encoding='utf-8', errors='surrogateescape').write(t2)
                    roots.append(f'--map={p}={q}')
    return roots


class ExtractError(Exception):
    pass


def extract(names):
    """run the extractor on the harness TUs; results are cached by content hash of every input file"""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        build_tool()
        th = tree_hash()
        todo = []
        for n in names:
            out = os.path.join(BUILD, f'{n}.{th}.json')
            if not os.path.exists(out):
                todo.append((n, out))

        ov = overlay()

        def run(a):
            n, out = a
            src = os.path.join(VERIF, 'harness', f'h_{n}.cpp')
            p = subprocess.run([TOOL, f'--root={REPO}/', f'--root={VERIF}/harness/', f'--o={out}'] + ov + [src, '--'] + FLAGS,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if not os.path.exists(out):
                raise ExtractError(f'{n}: ' + p.stdout[-3000:])
            errs = [l for l in p.stdout.splitlines() if ' error: ' in l]
            open(out + '.err', 'w').write('\n'.join(errs))
        if todo:
            for n, _ in todo:
                for f in glob.glob(os.path.join(BUILD, f'{n}.*.json*')):
                    os.unlink(f)
            with ThreadPoolExecutor(8) as ex:
                list(ex.map(run, todo))
        return {n: os.path.join(BUILD, f'{n}.{th}.json') for n in names}


class DB:
    def __init__(self, path):
        d = json.load(open(path))
        self.types = d['types']
        self.files = d['files']
        self.fns = {}
        self.records = {}
        self.errors = []
        if os.path.exists(path + '.err'):
            self.errors = [l for l in open(path + '.err').read().splitlines() if l]
        for f in d['functions']:
            self.fns.setdefault(f['key'], f)
        for r in d['records']:
            self.records.setdefault(r['key'], r)
        self.byname = {}
        for f in self.fns.values():
            self.byname.setdefault(f['name'], []).append(f)
        self._fields = {}
        self._vt = {}

    def loc(self, l):
        f = self.files[l[0]] if l and l[0] >= 0 else '?'
        for p in (REPO + '/', VERIF + '/'):
            if f.startswith(p):
                f = f[len(p):]
        return f'{f}:{l[1]}'

    def T(self, tid):
        t = self.types[tid]
        return t

    def noref(self, tid):
        t = self.types[tid]
        while t.get('k') == 'ref':
            tid = t['to']
            t = self.types[tid]
        return tid

    def fields(self, clskey):
        """all fields including bases: name -> (type, owner)"""
        r = self._fields.get(clskey)
        if r is None:
            r = {}
            rec = self.records.get(clskey)
            if rec:
                for b in rec['bases']:
                    r.update(self.fields(b[0]))
                for f in rec['fields']:
                    r[f[0]] = (f[1], clskey)
            self._fields[clskey] = r
        return r

    def bases(self, clskey):
        out = [clskey]
        rec = self.records.get(clskey)
        if rec:
            for b in rec['bases']:
                out += self.bases(b[0])
        return out

    def cls(self, qn, **kw):
        """record keys with this qualified template name"""
        return [k for k, r in self.records.items() if r['qn'] == qn]

    def method(self, clskey, name, nparams=None, pred=None):
        """definition of clskey::name, searching bases"""
        for c in self.bases(clskey):
            c_ = [f for f in self.byname.get(name, []) if f.get('clskey') == c and
                  (nparams is None or len(f['params']) == nparams) and (pred is None or pred(f))]
            if c_:
                return c_[0]
        return None

    def overrider(self, dyncls, key):
        """final overrider in dyncls of the virtual method key"""
        if '::' not in key:
            return key
        tail = sig(key)
        for c in self.bases(dyncls):
            rec = self.records.get(c)
            if not rec:
                continue
            for m in rec['methods']:
                if sig(m['key']) == tail and not m.get('pure'):
                    return m['key']
                if sig(m['key']) == tail:
                    return None
        return None

    def touched(self, key):
        """names of the data members that a call of the member function key, or of anything that
        overrides it, can reach through its object; None when this is not known"""
        c = self.__dict__.setdefault('_touched', {})
        if key in c:
            return c[key]
        fields, seen, todo, ok = set(), set(), [key], True
        while todo and ok:
            k = todo.pop()
            if k in seen:
                continue
            seen.add(k)
            alts = self.overriders_of(k)
            bodies = [self.fns[a] for a in alts if a in self.fns and self.fns[a].get('body') is not None]
            if not bodies:
                ok = False
                break
            for fn in bodies:
                if not self._mentions([fn['body'], fn.get('inits') or []], fields, todo):
                    ok = False
                    break
        c[key] = frozenset(fields) if ok else None
        return c[key]

    def overriders_of(self, key):
        d = self.__dict__.get('_bysig')
        if d is None:
            d = self._bysig = {}
            for rk, rec in self.records.items():
                for m in rec['methods']:
                    d.setdefault(sig(m['key']), []).append((rk, m['key']))
        out = {key}
        mine = [rk for rk, mk_ in d.get(sig(key), ()) if mk_ == key]
        if mine:
            for rk, mk_ in d[sig(key)]:
                if mk_ != key and mine[0] in self.bases(rk):
                    out.add(mk_)
        return out

    def _mentions(self, e, fields, todo):
        if isinstance(e, dict):
            return all(self._mentions(x, fields, todo) for x in e.values())
        if not isinstance(e, (list, tuple)):
            return True
        if e and isinstance(e[0], str):
            if e[0] == 'this':
                return False
            if e[0] == 'icall':
                return False
            if e[0] == 'mem' and len(e) > 5:
                fields.add(e[2])
                if e[1] and e[1][0] == 'this':
                    return True
                return self._mentions(e[1], fields, todo)
            if e[0] == 'call' and len(e) > 6 and isinstance(e[6], dict):
                if e[6].get('lam'):
                    pass
                elif e[6].get('cls') and not e[6].get('static') and e[3] and e[3][0] == 'this':
                    if not e[6].get('own'):
                        return False
                    todo.append(e[1])
                    return self._mentions(e[4], fields, todo)
        return all(self._mentions(x, fields, todo) for x in e)


_SIG = {}


def sig(key):
    """method name + parameter list of a function key"""
    s = _SIG.get(key)
    if s is None:
        # find the '(' matching the parameter list: scan with depth over <>
        depth = 0
        start = 0
        i = 0
        n = len(key)
        while i < n:
            ch = key[i]
            if key.startswith('operator', i) and (i == 0 or not key[i - 1].isalnum()):
                j = i + 8
                if key.startswith('()', j):
                    i = j + 2
                    continue
                while j < n and key[j] in '<>=!-+*/%^&|~[]':
                    j += 1
                i = j
                continue
            if ch == '<':
                depth += 1
            elif ch == '>':
                depth -= 1
            elif ch == ':' and depth == 0 and key.startswith('::', i):
                start = i + 2
                i += 1
            elif ch == '(' and depth == 0:
                break
            i += 1
        s = key[start:]
        _SIG[key] = s
    return s


_DBS = {}


def load(*names):
    paths = extract(list(names))
    out = []
    for n in names:
        if n not in _DBS:
            _DBS[n] = DB(paths[n])
        out.append(_DBS[n])
    return out if len(out) > 1 else out[0]
