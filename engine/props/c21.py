"""The Python binding is executed abstractly from its syntax tree (every path of every method, symbolic arguments, library
results both success and failure) and its foreign declarations and calls are compared with the exported signatures found in
the compiled crate: declared kinds, array arguments (element type, contiguity, length, lifetime), roles of the arguments,
failures that become exceptions, and no use of a released context."""
from core import *
import ast, pyabs
from pyabs import C, Module, ClassDef, isc, cv, dtype
T = pyabs.S
FILE = 'python/bitboost/bitboost.py'; SK = 'python/bitboost/sklearn.py'
BYTES, KIND, PATHS = 'declared against exported signature', 'declared kind of argument against exported signature', 'all paths of the method'

def kind(c, t):
    t = c.P.types[t] if isinstance(t, int) else t
    k = t['k']
    if k in ('int', 'uint'): return ('i' if k == 'int' else 'u') + str(t['bits'])
    if k in ('float', 'bool'): return t['s']
    if k == 'ptr':
        e = c.P.types[t['e']]
        return 'ptr:' + (kind(c, e) if e['k'] in ('int', 'uint', 'float', 'bool') else 'void')
    if k == 'tuple' and not t['f']: return 'none'
    return t['s']
def exports(c):
    out = {}
    for f in c.P.insts:
        if f.get('exported') and f.get('extern_c') and f['kind'] == 'item' and f['id'] in c.P.bodies:
            b = c.P.bodies[f['id']]; ls = b['locals']
            out[f['item']] = ([kind(c, t) for t in ls[1:b['argc'] + 1]], kind(c, ls[0]), f)
    return out
def cname(v):
    """kind a ctypes declaration denotes"""
    if v[0] == 'ctype': return {'void*': 'ptr:void', 'char*': 'ptr:i8', 'wchar*': 'ptr:wchar', 'char': 'i8'}.get(v[1], v[1])
    if v[0] == 'ptr': return 'ptr:' + str(v[1]) if isinstance(v[1], str) else 'ptr:?'
    if v[0] == 'ndptr': return 'ptr:' + v[1]
    if v == pyabs.NONE: return 'none'
    return None
def agree(p, r):
    """a declared kind against an exported one: True, False or None (cannot tell)"""
    if p is None: return None
    if p == r: return True
    if p.startswith('ptr:') and r.startswith('ptr:'):
        if 'ptr:void' in (p, r): return True
        return {p, r} <= {'ptr:i8', 'ptr:u8'}
    if {p, r} <= {'i32', 'u32'}: return None
    return False

class World:
    """the library as the binding sees it: one context, its data length, success or failure of every call"""
    def __init__(self, c, ex, nbytes): self.c = c; self.ex = ex; self.nbytes = nbytes; self.found = {}; self.where = ''; self.quiet = False; self.sites = 0; self.stored = {}
    def note(self, key, status, line, detail, rule):
        if self.quiet: return
        order = {PROVED: 0, UNDET: 1, VIOLATED: 2}
        key = '%s/%s' % (self.where, key)
        if key not in self.found or order[status] > order[self.found[key][0]]: self.found[key] = (status, '%s:%s %s' % (FILE, line, self.where), detail, rule)
    def __call__(self, it, st, name, args, live, line):
        self.sites += 1
        if name == 'bb_get_numt_nbytes': return [(st, C(self.nbytes))]
        if name not in self.ex: self.note(name, VIOLATED, line, 'calls %s, which the library does not export' % name, BYTES); return [(st, T('RAISE', 'AttributeError'))]
        ps, ret, f = self.ex[name]
        if len(args) != len(ps):
            self.note(name + '/arguments', VIOLATED, line, '%d arguments, the library takes %d' % (len(args), len(ps)), BYTES); return [(st, T('RAISE', 'TypeError'))]
        self.note(name + '/arguments', PROVED, line, '', BYTES)
        decl = it.decl.get(name, {}).get('argtypes')
        decl = list(decl[1:]) if decl and decl[0] in ('list', 'tuple') else [None] * len(ps)
        n = st.ghost.get('n')
        raises = False
        for i, (p, a, d) in enumerate(zip(ps, args, decl + [None] * len(ps))):
            raises |= self.argument(it, st, name, i, p, a, d, live, line, n)
        if raises: return [(st, T('RAISE', 'TypeError'))]
        ok, bad = st.copy(), st.copy()
        ok.events.append((name, args, 'ok', n, line)); bad.events.append((name, args, 'failed', n, line))
        ctx = st.ghost.get('ctx'); fail = C(-1)
        if name == 'bb_alloc':
            ok.ghost['ctx'] = 'live'; ok.ghost['n'] = None
            return [(ok, T('ctx', 1)), (bad, C(0))]
        if ps and ps[0] == 'ptr:void':
            a = args[0]; a = a[2] if a[0] == 'box' else a
            if a == pyabs.NONE or a == C(0): return [(bad, fail)]
            if a == T('ctx', 1) and ctx == 'freed':
                self.note(name + '/released', VIOLATED, line, 'the context was released before', PATHS); return [(bad, fail)]
            if a != T('ctx', 1):
                self.note(name + '/context', VIOLATED if a[0] in ('const', 'arr', 'cptr') else UNDET, line, 'not the context: %s' % (a[:2],), PATHS)
            else: self.note(name + '/context', PROVED, line, '', PATHS)
        if name == 'bb_dealloc': ok.ghost['ctx'] = 'freed'; return [(ok, C(0))]
        if name == 'bb_refresh_data': ok.ghost['n'] = args[1][2] if args[1][0] == 'box' else args[1]
        if name in ('bb_set_feature_data', 'bb_predict', 'bb_train') and n is None: return [(bad, fail)]
        if name == 'bb_set_config_field' and n is not None and st.ghost.get('strict'): return [(bad, fail)]
        return [(ok, C(0)), (bad, fail)]
    def argument(self, it, st, name, i, p, a, d, live, line, n):
        """one argument against the exported parameter; True: the call certainly raises"""
        key = '%s/arg%d' % (name, i)
        if a[0] == 'box':
            r = agree(cname(T('ctype', a[1])), p)
            if r is False: self.note(key, VIOLATED, line, '%s passed for %s' % (a[1], p), KIND); return False
            if p == 'ptr:i8':
                b = a[2]; bad = b[0] == 'text' or isc(b) and not isinstance(cv(b), (bytes, type(None)))
                self.note(key, VIOLATED if bad else PROVED, line, 'a character pointer made from text' if bad else '', KIND); return bad
            a = a[2]
        if p == 'ptr:i8':
            good = a[0] in ('bytes',) or isc(a) and isinstance(cv(a), bytes)
            if good: self.note(key, PROVED, line, '', KIND)
            elif isc(a) or a[0] in ('text', 'arr', 'cptr', 'ctx'): self.note(key, VIOLATED, line, 'not a byte string', KIND); return True
            else: self.note(key, UNDET, line, 'cannot tell whether it is a byte string', KIND)
            return False
        if p == 'ptr:void':
            if d is None and a == T('ctx', 1): self.note(key, VIOLATED, line, 'address passed without a declared pointer argument: truncated to 32 bits', KIND)
            return False
        if p.startswith('ptr:'):
            arr, alive = None, True
            if a[0] == 'cptr':
                arr = a[1]; alive = a[3] or arr in live
                q = cname(a[2])
                if d is not None and d[0] in ('ptr', 'ctype') and cname(d) != q and q is not None and 'ptr:void' not in (cname(d), q): self.note(key, VIOLATED, line, 'pointer of kind %s where %s is declared' % (q, cname(d)), KIND); return True
                if agree(q, p) is False: self.note(key, VIOLATED, line, 'pointer of kind %s passed for %s' % (q, p), KIND)
            elif a[0] == 'address': arr = a[1]; alive = arr in live
            elif a[0] == 'arr' and (a[1] == 'ctypes' or d is not None and d[0] == 'ndptr'): arr = a
            if arr is None:
                bad = isc(a) or a[0] in ('text', 'bytes', 'ctx') or a[0] == 'arr' and d is not None
                self.note(key, VIOLATED if bad else UNDET, line, 'not recognised as a pointer to an array', KIND); return bad
            self.note(key, PROVED, line, '', KIND)
            nd = d is not None and d[0] == 'ndptr' and a[0] == 'arr'
            self.note(key + '/alive', PROVED if alive else VIOLATED, line, '' if alive else 'nothing keeps the array alive until the call', PATHS)
            el = p[4:]; dt = it.adtype(st, arr)
            if nd and d[1] == el: dt = el           # checked when the call is made
            base = arr; kept = root(arr)
            own = kept is not None and kept[0] == 'sym' and kept[1].startswith(('self.', 'carried '))      # kept from an earlier call
            while base[0] == 'arr' and base[5] is not None and base[5][0] in ('arr', 'column', 'row'): base = base[5]
            roots = [base] + ([base[5]] if base[0] == 'arr' else [])
            roots += [r[1] for r in roots if r and r[0] in ('column', 'row')]
            if dt == el: self.note(key + '/type', PROVED, line, '', PATHS)
            elif dt is not None: self.note(key + '/type', VIOLATED, line, 'elements of type %s, the library reads %s' % (dt, el), PATHS)
            else:
                hint = own or any(mentions(f, lambda x: x[0] == 'attr' and x[2] == 'dtype') for f in st.facts)
                self.note(key + '/type', UNDET if hint else VIOLATED, line, 'element type not established', PATHS)
            if nd and d[2] or it.contiguous(st, arr): self.note(key + '/contiguous', PROVED, line, '', PATHS)
            else:
                sure = arr[0] != 'arr' or arr[1] in ('column', 'row', 'part', 'target', 'checked', 'asarray', 'array', 'astype')
                hint = own or any(mentions(f, lambda x: x[0] == 'attr' and x[2] in ('flags', 'strides')) for f in st.facts)
                self.note(key + '/contiguous', VIOLATED if sure and not hint else UNDET, line, 'the array can be strided', PATHS)
            if n is not None:
                r = covers(it, st, arr, n)
                self.note(key + '/length', PROVED if r is True else VIOLATED if r is False and not (own and len(self.stored.get(kept[1][5:], ())) != 1) else UNDET, line, '' if r else 'the array can be shorter than the %s elements the library uses' % text(n), PATHS)
            return False
        if p in ('i32', 'u32', 'i64', 'u64'):
            bad = isc(a) and not isinstance(cv(a), (int, bool)) or a[0] in ('text', 'bytes', 'arr', 'cptr', 'ctx', 'obj', 'list', 'tuple', 'dict')
            if bad: self.note(key, VIOLATED, line, 'not an integer', KIND)
            return bad
        return False
def text(v): return v[1] if v[0] == 'sym' else 'n'
def mentions(v, p):
    if not isinstance(v, tuple): return False
    if v and isinstance(v[0], str) and len(v) > 2 and p(v): return True
    return any(mentions(x, p) for x in v)
def equal(st, a, b):
    if a == b: return True
    seen = {a}; todo = [a]
    while todo:
        x = todo.pop()
        for f, val in st.facts.items():
            if val is True and f[0] == 'eq':
                for u, w in ((f[1], f[2]), (f[2], f[1])):
                    if u == x and w not in seen: seen.add(w); todo.append(w)
                    if u[0] == w[0] == 'tuple' and len(u) == len(w):
                        for y, z in zip(u[1:], w[1:]):
                            if y == x and z not in seen: seen.add(z); todo.append(z)
    return b in seen
def covers(it, st, arr, n):
    """does the array have at least n elements?  True, False (there are inputs for which it has not), None"""
    sh = arr[4] if arr[0] == 'arr' else T('sh*', T('attr', arr, 'shape'))
    if sh is None: return None
    src = None
    if sh[0] == 'sh':
        if any(equal(st, t, n) for t in sh[1:]) and all(isc(t) and cv(t) >= 1 or equal(st, t, n) for t in sh[1:]): return True
        if len(sh) == 2 and sh[1][0] == 'bin': return None if not (sh[1][1] == 'Sub' and equal(st, sh[1][2], n)) else False
        sizes = list(sh[1:])
    else:
        S_ = sh[1]
        cands = [T('index', S_, C(0))] + ([T('attr', S_[1], 'size')] if S_[0] == 'attr' else [])
        if any(equal(st, t, n) for t in cands): return True
        if equal(st, S_, T('tuple', n)): return True
        for f, val in st.facts.items():        # n <= size
            if f[0] == 'lt' and val is False and f[1] in cands and equal(st, f[2], n): return True
        sizes = cands + [S_]
    for f in st.facts:
        if f[0] not in ('eq', 'lt'): continue
        if any(mentions(f, lambda x, t=t: x == t) for t in sizes) and not (f[0] == 'eq' and st.facts[f] is False): 
            if f[0] == 'lt' and isc(f[1]) or f[0] == 'lt' and isc(f[2]): continue
            if f[0] == 'eq' and (isc(f[1]) or isc(f[2])): continue
            if all(sub[0] != 'bin' for sub in f[1:]) and any(mentions(f, lambda x: x == n) for _ in '1'): return None
            if f[0] == 'eq' and any(w[0] == 'sym' and w != n for w in f[1:]): continue      # equal to something unrelated
            return None
    return False

# ------------------------------------------------------------------ the binding
def load(c, w):
    P = lambda f: os.path.join(REPO, f)
    m = Module(P(FILE)); it = pyabs.Interp(w); w.where = 'module'
    it.load(m)
    cls = [it.objs[v[1]] for v in m.env.values() if v[0] == 'class']
    return it, m, cls
def methods(cls): return {n: cls.ns[n] for n in cls.ns if cls.ns[n][0] == 'func'}
def params(it, f): return [a.arg for a in it.objs[f[1]].node.args.args][1:]

def entry(it, cls, heap, ghost):
    st = pyabs.State(); k = it.new_obj(st, cls); st.heap[k] = dict(heap); st.ghost = dict(ghost)
    return st, T('obj', k)
def run(it, w, cls, name, heap, ghost, quiet=False, args=None):
    st, o = entry(it, cls, heap, ghost)
    f = cls.ns[name]; ps = params(it, f)
    if it.objs[f[1]].kind == 'staticmethod': return [], ps
    vals = args if args is not None else tuple(T('sym', 'arg ' + p) for p in ps)
    w.where = '%s.%s' % (cls.name, name); old, w.quiet = w.quiet, quiet
    try: return [(q, v, q.heap[o[1]]) for q, v in it.call(st, T('bound', o, f), vals, {})], ps
    finally: w.quiet = old
N = T('sym', 'rust.n'); CTX = T('ctx', 1)
LIVE = {'ctx': 'live', 'n': N}
FALLIBLE = ('bb_alloc', 'bb_refresh_data', 'bb_set_feature_data', 'bb_set_config_field', 'bb_train', 'bb_predict')

def check(c):
    from props import c01, c02
    for name in c02.ENTRY:          # the other side of the interface: what each argument means and which value reports a failure
        c.guard(name, lambda: c02.one(c, name)); c.guard(name + '/boundary', lambda: c01.boundary(c, c.fn('^bitboost::c_api::%s$' % name)))
    ex = exports(c); nb = None
    f = ex.get('bb_get_numt_nbytes')
    if f:
        r = c.run(f[2], [])['ret']
        if r is not None and r.op == 'i': nb = r.args[0]
    if nb is None: return c.ob('numt', UNDET, 'bb_get_numt_nbytes', 'its result is not a constant', BYTES)
    w = World(c, ex, nb)
    c.guard('numt', lambda: c.ob('numt', PROVED if nb == size_of(ex) else VIOLATED, f[2]['name'], 'reports %d bytes, arrays have elements of %d' % (nb, size_of(ex)), BYTES))
    try: it, m, clss = load(c, w)
    except SyntaxError as e: return c.ob('module', VIOLATED, '%s:%s' % (FILE, e.lineno), 'does not parse', 'syntax')
    except (pyabs.Unknown, IndexError, KeyError, RecursionError, AttributeError) as e: return c.ob('module', UNDET, FILE, 'not followed: %r' % e, PATHS)
    main = [k for k in clss if any(used(it, k, ex))]
    if not main: return c.ob('module', UNDET, FILE, 'no class using the library found', PATHS)
    k = main[0]
    it.decl = {n: d for n, d in it.decl.items()}
    for name, fn in sorted(methods(k).items()): guard(c, 'method/' + name, lambda: None)
    guard(c, 'init', lambda: binding(c, w, it, k, ex))
    guard(c, 'estimator', lambda: estimator(c, w, it, m, k, ex))
def guard(c, key, f):
    try: return f()
    except pyabs.Unknown as e: c.ob(key, UNDET, FILE, 'not followed: %s' % e, PATHS)
    except (RecursionError, IndexError, KeyError, AttributeError, TypeError, ValueError) as e:
        if os.environ.get('VERIF_DEBUG'): raise
        c.ob(key, UNDET, FILE, 'analysis error %r' % e, PATHS)
def size_of(ex):
    for ps, r, f in ex.values():
        for p in ps:
            if p in ('ptr:f32', 'ptr:f64'): return 4 if p == 'ptr:f32' else 8
    return None
def used(it, k, ex):
    for v in k.ns.values():
        if v[0] == 'foreign': yield v
        if v[0] == 'func':
            for n in ast.walk(it.objs[v[1]].node):
                if isinstance(n, ast.Attribute) and n.attr in ex: yield n
def declarations(c, it, ex):
    for n in sorted(it.decl):
        d = it.decl[n]; w = '%s %s' % (FILE, n)
        if n not in ex:
            if n.startswith('__') or n in ('_name', '_handle'): continue
            c.ob('declared/' + n, VIOLATED, w, 'the library exports no such function', BYTES); continue
        ps, ret, f = ex[n]
        at = d.get('argtypes')
        if at is None: c.ob('declared/%s/arguments' % n, PROVED if not any(p.startswith('ptr') or p in ('f32', 'f64', 'i64', 'u64') for p in ps) else UNDET, w, 'no argument kinds declared', BYTES)
        elif at[0] not in ('list', 'tuple'): c.ob('declared/%s/arguments' % n, UNDET, w, 'not a list of kinds', BYTES)
        else:
            qs = [cname(x) for x in at[1:]]
            rs = [agree(q, p) for q, p in zip(qs, ps)]
            bad = len(qs) != len(ps) or False in rs
            c.ob('declared/%s/arguments' % n, VIOLATED if bad else UNDET if None in rs else PROVED, w, 'declared (%s), exported (%s)' % (', '.join(map(str, qs)), ', '.join(ps)), BYTES)
        rt = d.get('restype', T('ctype', 'i32'))
        q = 'i32' if rt[0] in ('func', 'bound') else cname(rt)
        if q == 'none' and ret == 'i32': r = True        # failures are lost, which the paths show
        elif ret.startswith('ptr:'): r = None if q is None else q.startswith('ptr:') and q != 'ptr:i8'
        else: r = agree(q, ret)
        c.ob('declared/%s/result' % n, PROVED if r else UNDET if r is None else VIOLATED, w, 'declared %s, exported %s' % (q, ret), BYTES)

def binding(c, w, it, k, ex):
    ms = methods(k); fun = [n for n in sorted(ms) if it.objs[ms[n][1]].kind == 'plain']
    public = [n for n in fun if not n.startswith('_') or n == '__del__']
    if '__init__' not in ms: return c.ob('init', UNDET, FILE, 'no constructor', PATHS)
    outs, ps = run(it, w, k, '__init__', {}, {'ctx': None, 'n': None})
    declarations(c, it, ex)
    good = [(q, v, h) for q, v, h in outs if v[0] != 'RAISE' and q.ghost.get('ctx') == 'live']
    failures(c, k, '__init__', outs)
    if not good: return c.ob('init', VIOLATED, '%s %s.__init__' % (FILE, k.name), 'no path creates a context', PATHS)
    ev = [e for e in good[0][0].events if e[0] == 'bb_alloc']
    c.ob('init/nfeatures', PROVED if ev and strip(ev[0][1][0]) == T('sym', 'arg ' + ps[0]) else VIOLATED if ev and simple(ev[0][1][0]) else UNDET, '%s %s.__init__' % (FILE, k.name), 'context for %s features' % (ev[0][1][0][-1:],), PATHS)
    h0 = good[0][2]
    ctxs = [a for a, v in h0.items() if unbox(v) == CTX]
    nfs = [a for a, v in h0.items() if strip(v) == T('sym', 'arg ' + ps[0])]
    if not ctxs: return c.ob('init', UNDET, FILE, 'the context is not kept in an attribute', PATHS)
    NF = T('sym', 'nfeatures')
    base = {a: h0[a] for a in ctxs}; base.update({a: NF for a in nfs})
    for n in fun:
        for a in stores(it, ms[n]):
            if n != '__init__': w.stored.setdefault(a, set()).add(n)
    attrs = sorted({a for n in fun for a in stores(it, ms[n])} - set(ctxs) - set(nfs))
    for n in public:
        for a in stores(it, ms[n]):
            if a in nfs and n != '__init__': raise pyabs.Unknown('number of features changes')
    # which attributes equal the number of examples the library holds, whatever was called before
    def fix(strict):
        cand = set(attrs)
        while True:
            heap = dict(base); heap.update({a: N for a in cand}); bad = set()
            for n in public:
                for q, v, h in run(it, w, k, n, heap, LIVE, quiet=True)[0]:
                    if q.ghost.get('ctx') != 'live' or q.ghost.get('n') is None: continue
                    if v[0] == 'RAISE' and not strict: continue
                    for a in cand:
                        if not equal(q, strip(h.get(a, N)), strip(q.ghost['n'])): bad.add(a)
            if not bad: return cand, heap
            cand -= bad
    cand, heap = fix(True); loose = None
    w.found.clear()
    results = {n: run(it, w, k, n, heap, LIVE) for n in public}
    if any('/length' in x and v[0] == VIOLATED for x, v in w.found.items()):
        c2, heap2 = fix(False)
        if c2 != cand:
            keep = dict(w.found); w.found.clear()
            for n in public: run(it, w, k, n, heap2, LIVE)
            for x, v in keep.items():
                if '/length' in x and v[0] == VIOLATED and w.found.get(x, (VIOLATED,))[0] != VIOLATED: keep[x] = (UNDET, v[1], v[2] + ' (after a failed call only)', v[3])
            w.found = keep
    for n in public:
        outs, ps = results[n]
        calls = any(q.events for q, _, _ in outs)
        failures(c, k, n, outs)
        if calls:
            ok = [1 for q, v, h in outs if v[0] != 'RAISE' and q.events and all(e[2] == 'ok' for e in q.events)]
            c.ob('works/' + n, PROVED if ok else VIOLATED, '%s %s.%s' % (FILE, k.name, n), '' if ok else 'no path on which every library call succeeds returns', PATHS)
    for x, (s, where, detail, rule) in sorted(w.found.items()): c.ob(x, s, where, detail, rule)
    roles(c, it, k, results, NF, heap)
    released(c, w, it, k, public, heap)
    c.extra_binding = (heap, ctxs, cand)
def unbox(v): return v[2] if v[0] == 'box' else v
def strip(v):
    while v[0] in ('box', 'int'): v = v[2] if v[0] == 'box' else v[1]
    return v
def simple(v): return strip(v)[0] in ('sym', 'const')
def stores(it, f):
    return {n.attr for n in ast.walk(it.objs[f[1]].node) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == 'self'}
def failures(c, k, n, outs):
    seen = {}
    for q, v, h in outs:
        for e in q.events:
            if e[0] not in FALLIBLE: continue
            s = seen.setdefault((e[0], e[4]), True)
            if e[2] == 'failed' and v[0] != 'RAISE': seen[e[0], e[4]] = False
    for i, ((f, line), good) in enumerate(sorted(seen.items())):
        c.ob('failure/%s/%s/%d' % (n, f, i), PROVED if good else VIOLATED, '%s:%s %s.%s' % (FILE, line, k.name, n), '' if good else 'returns normally although %s reported a failure' % f, 'failed call on every path')
def root(v):
    while v[0] in ('arr', 'cptr', 'address', 'box'):
        v = v[5] if v[0] == 'arr' else v[2] if v[0] == 'box' else v[1]
        if v is None: return None
    return v
def shifted(a):
    """what a constant is added to or taken from"""
    if a[0] == 'bin' and a[1] in ('Add', 'Sub'):
        for x, y in ((a[2], a[3]), (a[3], a[2])):
            if isc(y) and cv(y): return strip(x)
def flagged(q, flag, cond):
    """True: the flag says what the condition says on this path; None: cannot tell"""
    f = strip(flag)
    if f == cond or f[0] == 'asbool' and f[1] == cond: return True
    v = q.facts.get(cond)
    if isc(f) and v is not None: return bool(cv(f)) == v
    if isc(f) and v is None:
        return False if not any(mentions(x, lambda y: y == cond) for x in q.facts) else None
    return None
def roles(c, it, k, results, NF, heap):
    """which argument of the method ends up as which argument of the library"""
    W = lambda n: '%s %s.%s' % (FILE, k.name, n)
    def verdict(key, n, vals, what):
        vals = list(vals)
        if not vals: return c.ob(key, UNDET, W(n), 'no such call found', PATHS)
        c.ob(key, VIOLATED if False in vals else UNDET if None in vals else PROVED, W(n), what, PATHS)
    def same(a, b, known=True):
        a = strip(a)
        return True if a == b else False if a[0] in ('sym', 'const') or shifted(a) == b else None
    def normal(n): return [(q, v, h) for q, v, h in results[n][0] if v[0] != 'RAISE' and all(e[2] == 'ok' for e in q.events)]
    def only(n, f): return [(q, [e for e in q.events if e[0] == f]) for q, v, h in normal(n)]
    if 'set_feature_data' in results:
        n = 'set_feature_data'; ps = results[n][1]; A = [T('sym', 'arg ' + p) for p in ps]
        es = only(n, 'bb_set_feature_data')
        verdict('roles/%s/once' % n, n, [len(e) == 1 for q, e in es], 'the feature is set once')
        es = [(q, e[0][1]) for q, e in es if len(e) == 1]
        verdict('roles/%s/index' % n, n, [same(a[1], A[0]) for q, a in es], 'feature index')
        verdict('roles/%s/data' % n, n, [True if root(a[2]) == A[1] else False if root(a[2]) is not None and root(a[2])[0] in ('sym', 'new') else None for q, a in es], 'column')
        verdict('roles/%s/categorical' % n, n, [flagged(q, a[3], A[2]) for q, a in es], 'categorical flag')
    if 'set_data' in results:
        n = 'set_data'; ps = results[n][1]; X = T('sym', 'arg ' + ps[0]); cats = T('sym', 'arg ' + ps[1])
        def dataroot(v): return v == X
        rs = [(q, e) for q, e in only(n, 'bb_refresh_data')]
        verdict('roles/%s/refresh' % n, n, [len(e) == 1 for q, e in rs], 'one refresh')
        size = T('index', T('attr', X, 'shape'), C(0))
        def nrows(t):
            t = strip(t)
            if t == size: return True
            if t[0] == 'index' and t[1][0] == 'attr' and t[1][2] == 'shape' and isc(t[2]): return cv(t[2]) in (0, -2) if root(t[1][1]) == X else None
            return False if t[0] in ('sym', 'const') else None
        verdict('roles/%s/nexamples' % n, n, [True if nrows(e[0][1][1]) else nrows(e[0][1][1]) for q, e in rs if e], 'number of examples')
        es = [(q, e) for q, e in only(n, 'bb_set_feature_data')]
        full = [(q, e) for q, e in es if e]
        def col(q, a):
            r = root(a[2]); i = strip(a[1])
            if r is None or r[0] != 'column' or root(r[1]) != X: return False if r is not None and (r[0] in ('sym', 'row') or r[0] == 'column' and r[1] != X and False) else None
            if r[2] == i: return True
            return False if simple(r[2]) or r[2][0] == 'bin' else None
        verdict('roles/%s/column' % n, n, [col(q, e[-1][1]) for q, e in full], 'column j is given as feature j')
        verdict('roles/%s/categorical' % n, n, [flagged(q, e[-1][1][3], T('in', strip(e[-1][1][1]), cats)) for q, e in full], 'categorical exactly when its index is listed')
        def all_of(q, e):
            if q.ghost.get('break'): return None
            i = strip(e[-1][1][1])
            for x, lo, hi, step in q.ghost.get('loops', ()):
                if x == i:
                    hi_ok = hi == NF or equal(q, hi, NF) or hi == T('index', T('attr', X, 'shape'), C(1))
                    return lo == C(0) and step == C(1) and hi_ok if (isc(lo) and isc(step) and (hi_ok or hi[0] in ('sym', 'const', 'bin'))) else None
            return False if isc(i) else None
        verdict('roles/%s/all' % n, n, [all_of(q, e) for q, e in full], 'every feature is set')
        part = [q for q, e in es if e and len(e) == 1] ; skipped = [q for q, e in es if not e and not q.ghost.get('empty')]
        if skipped: c.ob('roles/%s/skipped' % n, VIOLATED, W(n), 'a feature is skipped', PATHS)
    if 'set_target' in results:
        n = 'set_target'; Y = T('sym', 'arg ' + results[n][1][0])
        es = only(n, 'bb_set_feature_data')
        verdict('roles/%s/once' % n, n, [len(e) == 1 for q, e in es], 'the target is set once')
        es = [(q, e[0][1]) for q, e in es if len(e) == 1]
        verdict('roles/%s/index' % n, n, [True if equal(q, strip(a[1]), NF) else same(a[1], NF) for q, a in es], 'index of the target')
        verdict('roles/%s/data' % n, n, [True if root(a[2]) == Y else False if root(a[2]) is not None and root(a[2])[0] in ('sym', 'new') else None for q, a in es], 'target values')
        verdict('roles/%s/categorical' % n, n, [(not cv(strip(a[3]))) if isc(strip(a[3])) else None for q, a in es], 'the target is numerical')
    if 'set_config_field' in results:
        n = 'set_config_field'; ps = results[n][1]; nm, vl = [T('sym', 'arg ' + p) for p in ps[:2]]
        es = only(n, 'bb_set_config_field')
        verdict('roles/%s/once' % n, n, [len(e) == 1 for q, e in es], 'the option is set once')
        es = [(q, e[0][1]) for q, e in es if len(e) == 1]
        has = lambda v, s: s in it.symbols(v)
        verdict('roles/%s/name' % n, n, [has(a[1], nm) and not has(a[1], vl) for q, a in es], 'option name')
        verdict('roles/%s/value' % n, n, [has(a[2], vl) for q, a in es], 'option value')
        def consts(v):
            if not isinstance(v, tuple): return
            if v and v[0] == 'const': yield v[2]; return
            for x in v: yield from consts(x)
        odd = {str(x) for q, a in es for v in a[1:3] for x in consts(v) if isinstance(x, str) and x.lower().replace('-', '').replace('_', '') not in ('utf8', 'ascii') and x.strip() not in (',',)}
        c.ob('roles/%s/text' % n, PROVED if not odd else UNDET if not any(len(x) <= 2 or x.lower().startswith(('utf', 'latin')) for x in odd) else VIOLATED, W(n), 'encoding utf-8, lists separated by commas' + (', found %s' % sorted(odd) if odd else ''), PATHS)
    for n, f in (('train', 'bb_train'), ('predict', 'bb_predict'), ('dealloc', 'bb_dealloc')):
        if n in results: verdict('roles/%s/once' % n, n, [len(e) == 1 for q, e in only(n, f)], 'one library call')
    if 'predict' in results:
        vs = []
        for q, v, h in normal('predict'):
            e = [e for e in q.events if e[0] == 'bb_predict']
            if len(e) != 1: continue
            a, b = root(e[0][1][1]), root(v)
            vs.append(False if v[0] in ('cptr', 'address', 'box') else True if a == b else False if b is not None and b[0] in ('new', 'const', 'sym') and a is not None and a[0] == 'new' or v[0] == 'const' else None)
        verdict('roles/predict/result', 'predict', vs, 'returns the array the library filled')
    cf = 'set_config'
    if cf in results:
        vs = []
        for q, v, h in normal(cf):
            e = [e for e in q.events if e[0] == 'bb_set_config_field']
            if e: vs.append(None if q.ghost.get('break') else True)
            elif not q.ghost.get('empty'): vs.append(False)
        if vs and set(vs) == {None}: vs = [False]
        verdict('roles/set_config/all', cf, vs, 'every option is passed on')
def released(c, w, it, k, public, heap):
    """after a release every method raises or leaves the context alone"""
    n0 = len(c.obs); w.found.clear(); ends = []
    for n in public:
        for q, v, h in run(it, w, k, n, heap, LIVE, quiet=True)[0]:
            if q.ghost.get('ctx') == 'freed' and (tuple(sorted(h.items())), q.ghost['n']) not in [x[1] for x in ends]: ends.append((n, (tuple(sorted(h.items())), q.ghost['n'])))
    if not ends: return c.ob('released', VIOLATED, FILE, 'nothing releases the context', PATHS)
    for n, (h, g) in ends[:6]:
        for m in public: run(it, w, k, m, dict(h), {'ctx': 'freed', 'n': g})
    bad = {x: v for x, v in w.found.items() if x.endswith('/released')}
    for x, (s, where, detail, rule) in sorted(bad.items()): c.ob('released/' + x, s, where, detail, rule)
    if not bad: c.ob('released', PROVED, FILE, '%d methods after %d ways to release' % (len(public), len(ends)), PATHS)
    outs = run(it, w, k, '__del__', heap, LIVE, quiet=True)[0] if '__del__' in public else []
    ok = bool(outs) and all(q.ghost.get('ctx') == 'freed' for q, v, h in outs)
    c.ob('released/at-the-end', PROVED if ok else VIOLATED if not any(q.ghost.get('ctx') == 'freed' for q, v, h in outs) else UNDET, '%s %s.__del__' % (FILE, k.name), 'a context is released when its owner goes', PATHS)

def estimator(c, w, it, m, k, ex):
    """fit and predict of the estimator: order of the library calls on the paths that succeed"""
    p = os.path.join(REPO, SK)
    if not os.path.exists(p): return
    heap, ctxs, cand = c.extra_binding
    sk = Module(p, {'bitboost': m}); it.steps = 0; w.where = 'estimator'; w.quiet = True
    it.load(sk)
    es = [it.objs[v[1]] for v in sk.env.values() if v[0] == 'class' and it.objs[v[1]].mod is sk]
    es = [e for e in es if 'fit' in e.ns and 'predict' in e.ns]
    if not es: return c.ob('estimator', UNDET, SK, 'no estimator found', PATHS)
    e = es[0]; it.steps = 0
    outs, ps = run(it, w, e, 'fit', {}, {'ctx': None, 'n': None, 'strict': True}, quiet=True)
    good = [(q, h) for q, v, h in outs if v[0] != 'RAISE' and all(x[2] == 'ok' for x in q.events)]
    if not good: return c.ob('estimator/fit', VIOLATED if outs else UNDET, SK + ' fit', 'no path succeeds', PATHS)
    bad = []; full = False
    if not any(x[0] == 'bb_set_config_field' for q, h in good for x in q.events): bad.append('no options on the paths that succeed')
    for q, h in good:
        names = [x[0] for x in q.events]; want = ['bb_alloc', 'bb_refresh_data', 'bb_set_feature_data', 'bb_train']
        order = [x for i, x in enumerate(names) if x != 'bb_set_config_field' and (i == 0 or names[i - 1] != x)]
        tgt = [x for x in q.events if x[0] == 'bb_set_feature_data']
        if order == want: full = True
        else: bad.append(' '.join(names))
        X = T('sym', 'arg ' + ps[0]); y = T('sym', 'arg ' + ps[1])
        if tgt and root(tgt[-1][1][2]) != y: bad.append('the target is not set last')
    c.ob('estimator/fit', PROVED if full and not bad else VIOLATED if bad else UNDET, SK + ' fit', 'context, options, data, target, training' + ('; found ' + bad[0] if bad else ''), PATHS)
    q, h = good[-1]
    own = {a: v for a, v in h.items()}; objs = [v[1] for v in own.values() if v[0] == 'obj' and it.objs.get(v[1]) is k]
    if not objs: return c.ob('estimator/predict', UNDET, SK + ' fit', 'the model is not kept', PATHS)
    st, o = entry(it, e, own, dict(LIVE)); 
    for b in objs: st.heap[b] = dict(heap)
    it.steps = 0
    outs = it.call(st, T('bound', o, e.ns['predict']), (T('sym', 'arg X'),), {})
    good = [(q, v) for q, v in outs if v[0] != 'RAISE' and all(x[2] == 'ok' for x in q.events)]
    bad = []
    for q, v in good:
        names = [x[0] for x in q.events]; order = [x for i, x in enumerate(names) if i == 0 or names[i - 1] != x]
        if order not in (['bb_refresh_data', 'bb_set_feature_data', 'bb_predict'], ['bb_refresh_data', 'bb_predict']): bad.append(' '.join(names))
        else:
            a = [x for x in q.events if x[0] == 'bb_predict'][-1]
            if root(v) != root(a[1][1]): bad.append('another value is returned')
    c.ob('estimator/predict', PROVED if good and not bad else VIOLATED if bad or outs and not good else UNDET, SK + ' predict', 'data, then predictions' + ('; found ' + bad[0] if bad else ''), PATHS)
