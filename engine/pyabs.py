"""Abstract execution of the Python binding from its syntax tree: every path of a method is followed with symbolic arguments
(loops over unknown sequences: an arbitrary round from an arbitrary state), recording the foreign calls made on it."""
import ast, copy

class Unknown(Exception): pass          # a construct the analysis does not follow: nothing is decided

# ------------------------------------------------------------------ values: hashable tuples
def C(v): return ('const', type(v).__name__, v)
def S(op, *a): return (op,) + a
NONE, TRUE, FALSE = C(None), C(True), C(False)
def isc(v): return v[0] == 'const'
def cv(v): return v[2]
CTYPES = {'c_int': 'i32', 'c_int32': 'i32', 'c_uint': 'u32', 'c_uint32': 'u32', 'c_long': 'i64', 'c_longlong': 'i64', 'c_int64': 'i64', 'c_ssize_t': 'i64', 'c_ulong': 'u64',
          'c_ulonglong': 'u64', 'c_uint64': 'u64', 'c_size_t': 'u64', 'c_short': 'i16', 'c_int16': 'i16', 'c_ushort': 'u16', 'c_uint16': 'u16', 'c_byte': 'i8', 'c_int8': 'i8', 'c_char': 'char', 'c_ubyte': 'u8', 'c_uint8': 'u8',
          'c_bool': 'bool', 'c_float': 'f32', 'c_double': 'f64', 'c_void_p': 'void*', 'c_char_p': 'char*', 'c_wchar_p': 'wchar*', 'py_object': 'object'}
NPTYPES = {'float32': 'f32', 'single': 'f32', 'float64': 'f64', 'double': 'f64', 'f4': 'f32', '<f4': 'f32', 'f': 'f32', 'f8': 'f64', 'd': 'f64', 'int32': 'i32', 'intc': 'i32', 'int64': 'i64', 'uint8': 'u8', 'float16': 'f16', 'bool_': 'bool'}
def dtype(v):
    """scalar type a dtype expression denotes, or None"""
    if v[0] == 'ctype': return v[1]
    if v[0] == 'np' and v[1] in NPTYPES: return NPTYPES[v[1]]
    if isc(v) and isinstance(cv(v), str): return NPTYPES.get(cv(v))
    if v[0] == 'builtin' and v[1] == 'float': return 'f64'
    if v[0] == 'builtin' and v[1] == 'int': return 'i64'
    if v[0] == 'npdtype': return v[1]
    return None

class State:
    def __init__(s): s.env = [{}]; s.heap = {}; s.facts = {}; s.events = []; s.ghost = {}; s.fresh = 0; s.attrs = {}
    def copy(s):
        t = State(); t.env = [dict(e) for e in s.env]; t.heap = {k: dict(v) for k, v in s.heap.items()}; t.facts = dict(s.facts)
        t.events = list(s.events); t.ghost = dict(s.ghost); t.fresh = s.fresh; t.attrs = dict(s.attrs); return t
    def sym(s, name): s.fresh += 1; return S('sym', '%s#%d' % (name, s.fresh))

class Module:
    def __init__(self, path, loader=None):
        self.path = path; self.src = open(path).read(); self.tree = ast.parse(self.src); self.env = {}; self.loader = loader or {}
class ClassDef:
    def __init__(self, name, node, mod): self.name = name; self.node = node; self.mod = mod; self.ns = {}; self.bases = []
class Func:
    def __init__(self, node, mod, closure=None, name=None): self.node = node; self.mod = mod; self.closure = closure; self.name = name or getattr(node, 'name', '<lambda>'); self.kind = 'plain'

class Interp:
    """outcomes of statements: ('next',), ('return', v), ('raise', what), ('break',), ('continue',)"""
    LIMIT = 6000
    def __init__(self, foreign): self.foreign = foreign; self.steps = 0; self.objs = {}; self.decl = {}; self.depth = 0; self.nobj = 0; self.const = {}; self.made = {}
    def tick(self):
        self.steps += 1
        if self.steps > 60000: raise Unknown('too many steps')
    def reg(self, o):
        self.nobj += 1; k = '%s@%d' % (type(o).__name__, self.nobj); self.objs[k] = o; return k
    # -------------------------------------------------------------- modules
    def load(self, mod):
        """executes a module body (one path)"""
        st = State(); st.env = [mod.env]
        for stmt in mod.tree.body:
            try: rs = self.stmt(st, stmt, mod)
            except Unknown: 
                for t in ast.walk(stmt):
                    if isinstance(t, ast.Name) and isinstance(t.ctx, ast.Store): mod.env[t.id] = S('sym', 'global ' + t.id)
                continue
            rs = [r for r in rs if r[1][0] != 'raise'] or rs
            st = self.merge(rs); mod.env.update(st.env[0]); st.env[0] = mod.env
        mod.heap = st.heap; mod.attrs = st.attrs
        return st
    def merge(self, rs):
        """one state for several paths: names bound differently become unknown"""
        a = rs[0][0]
        for q, _ in rs[1:]:
            for n in set(a.env[-1]) | set(q.env[-1]):
                if a.env[-1].get(n) != q.env[-1].get(n): a.env[-1][n] = S('sym', 'global ' + n)
        if len(rs) > 1: a.facts = {}
        return a
    # -------------------------------------------------------------- statements
    def block(self, st, body, mod):
        outs = []; live = [st]
        for s in body:
            nxt = []
            for q in live:
                for r, o in self.stmt(q, s, mod):
                    (nxt if o[0] == 'next' else outs).append(r if o[0] == 'next' else (r, o))
            live = nxt
            if len(live) + len(outs) > self.LIMIT: raise Unknown('too many paths')
        return [(q, ('next',)) for q in live] + outs
    def stmt(self, st, s, mod):
        self.tick(); t = type(s).__name__
        m = getattr(self, 's_' + t, None)
        if m is None: raise Unknown('statement %s line %d' % (t, s.lineno))
        return m(st, s, mod)
    def over(self, st, e, mod, k):
        """evaluate e on all paths, then k(state, value)"""
        out = []
        for q, v in self.ev(st, e, mod):
            if v[0] == 'RAISE': out.append((q, ('raise', v[1])))
            else: out += k(q, v)
        return out
    def s_Expr(self, st, s, mod): return self.over(st, s.value, mod, lambda q, v: [(q, ('next',))])
    def s_Pass(self, st, s, mod): return [(st, ('next',))]
    def s_Global(self, st, s, mod): return [(st, ('next',))]
    def s_Break(self, st, s, mod): return [(st, ('break',))]
    def s_Continue(self, st, s, mod): return [(st, ('continue',))]
    def s_Return(self, st, s, mod):
        if s.value is None: return [(st, ('return', NONE))]
        return self.over(st, s.value, mod, lambda q, v: [(q, ('return', v))])
    def s_Raise(self, st, s, mod):
        if s.exc is None: return [(st, ('raise', 'reraise'))]
        return self.over(st, s.exc, mod, lambda q, v: [(q, ('raise', v))])
    def s_Assert(self, st, s, mod):
        return [(q, ('next',) if b else ('raise', 'AssertionError')) if not isinstance(b, tuple) else (q, ('raise', b[1])) for q, b in self.truth(st, s.test, mod)]
    def s_If(self, st, s, mod):
        out = []
        for q, b in self.truth(st, s.test, mod):
            if isinstance(b, tuple): out.append((q, ('raise', b[1])))
            else: out += self.block(q, s.body if b else s.orelse, mod)
        return out
    def s_Assign(self, st, s, mod):
        def k(q, v):
            qs = [q]
            for t in s.targets: qs = [z for y in qs for z in self.assign(y, t, v, mod)]
            return [(z, ('next',)) for z in qs]
        return self.over(st, s.value, mod, k)
    def s_AnnAssign(self, st, s, mod):
        if s.value is None: return [(st, ('next',))]
        return self.over(st, s.value, mod, lambda q, v: [(z, ('next',)) for z in self.assign(q, s.target, v, mod)])
    def s_AugAssign(self, st, s, mod):
        load = copy.copy(s.target); load.ctx = ast.Load()
        e = ast.copy_location(ast.BinOp(load, s.op, s.value), s)
        return self.over(st, e, mod, lambda q, v: [(z, ('next',)) for z in self.assign(q, s.target, v, mod)])
    def s_Delete(self, st, s, mod):
        for t in s.targets:
            if isinstance(t, ast.Name): st.env[-1].pop(t.id, None)
            else: raise Unknown('del')
        return [(st, ('next',))]
    def s_FunctionDef(self, st, s, mod):
        closure = dict(st.env[-1]) if len(st.env) > 1 and '__class__' not in st.env[-1] else None
        for cl, k in self.made.get(id(s), ()):
            if cl == closure: st.env[-1][s.name] = S('func', k); return [(st, ('next',))]
        f = Func(s, mod, closure=closure)
        v = S('func', self.reg(f)); self.made.setdefault(id(s), []).append((closure, v[1]))
        for d in s.decorator_list:
            if isinstance(d, ast.Name) and d.id in ('staticmethod', 'classmethod', 'property'): f.kind = d.id
            else: raise Unknown('decorator')
        st.env[-1][s.name] = v; return [(st, ('next',))]
    def s_ClassDef(self, st, s, mod):
        c = ClassDef(s.name, s, mod); v = S('class', self.reg(c))
        for b in s.bases:
            for q, x in self.ev(st, b, mod):
                if x[0] == 'class': c.bases.append(self.objs[x[1]])
                break
        st.env.append({'__class__': v}); rs = [(st, ('next',))]
        rs = self.block(st, s.body, mod)
        rs = [r for r in rs if r[1][0] == 'next']
        if not rs: raise Unknown('class body')
        st2 = self.merge(rs); c.ns = st2.env.pop(); c.ns.pop('__class__', None); st2.env[-1][s.name] = v
        st.__dict__.update(st2.__dict__)
        return [(st, ('next',))]
    def s_Import(self, st, s, mod):
        for a in s.names: st.env[-1][a.asname or a.name.split('.')[0]] = S('module', a.name if a.asname else a.name.split('.')[0])
        return [(st, ('next',))]
    def s_ImportFrom(self, st, s, mod):
        m = self.objs_mod(s, mod)
        for a in s.names:
            if a.name == '*':
                if s.module == 'ctypes': st.env[-1].update({n: v for n, v in CTYPES_NS.items()})
                elif m: st.env[-1].update(m.env)
                else: raise Unknown('import *')
            elif m: st.env[-1][a.asname or a.name] = m.env.get(a.name, S('sym', 'import ' + a.name))
            elif s.module == 'ctypes': st.env[-1][a.asname or a.name] = CTYPES_NS.get(a.name, S('ext', 'ctypes.' + a.name))
            elif s.module == 'numpy': st.env[-1][a.asname or a.name] = S('np', a.name)
            else: st.env[-1][a.asname or a.name] = S('ext', '%s.%s' % (s.module, a.name))
        return [(st, ('next',))]
    def objs_mod(self, s, mod):
        return mod.loader.get(s.module) if s.level or s.module in mod.loader else None
    def s_Try(self, st, s, mod):
        out = []
        for q, o in self.block(st, s.body, mod):
            if o[0] == 'raise':
                hs = s.handlers
                if not hs: out.append((q, o)); continue
                sure = False
                for h in hs:
                    nm = h.type.id if isinstance(h.type, ast.Name) else None
                    mine = self.catches(nm, o[1], h.type is None)
                    if mine is False: continue
                    q2 = q.copy()
                    if h.name: q2.env[-1][h.name] = S('sym', 'exception')
                    for r, o2 in self.block(q2, h.body, mod): out.append((r, o if o2 == ('raise', 'reraise') else o2))
                    if mine is True: sure = True; break
                if not sure: out.append((q, o))
            elif o[0] == 'next': out += self.block(q, s.orelse, mod)
            else: out.append((q, o))
        if not s.finalbody: return out
        res = []
        for q, o in out:
            for r, o2 in self.block(q, s.finalbody, mod): res.append((r, o if o2[0] == 'next' else o2))
        return res
    def catches(self, nm, exc, bare):
        if bare or nm in ('Exception', 'BaseException'): return True
        n = exc if isinstance(exc, str) else exc[1][1] if exc[0] == 'exc' and exc[1][0] == 'builtin' else None
        if n is None: return None
        if n == nm: return True
        return False if nm in ('AssertionError', 'ValueError', 'TypeError', 'KeyError', 'IndexError', 'RuntimeError', 'AttributeError', 'OSError', 'MemoryError') and n in ('AssertionError', 'ValueError', 'TypeError', 'Exception', 'RuntimeError', 'KeyError', 'MemoryError') else None
    def s_With(self, st, s, mod):
        qs = [(st, ('next',))]
        for it in s.items:
            n = []
            for q, o in qs:
                if o[0] != 'next': n.append((q, o)); continue
                for r, v in self.ev(q, it.context_expr, mod):
                    if it.optional_vars is not None and v[0] != 'RAISE': n += [(z, ('next',)) for z in self.assign(r, it.optional_vars, S('enter', v), mod)]
                    else: n.append((r, ('raise', v[1]) if v[0] == 'RAISE' else ('next',)))
            qs = n
        out = []
        for q, o in qs: out += self.block(q, s.body, mod) if o[0] == 'next' else [(q, o)]
        return out
    def s_For(self, st, s, mod):
        def k(q, it):
            xs = self.elements(it, q)
            if xs is not None:
                live = [q]; out = []
                for x in xs:
                    nxt = []
                    for y in live:
                        for z in self.assign(y, s.target, x, mod):
                            for r, o in self.block(z, s.body, mod):
                                if o[0] in ('next', 'continue'): nxt.append(r)
                                elif o[0] == 'break': r.ghost['break'] = True; out.append((r, ('next',)))
                                else: out.append((r, o))
                    live = nxt
                for y in live: out += self.block(y, s.orelse, mod)
                return out
            return self.loop(q, s, mod, lambda z: self.assign(z, s.target, self.element(z, it), mod), it)
        return self.over(st, s.iter, mod, k)
    def s_While(self, st, s, mod): return self.loop(st, s, mod, None, None)
    def elements(self, it, q):
        if it[0] in ('tuple', 'list'): return list(it[1:])
        if it[0] == 'range' and all(isc(x) for x in it[1:]):
            r = range(*[cv(x) for x in it[1:]]); return [C(x) for x in r] if len(r) < 40 else None
        if it[0] == 'items' and it[1][0] == 'dict': return [S('tuple', a, b) for a, b in it[1][1:]]
        if it[0] == 'dict': return [a for a, _ in it[1:]]
        if it[0] == 'enumerate':
            xs = self.elements(it[1], q); return None if xs is None else [S('tuple', C(i), x) for i, x in enumerate(xs)]
        if it[0] == 'zip':
            xs = [self.elements(x, q) for x in it[1:]]; return None if any(x is None for x in xs) else [S('tuple', *x) for x in zip(*xs)]
        return None
    def element(self, st, it):
        """an arbitrary element"""
        if it[0] == 'range':
            x = st.sym('i'); a = it[1:]; lo, hi = (C(0), a[0]) if len(a) == 1 else (a[0], a[1])
            st.facts[S('lt', x, lo)] = False; st.facts[S('lt', x, hi)] = True
            st.ghost['loops'] = st.ghost.get('loops', ()) + ((x, lo, hi, a[2] if len(a) > 2 else C(1)),)
            return x
        if it[0] == 'enumerate':
            base = it[1]; n = self.length(base); x = st.sym('i')
            st.facts[S('lt', x, C(0))] = False
            st.ghost['loops'] = st.ghost.get('loops', ()) + ((x, C(0), n, C(1)),)
            return S('tuple', x, self.index(st, base, x))
        if it[0] == 'items': x = st.sym('key'); return S('tuple', x, S('index', it[1], x))
        if it[0] == 'zip': return S('tuple', *[self.element(st, x) for x in it[1:]])
        return st.sym('element')
    def loop(self, st, s, mod, bind, it):
        """no rounds, or an arbitrary round after arbitrary ones"""
        names = {n.id for x in s.body for n in ast.walk(x) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        out = []; entry = st.copy()
        def rounds(q):
            res = []
            qs = bind(q) if bind else [z for z, b in self.truth(q, s.test, mod) if b is True]
            for z in qs: res += self.block(z, s.body, mod)
            return res
        probe = rounds(entry.copy()); changed = set()
        for r, o in probe:
            for ob, d in r.heap.items():
                for a, v in d.items():
                    if st.heap.get(ob, {}).get(a) != v: changed.add((ob, a))
            for g, v in r.ghost.items():
                if g not in ('loops',) and st.ghost.get(g) != v: changed.add(('ghost', g))
        h = st.copy()
        for n in names:
            if n in h.env[-1]: h.env[-1][n] = h.sym('carried ' + n)
        for ob, a in changed:
            if ob == 'ghost': raise Unknown('library state changes in a loop')
            if a in h.heap.get(ob, {}): h.heap[ob][a] = h.sym('carried ' + a)
        none = st.copy()
        z = none if not changed and not names & set(none.env[-1]) else h.copy()
        if bind is None:
            for q, b in self.truth(z, s.test, mod):
                if b is False: q.ghost['empty'] = q.ghost.get('empty', ()) + (NONE,); out += self.block(q, s.orelse, mod)
        else: z.ghost['empty'] = z.ghost.get('empty', ()) + (it,); out += self.block(z, s.orelse, mod)
        for r, o in rounds(h.copy()):
            if o[0] in ('next', 'continue'):
                if bind is not None: out += self.block(r, s.orelse, mod)
                else:
                    for q, b in self.truth(r, s.test, mod):
                        if b is False: out.append((q, ('next',)))
            elif o[0] == 'break': r.ghost['break'] = True; out.append((r, ('next',)))
            else: out.append((r, o))
        return out
    # -------------------------------------------------------------- assignment
    def assign(self, st, t, v, mod):
        if isinstance(t, ast.Name): st.env[-1][t.id] = v; return [st]
        if isinstance(t, (ast.Tuple, ast.List)):
            if any(isinstance(x, ast.Starred) for x in t.elts): raise Unknown('starred')
            qs = [st]
            for i, x in enumerate(t.elts):
                w = v[1 + i] if v[0] in ('tuple', 'list') and len(v) > 1 + i else self.index(st, v, C(i))
                qs = [z for q in qs for z in self.assign(q, x, w, mod)]
            return qs
        if isinstance(t, ast.Attribute):
            out = []
            for q, o in self.ev(st, t.value, mod):
                if o[0] == 'RAISE': raise Unknown('raise in target')
                self.setattr(q, o, t.attr, v); out.append(q)
            return out
        if isinstance(t, ast.Subscript):
            for n in ast.walk(t.value):
                if isinstance(n, ast.Name) and n.id in st.env[-1] and st.env[-1][n.id][0] in ('dict', 'list'): st.env[-1][n.id] = st.sym('changed ' + n.id)
            return [st]
        raise Unknown('target')
    def setattr(self, st, o, a, v):
        if o[0] == 'foreign':
            self.decl.setdefault(o[1], {})[a] = v; return
        if o[0] == 'obj': st.heap.setdefault(o[1], {})[a] = v; return
        if o[0] == 'class': self.objs[o[1]].ns[a] = v; return
        st.attrs[(o, a)] = v
    # -------------------------------------------------------------- expressions
    def ev(self, st, e, mod):
        self.tick(); m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None: raise Unknown('expression %s line %d' % (type(e).__name__, getattr(e, 'lineno', 0)))
        return m(st, e, mod)
    def seq(self, st, es, mod, k):
        """evaluate several expressions in order, then k(state, values)"""
        acc = [(st, ())]
        done = []
        for e in es:
            n = []
            for q, vs in acc:
                for r, v in self.ev(q, e, mod):
                    if v[0] == 'RAISE': done.append((r, v))
                    else: n.append((r, vs + (v,)))
            acc = n
        return done + [x for q, vs in acc for x in k(q, vs)]
    def e_Constant(self, st, e, mod): return [(st, C(e.value))]
    def e_Name(self, st, e, mod):
        for d in (st.env[-1], mod.env):
            if e.id in d: return [(st, d[e.id])]
        cl = st.ghost.get('closure')
        for d in reversed(st.env[1:]):
            if e.id in d and d.get('__class_scope__') is None and cl: return [(st, d[e.id])]
        if e.id in BUILTINS: return [(st, S('builtin', e.id))]
        return [(st, S('sym', 'name ' + e.id))]
    def e_Tuple(self, st, e, mod): return self.seq(st, e.elts, mod, lambda q, vs: [(q, S('tuple', *vs))])
    def e_List(self, st, e, mod): return self.seq(st, e.elts, mod, lambda q, vs: [(q, S('list', *vs))])
    def e_Set(self, st, e, mod): return self.seq(st, e.elts, mod, lambda q, vs: [(q, S('set', *vs))])
    def e_Dict(self, st, e, mod):
        if any(k is None for k in e.keys): raise Unknown('**')
        return self.seq(st, list(e.keys) + list(e.values), mod, lambda q, vs: [(q, S('dict', *zip(vs[:len(e.keys)], vs[len(e.keys):])))])
    def e_JoinedStr(self, st, e, mod): return self.seq(st, [v.value for v in e.values if isinstance(v, ast.FormattedValue)], mod, lambda q, vs: [(q, S('text', *vs))])
    def e_Lambda(self, st, e, mod): return [(st, S('func', self.reg(Func(e, mod, closure=dict(st.env[-1])))))]
    def e_Starred(self, st, e, mod): return [(q, v if v[0] == 'RAISE' else S('star', v)) for q, v in self.ev(st, e.value, mod)]
    def e_IfExp(self, st, e, mod):
        out = []
        for q, b in self.truth(st, e.test, mod): out += [(q, S('RAISE', b[1]))] if isinstance(b, tuple) else self.ev(q, e.body if b else e.orelse, mod)
        return out
    def e_BoolOp(self, st, e, mod):
        out = []; isand = isinstance(e.op, ast.And)
        live = [(st, None)]
        for i, x in enumerate(e.values):
            n = []
            for q, _ in live:
                if i == len(e.values) - 1: out += self.ev(q, x, mod); continue
                for r, v in self.ev(q, x, mod):
                    if v[0] == 'RAISE': out.append((r, v)); continue
                    for z, b in self.decide(r, v):
                        if b == isand: n.append((z, None))
                        else: out.append((z, v if not isinstance(b, bool) or v[0] not in COND else C(b)))
            live = n
        return out
    def e_UnaryOp(self, st, e, mod):
        def k(q, vs):
            v = vs[0]
            if isinstance(e.op, ast.Not): return [(z, C(not b)) for z, b in self.decide(q, v)]
            if isc(v) and isinstance(cv(v), (int, float)):
                return [(q, C({'USub': lambda x: -x, 'UAdd': lambda x: +x, 'Invert': lambda x: ~x}[type(e.op).__name__](cv(v))))]
            return [(q, S('un', type(e.op).__name__, v))]
        return self.seq(st, [e.operand], mod, k)
    def e_BinOp(self, st, e, mod):
        op = type(e.op).__name__
        def k(q, vs):
            a, b = vs
            if isc(a) and isc(b):
                try:
                    f = {'Add': lambda x, y: x + y, 'Sub': lambda x, y: x - y, 'Mult': lambda x, y: x * y, 'FloorDiv': lambda x, y: x // y, 'Mod': lambda x, y: x % y, 'LShift': lambda x, y: x << y, 'BitOr': lambda x, y: x | y, 'BitAnd': lambda x, y: x & y, 'Pow': lambda x, y: x ** y}.get(op)
                    if f: return [(q, C(f(cv(a), cv(b))))]
                except Exception: pass
            if op == 'Mult' and 'ctype' in (a[0], b[0]): return [(q, S('ctarray', (a if a[0] == 'ctype' else b)[1], b if a[0] == 'ctype' else a))]
            if op == 'Add' and a[0] == b[0] and a[0] in ('tuple', 'list'): return [(q, (a[0],) + a[1:] + b[1:])]
            if op in ('Add', 'Sub') and isc(b) and cv(b) == 0: return [(q, a)]
            if op in ('Add', 'Mult') and repr(b) < repr(a): a, b = b, a
            return [(q, S('bin', op, a, b))]
        return self.seq(st, [e.left, e.right], mod, k)
    def e_Compare(self, st, e, mod):
        def k(q, vs):
            cur = [(q, True)]
            out = []
            conds = [self.cond(q, type(o).__name__, vs[i], vs[i + 1]) for i, o in enumerate(e.ops)]
            if len(conds) == 1: return [(q, conds[0])]
            for c in conds:
                n = []
                for z, _ in cur:
                    for r, b in self.decide(z, c): (n if b else out).append((r, b))
                cur = n
            return [(z, TRUE) for z, _ in cur] + [(z, FALSE) for z, _ in out]
        return self.seq(st, [e.left] + e.comparators, mod, k)
    def cond(self, st, op, a, b):
        a, b = self.plain(a), self.plain(b)
        if op in ('Is', 'IsNot'): op = 'Eq' if op == 'Is' else 'NotEq'
        if isc(a) and isc(b):
            x, y = cv(a), cv(b)
            try: return C({'Eq': lambda: x == y, 'NotEq': lambda: x != y, 'Lt': lambda: x < y, 'LtE': lambda: x <= y, 'Gt': lambda: x > y, 'GtE': lambda: x >= y, 'In': lambda: x in y, 'NotIn': lambda: x not in y}[op]())
            except TypeError: pass
        if op in ('Eq', 'NotEq'):
            r = None
            if a == b: r = TRUE
            elif dtype(a) and dtype(b): r = C(dtype(a) == dtype(b))
            elif a[0] == b[0] == 'tuple' and len(a) != len(b): r = FALSE
            elif {a, b} & {NONE} and (a if b == NONE else b)[0] in ('arr', 'obj', 'func', 'class', 'tuple', 'list', 'dict', 'ctx', 'foreign', 'const'): r = FALSE
            elif a[0] == 'ctx' and isc(b) or b[0] == 'ctx' and isc(a): r = FALSE
            if r is not None: return r if op == 'Eq' else C(not cv(r))
            if repr(b) < repr(a): a, b = b, a
            return S('eq', a, b) if op == 'Eq' else S('not', S('eq', a, b))
        if op in ('Lt', 'GtE'): r = S('lt', a, b)
        elif op in ('Gt', 'LtE'): r = S('lt', b, a)
        elif op in ('In', 'NotIn'):
            if b[0] in ('tuple', 'list', 'set') and a in b[1:]: return C(op == 'In')
            r = S('in', a, b)
        else: raise Unknown(op)
        if r[0] == 'lt' and a == b: return C(op in ('LtE', 'GtE'))
        return r if op in ('Lt', 'Gt', 'In') else S('not', r)
    def plain(self, v):
        """the integer a C scalar object holds"""
        if v[0] == 'box' and v[1] in ('i32', 'i64', 'u32', 'u64'): return v[2]
        if v[0] == 'attr' and v[2] == 'dtype': return v
        return v
    def truth(self, st, e, mod):
        out = []
        for q, v in self.ev(st, e, mod):
            if v[0] == 'RAISE': out.append((q, ('raise', v[1])))
            else: out += self.decide(q, v)
        return out
    def decide(self, st, v):
        """truth value, forking when it is not known"""
        if isc(v): return [(st, bool(cv(v)))]
        if v[0] == 'not': return [(q, not b) for q, b in self.decide(st, v[1])]
        if v[0] in ('obj', 'func', 'class', 'foreign', 'ctx', 'module', 'cptr'): return [(st, True)]
        if v[0] in ('tuple', 'list', 'dict', 'set'): return [(st, len(v) > 1)]
        if v[0] == 'box':
            return self.decide(st, v[2])
        if v[0] == 'asbool': return self.decide(st, v[1])
        k = self.known(st, v)
        if k is not None: return [(st, k)]
        a, b = st, st.copy(); a.facts = dict(a.facts); a.facts[v] = True; b.facts[v] = False
        return [(a, True), (b, False)]
    def known(self, st, v):
        if v in st.facts: return st.facts[v]
        if v[0] == 'lt':
            a, b = v[1], v[2]
            if isc(a) and isc(b): return cv(a) < cv(b)
            for f, val in st.facts.items():
                if f[0] == 'lt' and val and f[1] == b and f[2] == a: return False
                if f[0] == 'lt' and f[1] == a and val is True and isc(f[2]) and isc(b) and cv(f[2]) <= cv(b): return True
                if f[0] == 'lt' and f[1] == a and val is False and isc(f[2]) and isc(b) and cv(b) <= cv(f[2]): return False
                if f[0] == 'eq' and val is True and a in f[1:]:
                    o = f[2] if f[1] == a else f[1]
                    if isc(o) and isc(b): return cv(o) < cv(b)
            if isc(b) and a[0] in ('len',) and cv(b) <= 0: return False
        return None
    def e_Attribute(self, st, e, mod):
        return [(q, v) if v[0] == 'RAISE' else (q, w) for q, v in self.ev(st, e.value, mod) for q, w in ([(q, v)] if v[0] == 'RAISE' else self.getattr(q, v, e.attr))]
    def lookup(self, c, a):
        if a in c.ns: return c.ns[a]
        for b in c.bases:
            v = self.lookup(b, a)
            if v is not None: return v
        return None
    def getattr(self, st, o, a):
        if (o, a) in st.attrs: return [(st, st.attrs[(o, a)])]
        if o[0] == 'obj':
            d = st.heap.setdefault(o[1], {})
            if a in d: return [(st, d[a])]
            c = self.objs[o[1]]
            v = self.lookup(c, a) if isinstance(c, ClassDef) else None
            if v is not None:
                if v[0] == 'func':
                    f = self.objs[v[1]]
                    if f.kind == 'property': return self.call(st, S('bound', o, v), (), {})
                    return [(st, S('bound', o if f.kind != 'classmethod' else S('classof', o), v) if f.kind != 'staticmethod' else v)]
                return [(st, v)]
            if a == '__class__' or a == '__dict__': return [(st, S('attr', o, a))]
            if a in st.ghost.get('partial', ()): return [(st, S('RAISE', 'AttributeError'))]
            v = S('sym', 'self.' + a); return [(st, v)]
        if o[0] == 'class':
            v = self.lookup(self.objs[o[1]], a)
            return [(st, v if v is not None else S('attr', o, a))]
        if o[0] == 'module':
            if o[1] == 'ctypes': return [(st, CTYPES_NS.get(a, S('ext', 'ctypes.' + a)))]
            if o[1] == 'numpy': return [(st, S('np', a))]
            return [(st, S('ext', o[1] + '.' + a))]
        if o[0] == 'np': return [(st, S('np', o[1] + '.' + a))]
        if o[0] == 'ext': return [(st, S('ext', o[1] + '.' + a))]
        if o[0] == 'lib': return [(st, self.fn(a))]
        if o[0] == 'foreign':
            if a == '__name__': return [(st, C(o[1]))]
            return [(st, self.decl.get(o[1], {}).get(a, NONE))]
        if o[0] == 'classof' and a == '__name__': return [(st, S('text'))]
        if a == 'shape': return [(st, self.shape(o))]
        if a == 'size' and o[0] == 'arr': return [(st, o[4][1] if len(o[4]) == 2 else S('attr', o, a))]
        if a == 'dtype' and o[0] == 'arr' and o[2]: return [(st, S('npdtype', o[2]))]
        if a == 'T' : return [(st, S('transpose', o))]
        if a == 'ctypes': return [(st, S('actypes', o))]
        if o[0] == 'actypes' and a == 'data': return [(st, S('address', o[1]))]
        if a == 'value' and o[0] == 'box': return [(st, o[2])]
        if o[0] == 'exc': return [(st, S('text'))]
        return [(st, S('attr', o, a))]
    def fn(self, a):
        self.decl.setdefault(a, {})
        return S('foreign', a)
    # arrays: ('arr', how, dtype, contiguous, shape tuple or None, source)
    def shape(self, v):
        if v[0] == 'arr' and v[4] is not None: return S('tuple', *v[4][1:])
        return S('attr', v, 'shape')
    def length(self, v):
        if v[0] in ('tuple', 'list', 'set', 'dict'): return C(len(v) - 1)
        if isc(v) and hasattr(cv(v), '__len__'): return C(len(cv(v)))
        if v[0] == 'arr' and v[4] is not None: return v[4][1]
        if v[0] == 'shapeof' : pass
        return S('index', S('attr', v, 'shape'), C(0))
    def index(self, st, v, i):
        if v[0] in ('tuple', 'list') and isc(i) and isinstance(cv(i), int) and -len(v) + 1 <= cv(i) < len(v) - 1: return v[1:][cv(i)]
        if v[0] == 'dict':
            for a, b in v[1:]:
                if a == i: return b
        if v[0] == 'lib' and isc(i): return self.fn(cv(i))
        return S('index', v, i)
    def e_Subscript(self, st, e, mod):
        if isinstance(e.slice, ast.Slice):
            def k(q, vs):
                v = vs[0]
                if v[0] == 'attr' and v[2] == 'shape': return [(q, S('slice', v, ast.dump(e.slice)))]
                full = e.slice.lower is None and e.slice.upper is None and e.slice.step is None
                if full: return [(q, v)]
                if v[0] in ('tuple', 'list'):
                    try: return [(q, (v[0],) + v[1:][slice(*[None if x is None else ast.literal_eval(x) for x in (e.slice.lower, e.slice.upper, e.slice.step)])])]
                    except ValueError: pass
                return [(q, S('arr', 'part', self.adtype(q, v), False, None, v))]
            return self.seq(st, [e.value], mod, k)
        if isinstance(e.slice, ast.Tuple) and any(isinstance(x, ast.Slice) for x in e.slice.elts):
            el = e.slice.elts
            if len(el) == 2 and isinstance(el[0], ast.Slice) and not isinstance(el[1], ast.Slice):
                if not (el[0].lower is None and el[0].upper is None and (el[0].step is None)):
                    return self.seq(st, [e.value, el[1]], mod, lambda q, vs: [(q, S('arr', 'part', self.adtype(q, vs[0]), False, None, vs[0]))])
                return self.seq(st, [e.value, el[1]], mod, lambda q, vs: [(q, self.column(q, vs[0], vs[1]))])
            if len(el) == 2 and isinstance(el[1], ast.Slice) and not isinstance(el[0], ast.Slice):
                return self.seq(st, [e.value, el[0]], mod, lambda q, vs: [(q, self.index(q, S('transpose', S('transpose', vs[0])), vs[1]) if False else S('arr', 'row', self.adtype(q, vs[0]), False, S('sh', S('index', self.shape(vs[0]), C(1))), S('row', vs[0], vs[1])))])
            raise Unknown('slice')
        def k(q, vs):
            v, i = vs
            if v[0] == 'transpose': return [(q, self.column(q, v[1], i))]
            if v[0] == 'tab': return [(q, self.index(q, v[1], i))]
            return [(q, self.index(q, v, i))]
        return self.seq(st, [e.value, e.slice], mod, k)
    def column(self, st, m, j):
        if m[0] == 'transpose': return S('arr', 'row', self.adtype(st, m[1]), False, S('sh', S('index', self.shape(m[1]), C(1))), S('row', m[1], j))
        return S('arr', 'column', self.adtype(st, m), False, S('sh', self.index(st, self.shape(m), C(0))), S('column', m, j))
    def adtype(self, st, v):
        """element type of an array expression, from what it is and what is known on this path"""
        chain = [v]
        while v is not None and v[0] == 'arr' and not v[2]:
            if v[1] not in ('copy', 'flatten', 'ravel', 'column', 'row', 'part', 'reshape', 'squeeze', 'transpose', 'target', 'array', 'asarray', 'ascontiguousarray', 'asfortranarray', 'require'): break
            v = v[5]
            if v is not None and v[0] in ('column', 'row'): v = v[1]
            if v is not None: chain.append(v)
        if v is not None and v[0] == 'arr' and v[2]: return v[2]
        for w in chain:
            for f, val in st.facts.items():
                if val is True and f[0] == 'eq':
                    for x, y in ((f[1], f[2]), (f[2], f[1])):
                        if x == S('attr', w, 'dtype') and dtype(y): return dtype(y)
        return None
    def contiguous(self, st, v):
        if v[0] == 'arr' and v[3]: return True
        for f, val in st.facts.items():
            if val is not True: continue
            if f[0] == 'index' and f[1] == S('attr', v, 'flags') and isc(f[2]) and cv(f[2]) in ('C_CONTIGUOUS', 'F_CONTIGUOUS', 'CONTIGUOUS', 'C', 'F'): return True
            if f[0] == 'attr' and f[1] == S('attr', v, 'flags') and f[2] in ('c_contiguous', 'f_contiguous', 'contiguous', 'forc', 'fnc'): return True
        return False
    def e_ListComp(self, st, e, mod): return self.comp(st, e, mod)
    e_GeneratorExp = e_SetComp = e_ListComp
    def e_DictComp(self, st, e, mod): return self.comp(st, e, mod)
    def comp(self, st, e, mod):
        if len(e.generators) != 1: raise Unknown('nested comprehension')
        g = e.generators[0]
        def k(q, vs):
            xs = self.elements(vs[0], q)
            keep = dict(q.env[-1])
            if xs is not None and not g.ifs and not isinstance(e, ast.DictComp):
                acc = [(q, ())]; done = []
                for x in xs:
                    n = []
                    for z, ys in acc:
                        for w in self.assign(z, g.target, x, mod):
                            for r, v in self.ev(w, e.elt, mod):
                                (done if v[0] == 'RAISE' else n).append((r, v) if v[0] == 'RAISE' else (r, ys + (v,)))
                    acc = n
                return done + [(z, S('list', *ys)) for z, ys in acc]
            n0 = len(q.events)
            x = self.element(q, vs[0]); out = []
            deps = self.symbols(vs[0])
            for w in self.assign(q, g.target, x, mod):
                for r, v in self.ev(w, e.elt if not isinstance(e, ast.DictComp) else e.value, mod):
                    if len(r.events) != n0: raise Unknown('foreign call in a comprehension')
                    r.env[-1] = dict(keep); out.append((r, v if v[0] == 'RAISE' else S('text', v, vs[0])))
            return out
        return self.seq(st, [g.iter], mod, k)
    def symbols(self, v):
        out = set(); todo = [v]
        while todo:
            x = todo.pop()
            if isinstance(x, tuple):
                if x and x[0] == 'sym': out.add(x)
                else: todo.extend(x)
        return out
    # -------------------------------------------------------------- calls
    def e_Call(self, st, e, mod):
        if isinstance(e.func, ast.Name) and e.func.id == 'super': return [(st, S('sym', 'super'))]
        kws = e.keywords
        if any(k.arg is None for k in kws): raise Unknown('**kwargs')
        def k(q, vs):
            f = vs[0]; args = []
            for v in vs[1:1 + len(e.args)]:
                if v[0] == 'star':
                    xs = self.elements(v[1], q)
                    if xs is None: raise Unknown('*args')
                    args += xs
                else: args.append(v)
            return self.call(q, f, tuple(args), {x.arg: v for x, v in zip(kws, vs[1 + len(e.args):])}, e)
        return self.seq(st, [e.func] + list(e.args) + [x.value for x in kws], mod, k)
    def inline(self, st, f, args, kw):
        self.depth += 1
        if self.depth > 25: self.depth -= 1; raise Unknown('recursion')
        try:
            a = f.node.args; env = dict(f.closure or {})
            if a.posonlyargs or a.kwarg: raise Unknown('signature')
            names = [x.arg for x in a.args]
            for n, v in zip(names, args): env[n] = v
            if len(args) > len(names):
                if not a.vararg: return [(st, S('RAISE', 'TypeError'))]
            if a.vararg: env[a.vararg.arg] = S('tuple', *args[len(names):])
            for n, v in kw.items():
                if n not in names + [x.arg for x in a.kwonlyargs]: return [(st, S('RAISE', 'TypeError'))]
                env[n] = v
            st.env.append(env)
            defs = list(zip(names[len(names) - len(a.defaults):], a.defaults)) + [(x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
            given = set(names[:len(args)]) | set(kw)
            for n, d in defs:
                if n not in given:
                    r = self.ev(st, d, f.mod); env[n] = r[0][1]
                    given.add(n)
            for n in names:
                if n not in given: st.env.pop(); return [(st, S('RAISE', 'TypeError'))]
            out = []
            if isinstance(f.node, ast.Lambda): rs = [(q, ('raise', v[1]) if v[0] == 'RAISE' else ('return', v)) for q, v in self.ev(st, f.node.body, f.mod)]
            else: rs = self.block(st, f.node.body, f.mod)
            for q, o in rs:
                q.env = q.env[:-1]
                out.append((q, S('RAISE', o[1]) if o[0] == 'raise' else o[1] if o[0] == 'return' else NONE))
            return out
        finally: self.depth -= 1
    def call(self, st, f, args, kw, node=None):
        self.tick()
        if f[0] == 'func': return self.inline(st, self.objs[f[1]], args, kw)
        if f[0] == 'bound': return self.call(st, f[2], (f[1],) + args, kw, node) if f[2][0] == 'func' else self.call(st, f[2], args, kw, node)
        if f[0] == 'partial': return self.call(st, f[1], f[2] + args, {**dict(f[3]), **kw}, node)
        if f[0] == 'class':
            c = self.objs[f[1]]; o = S('obj', self.new_obj(st, c)); init = self.lookup(c, '__init__')
            if init is None or init[0] != 'func': return [(st, o)]
            return [(q, v if v[0] == 'RAISE' else o) for q, v in self.inline(st, self.objs[init[1]], (o,) + args, kw)]
        if f[0] == 'foreign': return self.foreign_call(st, f[1], args, kw, node)
        if f[0] == 'builtin': return self.builtin(st, f[1], args, kw, node)
        if f[0] == 'ctype':
            v = args[0] if args else C(0)
            if f[1] == 'void*' and (not args or v in (C(0), NONE)): return [(st, S('box', 'void*', NONE))]
            return [(st, S('box', f[1], v[2] if v[0] == 'box' else v))]
        if f[0] == 'ctarray': return [(st, S('arr', 'ctypes', f[1], True, S('sh', f[2]), S('made', *args)))]
        if f[0] == 'attr' and f[1][0] == 'ctarray' and f[2] in ('from_buffer', 'from_buffer_copy'): return [(st, S('arr', 'ctypes', f[1][1], True, S('sh', f[1][2]), args[0]))]
        if f[0] in ('ext', 'np'): return self.library(st, f, args, kw, node)
        if f[0] == 'attr': return self.method(st, f[1], f[2], args, kw, node)
        if f[0] == 'RAISE': return [(st, f)]
        if f[0] == 'proto':
            if args and args[0][0] in ('tuple', 'list') and len(args[0]) == 3 and isc(args[0][1]) and args[0][2][0] == 'lib':
                v = self.fn(cv(args[0][1])); self.decl[v[1]].update(restype=f[1], argtypes=S('list', *f[2:])); return [(st, v)]
            raise Unknown('function prototype')
        self.outside(args)
        return [(st, S('call', f, args, tuple(sorted(kw.items()))))]
    def outside(self, args):
        """a call the analysis does not follow must not be given the context"""
        todo = list(args)
        while todo:
            x = todo.pop()
            if not isinstance(x, tuple): continue
            if x and x[0] in ('ctx', 'foreign'): raise Unknown('context passed to a function that is not followed')
            todo.extend(x)
    def new_obj(self, st, c):
        self.nobj += 1; k = '%s@%d' % (c.name, self.nobj); self.objs[k] = c; st.heap[k] = {}; return k
    def builtin(self, st, n, args, kw, node):
        a = args[0] if args else None
        if n in EXC: return [(st, S('exc', S('builtin', n)) + args)]
        if n == 'len': return [(st, self.length(a))]
        if n == 'range': return [(st, S('range', *args))]
        if n in ('enumerate', 'zip'): return [(st, S(n, *args))]
        if n in ('list', 'tuple', 'sorted', 'set', 'iter', 'reversed') and args:
            xs = self.elements(a, st)
            if xs is not None and n in ('list', 'tuple'): return [(st, S(n, *xs))]
            return [(st, a if n in ('list', 'iter') else S('text', a) if n in ('sorted', 'reversed') else a)]
        if n in ('list', 'tuple', 'set', 'dict') and not args: return [(st, S(n))]
        if n in ('int', 'bool') and args:
            if a[0] == 'const' and isinstance(cv(a), (int, bool, float)): return [(st, C(int(cv(a)) if n == 'int' else bool(cv(a))))]
            if a[0] in COND or n == 'bool': return [(q, C(b if n == 'bool' else int(b))) for q, b in self.decide(st, a)]
            return [(st, S('int', a) if a[0] != 'int' else a)]
        if n == 'getattr':
            if not isc(args[1]): raise Unknown('getattr')
            return self.getattr(st, a, cv(args[1]))
        if n == 'setattr':
            if not isc(args[1]): raise Unknown('setattr')
            self.setattr(st, a, cv(args[1]), args[2]); return [(st, NONE)]
        if n == 'hasattr': return [(st, S('hasattr', *args))]
        if n == 'isinstance':
            if a[0] == 'const' and args[1][0] == 'builtin': return [(st, C(isinstance(cv(a), {'str': str, 'int': int, 'bool': bool, 'float': float, 'bytes': bytes, 'list': list, 'tuple': tuple, 'dict': dict}.get(args[1][1], ()))))]
            if a[0] == 'arr' and args[1] == S('np', 'ndarray'): return [(st, C(a[1] != 'ctypes'))]
            return [(st, S('isinstance', *args))]
        if n in ('str', 'repr', 'format', 'bytes', 'bytearray', 'map', 'filter', 'sum', 'min', 'max', 'abs', 'round', 'any', 'all', 'float', 'hash', 'id', 'type', 'print', 'open', 'vars', 'next', 'callable', 'ord', 'chr', 'divmod', 'frozenset', 'object'):
            if n == 'print': return [(st, NONE)]
            if n in ('str', 'format', 'repr') and args and isc(a) and isinstance(cv(a), str) and n == 'str': return [(st, a)]
            if n == 'type' and a[0] == 'obj': return [(st, S('class', [k for k, o in self.objs.items() if o is self.objs[a[1]] and k.startswith('ClassDef')][0]))]
            if n in ('any', 'all'): return [(st, S('asbool', S('text', *args)))]
            if n in ('map', 'filter') and a[0] in ('func', 'bound', 'foreign'): raise Unknown('map of a function')
            return [(st, S('text' if n != 'bytes' else 'bytes', *args, *kw.values()))]
        raise Unknown('builtin ' + n)
    def library(self, st, f, args, kw, node):
        n = f[1]; a = args[0] if args else None
        if f[0] == 'ext':
            if n in ('ctypes.CDLL', 'ctypes.PyDLL', 'ctypes.cdll.LoadLibrary', 'ctypes.WinDLL', 'numpy.ctypeslib.load_library'): return [(st, S('lib',))]
            if n == 'ctypes.POINTER': return [(st, S('ptr', a[1] if a[0] == 'ctype' else a))]
            if n == 'ctypes.cast': return [(st, S('cptr', a[1] if a[0] in ('cptr', 'address') else a, args[1], a[0] == 'cptr' and a[3]))] if a[0] in ('cptr', 'address', 'arr') else [(st, a if a[0] == 'ctx' else S('call', f, args, ()))]
            if n in ('ctypes.byref', 'ctypes.pointer', 'ctypes.addressof'):
                if a[0] == 'arr': return [(st, S('cptr', a, S('ptr', a[2]), True) if n != 'ctypes.addressof' else S('address', a))]
                return [(st, S('call', f, args, ()))]
            if n == 'ctypes.sizeof' and a[0] == 'ctype': return [(st, C({'f32': 4, 'f64': 8, 'i32': 4, 'u32': 4, 'i64': 8, 'u64': 8}.get(a[1], 8)))]
            if n == 'functools.partial': return [(st, S('partial', a, args[1:], tuple(kw.items())))]
            if n == 'ctypes.CFUNCTYPE': return [(st, S('proto', *args))]
            if n.endswith('check_X_y'):
                d = dtype(kw['dtype']) if 'dtype' in kw else None
                x = S('arr', 'checked', d, False, None, a)
                return [(st, S('tuple', S('arr', 'checked', d, False, S('sh', S('index', S('attr', a, 'shape'), C(0)), S('index', S('attr', a, 'shape'), C(1))), a), S('arr', 'target', None, True, S('sh', S('index', S('attr', a, 'shape'), C(0))), args[1])))]
            if n.endswith('check_array'):
                d = dtype(kw['dtype']) if 'dtype' in kw else None
                return [(st, S('arr', 'checked', d, False, S('sh', S('index', S('attr', a, 'shape'), C(0)), S('index', S('attr', a, 'shape'), C(1))), a))]
            return [(st, S('call', f, args, tuple(sorted(kw.items()))))]
        d = dtype(kw['dtype']) if 'dtype' in kw else None
        if n in ('zeros', 'empty', 'ones', 'full'):
            k = 1 if n != 'full' else 2
            if d is None and 'dtype' not in kw: d = dtype(args[k]) if len(args) > k else 'f64'
            return [(st, S('arr', 'new', d, True, S('sh', *(a[1:] if a[0] in ('tuple', 'list') else (a,))), S('new', st.sym('array'))))]
        if n in ('zeros_like', 'empty_like', 'ones_like', 'full_like'):
            sh = a[4] if a[0] == 'arr' else None
            return [(st, S('arr', 'new', d or self.adtype(st, a), True, sh or S('sh*', self.shape(a)), S('new', st.sym('array'))))]
        if n in ('ascontiguousarray', 'asfortranarray', 'array', 'asarray', 'require', 'copy', 'ravel', 'asarray_chkfinite'):
            if 'dtype' not in kw and len(args) > 1 and n in ('ascontiguousarray', 'asfortranarray', 'array', 'asarray', 'require'): d = dtype(args[1]); had = True
            else: had = 'dtype' in kw
            if had and d is None: raise Unknown('dtype')
            cont = n in ('ascontiguousarray', 'asfortranarray', 'copy', 'ravel') or n == 'array' and kw.get('copy', TRUE) == TRUE or kw.get('order') == C('C')
            if n == 'require':
                req = args[2] if len(args) > 2 else kw.get('requirements', NONE)
                cont = any(isc(x) and str(cv(x)).upper() in ('C', 'C_CONTIGUOUS', 'CONTIGUOUS') for x in ([req] if isc(req) else req[1:]))
            sh = a[4] if a[0] == 'arr' else S('sh*', self.shape(a))
            return [(st, S('arr', n, d or self.adtype(st, a), cont or self.contiguous(st, a), sh, a))]
        if n == 'dtype': return [(st, S('npdtype', dtype(a)) if dtype(a) else S('call', f, args, ()))]
        if n.startswith('ctypeslib.as_ctypes') and a[0] == 'arr': return [(st, S('arr', 'ctypes', a[2], a[3], a[4], a))]
        if n == 'ctypeslib.ndpointer':
            fl = kw.get('flags', args[3] if len(args) > 3 else NONE)
            fs = [fl] if isc(fl) else list(fl[1:])
            return [(st, S('ndptr', dtype(kw.get('dtype', a or NONE)) or '?', any(isc(x) and 'CONTIGUOUS' in str(cv(x)).upper() for x in fs)))]
        return [(st, S('call', f, args, tuple(sorted(kw.items()))))]
    def method(self, st, o, n, args, kw, node):
        a = args[0] if args else None
        if o[0] == 'ext': return self.library(st, S('ext', o[1] + '.' + n), args, kw, node)
        if o[0] == 'actypes':
            if n == 'data_as': return [(st, S('cptr', o[1], a, True))]
        if n in ('copy', 'flatten', 'ravel') and not kw and not args or n in ('copy', 'flatten') and o[0] in ('arr', 'sym', 'attr', 'index'):
            if o[0] in ('dict', 'list', 'set'): return [(st, o)]
            return [(st, S('arr', n, self.adtype(st, o), True, o[4] if o[0] == 'arr' else S('sh*', self.shape(o)), o))]
        if n == 'astype':
            d = dtype(a if a is not None else kw.get('dtype', NONE))
            cp = kw.get('copy', TRUE)
            return [(st, S('arr', 'astype', d, cp == TRUE or self.contiguous(st, o), o[4] if o[0] == 'arr' else S('sh*', self.shape(o)), o))]
        if n in ('reshape', 'squeeze', 'view', 'transpose'): return [(st, S('arr', n, self.adtype(st, o) if n != 'view' else None, False, None, o))]
        if n == 'items': return [(st, S('items', o))]
        if n in ('values', 'keys'): return [(st, S('text', o))]
        if n in ('encode', 'join', 'format', 'strip', 'lower', 'upper', 'replace', 'decode'): return [(st, S('bytes' if n == 'encode' else 'text', o, *args))]
        if n in ('append', 'extend', 'add', 'update', 'insert', 'pop', 'clear', 'remove', 'discard', 'setdefault', 'sort', 'fill'):
            for d in st.env[-1:]:
                for k, v in list(d.items()):
                    if v == o and v[0] in ('list', 'set', 'dict'):
                        d[k] = v + (a,) if n in ('append', 'add') and v[0] in ('list', 'set') else st.sym('changed ' + k)
            return [(st, NONE)]
        if o == S('sym', 'super') and n == '__init__': return [(st, NONE)]
        self.outside(args)
        return [(st, S('call', S('attr', o, n), args, tuple(sorted(kw.items()))))]
    # -------------------------------------------------------------- foreign calls
    def foreign_call(self, st, name, args, kw, node):
        if kw: raise Unknown('keyword arguments of a foreign call')
        d = self.decl.get(name, {}); out = []
        live = self.reachable(st)
        for q, res in self.foreign(self, st, name, args, live, getattr(node, 'lineno', 0)):
            rt = d.get('restype', S('ctype', 'i32'))
            if rt[0] in ('func', 'bound', 'class', 'builtin'): rs = self.call(q, rt, (res,), {})
            elif rt == NONE: rs = [(q, NONE)]
            elif rt == S('ctype', 'void*') and res == C(0): rs = [(q, NONE)]
            elif rt == S('ctype', 'u32') and isc(res) and cv(res) < 0: rs = [(q, C(cv(res) % 2 ** 32))]
            elif rt == S('ctype', 'bool') and isc(res): rs = [(q, C(bool(cv(res))))]
            else: rs = [(q, res)]
            ec = d.get('errcheck')
            for r, v in rs:
                if ec is not None and ec != NONE and v[0] != 'RAISE': out += self.call(r, ec, (v, S('foreign', name), S('tuple', *args)), {})
                else: out.append((r, v))
        return out
    def reachable(self, st):
        """everything the program still refers to"""
        out = set(); todo = [v for e in st.env for v in e.values()] + [v for d in st.heap.values() for v in d.values()]
        while todo:
            x = todo.pop()
            if not isinstance(x, tuple) or x in out: continue
            out.add(x)
            if x and x[0] == 'address': continue
            if x and x[0] == 'cptr' and not x[3]: continue
            if x and x[0] == 'arr': todo.append(x[5] if x[1] in ('column', 'row', 'part', 'reshape', 'view', 'checked') else None); continue
            todo.extend(x[1:])
        return out
COND = ('eq', 'lt', 'in', 'not', 'isinstance', 'hasattr', 'asbool')
EXC = ('Exception', 'ValueError', 'RuntimeError', 'TypeError', 'AssertionError', 'KeyError', 'IndexError', 'MemoryError', 'OSError', 'NotImplementedError', 'AttributeError', 'BaseException', 'ArithmeticError', 'LookupError', 'IOError')
BUILTINS = set(EXC) | {'len', 'range', 'enumerate', 'zip', 'list', 'tuple', 'set', 'dict', 'int', 'bool', 'float', 'str', 'bytes', 'bytearray', 'repr', 'format', 'getattr', 'setattr', 'hasattr', 'isinstance', 'map', 'filter', 'sum', 'min', 'max', 'abs', 'round', 'any', 'all', 'hash', 'id', 'type', 'print',
    'open', 'vars', 'next', 'iter', 'callable', 'ord', 'chr', 'sorted', 'reversed', 'divmod', 'frozenset', 'object', 'staticmethod', 'classmethod', 'property', 'super'}
CTYPES_NS = {k: S('ctype', v) for k, v in CTYPES.items()}
for _n in ('CDLL', 'PyDLL', 'POINTER', 'cast', 'byref', 'pointer', 'addressof', 'sizeof', 'CFUNCTYPE', 'cdll', 'create_string_buffer', 'string_at'): CTYPES_NS[_n] = S('ext', 'ctypes.' + _n)
