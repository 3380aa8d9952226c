"""Hash-consed terms in normal form.

A term is the abstract value of a program expression: an operator applied to terms (or to plain
ints / strings / tuples).  The smart constructors below keep terms in a canonical form, so that two
ways of writing the same computation usually give the *same object*:
  * integers are linear combinations over monomials; integer order comparisons are `d < 0` with a
    canonical sign; equality with a constant is a multi-way `sw` node;
  * booleans and conditional values are reduced ordered decision diagrams (`ite` / `sw` nodes);
  * functional arrays/structs with read-over-write reduction.
No path is ever enumerated and nothing is handed to a solver.
"""
import hashlib, sys
sys.setrecursionlimit(200000)

_tab = {}

class Term:
    __slots__ = ('op', 'args', 'key', 'ht', 'size', '_fv')
    def __hash__(self): return self.key
    def __eq__(self, o): return self is o
    def __ne__(self, o): return self is not o
    def __lt__(self, o): return self.key < o.key
    def __repr__(self): return show(self)

def _walk(a, acc):
    if isinstance(a, Term): acc.append(a)
    elif isinstance(a, tuple):
        for x in a: _walk(x, acc)

def subterms_of(t):
    acc = []
    for a in t.args: _walk(a, acc)
    return acc

def _enc(a):
    if isinstance(a, Term): return b'T' + a.key.to_bytes(8, 'big')
    if isinstance(a, tuple): return b'(' + b','.join(_enc(x) for x in a) + b')'
    return repr(a).encode()

_EMPTY = frozenset()

def mk(op, *args):
    k = (op, args)
    t = _tab.get(k)
    if t is not None: return t
    t = Term()
    t.op = op; t.args = args
    h = hashlib.blake2b(op.encode() + b'|' + b';'.join(_enc(a) for a in args), digest_size=8).digest()
    t.key = int.from_bytes(h, 'big')
    ht = 0; size = 1; fv = _EMPTY
    for s in subterms_of(t):
        if s.ht > ht: ht = s.ht
        size += s.size
        if s._fv: fv = fv | s._fv
    if op in ('k', 'bv', 'bu'): ht = max(ht, args[0])
    if op in ('fold', 'wfold', 'mu'): ht = max(ht, args[-1])
    if op == 'lv': fv = fv | frozenset((t,))
    if op == 'kap': fv = fv | frozenset((t,))
    t.ht = ht; t.size = size; t._fv = fv
    _tab[k] = t
    return t

def fv(t): return t._fv

TRUE = mk('b', True); FALSE = mk('b', False)
UNIT = mk('agg', 'tuple', 0, ())

def I(n): return mk('i', n)
def F(x): return mk('f', float(x))
def S(s): return mk('s', s)
def B(v): return TRUE if v else FALSE
def isint(t): return t.op == 'i'

BOOLOPS = {'lt0', 'eq0', 'flt', 'fle', 'feq', 'B', 'eqt', 'ltt'}

# ---------------------------------------------------------------- decision diagrams
NODES = ('ite', 'sw')

def is_node(t): return t.op in NODES

def topvar(t):
    if t.op == 'ite' or t.op == 'sw': return t.args[0]
    if t.op in BOOLOPS: return t
    return None

def cof_b(t, v, val):
    if t is v: return TRUE if val else FALSE
    if t.op == 'ite' and t.args[0] is v: return t.args[1] if val else t.args[2]
    return t

def cof_k(t, v, k):
    """cofactor of int variable v at key k (None: default)"""
    if t.op == 'sw' and t.args[0] is v:
        for kk, c in t.args[1]:
            if kk == k: return c
        return t.args[2]
    return t

def domain(v):
    """finite domain of a switch variable, or None"""
    if v.op == 'discr' and isinstance(v.args[1], int): return v.args[1]
    return None

def mk_ite(v, a, b):
    if a is b: return a
    if a is TRUE and b is FALSE: return v
    if a.op == 'undef': return b
    if b.op == 'undef': return a
    if v.op == 'lt0' and a.op in INTISH and b.op in INTISH:
        d = v.args[0]; D = _add(a, _scale(b, -1))
        if d is D or _add(d, I(1)) is D: return imin(a, b)
        D = _scale(D, -1)
        if d is D or _add(d, I(1)) is D: return imax(a, b)
    return mk('ite', v, a, b)

def mk_sw(v, items, default):
    n = domain(v)
    items = dict(items)
    if n is not None:
        if len(items) < n:
            for k in range(n):
                if k not in items: items[k] = default
        default = None
        vals = [items[k] for k in range(n)]
        if any(x.op == 'undef' for x in vals):
            dd = next((x for x in vals if x.op != 'undef'), vals[0])
            vals = [dd if x.op == 'undef' else x for x in vals]
            items = dict(enumerate(vals))
        if all(x is vals[0] for x in vals): return vals[0]
        return mk('sw', v, tuple(sorted(items.items())), UNIT)
    if default is not None and default.op == 'undef' and items: default = items[max(items)]
    items = {k: c for k, c in items.items() if c is not default and c.op != 'undef'}
    if not items: return default
    return mk('sw', v, tuple(sorted(items.items())), default)

INTISH = {'i', 'lin', 'len', 'k', 'kap', 'lv', 'bv', 'bu', 'proj', 'imin', 'imax', 'div', 'mul', 'rem', 'ret', 'arg', 'f2i', 'trunc', 'discr', 'deref', 'ucast', 'huge'}
def _mm(op):
    def f(a, b):
        if a is b: return a
        if a.op == 'i' and b.op == 'i': return I((min if op == 'imin' else max)(a.args[0], b.args[0]))
        if op == 'imax':
            if b is I(0) and nonneg(a): return a
            if a is I(0) and nonneg(b): return b
        d = _add(a, _scale(b, -1))
        if nonneg(d): return b if op == 'imin' else a
        if nonneg(_scale(d, -1)): return a if op == 'imin' else b
        x, y = (a, b) if a.key < b.key else (b, a)
        return mk(op, x, y)
    return lambda a, b: lift(op, f, a, b)
imin = _mm('imin'); imax = _mm('imax')
_ite_memo = {}

def strip_upd(x):
    f = {}
    while x.op == 'upd':
        f.setdefault(x.args[1], x.args[2]); x = x.args[0]
    return x, f

def ite(c, x, y):
    if c is TRUE: return x
    if c is FALSE: return y
    if x is y: return x
    if x is TRUE and y is FALSE: return c
    if x.op == 'undef': return y          # don't-care: reading it would be undefined
    if y.op == 'undef': return x
    m = _ite_memo.get((c, x, y))
    if m is not None: return m
    r = None
    if x.op == 'agg' and y.op == 'agg' and x.args[0] == y.args[0] and x.args[1] == y.args[1] and len(x.args[2]) == len(y.args[2]):
        r = mk('agg', x.args[0], x.args[1], tuple(ite(c, a, b) for a, b in zip(x.args[2], y.args[2])))
    elif x.op == 'upd' or y.op == 'upd':
        rx, fx = strip_upd(x); ry, fy = strip_upd(y)
        if rx is ry:
            r = rx
            for k in sorted(set(fx) | set(fy), key=repr):
                vx = fx[k] if k in fx else proj(rx, k)
                vy = fy[k] if k in fy else proj(ry, k)
                r = upd(r, k, ite(c, vx, vy))
    if r is None:
        v = None
        for t in (c, x, y):
            tv = topvar(t)
            if tv is not None and (v is None or tv.key < v.key): v = tv
        if v is None:
            # opaque boolean condition
            r = mk_ite(c, x, y)
        elif v.op in BOOLOPS or any(t.op == 'ite' and t.args[0] is v for t in (c, x, y)):
            hi = ite(cof_b(c, v, True), cof_b(x, v, True), cof_b(y, v, True))
            lo = ite(cof_b(c, v, False), cof_b(x, v, False), cof_b(y, v, False))
            r = mk_ite(v, hi, lo)
        else:
            keys = set()
            for t in (c, x, y):
                if t.op == 'sw' and t.args[0] is v: keys.update(k for k, _ in t.args[1])
            items = {k: ite(cof_k(c, v, k), cof_k(x, v, k), cof_k(y, v, k)) for k in keys}
            d = None
            if domain(v) is None:
                d = ite(cof_k(c, v, None), cof_k(x, v, None), cof_k(y, v, None))
            r = mk_sw(v, items, d)
    _ite_memo[(c, x, y)] = r
    return r

def NOT(c): return ite(c, FALSE, TRUE)
def AND(*cs):
    r = TRUE
    for c in cs: r = ite(r, c, FALSE)
    return r
def OR(*cs):
    r = FALSE
    for c in cs: r = ite(r, TRUE, c)
    return r
def IMPL(a, b): return ite(a, b, TRUE)

def implies(g, c):
    return AND(g, NOT(c)) is FALSE

_con_memo = {}
def constrain(f, c):
    """f simplified under the assumption c (generalised cofactor)"""
    if c is TRUE or c is FALSE: return f
    if f.op in ('b', 'i', 'f', 's'): return f
    if f is c: return TRUE
    m = _con_memo.get((f, c))
    if m is not None: return m
    vf, vc = topvar(f), topvar(c)
    r = f
    if vf is None and f.op == 'agg':
        r = mk('agg', f.args[0], f.args[1], tuple(constrain(x, c) for x in f.args[2]))
    elif vf is None and f.op == 'upd':
        r = upd(constrain(f.args[0], c), f.args[1], constrain(f.args[2], c))
    elif vf is not None and vc is not None:
        if vf is vc or vc.key < vf.key:
            v = vc
            if v.op in BOOLOPS or (c.op == 'ite'):
                c1, c0 = cof_b(c, v, True), cof_b(c, v, False)
                if c1 is FALSE: r = constrain(cof_b(f, v, False), c0)
                elif c0 is FALSE: r = constrain(cof_b(f, v, True), c1)
                else: r = mk_ite_gen(v, constrain(cof_b(f, v, True), c1), constrain(cof_b(f, v, False), c0))
            else:
                keys = set(k for k, _ in c.args[1])
                if f.op == 'sw' and f.args[0] is v: keys |= set(k for k, _ in f.args[1])
                n = domain(v)
                live = {}
                for k in keys:
                    ck = cof_k(c, v, k)
                    if ck is not FALSE: live[k] = constrain(cof_k(f, v, k), ck)
                dv = None
                if n is None:
                    cd = cof_k(c, v, None)
                    if cd is not FALSE: dv = constrain(cof_k(f, v, None), cd)
                vals = list(live.values()) + ([dv] if dv is not None else [])
                if not vals: r = f
                elif all(x is vals[0] for x in vals): r = vals[0]
                else:
                    if n is None:
                        if dv is None: dv = vals[0]
                        r = mk_sw(v, live, dv)
                    else:
                        r = mk_sw(v, live, vals[0])
        else:
            v = vf
            if v.op in BOOLOPS or f.op == 'ite':
                r = mk_ite_gen(v, constrain(cof_b(f, v, True), c), constrain(cof_b(f, v, False), c))
            else:
                items = {k: constrain(x, c) for k, x in f.args[1]}
                d = None if domain(v) is not None else constrain(f.args[2], c)
                r = mk_sw(v, items, d)
    elif vf is not None and vc is None:
        if f is c: r = TRUE
    _con_memo[(f, c)] = r
    return r

def restrict(f, c):
    """the same, without taking over conditions of c that f does not depend on"""
    n = 0
    while c is not TRUE and c is not FALSE and n < 64:
        n += 1
        vf, vc = topvar(f), topvar(c)
        if vf is None or vc is None or vf is vc or vf.key < vc.key or not (vc.op in BOOLOPS or c.op == 'ite'): break
        c1, c0 = cof_b(c, vc, True), cof_b(c, vc, False)
        if c1 is FALSE or c0 is FALSE: break
        c = OR(c1, c0)
    if c is TRUE: return f
    m = _res_memo.get((f, c))
    if m is not None: return m
    vf, vc = topvar(f), topvar(c)
    if vf is None and f.op == 'agg': r = mk('agg', f.args[0], f.args[1], tuple(restrict(x, c) for x in f.args[2]))
    elif vf is None and f.op == 'upd': r = upd(restrict(f.args[0], c), f.args[1], restrict(f.args[2], c))
    elif vf is not None and vc is not None and vf.op in BOOLOPS and (vf is vc or vf.key < vc.key) and (f.op == 'ite' or f.op in BOOLOPS):
        c1, c0 = cof_b(c, vf, True), cof_b(c, vf, False)
        f1, f0 = cof_b(f, vf, True), cof_b(f, vf, False)
        r = restrict(f0, c0) if c1 is FALSE else restrict(f1, c1) if c0 is FALSE else mk_ite_gen(vf, restrict(f1, c1), restrict(f0, c0))
    elif vf is not None and vc is not None and f.op == 'sw' and vf.key < vc.key:
        r = mk_sw(vf, {k: restrict(x, c) for k, x in f.args[1]}, None if domain(vf) is not None else restrict(f.args[2], c))
    else: r = constrain(f, c)
    _res_memo[(f, c)] = r
    return r
_res_memo = {}

def mk_ite_gen(v, a, b):
    return ite(v, a, b)

LIFT_CAP = 400
def nleaves(t, cap=LIFT_CAP):
    seen = set(); stack = [t]; n = 0
    while stack:
        x = stack.pop()
        if x in seen: continue
        seen.add(x)
        if x.op == 'ite': stack += [x.args[1], x.args[2]]
        elif x.op == 'sw':
            stack += [c for _, c in x.args[1]]
            if domain(x.args[0]) is None: stack.append(x.args[2])
        else: n += 1
        if n > cap: return n
    return n

_lift_memo = {}
def lift(name, fn, *args):
    """apply fn to the leaves of decision-diagram arguments"""
    if not any(is_node(a) for a in args): return fn(*args)
    m = _lift_memo.get((name, args))
    if m is not None: return m
    p = 1
    for a in args: p *= nleaves(a)
    if p > LIFT_CAP:
        r = mk('L:' + name, *args)
    else:
        v = None
        for t in args:
            if is_node(t) and (v is None or t.args[0].key < v.key): v = t.args[0]
        isb = any(t.op == 'ite' and t.args[0] is v for t in args)
        if isb:
            r = ite(v, lift(name, fn, *[cof_b(a, v, True) if a.op == 'ite' else a for a in args]),
                    lift(name, fn, *[cof_b(a, v, False) if a.op == 'ite' else a for a in args]))
        else:
            keys = set()
            for t in args:
                if t.op == 'sw' and t.args[0] is v: keys.update(k for k, _ in t.args[1])
            items = {k: lift(name, fn, *[cof_k(a, v, k) for a in args]) for k in keys}
            d = None
            if domain(v) is None: d = lift(name, fn, *[cof_k(a, v, None) for a in args])
            r = mk_sw_gen(v, items, d)
    _lift_memo[(name, args)] = r
    return r

def mk_sw_gen(v, items, d):
    """like mk_sw but children may have variables above v"""
    # build via ite chain on key tests, which keeps the order canonical
    n = domain(v)
    ks = sorted(items)
    if n is not None:
        r = items[ks[-1]] if len(items) == n else d
        rest = ks[:-1] if len(items) == n else ks
        if r is None: r = items[ks[-1]]; rest = ks[:-1]
    else:
        r = d; rest = ks
    for k in rest: r = ite(keytest(v, k), items[k], r)
    return r

def keytest(v, k):
    n = domain(v)
    if n is not None:
        return mk_sw(v, {j: (TRUE if j == k else FALSE) for j in range(n)}, None)
    return mk_sw(v, {k: TRUE}, FALSE)

# ---------------------------------------------------------------- integers
def lin_parts(t):
    """-> (const, {monomial: coeff})"""
    if t.op == 'i': return t.args[0], {}
    if t.op == 'lin': return t.args[0], dict(t.args[1])
    return 0, {t: 1}

def mk_lin(c, d):
    d = {m: k for m, k in d.items() if k != 0}
    if not d: return I(c)
    if c == 0 and len(d) == 1:
        (m, k), = d.items()
        if k == 1: return m
    return mk('lin', c, tuple(sorted(d.items(), key=lambda mk_: mk_[0].key)))

def _add(a, b):
    c1, d1 = lin_parts(a); c2, d2 = lin_parts(b)
    for m, k in d2.items(): d1[m] = d1.get(m, 0) + k
    return mk_lin(c1 + c2, d1)
def _scale(a, k):
    c, d = lin_parts(a)
    return mk_lin(c * k, {m: v * k for m, v in d.items()})
def factors(m): return list(m.args[0]) if m.op == 'mul' else [m]
def _mul(a, b):
    c1, d1 = lin_parts(a); c2, d2 = lin_parts(b)
    if not d1: return _scale(b, c1)
    if not d2: return _scale(a, c2)
    out = {}; c = c1 * c2
    for m, k in d1.items(): out[m] = out.get(m, 0) + k * c2
    for m, k in d2.items(): out[m] = out.get(m, 0) + k * c1
    for m1, k1 in d1.items():
        for m2, k2 in d2.items():
            fs = sorted(factors(m1) + factors(m2), key=lambda t: t.key)
            m = mk('mul', tuple(fs))
            out[m] = out.get(m, 0) + k1 * k2
    return mk_lin(c, out)

def add(a, b): return lift('add', _add, a, b)
def neg(a): return lift('neg', lambda x: _scale(x, -1), a)
def sub(a, b): return lift('sub', lambda x, y: _add(x, _scale(y, -1)), a, b)
def mul(a, b): return lift('mul', _mul, a, b)

def _div(a, b):
    if b.op == 'i' and b.args[0] != 0:
        k = b.args[0]
        if a.op == 'i': return I(a.args[0] // k)
        if k == 1: return a
        c, d = lin_parts(a)
        if all(v % k == 0 for v in d.values()) and (c % k == 0 or nonneg(a)):
            return mk_lin(c // k, {m: v // k for m, v in d.items()})
    return mk('div', a, b)
def div(a, b): return lift('div', _div, a, b)
def _rem(a, b):
    if b.op == 'i' and b.args[0] != 0:
        k = b.args[0]
        if a.op == 'i': return I(a.args[0] % k)
        if k == 1: return I(0)
        c, d = lin_parts(a)
        if d and all(v % k == 0 for v in d.values()) and c % k == c: return I(c)
        if d and (c % k != c or any(v % k != v for v in d.values())):
            a = mk_lin(c % k, {m: v % k for m, v in d.items()})
            return I(a.args[0] % k) if a.op == 'i' else mk('rem', a, b)
    return mk('rem', a, b)
def rem(a, b): return lift('rem', _rem, a, b)

UNSIGNED = set()        # terms the analysed code computes with at an unsigned type
def nonneg(t):
    """syntactically non-negative integer term"""
    if t.op in ('bu', 'ucast', 'huge') or t in UNSIGNED: return True
    if t.op in ('fold', 'wfold') and t.args[3] >= 0: return contains_op(mk('o', *t.args[2]), 'bu', t.args[4], t.args[3]) or counts_up(t)
    if t.op == 'i': return t.args[0] >= 0
    if t.op == 'wfold' and t.args[3] == -1: return True         # a number of steps
    if t.op in ('len', 'ctpop', 'rem', 'div', 'k', 'kap', 'u', 'trunc', 'below'): return True
    if t.op == 'f2i': return t.args[0][0] == 'u'
    if t.op in ('imin',): return nonneg(t.args[0]) and nonneg(t.args[1])
    if t.op in ('imax',): return nonneg(t.args[0]) or nonneg(t.args[1])
    if t.op == 'lin': return t.args[0] >= 0 and all(k > 0 and nonneg(m) for m, k in t.args[1])
    if t.op == 'mul': return all(nonneg(x) for x in t.args[0])
    return False

_cu = {}
def counts_up(t):
    """a loop-carried number that starts non-negative and is never decreased"""
    if t not in _cu:
        _cu[t] = False
        j, h = t.args[3], t.args[4]
        def nn(x):
            if x.op == 'ite': return nn(x.args[1]) and nn(x.args[2])
            if x.op == 'sw': return all(nn(y) for _, y in x.args[1]) and (x.args[2] is None or not isinstance(x.args[2], Term) or nn(x.args[2]))
            return nonneg(x)
        s = t.args[2][j]; v = mk('bv', h, j)
        if nn(t.args[1][j]) and v not in UNSIGNED:
            UNSIGNED.add(v); _cu[t] = nn(s); UNSIGNED.discard(v)
    return _cu[t]
def _canon_sign(d):
    """leading coefficient sign"""
    return d.args[1][0][1] > 0 if d.op == 'lin' else True

def _lt0(d, unsigned=False):
    """boolean: d < 0"""
    c, m = lin_parts(d)
    if not m: return B(c < 0)
    import math
    g = 0
    for k in m.values(): g = math.gcd(g, abs(k))
    if g > 1:
        # g*x + c < 0  <=>  x + floor(c/g)... : x < -c/g  <=> x + ceil... use integer: x <= floor((-c-1)/g)
        q = (-c - 1) // g           # x <= q  <=> x - q - 1 < 0
        c = -q - 1
        m = {t: k // g for t, k in m.items()}
    lead = min(m.items(), key=lambda x: x[0].key)[1]
    if len(m) == 1:
        (t, k), = m.items()
        if (unsigned or nonneg(t)):
            if k == 1:             # t + c < 0
                if c >= 0: return FALSE
                if c == -1: return eqc(t, 0)
            elif k == -1:          # c - t < 0  <=> t > c <=> not t < c+1
                if c < 0: return TRUE
                if c == 0: return NOT(eqc(t, 0))
    if lead > 0:
        return mk('lt0', mk_lin(c, m))
    # d < 0  <=> not(d >= 0) <=> not(-d <= 0) <=> not(-d - 1 < 0)
    return NOT(mk('lt0', mk_lin(-c - 1, {t: -k for t, k in m.items()})))

def lt(a, b, unsigned=True):
    return lift('ltu' if unsigned else 'lts', lambda x, y: _lt0(_add(x, _scale(y, -1)), unsigned), a, b)
def le(a, b, unsigned=True): return NOT(lt(b, a, unsigned))

def eqc(t, k):
    if t.op == 'i': return B(t.args[0] == k)
    if t.op == 'b': return B(int(t.args[0]) == k)
    return keytest(t, k)

def _eq(a, b):
    if a is b: return TRUE
    if a.op in ('i', 'b') and b.op in ('i', 'b'): return B(int(a.args[0]) == int(b.args[0]))
    if a.op == 's' and b.op == 's': return B(a.args[0] == b.args[0])
    if a.op == 's' and not a.args[0] or b.op == 's' and not b.args[0]: return eqc(length(b if a.op == 's' else a), 0)
    if a.op == 'null' and b.op == 'ref' or a.op == 'ref' and b.op == 'null': return FALSE
    if a.op in ('s', 'agg', 'null') or b.op in ('s', 'agg', 'null'):
        x, y = (a, b) if a.key < b.key else (b, a)
        return mk('eqt', x, y)
    d = _add(a, _scale(b, -1))
    c, m = lin_parts(d)
    if not m: return B(c == 0)
    import math
    g = 0
    for k in m.values(): g = math.gcd(g, abs(k))
    if g > 1:
        if c % g: return FALSE
        c //= g; m = {t: k // g for t, k in m.items()}
    lead = min(m.items(), key=lambda x: x[0].key)[1]
    if lead < 0: c = -c; m = {t: -k for t, k in m.items()}
    if len(m) == 1:
        (t, k), = m.items()
        if k == 1: return FALSE if c > 0 and nonneg(t) else keytest(t, -c)
    if c > 0 and all(k > 0 and nonneg(t) for t, k in m.items()): return FALSE
    return mk('eq0', mk_lin(c, m))
def eq(a, b): return lift('eq', _eq, a, b)

# bit operations on integers
def _ac(op, unit, zero, idem):
    def f(a, b):
        if a.op == 'i' and b.op == 'i':
            x, y = a.args[0], b.args[0]
            return I({'and': x & y, 'or': x | y, 'xor': x ^ y}[op])
        xs = []
        for t in (a, b):
            xs += list(t.args[0]) if t.op == op else [t]
        consts = [t.args[0] for t in xs if t.op == 'i']
        xs = [t for t in xs if t.op != 'i']
        if consts:
            c = consts[0]
            for y in consts[1:]: c = {'and': c & y, 'or': c | y, 'xor': c ^ y}[op]
            if zero is not None and c == zero: return I(zero)
            if unit is None or c != unit: xs.append(I(c))
        if idem:
            u = []
            for t in xs:
                if t not in u: u.append(t)
            xs = u
        else:
            cnt = {}
            for t in xs: cnt[t] = cnt.get(t, 0) + 1
            xs = [t for t, n in cnt.items() if n % 2]
        if not xs: return I(unit if unit is not None else 0)
        if len(xs) == 1: return xs[0]
        return mk(op, tuple(sorted(xs, key=lambda t: t.key)))
    return f
_and0 = _ac('and', None, 0, True); _or = _ac('or', 0, None, True); _xor0 = _ac('xor', 0, None, False)
def lowest(t):
    """x when t is its lowest set bit, 1 << cttz(x)"""
    if t.op == 'trunc': t = t.args[1]
    if t.op == 'shl' and t.args[0] is I(1) and t.args[1].op == 'cttz': return t.args[1].args[0]
def _xor(a, b):
    for x, y in ((a, b), (b, a)):
        if lowest(x) is y: return _and0(y, _add(y, I(-1)))      # without its lowest set bit
    return _xor0(a, b)
def _and(a, b):
    for x, y in ((a, b), (b, a)):
        if x.op == 'not' and lowest(x.args[0]) is y: return _and0(y, _add(y, I(-1)))
    return _and0(a, b)
def isb(t): return t.op in ('b',) or t.op in BOOLOPS or (t.op == 'ite' and isb(t.args[1]) and isb(t.args[2])) or (t.op == 'sw' and all(isb(c) for _, c in t.args[1]))
def band(a, b):
    if isb(a) and isb(b): return AND(a, b)
    for x, y in ((a, b), (b, a)):
        if y.op == 'i':
            n = y.args[0]
            if n > 0 and (n & (n + 1)) == 0 and n < (1 << 31): return rem(x, I(n + 1))
    return lift('and', _and, a, b)
def bor(a, b):
    if isb(a) and isb(b): return OR(a, b)
    return lift('or', _or, a, b)
def bxor(a, b):
    if isb(a) and isb(b): return ite(a, NOT(b), b)
    return lift('xor', _xor, a, b)
def _not(a, bits):
    if a.op == 'not': return a.args[0]
    if a.op == 'i' and bits: return I(~a.args[0] & ((1 << bits) - 1))
    return mk('not', a, bits) if bits else mk('not', a)
def bnot(a, bits=None):
    if isb(a): return NOT(a)
    return lift('not%s' % bits, lambda x: _not(x, bits), a)
def shl(a, b, bits=None):
    def f(x, y):
        if y.op == 'i':
            if x.op == 'i' and bits: return I((x.args[0] << y.args[0]) & ((1 << bits) - 1))
            if bits and bits < 64 and y.args[0]: return mk('trunc', bits, _scale(x, 1 << y.args[0]))
            return _scale(x, 1 << y.args[0])
        return mk('shl', x, y, bits) if bits and bits < 64 and x.op != 'i' else mk('shl', x, y)
    return lift('shl', f, a, b)
def shr(a, b):
    def f(x, y):
        if y.op == 'i': return _div(x, I(1 << y.args[0]))
        return mk('shr', x, y)
    return lift('shr', f, a, b)

# ---------------------------------------------------------------- floats
def _fc(t): return t.args[0]
def _fadd(a, b):
    if a.op == 'f' and b.op == 'f': return F(_fc(a) + _fc(b))
    if a.op == 'f' and _fc(a) == 0.0: return b
    if b.op == 'f' and _fc(b) == 0.0: return a
    if b.op == 'fneg': return _fsub(a, b.args[0])
    if a.op == 'fneg': return _fsub(b, a.args[0])
    x, y = (a, b) if a.key < b.key else (b, a)
    return mk('fadd', x, y)
def _fsub(a, b):
    if a.op == 'f' and b.op == 'f': return F(_fc(a) - _fc(b))
    if b.op == 'f' and _fc(b) == 0.0: return a
    if b.op == 'fneg': return _fadd(a, b.args[0])
    return mk('fsub', a, b)
def _fneg(a):
    if a.op == 'f': return F(-_fc(a))
    if a.op == 'fneg': return a.args[0]
    if a.op == 'fsub': return mk('fsub', a.args[1], a.args[0])
    return mk('fneg', a)
def _fmul(a, b):
    if a.op == 'f' and b.op == 'f': return F(_fc(a) * _fc(b))
    for x, y in ((a, b), (b, a)):
        if x.op == 'f' and _fc(x) == 1.0: return y
        if x.op == 'f' and _fc(x) == -1.0: return _fneg(y)
    sgn = 0
    if a.op == 'fneg': a = a.args[0]; sgn ^= 1
    if b.op == 'fneg': b = b.args[0]; sgn ^= 1
    x, y = (a, b) if a.key < b.key else (b, a)
    r = mk('fmul', x, y)
    return _fneg(r) if sgn else r
def _fdiv(a, b):
    if a.op == 'f' and b.op == 'f' and _fc(b) != 0: return F(_fc(a) / _fc(b))
    if b.op == 'f' and _fc(b) == 1.0: return a
    sgn = 0
    if a.op == 'fneg': a = a.args[0]; sgn ^= 1
    if b.op == 'fneg': b = b.args[0]; sgn ^= 1
    r = mk('fdiv', a, b)
    return _fneg(r) if sgn else r
def fadd(a, b): return lift('fadd', _fadd, a, b)
def fsub(a, b): return lift('fsub', _fsub, a, b)
def fmul(a, b): return lift('fmul', _fmul, a, b)
def fdiv(a, b): return lift('fdiv', _fdiv, a, b)
def fneg(a): return lift('fneg', _fneg, a)
def flt(a, b):
    def f(x, y):
        if x.op == 'f' and y.op == 'f': return B(_fc(x) < _fc(y))
        return mk('flt', x, y)
    return lift('flt', f, a, b)
def fle(a, b):
    def f(x, y):
        if x.op == 'f' and y.op == 'f': return B(_fc(x) <= _fc(y))
        return mk('fle', x, y)
    return lift('fle', f, a, b)
def feq(a, b):
    def f(x, y):
        if x.op == 'f' and y.op == 'f': return B(_fc(x) == _fc(y))
        if x.key > y.key: x, y = y, x
        return mk('feq', x, y)
    return lift('feq', f, a, b)

# ---------------------------------------------------------------- aggregates, arrays
def agg(kind, variant, fields): 
    fields = tuple(fields)
    # eta: struct rebuilt from the fields of one value
    if fields and variant == 0:
        f0 = fields[0]
        if f0.op == 'proj' and f0.args[1] == ('f', 0):
            x = f0.args[0]
            if all(f.op == 'proj' and f.args[0] is x and f.args[1] == ('f', i) for i, f in enumerate(fields)) and kind != 'tuple' and nfields_ok(kind, len(fields)):
                return x
    return mk('agg', kind, variant, fields)
def nfields_ok(kind, n): return True

def proj(v, e):
    """project path element e out of value v"""
    return lift('proj' + repr(e) if not any(isinstance(x, Term) for x in e) else 'proj%s#%d' % (e[0], e[1].key), lambda x: _proj(x, e), v)

def _proj(x, e):
    if e[0] == 'i': return _index(x, e[1])
    while True:
        if x.op == 'agg':
            if e[0] == 'f':
                if e[1] < len(x.args[2]): return x.args[2][e[1]]
            if e[0] == 'vf':
                if x.args[1] == e[1] and e[2] < len(x.args[2]): return x.args[2][e[2]]
                return mk('undef', 'variant')
            return mk('proj', x, e)
        if x.op == 'upd':
            if x.args[1] == e: return x.args[2]
            x = x.args[0]
            if is_node(x): return proj(x, e)
            continue
        if x.op == 'undef': return x
        return mk('proj', x, e)

def upd(x, e, v):
    """x with path element e replaced by v"""
    if e[0] == 'i': return store(x, e[1], v)
    if x.op == 'agg':
        fi = e[1] if e[0] == 'f' else (e[2] if x.args[1] == e[1] else None)
        if fi is not None and fi < len(x.args[2]):
            fs = list(x.args[2]); fs[fi] = v
            return mk('agg', x.args[0], x.args[1], tuple(fs))
    if is_node(x):
        return lift('upd' + repr(e), lambda y, z: upd(y, e, z), x, v) if not is_node(v) else _upd_raw(x, e, v)
    return _upd_raw(x, e, v)

def _upd_raw(x, e, v):
    root, fs = strip_upd(x)
    fs[e] = v
    if is_node(root):
        r = root
        for k in sorted(fs, key=repr): r = mk('upd', r, k, fs[k])
        return r
    r = root
    for k in sorted(fs, key=repr):
        if fs[k] is not _proj(root, k): r = mk('upd', r, k, fs[k])
    return r

def _index(a, i):
    while True:
        if is_node(a): return lift('idx', _index, a, i)
        if is_node(i): return lift('idx', _index, a, i)
        if a.op == 'store':
            if a.args[1] is i: return a.args[2]
            d = _add(a.args[1], _scale(i, -1))
            if d.op == 'i' and d.args[0] != 0:
                a = a.args[0]; continue
            return mk('proj', a, ('i', i))
        if a.op == 'arr':
            if i.op == 'i' and 0 <= i.args[0] < len(a.args[0]): return a.args[0][i.args[0]]
            return mk('proj', a, ('i', i))
        if a.op == 'tab':
            return subst(a.args[1], {mk('k', a.args[2]): i})
        if a.op == 'push':
            d = _add(i, _scale(length(a.args[0]), -1))
            if d.op == 'i' and d.args[0] == 0: return a.args[1]
            return mk('proj', a, ('i', i))
        if a.op == 'popped': a = a.args[0]; continue
        if a.op == 'slice':       # slice(base, off, len)
            return _index(a.args[0], add(a.args[1], i))
        return mk('proj', a, ('i', i))
def index(a, i): return lift('idx', _index, a, i)

def _store(a, i, v):
    if a.op == 'store' and a.args[1] is i: a = a.args[0]
    if a.op == 'arr' and i.op == 'i' and 0 <= i.args[0] < len(a.args[0]):
        xs = list(a.args[0]); xs[i.args[0]] = v
        return mk('arr', tuple(xs))
    if v.op == 'proj' and v.args[1] == ('i', i) and v.args[0] is a: return a
    return mk('store', a, i, v)
def store(a, i, v):
    if is_node(i):
        if i.op == 'ite': return ite(i.args[0], store(a, i.args[1], v), store(a, i.args[2], v))
    if is_node(a): return lift('store#%d' % v.key, lambda x, j: _store(x, j, v), a, i)
    if a.op == 'slice': return mk('slicew', a, i, v)
    return _store(a, i, v)

def _length(a):
    if a.op == 's': return I(len(a.args[0].encode()))
    while True:
        if a.op == 'store': a = a.args[0]; 
        elif a.op == 'arr': return I(len(a.args[0]))
        elif a.op == 'push': return add(length(a.args[0]), I(1))
        elif a.op == 'tab': return a.args[0]
        elif a.op == 'slice': return a.args[2]
        elif a.op == 's': return I(len(a.args[0].encode()))
        elif a.op == 'fold' and fold_keeps_len(a): a = a.args[1][a.args[3]]
        elif a.op == 'sorted' or a.op == 'swap': a = a.args[0]
        elif a.op == 'unview' or a.op == 'wslice': a = a.args[1] if a.op == 'unview' else a.args[0]
        elif a.op == 'resize': return a.args[1]
        elif a.op == 'popped' or a.op == 'removed': return sub(length(a.args[0]), I(1))
        elif a.op == 'view': return div(mul(length(a.args[3]), I(a.args[1])), I(a.args[2]))
        elif is_node(a): return length(a)
        else: return mk('len', a)
def length(a): return lift('len', _length, a)

_fkl = {}
def fold_keeps_len(f):
    r = _fkl.get(f)
    if r is None:
        j = f.args[3]
        bv = mk('bv', f.args[-1], j)
        _fkl[f] = False
        r = length(f.args[2][j]) is mk('len', bv)
        _fkl[f] = r
    return r

# ---------------------------------------------------------------- substitution
CONS = {
    'ite': lambda v, a, b: ite(boolify(v), a, b),
    'lin': None, 'mul': None,
    'div': div, 'rem': rem, 'fadd': fadd, 'fsub': fsub, 'fmul': fmul, 'fdiv': fdiv, 'fneg': fneg,
    'flt': flt, 'fle': fle, 'feq': feq, 'lt0': lambda d: lift('lt0', lambda x: _lt0(x), d),
    'eq0': lambda d: eq(d, I(0)), 'eqt': eq,
    'imin': lambda a, b: imin(a, b), 'imax': lambda a, b: imax(a, b), 'len': length, 'shl': shl, 'shr': shr, 'not': bnot,
    'L:add': add, 'L:sub': sub, 'L:mul': mul, 'L:fadd': fadd, 'L:fsub': fsub, 'L:fmul': fmul, 'L:fdiv': fdiv,
    'L:eq': eq, 'L:div': div, 'L:rem': rem, 'L:flt': flt, 'L:fle': fle, 'L:feq': feq, 'L:len': length, 'L:and': band, 'L:or': bor, 'L:xor': bxor,
}
def ucast(x, bits):
    def f(x):
        if x.op == 'i': return I(x.args[0] % (1 << bits))
        return x if nonneg(x) else mk('ucast', bits, x)
    return lift('ucast%d' % bits, f, x)
CONS['ucast'] = lambda b, x: ucast(x, b)
UNOPS = {}   # filled by interp for lifted uninterpreted unary functions

def boolify(t):
    if t.op in ('b', 'ite', 'sw') or t.op in BOOLOPS: return t
    if t.op == 'i': return B(t.args[0] != 0)
    return mk('B', t)

def rebuild(op, args):
    f = CONS.get(op)
    if f is not None: return f(*args)
    if op == 'sw':
        v, items, d = args
        v0 = v
        dd = None if domain(v0) is not None else d
        items = dict(items)
        if v.op == 'i':
            return items.get(v.args[0], d)
        if v.op == 'b':
            return items.get(int(v.args[0]), d)
        if is_node(v):
            r = d if dd is not None else None
            ks = sorted(items)
            if r is None: r = items[ks[-1]]; ks = ks[:-1]
            for k in ks: r = ite(eq(v, I(k)), items[k], r)
            return r
        c, m = lin_parts(v)
        if domain(v) is None and (c != 0 or len(m) != 1 or list(m.values()) != [1]):
            r = d
            for k in sorted(items): r = ite(eq(v, I(k)), items[k], r)
            return r
        return mk_sw_gen(v, items, dd)
    if op == 'lin':
        r = I(args[0])
        for m, k in args[1]: r = add(r, mul(m, I(k)))
        return r
    if op == 'mul':
        r = args[0][0]
        for m in args[0][1:]: r = mul(r, m)
        return r
    if op in ('and', 'or', 'xor'):
        f = {'and': band, 'or': bor, 'xor': bxor}[op]
        r = args[0][0]
        for m in args[0][1:]: r = f(r, m)
        return r
    if op == 'proj': return proj(args[0], args[1])
    if op == 'upd': return upd(args[0], args[1], args[2])
    if op == 'store': return store(args[0], args[1], args[2])
    if op == 'B': return boolify(args[0])
    if op == 'discr': return discr(args[0], args[1])
    if op == 'fold': return mk_fold(*args)
    if op == 'tab': return mk('tab', *args)
    if op in UNOPS: return UNOPS[op](*args)
    return mk(op, *args)

def discr(v, n):
    def f(x):
        if x.op == 'agg': return I(x.args[1])
        if x.op == 'upd': return f(strip_upd(x)[0])
        return mk('discr', x, n)
    return lift('discr%s' % n, f, v)

def subst(t, m, memo=None):
    if memo is None: memo = {}
    return _subst(t, m, memo, frozenset(m) if all(x.op in ('lv', 'kap') for x in m) else None)

def _subst(t, m, memo, lvs):
    r = m.get(t)
    if r is not None: return r
    if lvs is not None and not (t._fv and (t._fv & lvs)): return t
    r = memo.get(t)
    if r is not None: return r
    ch = False
    def go(a):
        nonlocal ch
        if isinstance(a, Term):
            b = _subst(a, m, memo, lvs)
            if b is not a: ch = True
            return b
        if isinstance(a, tuple): return tuple(go(x) for x in a)
        return a
    args = tuple(go(a) for a in t.args)
    r = rebuild(t.op, args) if ch else t
    memo[t] = r
    return r

def mk_fold(n, inits, steps, j, h):
    """after n iterations of simultaneous steps, component j.  Bound: bv(h,i), k(h)."""
    if n.op == 'i' and n.args[0] == 0: return inits[j]
    bv = mk('bv', h, j)
    if steps[j] is bv or steps[j] is mk('bu', h, j): return inits[j]
    # push of a function of k only onto an empty vector: tabulation
    s = steps[j]
    if s.op == 'push' and s.args[0] is bv and inits[j].op == 'arr' and not inits[j].args[0] \
            and not contains_op(s.args[1], 'bv', h):
        return mk('tab', n, s.args[1], h)
    # element-wise overwrite of a whole array: iteration k writes position k from position k's own old value
    if is_node(s) or s.op == 'store':
        if length(inits[j]) is n:
            v = elemwise(s, bv, mk('k', h))
            if v is not None:
                old = proj(bv, ('i', mk('k', h)))
                v = subst(v, {old: index(inits[j], mk('k', h))})
                if not contains_op(v, 'bv', h): return mk('tab', n, v, h)
    return mk('fold', n, inits, steps, j, h)

def elemwise(s, bv, k):
    if s is bv: return proj(bv, ('i', k))
    if s.op == 'store':
        if s.args[1] is not k: return None
        if s.args[0] is bv: return s.args[2]
        return s.args[2] if elemwise(s.args[0], bv, k) is not None else None
    if s.op == 'ite':
        a, b = elemwise(s.args[1], bv, k), elemwise(s.args[2], bv, k)
        return None if a is None or b is None else ite(s.args[0], a, b)
    if s.op == 'sw':
        items = {kk: elemwise(c, bv, k) for kk, c in s.args[1]}
        d = None if domain(s.args[0]) is not None else elemwise(s.args[2], bv, k)
        if any(x is None for x in items.values()) or (d is None and domain(s.args[0]) is None): return None
        return mk_sw_gen(s.args[0], items, d)
    return None

def is_mu(t): return t.op == 'wfold' and not t.args[1]       # number of iterations without a closed form
def trip(C, kap):
    """number of iterations when the continue condition depends on the counter only"""
    if C is FALSE: return I(0)
    if C.op == 'ite' and C.args[0].op in ('lt0', 'eq0'):
        v, hi, lo = C.args
        if lo is FALSE and hi is not TRUE: parts = (v, hi)
        elif hi is FALSE and lo is not TRUE: parts = (NOT(v), lo)
        else: parts = None
        if parts:
            a, b = trip(parts[0], kap), trip(parts[1], kap)
            if not is_mu(a) and not is_mu(b):
                return imin(a, b)
    if C.op in ('ite', 'sw') and kap not in fv(C.args[0]):      # the loop runs differently depending on its environment
        v = C.args[0]
        if C.op == 'ite': subs = [trip(x, kap) for x in C.args[1:]]
        else: subs = [trip(x, kap) for _, x in C.args[1]] + ([trip(C.args[2], kap)] if domain(v) is None else [])
        if not any(contains(x, is_mu) for x in subs):
            if C.op == 'ite': return ite(v, subs[0], subs[1])
            return mk_sw_gen(v, dict(zip([k for k, _ in C.args[1]], subs)), subs[-1] if domain(v) is None else None)
    d = None
    if C.op == 'lt0': d = C.args[0]
    elif C.op == 'ite' and C.args[0].op == 'lt0' and C.args[1] is FALSE and C.args[2] is TRUE:
        d = sub(I(-1), C.args[0].args[0])
    elif C.op == 'sw' and C.args[0] is kap: d = None
    if d is not None:
        c, ms = lin_parts(d)
        k = ms.pop(kap, 0)
        r = mk_lin(c, ms)
        if k > 0 and kap not in fv(r):
            if k == 1: return neg(r)
            return div(add(neg(r), I(k - 1)), I(k))
    # not (kap == n - 0): while i != n
    if C.op == 'sw':
        v, items, dd = C.args
        if v is kap and dd is TRUE and len(items) == 1 and items[0][1] is FALSE: return I(items[0][0])
    if C.op == 'ite' and C.args[0].op == 'eq0' and C.args[1] is FALSE and C.args[2] is TRUE:
        c, ms = lin_parts(C.args[0].args[0])
        k = ms.pop(kap, 0)
        r = mk_lin(c, ms)
        if abs(k) == 1 and kap not in fv(r): return mul(r, I(-k))
    h = C.ht + 1
    return mk('wfold', subst(C, {kap: mk('k', h)}), (), (), -1, h)

def contains_op(t, op, h, j=None):
    seen = set(); st = [t]
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x)
        if (x.op == op or op == 'bv' and x.op == 'bu') and x.args[0] == h and (j is None or x.args[1] == j): return True
        if x.ht < h: continue
        st += subterms_of(x)
    return False

def contains(t, pred):
    seen = set(); st = [t]
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x)
        if pred(x): return True
        st += subterms_of(x)
    return False

def find_all(t, pred):
    seen = set(); st = [t]; out = []
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x)
        if pred(x): out.append(x)
        st += subterms_of(x)
    return out

# ---------------------------------------------------------------- printing
def show(t, depth=0, maxd=60):
    def a(x):
        if isinstance(x, Term): return show(x, depth + 1, maxd)
        if isinstance(x, tuple): return '(' + ', '.join(a(y) for y in x) + ')'
        return str(x)
    if depth > maxd: return '…'
    o = t.op
    if o == 'i': return str(t.args[0])
    if o == 'f': return repr(t.args[0]) + 'f'
    if o == 'b': return 'T' if t.args[0] else 'F'
    if o == 's': return repr(t.args[0])
    if o == 'lin':
        parts = []
        for m, k in t.args[1]: parts.append(('' if k == 1 else '-' if k == -1 else '%d*' % k) + a(m))
        if t.args[0]: parts.append(str(t.args[0]))
        return '(' + ' + '.join(parts) + ')'
    if o == 'mul': return '*'.join(a(x) for x in t.args[0])
    if o == 'lt0':
        return '{' + a(t.args[0]) + ' < 0}'
    if o == 'ite': return 'if %s {%s} else {%s}' % tuple(a(x) for x in t.args)
    if o == 'sw':
        d = '' if domain(t.args[0]) is not None else '; _: ' + a(t.args[2])
        return 'case %s {%s%s}' % (a(t.args[0]), '; '.join('%s: %s' % (k, a(c)) for k, c in t.args[1]), d)
    if o == 'proj':
        e = t.args[1]
        if e[0] == 'f': return '%s.%s' % (a(t.args[0]), e[1])
        if e[0] == 'vf': return '%s.v%d.%d' % (a(t.args[0]), e[1], e[2])
        if e[0] == 'i': return '%s[%s]' % (a(t.args[0]), a(e[1]))
    if o == 'arg': return 'arg%s' % t.args[0]
    if o == 'deref': return '*' + a(t.args[0])
    if o == 'k': return 'k%d' % t.args[0]
    if o in ('bv', 'bu'): return ('a%d_%d' if o == 'bv' else 'u%d_%d') % t.args
    if o == 'agg':
        return '%s#%s{%s}' % (str(t.args[0]).split('::')[-1], t.args[1], ', '.join(a(x) for x in t.args[2]))
    if o == 'fadd': return '(%s +. %s)' % (a(t.args[0]), a(t.args[1]))
    if o == 'fsub': return '(%s -. %s)' % (a(t.args[0]), a(t.args[1]))
    if o == 'fmul': return '(%s *. %s)' % (a(t.args[0]), a(t.args[1]))
    if o == 'fdiv': return '(%s /. %s)' % (a(t.args[0]), a(t.args[1]))
    return '%s(%s)' % (o, ', '.join(a(x) for x in t.args))
