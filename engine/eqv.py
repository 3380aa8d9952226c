"""Comparison of two normal forms: equal / definitely different / not decided.

`decide(a, b)` first asks for identity of the normal forms.  If that fails both are *relaxed*:
float arithmetic is read as rational functions (rounding and NaN abstracted away), comparisons become
sign conditions on a canonical polynomial.  What still differs is aligned structurally, and the result
is DIFF only if every differing pair consists of fully modelled terms whose disagreement is explicit
(distinct polynomials over the same independent atoms, distinct inputs, distinct constants, a
different iteration count, ...); anything else is UNKNOWN.
"""
import re
from fractions import Fraction
from itertools import permutations
from terms import *
import terms
from terms import _add, _scale

import os, time
TRACE = os.environ.get('VERIF_DEBUG') == '2'
SHAKY = object(); SHAKY_FACT = (mk('shaky'), True)
EQ, DIFF, UNK = 'equal', 'different', 'unknown'
terms.BOOLOPS |= {'pl0', 'ple0'}
FARITH = {'fadd', 'fsub', 'fmul', 'fdiv', 'fneg'}
MAXPOLY = 400

class Big(Exception): pass

def pconst(c): return {(): Fraction(c)} if c else {}
def padd_(a, b, s=1):
    r = dict(a)
    for m, k in b.items():
        v = r.get(m, 0) + s * k
        if v: r[m] = v
        else: r.pop(m, None)
    return r
def pmul_(a, b):
    r = {}
    if len(a) * len(b) > MAXPOLY * 4: raise Big()
    for m, k in a.items():
        for n, l in b.items():
            mn = tuple(sorted(m + n, key=lambda t: t.key))
            v = r.get(mn, 0) + k * l
            if v: r[mn] = v
            else: r.pop(mn, None)
    if len(r) > MAXPOLY: raise Big()
    return r

def rat(t):
    """float term -> (num, den) polynomials"""
    o = t.op
    if o == 'f':
        x = t.args[0]
        if x != x or x in (float('inf'), float('-inf')): return {(t,): Fraction(1)}, pconst(1)
        return pconst(Fraction(x)), pconst(1)
    if o in ('fadd', 'fsub'):
        n1, d1 = rat(t.args[0]); n2, d2 = rat(t.args[1])
        s = 1 if o == 'fadd' else -1
        if d1 == d2: return padd_(n1, n2, s), d1
        return padd_(pmul_(n1, d2), pmul_(n2, d1), s), pmul_(d1, d2)
    if o == 'fmul':
        n1, d1 = rat(t.args[0]); n2, d2 = rat(t.args[1])
        return pmul_(n1, n2), pmul_(d1, d2)
    if o == 'fdiv':
        n1, d1 = rat(t.args[0]); n2, d2 = rat(t.args[1])
        return pmul_(n1, d2), pmul_(d1, n2)
    if o == 'fneg':
        n, d = rat(t.args[0])
        return {m: -k for m, k in n.items()}, d
    if o == 'i2f':
        c, ms = lin_parts(t.args[0])
        p = pconst(c)
        for m, k in ms.items():
            q = {tuple(sorted((mk('i2f', f) for f in factors(m)), key=lambda t: t.key)): Fraction(k)}
            p = padd_(p, q)
        return p, pconst(1)
    if o == 'poly':
        return dict((m, Fraction(k)) for m, k in t.args[0]), pconst(1)
    if o == 'rat':
        return dict((m, Fraction(k)) for m, k in t.args[0]), dict((m, Fraction(k)) for m, k in t.args[1])
    return {(t,): Fraction(1)}, pconst(1)

def ptup(p):
    return tuple(sorted(((m, str(k)) for m, k in p.items()), key=lambda x: tuple(t.key for t in x[0])))
def common(n, d):
    """divide out common monomial factors and scale the denominator's leading coefficient to 1"""
    from collections import Counter
    if n:
        g = None
        for p in (n, d):
            for m in p:
                c = Counter(m)
                g = c if g is None else g & c
        if g:
            def red(m):
                c = Counter(m); c.subtract(g)
                return tuple(sorted(c.elements(), key=lambda t: t.key))
            n = {red(m): k for m, k in n.items()}; d = {red(m): k for m, k in d.items()}
    lead = d[min(d, key=lambda m: tuple(t.key for t in m))] if d else 1
    n = {m: k / lead for m, k in n.items()}; d = {m: k / lead for m, k in d.items()}
    if not n: d = pconst(1)
    return n, d
def mkrat(n, d):
    n, d = common(n, d)
    if d == pconst(1):
        if not n: return F(0)
        if len(n) == 1:
            (m, k), = n.items()
            if not m: 
                f = float(k)
                return F(f)
            if len(m) == 1 and k == 1: return m[0]
    return mk('rat', ptup(n), ptup(d))

_rmemo = {}
def relax(t):
    r = _rmemo.get(t)
    if r is None:
        r = _relax(t)
        _rmemo[t] = r
        _rmemo[r] = r
    return r
def _relax(t):
    ch = False
    def go(a):
        nonlocal ch
        if isinstance(a, Term):
            b = relax(a)
            if b is not a: ch = True
            return b
        if isinstance(a, tuple): return tuple(go(x) for x in a)
        return a
    args = tuple(go(a) for a in t.args)
    r = terms.rebuild(t.op, args) if ch else t
    return relax_top(r)
def relax_top(r):
    if is_node(r):
        return map_leaves(r, relax_leaf)
    return relax_leaf(r)
def map_leaves(t, f):
    return lift('ml' + f.__name__, f, t)
def relax_leaf(r):
    o = r.op
    if o == 'wfold' and r.args[0] is FALSE: return relax(r.args[1][r.args[3]]) if r.args[3] >= 0 else I(0)
    if o == 'wfold' and not contains_op(r.args[0], 'bv', r.args[4]):     # how often it goes round does not depend on what it computes
        n = terms.trip(boolify(r.args[0]), mk('k', r.args[4]))
        if not contains(n, lambda x: x.op == 'k' and x.args[0] == r.args[4]) and not contains(n, terms.is_mu) and not (r.args[3] < 0 and r.args[1]): return relax(n) if r.args[3] < 0 else terms.mk_fold(relax(n), *r.args[1:])
    if o == 'mul' and len(r.args[0]) == 2 and not any(is_node(x) for x in r.args[0]):
        for a, q in (r.args[0], r.args[0][::-1]):
            if q.op == 'div' and q.args[1] is a: return relax(sub(q.args[0], terms.rem(q.args[0], a)))
    if o == 'rem' and r.args[1].op not in ('i', 'lin') and r.args[0].op == 'lin' and nonneg(r.args[1]):
        c, ms = lin_parts(r.args[0]); a = r.args[1]
        if c == -1 and ms.get(a) == 1:          # one less than a multiple of a above x
            x = terms.rem(mk_lin(0, {m: k for m, k in ms.items() if m is not a}), a)
            if x.op == 'rem': return ite(eq(x, I(0)), sub(a, I(1)), sub(x, I(1)))
    try:
        if o in FARITH or o == 'i2f' or o == 'rat':
            return mkrat(*rat(r))
        if o in ('flt', 'fle'):
            n, d = rat(_mkf('fsub', r.args[0], r.args[1]))
            n, d = common(n, d)
            if d != pconst(1): return fcmp_raw(o, r)
            if not n: return FALSE if o == 'flt' else TRUE
            if len(n) == 1 and () in n:
                return B(n[()] < 0 if o == 'flt' else n[()] <= 0)
            lead = n[min((m for m in n if m), key=lambda m: tuple(t.key for t in m))]
            q = mk('poly', ptup({m: k / abs(lead) * (1 if lead > 0 else -1) for m, k in n.items()}))
            if lead > 0: return mk('pl0' if o == 'flt' else 'ple0', q)
            return NOT(mk('ple0' if o == 'flt' else 'pl0', q))
        if o == 'feq':
            n, d = rat(_mkf('fsub', r.args[0], r.args[1]))
            n, d = common(n, d)
            if d == pconst(1):
                if not n: return TRUE
                lead = n[min(n, key=lambda m: tuple(t.key for t in m))]
                return mk('feq', mk('poly', ptup({m: k / lead for m, k in n.items()})), F(0)) if not (len(n) == 1 and () in n) else FALSE
        if o in ('fmin', 'fmax', 'fabs'): return r
    except Big: pass
    return r
def fcmp_raw(o, r):
    if o == 'fle': return NOT(mk('flt', r.args[1], r.args[0]))
    return r
def _mkf(o, a, b): return mk(o, a, b)

def evalpoly(p):
    n, d = {}, pconst(1)
    for m, k in p:
        tn, td = pconst(Fraction(k)), pconst(1)
        for x in m:
            xn, xd = rat(x); tn = pmul_(tn, xn); td = pmul_(td, xd)
        if d == td: n = padd_(n, tn)
        else: n = padd_(pmul_(n, td), pmul_(tn, d)); d = pmul_(d, td)
    return n, d
def _cons_rat(n, d):
    ts = [x for m, _ in n + d for x in m]
    nod = [x for x in dict.fromkeys(ts) if is_node(x)]
    if nod:                                 # an atom became conditional: distribute
        return lift('ratnode', lambda *leaves: _cons_rat(_rep(n, dict(zip(nod, leaves))), _rep(d, dict(zip(nod, leaves)))), *nod)
    n1, d1 = evalpoly(n); n2, d2 = evalpoly(d)
    return mkrat(pmul_(n1, d2), pmul_(d1, n2))
def _rep(p, m): return tuple((tuple(m.get(x, x) for x in mm), k) for mm, k in p)
terms.CONS['rat'] = _cons_rat
terms.CONS['poly'] = lambda p: _cons_rat(p, (((), '1'),))
terms.CONS['pl0'] = lambda q: lift('rpl0', lambda x: relax_leaf(mk('flt', x, F(0))), q)
terms.CONS['ple0'] = lambda q: lift('rple0', lambda x: relax_leaf(mk('fle', x, F(0))), q)

# ------------------------------------------------------------------ comparison
UNMODELLED = {'call', 'ret', 'out', 'undef', 'ux', 'mu', 'blind', 'lv', 'kap', 'kop', 'rawslice', 'huge'}
_um = {}
_of = {}
def outer_folds(t):
    if t not in _of:
        out = set(); seen = set(); todo = [t]
        while todo:
            x = todo.pop()
            if not isinstance(x, Term):
                if isinstance(x, (tuple, list)): todo.extend(x)
                continue
            if x in seen: continue
            seen.add(x)
            if x.op in ('fold', 'wfold'): out.add(x)
            else: todo.extend(x.args)
        _of[t] = frozenset(out)
    return _of[t]
def callof(t):
    while t.op in ('discr', 'ret', 'out', 'proj') and isinstance(t.args[0], Term): t = t.args[0]
    return t.args[0] if t.op == 'call' else None
def unmodelled(t, allow=()):
    """does the term contain something the analysis does not understand?"""
    def bad(x):
        if x.op.startswith('L:'): return True
        if x.op in UNMODELLED:
            if x.op == 'rawslice' and any(r.search('rawslice') for r in allow): return False
            if x.op == 'call' and any(r.search(x.args[0]) for r in allow): return False
            if x.op in ('ret', 'out') and x.args[0].op == 'call' and any(r.search(x.args[0].args[0]) for r in allow): return False
            return True
        return False
    k = (t, allow)
    if k not in _um: _um[k] = contains(t, bad)
    return _um[k]

FLOATOPS = FARITH | {'f', 'rat', 'i2f', 'fmin', 'fmax', 'fabs', 'sqrt', 'exp', 'ln', 'floor', 'copysign', 'powf', 'f2f'}
INTOPS = {'i', 'lin', 'len', 'k', 'imin', 'imax', 'mul', 'div', 'rem'}

ENUMS = set()
_plain = re.compile(r'^[a-z_]+(::\w+)+$')
def instance(x, y):
    return bool(_plain.match(x) and _plain.match(y) and x.rsplit('::', 1)[0] == y.rsplit('::', 1)[0])

def tab_fold(t):
    n, e, h = t.args
    h2 = h + 1
    return mk('fold', n, (mk('arr', ()),), (mk('push', mk('bv', h2, 0), subst(e, {mk('k', h): mk('k', h2)})),), 0, h2)

def runs(n, h):
    """what is known in every step of a loop whose number of steps is the number of steps of a search loop"""
    if n.op != 'wfold' or n.args[1] != () or n.args[3] != -1: return None
    return relax(subst(n.args[0], {mk('k', n.args[4]): mk('k', h)}))
UNI = {}
class Cmp:
    def __init__(self, allow=(), budget=20000):
        self.allow = tuple(allow); self.diffs = []; self.budget = budget; self.seen = {}; self.twins = {}; self.cur = []
    def decide(self, a, b):
        if a is b: return EQ
        a, b = relax(a), relax(b)
        b = self.unify(a, b)
        r = self.cmp(a, b, [])
        return r
    def unify(self, a, b):
        """replace loops inside b by provably equal loops inside a, innermost first"""
        def loops(t): return find_all(t, lambda x: x.op in ('fold', 'wfold', 'tab'))
        for _ in range(12):
            la, lb = loops(a), loops(b)
            sa, sb = set(la), set(lb)
            la = sorted((x for x in la if x not in sb and x is not a), key=lambda x: x.size); lb = sorted((x for x in lb if x not in sa and x is not b), key=lambda x: x.size)
            if len(la) * len(lb) > 900: return b
            m = {}
            for y in lb:
                for x in la:
                    if x.op != y.op and 'wfold' in (x.op, y.op): continue
                    if x.op == y.op != 'tab' and (len(x.args[1]) != len(y.args[1]) or (x.args[3] < 0) != (y.args[3] < 0)): continue
                    if not (0.2 < x.size / y.size < 5): continue
                    if (x, y) not in UNI:
                        UNI[x, y] = None
                        q = Cmp(self.allow, 1500)
                        UNI[x, y] = q.cmp(x, y, []) is EQ
                    if UNI[x, y]: m[y] = x; break
                if m: break
            if not m: return b
            b = relax(subst(b, m))
        return b
    def known(self, v, facts):
        """the value the facts give to an equivalent decision, or SHAKY when that could not be found out"""
        if not contains(v, lambda x: x.op in ('fold', 'wfold')): return None
        out = None
        for w, val in facts:
            if w is v or w.op != v.op or len(w.args) != len(v.args) or not contains(w, lambda x: x.op in ('fold', 'wfold')): continue
            k = (v, w)
            if k not in self.twins:
                self.twins[k] = UNK
                saved, self.diffs = self.diffs, []
                self.twins[k] = self.twin(v, w, [])
                self.diffs = saved
            if self.twins[k] is DIFF:           # different in general, perhaps not here
                f2 = [(f, b) for f, b in facts if not contains(f, lambda x: x.op in ('fold', 'wfold'))]
                if f2:
                    k = (v, w, frozenset(f2))
                    if k not in self.twins:
                        self.twins[k] = UNK
                        saved, self.diffs = self.diffs, []
                        self.twins[k] = self.twin(v, w, f2)
                        self.diffs = saved
            if self.twins[k] is EQ: return val
            if self.twins[k] is UNK:
                out = SHAKY
                if TRACE: print('TWIN', show(v)[:100], '...', show(v)[-150:], '|', show(w)[:100], '...', show(w)[-150:])
        return out
    def twin(self, v, w, facts):
        a, b = callof(v), callof(w)
        if a is not None and b is not None and a != b and self.ok(v) and self.ok(w): return DIFF        # answers of different library functions
        fv, fw = outer_folds(v), outer_folds(w)
        if fv <= fw or fw <= fv: return DIFF        # nothing loop-carried that could be the same in another form
        seen, self.seen, free, self.free = self.seen, {}, self.free, True
        try: return self.join([self.cmp(x, y, facts) for x, y in zip(v.args, w.args) if isinstance(x, Term)])
        finally: self.seen, self.free = seen, free
    free = False
    def note(self, a, b, sure):
        if SHAKY_FACT in self.cur: sure = False
        if TRACE: print('NOTE', sure, show(a)[:200], '|', show(b)[:200], *['\n    %s %s' % (v, show(f)[:200]) for f, v in self.cur])
        if len(self.diffs) < 12: self.diffs.append((a, b, sure))
        return DIFF if sure else UNK
    def cmp(self, a, b, facts):
        if a is b: return EQ
        key = (a, b, frozenset(facts))
        if key in self.seen: return self.seen[key]
        self.budget -= 1
        if self.budget < 0: return self.note(a, b, False)
        old, self.cur = self.cur, facts
        d0 = self.diffs[:]
        r = self._cmp(a, b, facts)
        self.cur = old
        if r is not EQ and facts and entailed_equal(a, b, facts): r = EQ; self.diffs = d0
        self.seen[key] = r
        return r
    def join(self, rs):
        rs = list(rs)
        if DIFF in rs: return DIFF
        if UNK in rs: return UNK
        return EQ
    def _cmp(self, a, b, facts):
        if a.op == 'undef' or b.op == 'undef': return EQ        # don't care
        for x, y in ((a, b), (b, a)):          # a boolean value against a constant: split on it
            if (x is TRUE or x is FALSE) and y.op in ('bv', 'bu', 'fold', 'wfold', 'proj', 'ret', 'arg', 'out'):
                v = mk('B', y); val = dict((f, w) for f, w in facts if f.op == 'B').get(v)
                if val is not None: return EQ if (x is TRUE) == val else self.note(a, b, self.ok(a) and self.ok(b))
                if contains(v, lambda q: q.op in ('fold', 'wfold')): break
                return self.join([self.cmp(x, B(w), facts + [(v, w)]) for w in (True, False) if feasible(facts + [(v, w)])])
        ft = float_int(a) or float_int(b)
        if ft is not None: return self.split_f2i(ft, a, b, facts)
        uc = signed_cast(a) or signed_cast(b)
        if uc is not None: return self.split_ucast(uc, a, b, facts)
        mm = minmax(a) or minmax(b)
        if mm is not None: return self.split_minmax(mm, a, b, facts)
        if is_node(a) or is_node(b) or (topvar(a) is not None or topvar(b) is not None):
            return self.split(a, b, facts)
        rm = self.residual(a, b)
        if rm is EQ: return EQ
        if a.op in ('rat', 'poly', 'lin') or b.op in ('rat', 'poly', 'lin'):
            r = self.atoms(a, b, facts)
            if r is not None: return r
        # same constructor: descend
        if a.op == b.op and a.op not in ('i', 'f', 's', 'lin', 'rat', 'mul', 'arg', 'b', 'k', 'bv', 'bu'):
            if a.op in ('fold', 'wfold'): return self.cmp_fold(a, b, facts)
            if a.op == 'tab':
                h1, h2 = a.args[2], b.args[2]
                h = max(h1, h2)
                x = subst(a.args[1], {mk('k', h1): mk('k', h)}); y = subst(b.args[1], {mk('k', h2): mk('k', h)})
                r0 = self.cmp(a.args[0], b.args[0], facts); d0 = self.diffs[:]; r1 = self.cmp(x, y, facts)
                going = runs(a.args[0], h)
                if r1 is not EQ and r0 is EQ and going is not None:
                    z = mk('stop'); self.diffs = d0
                    r1 = self.cmp(ite(going, x, z), ite(going, y, z), facts)
                return self.join([r0, r1])
            if a.op == 'proj':
                if a.args[1] == b.args[1] or (a.args[1][0] == 'i' and b.args[1][0] == 'i'):
                    rs = [self.cmp(a.args[0], b.args[0], facts)]
                    if a.args[1][0] == 'i': rs.append(self.cmp(a.args[1][1], b.args[1][1], facts))
                    return self.weak(a, b, rs)
                return self.note(a, b, self.ok(a) and self.ok(b))
            if a.op == 'upd':
                ra, fa = strip_upd(a); rb, fb = strip_upd(b)
                rs = [self.cmp(ra, rb, facts)]
                for k in set(fa) | set(fb):
                    x = fa[k] if k in fa else proj(ra, k)
                    y = fb[k] if k in fb else proj(rb, k)
                    rs.append(self.cmp(x, y, facts))
                return self.join(rs)
            if self.shape(a.args, b.args):
                rs = []
                self.args(a.args, b.args, facts, rs)
                return self.weak(a, b, rs)
        for x, y in ((a, b), (b, a)):          # one element overwritten against nothing overwritten
            if x.op == 'store' and x.args[0] is y:
                u, v = x.args[2], relax(index(y, x.args[1]))
                return self.cmp(u, v, facts) if x is a else self.cmp(v, u, facts)
        if a.op == 'fold' and b.op == 'tab': b = tab_fold(b)
        elif a.op == 'tab' and b.op == 'fold': a = tab_fold(a)
        if a.op == 'fold' and b.op == 'fold' and len(a.args[1]) == len(b.args[1]): return self.cmp_fold(a, b, facts)
        if (a.op == 'upd') != (b.op == 'upd'):
            ra, fa = strip_upd(a); rb, fb = strip_upd(b)
            if ra is rb:
                return self.join([self.cmp(fa[k] if k in fa else proj(ra, k), fb[k] if k in fb else proj(rb, k), facts) for k in set(fa) | set(fb)])
        if (a.op == 'wslice') != (b.op == 'wslice'):
            x, y = (a, b) if a.op == 'wslice' else (b, a)
            return self.note(a, b, self.ok(a) and self.ok(b) and x.args[3].op == 'sorted' and (y is x.args[0] or y.op == 'sorted'))
        if a.op == 'call' and b.op == 'call' and a.args[0] == b.args[0]:
            g, h = a.args[1], b.args[1]
            if len(g) == len(h) and self.shape(a.args[2], b.args[2]) and all(x == y or instance(x, y) for x, y in zip(g, h)):
                return self.note(a, b, self.ok(a) and self.ok(b))    # another instance of the same generic function
            return self.note(a, b, False)   # changed signature
        for x, y in ((a, b), (b, a)):
            if x.op == 'agg' and x.args[0] not in ENUMS and x.args[2] and not str(x.args[0]).startswith(('it:', 'closure:', 'CATCH')) and (y.op in ('proj', 'deref', 'arg', 'ret', 'out', 'bv', 'store', 'upd')):
                return self.join([self.cmp(x.args[2][i], proj(y, ('f', i)), facts) if x is a else self.cmp(proj(y, ('f', i)), x.args[2][i], facts) for i in range(len(x.args[2]))])
        return self.note(a, b, self.ok(a) and self.ok(b) and self.comparable(a, b))
    def atoms(self, a, b, facts):
        """polynomials over different atoms: pair the atoms up first"""
        def at(t):
            if t.op in ('rat', 'poly'):
                out = []
                for p in t.args:
                    for m, _ in p: out += list(m)
                return list(dict.fromkeys(out))
            if t.op == 'lin': return list(dict.fromkeys(x for m, _ in t.args[1] for x in factors(m)))
            if t.op in ('i', 'f'): return []
            return [t]
        xs, ys = at(a), at(b)
        oa = [x for x in xs if x not in ys]; ob = [y for y in ys if y not in xs]
        if not oa and not ob: return self.note(a, b, self.ok(a) and self.ok(b))
        m = {}
        saved = self.diffs; unk = False; dd = []
        left = list(ob)
        pend = []
        for x in oa:
            hit = None
            for y in left:
                if x.op != y.op: continue
                self.diffs = []
                r = self.cmp(x, y, facts)
                if r is EQ: hit = y; break
                pend.append((x, y, r, self.diffs))
            if hit is not None: m[x] = hit; left.remove(hit)
        self.diffs = saved
        ra = [x for x in oa if x not in m]
        if m:
            a2 = relax(subst(a, m))
            if a2 is b: return EQ
            if self.residual(a2, b) is EQ: return EQ
            if not ra and not left: return self.note(a2, b, self.ok(a) and self.ok(b))
        pend = [p for p in pend if p[0] in ra and p[1] in left]
        # unmatched atoms: definite only if each is explicit or definitely differs from every same-shaped candidate
        for x in ra + left:
            mine = [p for p in pend if p[0] is x or p[1] is x]
            if any(p[2] is UNK for p in mine): return self.note(a, b, False)
            if not mine and x.op in ('fold', 'wfold', 'tab') : return self.note(a, b, False)
        if pend:
            best = min(pend, key=lambda p: len(p[3]))
            self.diffs = self.diffs + best[3][:4]
        return self.note(a, b, self.ok(a) and self.ok(b))
    def weak(self, a, b, rs):
        """children differ: are the parents definitely different?  injective-looking constructors only"""
        r = self.join(rs)
        if r is DIFF and self.free and self.ok(a) and self.ok(b): return DIFF
        if r is DIFF and a.op in ('store', 'push', 'call', 'ret', 'out', 'slice', 'view'):
            return DIFF if self.ok(a) and self.ok(b) else UNK
        return r
    def ok(self, t): return not unmodelled(t, self.allow)
    def comparable(self, a, b):
        """both values are explicit expressions whose difference is semantic"""
        fl = lambda t: t.op in FLOATOPS
        explicit = {'i', 'f', 's', 'lin', 'rat', 'arg', 'proj', 'deref', 'len', 'bv', 'bu', 'k', 'mul', 'imin', 'imax', 'b', 'agg', 'arr', 'null'}
        simple = lambda t: t.op in explicit or fl(t)
        if a.op in ('fold', 'wfold') or b.op in ('fold', 'wfold'):
            # a loop-carried value against a loop-free one
            return simple(a) or simple(b)
        if simple(a) and simple(b): return True
        if {a.op, b.op} in ({'ret', 'out'}, {'ret', 'mem'}): return True          # results of different library calls
        if {a.op, b.op} == {'ret', '&'}:
            x, y = [callof(t.args[0] if t.op == '&' else t) for t in (a, b)]
            if x is not None and y is not None and x != y: return True
        return a.op != b.op and (simple(a) or simple(b)) or (a.op == b.op)
    def residual(self, a, b):
        if a.op in FLOATOPS or b.op in FLOATOPS or a.op == 'rat' or b.op == 'rat':
            try:
                n1, d1 = rat(a); n2, d2 = rat(b)
                if padd_(pmul_(n1, d2), pmul_(n2, d1), -1) == {}: return EQ
            except Big: return UNK
        return None
    def shape(self, x, y):
        if len(x) != len(y): return False
        for a, b in zip(x, y):
            if isinstance(a, Term) != isinstance(b, Term): return False
            if isinstance(a, tuple):
                if not isinstance(b, tuple) or not self.shape(a, b): return False
            elif not isinstance(a, Term) and a != b: return False
        return True
    def args(self, x, y, facts, rs):
        for a, b in zip(x, y):
            if isinstance(a, Term): rs.append(self.cmp(a, b, facts))
            elif isinstance(a, tuple): self.args(a, b, facts, rs)
    def pairings(self, a, b, xs, ys, h, limit=150):
        """plausible correspondences between the variables of two loops: same initial value and same shape of the update"""
        def sig(t, x):
            n, i, s, j, ht = t.args
            m = {mk(o, ht, q): mk('bv', h, 0) for q in range(len(i)) for o in ('bv', 'bu')}; m[mk('k', ht)] = mk('k', h)
            return (relax(i[x]), relax(subst(s[x], m)))
        sa = {x: sig(a, x) for x in xs}; sb = {y: sig(b, y) for y in ys}
        cands = []
        for k in (lambda p: p, lambda p: p[0], lambda p: p[1], lambda p: 0):
            used = {y for x, c in cands for y in c}; done = {x for x, c in cands}
            for x in xs:
                if x in done: continue
                c = [y for y in ys if y not in used and k(sa[x]) == k(sb[y])]
                same = [z for z in xs if z not in done and k(sa[z]) == k(sa[x])]
                if c and len(c) == len(same): cands.append((x, c))
        cm = dict(cands); n = 0
        if set(cm) != set(xs): yield tuple(ys); return
        def rec(i, acc):
            if i == len(xs): yield tuple(acc); return
            for y in cm[xs[i]]:
                if y not in acc: yield from rec(i + 1, acc + [y])
        for p in rec(0, []):
            yield p
            n += 1
            if n >= limit: return
    def ahead(self, t, facts):
        """the same loop one round later, if it certainly takes that round"""
        c, inits, steps, j, h = t.args
        if contains(mk('o', c, *steps), lambda x: x is mk('k', h)): return None
        m = {mk(o, h, i): inits[i] for i in range(len(inits)) for o in ('bv', 'bu')}
        go = boolify(relax(subst(c, m)))
        for v, w in facts:
            if v.op in terms.BOOLOPS and isinstance(w, bool): go = cof_b(go, v, w)
            elif isinstance(w, int): go = terms.cof_k(go, v, w)
            elif isinstance(w, tuple) and all(k in w[1] for q in find_all(go, lambda q: q.op == 'sw' and q.args[0] is v) for k, _ in q.args[1]): go = terms.cof_k(go, v, None)
        if not impossible(conj([(v, w) for v, w in facts if isinstance(w, bool) and v.op in terms.BOOLOPS], NOT(go))): return None
        return mk('wfold', c, tuple(relax(subst(s, m)) for s in steps), steps, j, h)
    def cmp_fold(self, a, b, facts):
        n1, i1, s1, j1, h1 = a.args; n2, i2, s2, j2, h2 = b.args
        h = max(h1, h2)
        if len(i1) != len(i2) or (a.op == 'wfold' and (j1 < 0) != (j2 < 0)):
            return self.note(a, b, False)
        if a.op == 'wfold' and j1 >= 0 and any(x is not y for x, y in zip(i1, i2)):
            for x, y in ((a, b), (b, a)):
                p = self.ahead(x, facts)
                if p is not None and {t.key for t in p.args[1]} == {t.key for t in y.args[1]}:
                    a, b = (p, b) if x is a else (a, p)
                    n1, i1, s1, j1, h1 = a.args; n2, i2, s2, j2, h2 = b.args
                    break
        best = None
        m = len(i1)
        u1 = {x for x in range(m) if contains_op(mk('o', n1, *s1), 'bu', h1, x)}; u2 = {x for x in range(m) if contains_op(mk('o', n2, *s2), 'bu', h2, x)}
        others1 = [i for i in range(m) if i != j1]; others2 = [i for i in range(m) if i != j2]
        saved = self.diffs
        for perm in (permutations(others2) if m <= 4 else self.pairings(a, b, others1, others2, h)):
            self.diffs = list(saved)
            corr = {j1: j2} if j1 >= 0 else {}
            corr.update(zip(others1, perm))
            un = {x for x in range(m) if x in u1 or corr.get(x) in u2}
            ma = {mk(o, h1, x): mk('bu' if x in un else 'bv', h, x) for x in range(m) for o in ('bv', 'bu')}; ma[mk('k', h1)] = mk('k', h)
            mb = {mk(o, h2, y): mk('bu' if x in un else 'bv', h, x) for x, y in corr.items() for o in ('bv', 'bu')}; mb[mk('k', h2)] = mk('k', h)
            ma = {k: v for k, v in ma.items() if k is not v}; mb = {k: v for k, v in mb.items() if k is not v}
            xs = list(corr)
            ta = relax(subst(mk('o', n1, *(s1[x] for x in xs)), ma)); tb = relax(subst(mk('o', n2, *(s2[corr[x]] for x in xs)), mb))
            if a.op == 'fold': ta = mk('o', n1, *ta.args[1:]); tb = mk('o', n2, *tb.args[1:])
            tb = self.unify(ta, tb)
            rs = [self.cmp(ta.args[0], tb.args[0], facts)]
            for q, x in enumerate(xs):
                rs.append(self.cmp(i1[x], i2[corr[x]], facts))
                d0 = self.diffs; q1 = self.cmp(ta.args[q + 1], tb.args[q + 1], facts)
                if q1 is not EQ and rs[0] is EQ:       # a step is only taken while the condition holds
                    going = ta.args[0] if a.op == 'wfold' else runs(n1, h)
                    if going is not None:
                        z = mk('stop'); self.diffs = d0[:]
                        q1 = self.cmp(ite(going, ta.args[q + 1], z), ite(going, tb.args[q + 1], z), facts)
                rs.append(q1)
            r = self.join(rs)
            if r is EQ: self.diffs = saved; return EQ
            if best is None or len(self.diffs) < len(best[1]) or (best[0] is DIFF and r is UNK): best = (r, self.diffs)
        self.diffs = best[1]
        if not (self.ok(a) and self.ok(b)): return UNK if best[0] is not EQ else EQ
        return best[0]
    # -- case splitting on decision variables
    def split(self, a, b, facts):
        v = None
        for t in (a, b):
            tv = topvar(t)
            if tv is not None and (v is None or tv.key < v.key): v = tv
        if contains(v, is_choice) and not (contains(a, lambda x: x is v) and contains(b, lambda x: x is v)):
            w = choice(v)
            if w is not None: return self.split_inner(w, a, b, facts)
        if not self.ok(v) and SHAKY_FACT not in facts and not (contains(a, lambda x: x is v) and contains(b, lambda x: x is v)):
            if TRACE: print('SHAKY', show(v)[:150], '...', show(v)[-150:])
            facts = facts + [SHAKY_FACT]        # a decision about something not understood: it can be correlated with the others
        kn = self.known(v, facts)
        if kn is SHAKY: facts = facts + [SHAKY_FACT] if SHAKY_FACT not in facts else facts; kn = None
        if v.op in terms.BOOLOPS or any(t.op == 'ite' and t.args[0] is v for t in (a, b)):
            rs = []
            for val in (True, False):
                if kn in (True, False) and val != kn: continue
                f2 = facts + [(v, val)]
                if not feasible(f2): continue
                x, y = cof_b(a, v, val), cof_b(b, v, val)
                if contains(x, lambda q: q is v): x = relax(subst(x, {v: B(val)}))
                if contains(y, lambda q: q is v): y = relax(subst(y, {v: B(val)}))
                if v.op == 'eq0' and val: x, y = self.with_eq(v.args[0], x, y)
                rs.append(self.cmpf(x, y, f2))
            return self.join(rs)
        keys = set()
        for t in (a, b):
            if t.op == 'sw' and t.args[0] is v: keys.update(k for k, _ in t.args[1])
        rs = []
        for k in sorted(keys):
            if (type(kn) is int and k != kn) or (type(kn) is tuple and k in kn[1]): continue
            f2 = facts + [(v, k)]
            if not feasible(f2): continue
            x, y = cof_k(a, v, k), cof_k(b, v, k)
            if domain(v) is None: x, y = relax(subst(x, {v: I(k)})), relax(subst(y, {v: I(k)}))
            rs.append(self.cmpf(x, y, f2))
        if domain(v) is None and not (type(kn) is int and kn in keys):
            f2 = facts + [(v, ('not', tuple(sorted(keys))))]
            if feasible(f2): rs.append(self.cmpf(cof_k(a, v, None), cof_k(b, v, None), f2))
        return self.join(rs)
    def split_inner(self, t, a, b, facts):
        """the arguments of a decision depend on another decision: decide that one first"""
        v = t.args[0]; rs = []
        had = dict((f, w) for f, w in facts)
        for val in ((True, False) if t.op == 'ite' else range(domain(v))):
            if v in had and had[v] != val: continue
            f2 = facts + [(v, val)]
            if not feasible(f2): continue
            m = {v: B(val) if t.op == 'ite' else I(val)}
            x, y = relax(subst(a, m)), relax(subst(b, m))
            f2 = self.refine(f2, v, m)
            if f2 is None: continue
            if v.op == 'eq0' and val: x, y = self.with_eq(v.args[0], x, y)
            rs.append(self.cmpf(x, y, f2))
        return self.join(rs)
    def refine(self, facts, v, m):
        """what earlier decisions say once v is decided; None if they contradict it"""
        out = list(facts)
        for f, w in facts:
            if f is v or f is SHAKY_FACT[0] or not contains(f, lambda q: q is v): continue
            g = relax(subst(f, m))
            if g is TRUE or g is FALSE:
                if type(w) is bool and (g is TRUE) != w: return None
            elif g is not f and not is_node(g): out.append((g, w))
        return out
    def split_ucast(self, t, a, b, facts):
        """a signed number seen as an unsigned one: itself unless it is negative"""
        bits, x = t.args
        d = relax(lt(x, I(0), False)); rs = []
        for val in (True, False):
            if d in (TRUE, FALSE):
                if (d is TRUE) != val: continue
                f2 = facts
            else:
                f2 = facts + [lit(d, val)]
                if not feasible(f2): continue
            m = {t: mk('huge', bits, x) if val else x}
            f2 = self.refine(f2, t, m)
            if f2 is None: continue
            rs.append(self.cmp(relax(subst(a, m)), relax(subst(b, m)), f2))
        return self.join(rs)
    def split_f2i(self, t, a, b, facts):
        """conversions of one float E by truncation, rounding down, and clamped at zero agree once the sign of E is known"""
        e = base_float(t.args[1])
        d = relax(mk('flt', e, F(0)))
        same = [x for x in find_all(a, is_f2i) + find_all(b, is_f2i) if base_float(x.args[1]) is e]
        rs = []
        for val in (True, False):
            f2 = facts + [lit(d, val)]
            if d in (TRUE, FALSE):
                if (d is TRUE) != val: continue
                f2 = facts
            elif not feasible(f2): continue
            m = {}
            for x in same:
                if not val: m[x] = mk('f2i', 'uint', e)
                elif x.args[0][0] == 'u' or x.args[1].op == 'fmax': m[x] = I(0)
                elif x.args[1] is e: m[x] = neg(mk('f2i', 'uint', mk('fneg', e)))
                else: m[x] = sub(I(-1), mk('below', e))
            rs.append(self.cmp(relax(subst(a, m)), relax(subst(b, m)), f2))
        return self.join(rs)
    def split_minmax(self, t, a, b, facts):
        x, y = t.args
        un = not any(contains(z, lambda q: q.op in ('below', 'fneg') or (q.op == 'f2i' and q.args[0].startswith('i'))) for z in (x, y))
        z = I(0)
        if un and (x is z or y is z):          # unsigned: nothing is below zero
            pick = z if t.op == 'imin' else (y if x is z else x)
            return self.cmp(relax(subst(a, {t: pick})), relax(subst(b, {t: pick})), facts)
        d = relax(lt(x, y, un)) if t.op == 'imin' else relax(lt(y, x, un))
        rs = []
        for val, pick in ((True, x), (False, y)):
            f2 = facts + [lit(d, val)]
            if d in (TRUE, FALSE) and (d is TRUE) != val: continue
            if d not in (TRUE, FALSE) and not feasible(f2): continue
            m = {t: pick}
            rs.append(self.cmp(relax(subst(a, m)), relax(subst(b, m)), f2 if d not in (TRUE, FALSE) else facts))
        return self.join(rs)
    def cmpf(self, x, y, f2):
        return self.cmp(x, y, f2)
    def with_eq(self, d, x, y):
        c, ms = lin_parts(d)
        for m, k in sorted(ms.items(), key=lambda z: -z[0].size):
            if abs(k) == 1 and m.op != 'mul':
                rest = dict(ms); del rest[m]
                val = _scale(mk_lin(c, rest), -k)
                return relax(subst(x, {m: val})), relax(subst(y, {m: val}))
        return x, y

def lit(d, val):
    """a decision that may be stated in the negative, as a fact"""
    if d.op == 'ite' and d.args[1] is FALSE and d.args[2] is TRUE: return (d.args[0], not val)
    return (d, val)
def is_f2i(x): return x.op == 'f2i' and x.args[0] in ('isize', 'usize', 'i64', 'u64')
def base_float(x):
    while True:
        if x.op == 'floor': x = x.args[0]
        elif x.op == 'trunc' : x = x.args[0]
        elif x.op == 'fmax' and any(y.op == 'f' and y.args[0] == 0 for y in x.args): x = [y for y in x.args if not (y.op == 'f' and y.args[0] == 0)][0]
        else: return x
_mm = {}; _fi = {}
_uc = {}
def signed_cast(t): return innermost(t, lambda x: x.op == 'ucast', _uc)
def minmax(t): return innermost(t, lambda x: x.op in ('imin', 'imax'), _mm)
def float_int(t): return innermost(t, is_f2i, _fi)
def is_choice(x): return x.op == 'ite' or x.op == 'sw' and domain(x.args[0]) is not None
_ch = {}
def choice(t): return innermost(t, is_choice, _ch)
def cands(body, pred, h):
    """terms with the property in a loop body, independent of its iteration, smallest first"""
    seen = set(); st = []; out = []
    def push(a):
        if isinstance(a, Term):
            if a not in seen: seen.add(a); st.append(a)
        elif isinstance(a, tuple):
            for y in a: push(y)
    push(body)
    while st:
        x = st.pop()
        if pred(x) and not any(q.op in ('k', 'bv', 'bu') and q.args[0] <= h for q in find_all(x, lambda q: q.op in ('k', 'bv', 'bu'))): out.append(x)
        for a in x.args: push(a)
    out.sort(key=lambda x: x.size)
    return out
def innermost(t, pred, memo):
    """an innermost term with the property that does not depend on the iteration of a loop around it"""
    if t in memo: return memo[t]
    r = None
    def sub_(a):
        if isinstance(a, Term): return innermost(a, pred, memo)
        if isinstance(a, tuple):
            for x in a:
                r = sub_(x)
                if r is not None: return r
    if t.op in ('fold', 'wfold', 'tab'):
        h = t.args[-1]
        outer, body = {'fold': (t.args[:2], t.args[2]), 'wfold': (t.args[1], (t.args[0], t.args[2])), 'tab': (t.args[:1], t.args[1])}[t.op]
        r = sub_(outer)
        if r is None:
            for x in cands(body, pred, h):
                r = x; break
    else:
        for a in t.args:
            r = sub_(a)
            if r is not None: break
    if r is None and pred(t): r = t
    memo[t] = r
    return r
    return None

def feasible(facts, exits=True):
    """is the conjunction of decision atoms possibly satisfiable?  (linear facts: Fourier-Motzkin on a small system)"""
    cons = []; s = {}
    for v, val in facts:
        if v in s and s[v] != val and not isinstance(val, tuple) and not isinstance(s[v], tuple): return False
        s[v] = val
        if v.op == 'lt0':
            d = v.args[0] if val else sub(I(-1), v.args[0])
            cons.append(d)             # d <= -1
        elif v.op == 'eq0' and val is True:
            cons.append(sub(v.args[0], I(1))); cons.append(sub(neg(v.args[0]), I(1)))
        elif isinstance(val, int) and not isinstance(val, bool) and v.op not in ('discr', 'proj_'):
            cons.append(sub(sub(v, I(val)), I(1))); cons.append(sub(sub(I(val), v), I(1)))
        elif isinstance(val, tuple) and 0 in val[1] and nonneg(v):
            m = 1
            while m in val[1]: m += 1
            cons.append(sub(I(m - 1), v))
    for v, val in facts:
        if v.op == 'pl0' and val is True and s.get(mk('ple0', v.args[0])) is False: return False
        if v.op == 'ple0' and val is False and s.get(mk('pl0', v.args[0])) is True: return False
    if lin_infeasible(cons): return False
    for v, val in facts[-12:]:
        if v.op == 'eq0' and val is False and cons and lin_infeasible(cons + [v.args[0]]) and lin_infeasible(cons + [neg(v.args[0])]): return False
    if exits:
        ws = {}
        for v, _ in facts:
            for w in wfolds(v): ws[w.args[:3] + (w.args[4],)] = w
        for w in ws.values():
            if still_running(w, facts): return False
    return True

def entailed_equal(a, b, facts):
    """do the comparisons decided so far leave two integers no choice but to be equal?"""
    if is_node(a) or is_node(b): return False
    at = set(); n = 0
    for v, w in facts:
        if v.op == 'lt0': at |= set(lin_parts(v.args[0])[1]); n += 1
    if n < 2: return False
    for t in (a, b):
        if t.op not in ('lin', 'i', 'f2i', 'proj', 'bv', 'bu', 'len', 'ret', 'arg', 'k', 'fold', 'wfold', 'deref'): return False
        if t.op != 'i' and not set(lin_parts(t)[1]) <= at: return False
    if a.op == b.op == 'i': return False
    d = sub(a, b)
    fs = [f for f in facts if f[0].op == 'lt0']
    for x in (d, neg(d)):
        q = mk('lt0', x) if x.op != 'i' else None
        if q is None: return False
        if feasible(fs + [(q, True)], False): return False
    return True

_wf = {}
def wfolds(t):
    if t not in _wf: _wf[t] = find_all(t, lambda x: x.op == 'wfold') if contains(t, lambda x: x.op == 'wfold') else []
    return _wf[t]
_ex = {}
def still_running(w, facts):
    """do the facts contradict that a while-loop ended (its condition would still hold in the final state)?"""
    c, inits, steps, _, h = w.args
    key = (c, inits, steps, h)
    if key not in _ex:
        m = {mk(o, h, i): mk('wfold', c, inits, steps, i, h) for i in range(len(inits)) for o in ('bv', 'bu')}
        m[mk('k', h)] = mk('wfold', c, inits, steps, -1, h)
        _ex[key] = relax(subst(c, m))
    todo = [(_ex[key], list(facts))]; n = 0
    while todo:
        t, fs = todo.pop(); n += 1
        if n > 24: return False
        if t is TRUE: continue
        if t is FALSE: return False
        v = topvar(t)
        if v is None:
            if t.op not in terms.BOOLOPS: return False
            v = t
        if v.op not in terms.BOOLOPS: return False
        for val in (True, False):
            f2 = fs + [(v, val)]
            if feasible(f2, False): todo.append((cof_b(t, v, val), f2))
    return True

def conj(facts, g):
    for v, w in facts: g = AND(v if w else NOT(v), g)
    return g
def impossible(g, limit=40):
    """does no assignment of the decisions satisfy g?"""
    todo = [(g, [])]; n = 0
    while todo:
        t, fs = todo.pop(); n += 1
        if n > limit: return False
        if t is FALSE: continue
        v = topvar(t)
        if t is TRUE or v is None: return False
        if v.op in terms.BOOLOPS: vals = (True, False)
        else: return False
        for val in vals:
            f2 = fs + [(v, val)]
            if feasible(f2, False): todo.append((cof_b(t, v, val), f2))
    return True

def lin_infeasible(ds, limit=60):
    """each d <= -1 over the integers (d a linear term); True if no solution"""
    rows = []
    atoms = set()
    for d in ds:
        c, ms = lin_parts(d)
        rows.append((c + 1, ms)); atoms |= set(ms)
    for m in list(atoms):
        if nonneg(m): rows.append((0, {m: -1}))
    rows = [(Fraction(c), {m: Fraction(k) for m, k in ms.items()}) for c, ms in rows]
    for m in sorted(atoms, key=lambda t: t.key):
        pos = [r for r in rows if r[1].get(m, 0) > 0]; negs = [r for r in rows if r[1].get(m, 0) < 0]
        rest = [r for r in rows if not r[1].get(m, 0)]
        if len(pos) * len(negs) > limit: return False
        for p in pos:
            for n in negs:
                kp, kn = p[1][m], -n[1][m]
                ms = {}
                for x in set(p[1]) | set(n[1]):
                    v = p[1].get(x, 0) * kn + n[1].get(x, 0) * kp
                    if v: ms[x] = v
                rest.append((p[0] * kn + n[0] * kp, ms))
        rows = rest
        if any(not r[1] and r[0] > 0 for r in rows): return True
    return any(not r[1] and r[0] > 0 for r in rows)

def thresholds(t):
    """integer constants in decisions about numbers: a few elements say nothing about what happens beyond them"""
    out = set()
    for x in find_all(t, lambda x: x.op in ('lt0', 'eq0', 'imin', 'imax', 'sw', 'eqt', 'fold')):
        if x.op in ('imin', 'imax', 'eqt'): out |= {a.args[0] for a in x.args if isinstance(a, Term) and a.op == 'i'}
        elif x.op == 'sw': out |= {k for k, _ in x.args[1] if isinstance(k, int)}
        elif x.op == 'fold': out |= {x.args[0].args[0]} if x.args[0].op == 'i' else set()
        elif x.args[0].op == 'lin': out.add(x.args[0].args[0])
    return {abs(k) for k in out if isinstance(k, int) and not isinstance(k, bool) and 4 < abs(k)}
def decide(a, b, allow=(), facts=None):
    c = Cmp(allow)
    if facts:
        m = facts
        a, b = subst(a, m), subst(b, m)
    r = c.decide(a, b)
    if r is UNK:
        d = differ_on_few(a, b, c.allow)
        if d is not None: return DIFF, d
    elif r is DIFF and not thresholds(a) - thresholds(b) and differ_on_few(a, b, c.allow, 10, True): return UNK, c.diffs
    return r, c.diffs

def explain(diffs, n=2):
    out = []
    for a, b, sure in diffs[:n]:
        out.append('%s  vs  %s' % (show(a)[:300], show(b)[:300]))
    return ' ; '.join(out)

# -- loops over few elements, written out: two undecided values are definitely different if they already differ there
class GiveUp(Exception): pass
_LOOPS = ('fold', 'wfold', 'tab')
class Few:
    """writes out every loop of a value for inputs of n elements"""
    def __init__(self, n, end, only=None): self.n = n; self.end = end; self.val = {}; self.memo = {}; self.ends = TRUE; self.only = only
    def outer(self, t):
        """outermost loops of a term"""
        seen = set(); st = [t]; out = []
        while st:
            x = st.pop()
            if x in seen: continue
            seen.add(x)
            if x.op in _LOOPS: out.append(x); continue
            for a in x.args: _kids(a, st)
        return out
    def atoms(self, t, sign=1):
        """assign the size n to what a number of steps is made of"""
        if t.op == 'lin':
            for m, k in t.args[1]:
                for x in factors(m): self.atoms(x, sign * k)
        elif t.op == 'mul':
            for a in t.args[0]: self.atoms(a, sign)
        elif t.op in ('imin', 'imax', 'div', 'rem', 'ite', 'sw'):
            for a in t.args:
                if isinstance(a, Term) and (t.op not in ('ite', 'sw') or a is not t.args[0]): self.atoms(a, sign)
            if t.op == 'sw':
                for _, c in t.args[1]: self.atoms(c, sign)
        elif t.op in ('i',) or t.op in _LOOPS: pass
        elif t not in self.val: self.val[t] = I(self.n if sign > 0 else 0)
    def ground(self, t):
        return relax(subst(t, self.val)) if self.val else t
    def go(self, t):
        if t in self.memo: return self.memo[t]
        t0 = t; t = self.sizes(t)
        for _ in range(40):
            if time.time() > self.end: raise GiveUp
            if t.size > 40000: raise GiveUp
            ls = self.outer(t)
            if not ls: break
            t = relax(subst(t, {x: self.loop(x) for x in ls}))
        else: raise GiveUp
        t = self.sizes(t)
        self.memo[t0] = t
        return t
    def sizes(self, t):
        lens = find_all(t, lambda x: x.op == 'len' and not contains(x, lambda q: q.op in ('k', 'bv', 'bu') + _LOOPS))
        for x in lens:
            if x not in self.val and (self.only is None or x in self.only): self.val[x] = I(self.n)
        return self.ground(t) if lens else t
    def count(self, n):
        n = self.ground(self.go(n))
        if n.op != 'i': self.atoms(n); n = self.ground(n)
        def leaf(x):
            if x.op != 'i' or x.args[0] > 12: raise GiveUp(show(x)[:300])
            self.top = max(self.top, x.args[0]); return x
        self.top = 0
        for x in leaves(n): leaf(x)
        return n, self.top
    def loop(self, x):
        if x in self.memo: return self.memo[x]
        h = x.args[-1]
        if x.op == 'tab':
            n, top = self.count(x.args[0])
            xs = [self.go(self.ground(subst(x.args[1], {mk('k', h): I(i)}))) for i in range(top)]
            r = mk('arr', ()) if top == 0 else None
            for i in range(top, -1, -1):
                v = mk('arr', tuple(xs[:i]))
                r = v if r is None else ite(eq(n, I(i)), v, r)
        else:
            c, inits, steps, j = x.args[:4]
            key = (x.op, c, inits, steps, h)
            if key not in self.memo:
                s = [self.go(self.ground(q)) for q in inits]; live = TRUE; cnt = I(0)
                n, top = self.count(c) if x.op == 'fold' else (None, self.n + 1)
                for i in range(top):
                    m = {mk(o, h, q): s[q] for q in range(len(s)) for o in ('bv', 'bu')}; m[mk('k', h)] = I(i)
                    if x.op == 'wfold':
                        live = AND(live, self.go(self.ground(boolify(subst(c, m)))))
                        if live is FALSE: break
                        cnt = ite(live, I(i + 1), cnt)
                    else: live = lt(I(i), n)
                    s = [ite(live, self.go(self.ground(subst(q, m))), o) for q, o in zip(steps, s)]
                else:
                    if x.op == 'wfold': self.ends = AND(self.ends, NOT(AND(live, self.go(self.ground(boolify(subst(c, {**{mk(o, h, q): s[q] for q in range(len(s)) for o in ('bv', 'bu')}, mk('k', h): I(top)})))))))
                self.memo[key] = (s, cnt)
            s, cnt = self.memo[key]
            r = cnt if j == -1 else s[j]
        self.memo[x] = r
        return r
def leaves(t):
    if t.op == 'ite': return leaves(t.args[1]) + leaves(t.args[2])
    if t.op == 'sw': return [y for _, c in t.args[1] for y in leaves(c)] + (leaves(t.args[2]) if domain(t.args[0]) is None else [])
    return [t]
def _kids(a, st):
    if isinstance(a, Term): st.append(a)
    elif isinstance(a, tuple):
        for y in a: _kids(y, st)
def _push1(v, x):
    return mk('arr', v.args[0] + (x,)) if v.op == 'arr' else mk('push', v, x)
def _cons_push(v, x): return lift('push', lambda q: _push1(q, x), v)

def differ_on_few(a, b, allow=(), seconds=12, equal=False):
    """the pairs by which two values differ for inputs of two and of three elements, or None
    (with `equal`: do they agree on those?)"""
    out = None; old = terms.CONS.get('push')
    if not (contains(a, lambda x: x.op in _LOOPS) or contains(b, lambda x: x.op in _LOOPS)): return None
    try:
        terms.CONS['push'] = _cons_push
        for n in (1, 2) if equal else (2, 3):
            x, y = relax(a), relax(b)
            only = None
            if equal:       # agreement on few elements says nothing about other sizes (of the elements themselves, say)
                bounds = [q.args[0] for t in (x, y) for q in find_all(t, lambda q: q.op in _LOOPS)]
                only = {q for t in bounds for q in find_all(t, lambda q: q.op == 'len')}
            f = Few(n, time.time() + seconds, only)
            for _ in range(3):
                x, y = f.go(x), f.go(y)
                x, y = f.ground(x), f.ground(y)
            z = mk('stop'); e = f.ground(f.ends)
            if any(not (contains(x, lambda q: q is t) and contains(y, lambda q: q is t)) for t in find_all(e, lambda q: q.op in ('call',) and unmodelled(mk('ret', q), allow))): return None
            if e is not TRUE: x, y = relax(ite(e, x, z)), relax(ite(e, y, z))     # no loop takes more than n + 1 rounds
            c = Cmp(allow, 6000)
            r = c.cmp(x, y, [])
            if os.environ.get('VERIF_DEBUG'): print('few', n, r, x.size, y.size, show(x)[:500], '|', show(y)[:500])
            if r is not (EQ if equal else DIFF): return None
            out = c.diffs
    except (GiveUp, Big, RecursionError):
        if os.environ.get('VERIF_DEBUG'):
            import traceback; print('few:', traceback.format_exc()[-600:])
        if not out or equal: return None
    finally:
        if old is None: terms.CONS.pop('push', None)
        else: terms.CONS['push'] = old
    return True if equal else out
