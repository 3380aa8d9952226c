"""Abstract interpreter: MIR -> value graph.

Evaluates a monomorphised MIR body over symbolic *values* in one forward dataflow pass: control-flow
joins are merged into decision diagrams, loops are solved into recurrences (`fold` terms), local
callees are inlined (so an extracted helper is invisible), anything not modelled stays an
uninterpreted call on its arguments and on the memory reachable from them.
"""
import json, struct, re
import struct
from terms import *
from terms import _subst
import terms

def pattern(v):
    """an unsigned number that may well have its highest bit set: a value read from memory or put together bit by bit"""
    if v.op == 'trunc': return pattern(v.args[1])
    return v.op in ('and', 'or', 'xor', 'not', 'shl', 'shr', 'proj', 'arg', 'deref', 'lv', 'vec32', 'lane32', 'sext')
def viewed(v):
    """read from memory through a pointer of another type: any bit pattern"""
    if v.op != 'proj': return False
    x = v.args[0]
    while x.op in ('store', 'unview'): x = x.args[0] if x.op == 'store' else x.args[2]
    return x.op == 'view'
def has_scast(v):
    seen = set(); stack = [v]
    while stack:
        x = stack.pop()
        if x.op == 'scast': return True
        if x in seen or not is_node(x): continue
        seen.add(x); stack += [y for y in (x.args[1:] if x.op == 'ite' else [c for _, c in x.args[1]] + [x.args[2]]) if isinstance(y, Term)]
    return False
def unscast(v): return lift('unscast', lambda x: x.args[1] if x.op == 'scast' else x, v)

class Unsupported(Exception): pass
class Recursion(Exception): pass

OPT = 'std::option::Option'
RES = 'std::result::Result'
def some(x): return agg(OPT, 1, (x,))
NONE = mk('agg', OPT, 0, ())
def option(c, x): return ite(c, some(x), NONE)
def okv(x): return agg(RES, 0, (x,))

LIFETIMES = re.compile(r"::<'\w+(?:, '\w+)*>")
def boxcopies(body):
    """the temporary copy the compiler makes of a box before dereferencing it stands for the box itself"""
    for stmts, _ in ((bl[0], bl[1]) for bl in body['blocks']):
        prev = None
        for s in stmts:
            if s[0] != '=': prev = None; continue
            r = s[2]
            if prev and r[0] == 'cast' and r[1] == 'BoxDerefTransmute' and r[2][0] in ('c', 'm') and r[2][1][0] == prev[1][0]:
                r[2] = [r[2][0], [prev[2][1][1][0], prev[2][1][1][1] + r[2][1][1]]]
            prev = s if r[0] == 'use' and r[1][0] == 'c' and not s[1][1] else None
            if prev: prev = (None, s[1], [None, r[1]])
class Prog:
    def __init__(self, path):
        d = json.load(open(path))
        self.d = d
        self.types = d['types']; self.insts = d['insts']
        self.bodies = {}
        for b in d['bodies']: self.bodies[b['id']] = b; boxcopies(b)
        self.prep = {}
        self.enums = {OPT, RES} | {t['name'] for t in self.types if t['k'] == 'adt' and t['kind'] == 'enum'}
        import eqv; eqv.ENUMS |= self.enums
        self.by_def = {}
        for i, n in enumerate(self.insts):
            n['id'] = i
            n['def'] = LIFETIMES.sub('', n['def']).replace('bitboost::', '')
            self.by_def.setdefault(n['def'], []).append(n)
    def mirror(self, other):
        """align the local types of this (reference) program with the same-named types of `other`: field numbers
        are translated by field name, so a reference definition does not depend on declaration order"""
        theirs = {}
        for t in other.types:
            if t['k'] == 'adt' and t.get('local'): theirs.setdefault(t['name'].split('::', 1)[-1], t)
        for t in self.types:
            if t['k'] == 'adt' and t.get('local'):
                o = theirs.get(t['name'].split('::', 1)[-1])
                if o is None: continue
                t['name'] = o['name']
                if t['kind'] == 'struct':
                    idx = {f[0]: i for i, f in enumerate(o['variants'][0]['f'])}
                    t['perm'] = [idx.get(f[0]) for f in t['variants'][0]['f']]
                    t['full'] = len(o['variants'][0]['f'])
                    if t['full'] != len(t['variants'][0]['f']): t['theirs'] = (other, o)
                else:
                    if [v['n'] for v in t['variants']] != [v['n'] for v in o['variants']]: t['badenum'] = True
        self.enums |= other.enums
    def ty(self, i): return self.types[i]
    def find(self, pat, bodies=True):
        r = re.compile(pat)
        return [n for n in self.insts if r.search(n['name']) and (not bodies or n['id'] in self.bodies)]
    def find_def(self, d, bodies=True):
        return [n for n in self.by_def.get(d, []) if (not bodies or n['id'] in self.bodies)]
    def args_str(self, inst):
        out = []
        for a in inst['args']:
            out.append(self.types[a]['s'] if isinstance(a, int) else str(a[1]))
        return out

def succs(term):
    k = term[0]
    if k == 'goto': return [term[1]]
    if k == 'switch': return [t for _, t in term[2]] + [term[3]]
    if k == 'drop': return [term[2]]
    if k == 'call': return [term[4]] if term[4] is not None else []
    if k == 'assert': return [term[5]]
    return []

def place_locals(p, out):
    out.add(p[0])
    for e in p[1]:
        if e[0] == 'i': out.add(e[1])

def op_uses(o, out):
    if o[0] in ('c', 'm'): place_locals(o[1], out)

def rv_uses(r, out, addr):
    k = r[0]
    if k in ('use', 'repeat'): op_uses(r[1], out)
    elif k in ('addr', 'ref'):
        place_locals(r[1], out)
        if not any(e[0] == '*' for e in r[1][1]): addr.add(r[1][0])
    elif k == 'agg':
        for o in r[2]: op_uses(o, out)
    elif k in ('bin', 'cbin'): op_uses(r[2], out); op_uses(r[3], out)
    elif k in ('cast', 'un'): op_uses(r[2], out)
    elif k in ('discr', 'len'): place_locals(r[1], out)

class Prep:
    """CFG facts of one body: reachability, loops, liveness"""
    def __init__(self, body):
        self.body = body
        bl = body['blocks']
        n = len(bl)
        self.succ = [succs(b[1]) for b in bl]
        # blocks that can reach a return
        pred = [[] for _ in range(n)]
        for i, ss in enumerate(self.succ):
            for s in ss: pred[s].append(i)
        can = set(i for i in range(n) if bl[i][1][0] == 'ret')
        st = list(can)
        while st:
            x = st.pop()
            for p in pred[x]:
                if p not in can: can.add(p); st.append(p)
        self.can = can
        self.nsucc = [[s for s in dict.fromkeys(ss) if s in can] for ss in self.succ]
        # rpo over non-diverging blocks
        order = []; seen = set()
        def dfs(r):
            stack = [(r, iter(self.nsucc[r]))]; seen.add(r)
            while stack:
                x, it = stack[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s); stack.append((s, iter(self.nsucc[s]))); break
                else:
                    order.append(x); stack.pop()
        dfs(0)
        self.rpo = order[::-1]; idx = {b: i for i, b in enumerate(self.rpo)}
        self.reach = set(self.rpo)
        preds = {b: [] for b in self.rpo}
        for b in self.rpo:
            for s in self.nsucc[b]: preds[s].append(b)
        self.preds = preds
        # dominators
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in self.rpo[1:]:
                ps = [p for p in preds[b] if p in idom]
                if not ps: continue
                d = ps[0]
                for p in ps[1:]:
                    a, c = p, d
                    while a != c:
                        while idx[a] > idx[c]: a = idom[a]
                        while idx[c] > idx[a]: c = idom[c]
                    d = a
                if idom.get(b) != d: idom[b] = d; ch = True
        self.idom = idom
        def dom(a, b):
            while True:
                if a == b: return True
                if b == 0: return False
                b = idom[b]
        # natural loops
        self.loops = {}
        for b in self.rpo:
            for s in self.nsucc[b]:
                if idx[s] <= idx[b]:
                    if not dom(s, b): raise Unsupported('irreducible')
                    body_ = self.loops.setdefault(s, {s})
                    stk = [b]
                    while stk:
                        x = stk.pop()
                        if x in body_: continue
                        body_.add(x); stk += [p for p in preds[x]]
        # liveness
        addr = set(); use = {}; deff = {}
        for b in self.rpo:
            u = set(); d = set()
            stmts, term = bl[b]
            def ru(s):
                for l in s:
                    if l not in d: u.add(l)
            for s in stmts:
                t = set()
                if s[0] == '=':
                    rv_uses(s[2], t, addr); 
                    if s[1][1]: place_locals(s[1], t)
                    ru(t)
                    if not s[1][1]: d.add(s[1][0])
                elif s[0] == 'sd': place_locals(s[1], t); ru(t)
                elif s[0] == 'cpy':
                    for o in s[1:4]: op_uses(o, t)
                    ru(t)
            t = set()
            k = term[0]
            if k == 'switch': op_uses(term[1], t)
            elif k == 'call':
                op_uses(term[1], t)
                for o in term[2]: op_uses(o, t)
                if term[3][1]: place_locals(term[3], t)
            elif k == 'assert': op_uses(term[1], t); [op_uses(o, t) for o in term[4]]
            elif k == 'ret': t.add(0)
            ru(t)
            if k == 'call' and not term[3][1]: d.add(term[3][0])
            use[b] = u; deff[b] = d
        live = {b: set(use[b]) for b in self.rpo}
        ch = True
        while ch:
            ch = False
            for b in reversed(self.rpo):
                o = set()
                for s in self.nsucc[b]: o |= live[s]
                nl = use[b] | (o - deff[b])
                if nl != live[b]: live[b] = nl; ch = True
        self.live = live; self.addr = addr

class Frame:
    __slots__ = ('fid', 'body', 'prep', 'inst', 'prog')

class Ctx:
    """call context handed to models"""
    __slots__ = ('it', 'inst', 'args', 'argty', 'st', 'guard', 'retty', 'line', 'prog')

import re
def reachable(t):
    """a field of a variant was read: the decisions under which the value is another variant do not lead here"""
    if t.op == 'ite':
        a, b = reachable(t.args[1]), reachable(t.args[2])
        if wrong_variant(a): return b
        if wrong_variant(b): return a
        return ite(t.args[0], a, b)
    if t.op == 'sw':
        items = {k: reachable(x) for k, x in t.args[1]}
        d = reachable(t.args[2]) if domain(t.args[0]) is None else None
        ok = [x for x in list(items.values()) + ([d] if d is not None else []) if not wrong_variant(x)]
        if not ok: return t
        if all(x is ok[0] for x in ok): return ok[0]
        items = {k: ok[0] if wrong_variant(x) else x for k, x in items.items()}
        return terms.mk_sw_gen(t.args[0], items, ok[0] if d is not None and wrong_variant(d) else d)
    return t
def wrong_variant(x):
    return x.op == 'undef' and x.args[0] == 'variant'
USER_ITER = re.compile(r' as std::iter::Iterator>::\w+$')
class Interp:
    def __init__(self, prog, models, opaque=(), ignore=(), max_depth=40, inline_std=True, unroll=0, rawmem=False):
        self.prog = prog
        self.models = models
        for x in [x for x in UNSIGNED if x.op == 'lv' or fv(x)]: UNSIGNED.discard(x)       # loop symbols are per analysis
        self.opaque = [re.compile(p) for p in opaque]
        self.ignore = [re.compile(p) for p in ignore]
        self.max_depth = max_depth; self.unroll = unroll; self.rawmem = rawmem
        self.boundaries = 0; self.boundary_loops = False
        self.fcount = 0; self.lcount = 0; self.tcount = 0
        self.events = []
        self.base_guard = TRUE
        self.visited = set()
        self.stack = []
        self.opaque_called = {}
        self.notes = []
        self.lens_keep = {}
        self.cur_line = 0
        self.pending_skip = FALSE
        self.cur_st = {}; self.boundary = None

    # ------------------------------------------------------------ types
    def tyd(self, i): return self.prog.types[i]

    # ------------------------------------------------------------ locations
    def init_of(self, base):
        if base[0] == 'O': return mk('deref', base[1])
        if base[0] == 'C': return base[1]
        return mk('undef', 'l')
    def getb(self, st, base):
        v = st.get(base)
        if v is None: v = self.init_of(base)
        return v
    def read(self, st, loc):
        base, path = loc
        v = self.getb(st, base)
        for e in path: v = self.projv(v, e)
        return v
    def projv(self, v, e):
        if e[0] == 's': return self.slicev(v, e[1], e[2])
        if e[0] == 'vw': return lift('view', lambda x: x.args[2] if x.op == 'unview' and x.args[0] == e[1] else mk('view', e[1], e[2], e[3], x), v)
        if e[0] == 'bx': return lift('unbox', lambda x: x.args[0] if x.op == 'box' else mk('unbox', x), v)
        r = proj(v, e)
        if e[0] == 'vf' and is_node(r) and is_node(v): r = reachable(r)
        return r
    def slicev(self, v, lo, n):
        def f(x, a, b):
            if a.op == 'i' and a.args[0] == 0 and b is length(x): return x
            if x.op == 'slice': return mk('slice', x.args[0], add(x.args[1], a), b)
            return mk('slice', x, a, b)
        return lift('slice', f, v, lo, n)
    def write(self, st, loc, val):
        base, path = loc
        st[base] = self.upd_path(self.getb(st, base), path, val)
    def upd_path(self, v, path, val):
        if not path: return val
        e = path[0]
        if e[0] == 's':
            if len(path) > 1 and path[1][0] == 'i':
                return self.upd_path(v, (('i', add(e[1], path[1][1])),) + path[2:], val)
            if len(path) > 1 and path[1][0] == 's':
                return self.upd_path(v, (('s', add(e[1], path[1][1]), path[1][2]),) + path[2:], val)
            inner = self.upd_path(self.slicev(v, e[1], e[2]), path[1:], val)
            if e[1].op == 'i' and e[1].args[0] == 0 and e[2] is length(v): return inner
            return mk('wslice', v, e[1], e[2], inner)
        inner = self.upd_path(self.projv(v, e), path[1:], val)
        if e[0] == 'bx': return mk('box', inner)
        if e[0] == 'vw': return mk('unview', e[1], v, inner)
        return upd(v, e, inner)

    def mkref(self, base, path):
        if base[0] == 'O' and not path: return base[1]
        # deref of constant refs
        return mk('ref', base, path)
    def locs_of_ptr(self, p):
        """pointer term -> [(cond, (base, path))]"""
        if p.op == 'ref': return [(TRUE, (p.args[0], p.args[1]))]
        if p.op == 'eptr': return [(c, self.ext(l, ('i', p.args[1]))) for c, l in self.locs_of_ptr(p.args[0])]
        if p.op == 'ite':
            out = []
            for c, b in ((p.args[0], p.args[1]), (NOT(p.args[0]), p.args[2])):
                for c2, l in self.locs_of_ptr(b): out.append((AND(c, c2), l))
            return out
        if p.op == 'sw':
            out = []
            v = p.args[0]; rest = TRUE
            for k, b in p.args[1]:
                c = keytest(v, k); rest = AND(rest, NOT(c))
                for c2, l in self.locs_of_ptr(b): out.append((AND(c, c2), l))
            if domain(v) is None:
                for c2, l in self.locs_of_ptr(p.args[2]): out.append((AND(rest, c2), l))
            return out
        return [(TRUE, (('O', p), ()))]
    def ext(self, loc, e):
        base, path = loc
        if path and path[-1][0] == 's':
            s = path[-1]
            if e[0] == 'i': return (base, path[:-1] + (('i', add(s[1], e[1])),))
            if e[0] == 's': return (base, path[:-1] + (('s', add(s[1], e[1]), e[2]),))
        return (base, path + (e,))

    def place(self, fr, st, p):
        """-> ([(cond, loc)], type index or None)"""
        locs = [(TRUE, (('L', fr.fid, p[0]), ()))]
        ty = fr.body['locals'][p[0]]
        var = None
        types = self.prog.types
        for e in p[1]:
            td = types[ty] if ty is not None else None
            if e[0] == '*':
                nl = []
                for c, l in locs:
                    if td is not None and td['k'] == 'adt' and td['name'].endswith('Box'):
                        nl.append((c, self.ext(l, ('bx',)))); continue
                    v = self.read(st, l)
                    for c2, l2 in self.locs_of_ptr(v):
                        cc = AND(c, c2)
                        if cc is not FALSE: nl.append((cc, l2))
                locs = nl
                ty = td.get('e') if td and td['k'] in ('ref', 'ptr') else None
            elif e[0] == 'f':
                fi_ = e[1]
                if td is not None and 'perm' in td and var is None or (td is not None and td.get('kind') == 'struct' and 'perm' in td):
                    fi_ = td['perm'][fi_]
                    if fi_ is None: raise Unsupported('field %s of %s' % (td['variants'][0]['f'][e[1]][0], td['name']))
                if td is not None and td.get('badenum'): raise Unsupported('variants of %s' % td['name'])
                el = ('vf', var, fi_) if var is not None and not (td and td['k'] == 'adt' and td['kind'] == 'struct') else ('f', fi_)
                var = None
                locs = [(c, self.ext(l, el)) for c, l in locs]
                ty = e[2]
            elif e[0] == 'd':
                var = e[1]
            elif e[0] == 'i':
                iv = self.read(st, (('L', fr.fid, e[1]), ()))
                locs = [(c, self.ext(l, ('i', iv))) for c, l in locs]
                ty = td.get('e') if td else None
            elif e[0] == 'ci':
                nl = []
                for c, l in locs:
                    iv = I(e[1]) if not e[3] else sub(length(self.read(st, l)), I(e[1]))
                    nl.append((c, self.ext(l, ('i', iv))))
                locs = nl; ty = td.get('e') if td else None
            elif e[0] == 'sub':
                nl = []
                for c, l in locs:
                    n = length(self.read(st, l))
                    hi = sub(n, I(e[2])) if e[3] else I(e[2])
                    nl.append((c, self.ext(l, ('s', I(e[1]), sub(hi, I(e[1]))))))
                locs = nl
            else:
                raise Unsupported('proj %s' % e[0])
        return locs, ty

    def read_locs(self, st, locs):
        v = self.read(st, locs[-1][1])
        for c, l in reversed(locs[:-1]): v = ite(c, self.read(st, l), v)
        return v
    def read_place(self, fr, st, p):
        locs, ty = self.place(fr, st, p)
        v = self.read_locs(st, locs)
        if ty is not None and self.prog.types[ty]['k'] == 'bool': v = boolify_v(v)
        return v
    def write_place(self, fr, st, p, val):
        locs, ty = self.place(fr, st, p)
        self.write_locs(st, locs, val)
    def write_locs(self, st, locs, val):
        if len(locs) == 1: self.write(st, locs[0][1], val); return
        for c, l in locs:
            self.write(st, l, ite(c, val, self.read(st, l)))
    def ref_place(self, fr, st, p):
        locs, ty = self.place(fr, st, p)
        r = self.mkref(*locs[-1][1])
        for c, l in reversed(locs[:-1]): r = ite(c, self.mkref(*l), r)
        return r
    def deref(self, st, p):
        """content behind a pointer term"""
        locs = self.locs_of_ptr(p)
        return self.read_locs(st, locs)
    def deref_all(self, st, p, n=3):
        """follow references (for && etc.) until a non-reference value"""
        v = p
        while n and v.op == 'ref':
            v = self.deref(st, v); n -= 1
        return v
    def temp(self, st, val):
        self.tcount += 1
        b = ('T', self.tcount)
        st[b] = val
        return self.mkref(b, ())

    # ------------------------------------------------------------ operands
    def konst(self, c):
        td = self.prog.types[c['t']]
        k = td['k']
        if 'fn' in c:
            return mk('fn', c['fn'] if c['fn'] is not None else -1, c.get('fname', ''))
        if 'int' in c:
            v = c['int']
            if k == 'bool': return B(v != 0)
            if k == 'float':
                return F(struct.unpack('<f', struct.pack('<I', v))[0]) if td['s'] == 'f32' else F(struct.unpack('<d', struct.pack('<Q', v))[0])
            if k == 'int':
                b = td['bits']
                if v >= 1 << (b - 1): v -= 1 << b
            return I(v)
        if 'str' in c: return mk('ref', ('C', S(c['str'])), ())
        if 'zst' in c:
            if k == 'fndef': return mk('fn', td['inst'] if td['inst'] is not None else -1, td['name'])
            if k == 'closure': return mk('agg', 'closure:%d' % c['t'], 0, ())
            if k == 'tuple': return UNIT
            return mk('agg', td.get('name', td['s']), 0, ())
        if 'refto' in c: return mk('ref', ('C', self.konst(c['refto'])), ())
        if 'refslice' in c: return mk('ref', ('C', mk('arr', tuple(self.konst(x) for x in c['refslice']))), ())
        if 'arr' in c: return mk('arr', tuple(self.konst(x) for x in c['arr']))
        if 'bytes' in c:
            if k == 'adt' and td['kind'] == 'enum' and td['variants'] and all(not v['f'] for v in td['variants']) and c['bytes']:
                x = 0
                for i, b in enumerate(c['bytes']): x |= (b or 0) << (8 * i)
                for i, v in enumerate(td['variants']):
                    if int(v['d']) == x: return mk('agg', td['name'], i, ())
            if not any(c['bytes']) and len(c['bytes']) == 8:
                if k == 'ptr': return mk('null')
                if k == 'adt' and re.match(r'(std|core)::option::Option<(&|std::boxed::Box<|std::ptr::NonNull<)', td['s']): return mk('agg', 'std::option::Option', 0, ())
            return mk('kb', td['s'], tuple(-1 if b is None else b for b in c['bytes']))
        if 'fnptr' in c: return mk('fn', c['fnptr'], '')
        if 'static' in c: return mk('static', c['static'])
        return mk('kop', td['s'], str(c.get('opaque')))
    def operand(self, fr, st, o):
        if o[0] in ('c', 'm'): return self.read_place(fr, st, o[1])
        if o[0] == 'k': return self.konst(o[1])
        return FALSE   # runtime checks off
    def op_ty(self, fr, st, o):
        if o[0] in ('c', 'm'): return self.place_ty(fr, o[1])
        if o[0] == 'k': return o[1]['t']
        return None
    def place_ty(self, fr, p):
        ty = fr.body['locals'][p[0]]
        for e in p[1]:
            td = self.prog.types[ty] if ty is not None else None
            if e[0] == 'f': ty = e[2]
            elif e[0] == '*':
                if td and td['k'] == 'adt' and td['name'].endswith('Box'): ty = td['args'][0]
                else: ty = td.get('e') if td else None
            elif e[0] in ('i', 'ci'): ty = td.get('e') if td else None
        return ty

    # ------------------------------------------------------------ rvalues
    def binop(self, op, a, b, ty):
        td = self.prog.types[ty] if ty is not None else {'k': '?'}
        k = td['k']
        op = op.replace('Unchecked', '')
        if k == 'float':
            if op == 'Add': return fadd(a, b)
            if op == 'Sub': return fsub(a, b)
            if op == 'Mul': return fmul(a, b)
            if op == 'Div': return fdiv(a, b)
            if op == 'Lt': return flt(a, b)
            if op == 'Gt': return flt(b, a)
            if op == 'Le': return fle(a, b)
            if op == 'Ge': return fle(b, a)
            if op == 'Eq': return feq(a, b)
            if op == 'Ne': return NOT(feq(a, b))
            return mk('fbin', op, a, b)
        if k in ('ref', 'ptr', 'fnptr'):
            if op == 'Eq': return ptr_eq(a, b)
            if op == 'Ne': return NOT(ptr_eq(a, b))
            if op == 'Offset': return mk('poff', a, b)
            return mk('B', mk('pcmp', op, a, b))
        uns = k in ('uint', 'bool', 'char')
        if k == 'int' and (has_scast(a) or has_scast(b)):
            bits = td.get('bits')
            f = {'BitAnd': band, 'BitOr': bor, 'BitXor': bxor}.get(op)
            if f: return lift('scast%d' % bits, lambda x: mk('scast', bits, x), f(unscast(a), unscast(b)))
            if op == 'Shl': return lift('scast%d' % bits, lambda x: mk('scast', bits, x), shl(unscast(a), b, bits))
            if op in ('Shr', 'Div', 'Rem'): return mk('sbin', op, bits, a, b)
        if k == 'uint':
            for x in (a, b):
                if x.op in ('lv', 'proj', 'ret', 'out', 'deref', 'arg'): UNSIGNED.add(x)
        if op == 'Add': return add(a, b)
        if op == 'Sub': return sub(a, b)
        if op == 'Mul': return mul(a, b)
        if op == 'Div': return div(a, b)
        if op == 'Rem': return rem(a, b)
        if op == 'BitAnd': return band(a, b)
        if op == 'BitOr': return bor(a, b)
        if op == 'BitXor': return bxor(a, b)
        bits = td.get('bits')
        if op == 'Shl': return shl(a, b, bits)
        if op == 'Shr': return shr(a, b)
        if k == 'bool':
            a = boolify_v(a); b = boolify_v(b)
            if op == 'Eq': return ite(a, b, NOT(b))
            if op == 'Ne': return ite(a, NOT(b), b)
            if op == 'Lt': return AND(NOT(a), b)
            if op == 'Gt': return AND(a, NOT(b))
            if op == 'Le': return OR(NOT(a), b)
            if op == 'Ge': return OR(a, NOT(b))
        if op == 'Lt': return lt(a, b, uns)
        if op == 'Gt': return lt(b, a, uns)
        if op == 'Le': return NOT(lt(b, a, uns))
        if op == 'Ge': return NOT(lt(a, b, uns))
        if op == 'Eq': return eq(a, b)
        if op == 'Ne': return NOT(eq(a, b))
        if op == 'Cmp':
            return ite(lt(a, b, uns), mk('agg', 'std::cmp::Ordering', 0, ()), ite(eq(a, b), mk('agg', 'std::cmp::Ordering', 1, ()), mk('agg', 'std::cmp::Ordering', 2, ())))
        return mk('bin', op, a, b)

    def recast(self, v, sk, sb, dk, db):
        """between integer types; 'scast': a bit pattern seen as a signed number, 'sext': widened with its sign"""
        if v.op == 'scast':
            x = v.args[1]
            if db < sb: x = trunc(x, db)
            elif db > sb: x = mk('sext', sb, db, x)
            return mk('scast', db, x) if dk == 'int' else x
        if db < sb: v = trunc(v, db)
        if dk == 'int' and (sk == 'uint' and db <= sb or db < sb):
            return mk('scast', db, v) if pattern(v) else v
        if sk == 'int' and db > sb and viewed(v):
            v = mk('sext', sb, db, v)
            return mk('scast', db, v) if dk == 'int' else v
        if sk == 'int' and dk == 'uint' and db >= sb: return ucast(v, db)
        return v

    def cast(self, kind, v, src, dst):
        sd = self.prog.types[src] if src is not None else {'k': '?'}
        dd = self.prog.types[dst]
        sk, dk = sd['k'], dd['k']
        if kind == 'IntToInt':
            if sk == 'bool': return ite(boolify_v(v), I(1), I(0))
            if sk == 'adt': return discr(v, sd['nv'])
            if dk == 'bool': return boolify_v(v)
            sb, db = sd.get('bits', 32), dd.get('bits', 32)
            return lift('cast%d%s%d%s' % (sb, sk, db, dk), lambda x: self.recast(x, sk, sb, dk, db), v)
        if sk in ('ptr', 'ref') and dk in ('ptr', 'ref'):
            a, b = self.prog.types[sd['e']], self.prog.types[dd['e']]
            if a['s'] != b['s'] and v.op == 'eptr':
                from models import tysize
                x, y = tysize(self.prog, sd['e']), tysize(self.prog, dd['e'])
                if x and y:
                    ls = self.locs_of_ptr(v.args[0])
                    if len(ls) == 1:
                        (c0, (base, path)) = ls[0]
                        np_ = path[:-1] if path and path[-1][0] == 'vw' and path[-1][1] == b['s'] else path + (('vw', b['s'], x, y),)
                        if path and path[-1][0] == 'vw' and path[-1][1] != b['s']: np_ = path[:-1] + (('vw', b['s'], path[-1][2], y),)
                        return mk('eptr', self.mkref(base, np_), div(mul(v.args[1], I(x)), I(y)))
            return v
        if kind == 'IntToFloat': return lift('i2f' + dd['s'], lambda x: F(struct.unpack('f', struct.pack('f', x.args[0]))[0]) if x.op == 'i' and dd['s'] == 'f32' else i2f(x), v)
        if kind == 'FloatToInt':
            w = dd['s']
            return lift('f2i' + w, lambda x: f2i(x, w), v)
        if kind == 'FloatToFloat':
            return lift('f2f' + dd['s'], lambda x: mk('f2f', dd['s'], x) if x.op != 'f' else x, v)
        return v

    def rvalue(self, fr, st, r, guard):
        k = r[0]
        if k == 'use': return self.operand(fr, st, r[1])
        if k in ('ref', 'addr'): return self.ref_place(fr, st, r[1])
        if k == 'bin':
            a = self.operand(fr, st, r[2]); b = self.operand(fr, st, r[3])
            ty = self.op_ty(fr, st, r[2])
            if r[1][:3] in ('Shl', 'Shr'): self.shift(guard, b, self.prog.types[ty].get('bits') if ty is not None else None)
            return self.binop(r[1], a, b, ty)
        if k == 'cbin':
            a = self.operand(fr, st, r[2]); b = self.operand(fr, st, r[3])
            return agg('tuple', 0, (self.binop(r[1], a, b, self.op_ty(fr, st, r[2])), FALSE))
        if k == 'un':
            v = self.operand(fr, st, r[2]); ty = self.op_ty(fr, st, r[2])
            td = self.prog.types[ty] if ty is not None else {'k': '?'}
            if r[1] == 'Not':
                if has_scast(v): return lift('scast%d' % td['bits'], lambda x: mk('scast', td['bits'], x), bnot(unscast(v), td['bits']))
                return NOT(boolify_v(v)) if td['k'] == 'bool' else bnot(v, td.get('bits') if td['k'] == 'uint' else None)
            if r[1] == 'Neg': return fneg(v) if td['k'] == 'float' else neg(v)
            if r[1] == 'PtrMetadata': return length(self.deref(st, v))
        if k == 'cast' and r[1] == 'BoxDerefTransmute' and r[2][0] in ('c', 'm') and r[2][1][1] and r[2][1][1][-1][0] == 'f':
            locs, _ = self.place(fr, st, [r[2][1][0], r[2][1][1][:-1]])       # the address of what the box holds
            v = self.mkref(*self.ext(locs[-1][1], ('bx',)))
            for c, l in reversed(locs[:-1]): v = ite(c, self.mkref(*self.ext(l, ('bx',))), v)
            return v
        if k == 'cast': return self.cast(r[1], self.operand(fr, st, r[2]), self.op_ty(fr, st, r[2]), r[3])
        if k == 'agg':
            vs = [self.operand(fr, st, o) for o in r[2]]
            kk = r[1]
            if kk[0] == 'tuple': return agg('tuple', 0, vs)
            if kk[0] == 'array': return mk('arr', tuple(vs))
            if kk[0] == 'adt':
                td = self.prog.types[kk[1]]
                if td.get('badenum'): raise Unsupported('variants of %s' % td['name'])
                if 'perm' in td:
                    fs = [mk('undef', 'field')] * td['full']
                    for i_, v_ in zip(td['perm'], vs):
                        if i_ is None: raise Unsupported('fields of %s' % td['name'])
                        fs[i_] = v_
                    vs = fs
                return agg(td['name'], kk[2], vs)
            if kk[0] == 'closure': return mk('agg', 'closure:%d' % kk[1], 0, tuple(vs))
            if kk[0] == 'rawptr': return vs[0]
        if k == 'discr':
            ty = self.place_ty(fr, r[1])
            td = self.prog.types[ty] if ty is not None else {}
            v = self.read_place(fr, st, r[1])
            return discr(v, td.get('nv') if td.get('k') == 'adt' else None)
        if k == 'len': return length(self.read_place(fr, st, r[1]))
        if k == 'repeat':
            v = self.operand(fr, st, r[1])
            if r[2] is not None and r[2] <= 64: return mk('arr', tuple([v] * r[2]))
            return mk('tab', I(r[2]) if r[2] is not None else mk('ux', 'rep'), v, v.ht + 1)
        raise Unsupported('rvalue %s' % k)

    # ------------------------------------------------------------ bodies
    def get_prep(self, iid):
        p = self.prog.prep.get(iid)
        if p is None:
            p = Prep(self.prog.bodies[iid]); self.prog.prep[iid] = p
        return p

    def exec_body(self, iid, args, st, guard):
        """inline a body; st is mutated; returns the return value (None if it never returns)"""
        body = self.prog.bodies[iid]
        prep = self.get_prep(iid)
        self.visited.add(iid)
        self.fcount += 1
        fr = Frame(); fr.fid = self.fcount; fr.body = body; fr.prep = prep; fr.inst = iid
        ob = self.base_guard
        self.base_guard = AND(ob, guard)
        self.stack.append(iid)
        try:
            if 0 not in prep.can: return None
            st2 = dict(st)
            for i, a in enumerate(args): st2[('L', fr.fid, i + 1)] = a
            outs = self.run_dag(fr, 0, st2, TRUE, prep.reach, None)
            rets = [(g, s) for (t, g, s) in outs if t == 'ret']
            if not rets: return None
            g, s = self.merge(rets, None)
            rv = s.get(('L', fr.fid, 0))
            if rv is None: rv = UNIT
            for b in [b for b in s if b[0] == 'L' and b[1] == fr.fid]: del s[b]
            st.clear(); st.update(s)
            return rv
        finally:
            self.base_guard = ob
            self.stack.pop()

    def merge(self, edges, keep):
        if len(edges) == 1:
            return edges[0][0], edges[0][1]
        n = len(edges)
        ors = [None] * n
        ors[n - 1] = edges[n - 1][0]
        for i in range(n - 2, -1, -1): ors[i] = OR(edges[i][0], ors[i + 1])
        conds = [constrain(edges[i][0], ors[i]) for i in range(n - 1)]
        out = {}
        keys = {}
        for _, s in edges:
            for b in s: keys[b] = 1
        for b in keys:
            if keep is not None and not keep(b): continue
            vs = []
            for _, s in edges:
                v = s.get(b)
                if v is None and b[0] in ('O', 'C'): v = self.init_of(b)
                vs.append(v)
            acc = None
            f = next((v for v in vs if v is not None))
            if all(v is f or v is None for v in vs):
                out[b] = f; continue
            for i in range(n - 1, -1, -1):
                v = vs[i]
                if v is None or (v.op == 'undef' and acc is not None): continue
                if acc is None or acc.op == 'undef': acc = v
                else: acc = ite(conds[i], v, acc)
            out[b] = acc
        return ors[0], out

    def collapsed_order(self, prep, entry, blocks, top):
        """topological order of `blocks` with inner loops (headers != top) collapsed"""
        # map block -> outermost inner loop header
        rep = {}
        inner = [(h, bs) for h, bs in prep.loops.items() if h in blocks and h != top and (bs <= blocks)]
        inner.sort(key=lambda x: -len(x[1]))
        for h, bs in inner:
            for b in bs:
                if b not in rep: rep[b] = h
        nodes = []
        seen = set()
        def succ_of(h):
            out = []
            bs = prep.loops[h] if rep.get(h) == h else {h}
            for b in bs:
                for s in prep.nsucc[b]:
                    if s in bs or s not in blocks or s == top: continue
                    out.append(rep.get(s, s))
            return list(dict.fromkeys(out))
        stack = [(entry if entry == top else rep.get(entry, entry), None)]
        root = stack[0][0]
        order = []
        stack = [(root, iter(succ_of(root)))]; seen.add(root)
        while stack:
            x, itr = stack[-1]
            for s in itr:
                if s not in seen:
                    seen.add(s); stack.append((s, iter(succ_of(s)))); break
            else:
                order.append(x); stack.pop()
        return order[::-1], rep

    def run_dag(self, fr, entry, st, guard, blocks, top):
        prep = fr.prep
        order, rep = self.collapsed_order(prep, entry, blocks, top)
        inc = {entry: [(guard, st)]}
        outs = []
        def deliver(t, g, s):
            if g is FALSE: return
            if t == 'ret' or t not in blocks or t == top: outs.append((t, g, s))
            else: inc.setdefault(t, []).append((g, s))
        for b in order:
            es = inc.get(b)
            if not es: continue
            live = prep.live[b]; addr = prep.addr; fid = fr.fid
            keep = (lambda k: not (k[0] == 'L' and k[1] == fid) or k[2] in live or k[2] in addr)
            g, s = self.merge(es, keep)
            s = {k: v for k, v in s.items() if keep(k)} if len(es) == 1 else s
            if rep.get(b) == b and b != top:
                for t, g2, s2 in self.run_loop(fr, b, s, g): deliver(t, g2, s2)
            else:
                for t, g2, s2 in self.run_block(fr, b, s, g, top): deliver(t, g2, s2)
        return outs

    def run_block(self, fr, b, st, guard, top=None):
        stmts, term = fr.body['blocks'][b]
        self.cur_st = st
        for s in stmts:
            self.cur_line = s[-1]
            if s[0] == '=':
                v = self.rvalue(fr, st, s[2], guard)
                self.write_place(fr, st, s[1], v)
            elif s[0] == 'sd':
                td = self.prog.types[self.place_ty(fr, s[1])]
                self.write_place(fr, st, s[1], mk('agg', td['name'], s[2], ()))
            elif s[0] == 'cpy':
                self.event('unsafe', guard, ('copy_nonoverlapping',) + tuple(self.operand(fr, st, o) for o in s[1:4]))
        k = term[0]
        can = fr.prep.can
        if k == 'goto': return [(term[1], guard, st)]
        if k == 'ret': return [('ret', guard, st)]
        if k == 'drop': return [(term[2], guard, st)] if term[2] in can else []
        if k == 'assert':
            self.cur_line = term[7]
            c = self.operand(fr, st, term[1])
            if not term[2]: c = NOT(boolify_v(c))
            self.event('assert', guard, (term[3], boolify_v(c)) + tuple(self.operand(fr, st, o) for o in term[4]))
            return [(term[5], guard, st)] if term[5] in can else []
        if k == 'switch':
            self.cur_line = term[5]
            v = self.operand(fr, st, term[1])
            isbool = term[4] is not None and self.prog.types[term[4]]['k'] == 'bool'
            if isbool: v = boolify_v(v)
            outs = {}
            rest = TRUE
            for val, t in term[2]:
                if isbool: c = v if val else NOT(v)
                else: c = eq(v, I(self.sgn(val, term[4])))
                outs[t] = OR(outs.get(t, FALSE), AND(rest, c))
                rest = AND(rest, NOT(c))
            outs[term[3]] = OR(outs.get(term[3], FALSE), rest)
            live = [(t, c) for t, c in outs.items() if t in can and AND(guard, c) is not FALSE]
            dead = [(t, c) for t, c in outs.items() if t not in can and c is not FALSE]
            if dead and live:
                for t, c in dead:
                    if fr.body['blocks'][t][1][0] != 'unreach': self.event('panic', guard, (c,))
            if len(live) == 1: return [(live[0][0], guard, st)]
            return [(t, AND(guard, c), dict(st)) for t, c in live]
        if k == 'call':
            self.cur_line = term[6]
            f = term[1]
            args = [self.operand(fr, st, a) for a in term[2]]
            argty = [self.op_ty(fr, st, a) for a in term[2]]
            retty = self.place_ty(fr, term[3])
            inst = None
            if f[0] == 'k' and f[1].get('fn') is not None: inst = self.prog.insts[f[1]['fn']]
            if term[4] is None or term[4] not in can:
                nm = inst['def'] if inst else (f[1].get('fname') if f[0] == 'k' else '?')
                self.event('panic', guard, (TRUE, nm))
                return []
            if inst is None:
                fn_ = f[1].get('fname', '') if f[0] == 'k' else ''
                it0 = args[0] if args else None
                if fn_ == 'std::iter::Iterator::next' and it0.op == 'ref': it0 = self.deref(st, it0)
                if fn_ == 'std::iter::IntoIterator::into_iter' and it0.op == 'agg' and it0.args[0] == 'it:seq': rv = it0
                elif fn_ == 'std::iter::Iterator::next' and it0.op == 'agg' and it0.args[0] == 'it:seq':
                    s_, pos, end = it0.args[2]; c_ = lt(pos, end)
                    self.write_locs(st, self.locs_of_ptr(args[0]), mk('agg', 'it:seq', 0, (s_, ite(c_, add(pos, I(1)), pos), end)))
                    rv = option(c_, index(s_, pos))
                elif f[0] == 'k': rv = self.opaque_call(st, guard, f[1].get('fname', '?'), args, argty, retty)
                else:
                    fv_ = self.operand(fr, st, f)
                    if fv_.op == 'fn' and fv_.args[0] >= 0: rv = self.call(self.prog.insts[fv_.args[0]], args, argty, st, guard, retty)
                    else: rv = self.opaque_call(st, guard, 'fnptr', [fv_] + args, [None] + argty, retty)
            else:
                rv = self.call(inst, args, argty, st, guard, retty)
            if rv is None: return []
            sk = self.pending_skip
            if sk is not FALSE:
                self.pending_skip = FALSE
                if top is None: raise Unsupported('filtered iterator outside a loop')
                s2 = dict(st)
                self.write_place(fr, st, term[3], rv)
                return [(top, AND(guard, sk), s2), (term[4], AND(guard, NOT(sk)), st)]
            self.write_place(fr, st, term[3], rv)
            return [(term[4], guard, st)]
        return []
    def sgn(self, v, ty):
        if ty is None: return v
        td = self.prog.types[ty]
        if td['k'] == 'int' and v >= 1 << (td['bits'] - 1): return v - (1 << td['bits'])
        return v

    def shift(self, guard, amount, bits):
        """a shift is meaningful when the amount is below the width"""
        if bits and amount.op != 'i': self.event('shift', guard, ('shift', lt(amount, I(bits))))
    # ------------------------------------------------------------ calls
    def may_fail(self, guard, st):
        """inside a panic boundary: control can leave here, and what memory looks like then"""
        guard = AND(self.base_guard, guard)
        if self.boundary is not None and guard is not FALSE:
            self.boundary.append((guard, {k: v for k, v in st.items() if k[0] == 'O'}))
    def event(self, kind, guard, data):
        if kind == 'panic': self.may_fail(AND(guard, data[0]), self.cur_st)
        elif kind == 'assert': self.may_fail(AND(guard, NOT(data[1])), self.cur_st)
        self.events.append((kind, AND(self.base_guard, guard), data, tuple(self.stack), self.cur_line))

    def where(self):
        if not self.stack: return '?'
        b = self.prog.bodies[self.stack[-1]]
        return '%s:%s' % (b['file'], self.cur_line)

    def call(self, inst, args, argty, st, guard, retty):
        self.cur_st = st
        r = self.call_(inst, args, argty, st, guard, retty)
        self.cur_st = st
        return r
    def call_(self, inst, args, argty, st, guard, retty):
        d = inst['def']; nm = inst['name']
        if any(p.search(d) for p in self.ignore): return UNIT_OF(self, retty)
        c = Ctx(); c.it = self; c.inst = inst; c.args = args; c.argty = argty; c.st = st; c.guard = guard; c.retty = retty; c.prog = self.prog; c.line = self.cur_line
        if any(p.search(d) for p in self.opaque):
            return self.opaque_call(st, guard, d, args, argty, retty, inst)
        m = self.models.get(d)
        if m is None and USER_ITER.search(d) and args:      # a user iterator type holding an uninterpreted sequence
            v = args[0]
            if v.op == 'ref': v = self.deref(st, v)
            if v.op == 'agg' and v.args[0] == 'it:seq': m = self.models.get('<std::slice::Iter as std::iter::Iterator>::' + d.rsplit('::', 1)[1])
        if m is not None:
            snap = dict(st); ne = len(self.events)
            try:
                r = m(c)
                if r is not NotImplemented: return r
            except Unsupported as e:
                self.notes.append('%s: %s' % (d, e))
                st.clear(); st.update(snap); del self.events[ne:]
                self.pending_skip = FALSE
        if inst['kind'] == 'virtual':
            return self.opaque_call(st, guard, d, args, argty, retty, inst)
        if inst['id'] in self.prog.bodies:
            deep = self.stack.count(inst['id'])
            if deep == 2:
                import eqv
                if eqv.impossible(AND(self.base_guard, guard)): return mk('undef', 'r')
                raise Recursion
            if len(self.stack) >= self.max_depth or deep > 2:
                self.notes.append('recursion/depth at %s' % d)
                return self.opaque_call(st, guard, d, args, argty, retty, inst)
            body = self.prog.bodies[inst['id']]
            if deep == 1:       # a call of itself that certainly does not call itself again
                snap = dict(st); evl = self.events; ne = len(evl); stack = list(self.stack); base = self.base_guard; line = self.cur_line
                try: return self.exec_body(inst['id'], args, st, guard)
                except Recursion:
                    self.notes.append('recursion/depth at %s' % d)
                    st.clear(); st.update(snap); self.events = evl; del evl[ne:]; self.stack[:] = stack; self.base_guard = base; self.cur_line = line; self.cur_st = st
                    return self.opaque_call(st, guard, d, args, argty, retty, inst)
            a = args
            if inst['vis'] == 'closure' and inst['kind'] == 'item' and body['argc'] != len(args) or (inst['vis'] == 'closure' and len(args) == 2 and inst['kind'] == 'item'):
                a = self.untuple(args, body['argc'])
                # by-value closure passed to by-ref body
                t0 = self.prog.types[body['locals'][1]]
                if t0['k'] == 'ref' and a[0].op == 'agg' and str(a[0].args[0]).startswith('closure:'):
                    a[0] = self.temp(st, a[0])
            return self.exec_body(inst['id'], a, st, guard)
        return self.opaque_call(st, guard, d, args, argty, retty, inst)

    def untuple(self, args, argc):
        if len(args) == 2 and argc != 2 or (len(args) == 2 and args[1].op == 'agg' and args[1].args[0] == 'tuple'):
            tup = args[1]
            n = argc - 1
            return [args[0]] + [proj(tup, ('f', i)) for i in range(n)]
        return list(args)

    def call_value(self, f, args, st, guard, tys=None):
        """call a function value (closure aggregate, reference to one, fn item) with untupled args"""
        v = f
        n = 0
        while v.op == 'ref' and n < 4:
            nv = self.deref(st, v)
            if nv.op == 'agg' or nv.op == 'fn' or nv.op == 'ref': f0 = v; v = nv; n += 1
            else: break
        if v.op == 'fn':
            if v.args[0] >= 0:
                inst = self.prog.insts[v.args[0]]
                return self.call(inst, list(args), [None] * len(args), st, guard, None)
            return self.opaque_call(st, guard, v.args[1], list(args), [None] * len(args), None)
        if v.op == 'agg' and str(v.args[0]).startswith('closure:'):
            td = self.prog.types[int(v.args[0].split(':')[1])]
            iid = td['body']
            if iid is None or iid not in self.prog.bodies: raise Unsupported('closure body')
            body = self.prog.bodies[iid]
            t0 = self.prog.types[body['locals'][1]]
            if t0['k'] == 'ref':
                self_arg = f if f.op == 'ref' and self.deref(st, f) is v else self.temp(st, v)
            else: self_arg = v
            return self.exec_body(iid, [self_arg] + list(args), st, guard)
        if v.op == 'constfn': return v.args[0]
        return self.opaque_call(st, guard, 'call_value', [f] + list(args), [None] * (1 + len(args)), None)

    def content(self, st, v, depth=4):
        """replace references by the values they point to (for uninterpreted calls)"""
        if v.op == 'ref' and depth:
            return mk('&', self.content(st, self.deref(st, v), depth - 1))
        if v.op in ('ite',) and depth:
            return ite(v.args[0], self.content(st, v.args[1], depth), self.content(st, v.args[2], depth))
        if v.op == 'agg' and depth and v.args[2]:
            return mk('agg', v.args[0], v.args[1], tuple(self.content(st, x, depth - 1) for x in v.args[2]))
        if depth and (('O', v) in st):
            c = st[('O', v)]
            if c is not mk('deref', v): return mk('&', self.content(st, c, depth - 1))
        return v

    def ref_paths(self, ty):
        """paths (within the struct behind a reference type) of the reference-typed fields, with mutability"""
        td = self.prog.types[ty] if ty is not None else None
        if td is None or td['k'] not in ('ref', 'ptr'): return []
        return self.ref_paths_of(self.prog, td['e'], 3)
    def local_struct(self, prog, ty):
        """(program, fields as (index, type)) of a local struct; a partial reference definition stands for the original"""
        sd = prog.types[ty]
        if sd['k'] != 'adt' or sd['kind'] != 'struct' or not sd.get('local'): return None
        if sd.get('theirs'): prog, sd = sd['theirs']
        pm = sd.get('perm')
        return prog, sorted((pm[i] if pm else i, f[1]) for i, f in enumerate(sd['variants'][0]['f']))
    def ref_paths_of(self, prog, ty, depth):
        ls = self.local_struct(prog, ty)
        if not ls or not depth: return []
        out = []
        for j, t in ls[1]:
            fd = ls[0].types[t]
            if fd['k'] == 'ref': out.append(((('f', j),), bool(fd.get('m'))))
            else: out += [((('f', j),) + p, m) for p, m in self.ref_paths_of(ls[0], t, depth - 1)]
        return out
    def keep_refs(self, old, o, paths, prog, ty):
        """value of a struct after an uninterpreted call that got it by mutable reference: everything but the references"""
        prog, fs = self.local_struct(prog, ty)
        v = old
        for j, t in fs:
            k = ('f', j)
            sub_ = [p[1:] for p in paths if p[0] == k]
            if () in sub_: continue
            v = upd(v, k, self.keep_refs(proj(old, k), proj(o, k), sub_, prog, t) if sub_ else proj(o, k))
        return v
    def content_ty(self, st, v, ty):
        c = self.content(st, v)
        if v.op != 'ref': return c
        x = self.deref(st, v)
        if x.op == 'agg' or is_node(x): return c
        ex = []
        for path, m in self.ref_paths(ty):
            p = x
            for e in path: p = proj(p, e)
            if p.op == 'ref': continue
            o = self.getb(st, ('O', p))
            if o is not mk('deref', p): ex += [path, self.content(st, o)]
        return mk('with', c, tuple(ex)) if ex else c

    def opaque_call(self, st, guard, name, args, argty, retty, inst=None, pure=False):
        ga = ()
        if inst is not None:
            ga = tuple(a.replace('bitboost::', '').replace('spec::', '') for a in self.prog.args_str(inst) if not a.startswith('{closure') and '{closure' not in a)
        vals = tuple(self.content_ty(st, a, argty[i] if i < len(argty) else None) for i, a in enumerate(args))
        vals = self.writebacks(st, vals)
        t = mk('call', name, ga, vals)
        self.opaque_called[name] = self.opaque_called.get(name, 0) + 1
        self.event('call', guard, (t, name, tuple(args)))
        if not pure:
            for i, a in enumerate(args):
                self.havoc_arg(st, t, i, a, argty[i] if i < len(argty) else None)
        if self.boundary is not None and (inst is None or inst['local'] or inst['kind'] == 'virtual'):
            self.may_fail(AND(guard, mk('B', mk('panics', t))), st)
        rk = self.prog.types[retty] if retty is not None else None
        if rk is not None:
            if rk['k'] == 'tuple' and not rk['f']: return UNIT
        r = mk('ret', t)
        if rk is not None and rk['k'] == 'bool': r = mk('B', r)
        if rk is not None and rk['k'] == 'adt' and rk.get('next') is not None:      # an iterator: an uninterpreted sequence
            return mk('agg', 'it:seq', 0, (r, I(0), mk('len', r)))
        if rk is not None and rk['k'] == 'uint': r = mk('ret', t)
        return r

    def writebacks(self, st, vals):
        """memory written through a pointer that an uninterpreted call returned belongs to the objects that call could
        reach: show it in later uses of those objects"""
        dirty = {}
        for b, v in st.items():
            if b[0] != 'O' or v is mk('deref', b[1]): continue
            r = b[1]
            while r.op in ('proj', 'deref', 'unbox'): r = r.args[0]
            if r.op == 'ret': dirty.setdefault(r.args[0], []).append((b[1], v))
        m = {}
        for t, ps in dirty.items():
            ps = tuple(sorted(ps, key=lambda x: x[0].key))
            for i in range(len(t.args[2])):
                o = mk('out', t, i)
                m[o] = mk('wb', o, tuple(x for p in ps for x in p))
        return tuple(subst(v, m) for v in vals) if m else vals

    def flush(self, st, uid):
        """memory reached through a pointer returned by an uninterpreted call inside the loop body: fold its content into
        the objects that call could reach, the pointer itself does not survive the iteration"""
        dirty = {}
        for b, v in list(st.items()):
            if b[0] != 'O' or not any(x.op == 'lv' and x.args[0] == uid for x in fv(b[1])): continue
            r = b[1]
            while r.op in ('proj', 'deref', 'unbox'): r = r.args[0]
            if r.op != 'ret': continue
            if v is not mk('deref', b[1]): dirty.setdefault(r.args[0], []).append((b[1], v))
            del st[b]
        if not dirty: return
        m = {}
        for t, ps in dirty.items():
            ps = tuple(sorted(ps, key=lambda x: x[0].key))
            for i in range(len(t.args[2])):
                o = mk('out', t, i)
                m[o] = mk('wb', o, tuple(x for p in ps for x in p))
        for b, v in list(st.items()):
            mm = dict(m)
            for w in wbs(v):
                if w.args[0] in m: mm[w] = w
            st[b] = subst(v, mm)

    def havoc_arg(self, st, t, i, a, ty):
        mut = False
        if ty is not None:
            td = self.prog.types[ty]
            mut = td['k'] in ('ref', 'ptr') and td.get('m')
            if td['k'] == 'closure' or td['k'] == 'adt': mut = None
        else: mut = None
        if a.op in ('ref', 'ite', 'sw') or (mut and a.op != 'ref'):
            if mut:
                rf = self.ref_paths(ty)
                for n, (c, l) in enumerate(self.locs_of_ptr(a)):
                    nv = mk('out', t, i)
                    if rf:
                        old = self.read(st, l)
                        nv = self.keep_refs(old, nv, [p for p, _ in rf], self.prog, self.prog.types[ty]['e'])
                        for path, m in rf:
                            if not m: continue
                            p = old
                            for e in path: p = proj(p, e)
                            for c2, l2 in self.locs_of_ptr(p):
                                g2 = AND(c, c2); o2 = mk('out', t, i, path)
                                self.write(st, l2, o2 if g2 is TRUE else ite(g2, o2, self.read(st, l2)))
                    if c is not TRUE: nv = ite(c, nv, self.read(st, l))
                    self.write(st, l, nv)
        elif a.op == 'agg' and mut is None:
            for j, x in enumerate(a.args[2]):
                if x.op == 'ref' and str(a.args[0]).startswith('closure:'):
                    for c, l in self.locs_of_ptr(x):
                        # captured by reference: may be mutated unless it is a shared borrow of data we cannot tell apart
                        pass

    # ------------------------------------------------------------ loops
    def run_loop(self, fr, h, st, guard):
        blocks = fr.prep.loops[h]
        def body(s):
            outs = self.run_dag(fr, h, s, TRUE, blocks, h)
            backs = [(g, x) for t, g, x in outs if t == h]
            exits = [(t, g, x) for t, g, x in outs if t != h]
            return backs, exits
        live = fr.prep.live[h]; addr = fr.prep.addr; fid = fr.fid
        keep = (lambda k: not (k[0] == 'L' and k[1] == fid) or k[2] in live or k[2] in addr)
        s0 = {k: v for k, v in st.items() if keep(k)}
        outs = self.do_loop(s0, guard, body)
        return [(t, AND(guard, g), s) for t, g, s in outs]

    def diff(self, a, b, path, out, C=TRUE):
        if a is b: return
        if a.op == 'agg' and b.op == 'agg' and a.args[0] == b.args[0] and a.args[1] == b.args[1] and len(a.args[2]) == len(b.args[2]) and a.args[2]:
            vari = a.args[1]
            isenum = a.args[0] in self.prog.enums
            for i, (x, y) in enumerate(zip(a.args[2], b.args[2])):
                self.diff(x, y, path + ((('vf', vari, i) if isenum else ('f', i)),), out, C)
            return
        ra, fa = strip_upd(a); rb, fb = strip_upd(b)
        if ra is rb:
            for k in set(fa) | set(fb):
                x = fa[k] if k in fa else proj(ra, k)
                y = fb[k] if k in fb else proj(rb, k)
                self.diff(x, y, path + (k,), out, C)
            return
        if C is not TRUE and a.op in ('ite', 'sw') and constrain(a, C) is constrain(b, C): return      # the same whenever it goes round
        out.append(path)

    def do_loop(self, st, guard, body):
        """body(state) -> (back edges [(g, st)], exits [(tag, g, st)]);  returns exits after the loop"""
        if self.boundary is None: return self.do_loop_(st, guard, body)
        n = len(self.boundary); r = self.do_loop_(st, guard, body)
        if len(self.boundary) > n: self.boundary_loops = True; del self.boundary[n:]
        return r
    def do_loop_(self, st, guard, body):
        if self.unroll:
            r = self.peel(st, guard, body)
            if r is not None: return r
        self.lcount += 1
        uid = self.lcount
        leaves = {}     # (base, path) -> symbol
        saved_events = self.events
        ob = self.base_guard
        full = AND(ob, guard)
        rounds = 0
        while True:
            rounds += 1
            if rounds > 40: raise Unsupported('loop fixpoint')
            self.events = []
            self.base_guard = TRUE
            sh = dict(st)
            for (b, p), sym in leaves.items(): self.write(sh, (b, p), sym)
            tc, fc = self.tcount, self.fcount
            backs, exits = body(dict(sh))
            for g, x in backs: self.flush(x, uid)
            for t, g, x in exits: self.flush(x, uid)
            if not backs:
                evs = self.events
                self.events = saved_events
                self.base_guard = ob
                for e in evs: self.events.append((e[0], AND(full, e[1])) + e[2:])
                return exits
            C, sb = self.merge(backs, None)
            new = []
            for b, v in sb.items():
                if b[0] == 'T' and b not in sh: continue
                if b not in sh and b[0] == 'L': continue
                hv = self.getb(sh, b)
                vv = restrict(v, C)
                if vv is hv: continue
                ps = []
                self.diff(hv, vv, (), ps, C)
                for p in ps:
                    q = self.cut(p)
                    new.append((b, q))
            added = False
            for b, p in new:
                if (b, p) in leaves: continue
                cov = [k for k in leaves if k[0] == b and k[1] == p[:len(k[1])]]
                if cov: continue
                for k in [k for k in leaves if k[0] == b and k[1][:len(p)] == p]: del leaves[k]
                leaves[(b, p)] = mk('lv', uid, len(leaves) * 1000 + rounds)
                added = True
            if not added: break
            # re-number
        self.base_guard = ob
        body_events = self.events
        self.events = saved_events
        syms = list(leaves.items())
        kap = mk('kap', uid)
        init = {}; step = {}
        for (b, p), s in syms:
            init[s] = self.read(st, (b, p))
            if b not in st and b[0] == 'L': init[s] = mk('undef', 'l')
            step[s] = restrict(self.read(sb, (b, p)), C)
        # length preservation
        lens = {}
        for s in step:
            if length(step[s]) is mk('len', s): lens[mk('len', s)] = length(init[s])
        m = {}
        # invariants and inductions
        changed = True
        def S_(t): return subst(t, m) if m else t
        if lens:
            for s in step: step[s] = subst_len(step[s], lens)
            C = subst_len(C, lens)
            exits = [(t, subst_len(g, lens), {b: subst_len(v, lens) for b, v in x.items()}) for t, g, x in exits]
        remaining = [s for _, s in syms]
        while changed:
            changed = False
            for s in list(remaining):
                t = S_(step[s])
                if t is s:
                    m[s] = init[s]; remaining.remove(s); changed = True; continue
                d = sub(t, s) if t.op in ('lin',) or (t.op != s.op and t.op not in ('agg', 'ite', 'sw', 'call', 'ret', 'out')) else None
                if t.op == 'lin' and d is not None and not any(x.op == 'lv' and x.args[0] == uid for x in fv(d)) and kap not in fv(d):
                    m[s] = add(init[s], mul(d, kap)); remaining.remove(s); changed = True
            if changed:
                m = {k: subst(v, {a: b for a, b in m.items() if a is not k}) if fv(v) else v for k, v in m.items()}
        for s in remaining: step[s] = S_(step[s])
        # a second pass: steps may have become constrained by C
        C = S_(C)
        def lvs(t): return [x for x in fv(t) if x.op == 'lv' and x.args[0] == uid]
        # trip count
        N = None
        condvars = lvs(C)
        if not condvars:
            N = self.trip(C, kap)
        deps = {s: set(lvs(step[s])) for s in remaining}
        final = {}; atk = {}
        def closure(s):
            g = set(); stk = [s] + (list(condvars) if N is None else [])
            while stk:
                x = stk.pop()
                if x in g: continue
                g.add(x); stk += list(deps.get(x, ()))
            return g
        blind = mk('blind')
        if remaining or N is None:
            for s in remaining:
                grp = closure(s)
                bl = {x: blind for x in grp}
                order = sorted(grp, key=lambda x: (mk('o', init[x], subst(step[x], bl)).key, x is not s, x.key))
                final[s], atk[s] = self.close(uid, kap, N, C, s, order, init, step)
        if N is None and condvars:
            grp = set()
            for s in condvars: grp |= closure(s)
            bl = {x: blind for x in grp}
            order = sorted(grp, key=lambda x: (mk('o', init[x], subst(step[x], bl)).key, x.key))
            Nt = self.wtrip(uid, kap, C, order, init, step)
        else: Nt = N
        # closed substitution
        fin = {kap: Nt}
        for s in remaining: fin[s] = final[s]
        for s in m: fin[s] = subst(subst(m[s], {x: final[x] for x in remaining}), {kap: Nt})
        res = []
        one = len(exits) == 1
        ors = FALSE
        gs = [subst(S_(g), fin) for t, g, x in exits]
        for i, (t, g, x) in enumerate(exits):
            g2 = TRUE if one else gs[i] if i + 1 < len(exits) else NOT(ors)     # it leaves through one of them
            ors = OR(ors, g2)
            memo = {}
            memo2 = {}
            x2 = {}
            for b, v in x.items():
                v1 = restrict(v, g)
                if b[0] == 'O' and any(y is kap or y.op == 'lv' and y.args[0] == uid for y in fv(b[1])):
                    continue
                x2[b] = subst(v1, fin, memo2) if fv(v1) else v1
            if g2 is not FALSE: res.append((t, g2, x2))
        # events
        at = {}
        for s in remaining: at[s] = atk[s]
        for s in m: at[s] = subst(m[s], {x: atk[x] for x in remaining})
        memo = {}
        evs = []
        for e in body_events:
            evs.append(self.subst_event(e, at, memo, lens))
        self.events.append(('loop', full, (Nt, subst(C, at, memo), kap, evs), tuple(self.stack), self.cur_line))
        return res

    def peel(self, st, guard, body):
        """a loop that certainly ends within a few rounds, round by round; None if it is not known to end"""
        saved, ob = self.events, self.base_guard
        full = AND(ob, guard)
        cur = dict(st); g = TRUE; exits = []; evs = []
        try:
            for _ in range(self.unroll):
                self.events = []; self.base_guard = TRUE
                backs, ex = body(dict(cur))
                evs += [(e[0], AND(g, e[1])) + e[2:] for e in self.events]
                exits += [(t, AND(g, h), x) for t, h, x in ex]
                backs = [(h, x) for h, x in backs if AND(g, h) is not FALSE]
                if not backs:
                    saved += [(e[0], AND(full, e[1])) + e[2:] for e in evs if AND(full, e[1]) is not FALSE]
                    return [(t, h, x) for t, h, x in exits if h is not FALSE]
                C, cur = self.merge(backs, None)
                cur = {b: restrict(v, C) for b, v in cur.items()}
                g = AND(g, C)
            return None
        finally: self.events = saved; self.base_guard = ob

    def subst_event(self, e, m, memo, lens):
        def go(x):
            if isinstance(x, Term):
                if lens: x = subst_len(x, lens)
                return subst(x, m, memo) if fv(x) else x
            if isinstance(x, (tuple, list)): return type(x)(go(y) for y in x)
            return x
        if e[0] == 'loop':
            n, c, k, evs = e[2]
            return ('loop', go(e[1]), (go(n) if n is not None else None, go(c), k, [self.subst_event(x, m, memo, lens) for x in evs])) + e[3:]
        return (e[0], go(e[1]), go(e[2])) + e[3:]

    def cut(self, path):
        out = []
        for e in path:
            if e[0] in ('i', 's'): break
            out.append(e)
        return tuple(out)

    def trip(self, C, kap): return trip(C, kap)

    def close(self, uid, kap, N, C, s, order, init, step):
        h = 1 + max([init[x].ht for x in order] + [step[x].ht for x in order] + [C.ht] + ([N.ht] if N is not None else []))
        bm = {x: mk('bu' if x in UNSIGNED else 'bv', h, i) for i, x in enumerate(order)}
        bm[kap] = mk('k', h)
        inits = tuple(init[x] for x in order)
        steps = tuple(subst(step[x], bm) for x in order)
        j = order.index(s)
        if N is not None:
            return mk_fold(N, inits, steps, j, h), mk_fold(kap, inits, steps, j, h)
        c = subst(C, bm)
        return mk('wfold', c, inits, steps, j, h), mk_fold(kap, inits, steps, j, h)

    def wtrip(self, uid, kap, C, order, init, step):
        h = 1 + max([init[x].ht for x in order] + [step[x].ht for x in order] + [C.ht])
        bm = {x: mk('bu' if x in UNSIGNED else 'bv', h, i) for i, x in enumerate(order)}
        bm[kap] = mk('k', h)
        return mk('wfold', subst(C, bm), tuple(init[x] for x in order), tuple(subst(step[x], bm) for x in order), -1, h)

    # ------------------------------------------------------------ entry
    def analyze(self, inst, args=None, st=None):
        """summary of a function: dict(ret, state, events)"""
        body = self.prog.bodies[inst['id']]
        if args is None: args = [mk('arg', i) for i in range(body['argc'])]
        if st is None: st = {}
        self.events = []
        rv = self.exec_body(inst['id'], args, st, TRUE)
        return {'ret': rv, 'st': st, 'events': self.events}

def subst_len(t, lens):
    return _subst(t, lens, {}, None)

def boolify_v(v):
    def f(x): return boolify(x)
    if v.op in ('ite', 'sw'):
        return lift('boolify', f, v)
    return boolify(v)

def wbs(t):
    out = []; seen = set(); stk = [t]
    while stk:
        x = stk.pop()
        if isinstance(x, tuple): stk.extend(x); continue
        if not isinstance(x, Term) or x in seen: continue
        seen.add(x)
        if x.op == 'wb': out.append(x)
        stk.extend(x.args)
    return out

def ptr_eq(a, b):
    if a is b: return TRUE
    if a.op == 'null' and b.op == 'ref' or a.op == 'ref' and b.op == 'null': return FALSE
    x, y = (a, b) if a.key < b.key else (b, a)
    return mk('eqt', x, y)

def trunc(v, bits):
    def f(x):
        if x.op == 'i': return I(x.args[0] & ((1 << bits) - 1))
        return mk('trunc', bits, x)
    return lift('trunc%d' % bits, f, v)
def i2f(x):
    if x.op == 'i': return F(float(x.args[0]))
    return mk('i2f', x)
def f2i(x, w):
    return mk('f2i', w, x)

from terms import CONS as _C
_C['trunc'] = lambda b, x: trunc(x, b)
_C['i2f'] = lambda x: lift('i2f', i2f, x)
_C['f2i'] = lambda w, x: lift('f2i' + w, lambda y: f2i(y, w), x)

def UNIT_OF(it, retty): return UNIT
