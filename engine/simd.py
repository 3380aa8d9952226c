"""Sums over whole packed storage, as counted by vector kernels.

The value graph of a kernel is a number made of counts of bits of 256-bit registers, carried around loops.  It is
decided by telescoping: the final number, read as a function R of what a loop carries, must change in every round by
exactly the weighted count of the groups that round is responsible for, and the groups of all rounds of all loops must
be the groups of the storage, each once.  A register is either memory only -- then its 256 bits are compared, bit by bit,
with the layout, and it is replaced by the name of the group it holds -- or a position-wise combination of such groups
and of carried registers, whose contribution is the truth table of one column.  No adder structure is assumed.
What this leaves open is only ever refuted, by evaluating the graph on particular storage.
"""
from terms import *
import terms, bits, random
from bits import Bits, GiveUp, SIZE, W

for _k, _n in (('__m256i', 32), ('__m128i', 16)): SIZE['std::arch::x86_64::' + _k] = _n
M256, M128 = 'std::arch::x86_64::__m256i', 'std::arch::x86_64::__m128i'
POSWISE = {'_mm256_and_si256', '_mm256_or_si256', '_mm256_xor_si256', '_mm256_andnot_si256', '_mm_and_si128', '_mm_or_si128', '_mm_xor_si128', '_mm_andnot_si128', '_mm256_setzero_si256', '_mm_setzero_si128'}

def carries(t, memo={}):
    """does the register depend on what a loop carries (or on a finished loop)?"""
    r = memo.get(t)
    if r is None: r = memo[t] = t.op in ('bv', 'bu', 'cv', 'fold', 'wfold') or any(carries(x) for x in subterms_of(t))
    return r

class VBits(Bits):
    def __init__(self, *a, **k):
        super().__init__(*a, **k); self.vmemo = {}; self.names = {}
    def atom(self, w):
        """a word as an index: a number named by its bits"""
        key = tuple(w)
        if all(b.op == 'b' for b in key): return I(sum(int(b.args[0]) << i for i, b in enumerate(key)))
        if key not in self.names: self.names[key] = mk('u', 'ix%d' % len(self.names))
        return self.names[key]
    def index(self, i):
        i = self.expand(i)
        c, ms = lin_parts(i); r = I(c)
        for m, k in ms.items():
            if m.op in ('lane32', 'proj'): m = self.atom(self.word(m))
            r = add(r, mul(m, I(k)))
        return r
    def read(self, x, i):
        return super().read(x, self.index(i))
    def _word(self, t):
        if t.op == 'lane32': return bits.W and self.pad(self.vec(t.args[0])[32 * t.args[1]:32 * t.args[1] + 32])
        if t.op == 'vop':
            n, k, a = t.args
            if n == '_mm256_extract_epi64': return self.pad(self.vec(a[0])[64 * k:64 * k + 64])
            if n == '_mm256_extract_epi32': return self.pad(self.vec(a[0])[32 * k:32 * k + 32])
            if n == '_mm_cvtsi128_si64': return self.pad(self.vec(a[0])[:64])
        return super()._word(t)
    def pad(self, w): return list(w) + [FALSE] * (W - len(w))
    def vec(self, t):
        r = self.vmemo.get(t)
        if r is None: r = self.vmemo[t] = self._vec(t)
        return r
    def _vec(self, t):
        a = t.args
        if t.op == 'vop':
            n, k, x = a
            if 'setzero' in n: return [FALSE] * (256 if '256' in n else 128)
            for nm, f in (('_and_', AND), ('_or_', OR), ('_xor_', bits.bxor1), ('_andnot_', lambda p, q: AND(NOT(p), q))):
                if nm in n: return [f(p, q) for p, q in zip(self.vec(x[0]), self.vec(x[1]))]
            if n in ('_mm256_set1_epi64x',): return self.word(x[0])[:64] * 4
            if n in ('_mm256_set1_epi32',): return self.word(x[0])[:32] * 8
            if n == '_mm256_set_m128i': return self.vec(x[1]) + self.vec(x[0])
            if n == '_mm256_setr_m128i': return self.vec(x[0]) + self.vec(x[1])
            if n == '_mm256_broadcastsi128_si256': return self.vec(x[0]) * 2
            if n == '_mm256_castsi256_si128': return self.vec(x[0])[:128]
            if n == '_mm256_extracti128_si256': return self.vec(x[0])[128 * (k & 1):][:128]
            if n == '_mm256_set_epi64x': return sum((self.word(y)[:64] for y in reversed(x)), [])
            if n == '_mm256_setr_epi64x': return sum((self.word(y)[:64] for y in x), [])
            if n == '_mm256_set_epi32': return sum((self.word(y)[:32] for y in reversed(x)), [])
            if n == '_mm256_setr_epi32': return sum((self.word(y)[:32] for y in x), [])
        if t.op == 'vec32': return sum((self.word(y)[:32] for y in a[0]), [])
        if t.op == 'proj' and a[1][0] == 'i' and a[0].op == 'view':
            ty, sx, sy, base = a[0].args
            sy = SIZE.get(ty, sy); i = self.index(a[1][1]); out = []
            for j in range(sy): out += self.byte(base, sx, add(mul(i, I(sy)), I(j)))
            return out
        if t.op == 'ite':
            c = self.boolean(a[0])
            return [ite(c, p, q) for p, q in zip(self.vec(a[1]), self.vec(a[2]))]
        raise GiveUp('no bits for the register ' + show(t)[:100])
    def vbyte(self, v, esz, d):
        if esz in (16, 32) and (v.op in ('vop', 'vec32') or v.op == 'proj' and v.args[0].op == 'view'): return self.vec(v)[8 * d:8 * d + 8]
        return super().vbyte(v, esz, d)

def unroll(t):
    """a loop with a small constant number of rounds, round by round"""
    n, inits, steps, j, h = t.args
    if t.op != 'fold' or n.op != 'i' or n.args[0] > 64 or j < 0: raise GiveUp('a loop whose number of rounds is not known')
    st = list(inits)
    for k in range(n.args[0]):
        m = {mk('k', h): I(k)}
        for i, x in enumerate(st): m[mk('bv', h, i)] = x; m[mk('bu', h, i)] = x
        st = [subst(x, m) for x in steps]
    return st[j]
def short(t): return t.op == 'fold' and t.args[0].op == 'i' and t.args[0].args[0] <= 64
def elem(x):
    """size of the elements of an array read directly"""
    if x.op == 'view': return SIZE.get(x.args[0], x.args[2])
    y = x
    while y.op in ('store', 'unview'): y = y.args[0] if y.op == 'store' else y.args[2]
    return y.args[1] if y.op == 'view' else None

def source(arr, esz, addr, n):
    """the stored value that holds the n bytes at a constant address, and where in it: (value, offset)"""
    while True:
        op = arr.op
        if op == 'view': arr, esz = arr.args[3], arr.args[1]; continue
        if op == 'unview': esz = SIZE.get(arr.args[0], esz); arr = arr.args[2]; continue
        if op == 'store':
            i = arr.args[1]
            if i.op != 'i': raise GiveUp('a write at a variable address')
            d = addr - i.args[0] * esz
            if 0 <= d and d + n <= esz: return arr.args[2], d
            if d + n > 0 and d < esz: raise GiveUp('a write of a part')
            arr = arr.args[0]; continue
        if short(arr): arr = unroll(arr); continue
        if op == 'arr' and addr % esz == 0 and n == esz: return arr.args[0][addr // esz], 0
        raise GiveUp('contents of ' + show(arr)[:80])

def pop(v, lo, n):
    """bits counted in n bits of a register from lo"""
    if v.op == 'vop' and 'setzero' in v.args[0]: return I(0)
    return mk('pop', v, lo, n)

def lane_of(t):
    """a scalar that is a part of a register: (register, first bit, bits)"""
    if t.op == 'ucast': return lane_of(t.args[1])
    if t.op == 'vop' and t.args[0] == '_mm256_extract_epi64': return t.args[2][0], 64 * t.args[1], 64
    if t.op == 'vop' and t.args[0] == '_mm256_extract_epi32': return t.args[2][0], 32 * t.args[1], 32
    if t.op == 'lane32': return t.args[0], 32 * t.args[1], 32
    if t.op == 'proj' and t.args[1][0] == 'i' and t.args[1][1].op == 'i' and elem(t.args[0]):
        n = elem(t.args[0])
        v, d = source(t.args[0], n, t.args[1][1].args[0] * n, n)
        if d == 0 and v.op not in ('vop', 'bv', 'cv', 'fold') and not (v.op == 'proj' and v.args[0].op == 'view'): return None
        return v, 8 * d, 8 * n
    return None

def number(t):
    """a linear combination of counts of parts of registers and of carried lanes"""
    op = t.op; a = t.args
    if op == 'i': return t
    if op == 'lin':
        r = I(a[0])
        for m, k in a[1]: r = add(r, mul(number(m), I(k)))
        return r
    if op == 'mul':
        r = I(1)
        for m in a[0]: r = mul(r, number(m))
        return r
    if op in ('ucast',) and a[0] >= 32: return number(a[1])
    if op == 'ctpop':
        x = lane_of(a[0])
        if x is None: raise GiveUp('a count of ' + show(a[0])[:80])
        return pop(*x)
    if op == 'vop' and a[0] == '_mm256_extract_epi64': return lanes(a[2][0], 64)[a[1]]
    if op == 'vop' and a[0] == '_mm256_extract_epi32': return lanes(a[2][0], 32)[a[1]]
    def half(x, hi):
        while x.op == 'ucast': x = x.args[1]
        if x.op == 'vop' and x.args[0] == '_mm256_extract_epi64': return lanes(x.args[2][0], 32)[2 * x.args[1] + hi]
        raise GiveUp('half of ' + show(x)[:80])
    if op == 'and' and len(a[0]) == 2:
        for x, y in (a[0], a[0][::-1]):
            if x is I(0xFFFFFFFF): return half(y, 0)
    if op == 'trunc' and a[0] == 32: return half(a[1], 0)
    if op == 'rem' and a[1] is I(1 << 32): return half(a[0], 0)
    if op == 'div' and a[1] is I(1 << 32): return half(a[0], 1)
    if op == 'shr' and a[1] is I(32): return half(a[0], 1)
    if op == 'lane': return t
    if op == 'pop': return t
    x = lane_of(t)
    if x is not None and x[1] % x[2] == 0: return lanes(x[0], x[2])[x[1] // x[2]]
    if short(t): return number(unroll(t))
    if op == 'proj' and a[1][0] == 'i' and a[1][1].op == 'i' and elem(a[0]):
        n = elem(a[0]); v, d = source(a[0], n, a[1][1].args[0] * n, n)
        if d == 0: return number(v)
    raise GiveUp('no number for ' + show(t)[:100])

def lanes(t, lw):
    """the lanes of a register of counts"""
    n = 256 // lw
    if t.op == 'vop':
        nm, k, x = t.args
        if 'setzero' in nm: return [I(0)] * n
        # lanes are counts: with fewer than 2^27 groups none reaches 2^32, so halves of a 64-bit lane do not interfere
        ok = nm.endswith('epi64') or nm.endswith('epi%d' % lw)
        if ok and '_add_' in nm: return [add(p, q) for p, q in zip(lanes(x[0], lw), lanes(x[1], lw))]
        if ok and '_sub_' in nm: return [sub(p, q) for p, q in zip(lanes(x[0], lw), lanes(x[1], lw))]
        if ok and '_slli_' in nm and k < lw: return [mul(p, I(1 << k)) for p in lanes(x[0], lw)]
        if nm == '_mm256_set_epi64x' and lw == 64: return [number(y) for y in reversed(x)]
        if nm == '_mm256_setr_epi64x' and lw == 64: return [number(y) for y in x]
    if short(t): return lanes(unroll(t), lw)
    if t.op in ('bv', 'cv', 'fold'): return [mk('lane', t, l, lw) for l in range(n)]
    if t.op == 'proj' and t.args[1][0] == 'i' and t.args[1][1].op == 'i' and t.args[0].op == 'view':
        out = []
        for l in range(n):
            v, d = source(t.args[0], 32, 32 * t.args[1][1].args[0] + l * lw // 8, lw // 8)
            if d: raise GiveUp('a part of a stored number')
            out.append(number(v))
        return out
    raise GiveUp('no lanes for ' + show(t)[:100])

def renum(t, f):
    """map the atoms of a number"""
    if t.op == 'i': return t
    c, ms = lin_parts(t); r = I(c)
    for m, k in ms.items(): r = add(r, mul(f(m), I(k)))
    return r

class Kernel:
    def __init__(self, b, slice_region, want, weight, n, split):
        """want(e) -> 256 bits of group e; weight(p); n: number of groups; split(t, q, r): t with n = 16 q + r"""
        self.b, self.region, self.want, self.weight, self.n, self.split = b, slice_region, want, weight, n, split
        self.groups = {}; self.cover = []; self.note = []

    def group(self, t):
        """the group a memory-only register holds, or None"""
        if t in self.groups: return self.groups[t]
        es = set()
        for x in find_all(t, lambda y: y.op == 'proj' and y.args[1][0] == 'i' and y.args[0].op == 'view' and y.args[0].args[0] == M256 and y.args[0].args[3] is self.region):
            es.add(x.args[1][1])
        r = None
        if len(es) == 1:
            e = es.pop()
            try: v = self.b.vec(t)
            except GiveUp as x: self.note.append(str(x)); v = None
            if v is not None:
                w = self.want(self.b.index(e))
                if all(p is q for p, q in zip(v, w)) and len(v) == 256: r = e
                else: self.note.append('the register of group %s has bits other than the masked values' % show(e))
        self.groups[t] = r
        return r

    def column(self, t, vars, tab):
        """truth table of one column"""
        if t in tab: return tab[t]
        if t.op == 'cv': r = vars(t)
        elif not carries(t) and self.group(t) is not None: r = vars(mk('grp', self.group(t)))
        elif t.op == 'vop' and t.args[0] in POSWISE:
            nm = t.args[0]; x = [self.column(y, vars, tab) for y in t.args[2]]
            if 'setzero' in nm: r = 0
            elif '_andnot_' in nm: r = vars(None) & ~x[0] & x[1]
            elif '_and_' in nm: r = x[0] & x[1]
            elif '_or_' in nm: r = x[0] | x[1]
            else: r = x[0] ^ x[1]
        else: raise GiveUp('a register ' + show(t)[:100])
        tab[t] = r
        return r

    def leaves(self, t, out):
        if t.op == 'cv' or not carries(t) and self.group(t) is not None: out.add(t if t.op == 'cv' else mk('grp', self.group(t)))
        elif t.op == 'vop' and t.args[0] in POSWISE:
            for x in t.args[2]: self.leaves(x, out)
        else: raise GiveUp('a register ' + show(t)[:100])

    def exact(self, d):
        """the number d is the weighted count of some groups, each once: -> the groups"""
        c, ms = lin_parts(d)
        if c: raise GiveUp('a constant in the sum')
        per = {}
        for m, k in ms.items():
            if m.op != 'pop': raise GiveUp('a lane that is not carried over')
            per.setdefault((m.args[1], m.args[2]), []).append((m.args[0], k))
        if not per: return []
        size = {n for _, n in per}
        if len(size) != 1: raise GiveUp('lanes of different widths')
        size = size.pop(); groups = None
        if set(per) != {(lo, size) for lo in range(0, 256, size)}: raise GiveUp('lanes that are not counted')
        for (lo, n), items in per.items():
            w = {self.weight(p) for p in range(lo, lo + n)}
            if len(w) != 1: raise GiveUp('a lane with bits of different weight')
            w = w.pop()
            vs = set()
            for v, k in items: self.leaves(v, vs)
            vs = sorted(vs, key=lambda t: t.key)
            if len(vs) > 22: raise GiveUp('more than 22 registers in a round')
            N = 1 << len(vs); full = (1 << N) - 1
            def table(i):
                blk = ((1 << (1 << i)) - 1) << (1 << i)     # 2^i zeros, then 2^i ones
                s = 1 << (i + 1)
                while s < N: blk |= blk << s; s *= 2
                return blk
            tabs = {v: table(i) for i, v in enumerate(vs)}
            memo = {}
            cols = [(self.column(v, lambda x: full if x is None else tabs[x], memo), k) for v, k in items]
            gs = [v for v in vs if v.op == 'grp']
            cols += [(tabs[g], -w) for g in gs]
            pos = total([(x, k) for x, k in cols if k > 0]); neg = total([(x, -k) for x, k in cols if k < 0])
            if pos != neg: raise GiveUp('a round does not add the weighted count of its groups')
            gs = frozenset(g.args[0] for g in gs)
            if groups is None: groups = gs
            elif groups != gs: raise GiveUp('lanes that count different groups')
        return sorted(groups, key=lambda t: t.key)

    def step(self, R):
        """remove the outermost loop from the number R"""
        atoms = [m for m in lin_parts(R)[1]]
        folds = set()
        def outer(t):       # outermost finished loops
            if t.op in ('fold', 'wfold'): folds.add(t); return
            if t.op == 'vop' or t.op == 'proj' or carries(t):
                for x in subterms_of(t): outer(x)
        for m in atoms: outer(m.args[0])
        if not folds:
            g = self.exact(R)
            if g: raise GiveUp('a count outside the loops')
            return None
        if any(f.op == 'wfold' for f in folds): raise GiveUp('a loop whose number of rounds is not known')
        inner = {f for f in folds if any(f is not g and find_all(g, lambda y: y is f) for g in folds)}
        top = folds - inner
        if len({(f.args[0], f.args[4]) for f in top}) != 1:
            # different loops side by side: one of them first
            k = max({(f.args[0], f.args[4]) for f in top}, key=lambda x: (max(f.ht for f in top if (f.args[0], f.args[4]) == x), x[0].key))
            top = {f for f in top if (f.args[0], f.args[4]) == k}
        n, h = next(iter(top)).args[0], next(iter(top)).args[4]
        # one loop carrying all that these loops carry: equal carried registers are merged
        slots = {}; base = {}
        for f in sorted({f.args[1:3] for f in top}, key=lambda p: str([x.key for x in p[0] + p[1]])): base[f] = len(base)
        nodes = [(f, i) for f in base for i in range(len(f[0]))]
        cls = {}; keys = {}
        for x in nodes: cls[x] = keys.setdefault(x[0][0][x[1]], len(keys))
        while True:
            keys = {}; new = {}
            for f, i in nodes:
                m = {mk('bv', h, j): mk('cv', cls[(f, j)]) for j in range(len(f[0]))}
                new[(f, i)] = keys.setdefault((cls[(f, i)], subst(f[1][i], m)), len(keys))
            same = len(set(new.values())) == len(set(cls.values()))
            cls = new
            if same: break
        init, stp = {}, {}
        for f, i in nodes:
            m = {mk('bv', h, j): mk('cv', cls[(f, j)]) for j in range(len(f[0]))}
            init[mk('cv', cls[(f, i)])] = f[0][i]; stp[mk('cv', cls[(f, i)])] = subst(f[1][i], m)
        cvs = {f: mk('cv', cls[(f.args[1:3], f.args[3])]) for f in top}
        def put(m, table):
            def atom(x):
                if x.op == 'lane': return lanes(table[x.args[0]], x.args[2])[x.args[1]] if x.args[0] in table else x
                if x.op == 'pop': return pop(subst(x.args[0], table), x.args[1], x.args[2])
                raise GiveUp('a number ' + show(x)[:80])
            return renum(m, atom)
        S = put(R, cvs)
        delta = sub(put(S, stp), S)
        groups = self.exact(delta)
        self.cover.append((n, h, groups))
        return put(S, init)

    def prove(self, t):
        """None when the number t is the weighted count of all groups; otherwise what is in the way"""
        R = number(t)
        for _ in range(8):
            if R is I(0): break
            R = self.step(R)
            if R is None: return None
        else: raise GiveUp('too many loops')
        q = mk('u', 'q')
        for r in range(16):
            at = I(0)
            for n, h, groups in reversed(self.cover):
                n = self.split(n, q, r); k = mk('k', h)
                if n.op == 'i' and n.args[0] <= 0: continue
                if not groups: continue
                m = len(groups)
                got = sorted((sub(self.split(e, q, r), mul(k, I(m))) for e in groups), key=lambda x: lin_parts(x)[0])
                if got != [add(at, I(i)) for i in range(m)]: raise GiveUp('the groups of a loop: ' + ', '.join(show(x) for x in got)[:120])
                at = add(at, mul(n, I(m)))
            if at is not self.split(self.n, q, r): raise GiveUp('%s of %s groups' % (show(at), show(self.split(self.n, q, r))))
        return None

def total(cols):
    """bit-sliced sum of weighted truth tables, lowest digit first, without leading zeros"""
    out = []
    def add_at(x, i):
        while x:
            while len(out) <= i: out.append(0)
            c = out[i] & x; out[i] ^= x; x = c; i += 1
    for x, k in cols:
        i = 0
        while k:
            if k & 1: add_at(x, i)
            k >>= 1; i += 1
    while out and not out[-1]: out.pop()
    return out

# ---------------------------------------------------------------- particular storage (refutes only)
class Particular:
    """the value of a graph on particular storage: regions {array of blocks: bytes}, numbers {term: int}"""
    def __init__(self, regions, nums, limit=400000):
        self.regions, self.nums, self.limit = regions, nums, limit
        self.memo = {}; self.steps = 0
    def open(self, t, memo={}):
        r = memo.get(t)
        if r is None: r = memo[t] = t.op in ('bv', 'bu', 'k', 'kap') or any(self.open(x) for x in subterms_of(t))
        return r
    def ev(self, t, env):
        if t in env: return env[t]
        m = env if self.open(t) else self.memo
        r = m.get(t)
        if r is None:
            self.steps += 1
            if self.steps > self.limit: raise GiveUp('too large')
            r = self._ev(t, env); m[t] = r
        return r
    def mem(self, t, esz, env):
        """-> bytes"""
        key = (t, esz)
        if t in self.regions: return self.regions[t]
        m = env if self.open(t) else self.memo
        if key not in m: m[key] = self._mem(t, esz, env)
        return m[key]
    def _mem(self, t, esz, env):
        a = t.args
        if t.op == 'view': return self.mem(a[3], a[1], env)
        if t.op == 'unview': return self.mem(a[2], SIZE.get(a[0], esz), env)
        if t.op == 'store':
            b = self.mem(a[0], esz, env); i = self.ev(a[1], env)
            if (i + 1) * esz > len(b) or i < 0: raise GiveUp('a write outside')
            return b[:i * esz] + self.ev(a[2], env).to_bytes(esz, 'little') + b[(i + 1) * esz:]
        if t.op == 'arr': return b''.join(self.ev(x, env).to_bytes(esz, 'little') for x in a[0])
        if t.op == 'ite': return self.mem(a[1] if self.ev(a[0], env) else a[2], esz, env)
        if t.op in ('bv', 'cv') and t in env: return env[t]
        raise GiveUp('memory ' + show(t)[:80])
    def _ev(self, t, env):
        op, a = t.op, t.args; E = lambda x: self.ev(x, env)
        if t in self.nums: return self.nums[t]
        if op in ('i', 'b'): return int(a[0])
        if op == 'lin': return a[0] + sum(k * E(m) for m, k in a[1])
        if op == 'mul':
            r = 1
            for x in a[0]: r *= E(x)
            return r
        if op == 'len' and a[0] in self.regions: return len(self.regions[a[0]]) // 32
        if op in ('div', 'rem'):
            x, y = E(a[0]), E(a[1])
            if x < 0 or y <= 0: raise GiveUp('division of negative numbers')
            return x // y if op == 'div' else x % y
        if op in ('imin', 'imax'): return (min if op == 'imin' else max)(E(a[0]), E(a[1]))
        if op in ('and', 'or', 'xor'):
            r = E(a[0][0])
            for x in a[0][1:]: r = r & E(x) if op == 'and' else r | E(x) if op == 'or' else r ^ E(x)
            return r
        if op == 'not': return E(a[0]) ^ ((1 << a[1]) - 1)
        if op == 'shl': return E(a[0]) << E(a[1]) if len(a) < 3 else E(a[0]) << E(a[1]) & ((1 << a[2]) - 1)
        if op == 'shr': return E(a[0]) >> E(a[1])
        if op == 'scast': return (E(a[1]) + (1 << a[0] - 1)) % (1 << a[0]) - (1 << a[0] - 1)
        if op == 'sext': return ((E(a[2]) + (1 << a[0] - 1)) % (1 << a[0]) - (1 << a[0] - 1)) % (1 << a[1])
        if op in ('trunc', 'ucast'): return E(a[1]) & ((1 << a[0]) - 1)
        if op == 'ctpop': return bin(E(a[0])).count('1')
        if op == 'ite': return E(a[1]) if E(a[0]) else E(a[2])
        if op == 'lt0': return int(E(a[0]) < 0)
        if op == 'eq0': return int(E(a[0]) == 0)
        if op in ('fold', 'wfold'):
            n, inits, steps, j, h = a
            key = ('run', n, inits, steps, h); m = env if self.open(t) else self.memo
            if key not in m:
                cnt = E(n) if op == 'fold' else 100000
                st = [E(x) if j >= 0 else None for x in inits]; k = 0
                outer = {x: v for x, v in env.items() if isinstance(x, Term) and x.op in ('bv', 'bu', 'k')}
                while k < cnt:
                    e = dict(outer); e[mk('k', h)] = k
                    for i, v in enumerate(st): e[mk('bv', h, i)] = v; e[mk('bu', h, i)] = v
                    if op == 'wfold' and not self.ev(n, e): break
                    st = [self.ev(s, e) for s in steps]; k += 1
                m[key] = (k, st)
            k, st = m[key]
            return k if j < 0 else st[j]
        if op == 'lane32': return E(a[0]) >> 32 * a[1] & 0xFFFFFFFF
        if op == 'vec32': return sum((E(x) & 0xFFFFFFFF) << 32 * i for i, x in enumerate(a[0]))
        if op == 'gather':
            b = self.mem(a[0], a[4], env); x = E(a[3]); r = 0
            for l in range(a[5]):
                at = a[1] + (x >> 32 * l & 0xFFFFFFFF) * a[2]
                if at + 4 > len(b): raise GiveUp('a read outside')
                r |= int.from_bytes(b[at:at + 4], 'little') << 32 * l
            return r
        if op == 'proj' and a[1][0] == 'i' and elem(a[0]):
            sy = elem(a[0])
            b = self.mem(a[0], sy, env); i = E(a[1][1])
            if i < 0 or (i + 1) * sy > len(b): raise GiveUp('a read outside')
            return int.from_bytes(b[i * sy:(i + 1) * sy], 'little')
        if op == 'vop':
            n, k, x = a; F = (1 << 256) - 1; M = (1 << 64) - 1; M32 = (1 << 32) - 1
            if 'setzero' in n: return 0
            if '_andnot_' in n: return ~E(x[0]) & E(x[1]) & F
            if '_and_' in n: return E(x[0]) & E(x[1])
            if '_or_' in n: return E(x[0]) | E(x[1])
            if '_xor_' in n: return E(x[0]) ^ E(x[1])
            if n == '_mm256_extract_epi64': return E(x[0]) >> 64 * k & M
            if n == '_mm256_extract_epi32': return E(x[0]) >> 32 * k & M32
            if n == '_mm_cvtsi128_si64': return E(x[0]) & M
            if n == '_mm256_castsi256_si128': return E(x[0]) & ((1 << 128) - 1)
            if n == '_mm256_extracti128_si256': return E(x[0]) >> 128 * (k & 1) & ((1 << 128) - 1)
            if n == '_mm256_set1_epi64x': return (E(x[0]) & M) * sum(1 << 64 * i for i in range(4))
            if n == '_mm256_set1_epi32': return (E(x[0]) & M32) * sum(1 << 32 * i for i in range(8))
            if n == '_mm256_set_m128i': return E(x[0]) << 128 | E(x[1])
            if n == '_mm256_setr_m128i': return E(x[1]) << 128 | E(x[0])
            if n == '_mm256_broadcastsi128_si256': return E(x[0]) << 128 | E(x[0])
            for w, m in ((64, M), (32, M32), (16, 0xFFFF), (8, 0xFF)):
                if n.endswith('_epi%d' % w) or n.endswith('_epi%dx' % w):
                    L = lambda v: [v >> w * i & m for i in range(256 // w)]
                    if '_add_' in n: r = [p + q for p, q in zip(L(E(x[0])), L(E(x[1])))]
                    elif '_sub_' in n: r = [p - q for p, q in zip(L(E(x[0])), L(E(x[1])))]
                    elif '_slli_' in n: r = [p << k for p in L(E(x[0]))]
                    elif '_srli_' in n: r = [p >> k for p in L(E(x[0]))]
                    elif '_set_' in n: r = [E(y) for y in reversed(x)]
                    elif '_setr_' in n: r = [E(y) for y in x]
                    else: break
                    return sum((v & m) << w * i for i, v in enumerate(r))
        raise GiveUp('no value for ' + show(t)[:80])
