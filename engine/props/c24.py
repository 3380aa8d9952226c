"""Gradients as levels: storing, reading back and summing values in gradient units are extracted as value graphs and compared
with the affine map of the width; the sums over whole storage (vector kernels) are shown to add, over all their rounds, every
256-bit group of the storage once, each bit under both masks and with the weight of its lane."""
from core import *
from bits import GiveUp
from simd import VBits, Kernel, Particular
import core, interp, models, random, signal
A = [mk('arg', i) for i in range(5)]
RULE = 'value-graph equality with reference'
SUM = 'telescoping sum over all groups'
def D(t): return mk('deref', t)
def F0(t): return mk('proj', t, ('f', 0))
def F1(t): return mk('proj', t, ('f', 1))
def ex(c, name, n):
    f = c.fn(r'^client::%s$' % name, prog=c.C)
    return f, c.run(f, A[:n], prog=c.C, rawmem=True)

def affine(c, fam, w):
    m = '%s%d' % (fam, w); top = F(float((1 << w) - 1))
    def lp(v, n, b): return c.spec('scaled_spec::sc_linproj', [top, v, n, b])['ret']
    def lin():
        f, r = ex(c, m + '::linproj', 3)
        c.same(m + '/linproj', r['ret'], lp(A[0], A[1], A[2]), f['name'], 'sum of levels in gradient units, width %d' % w, rule=RULE)
    c.guard(m + '/linproj', lin)
    def get():
        f, r = ex(c, m + '::get_scaled', 3); g = ex(c, m + '::get', 2)[1]
        c.same(m + '/get_scaled', r['ret'], lp(interp.i2f(g['ret']), F(1.0), A[2]), f['name'], 'level read back, width %d' % w, rule=RULE)
    c.guard(m + '/get_scaled', get)
    def put():
        f, r = ex(c, m + '::set_scaled', 4); g = ex(c, m + '::set', 3)[1]
        lv = c.spec('scaled_spec::sc_level', [top, A[2], A[3]])['ret']
        c.same(m + '/set_scaled/level', r['ret'], lv, f['name'], 'level of a gradient, width %d' % w, rule=RULE)
        a = states_of(r); b = {p: subst(v, {A[2]: lv}) for p, v in states_of(g).items()}
        for p in sorted(set(a) | set(b), key=lambda t: t.key):
            c.same(m + '/set_scaled/stored', a.get(p, D(p)), b.get(p, D(p)), f['name'], 'the level is what is stored, width %d' % w, rule=RULE)
    c.guard(m + '/set_scaled', put)
    if fam == 'l':
        def sums():
            f, r = ex(c, m + '::sum_scaled', 4); g = ex(c, m + '::sumu', 3)[1]
            n = mk('ctpop', A[2])
            c.same(m + '/sum_scaled/sum', proj(r['ret'], ('f', 0)), lp(interp.i2f(g['ret']), interp.i2f(n), A[3]), f['name'], 'masked sum of a block in gradient units, width %d' % w, rule=RULE)
            c.same(m + '/sum_scaled/count', proj(r['ret'], ('f', 1)), n, f['name'], 'number of values in a masked sum, width %d' % w, rule=RULE)
        c.guard(m + '/sum_scaled', sums)

def mbit(reg, a, i): return mk('B', mk('mbit', reg, a, i))
class Layout:
    """sum over all values, of the groups of a slice, of value bit * mask bits: weight of bit p of a group, and its masks"""
    def __init__(self, w, sl, masks, compr, n, lens):
        self.w, self.sl, self.masks, self.compr, self.n, self.lens = w, sl, masks, compr, n, lens
        self.sw = 8 // w if w else 8
    def weight(self, p): return 1 << p // 32 // self.sw if self.w else 1
    def where(self, p):       # bit p of a group -> (u32 block of the masks inside the group, bit)
        return (p // 32 % self.sw if self.w else p // 32), p % 32
    def regions(self): return [self.sl] + [x for x in self.masks] + ([self.compr[0], self.compr[1]] if self.compr else [])
    def want(self, b, e):
        out = []; per = self.sw if self.w else 8
        for p in range(256):
            s, y = self.where(p)
            blk = add(mul(e, I(per)), I(s))
            v = mbit(self.sl, add(mul(e, I(32)), I(p // 8)), p % 8)
            for m in self.masks: v = AND(v, mbit(m, add(mul(blk, I(4)), I(y // 8)), y % 8))
            if self.compr:
                x, fm = self.compr
                ix = b.atom(b.pad([mbit(x, add(mul(blk, I(4)), I(j // 8)), j % 8) for j in range(32)]))
                v = AND(v, mbit(fm, add(mul(ix, I(4)), I(y // 8)), y % 8))
            out.append(v)
        return out
    def value(self, mem, n):
        bit = lambda r, i: mem[r][i // 8] >> i % 8 & 1
        tot = 0; per = self.sw if self.w else 8
        for e in range(n):
            for p in range(256):
                s, y = self.where(p); blk = e * per + s
                if not bit(self.sl, 256 * e + p): continue
                if not all(bit(m, 32 * blk + y) for m in self.masks): continue
                if self.compr:
                    x, fm = self.compr
                    ix = int.from_bytes(mem[x][4 * blk:4 * blk + 4], 'little')
                    if not bit(fm, 32 * ix + y): continue
                tot += self.weight(p)
        return tot
    def storage(self, n, rng, dense=False):
        per = self.sw if self.w else 8
        full = dense
        def rnd(k, dense): return b'\xff' * (32 * k) if full else bytes(rng.getrandbits(8) | (rng.getrandbits(8) if dense else 0) for _ in range(32 * k))
        mem = {self.sl: rnd(n, 1)}
        k = n * per // 8
        for m in self.masks: mem[m] = rnd(k, 1)
        if self.compr:
            x, fm = self.compr
            nf = rng.randrange(1, 4)
            mem[fm] = rnd(nf, 1)
            mem[x] = b''.join(rng.randrange(8 * nf).to_bytes(4, 'little') for _ in range(8 * k))
        return mem

def whole(c, key, name, argc, L, what):
    f, r = ex(c, name, argc)
    b = VBits(regions=L.regions())
    q = mk('u', 'q')
    def split(t, q, k): return b.expand(subst(t, {L.n: add(mul(q, I(16)), I(k))}))
    try:
        K = Kernel(b, L.sl, lambda e: L.want(b, e), L.weight, L.n, split)
        K.prove(r['ret']); bad = None
    except (GiveUp, RecursionError) as e: bad = '; '.join([str(e)] + K.note[:1])
    # particular storage: refutes the sum, and refusals of storage that fits
    wrong = refuses = None; rng = random.Random(7)
    for n in ((8, 16, 24, 40, 136) if L.w in (2, 4, 8) else (1, 3, 16, 17, 35, 64)) + ((4104,) if bad else ()):      # the last: every bit set, sums of more than 16 bits a lane
        mem = L.storage(n, rng, n > 4000)
        P = Particular(mem, {}, 400000 if n < 4000 else 10 ** 7)
        try:
            for k, g, d, *_ in r['it'].events:
                cond = AND(g, d[0]) if k == 'panic' else AND(g, NOT(d[1])) if k == 'assert' else FALSE
                if cond is not FALSE and P.ev(cond, {}): refuses = 'storage of %d groups whose masks fit is refused' % n
        except (GiveUp, RecursionError): pass
        if not bad: continue
        try:
            got, want = P.ev(r['ret'], {}), L.value(mem, n) if n < 4000 else n * sum(L.weight(p) for p in range(256))
            if got != want: wrong = 'the sum over particular storage of %d groups is %d instead of %d (%s)' % (n, got, want, bad); break
        except (GiveUp, RecursionError) as e: bad += ' / ' + str(e)
    if wrong: c.ob(key, VIOLATED, f['name'], what + ': ' + wrong, SUM)
    elif bad: c.ob(key, UNDET, f['name'], what + ': ' + bad[:300], SUM)
    else: c.ob(key, PROVED, f['name'], what + ': loops ' + ', '.join('%d groups a round' % len(x[2]) for x in reversed(K.cover)), SUM)
    # storage that fits is not refused
    open_ = None
    if not refuses:
        for k, g, d, *_ in r['it'].events:
            cond = AND(g, d[0]) if k == 'panic' else AND(g, NOT(d[1])) if k in ('assert', 'shift') else FALSE
            cond = subst(cond, L.lens)
            if cond is not FALSE and not L.inside(cond): open_ = show(cond)[:120]
    if refuses: c.ob(key + '/accepted', VIOLATED, f['name'], what + ': ' + refuses, RULE)
    else: c.ob(key + '/accepted', UNDET if open_ else PROVED, f['name'], what + ': storage of matching sizes is not refused' + (' - ' + open_ if open_ else ''), RULE)

def kernels(c):
    sl = D(F0(F0(D(A[0])))); vec = lambda a: D(F0(D(a)))
    for w in (1, 2, 4, 8):
        for compr in (0, 1):
            m = length(vec(A[1])); n = length(sl); x = vec(A[1])
            L = Layout(w, sl, [vec(A[2])] if compr else [vec(A[1]), vec(A[2])], (x, vec(A[3])) if compr else None, n,
                       {length(vec(A[2])): mk('u', 'm'), length(vec(A[1])): mk('u', 'm'), n: mul(mk('u', 'm'), I(w))})
            L.inside = lambda cond, L=L: bool(L.compr) and all_inside(cond, *L.compr, L.lens)
            nm = 'l%d::sum_all%s' % (w, '_c' if compr else '')
            c.guard('l%d/sum_all%s' % (w, '_c' if compr else ''), lambda: whole(c, 'l%d/sum_all%s' % (w, '_c' if compr else ''), nm, 4 if compr else 3, L,
                    'sum over a slice of width %d under two masks%s' % (w, ', the second compressed' if compr else '')))
    v = vec(A[0]); n = mk('u', 'm')
    L = Layout(0, v, [vec(A[1])], None, models.imin(length(v), length(vec(A[1]))), {}); L.inside = lambda cond: False
    c.guard('count_and', lambda: whole(c, 'count_and', 'vec_count_and', 2, L, 'number of common bits'))
    L2 = Layout(0, v, [], (vec(A[1]), vec(A[2])), models.imin(length(v), length(vec(A[1]))), {}); L2.inside = lambda cond: all_inside(cond, *L2.compr, {})
    c.guard('count_and_c', lambda: whole(c, 'count_and_c', 'vec_count_and_c', 3, L2, 'number of common bits, compressed'))

    arr = lambda a: F0(D(a))
    for w in (0, 1, 2, 4, 8):
        for compr in (0, 1):
            nm = 'cs::and%s%s' % ('3_w%d' % w if w else '2', '_c' if compr else '')
            o = 1 if w else 0                   # arguments: [slice] [indexes] set1 set2
            if w: sl, m1, m2, x = arr(A[0]), arr(A[o + compr]), arr(A[o + compr + 1]), arr(A[1])
            else: sl, m1, m2, x = arr(A[compr]), None, arr(A[compr + 1]), arr(A[0])
            masks = ([m1] if m1 is not None else []) + ([] if compr else [m2])
            L = Layout(w, sl, masks, (x, m2) if compr else None, length(sl), {length(m): mk('u', 'm') for m in masks + ([x] if compr else [])})
            L.lens[length(sl)] = mul(mk('u', 'm'), I(w or 1)); L.inside = lambda cond: False
            what = ('sum of a slice of width %d over two sets' % w if w else 'number of common elements of two sets') + (', the first compressed' if compr else '')
            c.guard(nm, lambda: whole(c, nm, nm, 2 + o + compr, L, what))

def all_inside(cond, x, fm, lens):
    """the condition can only hold when some index is outside: a search through the indices that stops at the first of them"""
    ws = find_all(cond, lambda t: t.op == 'wfold')
    if not ws: return False
    for t in ws:
        # every word of the index storage is inside: the search ends at the end
        ix = find_all(t.args[0], lambda y: y.op == 'proj' and y.args[1][0] == 'i' and y.args[0].op == 'view' and y.args[0].args[3] is x)
        inside = subst(t.args[0], {y: sub(mul(length(fm), I(8)), add(mk('u', 'rest'), I(1))) for y in ix})
        n = mul(subst(length(x), lens), I(8))
        if NOT(lt(mk('k', t.args[4]), n)) is not NOT(inside): return False
        cond = subst(cond, {t: n})
    return cond is FALSE
def check(c):
    for w in (1, 2, 4, 8):
        affine(c, 'l', w); affine(c, 'm', w)
    kernels(c)
