"""Bit-level operations: every operation on single bits and on packed values is extracted (at concrete element types, through
the client crate) as a value graph over memory, its index is split into block and position (every position inside a block is
a case of its own, so the case analysis is complete), and the resulting words and the resulting memory are compared bit by
bit with the layout the library documents. No bits are sampled: each is a function of the bits of memory and arguments."""
from core import *
import core, signal, time
from props.c10 import SLICES
from bits import *
import bits
A = [mk('arg', i) for i in range(5)]
RULE = 'bit-exact comparison with the layout'
Q = mk('u', 'q'); DD = mk('u', 'd')
def D(t): return mk('deref', t)
def F0(t): return mk('proj', t, ('f', 0))

class Cell:
    """where the storage of an operation lives: a block array reached from its first argument"""
    def __init__(self, arg, path, byte=False):
        # path: fields under *arg before the final deref(s)
        self.arg, self.path, self.byte = arg, path, byte
        v = arg
        for s in path: v = D(v) if s == '*' else F0(v)
        self.region = v
    def final(self, st):
        """the contents afterwards, from the changed cells of the state"""
        for key, val in st.items():
            d = D(key)
            v, todo, path = val, [], []
            x = self.region
            while x is not d and x.op in ('deref', 'proj') :
                path.append(x); x = x.args[0]
            if x is d:
                for y in reversed(path):
                    if y.op == 'proj': v = proj(v, y.args[1])
                    else: return None
                return v
        return self.region

def mbit(cell, addr, i): return mk('B', mk('mbit', cell.region, addr, i))
def word_bits(cell, addr, n): return [mbit(cell, add(addr, I(i // 8)), i % 8) for i in range(n)]
def pad(xs): return xs + [FALSE] * (W - len(xs))

class One:
    """verdict of one obligation over all its cases"""
    def __init__(self, c, key, where, what):
        self.c, self.key, self.where, self.what = c, key, where, what
        self.start = time.time(); self.cases = 0; self.tried = 0; self.bad = None; self.unk = None
    def case(self, name, fn):
        self.cases += 1
        def go(q):
            old = signal.signal(signal.SIGALRM, core._alarm); signal.alarm(20)
            try: return fn(q)
            except (GiveUp, RecursionError) as e: return ('?', str(e))
            except core.Timeout: return ('?', 'time limit')
            finally: signal.alarm(0); signal.signal(signal.SIGALRM, old)
        if time.time() - self.start > 120:
            self.unk = self.unk or (name, 'time limit')
            return
        r = go(Q)
        if r is None: return
        if r[0] == '?' and self.tried < 400 and not self.bad:      # particular blocks can only refute
            for q in (0, 1, 2, 3, 7, 4099, (1 << 20) + 1, (1 << 33) + 5):
                self.tried += 1
                x = go(I(q))
                if x and x[0] == '!': r = ('!', x[1] + ' (block %d)' % q); break
        if r[0] == '!' and self.bad is None: self.bad = (name, r[1])
        elif r[0] == '?' and self.unk is None: self.unk = (name, r[1])
    def done(self):
        if self.bad: self.c.ob(self.key, VIOLATED, self.where, '%s: %s: %s' % (self.what, self.bad[0], self.bad[1]), RULE)
        elif self.unk: self.c.ob(self.key, UNDET, self.where, '%s: %s: %s' % (self.what, self.unk[0], self.unk[1]), RULE)
        elif not self.cases: self.c.ob(self.key, UNDET, self.where, 'no case', RULE)
        else: self.c.ob(self.key, PROVED, self.where, '%s: %d cases' % (self.what, self.cases), RULE)

def differ(b, what):
    return ('?' if b.free else '!', what)
def same_word(b, got, want, free=False):
    w = b.word(got); want = pad(list(want))
    for i, (x, y) in enumerate(zip(w, want)):
        if x is not y:
            return differ(b, 'bit %d of the result is %s instead of %s' % (i, show(x)[:90], show(y)[:90]))
def same_memory(b, cell, final, want):
    """want: {(address, bit): value}, everything else unchanged"""
    if final is None: return ('?', 'the storage is not addressed as expected')
    esz = 1 if cell.byte else 32
    wr, base = b.writes(final, esz)
    if base != {cell.region}: return ('?', 'the storage is rebuilt from ' + ', '.join(show(x)[:60] for x in base))
    for a in sorted(wr | {a for a, _ in want}, key=lambda t: t.key):
        got = b.byte(final, esz, a)
        for i in range(8):
            w = want.get((a, i), mbit(cell, a, i))
            if got[i] is not w:
                return differ(b, 'bit %d of byte %s is %s instead of %s' % (i, show(a), show(got[i])[:90], 'unchanged' if (a, i) not in want else show(w)[:60]))
def never_panics(b, events, m, region, kaps=()):
    """no panic when the addressed block is inside (length q + 1 + d)"""
    for ev in events:
        k, g, d = ev[0], ev[1], ev[2]
        if k == 'panic': bad = AND(g, d[0])
        elif k in ('assert', 'shift'): bad = AND(g, NOT(d[1]))
        elif k == 'loop':
            n = b.expand(subst(d[0], m))
            if n.op != 'i' or n.args[0] > 64: return ('?', 'a loop whose number of rounds is not known')
            for i in range(n.args[0] + 1):      # including the round that leaves the loop
                r = never_panics(b, d[3], {**m, d[2]: I(i)}, region) if isinstance(d[3], (list, tuple)) else None
                if r: return r
            continue
        else: continue
        bad = subst(bad, m)
        if bad is TRUE: return ('!', 'panics (%s) on an index inside' % (d[1] if k == 'panic' else d[0]))
        if bad is not FALSE:
            try: bad = b.boolean(bad)
            except GiveUp: return ('?', 'may panic: ' + show(bad)[:90])
            if bad is TRUE: return ('!', 'panics on an index inside')
            if bad is not FALSE: return ('?', 'may panic: ' + show(bad)[:90])

def run(c, name, n):
    f = c.fn(r'^client::%s$' % name, prog=c.C)
    return f, c.run(f, A[:n], prog=c.C, rawmem=True)

# ---------------------------------------------------------------- bits of a word
def words(c):
    for t, n in (('u8', 8), ('u16', 16), ('u32', 32), ('u64', 64)):
        def go(nm, argc, want):
            f, r = run(c, 'b_%s::%s' % (t, nm), argc)
            o = One(c, '%s/%s' % (t, nm), f['name'], '%s of %s' % (nm, t))
            for i in range(n):
                b = Bits({A[0]: n, A[2]: 1})
                w = b.leaf(A[0], n)[:n]
                o.case('position %d' % i, lambda Q: same_word(b, subst(r['ret'], {A[1]: I(i)}), want(w, i, b)) or never_panics(b, r['it'].events, {A[1]: I(i)}, None))
            o.done()
        setb = lambda w, i, v: w[:i] + [v] + w[i + 1:]
        c.guard('%s/bit_get' % t, lambda: go('bit_get', 2, lambda w, i, b: [w[i]]))
        c.guard('%s/bit_enable' % t, lambda: go('bit_enable', 2, lambda w, i, b: setb(w, i, TRUE)))
        c.guard('%s/bit_disable' % t, lambda: go('bit_disable', 2, lambda w, i, b: setb(w, i, FALSE)))
        c.guard('%s/bit_set' % t, lambda: go('bit_set', 3, lambda w, i, b: setb(w, i, b.leaf(A[2], 1)[0])))

# ---------------------------------------------------------------- bits of storage
def blocks(c):
    kinds = {'bb': (Cell(A[0], '*0', True), 'a block'), 'vec': (Cell(A[0], '*0*'), 'a bit vector'), 'set': (Cell(A[0], '*00'), 'a bitset')}
    for kd, (cell, what) in kinds.items():
        ops = [('get', 2, None), ('enable', 2, TRUE), ('disable', 2, FALSE), ('set', 3, 'arg')]
        if kd == 'vec': ops = [('get_bit', 2, None), ('enable_bit', 2, TRUE), ('set_bit', 3, 'arg')]
        for op, argc, val in ops:
            def go(op=op, argc=argc, val=val):
                f, r = run(c, '%s_%s' % (kd, op), argc)
                cl = cell
                o = One(c, '%s/%s' % (kd, op), f['name'], '%s on %s' % (op, what))
                for i in range(256):
                    b = Bits({A[2]: 1}, byte_regions=[cl.region] if cl.byte else [], regions=[] if cl.byte else [cl.region])
                    def one(Q):
                        base = I(0) if cl.byte else mul(Q, I(32))
                        m = {A[1]: I(i) if cl.byte else add(mul(Q, I(256)), I(i))}
                        if not cl.byte: m[mk('len', cl.region)] = add(add(Q, I(1)), DD)
                        a = add(base, I(i // 8))
                        if val is None: e = same_word(b, subst(r['ret'], m), [mbit(cl, a, i % 8)])
                        else:
                            v = b.leaf(A[2], 1)[0] if val == 'arg' else val
                            fin = cl.final(states_of(r))
                            e = same_memory(b, cl, None if fin is None else subst(fin, m), {(a, i % 8): v})
                        return e or never_panics(b, r['it'].events, m, cl.region)
                    o.case('bit %d' % i, one)
                o.done()
            c.guard('%s/%s' % (kd, op), go)


# ---------------------------------------------------------------- storage as integers
def access(c, key, name, cell, argc, width, per, read, what, region_len=True):
    """reads or writes of whole words"""
    f, r = run(c, name, argc)
    o = One(c, key, f['name'], what)
    for i in range(per):
        b = Bits({A[argc - 1]: width} if not read else {}, byte_regions=[cell.region] if cell.byte else [], regions=[] if cell.byte else [cell.region])
        def one(Q):
            base = I(0) if cell.byte else mul(Q, I(32))
            m = {A[1]: I(i) if cell.byte else add(mul(Q, I(per)), I(i))}
            if not cell.byte: m[mk('len', cell.region)] = add(add(Q, I(1)), DD)
            a = add(base, I(i * width // 8))
            if read: e = same_word(b, subst(r['ret'], m), word_bits(cell, a, width))
            else:
                fin = cell.final(states_of(r)); v = b.leaf(A[argc - 1], width)
                e = same_memory(b, cell, None if fin is None else subst(fin, m), {(add(a, I(j // 8)), j % 8): v[j] for j in range(width)})
            return e or never_panics(b, r['it'].events, m, cell.region)
        o.case('element %d of a block' % i, one)
    o.done()

def ints(c):
    for t, n in (('u8', 8), ('u16', 16), ('u32', 32), ('u64', 64), ('i32', 32)):
        per = 256 // n
        for nm, path, argc, rd in (('bcast_at', '*0', 2, 1), ('bcast_put', '*0', 3, 0), ('cast_at', '*0', 2, 1), ('cast_put', '*0', 3, 0), ('vcast_at', '*0*', 2, 1), ('vcast_put', '*0*', 3, 0),
            ('blocks_get', '*0', 2, 1), ('blocks_set', '*0', 3, 0), ('blocks_getu', '*0', 2, 1), ('blocks_setu', '*0', 3, 0),
            ('vec_get', '*0*', 2, 1), ('vec_set', '*0*', 3, 0), ('vec_getu', '*0*', 2, 1), ('vec_setu', '*0*', 3, 0)):
            cell = Cell(A[0], path, nm.startswith('bcast'))
            c.guard('%s/%s' % (t, nm), lambda: access(c, '%s/%s' % (t, nm), 'i_%s::%s' % (t, nm), cell, argc, n, per, rd, 'storage as %s' % t))
        for nm, path in (('bcast_len', ''), ('cast_len', '*0'), ('vcast_len', '*0*'), ('blocks_len', '*0'), ('vec_len', '*0*')):
            def go():
                f, r = run(c, 'i_%s::%s' % (t, nm), 1)
                want = I(per) if not path else mul(length(Cell(A[0], path).region), I(per))
                c.same('%s/%s' % (t, nm), r['ret'], want, f['name'], 'number of %s in storage' % t, rule=RULE)
            c.guard('%s/%s' % (t, nm), go)

# ---------------------------------------------------------------- packed values
def lane(w, i, k):
    """address of the u32 that holds bit k of the values of block i of a group: 256 bits hold 8/w blocks of 32 values"""
    return 4 * (k * (8 // w) + i)
def packed(c):
    for w in (1, 2, 4, 8):
        sw = 8 // w
        for fam, path in (('l', '*00*'), ('m', '*0*0')):
            cell = Cell(A[0], path); mod = '%s%d' % (fam, w)
            for nm, want in (('width', w), ('superblock_width', sw), ('nunique', 1 << w)):
                def go():
                    f, r = run(c, '%s::%s' % (mod, nm), 0)
                    c.same('%s/%s' % (mod, nm), r['ret'], I(want), f['name'], 'shape of the layout of width %d' % w, rule=RULE)
                c.guard('%s/%s' % (mod, nm), go)
            def value(nm, argc):
                f, r = run(c, '%s::%s' % (mod, nm), argc)
                o = One(c, '%s/%s' % (mod, nm), f['name'], '%s of values of width %d' % (nm, w))
                for i in range(32 * sw):
                    b = Bits({A[2]: 8}, regions=[cell.region])
                    def one(Q):
                        m = {A[1]: add(mul(Q, I(32 * sw)), I(i)), mk('len', cell.region): add(add(Q, I(1)), DD)}
                        at = [(add(mul(Q, I(32)), I(lane(w, i // 32, k) + i % 32 // 8)), i % 8) for k in range(w)]
                        if nm == 'get': e = same_word(b, subst(r['ret'], m), [mbit(cell, *x) for x in at])
                        else:
                            fin = cell.final(states_of(r)); v = b.leaf(A[2], 8)
                            e = same_memory(b, cell, None if fin is None else subst(fin, m), {x: v[k] for k, x in enumerate(at)})
                        return e or never_panics(b, r['it'].events, m, cell.region)
                    o.case('value %d of a group' % i, one)
                o.done()
            c.guard(mod + '/get', lambda: value('get', 2))
            c.guard(mod + '/set', lambda: value('set', 3))
            if fam == 'l':
                def copy():
                    f, r = run(c, mod + '::copy', 4)
                    src = Cell(A[1], path); P = mk('u', 'p')
                    o = One(c, mod + '/copy', f['name'], 'copy of a block of values of width %d' % w)
                    for i in range(sw):
                        for j in range(sw):
                            b = Bits({}, regions=[cell.region, src.region])
                            def one(Q):
                                m = {A[2]: add(mul(P, I(sw)), I(i)), A[3]: add(mul(Q, I(sw)), I(j)), mk('len', cell.region): add(add(Q, I(1)), DD), mk('len', src.region): add(add(P, I(1)), DD)}
                                fin = cell.final(states_of(r)); want = {}
                                for k in range(w):
                                    for y in range(32):
                                        want[(add(mul(Q, I(32)), I(lane(w, j, k) + y // 8)), y % 8)] = mbit(src, add(mul(P, I(32)), I(lane(w, i, k) + y // 8)), y % 8)
                                return same_memory(b, cell, None if fin is None else subst(fin, m), want) or never_panics(b, r['it'].events, m, cell.region)
                            o.case('block %d to %d' % (i, j), one)
                    o.done()
                c.guard(mod + '/copy', copy)
            else:
                def block(nm, rd):
                    f, r = run(c, '%s::%s' % (mod, nm), 3 if rd else 4)
                    o = One(c, '%s/%s' % (mod, nm), f['name'], '%s of width %d' % (nm, w))
                    for i in range(sw):
                        for k in range(w):
                            b = Bits({A[3]: 32}, regions=[cell.region])
                            def one(Q):
                                m = {A[1]: add(mul(Q, I(sw)), I(i)), A[2]: I(k), mk('len', cell.region): add(add(Q, I(1)), DD)}
                                a = add(mul(Q, I(32)), I(lane(w, i, k)))
                                if rd: e = same_word(b, subst(r['ret'], m), word_bits(cell, a, 32))
                                else:
                                    fin = cell.final(states_of(r)); v = b.leaf(A[3], 32)
                                    e = same_memory(b, cell, None if fin is None else subst(fin, m), {(add(a, I(y // 8)), y % 8): v[y] for y in range(32)})
                                return e or never_panics(b, r['it'].events, m, cell.region)
                            o.case('block %d lane %d' % (i, k), one)
                    o.done()
                for nm, rd in (('get_block', 1), ('get_blocku', 1), ('set_block', 0), ('set_blocku', 0)): c.guard('%s/%s' % (mod, nm), lambda: block(nm, rd))


# ---------------------------------------------------------------- constructors
def same_bytes(b, arr, esz, at):
    """at: {address: 8 bits}"""
    for a, want in at.items():
        got = b.byte(arr, esz, a)
        for i in range(8):
            if got[i] is not want[i]: return differ(b, 'bit %d of byte %s is %s instead of %s' % (i, show(a), show(got[i])[:80], show(want[i])[:60]))
def same_num(b, got, want, what):
    got = b.expand(got)
    if got is want: return None
    d = sub(got, want)
    return ('!' if d.op == 'i' else '?', '%s is %s instead of %s' % (what, show(got)[:80], show(want)[:60]))
def const_byte(v): return [B(bool(v >> i & 1)) for i in range(8)]
def ctors(c):
    def F0x(v): return proj(v, ('f', 0))
    def fd(v, n):
        for _ in range(n): v = F0x(v)
        return v
    for nm, v in (('bb_zeros', 0), ('bb_ones', 255)):
        def go():
            f, r = run(c, nm, 0)
            o = One(c, nm, f['name'], 'a constant block')
            b = Bits()
            o.case('block', lambda Q: same_bytes(b, F0x(r['ret']), 1, {I(j): const_byte(v) for j in range(32)}))
            o.done()
        c.guard(nm, go)
    def four():
        f, r = run(c, 'bb_4', 4)
        o = One(c, 'bb_4', f['name'], 'a block of four words')
        b = Bits({A[i]: 64 for i in range(4)})
        o.case('block', lambda Q: same_bytes(b, F0x(r['ret']), 1, {I(8 * i + j): b.leaf(A[i], 64)[8 * j:8 * j + 8] for i in range(4) for j in range(8)}))
        o.done()
    c.guard('bb_4', four)
    for nm, v, depth in (('bbs_zero_blocks', 0, 1), ('bbs_one_blocks', 255, 1)):
        def go():
            f, r = run(c, nm, 1)
            o = One(c, nm, f['name'], 'constant blocks'); b = Bits()
            def one(Q):
                m = {A[0]: add(add(Q, I(1)), DD)}; arr = subst(fd(r['ret'], depth), m)
                return same_num(b, length(arr), m[A[0]], 'the number of blocks') or same_bytes(b, arr, 32, {add(mul(Q, I(32)), I(j)): const_byte(v) for j in range(32)}) or never_panics(b, r['it'].events, m, None)
            o.case('any block', one)
            o.done()
        c.guard(nm, go)
    for nm, one_, depth in (('bbs_zero_bits', 0, 1), ('bbs_one_bits', 1, 1), ('set_zeros', 0, 2), ('set_ones', 1, 2)):
        def go():
            f, r = run(c, nm, 1)
            o = One(c, nm, f['name'], 'storage for a number of bits')
            for n in range(1, 257):
                for last in (1, 0):
                    b = Bits()
                    def one(Q):
                        for Q in (I(0), add(Q, I(1))) if Q.op == 'u' else (Q,):     # the first block, or a later one
                            m = {A[0]: add(mul(Q if last else add(add(Q, I(1)), DD), I(256)), I(n))}
                            arr = b.expand(subst(fd(r['ret'], depth), m))
                            at = {add(mul(Q, I(32)), I(j)): [B(bool(one_) and (not last or 8 * j + i < n)) for i in range(8)] for j in range(32)}
                            e = same_num(b, length(arr), add(Q if last else add(add(Q, I(1)), DD), I(1)), 'the number of blocks') or same_bytes(b, arr, 32, at) or never_panics(b, r['it'].events, m, None)
                            if e: return e
                    o.case('%d bits in the last block, %s' % (n, 'the last block' if last else 'a block before it'), one)
            o.done()
        c.guard(nm, go)
    # the same out of the block store: what alloc_slice(n, block) hands out holds that block n times (C10)
    def stored():
        f = c.fn(r'^client::bits::one_bits$', prog=c.C)
        r = c.run(f, A[:2], opaque=SLICES, prog=c.C, rawmem=True)
        o = One(c, 'bits/one_bits', f['name'], 'stored bits that are all on')
        call = {n: [e[2] for e in r['it'].events if e[0] == 'call' and e[2][1].endswith(n)] for n in ('::alloc_slice', '::get_slice_mut')}
        if [len(x) for x in call.values()] != [1, 1]: o.case('the calls', lambda Q: ('?', 'storage is not taken as one allocation and one view'))
        else:
            al, vw = call['::alloc_slice'][0], call['::get_slice_mut'][0]
            got = mk('ret', al[0]) if r['ret'].op == 'ret' else r['ret']
            view = mk('ret', vw[0]); region = D(view)
            fin = next((v for k, v in states_of(r).items() if k is view), region)
            if r['ret'] is not got or vw[2][1] is not got: o.case('the calls', lambda Q: ('?', 'what is returned is not the allocated range'))
            else:
                for n in range(1, 257):
                    for last in (1, 0):
                        b = Bits()
                        def one(Q):
                            for Q in (I(0), add(Q, I(1))) if Q.op == 'u' else (Q,):
                                N = Q if last else add(add(Q, I(1)), DD)
                                m = {A[1]: add(mul(N, I(256)), I(n))}
                                cnt = b.expand(subst(al[2][1], m)); cnt = cnt.args[1] if cnt.op == 'trunc' and cnt.args[0] == 32 else cnt
                                e = same_num(b, cnt, add(N, I(1)), 'the number of blocks')
                                if e: return e
                                m2 = {region: mk('tab', add(N, I(1)), al[2][2], al[2][2].ht + 1)}
                                arr = b.expand(subst(subst(fin, m2), m))
                                at = {add(mul(Q, I(32)), I(j)): [B(not last or 8 * j + i < n) for i in range(8)] for j in range(32)}
                                e = same_bytes(b, arr, 32, at) or never_panics(b, [(ev[0], subst(ev[1], m2)) + (tuple(subst(x, m2) if isinstance(x, Term) else x for x in ev[2]),) if ev[0] != 'loop' else
                                    (ev[0], subst(ev[1], m2), (subst(ev[2][0], m2), ev[2][1], ev[2][2], ev[2][3])) for ev in r['it'].events], m, None)
                                if e: return e
                        o.case('%d bits in the last block, %s' % (n, 'the last block' if last else 'a block before it'), one)
        o.done()
    c.guard('bits/one_bits', stored)
    def required():
        f, r = run(c, 'bbs_required', 1)
        o = One(c, 'bbs_required', f['name'], 'number of blocks for a number of bits'); b = Bits()
        o.case('0 bits', lambda Q: same_num(b, subst(r['ret'], {A[0]: I(0)}), I(0), 'the number of blocks'))
        for n in range(1, 257): o.case('256 q + %d bits' % n, lambda Q: same_num(b, subst(r['ret'], {A[0]: add(mul(Q, I(256)), I(n))}), add(Q, I(1)), 'the number of blocks') or never_panics(b, r['it'].events, {A[0]: add(mul(Q, I(256)), I(n))}, None))
        o.done()
    c.guard('bbs_required', required)
    def count():
        f, r = run(c, 'bb_count', 1)
        cell = Cell(A[0], '*0', True); b = Bits(byte_regions=[cell.region])
        o = One(c, 'bb_count', f['name'], 'number of set bits of a block')
        want = I(0)
        for i in range(4): want = add(want, mk('ctpopb', tuple(pad(word_bits(cell, I(8 * i), 64)))))
        o.case('block', lambda Q: same_count(b, r['ret'], want))
        o.done()
    c.guard('bb_count', count)
    def is_zero():
        f, r = run(c, 'bb_is_zero', 1)
        cell = Cell(A[0], '*0', True); b = Bits(byte_regions=[cell.region])
        o = One(c, 'bb_is_zero', f['name'], 'whether a block has no set bit')
        o.case('block', lambda Q: same_word(b, r['ret'], [NOT(OR(*word_bits(cell, I(0), 256)))]))
        o.done()
    c.guard('bb_is_zero', is_zero)
    # a block from a sequence of any length
    for t, n in (('bool', 1), ('u8', 8), ('u16', 16), ('u32', 32), ('u64', 64)):
        per = 256 // n; nm = 'block_from_bools' if t == 'bool' else 'i_%s::block_from_slice' % t
        def go():
            f, r = run(c, nm, 1)
            src = D(A[0]); o = One(c, 'from/' + t, f['name'], 'a block from a sequence of %s' % t)
            for ln in list(range(per + 1)) + [None]:
                el = {mk('proj', src, ('i', I(j))): n for j in range(per)}
                b = Bits(el)
                L = add(I(per + 1), DD) if ln is None else I(ln); k = per if ln is None else ln
                ret = r['ret'] if t != 'bool' else proj(r['ret'], ('f', 1))
                bitsof = [b.leaf(mk('proj', src, ('i', I(i))), n)[:n] for i in range(k)]
                flat = [x for w in bitsof for x in w] + [FALSE] * (256 - n * k)
                def one(Q):
                    m = {mk('len', src): L}
                    e = same_bytes(b, subst(F0x(ret), m), 1, {I(j): flat[8 * j:8 * j + 8] for j in range(32)})
                    if t != 'bool': e = e or never_panics(b, r['it'].events, m, None)
                    if e or t != 'bool': return e
                    return same_word(b, subst(proj(r['ret'], ('f', 0)), m), [B(k < per)])
                o.case('%s elements' % ('more than %d' % per if ln is None else ln), one)
            o.done()
        c.guard('from/' + t, go)
        if t != 'bool':
            def single():
                f, r = run(c, 'i_%s::block_from' % t, 1)
                o = One(c, 'single/' + t, f['name'], 'a block from one %s' % t); b = Bits({A[0]: n})
                fl = b.leaf(A[0], n)[:n] + [FALSE] * (256 - n)
                o.case('block', lambda Q: same_bytes(b, F0x(r['ret']), 1, {I(j): fl[8 * j:8 * j + 8] for j in range(32)}))
                o.done()
            c.guard('single/' + t, single)

def same_count(b, got, want):
    got = b.number(got)
    return None if got is want else ('!', 'the sum is %s instead of %s' % (show_count(got), show_count(want)))
def show_count(t):
    c0, m = lin_parts(t)
    return ' + '.join('%d * count(%s ..)' % (k, next((show(x)[:60] for x in w.args[0] if x is not FALSE), 0) if w.op == 'ctpopb' else show(w)[:40]) for w, k in m.items())[:160]
# ---------------------------------------------------------------- weighed counts
def sums(c):
    for w in (1, 2, 4, 8):
        sw = 8 // w; cell = Cell(A[0], '*00*')
        for nm in ('sum', 'sumu'):
            def go():
                f, r = run(c, 'l%d::%s' % (w, nm), 3)
                o = One(c, 'l%d/%s' % (w, nm), f['name'], 'sum of the selected values of width %d' % w)
                for i in range(sw):
                    b = Bits({A[2]: 32}, regions=[cell.region])
                    def one(Q):
                        m = {A[1]: add(mul(Q, I(sw)), I(i)), mk('len', cell.region): add(add(Q, I(1)), DD)}
                        want = I(0); mask = b.leaf(A[2], 32)
                        for k in range(w):
                            word = pad([AND(x, y) for x, y in zip(word_bits(cell, add(mul(Q, I(32)), I(lane(w, i, k))), 32), mask)])
                            want = add(want, mul(mk('ctpopb', tuple(word)), I(1 << k)))
                        return same_count(b, subst(r['ret'], m), want) or never_panics(b, r['it'].events, m, cell.region)
                    o.case('block %d' % i, one)
                o.done()
            c.guard('l%d/%s' % (w, nm), go)

# ---------------------------------------------------------------- positions of the set bits
def may_panic(r):
    """the condition under which the operation refuses its arguments before looking at any word"""
    bad = FALSE
    for k, g, d, *_ in r['it'].events:
        if k == 'panic' and not find_all(AND(g, d[0]), lambda t: t.op in ('view', 'fold', 'wfold')): bad = OR(bad, AND(g, d[0]))
    return bad
def _words(ws): return {4: ws, 8: [ws[i] | ws[i + 1] << 32 for i in range(0, len(ws), 2)]}
PARTICULAR = [[_words(x) for x in v] for v in (     # vectors that can only refute: the words of each argument
    ([0] * 8, [0xffffffff] * 8, [0] * 8),
    ([5, 0, 0x80000001, 0, 0x10, 0, 0, 0x80000000], [0xffff0001, 0, 0x80000000, 1, 2, 3, 4, 0x80000001], [7, 0, 2, 1, 3, 4, 5, 2]),
    ([0, 0xc0000000, 3, 0, 0, 0, 0x80000000, 0], [2, 4, 0x40000000, 0x80000000, 1, 0, 0, 1], [2, 3, 1, 0, 0, 0, 3, 0]),
    ([0] * 7 + [0x80000000] + [1] + [0] * 7, [0xffffffff] * 16, [9] * 8 + [1] * 8))]
def on_particular(c, got, want, n):
    """what both values are on particular vectors, where they differ"""
    for v in PARTICULAR:
        m = {}
        for i in range(n):
            reg = D(F0(D(A[i]))); m[mk('len', reg)] = I(len(v[i][4]) // 8)
            for ty, sz in (('u64', 8), ('u32', 4)): m[mk('view', ty, 32, sz, reg)] = mk('arr', tuple(I(x) for x in v[i][sz]))
        out = []
        for t in (got, want):
            old = signal.signal(signal.SIGALRM, core._alarm); signal.alarm(10)
            try: x = Bits().expand(subst(t, m))
            except (GiveUp, RecursionError, core.Timeout): return None
            finally: signal.alarm(0); signal.signal(signal.SIGALRM, old)
            xs = []
            while x.op == 'push': xs.append(x.args[1]); x = x.args[0]
            if x.op != 'arr' or any(y.op != 'i' for y in xs): return None
            out.append([y.args[0] for y in x.args[0] if y.op == 'i'] + [y.args[0] for y in xs[::-1]])
        if out[0] != out[1]: return 'for words %s the positions are %s instead of %s' % (' / '.join(str(v[i][4]) for i in range(n)), out[0][:12], out[1][:12])
def positions(c):
    for key, n, what in (('it_all', 1, 'the set bits'), ('it_c', 2, 'the set bits of listed words'), ('it_and', 2, 'the bits set in both'), ('it_and_c', 3, 'the bits set in both, of listed words'),
        ('it_not', 2, 'the bits set in one and not the other'), ('it_not_c', 3, 'the bits set in one and not the other, of listed words'),
        ('each_all', 1, 'the set bits'), ('each_c', 2, 'the set bits of listed words'), ('each_and', 2, 'the bits set in both'), ('each_and_c', 3, 'the bits set in both, of listed words')):
        def go():
            f = c.fn(r'^client::%s$' % key, prog=c.C)
            r = c.run(f, A[:n], prog=c.C, rawmem=True)
            best = None
            for name in ([key + '::found', key + '::carried', key + '::nested'] if key.startswith('each') else [key]):
                s = c.spec('bits_spec::' + name, A[:n], like=c.C, rawmem=True)
                mark = len(c.obs)
                c.same('positions/' + key, r['ret'], s['ret'], f['name'], what, rule='value-graph equality with reference')
                a, b = may_panic(r), may_panic(s)
                c.same('positions/' + key + '/refused', a, b, f['name'], what + ': which vectors are refused', rule='value-graph equality with reference')
                mine = c.obs[mark:]; del c.obs[mark:]
                rank = max({PROVED: 0, UNDET: 1, VIOLATED: 2}[o['status']] for o in mine)
                if best is None or rank < best[0]: best = (rank, mine)
                if not rank: break
            if best[0] == 1:
                d = on_particular(c, r['ret'], s['ret'], n)
                if d: best = (2, [dict(o, status=VIOLATED, detail='%s: %s' % (what, d)) if o['status'] == UNDET else o for o in best[1]])
            c.obs.extend(best[1])
        c.guard('positions/' + key, go)

def check(c):
    words(c)
    blocks(c)
    ints(c)
    packed(c)
    ctors(c)
    sums(c)
    positions(c)
