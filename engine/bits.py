"""Words as bits.

A machine word is decided exactly when it is written as the list of its bits, least significant first, each a
reduced decision diagram over the bits of memory and of the arguments: two words are the same function of them
iff the lists are the same object.  Memory is read byte by byte, through whatever typed views the code used, so
the representation of a store does not depend on how the code addressed it.  Loops with a constant number of
rounds are unrolled; whatever has no such form raises `GiveUp` (undetermined, never a verdict).
"""
from terms import *
import terms

W = 136                 # internal width: wider than any machine word, so that sums of words do not wrap

class GiveUp(Exception): pass

SIZE = {'u8': 1, 'i8': 1, 'bool': 1, 'u16': 2, 'i16': 2, 'u32': 4, 'i32': 4, 'f32': 4, 'u64': 8, 'i64': 8, 'usize': 8, 'f64': 8, 'u128': 16, 'i128': 16}

def const_bits(v): return [B(bool(v >> i & 1)) for i in range(W)]
def bxor1(a, b): return ite(a, NOT(b), b)

class Bits:
    def __init__(self, widths=None, byte_regions=(), regions=()):
        self.widths = widths or {}          # leaf term -> number of bits
        self.byte_regions = set(byte_regions)
        self.regions = set(regions)         # arrays of 32-byte blocks
        self.memo = {}; self.bmemo = {}; self.emem = {}; self.fin = {}
        self.free = 0                       # opaque leaves met (the answer is then exact only up to them)
        self.budget = 400000

    # ------------------------------------------------------------ loops with a known number of rounds
    def expand(self, t):
        r = self.emem.get(t)
        if r is None:
            self.emem[t] = r = self._expand(t)
        return r

    def _expand(self, t):
        if t.op in ('fold', 'wfold'):
            return self.run_loop(t)
        if not has_loop(t): return t
        ch = False
        def go(a):
            nonlocal ch
            if isinstance(a, Term):
                b = self.expand(a)
                if b is not a: ch = True
                return b
            if isinstance(a, tuple): return tuple(go(x) for x in a)
            return a
        if t.op == 'tab': return t
        if t.op in ('ite', 'sw'):
            c = self.expand(t.args[0])
            if c is TRUE: return self.expand(t.args[1]) if t.op == 'ite' else rebuild(t.op, tuple(go(a) for a in t.args))
            if c is FALSE and t.op == 'ite': return self.expand(t.args[2])
        args = tuple(go(a) for a in t.args)
        return rebuild(t.op, args) if ch else t

    def run_loop(self, t):
        n, inits, steps, j, h = t.args
        key = (t.op, n, inits, steps, h)
        if key not in self.fin:
            if t.op == 'fold':
                cnt = self.expand(n)
                if cnt.op != 'i' or cnt.args[0] > 600: raise GiveUp('a loop whose number of rounds is not known')
                rounds = cnt.args[0]
            else: rounds = 600
            st = [self.expand(x) for x in inits]
            k = 0; act = TRUE; steps_done = I(0)
            while True:
                m = {mk('k', h): I(k)}
                for i, x in enumerate(st): m[mk('bv', h, i)] = x; m[mk('bu', h, i)] = x
                if t.op == 'wfold':
                    c = self.expand(subst(n, m))
                    if c is not TRUE and c is not FALSE: c = self.boolean(c)
                    act = AND(act, c)
                    if act is FALSE: break
                    if act is not TRUE and k > 64: raise GiveUp('a loop whose number of rounds depends on the data')
                if k >= rounds:
                    if t.op == 'fold': break
                    raise GiveUp('a loop of more than 600 rounds')
                new = [self.expand(subst(s, m)) for s in steps]
                st = [self.norm(x) for x in (new if act is TRUE else [ite(act, x, y) for x, y in zip(new, st)])]
                k += 1
                steps_done = ite(act, I(k), steps_done)
            self.fin[key] = (steps_done, st)
        k, st = self.fin[key]
        return k if j == -1 else st[j]

    def norm(self, t):
        """a choice between arrays of bytes becomes an array of choices"""
        if not is_node(t): return t
        todo, n, seen = [t], None, set()
        while todo:
            x = todo.pop()
            if x in seen: continue
            seen.add(x)
            if x.op == 'ite': todo += [x.args[1], x.args[2]]
            elif x.op == 'arr' and len(x.args[0]) <= 64 and (n is None or n == len(x.args[0])): n = len(x.args[0])
            else: return t
        def mux(x, j):
            if x.op == 'arr': return self.word(x.args[0][j])
            c = self.boolean(x.args[0])
            p, q = mux(x.args[1], j), mux(x.args[2], j)
            return p if p == q else [ite(c, u, v) for u, v in zip(p, q)]
        try: return mk('arr', tuple(self.wbits(mux(t, j)) for j in range(n)))
        except GiveUp: return t
    def wbits(self, w):
        if all(b.op == 'b' for b in w): return I(sum(int(b.args[0]) << i for i, b in enumerate(w)))
        n = W
        while n and w[n - 1] is FALSE: n -= 1
        return mk('wbits', tuple(w[:n]))

    # ------------------------------------------------------------ words
    def word(self, t):
        r = self.memo.get(t)
        if r is None:
            self.budget -= 1
            if self.budget < 0: raise GiveUp('too large')
            r = self._word(t)
            assert len(r) == W
            self.memo[t] = r
        return r

    def leaf(self, t, n):
        return [mk('B', mk('bitof', t, i)) for i in range(n)] + [FALSE] * (W - n)

    def _word(self, t):
        op = t.op; a = t.args
        if op == 'i': return const_bits(a[0] & ((1 << W) - 1))
        if op == 'b': return const_bits(int(a[0]))
        if t in self.widths: return self.leaf(t, self.widths[t])
        if op == 'wbits': return list(a[0]) + [FALSE] * (W - len(a[0]))
        if op in BOOLOPS: return [self.boolean(t)] + [FALSE] * (W - 1)
        if op in ('fold', 'wfold'): return self.word(self.run_loop(t))
        if op == 'lin':
            acc = None; const = a[0]
            for m, c in a[1]:
                w = self.word(m); neg = c < 0; c = abs(c); i = 0
                while c:
                    if c & 1:
                        x = [FALSE] * i + w[:W - i]
                        if neg: x = [NOT(b) for b in x]; const += 1
                        acc = x if acc is None else self.add(acc, x)
                    c >>= 1; i += 1
            if const & ((1 << W) - 1): acc = self.add(acc, const_bits(const & ((1 << W) - 1)))
            return acc
        if op in ('and', 'or', 'xor'):
            f = {'and': AND, 'or': OR, 'xor': bxor1}[op]
            acc = self.word(a[0][0])
            for x in a[0][1:]: acc = [f(p, q) for p, q in zip(acc, self.word(x))]
            return acc
        if op == 'not':
            x = self.word(a[0])
            if len(a) < 2: raise GiveUp('complement of unknown width')
            return [NOT(b) for b in x[:a[1]]] + x[a[1]:]
        if op in ('shl', 'shr'):
            x = self.word(a[0]); s = self.word(a[1])
            for i in range(8):
                n = 1 << i
                if s[i] is FALSE: continue
                if op == 'shl': y = ([FALSE] * n + x)[:W]
                else: y = (x[n:] + [FALSE] * n)[:W]
                y = (y + [FALSE] * W)[:W]
                x = [ite(s[i], p, q) for p, q in zip(y, x)]
            if any(b is not FALSE for b in s[8:]): raise GiveUp('shift by a wide amount')
            if op == 'shl' and len(a) > 2: x = x[:a[2]] + [FALSE] * (W - a[2])
            return x
        if op in ('div', 'rem') and a[1].op == 'i' and a[1].args[0] > 0 and (a[1].args[0] & (a[1].args[0] - 1)) == 0:
            n = a[1].args[0].bit_length() - 1; x = self.word(a[0])
            return x[n:] + [FALSE] * n if op == 'div' else x[:n] + [FALSE] * (W - n)
        if op == 'scast':
            x = self.word(a[1])
            return x[:a[0]] + [x[a[0] - 1]] * (W - a[0])
        if op == 'sext':
            x = self.word(a[2])
            return (x[:a[0]] + [x[a[0] - 1]] * (a[1] - a[0]) + [FALSE] * W)[:W]
        if op in ('trunc', 'ucast'):
            x = self.word(a[1])
            return x[:a[0]] + [FALSE] * (W - a[0])
        if op == 'ite':
            c = self.boolean(a[0])
            if c is TRUE: return self.word(a[1])
            if c is FALSE: return self.word(a[2])
            return [ite(c, p, q) for p, q in zip(self.word(a[1]), self.word(a[2]))]
        if op == 'sw':
            v = self.word(a[0]); acc = None
            if domain(a[0]) is None: acc = self.word(a[2])
            for k, x in reversed(a[1]):
                w = self.word(x)
                if acc is None: acc = w; continue
                c = self.equals(v, const_bits(k))
                acc = [ite(c, p, q) for p, q in zip(w, acc)]
            return acc
        if op in ('imin', 'imax'):
            p, q = self.word(a[0]), self.word(a[1])
            c = self.less(p, q)
            if op == 'imax': c = NOT(c)
            return [ite(c, x, y) for x, y in zip(p, q)]
        if op in ('ctpop', 'cttz', 'ctlz'):
            x = self.word(a[0])
            if all(b.op == 'b' for b in x): 
                v = sum(int(b.args[0]) << i for i, b in enumerate(x))
                if op == 'ctpop': return const_bits(bin(v).count('1'))
                if op == 'cttz' and v: return const_bits((v & -v).bit_length() - 1)
            self.free += 1
            return self.leaf(mk(op + 'b', tuple(x)), 7)
        if op == 'f2i':
            self.free += 1
            return self.leaf(t, 8 * SIZE[a[0]])
        if op == 'proj' and a[1][0] == 'i':
            x = self.read(a[0], a[1][1])
            if x is not None: return x
        e = self.expand(t)
        if e is not t: return self.word(e)
        raise GiveUp('no bits for ' + show(t)[:120])

    def add(self, x, y):
        out = []; c = FALSE
        for p, q in zip(x, y):
            s = bxor1(p, q)
            out.append(bxor1(s, c))
            c = ite(s, c, p)
        return out
    def equals(self, x, y):
        r = TRUE
        for p, q in zip(x, y): r = AND(r, NOT(bxor1(p, q)))
        return r
    def less(self, x, y):
        r = FALSE
        for p, q in zip(x, y): r = ite(bxor1(p, q), q, r)
        return r

    def boolean(self, t):
        r = self.bmemo.get(t)
        if r is None: self.bmemo[t] = r = self._boolean(t)
        return r
    def _boolean(self, t):
        a = t.args
        if t.op == 'b': return t
        if t.op == 'i': return B(a[0] != 0)
        if t.op == 'ite': return ite(self.boolean(a[0]), self.boolean(a[1]), self.boolean(a[2]))
        if t.op == 'sw': return self.word(t)[0]
        if t.op in ('lt0', 'eq0'):
            c, m = lin_parts(a[0])
            if t.op == 'lt0' and any(x.op == 'scast' for x in m): raise GiveUp('order of signed numbers')
            if t.op == 'eq0':       # split by sign: both sides are then words
                pos = mk_lin(max(c, 0), {x: k for x, k in m.items() if k > 0}); neg = mk_lin(max(-c, 0), {x: -k for x, k in m.items() if k < 0})
                return self.equals(self.word(pos), self.word(neg))
            pos = mk_lin(max(c, 0), {x: k for x, k in m.items() if k > 0}); neg = mk_lin(max(-c, 0), {x: -k for x, k in m.items() if k < 0})
            return self.less(self.word(pos), self.word(neg))
        if t.op == 'B':
            x = a[0]
            if x.op in ('mbit', 'bitof'): return t
            if x in self.widths: return self.leaf(x, 1)[0] if self.widths[x] == 1 else OR(*self.word(x))
            e = self.expand(x)
            if e is not x: return self.boolean(boolify(e))
            if x.op == 'proj' and x.args[1][0] == 'i':
                self.free += 1
                return mk('B', x)
            raise GiveUp('no truth value for ' + show(t)[:100])
        if t.op in ('fold', 'wfold'): return self.boolean(boolify(self.run_loop(t)))
        e = self.expand(t)
        if e is not t: return self.boolean(e)
        raise GiveUp('no truth value for ' + show(t)[:100])

    # ------------------------------------------------------------ memory
    def read(self, x, i):
        """the element at index i of the array x, as a word"""
        i = self.expand(i)
        if x.op == 'view':
            ty, sx, sy, base = x.args
            sy = SIZE.get(ty, sy)
            out = []
            for j in range(sy): out += self.byte(base, sx, add(mul(i, I(sy)), I(j)))
            return out + [FALSE] * (W - len(out))
        if x.op == 'unview':
            y = x.args[2]
            while y.op in ('store', 'unview'): y = y.args[0] if y.op == 'store' else y.args[2]
            if y.op == 'view' and y.args[1] in (1, 2, 4, 8):
                n = y.args[1]; out = []
                for j in range(n): out += self.byte(x, n, add(mul(i, I(n)), I(j)))
                return out + [FALSE] * (W - len(out))
        if x in self.byte_regions or (x.op == 'proj' and x.args[1] == ('f', 0) and (x.args[0] in self.byte_regions or x.args[0].op == 'proj' and x.args[0].args[1][0] == 'i')):
            if x.op == 'proj' and x.args[0].op == 'proj' and x not in self.byte_regions:
                q = x.args[0]
                b = self.byte(q.args[0], 32, add(mul(self.expand(q.args[1][1]), I(32)), i))
            else: b = self.byte(x, 1, i)
            return b + [FALSE] * (W - 8)
        return None

    def byte(self, arr, esz, addr):
        """the byte at address addr of an array of esz-byte elements"""
        while True:
            op = arr.op
            if op in ('fold', 'wfold'): arr = self.run_loop(arr); continue
            if op == 'view': arr, esz = arr.args[3], arr.args[1]; continue
            if op == 'unview': esz = SIZE.get(arr.args[0], esz); arr = arr.args[2]; continue
            if op == 'store':
                d = sub(addr, mul(self.expand(arr.args[1]), I(esz)))
                if d.op == 'i':
                    if 0 <= d.args[0] < esz: return self.vbyte(arr.args[2], esz, d.args[0])
                elif not apart(d, esz): raise GiveUp('a write at an address whose distance is not known')
                arr = arr.args[0]; continue
            if op == 'slice': addr = add(addr, mul(arr.args[1], I(esz))); arr = arr.args[0]; continue
            if op == 'arr' and addr.op == 'i':
                k = addr.args[0] // esz
                if 0 <= k < len(arr.args[0]): return self.vbyte(arr.args[0][k], esz, addr.args[0] % esz)
            if op == 'tab':
                k = div(addr, I(esz)); c = rem(addr, I(esz))
                if c.op == 'i': return self.vbyte(subst(arr.args[1], {mk('k', arr.args[2]): k}), esz, c.args[0])
                raise GiveUp('unaligned read')
            if op == 'ite':
                c = self.boolean(arr.args[0])
                if c is TRUE: arr = arr.args[1]; continue
                if c is FALSE: arr = arr.args[2]; continue
                return [ite(c, p, q) for p, q in zip(self.byte(arr.args[1], esz, addr), self.byte(arr.args[2], esz, addr))]
            if op == 'sw':
                e = self.expand(arr)
                if e is not arr: arr = e; continue
                v = self.word(arr.args[0]); acc = self.byte(arr.args[2], esz, addr)
                for k, x in reversed(arr.args[1]):
                    c = self.equals(v, const_bits(k))
                    acc = [ite(c, p, q) for p, q in zip(self.byte(x, esz, addr), acc)]
                return acc
            if arr in self.byte_regions or arr in self.regions or op in ('deref', 'proj', 'arg', 'ret'):
                return [mk('B', mk('mbit', arr, addr, i)) for i in range(8)]
            e = self.expand(arr)
            if e is arr: raise GiveUp('memory ' + show(arr)[:100])
            arr = e

    def vbyte(self, v, esz, d):
        """byte d of a value of esz bytes"""
        if esz in (1, 2, 4, 8): return self.word(v)[8 * d:8 * d + 8]
        if esz == 32: return self.word(proj(proj(v, ('f', 0)), ('i', I(d))))[:8]
        raise GiveUp('element of %d bytes' % esz)

    def writes(self, arr, esz):
        """-> (set of written addresses, set of base regions)"""
        out = set(); base = set(); todo = [(arr, esz)]
        while todo:
            arr, esz = todo.pop()
            op = arr.op
            if op in ('fold', 'wfold'): todo.append((self.run_loop(arr), esz)); continue
            if op == 'view': todo.append((arr.args[3], arr.args[1])); continue
            if op == 'unview': todo.append((arr.args[2], SIZE.get(arr.args[0], esz))); continue
            if op == 'store':
                a0 = mul(self.expand(arr.args[1]), I(esz))
                for j in range(esz): out.add(add(a0, I(j)))
                todo.append((arr.args[0], esz)); continue
            if op == 'ite':
                c = self.boolean(arr.args[0])
                for x, y in ((arr.args[1], FALSE), (arr.args[2], TRUE)):
                    if c is not y: todo.append((x, esz))
                continue
            if op == 'sw':
                todo += [(x, esz) for _, x in arr.args[1]]
                if domain(arr.args[0]) is None: todo.append((arr.args[2], esz))
                continue
            e = self.expand(arr)
            if e is not arr: todo.append((e, esz)); continue
            base.add(arr)
        return out, base

    # ------------------------------------------------------------ numbers that are weighed sums of counts
    def number(self, t):
        """a linear combination of bit counts of canonical words"""
        if t.op in ('fold', 'wfold'): return self.number(self.run_loop(t))
        if t.op == 'lin':
            r = I(t.args[0])
            for m, k in t.args[1]: r = add(r, mul(self.number(m), I(k)))
            return r
        if t.op == 'mul':
            r = I(1)
            for m in t.args[0]: r = mul(r, self.number(m))
            return r
        if t.op == 'ctpop': return mk('ctpopb', tuple(self.word(t.args[0])))
        if t.op == 'shl' and len(t.args) == 2:
            s = self.number(t.args[1])
            if s.op == 'i': return mul(self.number(t.args[0]), I(1 << s.args[0]))
        if t.op == 'i': return t
        if t.op == 'ucast' or t.op == 'trunc' and t.args[0] >= 32: return self.number(t.args[1])
        e = self.expand(t)
        if e is not t: return self.number(e)
        raise GiveUp('no number for ' + show(t)[:100])

def apart(d, esz):
    """an address difference that is never inside [0, esz)"""
    c, m = lin_parts(d)
    import math
    g = 0
    for k in m.values(): g = math.gcd(g, abs(k))
    if all(nonneg(x) for x in m) and (all(k > 0 for k in m.values()) and c >= esz or all(k < 0 for k in m.values()) and c < 0): return True
    return c % g >= esz if g > esz else False      # c mod g outside the window for every multiple

_hl = {}
def has_loop(t):
    r = _hl.get(t)
    if r is None:
        if t.op in ('fold', 'wfold'): r = True
        else: r = any(has_loop(x) for x in subterms_of(t))
        _hl[t] = r
    return r
