"""Semantics of the external (std / rayon / ...) functions the analysed code uses."""
from terms import *
import terms
from interp import some, NONE, option, OPT, RES, okv, boolify_v, Unsupported, trunc

M = {}
def model(*names):
    def d(f):
        for n in names: M[n] = f
        return f
    return d

# ---------------------------------------------------------------- helpers
def mapref(c, p, fn):
    """apply fn(loc) -> loc on every location a pointer may denote"""
    it = c.it
    ls = it.locs_of_ptr(p)
    r = it.mkref(*fn(ls[-1][1]))
    for g, l in reversed(ls[:-1]): r = ite(g, it.mkref(*fn(l)), r)
    return r
def elemref(c, p, i): return mapref(c, p, lambda l: c.it.ext(l, ('i', i)))
def rangeref(c, p, lo, n): return mapref(c, p, lambda l: c.it.ext(l, ('s', lo, n)))
def content(c, p): return c.it.deref(c.st, p)
def setc(c, p, v): c.it.write_locs(c.st, c.it.locs_of_ptr(p), v)
def plen(c, p): return length(content(c, p))
def EMPTY(): return mk('arr', ())
def push(v, x):
    def f(v):
        if v.op == 'arr' and len(v.args[0]) < 64: return mk('arr', v.args[0] + (x,))
        return mk('push', v, x)
    return lift('push#%d' % x.key, f, v)
def resize(v, n, x):
    def f(v, n):
        if v.op == 'arr' and not v.args[0]: return mk('tab', n, x, x.ht + 1)
        return mk('resize', v, n, x)
    return lift('resize#%d' % x.key, f, v, n)
def deref1(c, v):
    return c.it.deref_all(c.st, v)

# ---------------------------------------------------------------- Vec / slices
for n in ['std::vec::Vec::<T>::new', 'std::vec::Vec::<T>::with_capacity']: M[n] = lambda c: EMPTY()
@model('std::vec::from_elem')
def _(c): return mk('tab', c.args[1], c.args[0], c.args[0].ht + 1)
@model('std::vec::Vec::<T, A>::push')
def _(c): setc(c, c.args[0], push(content(c, c.args[0]), c.args[1])); return UNIT
@model('std::vec::Vec::<T, A>::pop')
def _(c):
    v = content(c, c.args[0])
    def f(v):
        if v.op == 'arr':
            if not v.args[0]: return agg('tuple', 0, (NONE, v))
            return agg('tuple', 0, (some(v.args[0][-1]), mk('arr', v.args[0][:-1])))
        if v.op == 'push': return agg('tuple', 0, (some(v.args[1]), v.args[0]))
        n = length(v)
        ne = NOT(eq(n, I(0)))
        return agg('tuple', 0, (option(ne, index(v, sub(n, I(1)))), ite(ne, mk('popped', v), v)))
    r = lift('pop', f, v)
    setc(c, c.args[0], proj(r, ('f', 1)))
    return proj(r, ('f', 0))
@model('std::vec::Vec::<T, A>::clear')
def _(c): setc(c, c.args[0], EMPTY()); return UNIT
@model('std::vec::Vec::<T, A>::resize')
def _(c): setc(c, c.args[0], resize(content(c, c.args[0]), c.args[1], c.args[2])); return UNIT
@model('std::vec::Vec::<T, A>::truncate')
def _(c):
    v = content(c, c.args[0]); n = c.args[1]
    setc(c, c.args[0], ite(lt(n, length(v)), c.it.slicev(v, I(0), n), v)); return UNIT
@model('core::str::<impl str>::len', 'std::string::String::len')
def _(c): return length(deref1(c, c.args[0]))
@model('std::vec::Vec::<T, A>::len', 'core::slice::<impl [T]>::len')
def _(c): return plen(c, c.args[0])
@model('std::vec::Vec::<T, A>::is_empty', 'core::slice::<impl [T]>::is_empty')
def _(c): return eq(plen(c, c.args[0]), I(0))
@model('<std::vec::Vec<T, A> as std::ops::Deref>::deref', '<std::vec::Vec<T, A> as std::ops::DerefMut>::deref_mut',
       '<std::string::String as std::ops::Deref>::deref', 'std::string::String::as_str', 'std::vec::Vec::<T, A>::as_slice',
       'std::vec::Vec::<T, A>::as_mut_slice', '<T as std::borrow::Borrow<T>>::borrow', '<T as std::borrow::BorrowMut<T>>::borrow_mut',
       '<std::vec::Vec<T, A> as std::convert::AsRef<[T]>>::as_ref', 'core::str::<impl str>::as_bytes', '<[T] as std::convert::AsRef<[T]>>::as_ref')
def _(c): return c.args[0]
@model('<&T as std::borrow::Borrow<T>>::borrow', '<&mut T as std::borrow::Borrow<T>>::borrow', '<&mut T as std::borrow::BorrowMut<T>>::borrow_mut')
def _(c): return content(c, c.args[0])
@model('<std::vec::Vec<T, A> as std::clone::Clone>::clone', '<T as std::array::SpecArrayClone>::clone', 'std::slice::<impl [T]>::to_vec', '<[T] as std::borrow::ToOwned>::to_owned',
       'core::slice::<impl [T]>::to_vec')
def _(c):
    return content(c, c.args[0])
M['<std::string::String as std::clone::Clone>::clone'] = M['<std::vec::Vec<T, A> as std::clone::Clone>::clone']

def bounds_event(c, idx, n):
    c.it.event('assert', c.guard, ('bounds', lt(idx, n), n, idx))
def range_kind(c, r, ty):
    """name of the range type of an index argument, '' if it is not a range"""
    if r.op == 'agg': return str(r.args[0]).split('::')[-1]
    t = c.prog.types[ty] if ty is not None else None
    if t is None or t['k'] != 'adt': return ''
    k = t['s'].split('<')[0].split('::')[-1]
    return k if k in ('Range', 'RangeFrom', 'RangeTo', 'RangeFull', 'RangeToInclusive') else ''
def range_parts(c, r, n, k=None):
    """range value -> (lo, len)"""
    if k is None: k = str(r.args[0]).split('::')[-1] if r.op == 'agg' else ''
    f = (lambda i: proj(r, ('f', i)))
    if k == 'Range': lo, hi = f(0), f(1)
    elif k == 'RangeFrom': lo, hi = f(0), n
    elif k == 'RangeTo': lo, hi = I(0), f(0)
    elif k == 'RangeFull': lo, hi = I(0), n
    elif k == 'RangeToInclusive': lo, hi = I(0), add(f(0), I(1))
    elif k == 'RangeInclusive': lo, hi = f(0), add(f(1), I(1))
    else: return None
    return lo, sub(hi, lo), hi
@model('<std::vec::Vec<T, A> as std::ops::Index<I>>::index', '<std::vec::Vec<T, A> as std::ops::IndexMut<I>>::index_mut',
       'core::slice::index::<impl std::ops::Index<I> for [T]>::index', 'core::slice::index::<impl std::ops::IndexMut<I> for [T]>::index_mut',
       'core::array::<impl std::ops::Index<I> for [T; N]>::index')
def _(c):
    p, i = c.args
    n = plen(c, p)
    ity = c.prog.types[c.argty[1]] if c.argty[1] is not None else None
    if ity is not None and ity['k'] == 'uint':
        bounds_event(c, i, n)
        return elemref(c, p, i)
    if range_kind(c, i, c.argty[1]):
        rp = range_parts(c, i, n, range_kind(c, i, c.argty[1]))
        if rp is not None:
            c.it.event('assert', c.guard, ('range', AND(le(rp[0], rp[2]), le(rp[2], n)), n, rp[0], rp[2]))
            return rangeref(c, p, rp[0], rp[1])
    return NotImplemented
@model('core::slice::<impl [T]>::get_unchecked', 'core::slice::<impl [T]>::get_unchecked_mut')
def _(c):
    p, i = c.args
    n = plen(c, p)
    if range_kind(c, i, c.argty[1]):
        rp = range_parts(c, i, n, range_kind(c, i, c.argty[1]))
        if rp is None: return NotImplemented
        c.it.event('unsafe', c.guard, ('slice_unchecked', AND(le(rp[0], rp[2]), le(rp[2], n)), n, rp[2]))
        return rangeref(c, p, rp[0], rp[1])
    c.it.event('unsafe', c.guard, ('get_unchecked', lt(i, n), n, i))
    return elemref(c, p, i)
@model('core::slice::<impl [T]>::get', 'core::slice::<impl [T]>::get_mut')
def _(c):
    p, i = c.args
    if range_kind(c, i, c.argty[1]) not in ('', 'tuple'):
        n = plen(c, p); rp = range_parts(c, i, n, range_kind(c, i, c.argty[1]))
        if rp is None: return NotImplemented
        return option(AND(le(rp[0], rp[2]), le(rp[2], n)), rangeref(c, p, rp[0], rp[1]))
    return option(lt(i, plen(c, p)), elemref(c, p, i))
@model('core::slice::<impl [T]>::first', 'core::slice::<impl [T]>::first_mut')
def _(c): return option(NOT(eq(plen(c, c.args[0]), I(0))), elemref(c, c.args[0], I(0)))
@model('core::slice::<impl [T]>::last', 'core::slice::<impl [T]>::last_mut')
def _(c):
    n = plen(c, c.args[0])
    return option(NOT(eq(n, I(0))), elemref(c, c.args[0], sub(n, I(1))))
@model('core::slice::<impl [T]>::swap')
def _(c):
    p, i, j = c.args
    n = plen(c, p)
    bounds_event(c, i, n); bounds_event(c, j, n)
    v = content(c, p); x = index(v, i); y = index(v, j)
    for g, l in c.it.locs_of_ptr(p):
        nx = y if g is TRUE else ite(g, y, index(c.it.read(c.st, l), i))
        c.it.write(c.st, c.it.ext(l, ('i', i)), nx)
        ny = x if g is TRUE else ite(g, x, index(c.it.read(c.st, l), j))
        c.it.write(c.st, c.it.ext(l, ('i', j)), ny)
    return UNIT
@model('core::slice::<impl [T]>::split_at_mut', 'core::slice::<impl [T]>::split_at')
def _(c):
    p, k = c.args
    n = plen(c, p)
    c.it.event('assert', c.guard, ('range', le(k, n), n, I(0), k))
    return agg('tuple', 0, (rangeref(c, p, I(0), k), rangeref(c, p, k, sub(n, k))))
@model('core::slice::<impl [T]>::sort_unstable', 'std::slice::<impl [T]>::sort', 'core::slice::<impl [T]>::sort')
def _(c):
    p = c.args[0]
    for g, l in c.it.locs_of_ptr(p):
        v = c.it.read(c.st, l)
        nv = lift('sorted', lambda x: x if x.op == 'sorted' else mk('sorted', x), v)
        c.it.write(c.st, l, nv if g is TRUE else ite(g, nv, v))
    return UNIT
@model('core::slice::<impl [T]>::fill')
def _(c):
    p, x = c.args
    n = plen(c, p)
    setc(c, p, mk('tab', n, x, max(x.ht, n.ht) + 1)); return UNIT
@model('core::slice::<impl [T]>::copy_from_slice', 'core::slice::<impl [T]>::clone_from_slice')
def _(c): setc(c, c.args[0], content(c, c.args[1])); return UNIT
@model('std::vec::Vec::<T, A>::extend_from_slice')
def _(c):
    drive(c, mk('agg', 'it:slice', 0, (c.args[1], I(0), plen(c, c.args[1]))), lambda cc, x: setc(cc, c.args[0], push(content(cc, c.args[0]), content(cc, x))))
    return UNIT
@model('std::vec::Vec::<T, A>::swap_remove')
def _(c):
    v = content(c, c.args[0]); i = c.args[1]; n = length(v)
    bounds_event(c, i, n)
    x = index(v, i)
    setc(c, c.args[0], mk('popped', store(v, i, index(v, sub(n, I(1))))))
    return x
@model('std::vec::Vec::<T, A>::remove')
def _(c):
    v = content(c, c.args[0]); i = c.args[1]
    bounds_event(c, i, length(v))
    setc(c, c.args[0], mk('removed', v, i))
    return index(v, i)
@model('std::vec::Vec::<T, A>::capacity')
def _(c): return mk('cap', content(c, c.args[0]))

# maps, by value: mapnew, mput(m, k, v), mget(m, k), mhas(m, k); the hasher does not matter
def mget(m, k):
    if m.op == 'mput': return ite(eq(m.args[1], k), m.args[2], mget(m.args[0], k))
    return mk('mget', m, k)
def mhas(m, k):
    if m.op == 'mput': return OR(eq(m.args[1], k), mhas(m.args[0], k))
    if m.op == 'mapnew': return FALSE
    return mk('B', mk('mhas', m, k))
HM = 'std::collections::HashMap::<K, V, S, A>::'
for n in ['<std::collections::HashMap<K, V, S> as std::default::Default>::default', 'std::collections::HashMap::<K, V>::new',
          'std::collections::HashMap::<K, V>::with_capacity', 'std::collections::HashMap::<K, V, S>::with_hasher',
          'std::collections::HashMap::<K, V, S>::with_capacity_and_hasher']: M[n] = lambda c: mk('mapnew')
@model(*[x + 'clear' for x in (HM, HM.replace(', A', ''))])
def _(c): setc(c, c.args[0], mk('mapnew')); return UNIT
@model(*[x + 'insert' for x in (HM, HM.replace(', A', ''))])
def _(c):
    m = content(c, c.args[0]); k, v = c.args[1:]
    setc(c, c.args[0], mk('mput', m, k, v))
    return option(mhas(m, k), mget(m, k))
@model(*[x + 'remove' for x in (HM, HM.replace(', A', ''))])
def _(c):
    m = content(c, c.args[0]); k = deref1(c, c.args[1])
    setc(c, c.args[0], mk('mdel', m, k))
    return option(mhas(m, k), mget(m, k))
@model(*[x + 'contains_key' for x in (HM, HM.replace(', A', ''))])
def _(c): return mhas(content(c, c.args[0]), deref1(c, c.args[1]))
@model(*[x + 'get' for x in (HM, HM.replace(', A', ''))])
def _(c):
    m = content(c, c.args[0]); k = deref1(c, c.args[1])
    return option(mhas(m, k), c.it.temp(c.st, mget(m, k)))
@model('<std::collections::HashMap<K, V, S, A> as std::ops::Index<&Q>>::index', '<std::collections::HashMap<K, V, S> as std::ops::Index<&Q>>::index')
def _(c):
    m = content(c, c.args[0]); k = deref1(c, c.args[1])
    c.it.event('panic', c.guard, (NOT(mhas(m, k)), 'missing key'))
    return c.it.temp(c.st, mget(m, k))

# raw pointers
@model('core::slice::<impl [T]>::as_ptr', 'core::slice::<impl [T]>::as_mut_ptr', 'std::vec::Vec::<T, A>::as_mut_ptr', 'std::vec::Vec::<T, A>::as_ptr')
def _(c): return mk('eptr', c.args[0], I(0))
def padd(p, n):
    def f(p, n):
        if p.op == 'eptr': return mk('eptr', p.args[0], add(p.args[1], n))
        return mk('eptr', p, n)
    return lift('padd', f, p, n)
@model('std::ptr::const_ptr::<impl *const T>::add', 'std::ptr::mut_ptr::<impl *mut T>::add', 'core::ptr::const_ptr::<impl *const T>::add', 'core::ptr::mut_ptr::<impl *mut T>::add')
def _(c): return padd(c.args[0], c.args[1])
@model('std::slice::from_raw_parts', 'std::slice::from_raw_parts_mut')
def _(c):
    p, n = c.args
    def f(p, n):
        if p.op == 'eptr':
            return rangeref_full(c, p.args[0], p.args[1], n)
        if c.it.rawmem: return mk('ref', ('O', p), (('s', I(0), n),))
        return mk('rawslice', p, n)
    r = lift('frp#%d' % id(c.st), f, p, n)
    c.it.event('unsafe', c.guard, ('from_raw_parts', p, n))
    return r
@model('std::vec::Vec::<T>::from_raw_parts')
def _(c):
    # a vector taken over from another one: its elements seen as another type of the same size
    p, n, cap = c.args
    if p.op != 'eptr' or p.args[1] is not I(0): return NotImplemented
    v = content(c, p.args[0])
    c.it.event('unsafe', c.guard, ('from_raw_parts', p, n))
    if length(v) is not n: return NotImplemented
    return v          # the pointer already carries the change of element type
def rangeref_full(c, p, off, n):
    if off is I(0) and n is plen(c, p): return p
    return rangeref(c, p, off, n)
@model('std::ptr::null', 'std::ptr::null_mut')
def _(c): return mk('null')
@model('std::ptr::mut_ptr::<impl *mut T>::is_null', 'std::ptr::const_ptr::<impl *const T>::is_null')
def _(c):
    p = c.args[0]
    if p.op == 'null': return TRUE
    if p.op == 'ref': return FALSE
    return eq(p, mk('null'))
@model('std::ptr::mut_ptr::<impl *mut T>::cast', 'std::ptr::const_ptr::<impl *const T>::cast', 'std::ptr::mut_ptr::<impl *mut T>::cast_const', 'std::ptr::const_ptr::<impl *const T>::cast_mut')
def _(c): return c.it.cast('PtrToPtr', c.args[0], c.argty[0], c.retty)
@model('std::ptr::write', 'std::ptr::mut_ptr::<impl *mut T>::write')
def _(c):
    setc(c, c.args[0], c.args[1]); return UNIT

# ---------------------------------------------------------------- boxes, mutexes, arcs
@model('std::boxed::Box::<T>::new')
def _(c): return mk('box', c.args[0])
@model('<std::boxed::Box<T, A> as std::convert::AsMut<T>>::as_mut', '<std::boxed::Box<T, A> as std::convert::AsRef<T>>::as_ref',
       '<std::boxed::Box<T, A> as std::ops::Deref>::deref', '<std::boxed::Box<T, A> as std::ops::DerefMut>::deref_mut')
def _(c): return mapref(c, c.args[0], lambda l: c.it.ext(l, ('bx',)))
@model('std::boxed::box_assume_init_into_vec_unsafe')          # what vec![a, b, ..] expands to
def _(c):
    v = c.args[0]
    while v.op in ('box', 'upd'): v = v.args[0] if v.op == 'box' else v.args[2]
    return v if v.op == 'arr' else NotImplemented
@model('std::sync::Mutex::<T>::new')
def _(c): return mk('agg', 'Mutex', 0, (c.args[0],))
@model('std::sync::Mutex::<T>::lock')
def _(c): return okv(mk('agg', 'MutexGuard', 0, (mapref(c, c.args[0], lambda l: c.it.ext(l, ('f', 0))),)))
@model("<std::sync::MutexGuard<'_, T> as std::ops::DerefMut>::deref_mut", "<std::sync::MutexGuard<'_, T> as std::ops::Deref>::deref")
def _(c): return proj(content(c, c.args[0]), ('f', 0))
@model('std::sync::Mutex::<T>::into_inner')
def _(c): return okv(proj(c.args[0], ('f', 0)))

# ---------------------------------------------------------------- numbers
def un(op):
    def f(c): return mkun(op, c.args[0])
    return f
def mkun(op, x):
    def g(x):
        if x.op == 'i' and x.args[0] > 0 and op == 'cttz': return I((x.args[0] & -x.args[0]).bit_length() - 1)
        if x.op == 'i' and x.args[0] >= 0 and op == 'ctpop': return I(bin(x.args[0]).count('1'))
        if x.op == 'f':
            import math
            v = x.args[0]
            try:
                if op == 'fabs': return F(abs(v))
                if op == 'sqrt' and v >= 0: return F(math.sqrt(v))
                if op == 'floor': return F(math.floor(v))
                if op == 'exp': return F(math.exp(v))
                if op == 'ln' and v > 0: return F(math.log(v))
            except (OverflowError, ValueError): pass
        if op == 'fabs' and x.op in ('fabs', 'fneg'): return mkun('fabs', x.args[0])
        if op == 'fabs' and x.op == 'fsub' and x.args[0].key > x.args[1].key: return mk('fabs', mk('fsub', x.args[1], x.args[0]))
        if op == 'ctpop' and x.op == 'i': return I(bin(x.args[0]).count('1'))
        return mk(op, x)
    return lift(op, g, x)
for n, op in [('fabs', 'fabs'), ('sqrt', 'sqrt'), ('exp', 'exp'), ('log', 'ln'), ('round', 'fround'), ('floor', 'floor'), ('ceil', 'ceil'),
              ('trunc', 'ftrunc'), ('log2', 'log2'), ('log10', 'log10'), ('exp2', 'exp2'), ('round_ties_even', 'rte')]:
    for suf in ('', 'f32', 'f64'):
        M['std::intrinsics::%s%s' % (n, suf)] = un(op)
    terms.UNOPS[op] = (lambda op: lambda x: mkun(op, x))(op)
M['std::intrinsics::ctpop'] = un('ctpop'); terms.UNOPS['ctpop'] = lambda x: mkun('ctpop', x)
M['std::intrinsics::cttz'] = un('cttz'); M['std::intrinsics::ctlz'] = un('ctlz')
terms.UNOPS['cttz'] = lambda x: mkun('cttz', x)
def fmin(a, b):
    def f(a, b):
        if a is b: return a
        x, y = (a, b) if a.key < b.key else (b, a)
        return mk('fmin', x, y)
    return lift('fmin', f, a, b)
def fmax(a, b):
    def f(a, b):
        if a is b: return a
        x, y = (a, b) if a.key < b.key else (b, a)
        return mk('fmax', x, y)
    return lift('fmax', f, a, b)
terms.UNOPS['fmin'] = fmin; terms.UNOPS['fmax'] = fmax
for w in ('32', '64'):
    M['std::intrinsics::minimum_number_nsz_f' + w] = lambda c: fmin(*c.args)
    M['std::intrinsics::maximum_number_nsz_f' + w] = lambda c: fmax(*c.args)
    M['std::intrinsics::minnumf' + w] = lambda c: fmin(*c.args)
    M['std::intrinsics::maxnumf' + w] = lambda c: fmax(*c.args)
def copysign(a, b):
    def f(a, b):
        return mk('copysign', a, b)
    return lift('copysign', f, a, b)
terms.UNOPS['copysign'] = copysign
M['std::intrinsics::copysignf32'] = M['std::intrinsics::copysignf64'] = M['std::intrinsics::copysign'] = lambda c: copysign(*c.args)
def fpow(c): return lift('powf', lambda a, b: fmul(a, a) if b.op in ('i', 'f') and b.args[0] == 2 else mk('powf', a, b), *c.args)
for n in ('powif32', 'powif64', 'powf32', 'powf64', 'powi', 'powf'): M['std::intrinsics::' + n] = fpow
def fma(c): return fadd(fmul(c.args[0], c.args[1]), c.args[2])
for n in ('fmaf32', 'fmaf64', 'fma'): M['std::intrinsics::' + n] = fma
M['std::intrinsics::integer_max'] = lambda c: imax(*c.args)
M['std::intrinsics::integer_min'] = lambda c: imin(*c.args)
def isuns(c):
    t = c.argty[0]
    return t is not None and c.prog.types[t]['k'] == 'uint'
M['std::intrinsics::wrapping_add'] = lambda c: add(*c.args)
M['std::intrinsics::wrapping_sub'] = lambda c: sub(*c.args)
M['std::intrinsics::wrapping_mul'] = lambda c: mul(*c.args)
M['std::intrinsics::saturating_sub'] = lambda c: ite(lt(c.args[0], c.args[1]), I(0), sub(*c.args)) if isuns(c) else mk('satsub', *c.args)
M['std::intrinsics::saturating_add'] = lambda c: add(*c.args)
M['std::intrinsics::unchecked_add'] = lambda c: add(*c.args)
M['std::intrinsics::unchecked_sub'] = lambda c: sub(*c.args)
M['std::intrinsics::exact_div'] = lambda c: div(*c.args)
M['std::intrinsics::add_with_overflow'] = lambda c: agg('tuple', 0, (add(*c.args), mk('B', mk('ovf', *c.args))))
M['std::intrinsics::sub_with_overflow'] = lambda c: agg('tuple', 0, (sub(*c.args), lt(*c.args) if isuns(c) else mk('B', mk('ovfs', *c.args))))
M['std::intrinsics::mul_with_overflow'] = lambda c: agg('tuple', 0, (mul(*c.args), mk('B', mk('ovfm', *c.args))))
M['std::intrinsics::unlikely'] = M['std::intrinsics::likely'] = lambda c: c.args[0]
M['std::intrinsics::cold_path'] = lambda c: UNIT
M['std::hint::must_use'] = M['std::hint::black_box'] = lambda c: c.args[0]
M['<T as std::convert::From<T>>::from'] = lambda c: c.args[0]
M['<T as std::convert::Into<U>>::into'] = lambda c: NotImplemented
for t in ('u8', 'u16', 'u32', 'u64', 'usize', 'i32', 'i64'):
    for pre in ('num', 'num_traits', 'num_traits::identities'):
        M['<%s as %s::One>::one' % (t, pre)] = lambda c: I(1)
        M['<%s as %s::Zero>::zero' % (t, pre)] = lambda c: I(0)
    M['<%s as std::default::Default>::default' % t] = lambda c: I(0)
    for pre in ('num', 'num_traits', 'num_traits::cast'): M['<%s as %s::NumCast>::from' % (t, pre)] = lambda c: some(c.args[0])
    for pre in ('num', 'num_traits', 'num_traits::int'):
        for nm, op in (('trailing_zeros', 'cttz'), ('leading_zeros', 'ctlz'), ('count_ones', 'ctpop')):
            M['<%s as %s::PrimInt>::%s' % (t, pre, nm)] = (lambda op: lambda c: mkun(op, c.args[0]))(op)
    for op, fn in (('BitAnd', band), ('BitOr', bor), ('BitXor', bxor), ('Add', add), ('Sub', sub), ('Mul', mul)):
        M['<%s as std::ops::%s>::%s' % (t, op, op.lower())] = (lambda fn: lambda c: fn(*c.args))(fn)
        M['<&%s as std::ops::%s<&%s>>::%s' % (t, op, t, op.lower())] = (lambda fn: lambda c: fn(content(c, c.args[0]), content(c, c.args[1])))(fn)
        M['<&%s as std::ops::%s<%s>>::%s' % (t, op, t, op.lower())] = (lambda fn: lambda c: fn(content(c, c.args[0]), c.args[1]))(fn)
        M['<%s as std::ops::%s<&%s>>::%s' % (t, op, t, op.lower())] = (lambda fn: lambda c: fn(c.args[0], content(c, c.args[1])))(fn)
        M['<%s as std::ops::%sAssign>::%s_assign' % (t, op, op.lower())] = (lambda fn: lambda c: (setc(c, c.args[0], fn(content(c, c.args[0]), c.args[1])), UNIT)[1])(fn)
        M['<%s as std::ops::%sAssign<&%s>>::%s_assign' % (t, op, t, op.lower())] = (lambda fn: lambda c: (setc(c, c.args[0], fn(content(c, c.args[0]), content(c, c.args[1]))), UNIT)[1])(fn)
    bits = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'usize': 64, 'i32': 32, 'i64': 64}[t]
    M['<%s as std::ops::Shl>::shl' % t] = (lambda b: lambda c: (c.it.shift(c.guard, c.args[1], b), shl(c.args[0], c.args[1], b))[1])(bits)
    M['<%s as std::ops::Shr>::shr' % t] = (lambda b: lambda c: (c.it.shift(c.guard, c.args[1], b), shr(*c.args))[1])(bits)
    M['<%s as std::ops::Shl<usize>>::shl' % t] = (lambda b: lambda c: (c.it.shift(c.guard, c.args[1], b), shl(c.args[0], c.args[1], b))[1])(bits)
    M['<%s as std::ops::Shr<usize>>::shr' % t] = (lambda b: lambda c: (c.it.shift(c.guard, c.args[1], b), shr(*c.args))[1])(bits)
    M['<%s as std::ops::Not>::not' % t] = (lambda b: lambda c: bnot(c.args[0], b))(bits)
for t in ('f32', 'f64'):
    M['<%s as std::default::Default>::default' % t] = lambda c: F(0)
    for op, fn in (('Add', fadd), ('Sub', fsub), ('Mul', fmul), ('Div', fdiv)):
        M['<%s as std::ops::%s>::%s' % (t, op, op.lower())] = (lambda fn: lambda c: fn(*c.args))(fn)
        M['<&%s as std::ops::%s<&%s>>::%s' % (t, op, t, op.lower())] = (lambda fn: lambda c: fn(content(c, c.args[0]), content(c, c.args[1])))(fn)
        M['<&%s as std::ops::%s<%s>>::%s' % (t, op, t, op.lower())] = (lambda fn: lambda c: fn(content(c, c.args[0]), c.args[1]))(fn)
        M['<%s as std::ops::%s<&%s>>::%s' % (t, op, t, op.lower())] = (lambda fn: lambda c: fn(c.args[0], content(c, c.args[1])))(fn)
        M['<%s as std::ops::%sAssign>::%s_assign' % (t, op, op.lower())] = (lambda fn: lambda c: (setc(c, c.args[0], fn(content(c, c.args[0]), c.args[1])), UNIT)[1])(fn)
        M['<%s as std::ops::%sAssign<&%s>>::%s_assign' % (t, op, t, op.lower())] = (lambda fn: lambda c: (setc(c, c.args[0], fn(content(c, c.args[0]), content(c, c.args[1]))), UNIT)[1])(fn)
M['<bool as std::default::Default>::default'] = lambda c: FALSE
def tysize(prog, t):
    td = prog.types[t]; k = td['k']
    if k in ('int', 'uint'): return td['bits'] // 8
    if k == 'float': return 4 if td['s'] == 'f32' else 8
    if k == 'bool': return 1
    if k == 'char': return 4
    if k in ('ref', 'ptr'):
        e = prog.types[td['e']]
        return 16 if e['k'] in ('slice', 'str', 'dyn') else 8
    if k == 'adt' and td.get('size', -1) >= 0: return td['size']
    if k == 'array' and td['n'] is not None:
        s = tysize(prog, td['e'])
        return None if s is None else s * td['n']
    return None
@model('std::mem::size_of', 'std::intrinsics::size_of')
def _(c):
    s = tysize(c.prog, c.inst['args'][0])
    return NotImplemented if s is None else I(s)
M['std::mem::align_of'] = lambda c: mk('u', 'align', c.prog.types[c.inst['args'][0]]['s'])
M['std::mem::needs_drop'] = lambda c: mk('B', mk('u', 'needs_drop', c.prog.types[c.inst['args'][0]]['s']))
@model('std::mem::forget', 'std::mem::drop', 'std::ptr::drop_in_place', 'std::ptr::mut_ptr::<impl *mut T>::drop_in_place')
def _(c):
    d = 'std::ptr::drop_in_place' if c.inst['def'].endswith('drop_in_place') else c.inst['def']
    c.it.event('call', c.guard, (mk('call', d, (), tuple(c.it.content(c.st, a) for a in c.args)), d, tuple(c.args)))
    return UNIT

# ---------------------------------------------------------------- strings
@model('core::str::traits::<impl std::cmp::PartialEq for str>::eq', '<std::string::String as std::cmp::PartialEq>::eq',
       '<std::string::String as std::cmp::PartialEq<str>>::eq', "<std::string::String as std::cmp::PartialEq<&str>>::eq", '<str as std::cmp::PartialEq<std::string::String>>::eq')
def _(c): return eq(deref1(c, c.args[0]), deref1(c, c.args[1]))
def strfn(c):
    it = c.it
    vals = tuple(it.content(c.st, a) for a in c.args)
    ga = tuple(a for a in c.prog.args_str(c.inst) if '{closure' not in a)
    r = mk('ret', mk('call', c.inst['def'], ga, vals))
    it.opaque_called[c.inst['def']] = it.opaque_called.get(c.inst['def'], 0) + 1
    rk = c.prog.types[c.retty] if c.retty is not None else None
    if rk is not None and rk['k'] == 'bool': r = mk('B', r)
    return r
def strpat(c, s, p):
    # only patterns that are a single character (or a one-character string)
    p = deref1(c, p)
    if p.op == 'i': return p
    if p.op == 's' and len(p.args[0]) == 1: return I(ord(p.args[0]))
    if p.op == 'agg' and str(p.args[0]).startswith('closure:'):
        x = mk('arg', 'a character'); r = c.it.call_value(p, [x], dict(c.st), FALSE)
        if r is not None:
            for k in {0} | {t.args[0] for t in find_all(r, lambda t: t.op == 'i')} | {t.args[0] for t in find_all(r, lambda t: t.op == 'lin')} | {k for t in find_all(r, lambda t: t.op == 'sw') for k, _ in t.args[1] if isinstance(k, int)}:
                for k in (k, -k):
                    if 0 < k and r is eq(x, I(k)): return I(k)
    return None
def lit(s, p): return s.op == 's' and p.op == 'i'
def shas(s, p): return B(chr(p.args[0]) in s.args[0]) if lit(s, p) else mk('B', mk('shas', s, p))
def spart(op, s, p):
    if lit(s, p) and chr(p.args[0]) in s.args[0]:
        t = s.args[0]; i = t.index(chr(p.args[0]))
        return S(t[:i]) if op == 'sbefore' else S(t[i + 1:]) if op == 'safter' else I(len(t[:i].encode()))
    return mk(op, s, p)
@model('core::str::<impl str>::split')
def _(c):
    s = deref1(c, c.args[0]); p = strpat(c, s, c.args[1])
    if p is None: return strfn(c)
    q = mk('ssplit', s, p)
    return mk('agg', 'it:seq', 0, (q, I(0), mk('len', q)))
@model('core::str::<impl str>::splitn')
def _(c):
    s = deref1(c, c.args[0]); p = strpat(c, s, c.args[2])
    if p is None or c.args[1] is not I(2): return strfn(c)
    h = shas(s, p)
    q = ite(h, mk('arr', (spart('sbefore', s, p), spart('safter', s, p))), mk('arr', (s,)))
    return mk('agg', 'it:seq', 0, (q, I(0), ite(h, I(2), I(1))))
@model('core::str::<impl str>::split_once')
def _(c):
    s = deref1(c, c.args[0]); p = strpat(c, s, c.args[1])
    if p is None: return strfn(c)
    return option(shas(s, p), agg('tuple', 0, (spart('sbefore', s, p), spart('safter', s, p))))
@model('core::str::<impl str>::trim')
def _(c):
    s = deref1(c, c.args[0])
    if s.op == 's': return S(s.args[0].strip())
    return s if s.op == 'strim' else mk('strim', s.args[0] if s.op in ('striml', 'strimr') else s)
@model('core::str::<impl str>::trim_start')
def _(c):
    s = deref1(c, c.args[0])
    if s.op == 's': return S(s.args[0].lstrip())
    return mk('strim', s.args[0]) if s.op == 'strimr' else s if s.op in ('strim', 'striml') else mk('striml', s)
@model('core::str::<impl str>::trim_end')
def _(c):
    s = deref1(c, c.args[0])
    if s.op == 's': return S(s.args[0].rstrip())
    return mk('strim', s.args[0]) if s.op == 'striml' else s if s.op in ('strim', 'strimr') else mk('strimr', s)
@model('core::str::<impl str>::contains')
def _(c):
    s = deref1(c, c.args[0]); p = strpat(c, s, c.args[1])
    return strfn(c) if p is None else shas(s, p)
@model('core::str::<impl str>::find')
def _(c):
    s = deref1(c, c.args[0]); p = strpat(c, s, c.args[1])
    return strfn(c) if p is None else option(shas(s, p), spart('sfind', s, p))
@model('core::str::<impl str>::rfind')
def _(c):
    s = deref1(c, c.args[0]); p = strpat(c, s, c.args[1])
    if p is None: return strfn(c)
    if lit(s, p): return some(I(len(s.args[0][:s.args[0].rindex(chr(p.args[0]))].encode()))) if chr(p.args[0]) in s.args[0] else NONE
    return option(shas(s, p), mk('srfind', s, p))
@model('core::str::traits::<impl std::ops::Index<I> for str>::index')
def _(c):
    s = deref1(c, c.args[0]); r = c.args[1]
    if r.op == 'agg' and r.args[0].endswith('RangeTo') and r.args[2][0].op == 'sfind' and r.args[2][0].args[0] is s: return mk('sbefore', *r.args[2][0].args)
    if s.op == 's' and r.op == 'agg' and all(x.op == 'i' for x in r.args[2]):
        b = s.args[0].encode(); n = r.args[0].rsplit('::', 1)[-1]; a = [x.args[0] for x in r.args[2]]
        if n in ('Range', 'RangeFrom', 'RangeTo'):
            lo, hi = (a[0], a[1]) if n == 'Range' else (a[0], len(b)) if n == 'RangeFrom' else (0, a[0])
            if 0 <= lo <= hi <= len(b): return S(b[lo:hi].decode())
    if r.op == 'agg' and r.args[0].endswith('RangeFrom'):
        k = sub(r.args[2][0], I(1))
        if k.op == 'sfind' and k.args[0] is s: return mk('safter', *k.args)
    return strfn(c)
@model('core::str::<impl str>::is_empty', 'std::string::String::is_empty')
def _(c): return eqc(length(deref1(c, c.args[0])), 0)
@model('core::str::<impl str>::parse')
def _(c):
    v = deref1(c, c.args[0]); ga = tuple(c.prog.args_str(c.inst))
    if ga == ('std::string::String',): return okv(v)
    return mk('ret', mk('call', '<%s as std::str::FromStr>::from_str' % ga[0], (), (v,)))
for n in ('f32', 'f64', 'u8', 'u16', 'u32', 'u64', 'usize', 'i8', 'i16', 'i32', 'i64', 'isize', 'bool', 'char'):
    for pre in ('<%s as std::str::FromStr>::from_str' % n, 'core::num::<impl std::str::FromStr for %s>::from_str' % n, 'core::num::imp::dec2flt::<impl std::str::FromStr for %s>::from_str' % n,
                'core::str::traits::<impl std::str::FromStr for %s>::from_str' % n):
        M[pre] = (lambda n: lambda c: mk('ret', mk('call', '<%s as std::str::FromStr>::from_str' % n, (), (deref1(c, c.args[0]),))))(n)
@model('<std::string::String as std::str::FromStr>::from_str')
def _(c): return okv(deref1(c, c.args[0]))
for n in ('std::str::<impl str>::to_lowercase',
          'core::str::<impl str>::starts_with', 'core::str::<impl str>::ends_with', 'core::str::<impl str>::contains', 'core::str::<impl str>::eq_ignore_ascii_case',
          'core::str::<impl str>::chars', 'core::str::<impl str>::lines', 'std::str::<impl str>::to_ascii_lowercase', 'std::str::<impl str>::to_uppercase',
          'std::fmt::format', 'std::ffi::CStr::to_str', 'std::ffi::CStr::from_ptr',
          'std::alloc::Layout::new', 'std::alloc::Layout::from_size_align', 'log::max_level'):
    M[n] = strfn
# a text record is the sequence of its fields
def recfields(c):
    v = deref1(c, c.args[0])
    return v if v.op == 'arr' else mk('fields', v)
@model('csv::StringRecord::get')
def _(c): q = recfields(c); return option(lt(c.args[1], length(q)), proj(q, ('i', c.args[1])))
@model('csv::StringRecord::len')
def _(c): return length(recfields(c))
@model('csv::StringRecord::is_empty')
def _(c): return eqc(length(recfields(c)), 0)
@model('csv::StringRecord::iter', "<&'a csv::StringRecord as std::iter::IntoIterator>::into_iter")
def _(c): q = recfields(c); return mk('agg', 'it:seq', 0, (q, I(0), length(q)))
@model('<std::string::String as std::convert::From<&str>>::from', '<str as std::string::ToString>::to_string', '<str as std::borrow::ToOwned>::to_owned',
       'std::str::<impl std::borrow::ToOwned for str>::to_owned', '<T as std::string::ToString>::to_string', '<std::string::String as std::string::ToString>::to_string')
def _(c):
    v = deref1(c, c.args[0])
    return v
@model('std::string::String::new')
def _(c): return S('')
@model('<std::vec::Vec<T> as std::default::Default>::default')
def _(c): return mk('arr', ())
@model('<std::option::Option<T> as std::default::Default>::default')
def _(c): return agg('std::option::Option', 0, ())
@model('<std::string::String as std::default::Default>::default')
def _(c): return S('')
@model('std::string::String::push_str')
def _(c):
    v = content(c, c.args[0]); w = deref1(c, c.args[1])
    def f(a, b):
        if a.op == 's' and a.args[0] == '': return b
        if a.op == 's' and b.op == 's': return S(a.args[0] + b.args[0])
        return mk('concat', a, b)
    setc(c, c.args[0], lift('concat', f, v, w)); return UNIT
for n in ('new_display', 'new_debug', 'new_lower_exp', 'new_pointer', 'new_binary', 'new_lower_hex', 'new_upper_exp'):
    M["core::fmt::rt::Argument::%s" % n] = lambda c, op='fmtarg' if n == 'new_display' else n.replace('new_', 'fmt_'): mk(op, deref1(c, c.args[0]))
@model("std::fmt::Arguments::new", "std::fmt::Arguments::from_str", "std::fmt::Arguments::from_str_nonconst", "std::fmt::Arguments::new_const")
def _(c): return mk('fmt', tuple(c.it.content(c.st, a) for a in c.args))
IGN = ['std::io::_print', 'std::io::_eprint', 'log::__private_api::log', 'log::__private_api::loc', 'log::__private_api_log']
for n in IGN: M[n] = lambda c: UNIT
M['<log::Level as std::cmp::PartialOrd<log::LevelFilter>>::partial_cmp'] = lambda c: NONE
M['<log::Level as std::cmp::PartialOrd<log::LevelFilter>>::le'] = lambda c: FALSE
for n in ('std::time::Instant::now', 'std::time::Instant::elapsed', 'std::time::Duration::as_secs', 'std::time::Duration::subsec_micros'):
    M[n] = lambda c: mk('ux', 'time')

# ---------------------------------------------------------------- process arguments (a string is identified with its bytes)
ARGV = mk('argv')
@model('std::env::args_os')
def _(c): return mk('agg', 'it:seq', 0, (ARGV, I(0), length(ARGV)))
@model('std::env::args')
def _(c):
    c.it.event('panic', c.guard, (mk('B', mk('not_utf8_args')), 'std::env::args'))
    return mk('agg', 'it:seq', 0, (ARGV, I(0), length(ARGV)))
@model('std::ffi::OsString::into_string')
def _(c): return ite(mk('B', mk('is_utf8', c.args[0])), okv(c.args[0]), agg(RES_, 1, (c.args[0],)))

# ---------------------------------------------------------------- closures
@model('std::ops::Fn::call', 'std::ops::FnMut::call_mut', 'std::ops::FnOnce::call_once')
def _(c):
    tup = c.args[1]
    n = len(tup.args[2]) if tup.op == 'agg' else 1
    return c.it.call_value(c.args[0], [proj(tup, ('f', i)) for i in range(n)], c.st, c.guard)
@model('std::panic::catch_unwind')
def _(c):
    it = c.it
    if it.boundary is not None: raise Unsupported('nested panic boundary')
    f = c.args[0] if not (c.args[0].op == 'agg' and 'AssertUnwindSafe' in str(c.args[0].args[0])) else proj(c.args[0], ('f', 0))
    it.boundary = []; ne = len(it.events)
    try:
        r = it.call_value(f, [], c.st, c.guard)
        fails = it.boundary
    finally: it.boundary = None
    if it.boundary_loops: raise Unsupported('loop inside a panic boundary')
    it.events[ne:] = [('caught',) + e for e in it.events[ne:]]
    it.boundaries += 1
    out = agg('std::result::Result', 0, (r,)) if r is not None else None
    st = dict(c.st)
    for g, s in reversed(fails):
        bad = agg('std::result::Result', 1, (mk('payload'),))
        out = bad if out is None else ite(g, bad, out)
        for k in set(s) | {k for k in st if k[0] == 'O'}:
            v = st.get(k); w = s.get(k)
            v = it.init_of(k) if v is None else v; w = it.init_of(k) if w is None else w
            st[k] = ite(g, w, v)
    c.st.clear(); c.st.update(st)
    return out

# ---------------------------------------------------------------- iterators
def itv(kind, *fields): return mk('agg', 'it:' + kind, 0, tuple(fields))
def isit(v): return v.op == 'agg' and (str(v.args[0]).startswith('it:') or str(v.args[0]).split('::')[-1] in ('Range', 'RangeInclusive', 'RangeFrom'))
def wrap(c, v, ty):
    """make v an iterator value; ty: its type index"""
    if isit(v): return v
    if v.op == 'ref':        # &mut I
        w = content(c, v)
        if isit(w): return itv('byref', v)
    td = c.prog.types[ty] if ty is not None else {}
    if td.get('k') in ('ref',):
        e = c.prog.types[td['e']]
        if e['k'] == 'adt' and e.get('next') is not None: return itv('byref', v, I(e['next']))
    if td.get('k') == 'adt' and td.get('next') is not None: return itv('user', v, I(td['next']))
    return itv('opaque', v)
def as_iter(c, v, ty):
    """IntoIterator::into_iter"""
    if isit(v): return v
    td = c.prog.types[ty] if ty is not None else {}
    if td.get('k') == 'ref':
        e = c.prog.types[td['e']]
        if e['k'] in ('slice', 'array') or (e['k'] == 'adt' and e['name'].endswith('Vec')):
            return itv('slice', v, I(0), plen(c, v))
    if td.get('k') == 'adt' and td['name'].endswith('Vec'): return itv('seq', v, I(0), length(v))
    if td.get('k') == 'array': return itv('seq', v, I(0), length(v))
    if td.get('k') == 'adt' and td['name'].endswith('Option'): return itv('opt', v)
    if td.get('k') == 'adt' and td.get('into_iter') is not None and td.get('next') is None:
        r = c.it.call(c.prog.insts[td['into_iter']], [v], [ty], c.st, c.guard, None)
        if r is not None and r is not NotImplemented:
            return r if isit(r) else wrap(c, r, None)
    return wrap(c, v, ty)

NOSKIP = FALSE
def inext(c, v):
    """-> (cond, item, new iterator, skip)   cond: an element was taken; skip: but it was filtered out"""
    it = c.it
    if not (v.op == 'agg'): raise Unsupported('iterator value %s' % v.op)
    k = str(v.args[0]); a = v.args[2]
    if k == 'it:slice':
        p, pos, end = a
        return lt(pos, end), elemref(c, p, pos), itv('slice', p, add(pos, I(1)), end), NOSKIP
    if k == 'it:seq':
        s, pos, end = a
        return lt(pos, end), index(s, pos), itv('seq', s, add(pos, I(1)), end), NOSKIP
    if k.endswith('Range') and not k.startswith('it:'):
        lo, hi = a
        return lt(lo, hi), lo, mk('agg', k, 0, (add(lo, I(1)), hi)), NOSKIP
    if k.endswith('RangeFrom'):
        return TRUE, a[0], mk('agg', k, 0, (add(a[0], I(1)),)), NOSKIP
    if k.endswith('RangeInclusive'):
        lo, hi = a[0], a[1]
        return le(lo, hi), lo, mk('agg', k, 0, (add(lo, I(1)), hi) + a[2:]), NOSKIP
    if k == 'it:revrange':
        lo, hi = a
        return lt(lo, hi), sub(hi, I(1)), itv('revrange', lo, sub(hi, I(1))), NOSKIP
    if k == 'it:revslice':
        p, pos, end = a
        return lt(pos, end), elemref(c, p, sub(end, I(1))), itv('revslice', p, pos, sub(end, I(1))), NOSKIP
    if k == 'it:cloned':
        g, x, n, s = inext(c, a[0])
        return g, content(c, x), itv('cloned', n), s
    if k == 'it:map':
        g, x, n, s = inext(c, a[0])
        y = sub_call(c, g, s, a[1], [x])
        return g, y, itv('map', n, a[1]), s
    if k == 'it:filter':
        g, x, n, s = inext(c, a[0])
        b = sub_call(c, g, s, a[1], [it.temp(c.st, x)])
        return g, x, itv('filter', n, a[1]), OR(s, NOT(boolify_v(b)))
    if k == 'it:filtermap':
        g, x, n, s = inext(c, a[0])
        o = sub_call(c, g, s, a[1], [x])
        isn = eq(discr(o, 2), I(0))
        return g, proj(o, ('vf', 1, 0)), itv('filtermap', n, a[1]), OR(s, isn)
    if k == 'it:enum':
        g, x, n, s = inext(c, a[0])
        return g, agg('tuple', 0, (a[1], x)), itv('enum', n, ite(s, a[1], add(a[1], I(1)))), s
    if k == 'it:zip':
        g, x, n, s = inext(c, a[0])
        g2, y, n2, s2 = inext(c, a[1])
        if s is not FALSE or s2 is not FALSE: raise Unsupported('zip over filter')
        return AND(g, g2), agg('tuple', 0, (x, y)), itv('zip', n, n2), NOSKIP
    if k == 'it:take':
        g, x, n, s = inext(c, a[0])
        pos = NOT(eq(a[1], I(0)))
        return AND(pos, g), x, itv('take', n, ite(s, a[1], sub(a[1], I(1)))), s
    if k == 'it:repeat':
        return TRUE, a[0], v, NOSKIP
    if k == 'it:opt':
        g = NOT(eq(discr(a[0], 2), I(0)))
        return g, proj(a[0], ('vf', 1, 0)), itv('opt', NONE), NOSKIP
    if k == 'it:chunks':
        p, pos, end, w = a
        n = ite(lt(sub(end, pos), w), sub(end, pos), w)
        return lt(pos, end), rangeref(c, p, pos, n), itv('chunks', p, add(pos, w), end, w), NOSKIP
    if k == 'it:windows':
        p, pos, end, w = a
        return le(add(pos, w), end), rangeref(c, p, pos, w), itv('windows', p, add(pos, I(1)), end, w), NOSKIP
    if k == 'it:chain':
        g, x, n, s = inext(c, a[0])
        g2, y, n2, s2 = inext(c, a[1])
        return OR(g, g2), ite(g, x, y), itv('chain', ite(g, n, a[0]), ite(g, a[1], n2)), ite(g, s, s2)
    if k == 'it:stepby':
        # first element, then every w-th
        inner, w, first = a
        if inner.op == 'agg' and str(inner.args[0]).endswith('Range') and not str(inner.args[0]).startswith('it:'):
            lo, hi = inner.args[2]
            return lt(lo, hi), lo, itv('stepby', mk('agg', inner.args[0], 0, (add(lo, w), hi)), w, first), NOSKIP
        raise Unsupported('step_by')
    if k == 'it:takewhile':
        raise Unsupported('take_while')
    if k == 'it:peek':
        raise Unsupported('peekable')
    if k == 'it:byref':
        inner = content(c, a[0])
        if isit(inner):
            g, x, n, s = inext(c, inner)
            setc(c, a[0], ite(g, n, inner))
            return g, x, v, s
        r = it.call(c.prog.insts[a[1].args[0]], [a[0]], [None], c.st, c.guard, None)
        return NOT(eq(discr(r, 2), I(0))), proj(r, ('vf', 1, 0)), v, NOSKIP
    if k == 'it:user':
        ref = it.temp(c.st, a[0])
        r = it.call(c.prog.insts[a[1].args[0]], [ref], [None], c.st, c.guard, None)
        if r is None: raise Unsupported('diverging next')
        nv = content(c, ref)
        return NOT(eq(discr(r, 2), I(0))), proj(r, ('vf', 1, 0)), itv('user', nv, a[1]), NOSKIP
    raise Unsupported('iterator ' + k)

def sub_call(c, g, s, f, args):
    gg = AND(g, NOT(s))
    r = c.it.call_value(f, args, c.st, AND(c.guard, gg))
    if r is None: raise Unsupported('diverging closure')
    return r

class Sub:
    """copy of a call context over another state"""
    def __init__(self, c, st, guard):
        self.it = c.it; self.inst = c.inst; self.args = c.args; self.argty = c.argty; self.st = st
        self.guard = guard; self.retty = c.retty; self.line = c.line; self.prog = c.prog

def newbase(c, v):
    c.it.tcount += 1
    b = ('T', c.it.tcount)
    c.st[b] = v
    return b

def drive(c, v, body):
    """run body(ctx, item) for every element of v, in order; mutates c.st"""
    k = str(v.args[0]) if v.op == 'agg' else '?'
    if k == 'it:map':
        f = v.args[2][1]
        def b2(cc, x):
            y = cc.it.call_value(f, [x], cc.st, cc.guard)
            if y is None: raise Unsupported('diverging closure')
            body(cc, y)
        return drive(c, v.args[2][0], b2)
    if k == 'it:filter':
        f = v.args[2][1]
        def b2(cc, x):
            b = boolify_v(cc.it.call_value(f, [cc.it.temp(cc.st, x)], cc.st, cc.guard))
            cond_exec(cc, b, lambda c3: body(c3, x))
        return drive(c, v.args[2][0], b2)
    if k == 'it:flat':
        f = v.args[2][1]
        def b2(cc, x):
            y = cc.it.call_value(f, [x], cc.st, cc.guard)
            if y is None: raise Unsupported('diverging closure')
            drive(cc, y if isit(y) else wrap(cc, y, None), body)
        return drive(c, v.args[2][0], b2)
    it = c.it
    ib = newbase(c, v)
    def lb(s):
        cc = Sub(c, s, TRUE)
        cur = s[ib]
        g, x, n, sk = inext(cc, cur)
        ex = dict(s)
        if g is FALSE: return [], [('x', TRUE, ex)]
        s[ib] = n
        # the body runs only if an element was taken
        og = it.base_guard
        it.base_guard = AND(og, g)
        try:
            if sk is FALSE: body(cc, x)
            else: cond_exec(cc, NOT(sk), lambda c3: body(c3, x))
        finally: it.base_guard = og
        if g is TRUE and not k == 'it:repeat': return [(TRUE, s)], []
        return [(g, s)], [('x', NOT(g), ex)]
    outs = it.do_loop(c.st, c.guard, lb)
    if not outs: raise Unsupported('endless iterator')
    _, s = it.merge([(g, s) for _, g, s in outs], None)
    s.pop(ib, None)
    c.st.clear(); c.st.update(s)

def cond_exec(cc, g, fn):
    if g is FALSE: return
    if g is TRUE: fn(cc); return
    s0 = cc.st; s1 = dict(s0)
    og = cc.it.base_guard
    cc.it.base_guard = AND(og, g)
    try: fn(Sub(cc, s1, cc.guard))
    finally: cc.it.base_guard = og
    _, m = cc.it.merge([(g, s1), (NOT(g), dict(s0))], None)
    s0.clear(); s0.update(m)

def search(c, v, test, hit, miss, atend=None, cont=None):
    """early-exit loop: stops at the first element for which test(ctx,item) holds; hit(item)->value"""
    it = c.it
    ib = newbase(c, v); rb = newbase(c, miss if atend is None else UNIT)
    def lb(s):
        cc = Sub(c, s, TRUE)
        g, x, n, sk = inext(cc, s[ib])
        ex = dict(s)
        if atend is not None: ex[rb] = atend(ex)
        s[ib] = n
        og = it.base_guard
        it.base_guard = AND(og, g)
        try: t = boolify_v(test(cc, x))
        finally: it.base_guard = og
        t = AND(t, NOT(sk))
        ex2 = dict(s); ex2[rb] = hit(Sub(c, ex2, TRUE), x)
        if cont is not None: cont(s, x)
        return [(AND(g, NOT(t)), s)], [('m', NOT(g), ex), ('h', AND(g, t), ex2)]
    outs = it.do_loop(c.st, c.guard, lb)
    _, s = it.merge([(g, s) for _, g, s in outs], None)
    r = s.pop(rb); s.pop(ib, None)
    c.st.clear(); c.st.update(s)
    return r

def selfiter(c, i=0):
    ty = c.argty[i] if i < len(c.argty) else None
    return wrap(c, c.args[i], ty)
def arg0ty(c):
    a = c.inst['args']
    return a[0] if a and isinstance(a[0], int) else (c.argty[0] if c.argty else None)

IT = 'std::iter::Iterator::'
def adapter(name, fn):
    M[IT + name] = fn
@model('<I as std::iter::IntoIterator>::into_iter')
def _(c): return c.args[0]
@model("<&'a std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter", "<&'a mut std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter",
       "core::slice::iter::<impl std::iter::IntoIterator for &'a [T]>::into_iter", "core::slice::iter::<impl std::iter::IntoIterator for &'a mut [T]>::into_iter",
       'core::slice::<impl [T]>::iter', 'core::slice::<impl [T]>::iter_mut', '<I as rayon::iter::IntoParallelRefIterator<\'data>>::par_iter',
       "<I as rayon::iter::IntoParallelRefMutIterator<'data>>::par_iter_mut",
       "core::array::<impl std::iter::IntoIterator for &'a [T; N]>::into_iter")
def _(c): return itv('slice', c.args[0], I(0), plen(c, c.args[0]))
@model('<std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter', 'core::array::iter::<impl std::iter::IntoIterator for [T; N]>::into_iter')
def _(c): return itv('seq', c.args[0], I(0), length(c.args[0]))
@model('core::slice::<impl [T]>::chunks', 'core::slice::<impl [T]>::chunks_exact', 'core::slice::<impl [T]>::chunks_mut')
def _(c): return itv('chunks', c.args[0], I(0), plen(c, c.args[0]), c.args[1])
@model('core::slice::<impl [T]>::windows')
def _(c): return itv('windows', c.args[0], I(0), plen(c, c.args[0]), c.args[1])
@model('rayon::iter::repeat', 'std::iter::repeat')
def _(c): return itv('repeat', c.args[0])
@model('std::iter::once')
def _(c): return itv('opt', some(c.args[0]))
RP = 'rayon::iter::ParallelIterator::'
RI = 'rayon::iter::IndexedParallelIterator::'
for P in (IT, RP, RI):
    M[P + 'map'] = lambda c: itv('map', selfiter(c), c.args[1])
    M[P + 'filter'] = lambda c: itv('filter', selfiter(c), c.args[1])
    M[P + 'filter_map'] = lambda c: itv('filtermap', selfiter(c), c.args[1])
    M[P + 'enumerate'] = lambda c: itv('enum', selfiter(c), I(0))
    M[P + 'cloned'] = M[P + 'copied'] = lambda c: itv('cloned', selfiter(c))
    M[P + 'flat_map'] = lambda c: itv('flat', selfiter(c), c.args[1])
    M[P + 'zip'] = lambda c: itv('zip', selfiter(c), as_iter(c, c.args[1], c.argty[1]))
    M[P + 'chain'] = lambda c: itv('chain', selfiter(c), as_iter(c, c.args[1], c.argty[1]))
    M[P + 'take'] = lambda c: take(c, selfiter(c), c.args[1])
    M[P + 'skip'] = lambda c: skip(c, selfiter(c), c.args[1])
    M[P + 'rev'] = lambda c: rev(c, selfiter(c))
    M[P + 'for_each'] = lambda c: for_each(c)
M['rayon::iter::Repeat::<T>::zip'] = lambda c: itv('zip', c.args[0], as_iter(c, c.args[1], c.argty[1]))
M[IT + 'step_by'] = lambda c: itv('stepby', selfiter(c), c.args[1], TRUE)
M[IT + 'by_ref'] = lambda c: c.args[0]
M[IT + 'fuse'] = lambda c: c.args[0]
def rev(c, v):
    k = str(v.args[0])
    if k == 'it:slice': return itv('revslice', *v.args[2])
    if k.endswith('Range') and not k.startswith('it:'): return itv('revrange', *v.args[2])
    if k == 'it:cloned': return itv('cloned', rev(c, v.args[2][0]))
    if k == 'it:map': return itv('map', rev(c, v.args[2][0]), v.args[2][1])
    raise Unsupported('rev of ' + k)
def skip(c, v, n):
    k = str(v.args[0]); a = v.args[2]
    if k in ('it:slice', 'it:seq'):
        p = add(a[1], n)
        return itv(k[3:], a[0], ite(lt(a[2], p), a[2], p), a[2])
    if k.endswith('Range') and not k.startswith('it:'): return mk('agg', k, 0, (add(a[0], n), a[1]))
    if k in ('it:map', 'it:cloned'): return mk('agg', k, 0, (skip(c, a[0], n),) + a[1:])
    if k == 'it:enum': return itv('enum', skip(c, a[0], n), add(a[1], n))
    if k == 'it:zip': return itv('zip', skip(c, a[0], n), skip(c, a[1], n))
    raise Unsupported('skip of ' + k)
def take(c, v, n):
    k = str(v.args[0]); a = v.args[2]
    if k in ('it:slice', 'it:seq'):
        e = add(a[1], n)
        return itv(k[3:], a[0], a[1], ite(lt(e, a[2]), e, a[2]))
    if k.endswith('Range') and not k.startswith('it:'):
        e = add(a[0], n)
        return mk('agg', k, 0, (a[0], ite(lt(e, a[1]), e, a[1])))
    if k in ('it:map', 'it:cloned'): return mk('agg', k, 0, (take(c, a[0], n),) + a[1:])
    if k == 'it:repeat': return itv('map', mk('agg', 'std::ops::Range', 0, (I(0), n)), mk('constfn', a[0]))
    return itv('take', v, n)
def for_each(c):
    v = selfiter(c); f = c.args[1]
    def b(cc, x):
        if cc.it.call_value(f, [x], cc.st, cc.guard) is None: raise Unsupported('diverging closure')
    fb = None
    if f.op == 'agg':           # FnMut closure state lives in a temp
        fr = c.it.temp(c.st, f)
        def b(cc, x):
            if cc.it.call_value(fr, [x], cc.st, cc.guard) is None: raise Unsupported('diverging closure')
    drive(c, v, b)
    return UNIT
def fold(c):
    v = selfiter(c); init, f = c.args[1], c.args[2]
    ab = newbase(c, init)
    def b(cc, x):
        r = cc.it.call_value(f, [cc.st[ab], x], cc.st, cc.guard)
        if r is None: raise Unsupported('diverging closure')
        cc.st[ab] = r
    drive(c, v, b)
    return c.st.pop(ab)
def count(c):
    ab = newbase(c, I(0))
    def b(cc, x): cc.st[ab] = add(cc.st[ab], I(1))
    drive(c, selfiter(c), b)
    return c.st.pop(ab)
def deref_num(c, x): return content(c, x) if x.op in ('ref',) or is_ptrish(c, x) else x
def is_ptrish(c, x): return x.op == 'ref'
def summer(c, op):
    rt = c.prog.types[c.retty] if c.retty is not None else {}
    isf = rt.get('k') == 'float'
    if rt.get('k') not in ('float', 'int', 'uint'): return NotImplemented
    v = selfiter(c)
    # item type: reference or value?
    ab = newbase(c, (F(0) if isf else I(0)) if op == '+' else (F(1) if isf else I(1)))
    byref = itembyref(c, v)
    def b(cc, x):
        y = content(cc, x) if byref else x
        a = cc.st[ab]
        cc.st[ab] = (fadd(a, y) if isf else add(a, y)) if op == '+' else (fmul(a, y) if isf else mul(a, y))
    drive(c, v, b)
    return c.st.pop(ab)
def itembyref(c, v):
    k = str(v.args[0]) if v.op == 'agg' else ''
    if k in ('it:slice', 'it:revslice'): return True
    if k in ('it:filter', 'it:take', 'it:chain', 'it:byref'):
        w = v.args[2][0]
        return itembyref(c, w)
    return False
OPT_, RES_ = 'std::option::Option', 'std::result::Result'
def failed(rt, x):
    """x: Option or Result -> (is it the failure, its content, the failure as a value)"""
    if rt['name'] == OPT_: return eq(discr(x, 2), I(0)), proj(x, ('vf', 1, 0)), NONE
    return eq(discr(x, 2), I(1)), proj(x, ('vf', 0, 0)), agg(RES_, 1, (proj(x, ('vf', 1, 0)),))
def success(rt, v): return agg(OPT_, 1, (v,)) if rt['name'] == OPT_ else agg(RES_, 0, (v,))
def try_collect(c, rt):
    """collect() into Option<Vec<_>> / Result<Vec<_>, _>: stops at the first failure"""
    inner = [c.prog.types[a] for a in rt['args'] if isinstance(a, int)] if 'args' in rt else []
    if not (inner and inner[0].get('k') == 'adt' and inner[0].get('name', '').endswith('Vec')): return NotImplemented
    v = selfiter(c); ab = newbase(c, EMPTY())
    def cont(s, x): s[ab] = push(s[ab], failed(rt, x)[1])
    r = search(c, v, lambda cc, x: failed(rt, x)[0], lambda cc, x: failed(rt, x)[2], None, lambda s: success(rt, s[ab]), cont)
    c.st.pop(ab, None)
    return r
def try_fold(c):
    rt = c.prog.types[c.retty] if c.retty is not None else {}
    if not (rt.get('k') == 'adt' and rt.get('name') in (OPT_, RES_)): return NotImplemented
    each = len(c.args) == 2
    f = c.args[-1]; ab = newbase(c, UNIT if each else c.args[1]); v = iterref(c); rb = newbase(c, UNIT)
    def t(cc, x):
        y = cc.it.call_value(f, [x] if each else [cc.st[ab], x], cc.st, cc.guard)
        if y is None: raise Unsupported('diverging closure')
        cc.st[rb] = y
        return failed(rt, y)[0]
    def cont(s, x):
        if not each: s[ab] = failed(rt, s[rb])[1]
        s[rb] = UNIT
    r = search(c, v, t, lambda cc, x: failed(rt, cc.st[rb])[2], None, lambda s: success(rt, s[ab]), cont)
    c.st.pop(ab, None); c.st.pop(rb, None)
    return r
def collect(c, v=None):
    rt = c.prog.types[c.retty] if c.retty is not None else {}
    if rt.get('k') == 'adt' and rt.get('name') in (OPT_, RES_): return try_collect(c, rt)
    if not (rt.get('k') == 'adt' and rt.get('name', '').endswith('Vec')): return NotImplemented
    v = v if v is not None else selfiter(c)
    ab = newbase(c, EMPTY())
    def b(cc, x): cc.st[ab] = push(cc.st[ab], x)
    drive(c, v, b)
    return c.st.pop(ab)
def extend(c):
    byref = False
    v = as_iter(c, c.args[1], c.argty[1])
    if 'Extend<&' in c.inst['def']: byref = True
    p = c.args[0]
    def b(cc, x): setc(cc, p, push(content(cc, p), content(cc, x) if byref else x))
    drive(c, v, b)
    return UNIT
M['<std::vec::Vec<T, A> as std::iter::Extend<T>>::extend'] = extend
M["<std::vec::Vec<T, A> as std::iter::Extend<&'a T>>::extend"] = extend
@model("<std::vec::Vec<T> as std::iter::FromIterator<T>>::from_iter")
def _(c): return collect(c, as_iter(c, c.args[0], c.argty[0]))
M['__fold'] = fold
def all_(c):
    f = c.args[1]
    v = iterref(c)
    def t(cc, x): return NOT(boolify_v(cc.it.call_value(f, [x], cc.st, cc.guard)))
    return search(c, v, t, lambda cc, x: FALSE, TRUE)
def any_(c):
    f = c.args[1]
    v = iterref(c)
    def t(cc, x): return boolify_v(cc.it.call_value(f, [x], cc.st, cc.guard))
    return search(c, v, t, lambda cc, x: TRUE, FALSE)
def find_(c):
    f = c.args[1]
    v = iterref(c)
    def t(cc, x): return boolify_v(cc.it.call_value(f, [cc.it.temp(cc.st, x)], cc.st, cc.guard))
    return search(c, v, t, lambda cc, x: some(x), NONE)
def position(c):
    f = c.args[1]
    v = itv('enum', iterref(c), I(0))
    def t(cc, x): return boolify_v(cc.it.call_value(f, [proj(x, ('f', 1))], cc.st, cc.guard))
    return search(c, v, t, lambda cc, x: some(proj(x, ('f', 0))), NONE)
def iterref(c):
    """iterator passed by &mut: its current value (the consumed rest is not tracked)"""
    p = c.args[0]
    v = content(c, p) if p.op == 'ref' else p
    return v if isit(v) else wrap(c, v, None)
M[IT + 'position'] = position
M[IT + 'all'] = all_; M[IT + 'any'] = any_; M[IT + 'find'] = find_
def find_map(c):
    f = c.args[1]; v = iterref(c); rb = newbase(c, UNIT)
    def t(cc, x):
        cc.st[rb] = cc.it.call_value(f, [x], cc.st, cc.guard)
        return eq(discr(cc.st[rb], 2), I(1))
    r = search(c, v, t, lambda cc, x: cc.st[rb], NONE); c.st.pop(rb, None)
    return r
M[IT + 'find_map'] = find_map; M[IT + 'try_fold'] = try_fold; M[IT + 'try_for_each'] = try_fold
M[IT + 'fold'] = fold; M[IT + 'count'] = count
M[IT + 'sum'] = lambda c: summer(c, '+'); M[IT + 'product'] = lambda c: summer(c, '*')
M[IT + 'collect'] = collect
M['<T as std::array::SpecArrayClone>::clone'] = lambda c: content(c, c.args[0])

import re
_ITIMPL = re.compile(r"^(?:<std::(?:iter|slice|vec|ops|array|option|str)::.* as std::iter::(?:Double)?(?:DoubleEnded)?(?:ExactSize)?Iterator>|std::iter::range::<impl std::iter::Iterator for .*>)::(\w+)$")
def iter_method(name):
    def nx(c):
        p = c.args[0]
        v = content(c, p)
        if not isit(v): return NotImplemented
        sub_ = Sub(c, c.st, c.guard)
        g, x, n, s = inext(sub_, v)
        setc(c, p, ite(g, n, v))
        if s is not FALSE:
            c.it.pending_skip = AND(g, s)
        return option(g, x)
    T = {'next': nx, 'for_each': for_each, 'fold': fold, 'count': count, 'all': all_, 'any': any_, 'find': find_, 'position': position, 'find_map': find_map, 'try_fold': try_fold, 'try_for_each': try_fold,
         'sum': lambda c: summer(c, '+'), 'collect': collect, 'len': lambda c: mk('itlen', c.it.content(c.st, c.args[0]))}
    return T.get(name)
class Models(dict):
    def get(self, d, default=None):
        r = dict.get(self, d)
        if r is not None: return r
        m = _ITIMPL.match(d)
        if m:
            f = iter_method(m.group(1))
            if f is not None: self[d] = f
            elif IT + m.group(1) in self: f = self[IT + m.group(1)]
            return f
        return default

# ---------------------------------------------------------------- vector registers: loads, stores and gathers are memory
# accesses through a typed pointer; everything else about them stays the name of the instruction (simd.py gives the bits)
_V = 'std::arch::x86_64::'
def constarg(c):
    m = re.findall(r'Some\((\d+)\)', str(c.inst['args']))
    return int.from_bytes(bytes(int(x) for x in m[:4]), 'little') if m else 0
@model(*[_V + x for x in ('_mm256_load_si256', '_mm256_loadu_si256', '_mm256_lddqu_si256', '_mm_load_si128', '_mm_loadu_si128', '_mm_lddqu_si128')])
def _(c): return content(c, c.args[0])
@model(*[_V + x for x in ('_mm256_store_si256', '_mm256_storeu_si256', '_mm_store_si128', '_mm_storeu_si128')])
def _(c): setc(c, c.args[0], c.args[1]); return UNIT
def gather(c, n):
    k = constarg(c)
    if k != 4:
        p = c.args[0]
        if p.op != 'eptr' or p.args[1] is not I(0): return NotImplemented
        a = content(c, p.args[0])
        if a.op != 'view': return NotImplemented
        return mk('gather', a.args[3], 0, k, c.args[1], a.args[1], n)
    return mk('vec32', tuple(content(c, padd(c.args[0], mk('lane32', c.args[1], i))) for i in range(n)))
@model(_V + '_mm256_i32gather_epi32')
def _(c): return gather(c, 8)
@model(_V + '_mm_i32gather_epi32')
def _(c): return gather(c, 4)
def _vop(name):
    M[_V + name] = lambda c: mk('vop', name, constarg(c), tuple(c.args))
for _b in ('_mm256_', '_mm_'):
    for _n in ('and', 'or', 'xor', 'andnot', 'setzero'): _vop(_b + _n + '_si' + ('256' if _b == '_mm256_' else '128'))
    for _n in ('add', 'sub', 'slli', 'srli', 'extract', 'set1'):
        for _w in ('epi32', 'epi64', 'epi64x'): _vop(_b + _n + '_' + _w)
for _n in ('_mm256_set_m128i', '_mm256_setr_m128i', '_mm256_castsi256_si128', '_mm256_extracti128_si256', '_mm256_broadcastsi128_si256', '_mm256_broadcastq_epi64', '_mm256_broadcastd_epi32', '_mm_cvtsi128_si64', '_mm_cvtsi64_si128',
           '_mm256_set_epi64x', '_mm256_setr_epi64x', '_mm256_set_epi32', '_mm256_setr_epi32', '_mm256_permute2x128_si256', '_mm256_permute4x64_epi64', '_mm256_inserti128_si256', '_mm256_castsi128_si256', '_mm_unpackhi_epi64', '_mm_unpacklo_epi64'): _vop(_n)
MODELS = Models(M)
