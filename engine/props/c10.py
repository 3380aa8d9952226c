"""Slice store, histogram store and bit block store: every operation is extracted (at concrete element types, through a
client crate that names it) as a value graph over the whole store state - pointer, capacity, length, contents of the buffer,
free list, recorded ends - and compared with a bump allocator with reuse of freed ranges; the conditions under which views
are refused are compared as well."""
from core import *
from props.learner import states
A = [mk('arg', i) for i in range(5)]
RULE = 'value-graph equality with reference'
SLICES = (r'^slice_store::SliceStore(::<.*>)?::(aligned|alloc_slice|get_slice|get_slice_mut|get_two_slices_mut|free_slice|reset)$',)
def refused(r):
    """condition under which the operation does not return"""
    bad = FALSE
    for k, g, d, *_ in r['it'].events:
        if k == 'panic': bad = OR(bad, AND(g, d[0]))
        elif k == 'assert': bad = OR(bad, AND(g, NOT(d[1])))
    return bad
def calls(r, name):
    return [(e[1], e[2][2], e[2][0]) for e in r['it'].events if e[0] == 'call' and e[2][1] == name]
def one(c, key, pat, names, n, what, opq=(), views=False, call=None, public=True):
    f = c.fn(pat, public, prog=c.C)
    r = c.run(f, A[:n], opaque=opq, prog=c.C, rawmem=True)
    best = None
    for name in names:
        s = c.spec(name, A[:n], opaque=opq, like=c.C, rawmem=True)
        mark = len(c.obs)
        kw = dict(allow=opq + (r'^std::alloc::',), rule=RULE)
        a, b = states(r, None), states(s, None)
        x, y = calls(r, 'std::alloc::realloc'), calls(s, 'std::alloc::realloc')
        ret1, ret2 = r['ret'], s['ret']
        if len(x) == len(y) == 1:       # the buffer moved: compare how, then speak of the new buffer by one name
            c.same(key + '/moved/when', x[0][0], y[0][0], f['name'], what + ' (when the buffer has to grow)', **kw)
            for i, (p, q) in enumerate(zip(x[0][1], y[0][1])): c.same(key + '/moved/%d' % i, ite(x[0][0], p, I(0)), ite(x[0][0], q, I(0)), f['name'], what + ' (to what size the buffer grows)', **kw)
            new = mk('call', 'std::alloc::realloc', (), (mk('free', 'grown buffer'),))
            m1, m2 = {x[0][2]: new}, {y[0][2]: new}
            a = {subst(p, m1): subst(v, m1) for p, v in a.items()}; b = {subst(p, m2): subst(v, m2) for p, v in b.items()}
            ret1, ret2 = subst(ret1, m1), subst(ret2, m2)
        c.same(key + '/result', ret1, ret2, f['name'], what + ' (returned value)', **kw)
        for p in sorted(set(a) | set(b), key=lambda t: t.key):
            nm = re.sub(r'\W+', '.', show(p))[:60]
            c.same(key + '/state/' + nm, a.get(p, mk('deref', p)), b.get(p, mk('deref', p)), f['name'], what + ' (state)', **kw)
        if views: c.same(key + '/refused', refused(r), refused(s), f['name'], what + ': requests that are refused', **kw)
        if call:
            x, y = calls(r, call), calls(s, call)
            if len(x) != 1: c.ob(key + '/' + call, VIOLATED if not x else UNDET, f['name'], '%d calls of %s' % (len(x), call), RULE)
            else:
                c.same(key + '/call', x[0][2], y[0][2], f['name'], what + ' (%s)' % call, **kw)
                c.same(key + '/when', x[0][0], y[0][0], f['name'], what + ' (%s)' % call, **kw)
        mine = c.obs[mark:]; del c.obs[mark:]
        rank = max([{PROVED: 0, UNDET: 1, VIOLATED: 2}[o['status']] for o in mine] or [0])
        if best is None or rank < best[0]: best = (rank, mine)
        if not rank: break
    c.obs.extend(best[1])
def check(c):
    for key, names, n, what, kw in (
        ('new', ['u_natural'], 1, 'an empty store', {}),
        ('aligned', ['u_made'], 2, 'an empty store with the given alignment', {}),
        ('get', ['u_view'], 2, 'view of a range', dict(views=True)),
        ('get_mut', ['u_view_mut'], 2, 'view of a range', dict(views=True)),
        ('two', ['u_views'], 3, 'two views', dict(views=True)),
        ('alloc', ['u_alloc', 'u_alloc_short'], 3, 'an allocation', {}),
        ('alloc_default', ['u_alloc_default', 'u_alloc_default_short'], 2, 'an allocation of default values', {}),
        ('free', ['u_free'], 2, 'freeing a range', {}),
        ('reset', ['u_reset'], 1, 'dropping all ranges', {})):
        c.guard(key, lambda: one(c, 'store/' + key, r'^client::store::%s$' % key, names, n, what, **kw))
    c.guard('store/drop', lambda: one(c, 'store/drop', r'^<bitboost::slice_store::SliceStore<u32> as std::ops::Drop>::drop$', ['u_drop'], 1, 'releasing the buffer', call='std::alloc::dealloc', public=False))
    for key, name, n, what, v in (('new', 'h_new', 1, 'layout of the histograms of a node', False), ('get', 'h_get', 3, 'histogram of a feature', True),
        ('get_mut', 'h_get_mut', 3, 'histogram of a feature', True), ('sub', 'h_sub', 4, 'difference of histograms', False),
        ('alloc', ('h_alloc', 'h_alloc_short'), 1, 'histograms for a node', False), ('free', 'h_free', 2, 'freeing the histograms of a node', False), ('reset', 'h_reset', 1, 'dropping all histograms', False)):
        c.guard('hist/' + key, lambda: one(c, 'hist/' + key, r'^client::hist::%s$' % key, [name] if isinstance(name, str) else name, n, what, views=v))
    for key, name, n, what in (('new', 'b_new', 1, 'an empty block store'), ('zero_blocks', 'b_zero_blocks', 2, 'zero blocks'), ('zero_bits', 'b_zero_bits', 2, 'zero bits'),
        ('one_blocks', 'b_one_blocks', 2, 'blocks of ones'), ('free', 'b_free', 2, 'freeing blocks'), ('reset', 'b_reset', 1, 'dropping all blocks'),
        ('get', 'b_view', 2, 'view of blocks'), ('get_mut', 'b_view_mut', 2, 'view of blocks'), ('two', 'b_views', 3, 'two views of blocks')):
        c.guard('bits/' + key, lambda: one(c, 'bits/' + key, r'^client::bits::%s$' % key, [name], n, what, SLICES))
    for w in (1, 2, 4, 8):
        c.guard('bits/slice%d' % w, lambda: one(c, 'bits/slice%d' % w, r'^client::l%d::store_alloc$' % w, ['b_zero_slice%d' % w], 2, 'storage for packed values', SLICES))
