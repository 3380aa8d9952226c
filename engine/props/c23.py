"""Binner::new composed with each operation is extracted as a value graph over (bins, limits, arguments) and compared with
the reference: bin of a value, insertion into exactly that bin, read back, lower boundary of a bin, single rank queries
and two rank queries in a row on one iterator."""
from core import *
RULE = 'value-graph equality with reference'
A = [mk('arg', i) for i in range(6)]
SELF = ('L', -1)
def check(c):
    for T in ('u32', 'f32'):
        for op in ('get_bin', 'bin_representative', 'bin_value', 'insert'):
            c.guard('%s/%s' % (T, op), lambda: one(c, T, op))
    c.guard('u32/bin_with_rank', lambda: rank(c))
    c.guard('u32/rank_iter', lambda: ranks(c))
def fn(c, T, op, suffix='$'):
    return c.fn(r'^bitboost::binner::Binner::<[^>]*\b%s>::%s%s' % (T, op, suffix))
def made(c, T):
    r = c.run(fn(c, T, 'new'), A[:2])
    st = dict(r['st']); st[SELF] = r['ret']
    return st
def one(c, T, op):
    if op in ('get_bin', 'bin_value') and not c.P.find(r'Binner::<[^>]*\b%s>::%s$' % (T, op)): return
    f = fn(c, T, op, '::<' if op == 'insert' else '$'); w = f['name']
    r = c.run(f, [mk('ref', SELF, ())] + A[2:5] if op == 'insert' else [mk('ref', SELF, ()), A[2]], made(c, T))
    n = length(mk('deref', A[0]))
    if op == 'get_bin': s = c.spec('bin_of', [proj(A[1], ('f', 0)), proj(A[1], ('f', 1)), n, A[2]])['ret']; g = r['ret']
    elif op == 'bin_representative': s = c.spec('bin_left', [n, A[1], A[2]])['ret']; g = r['ret']
    elif op == 'bin_value': s = c.spec('bin_at', [A[0], A[2]])['ret']; g = r['ret']
    else:
        q = c.spec('bin_add_' + T, A[:4]); s = q['it'].deref(q['st'], A[0]); g = r['it'].deref(r['st'], A[0])
    c.same('%s/%s' % (T, op), g, s, w, op, rule=RULE)
    if op != 'insert': c.same('%s/%s/pure' % (T, op), r['it'].deref(r['st'], A[0]), mk('deref', A[0]), w, op + ' leaves the bins alone', rule=RULE)
def rank(c):
    f = fn(c, 'u32', 'bin_with_rank', '::<')
    r = c.run(f, [mk('ref', SELF, ()), A[2], A[3]], made(c, 'u32'))
    c.same('u32/bin_with_rank', r['ret'], c.spec('bin_rank', [A[0], A[2]])['ret'], f['name'], 'first bin whose accumulated weight exceeds the rank', rule=RULE)
def ranks(c):
    f = fn(c, 'u32', 'rank_iter', r'::<u32, std::iter::Cloned<std::slice::Iter')
    it = c.spec('rank_list', [A[2]])['ret']
    r = c.run(f, [mk('ref', SELF, ()), it, A[3]], made(c, 'u32'))
    nx = c.fn(r'RankIter<[^>]*, u32, u32, std::iter::Cloned<std::slice::Iter.* as std::iter::Iterator>::next$')
    st = dict(r['st']); me = ('L', -2); st[me] = r['ret']
    got = []
    for k in range(2):
        q = c.run(nx, [mk('ref', me, ())], st)
        got.append(q['ret']); st = dict(q['st'])
    s = c.spec('bin_queries', [A[0], A[2]])['ret']
    n = length(mk('deref', A[2]))
    for k in range(2):
        c.same('u32/rank_iter/%d' % k, got[k], proj(s, ('f', k)), nx['name'], 'answer %d of consecutive rank queries' % (k + 1), rule=RULE)
