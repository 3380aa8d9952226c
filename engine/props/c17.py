"""For every objective the initial value, the per-example gradient, the gradient bounds and the leaf
value (with its update of the running predictions) are extracted as value graphs from the trait
methods and compared with the reference definitions of the loss."""
from core import *
OBJ = 'bitboost::objective::'
def meth(c, o, m): return c.fn(r'^<%s%s as %sObjective>::%s$' % (OBJ, o, OBJ, m))
RULE = 'value-graph equality with reference'
A0, A1, A2 = mk('arg', 0), mk('arg', 1), mk('arg', 2)

def check(c):
    for o in ('L2', 'L1', 'Huber', 'Binary', 'Hinge'):
        for part in (init, update, leaf, oob):
            c.guard('objective/%s/%s' % (o, part.__name__), lambda: part(c, o))

def locs(c, o, *fs): return [c.floc(A0, OBJ + o, f) for f in fs]
def refs(c, o, *fs): return [c.ref(l) for l in locs(c, o, *fs)]

def init(c, o):
    f = meth(c, o, 'initialize')
    r = c.run(f)
    w = f['name']; k = 'objective/%s/init/' % o
    cfg, t = A1, A2
    bias = {'L2': 'l2_bias', 'L1': 'l1_bias', 'Huber': 'l1_bias', 'Binary': 'binary_bias', 'Hinge': 'hinge_bias'}[o]
    if o in ('L1', 'Huber'): s = c.spec(bias, [t] + refs(c, o, 'bins'))
    else: s = c.spec(bias, [t])
    b = c.rd(r, locs(c, o, 'bias')[0])
    c.same(k + 'bias', b, s['ret'], w, 'initial value', rule=RULE)
    n = length(mk('deref', t))
    p, g = [c.rd(r, l) for l in locs(c, o, 'predictions', 'gradients')]
    c.same(k + 'predictions', p, mk('tab', n, b, b.ht + 1), w, 'running predictions start at the initial value for every example', rule=RULE)
    c.same(k + 'gradients-len', length(g), n, w, 'one gradient per example', rule=RULE)
    lr = c.rd(r, locs(c, o, 'learning_rate')[0])
    c.same(k + 'learning-rate', lr, c.fld(mk('deref', cfg), 'config::Config', 'learning_rate'), w, 'configured learning rate', rule=RULE)
    if o == 'Huber':
        c.same(k + 'alpha', c.rd(r, locs(c, o, 'alpha')[0]), c.fld(mk('deref', cfg), 'config::Config', 'huber_alpha'), w, 'configured alpha', rule=RULE)
    if o == 'Binary':
        c.same(k + 'bound', c.rd(r, locs(c, o, 'bound')[0]), c.fld(mk('deref', cfg), 'config::Config', 'binary_gradient_bound'), w, 'configured gradient bound', rule=RULE)
    # accessors
    for m, fl in (('bias', 'bias'),):
        q = c.run(meth(c, o, m), [A0], r['st'])
        c.same(k + 'reported-' + m, q['ret'], c.rd(r, locs(c, o, fl)[0]), w, 'reported ' + m, rule=RULE)
    for m, fl in (('gradients', 'gradients'), ('predictions', 'predictions')):
        q = c.run(meth(c, o, m), [A0])
        c.same(k + 'reported-' + m, q['it'].deref(q['st'], q['ret']), mk('proj', mk('deref', A0), ('f', c.fidx(OBJ + o, fl))), w, 'reported ' + m, rule=RULE)

def lenfacts(c, o, t):
    m = {}
    for l in locs(c, o, 'predictions', 'gradients'):
        m[mk('len', proj(mk('deref', A0), l[1][0]))] = length(mk('deref', t))
    return m

def update(c, o):
    f = meth(c, o, 'update')
    r = c.run(f); w = f['name']; k = 'objective/%s/update/' % o
    t = A1; P, G = refs(c, o, 'predictions', 'gradients')
    fa = lenfacts(c, o, t)
    gl, pl = locs(c, o, 'gradients', 'predictions')
    g = c.rd(r, gl)
    same = lambda kk, a, b, what: c.same(k + kk, a, b, w, what, facts=fa, rule=RULE)
    same('predictions-kept', c.rd(r, pl), proj(mk('deref', A0), pl[1][0]), 'gradient update leaves predictions alone')
    bq = c.run(meth(c, o, 'bounds'), [A0], r['st'])
    bnd = bq['ret']
    lo, hi = proj(bnd, ('f', 0)), proj(bnd, ('f', 1))
    if o == 'L2':
        s = c.spec('l2_grad', [t, P, G])
        same('gradients', g, c.rd(s, gl), 'gradient of squared loss')
        for i in (0, 1): same('bounds%d' % i, proj(bnd, ('f', i)), proj(s['ret'], ('f', i)), 'gradient bounds')
    elif o == 'L1':
        s = c.spec('l1_grad', [t, P, G])
        same('gradients', g, c.rd(s, gl), 'gradient of absolute loss')
        lim = c.rd(r, locs(c, o, 'limits')[0])
        for i in (0, 1): same('limits%d' % i, proj(lim, ('f', i)), proj(s['ret'], ('f', i)), 'residual range')
        same('lo', lo, F(-1), 'bounds'); same('hi', hi, F(1), 'bounds')
    elif o == 'Huber':
        B_ = refs(c, o, 'bins')[0]
        al = proj(mk('deref', A0), locs(c, o, 'alpha')[0][1][0])
        s = c.spec('huber_delta', [t, P, B_, al])
        d = c.rd(r, locs(c, o, 'delta')[0])
        same('delta', d, s['ret'], 'transition point is the alpha-quantile of the residuals')
        s2 = c.spec('huber_limits', [t, P]); lim = c.rd(r, locs(c, o, 'limits')[0])
        for i in (0, 1): same('limits%d' % i, proj(lim, ('f', i)), proj(s2['ret'], ('f', i)), 'residual range')
        dd = mk('arg', 77)
        g1 = subst(g, {d: dd})
        tt = proj(mk('deref', t), ('i', mk('arg', 78))); pp = proj(proj(mk('deref', A0), pl[1][0]), ('i', mk('arg', 78)))
        st = step_of(c, g1, mk('arg', 78))
        if st is None: c.ob(k + 'gradients', UNDET, w, 'gradient loop shape')
        else: same('gradients', st[1], c.spec('huber_grad_step', [tt, pp, dd])['ret'], 'gradient of huber loss'); same('gradients-range', st[0], length(mk('deref', t)), 'all examples')
        same('lo', lo, fneg(d), 'bounds'); same('hi', hi, d, 'bounds')
    elif o == 'Binary':
        s = c.spec('binary_grad', [t, P, G])
        same('gradients', g, c.rd(s, gl), 'gradient of log loss')
        bd = proj(mk('deref', A0), locs(c, o, 'bound')[0][1][0])
        same('lo', lo, fneg(bd), 'bounds'); same('hi', hi, bd, 'bounds')
    else:
        s = c.spec('hinge_grad', [t, P, G])
        same('gradients', g, c.rd(s, gl), 'gradient of hinge loss')
        same('lo', lo, F(-1), 'bounds'); same('hi', hi, F(2), 'bounds')

def step_of(c, g, i):
    """array updated by a loop writing position k in iteration k: (count, value written at position i)"""
    if g.op == 'tab': return g.args[0], subst(g.args[1], {mk('k', g.args[2]): i})
    if g.op != 'fold' or len(g.args[1]) != 1: return None
    n, ins, steps, j, h = g.args
    s = steps[0]
    if s.op != 'store' or s.args[0] is not mk('bv', h, 0) or s.args[1] is not mk('k', h): 
        # store split over branches
        l = {}
        def leaf(x):
            if x.op == 'store' and x.args[0] is mk('bv', h, 0) and x.args[1] is mk('k', h): return x.args[2]
            raise Unsupported('loop step')
        v = lift('stepof#%d' % h, leaf, s)
    else: v = s.args[2]
    return n, subst(v, {mk('k', h): i})

def leaf(c, o):
    f = meth(c, o, 'predict_leaf_value')
    r = c.run(f); w = f['name']; k = 'objective/%s/leaf/' % o
    t, ex = A1, A2
    P, G = refs(c, o, 'predictions', 'gradients')
    d0 = mk('deref', A0)
    fl = lambda n: proj(d0, ('f', c.fidx(OBJ + o, n)))
    if o == 'L2': v = c.spec('l2_leaf', [t, P, ex])['ret']
    elif o == 'L1': v = c.spec('l1_leaf', [t, P, ex] + refs(c, o, 'bins') + [proj(fl('limits'), ('f', 0)), proj(fl('limits'), ('f', 1))])['ret']
    elif o == 'Huber': v = c.spec('huber_leaf', [t, P, ex] + refs(c, o, 'bins') + [proj(fl('limits'), ('f', 0)), proj(fl('limits'), ('f', 1)), fl('delta')])['ret']
    elif o == 'Binary': v = c.spec('binary_leaf', [G, ex, mk('arg', 79)])['ret']
    else: v = c.spec('hinge_leaf', [t, P, ex])['ret']
    if o == 'Binary':
        # any small positive regulariser of the denominator
        eps = [x.args[0] for x in find_all(r['ret'], lambda x: x.op == 'f') if 0 < x.args[0] < 1e-3]
        if len(set(eps)) == 1: v = subst(v, {mk('arg', 79): F(eps[0])})
    lr = fl('learning_rate')
    c.same(k + 'value', r['ret'], fmul(lr, v), w, 'returned leaf value = learning rate x optimal value', rule=RULE)
    s = c.spec('obj_apply_leaf', [P, ex, lr, v])
    pl = locs(c, o, 'predictions')[0]
    c.same(k + 'predictions', c.rd(r, pl), c.rd(s, pl), w, 'each selected example moves by exactly the leaf value', rule=RULE)

def oob(c, o):
    f = meth(c, o, 'update_out_of_bag_prediction')
    r = c.run(f)
    P = refs(c, o, 'predictions')[0]; pl = locs(c, o, 'predictions')[0]
    s = c.spec('obj_oob', [P, A1, A2])
    c.same('objective/%s/oob' % o, c.rd(r, pl), c.rd(s, pl), f['name'], 'one example moves by the given value', rule=RULE)
