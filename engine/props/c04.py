"""Booster::new followed by Booster::train is extracted as one value graph (objective calls, dataset
refresh, tree learner and metric evaluation kept as calls on explicit states) and compared with the
reference boosting loop: returned model, final objective state, and the guarded metric evaluations."""
from core import *
OP = (r'^dataset::Dataset::(new|update|get_supercats)$', r'^tree::learner::TreeLearner::(new|train)$', r'^tree::learner::TreeLearnerContext::new$',
      r'^data::Data::get_target$', r'^objective::Objective::', r'^metric::Metric::eval$')
RULE = 'value-graph equality with reference'
A = [mk('arg', i) for i in range(4)]
def evs(es, pat, loops=()):
    out = []
    for e in es:
        if e[0] == 'loop': out += evs(e[2][3], pat, loops + ((e[2][0], e[2][2], e[1]),))
        elif e[0] == 'call' and re.search(pat, e[2][1]): out.append((loops, e[1], e[2][0]))
    return out
def canon(x):
    """event as one term with its loop counters numbered by depth"""
    loops, g, t = x
    m = {}
    for _, _, lg in loops: g = AND(lg, g)
    v = mk('agg', 'ev', 0, (g, t) + tuple(n for n, _, _ in loops))
    for i, (n, k, _) in enumerate(loops): m[k] = mk('k', 900 + i)
    return subst(v, m)

def check(c):
    c.guard('boost', lambda: boost(c))
def boost(c):
    new = c.fn(r'^bitboost::boost::Booster(::<.*>)?::new$'); tr = c.fn(r'^bitboost::boost::Booster(::<.*>)?::train$')
    r0 = c.run(new, A, opaque=OP)
    r = c.run(tr, [r0['ret']], r0['st'], opaque=OP)
    s = c.spec('boost', A, opaque=OP)
    w = tr['name']
    c.same('boost/ensemble-bias', c.fld(r['ret'], 'tree::AdditiveTree', 'bias'), c.fld(s['ret'], 'tree::AdditiveTree', 'bias'), w, 'initial value of the model', allow=OP, rule=RULE)
    c.same('boost/trees', c.fld(r['ret'], 'tree::AdditiveTree', 'trees'), c.fld(s['ret'], 'tree::AdditiveTree', 'trees'), w, 'one tree per iteration from the current gradients', allow=OP, rule=RULE)
    c.same('boost/objective-state', r['it'].deref(r['st'], A[2]), s['it'].deref(s['st'], A[2]), w, 'final state of the objective', allow=OP, rule=RULE)
    a, b = evs(r['events'], r'metric::Metric::eval$'), evs(s['events'], r'metric::Metric::eval$')
    if not a: return c.ob('boost/metrics', VIOLATED, w, 'metrics are never evaluated', RULE)
    if len(a) != 1: return c.ob('boost/metrics', UNDET, w, '%d evaluation sites' % len(a), RULE)
    c.same('boost/metrics', canon(a[0]), canon(b[0]), w, 'metrics are evaluated on target and running predictions at multiples of the frequency', allow=OP, rule=RULE)
