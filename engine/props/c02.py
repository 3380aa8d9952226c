"""Each C entry point is extracted with everything below it opaque (Data, Config, Booster, prediction) and compared with its
reference: result, the context afterwards (on success and on every failure), the caller's buffers with the length they are
read or written for, and what is released."""
from core import *
from props import c15
RULE = 'value-graph equality with reference'
OP = (r'^data::Data::(empty|set_feature_data)$', r'^config::Config::(new|parse_record)$', r'^boost::', r'^objective::', r'^metric::',
      r'predict_buf$', r'^std::alloc::', r'^std::io::_print')
ALLOW = OP + (r'^std::', r'CStr', r'^rawslice$')
ENTRY = {'bb_get_numt_nbytes': 'nbytes', 'bb_alloc': 'create', 'bb_dealloc': 'release', 'bb_refresh_data': 'refresh', 'bb_set_feature_data': 'column',
         'bb_set_config_field': 'option', 'bb_train': 'train', 'bb_predict': 'predict'}
A = [mk('arg', i) for i in range(6)]

RELEASE = re.compile(r'drop_in_place$|^std::alloc::dealloc$|::from_raw$|mem::forget$|::leak$|ManuallyDrop|^std::mem::drop$|^std::ptr::read$')
PLAIN = ('std::ptr::drop_in_place', 'std::alloc::dealloc')

def calls(es):
    for e in es:
        if e[0] == 'caught': e = e[1:]
        if e[0] == 'loop': yield from calls(e[2][3])
        elif e[0] == 'call': yield e
def released(r):
    return [(e[2][1], ite(e[1], e[2][0], UNIT)) for e in calls(r['it'].events) if RELEASE.search(e[2][1])]
def boxed(c):
    f = c.fn('^bitboost::c_api::bb_alloc$'); r = c.run(f, A[:1], opaque=OP)
    return not any(e[2][1] == 'std::alloc::alloc' for e in calls(r['it'].events))
def pair(c, name):
    f = c.fn('^bitboost::c_api::%s$' % name)
    n = c.P.bodies[f['id']]['argc']; ref = ENTRY[name]
    if name in ('bb_alloc', 'bb_dealloc') and boxed(c): ref += '_boxed'
    return f, c.run(f, A[:n], opaque=OP), c.spec('c_api::' + ref, A[:n], opaque=OP)
def check(c):
    for name in ENTRY: c.guard(name, lambda: one(c, name))
    # the staged data itself
    c.guard('empty', lambda: c15.empty(c))
    for n in (1, 2): c.guard('set/%d' % n, lambda: c15.setcol(c, n))
    c.guard('set', lambda: c15.setcol(c))
def one(c, name):
    f, r, s = pair(c, name); w = f['name']
    c.same(name + '/result', r['ret'], s['ret'], w, 'result', allow=ALLOW, rule=RULE)
    got, want = states_of(r), states_of(s)
    if name == 'bb_dealloc': got = want = {}            # what was released has no value
    for i, k in enumerate(sorted(set(got) | set(want), key=show)):
        c.same('%s/memory/%d' % (name, i), got.get(k, mk('deref', k)), want.get(k, mk('deref', k)), w, 'memory behind %s after the call' % show(k)[:60], allow=ALLOW, rule=RULE)
    a, b = released(r), released(s); rule = 'release operations of the call, in order'
    if [n for n, x in a] == [n for n, x in b]:
        for i, (x, y) in enumerate(zip(a, b)): c.same('%s/released/%d' % (name, i), x[1], y[1], w, x[0], allow=ALLOW, rule=rule)
        if not a: c.ob(name + '/released', PROVED, w, 'nothing is released by hand', rule)
    else:
        c.ob(name + '/released', VIOLATED if all(n in PLAIN for n, x in a) else UNDET, w,
             'releases %s, expected %s' % ([n for n, x in a], [n for n, x in b]), rule)
