"""The name registries are extracted as decision tables over the lower-cased name; each documented
spelling is looked up in the table, unknown names must yield nothing, and the reported name of every
implementation is checked.  The list lookup is compared with its reference (all or nothing, in order)."""
from core import *
RULE = 'decision-table lookup'
OBJ = {'l2': 'L2', 'l1': 'L1', 'huber': 'Huber', 'binary': 'Binary', 'hinge': 'Hinge'}
MET = {'l2': 'L2', 'rmse': 'Rmse', 'binaryloss': 'BinaryLoss', 'binary_loss': 'BinaryLoss', 'binaryerror': 'BinaryError',
       'binary_error': 'BinaryError', 'binaryerror01': 'BinaryError01', 'binary_error01': 'BinaryError01'}
DEF = {'l2': 'Rmse', 'l1': 'Rmse', 'huber': 'Rmse', 'binary': 'BinaryLoss'}

def table(c, key, fn, expect, kind):
    def go():
        f = c.fn('^bitboost::%s$' % fn)
        r = c.run(f); v = r['ret']; w = f['name']
        subj = set()
        lits = set()
        for x in find_all(v, lambda x: x.op == 'eqt'):
            for a, b in ((x.args[0], x.args[1]), (x.args[1], x.args[0])):
                if b.op == 's': lits.add(b.args[0]); subj.add(a)
        if len(subj) != 1: return c.ob(key, UNDET, w, 'not a table over one string', RULE)
        s = subj.pop()
        low = s.op == 'ret' and s.args[0].op == 'call' and re.search(r'to_(ascii_)?lowercase$', s.args[0].args[0]) and s.args[0].args[2][0] is mk('arg', 0)
        if low: c.ob(key + '/case', PROVED, w, 'case-insensitive', RULE)
        else: c.ob(key + '/case', VIOLATED if s is mk('deref', mk('arg', 0)) or s is mk('arg', 0) else UNDET, w, 'table is not over the lower-cased argument: ' + show(s)[:200], RULE)
        for n in sorted(set(expect) | lits):
            x = subst(v, {s: S(n)})
            got = None
            if x.op == 'agg' and x.args[0] == 'std::option::Option':
                if x.args[1] == 0: got = '-'
                else:
                    b = x.args[2][0]
                    if b.op == 'box': b = b.args[0]
                    if b.op == 'agg': got = str(b.args[0]).split('::')[-1]
            k = '%s/%s' % (key, n)
            if got is None: c.ob(k, UNDET, w, 'unresolved ' + show(x)[:200], RULE)
            elif n in expect:
                c.ob(k, PROVED if got == expect[n] else VIOLATED, w, '%r -> %s (documented %s)' % (n, got, expect[n]), RULE)
            # an additional spelling is allowed
        x = subst(v, {s: S('\0no such name')})
        c.ob(key + '/unknown', PROVED if x.op == 'agg' and x.args[1] == 0 else VIOLATED if x.op == 'agg' else UNDET, w, 'unknown name -> ' + show(x)[:100], RULE)
    c.guard(key, go)

def check(c):
    table(c, 'objective_from_name', 'objective::objective_from_name', OBJ, 'Objective')
    table(c, 'metric_from_name', 'metric::metric_from_name', MET, 'Metric')
    table(c, 'metric_for_objective', 'metric::metric_for_objective', DEF, 'Metric')
    for mod, tr, names in (('objective', 'Objective', sorted(set(OBJ.values()))), ('metric', 'Metric', sorted(set(MET.values())))):
        for n in names:
            def go():
                f = c.fn(r'^<bitboost::%s::%s as bitboost::%s::%s>::name$' % (mod, n, mod, tr))
                r = c.run(f); v = r['it'].deref(r['st'], r['ret'])
                k = 'name/%s/%s' % (mod, n)
                if v.op != 's': return c.ob(k, UNDET, f['name'], show(v)[:100], RULE)
                # the reported name must be accepted by the registry and resolve to the same thing
                tab = OBJ if mod == 'objective' else MET
                c.ob(k, PROVED if tab.get(v.args[0].lower()) == n else VIOLATED, f['name'], 'reports %r' % v.args[0], RULE)
            c.guard('name/%s/%s' % (mod, n), go)
    def lst():
        O = (r'^metric::metric_from_name$',)
        f = c.fn('^bitboost::metric::metrics_from_names$')
        r = c.run(f, opaque=O); s = c.spec('metrics_from_names', r['args'], opaque=O)
        c.same('metrics_from_names', r['ret'], s['ret'], f['name'], 'all-or-nothing lookup in order', allow=O, rule='value-graph equality with reference')
    c.guard('metrics_from_names', lst)
