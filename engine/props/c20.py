"""The command line program is extracted whole (library functions opaque) and compared with its reference: error or success for
every argument list and every outcome of the library calls, the numbers it prints from predictions (which model, which data,
how many), and reachable panics of its own."""
from core import *
from props import c13
import models
RULE = 'value-graph equality with reference'
LIB = (r'^(data|dataset|objective|metric|tree|boost|binner|slice_store)::(?!metric_from)', r'^config::Config::(new|parse_record)$', r'^std::io::_print', r'^pretty_env_logger', r'^cpu_time')
FMT = ('fmtarg', 'fmt_debug', 'fmt_lower_exp', 'fmt_upper_exp')
ALLOW = LIB + (r'^std::',)

def prints(es, loops=()):
    """numbers printed that come from predictions: (loops, condition, value); the text around them does not matter"""
    for e in es:
        if e[0] == 'loop': yield from prints(e[2][3], loops + ((e[2][0], e[2][2], e[1]),))
        elif e[0] == 'call' and e[2][1] == 'std::io::_print':
            for g, x in values(e[2][0], e[1]):
                if find_all(x, lambda y: y.op == 'call' and re.search(r'predict', y.args[0])): yield loops, g, x
def values(t, g):
    if t.op in FMT and not find_all(t.args[0], lambda y: y.op in FMT):
        yield g, t.args[0]
    elif t.op == 'ite':
        yield from values(t.args[1], AND(g, t.args[0])); yield from values(t.args[2], AND(g, NOT(t.args[0])))
    elif t.op == 'sw':
        for x in cases(t): yield from values(x[1], AND(g, x[0]))
    else:
        for x in kids(t): yield from values(x, g)
def cases(t):
    out = []; rest = TRUE
    for k, x in t.args[1]:
        out.append((keytest(t.args[0], k), x)); rest = AND(rest, NOT(keytest(t.args[0], k)))
    if t.args[2] is not None: out.append((rest, t.args[2]))
    return out
def kids(t):
    def go(a):
        if isinstance(a, Term): yield a
        elif isinstance(a, (tuple, list)):
            for b in a: yield from go(b)
    yield from go(t.args)
def canon(ls, *xs):
    m = {k: mk('k', 900 + i) for i, (n, k, _) in enumerate(ls)}
    return [subst(x, m) for x in xs] + [subst(n, m) for n, _, _ in ls]
def textual(t): return t.op in ('concat', 'fmt') or t.op == 'call' and not re.search(r'^(data|dataset|objective|metric|tree|boost|config)::', t.args[0])
def merged(es, across=False):
    """the same value printed by several exclusive sites of one loop (or of the whole program) is one print"""
    out = {}
    for ls, g, x in prints(es):
        for _, _, lg in ls: g = AND(lg, g)
        x, g, *ns = canon(ls, x, g)
        k = (x, tuple(ns), () if across else tuple(k for _, k, _ in ls)); out[k] = OR(out.get(k, FALSE), g)
    return [mk('agg', 'print', 0, (g, x) + ns) for (x, ns, _), g in out.items()]
def shared(x, y):
    """loop results that are the same value on both sides, given a name"""
    m = {}
    for i, f in enumerate(sorted(eqv.outer_folds(x) & eqv.outer_folds(y), key=lambda t: t.key)): m[f] = mk('arg', 500 + i)
    return subst(x, m), subst(y, m)
def same(c, key, x, y, w, what, rule):
    al = tuple(re.compile(z) for z in ALLOW)
    if eqv.decide(x, y, al, None)[0] == eqv.UNK:
        x, y = shared(x, y)
    return c.same(key, x, y, w, what, allow=ALLOW, rule=rule)
def check(c):
    c.guard('main', lambda: main(c))
    for n in (2, 3):            # the same for short argument lists, where every path is explicit
        c.guard('argv/%d' % n, lambda: argv(c, n))
    for n in (1, 2):
        seq = mk('agg', 'it:seq', 0, (mk('arr', tuple(mk('arg', 10 + i) for i in range(n))), I(0), I(n)))
        c.guard('options/%d' % n, lambda: c13.text(c, 'options/%d' % n, r'^bitboost::config::Config::parse$', 'config_spec::records', 1, [seq]))
def argv(c, n):
    B = c.bin('run_bitboost'); f = c.fn(r'(^|::)main$', prog=B, pick=lambda i: i['def'] == 'main')
    seq = mk('agg', 'it:seq', 0, (mk('arr', tuple(mk('arg', 10 + i) for i in range(n))), I(0), I(n)))
    k = 'std::env::args_os'; old = models.MODELS[k]
    try:
        models.MODELS[k] = lambda c: seq
        r = c.run(f, [], prog=B, opaque=LIB, unroll=5); s = c.spec('run_spec::main', [], like=B, opaque=LIB, unroll=5)
    finally: models.MODELS[k] = old
    same(c, 'argv/%d/result' % n, shape(r['ret'], True), shape(s['ret'], True), 'src/bin/run.rs main', 'success or error with %d arguments' % n, RULE + ', explicit arguments')
def main(c):
    B = c.bin('run_bitboost')
    f = c.fn(r'(^|::)main$', prog=B, pick=lambda i: i['def'] == 'main')
    r = c.run(f, [], prog=B, opaque=LIB); s = c.spec('run_spec::main', [], like=B, opaque=LIB)
    w = 'src/bin/run.rs main'
    same(c, 'main/result', shape(r['ret'], True), shape(s['ret'], True), w, 'success or error', RULE)
    no_panic(c, 'main', r, w, ALLOW)
    a, b = merged(r['events']), merged(s['events']); rule = 'values printed from predictions: condition, value, how often'
    if not a: return c.ob('main/output', VIOLATED, w, 'no prediction is printed or evaluated', rule)
    if len(a) != len(b):
        p, q = merged(r['events'], True), merged(s['events'], True)
        if len(p) == len(q): a, b = p, q
    left = list(a); text = [x for x in a if find_all(x.args[2][1], textual)]      # a number that is part of a longer text
    for i, y in enumerate(b):
        hit = [x for x in left if x is y or eqv.decide(x, y, tuple(re.compile(z) for z in ALLOW), None)[0] == eqv.EQ]
        if hit: left.remove(hit[0]); c.ob('main/output/%d' % i, PROVED, w, 'printed as expected', rule)
        elif len(a) == len(b) and not text: same(c, 'main/output/%d' % i, a[i], y, w, 'printed value', rule)
        else: c.ob('main/output/%d' % i, UNDET, w, '%d sites print numbers from predictions (%d as part of a text), expected %d' % (len(a), len(text), len(b)), rule)
