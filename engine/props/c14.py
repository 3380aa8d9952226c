"""Loading is compared with its reference definition: the same inputs succeed and fail, and a success has every
record's values, in order.  Unbounded: the whole loading loop as one value graph.  In addition, with unknown contents but
explicit shapes (0 to 2 records of 1 or 2 columns, header or not), every panic condition must be unreachable."""
from core import *
from props import c15
from props.c15 import explicit
RULE = 'value-graph equality with reference'
CSV, FS = c15.CSV, c15.FS
A = [mk('arg', i) for i in range(5)]

def check(c):
    for n, w in ((0, 1),) + c15.SHAPES:
        c.guard('shape/%d/%d' % (n, w), lambda: shaped(c, n, w))
    c.guard('load', lambda: load(c))
    for key, name, pat, op in (('path', 'path', r'^bitboost::data::Data::from_csv_path$', (r'^data::Data::from_csv_reader', r'^std::fs::File::open')),
                               ('reader', 'reader', r'^bitboost::data::Data::from_csv_reader::<std::fs::File>$', (r'^data::Data::from_csv$', r'read_to_string'))):
        c.guard(key, lambda: source(c, key, name, pat, op))

def load(c):
    f, r, s, op = c15.loaded(c)
    c.same('load/result', result(r['ret']), result(s['ret']), f['name'], 'success or error (the message is free)', allow=op, rule=RULE,
           unless=['shape/%d/%d/result' % x for x in ((0, 1),) + c15.SHAPES])
    c15.load(c, ('features', 'nexamples', 'nfeatures'))
def result(v):
    def g(x): return (ERR if x.args[1] == 1 else OKU) if x.op == 'agg' else x
    return lift('okres', g, v)
def source(c, key, name, pat, op):
    f = c.fn(pat)
    r = c.run(f, A[:2], opaque=op); s = c.spec('data_spec::' + name, A[:2], opaque=op)
    c.same(key + '/result', shape(r['ret']), shape(s['ret']), f['name'], 'errors of the source are errors of the result', allow=op, rule=RULE)
    no_panic(c, key, r, f['name'], op)

def shaped(c, n, w):
    f, r, s, op, key = explicit(c, n, w); what = '%d records of %d fields' % (n, w)
    rule = 'value-graph equality with reference, explicit shape'
    c.same(key + '/result', result(r['ret']), result(s['ret']), f['name'], what, allow=op, rule=rule)
    for fld in ('features', 'nexamples', 'nfeatures'):
        c.same(key + '/' + fld, c15.okfield(c, r['ret'], fld), c15.okfield(c, s['ret'], fld), f['name'], '%s, %s' % (fld, what), allow=op, rule=rule)
    no_panic(c, key, r, f['name'], op)
