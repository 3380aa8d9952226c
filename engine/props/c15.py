"""The column tables (limits, cardinalities, kinds, names, counts) that loading and replacing columns leave behind are
extracted as value graphs and compared, table by table, with the reference; so are the accessors and the number
of bins reserved per feature."""
from core import *
import models
from interp import okv
RES = 'std::result::Result'
CSV = r'^csv::(?!StringRecord::(get|len|iter|is_empty)$)'
FS = r'FromStr'
RULE = 'value-graph equality with reference'
A = [mk('arg', i) for i in range(5)]
SHAPES = ((1, 1), (1, 2), (2, 1), (2, 2))

def check(c):
    for n, w in SHAPES: c.guard('shape/%d/%d' % (n, w), lambda: shaped(c, n, w))
    c.guard('load', lambda: load(c))
    c.guard('empty', lambda: empty(c))
    for n in (1, 2): c.guard('set/%d' % n, lambda: setcol(c, n))
    c.guard('set', lambda: setcol(c))
    for n in ('max_nbins', 'nfeatures', 'nexamples', 'target_id', 'feat_limits', 'feat_type', 'feat_card', 'feat_name', 'get_feature', 'get_target'):
        c.guard(n, lambda: accessor(c, n))

FIELDS = ('max_nbins', 'names', 'nfeatures', 'nexamples', 'features', 'limits', 'ftypes', 'cards')
def loaded(c):
    f = c.fn(r'^bitboost::data::Data::from_csv$'); op = (CSV, FS)
    return f, c.run(f, A[:2], opaque=op), c.spec('data_spec::from_csv', A[:2], opaque=op), op
def okfield(c, v, name):
    """a field of the loaded data, wherever loading succeeds"""
    i = c.fidx('data::Data', name)
    def g(x):
        if x.op == 'agg': return ERR if x.args[1] == 1 else proj(x.args[2][0], ('f', i))
        return x
    return lift('okf%d' % i, g, v)
def load(c, fields=FIELDS):
    f, r, s, op = loaded(c); w = f['name']
    for n in fields:
        c.same('load/' + n, okfield(c, r['ret'], n), okfield(c, s['ret'], n), w, '%s of the loaded data' % n, allow=op, rule=RULE, unless=['shape/%d/%d/%s' % (x, y, n) for x, y in SHAPES])
def empty(c):
    f = c.fn(r'^bitboost::data::Data::empty$'); w = f['name']
    r = c.run(f, A[:3]); s = c.spec('data_spec::empty', A[:3])
    for n in FIELDS:
        if n == 'names': continue
        i = ('f', c.fidx('data::Data', n))
        c.same('empty/' + n, proj(r['ret'], i), proj(s['ret'], i), w, '%s of an empty data set' % n, rule=RULE)
def setcol(c, n=None):
    f = c.fn(r'^bitboost::data::Data::set_feature_data$'); w = f['name']; key = 'set' if n is None else 'set/%d' % n
    st = {}; kw = {}
    if n is not None:       # n examples, every round of the loop explicit
        kw = {'unroll': n + 1}
        fs = ('f', c.fidx('data::Data', 'features')); d = upd(mk('deref', A[0]), ('f', c.fidx('data::Data', 'nexamples')), I(n))
        st = {('O', A[0]): upd(d, fs, mk('store', proj(d, fs), A[1], mk('arr', tuple(mk('arg', 50 + i) for i in range(n))))), ('O', A[2]): mk('arr', tuple(mk('arg', 70 + i) for i in range(n)))}
    r = c.run(f, A[:4], st, **kw); s = c.spec('data_spec::set_feature_data', A[:4], st, **kw)
    c.same(key + '/result', shape(r['ret'], True), shape(s['ret'], True), w, 'error exactly for invalid categories', rule=RULE, unless=['set/1/result', 'set/2/result'] if n is None else ())
    x, y = states_of(r).get(A[0], mk('deref', A[0])), states_of(s).get(A[0], mk('deref', A[0]))
    ok = eq(discr(s['ret'], 2), I(0))
    small = n is None
    for n in FIELDS:
        i = ('f', c.fidx('data::Data', n))
        c.same(key + '/' + n, ite(ok, proj(x, i), UNIT), ite(ok, proj(y, i), UNIT), w, '%s after replacing a column' % n, rule=RULE, unless=['set/1/' + n, 'set/2/' + n] if small else ())
def accessor(c, n):
    f = c.fn(r'^bitboost::data::Data::%s$' % n); a = A[:c.P.bodies[f['id']]['argc']]
    r = c.run(f, a); s = c.spec('data_spec::' + n, a)
    c.same('accessor/' + n, r['ret'], s['ret'], f['name'], n, rule=RULE)
def reader_of(n, w):
    """the record reader over n records of w fields each; whether reading record i fails is unknown (but depends on the text
    and on how the reader was set up)"""
    recs = [mk('arr', tuple(mk('arg', 100 + 10 * i + j) for j in range(w))) for i in range(n)]
    head = mk('arr', tuple(mk('arg', 90 + j) for j in range(w)))
    def put(c, a, v):
        for cond, l in c.it.locs_of_ptr(a): c.it.write(c.st, l, v)
    def new(c): return agg('csv-builder', 0, (TRUE, I(44)))
    def option_(k):
        def f(c):
            b = models.deref1(c, c.args[0])
            if b.op != 'agg': raise models.Unsupported('reader set-up')
            put(c, c.args[0], agg('csv-builder', 0, tuple(models.boolify_v(c.args[1]) if k == i == 0 else c.args[1] if i == k else x for i, x in enumerate(b.args[2]))))
            return c.args[0]
        return f
    def from_reader(c): return agg('csv-reader', 0, (I(0), c.it.content(c.st, c.args[0]), models.deref1(c, c.args[1])))
    def bad(c, i):
        p = models.deref1(c, c.args[0])
        return mk('B', mk('badrecord', I(i), *p.args[2][1:]))
    def err(i): return agg(RES, 1, (mk('csverr', I(i)),))
    def read_record(c):
        v = models.deref1(c, c.args[0])
        if v.op != 'agg' or v.args[2][0].op != 'i': raise models.Unsupported('reader position')
        i = v.args[2][0].args[0]; e = bad(c, i)
        put(c, c.args[0], agg('csv-reader', 0, (I(min(i + 1, n)),) + v.args[2][1:]))
        put(c, c.args[1], recs[i] if i < n else mk('arr', ()))
        return ite(e, err(i), agg(RES, 0, (B(i < n),)))
    def headers(c): return ite(bad(c, 99), err(99), okv(c.it.temp(c.st, head)))
    def records(c):
        xs = tuple(ite(bad(c, i), err(i), agg(RES, 0, (recs[i],))) for i in range(n))
        return mk('agg', 'it:seq', 0, (mk('arr', xs), I(0), I(n)))
    return {'csv::ReaderBuilder::new': new, 'csv::ReaderBuilder::has_headers': option_(0), 'csv::ReaderBuilder::delimiter': option_(1),
            'csv::ReaderBuilder::from_reader': from_reader, 'csv::Reader::<R>::read_record': read_record, 'csv::Reader::<R>::headers': headers,
            'csv::StringRecord::new': lambda c: mk('arr', ()), 'csv::Reader::<R>::records': records, 'csv::Reader::<R>::into_records': records}

def explicit(c, n, w):
    """loading n records of w unknown fields; one categorical index, possibly beyond the last column"""
    f = c.fn(r'^bitboost::data::Data::from_csv$')
    new = reader_of(n, w); old = {k: models.MODELS.get(k) for k in new}
    op = (r'^csv::(?!StringRecord::|Reader::<R>::|ReaderBuilder::(new|has_headers|delimiter|from_reader)$)', FS)
    st = {('O', A[0]): upd(mk('deref', A[0]), ('f', c.fidx('config::Config', 'categorical_features')), mk('arr', (mk('arg', 60),)))}
    try:
        models.MODELS.update(new)
        r = c.run(f, A[:2], st, opaque=op, unroll=4); s = c.spec('data_spec::from_csv', A[:2], st, opaque=op, unroll=4)
    finally:
        for k, v in old.items():
            if v is None: models.MODELS.pop(k, None)
            else: models.MODELS[k] = v
    return f, r, s, op, 'shape/%d/%d' % (n, w)
def shaped(c, n, w):
    f, r, s, op, key = explicit(c, n, w)
    for fld in FIELDS:
        c.same(key + '/' + fld, okfield(c, r['ret'], fld), okfield(c, s['ret'], fld), f['name'], '%s of %d records of %d fields' % (fld, n, w), allow=op, rule='value-graph equality with reference, explicit shape')
