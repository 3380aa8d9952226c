"""Reading an option record is extracted as one value graph over (options, name, value); for every option the name
is put in for the argument and the result must be that option replaced by its parsed value (nothing else touched)
or, exactly when the value does not parse, an error with the options as they were; any other name is an error.
Lists, record splitting and record sequences are compared with their reference definitions.  Names, types and
defaults of the published table are compared with the fields of the option structure and the values of its constructor."""
from core import *
import csv, struct
FS = r'^<\w+ as std::str::FromStr>::from_str$'
RULE = 'decision table / value-graph equality with reference'
CFG = 'bitboost::config::Config'
A = [mk('arg', i) for i in range(3)]
SPECS = {'usize': 'one_usize', 'u64': 'one_u64', 'u32': 'one_u32', 'u8': 'one_u8', 'bool': 'one_bool', 'f32': 'one_f32',
         'std::string::String': 'one_string', 'std::vec::Vec<usize>': 'list_usize', 'std::vec::Vec<std::string::String>': 'list_string'}
PUB = {'NumT': 'f32', 'String': 'std::string::String', 'Vec<usize>': 'std::vec::Vec<usize>', 'Vec<String>': 'std::vec::Vec<std::string::String>'}

def fields(c):
    t = c.adt('config::Config')
    return [(f[0], c.P.types[f[1]]['s']) for f in t['variants'][0]['f']]
def norm_ty(s): return re.sub(r', std::alloc::Global|, alloc::alloc::Global', '', s)

def check(c):
    c.guard('record', lambda: record(c))
    for key, pat, name, n in (('record-text', r'^bitboost::config::Config::parse_record_str$', 'config_spec::record', 2),
                              ('records', r'^bitboost::config::Config::parse$', 'config_spec::records', 1)):
        c.guard(key, lambda: text(c, key, pat, name, n))
    for n in (0, 1, 2):           # the same for short sequences, where every path is explicit
        seq = mk('agg', 'it:seq', 0, (mk('arr', tuple(mk('arg', 10 + i) for i in range(n))), I(0), I(n)))
        c.guard('records/%d' % n, lambda: text(c, 'records/%d' % n, r'^bitboost::config::Config::parse$', 'config_spec::records', 1, [seq]))
    c.guard('table', lambda: defaults(c))
    c.guard('generator', lambda: generator(c))

def text(c, key, pat, name, n, args=None):
    op = (r'^config::Config::(new|parse_record)$', FS)
    f = c.fn(pat, key == 'records')
    a = args or A[:n]
    r = c.run(f, a, opaque=op); s = c.spec(name, a, opaque=op)
    c.same(key + '/result', shape(r['ret'], n == 2), shape(s['ret'], n == 2), f['name'], 'success or error (the message is free)', allow=op, rule=RULE)
    x, y = states_of(r), states_of(s)
    for p in sorted(set(x) | set(y), key=lambda t: t.key):
        c.same('%s/state/%s' % (key, show(p)[:40]), x.get(p, mk('deref', p)), y.get(p, mk('deref', p)), f['name'], 'options afterwards', allow=op, rule=RULE)
    no_panic(c, key, r, f['name'], op)

def record(c):
    f = c.fn(r'^bitboost::config::Config::parse_record$'); w = f['name']
    r = c.run(f, A)
    res = shape(r['ret'], True); old = mk('deref', A[0]); new = states_of(r).get(A[0], old)
    fs = fields(c)
    subj = [a for a in (A[1], mk('deref', A[1])) if contains(res, lambda t: t is a)]
    names = {}
    for x in find_all(mk('agg', 'p', 0, (res, new)), lambda x: x.op == 'eqt'):
        for a, b in ((x.args[0], x.args[1]), (x.args[1], x.args[0])):
            if b.op == 's' and a in (A[1], mk('deref', A[1])): names[b.args[0]] = 1
    def at(t, n): return subst(t, {A[1]: S(n), mk('deref', A[1]): S(n)})
    for n, ty in fs:
        ty = norm_ty(ty)
        if ty not in SPECS: c.ob('record/' + n, UNDET, w, 'no reference for type ' + ty, RULE); continue
        s = c.spec('config_spec::' + SPECS[ty], [A[2]])['ret']
        isn = eq(discr(s, 2), I(0))
        i = ('f', c.fidx('config::Config', n))
        c.same('record/%s/result' % n, at(res, n), ite(isn, ERR, OKU), w, 'error exactly when the value is malformed', allow=(FS,), rule=RULE)
        c.same('record/%s/options' % n, at(new, n), ite(isn, old, upd(old, i, proj(s, ('vf', 1, 0)))), w, 'exactly this option gets the parsed value', allow=(FS,), rule=RULE)
    for n in sorted(set(names) - {x for x, _ in fs}) + ['\0no such option']:
        what = 'unknown' if n[0] == '\0' else 'extra/' + n
        if what != 'unknown': continue       # an additional spelling is allowed
        c.same('record/%s/result' % what, at(res, n), ERR, w, 'unknown names are errors', allow=(FS,), rule=RULE)
        c.same('record/%s/options' % what, at(new, n), old, w, 'and change nothing', allow=(FS,), rule=RULE)
    no_panic(c, 'record', r, w, (FS,))

def f32(x): return struct.unpack('f', struct.pack('f', x))[0]
def value(v, ty):
    """python value of a constant option value"""
    if v.op == 's': return v.args[0]
    if v.op == 'i': return v.args[0]
    if v.op == 'f': return v.args[0]
    if v is TRUE: return True
    if v is FALSE: return False
    if v.op == 'arr': return [value(x, None) for x in v.args[0]]
    return None
def published(s, ty):
    if ty == 'std::string::String': return s
    if ty == 'bool': return {'True': True, 'False': False}.get(s, s)
    if ty == 'f32': return f32(float(s))
    if ty.startswith('std::vec::Vec'):
        if s == '[]': return []
        return None
    return int(s)

def defaults(c):
    path = os.path.join(REPO, 'python', 'bitboost_config.gen.csv')
    table(c, 'table', open(path).read(), path)

def table(c, key, text, path):
    f = c.fn(r'^bitboost::config::Config::new$'); w = f['name']
    r = c.run(f)
    rows = [x for x in csv.reader(text.splitlines())]
    rule = 'published table against constructor value and field types'
    tab = {x[0]: x for x in rows[1:] if len(x) >= 3}
    fs = fields(c)
    hd = rows[0][:3] == ['name', 'default', 'type']
    c.ob(key + '/header', PROVED if hd else VIOLATED, path, 'columns %s' % rows[0], rule)
    for n in tab:
        if n not in dict(fs): c.ob(key + '/' + n, VIOLATED, path, 'published option %r does not exist' % n, rule)
    for i, (n, ty) in enumerate(fs):
        ty = norm_ty(ty); k = key + '/' + n
        if n not in tab: c.ob(k, VIOLATED, w, 'option is not in the published table', rule); continue
        pt = PUB.get(tab[n][2], tab[n][2])
        c.ob(k + '/type', PROVED if pt == ty else VIOLATED, w, 'type %s, published as %s' % (ty, tab[n][2]), rule)
        v = value(proj(r['ret'], ('f', i)), ty)
        try: p = published(tab[n][1], ty)
        except ValueError: p = ('not a value', tab[n][1])
        if v is None or p is None: c.ob(k + '/default', UNDET, w, 'default is not a constant: %s' % show(proj(r['ret'], ('f', i)))[:100], rule); continue
        if ty == 'f32': v = f32(v)
        c.ob(k + '/default', PROVED if v == p and type(v) == type(p) else VIOLATED, w, 'default %r, published as %r' % (v, tab[n][1]), rule)

class NotConst(Exception): pass
def peel(t):
    while t.op in ('&', 'fmtarg'): t = t.args[0]
    return t
def display(t, real):
    if t.op == 's': return t.args[0]
    if t.op == 'i' and not real: return str(t.args[0])
    if t.op in ('f', 'i'):
        from decimal import Decimal
        x = f32(t.args[0])
        for p in range(1, 18):
            s = '%.*g' % (p, x)
            if f32(float(s)) == x: return format(Decimal(s), 'f')
    raise NotConst(show(t)[:80])
def template(t):
    """text of a constant format string with its arguments"""
    if t.op != 'fmt': raise NotConst(show(t)[:80])
    a = t.args[0]
    if len(a) == 1: return display(peel(a[0]), False)
    b = [x.args[0] for x in peel(a[0]).args[0]]; args = list(peel(a[1]).args[0]); out = ''; i = 0
    while b[i]:
        if b[i] < 0x80: out += bytes(b[i + 1:i + 1 + b[i]]).decode(); i += 1 + b[i]
        elif b[i] == 0xC0:
            x = args.pop(0); i += 1
            out += display(peel(x), peel(x).op == 'f')
        else: raise NotConst('format template %s' % b)
    return out
def generator(c):
    """the table the generator writes (constants only), every write succeeding"""
    P = c.bin('bitboost_gen_config_csv')
    f = c.fn(r'^bitboost::config::Config::write_doc_csv::<.*>$', prog=P); r = c.run(f, A, prog=P, opaque=(r'io::Write>?::write_(fmt|all)$',))
    text = ''; rule = 'constant evaluation of the emitted text'
    try:
        for e in r['events']:
            if e[0] == 'loop' and [x for x in e[2][3] if x[0] == 'call']: raise NotConst('a loop')
            if e[0] != 'call': continue
            if e[2][1].endswith('Write::write_fmt'): text += template(e[2][0].args[2][1])
            elif e[2][1].endswith('Write::write_all'): text += display(peel(e[2][0].args[2][1]), False)
    except NotConst as x: return c.ob('generator', UNDET, f['name'], 'emitted text is not constant: %s' % x, rule)
    if not text: return c.ob('generator', UNDET, f['name'], 'no output recognised', rule)
    table(c, 'generator', text, f['name'])
