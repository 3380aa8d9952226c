"""Training and prediction are deterministic: values whose origin is the clock, the environment, an entropy source, an address,
the iteration order of a randomly keyed hash table, a thread or a global variable are followed through the compiled crate and
must not reach a model, a prediction or loaded data; parallel sections may only use order preserving operations, and what they
write under a lock goes to a place determined by the item; every generator is seeded from the configured seed."""
from core import *
from taint import Taint
FLOW = 'flow of values by origin over the compiled crate (data and control)'
PAR = 'parallel operations and their closures'
SOURCES = [
    ('the clock', r'^(std::time::(Instant|SystemTime)(::now|.*::elapsed)|cpu_time::.*::(now|elapsed|try_now|try_elapsed)|std::time::Instant::now)'),
    ('the environment', r'^std::env::(var|vars|var_os|vars_os|args|args_os|current_dir|current_exe|temp_dir)|^std::process::(id|Command)|^std::net::|^std::thread::available_parallelism|^num_cpus::'),
    ('an entropy source', r'(^|::)(thread_rng|from_entropy|random)(::<.*>)?$|OsRng|EntropyRng|JitterRng|ThreadRng|getrandom|RandomState'),
    ('a thread', r'^rayon::(current_num_threads|current_thread_index|max_num_threads)|^std::thread::(current|Thread::id)|rayon_core::current_'),
    ('an address', r'::(addr|expose_provenance|align_offset|is_aligned)$'),
]
HASH = re.compile(r'^(&mut |&)?(std::collections::|hashbrown::)?(hash::)?(map::|set::)?Hash(Map|Set)<')
KEYED = {'insert', 'contains', 'contains_key', 'get', 'get_mut', 'get_key_value', 'entry', 'remove', 'remove_entry', 'take', 'replace', 'len', 'is_empty', 'clear', 'reserve', 'capacity', 'index', 'index_mut', 'eq', 'ne',
         'is_subset', 'is_superset', 'is_disjoint', 'extend', 'deref', 'deref_mut', 'as_ref', 'borrow', 'clone', 'drop', 'drop_in_place', 'with_capacity', 'unwrap', 'unwrap_or_default', 'default', 'swap', 'replace', 'is_some', 'is_none'}
ROOTS = r'^bitboost::(boost::Booster(::<.*>)?::train|tree::tree::(AdditiveTree|Tree)(::<.*>)?::predict\w*|data::Data::(from_\w+|empty)|config::Config::\w+)$'
# parallel operations whose result does not depend on scheduling
PURE = {'map', 'filter', 'filter_map', 'flat_map', 'flat_map_iter', 'flatten', 'zip', 'zip_eq', 'enumerate', 'chain', 'cloned', 'copied', 'rev', 'take', 'skip', 'chunks', 'interleave', 'step_by', 'inspect',
        'collect', 'collect_into_vec', 'unzip', 'partition', 'count', 'any', 'all', 'min', 'max', 'min_by', 'max_by', 'min_by_key', 'max_by_key', 'for_each', 'par_iter', 'par_iter_mut', 'into_par_iter', 'par_chunks', 'par_chunks_mut', 'par_windows', 'repeat', 'repeatn', 'repeat_n', 'once', 'empty',
        'find_first', 'find_last', 'position_first', 'position_last', 'find_map_first', 'with_min_len', 'with_max_len', 'panic_fuse', 'par_extend', 'len', 'eq', 'cmp', 'intersperse', 'update', 'opt_len', 'while_some', 'join', 'scope', 'par_sort', 'par_sort_by', 'par_sort_by_key', 'install', 'build', 'new', 'num_threads', 'par_bridge', 'build_global'}
FIRSTCOME = {'find_any', 'find_map_any', 'position_any', 'take_any', 'skip_any', 'take_any_while', 'skip_any_while'}
PERTHREAD = {'for_each_init', 'for_each_with', 'map_init', 'map_with', 'try_for_each_init', 'try_for_each_with'}
LOCKS = re.compile(r'^(std::sync::(Mutex|RwLock|poison::.*)(::<.*>)?::(lock|try_lock|write|try_write)|parking_lot::|std::cell::)')
ATOMIC = re.compile(r'^std::sync::atomic::Atomic')

def check(c):
    P = c.P
    roots = [f['id'] for f in P.insts if re.search(ROOTS, f['name']) and f['id'] in P.bodies and f['kind'] == 'item']
    if not any(re.search(r'Booster(::<.*>)?::train$', P.insts[r]['name']) for r in roots): raise Missing('Booster::train')
    t = Taint(P)
    t.tests = {i for i in P.bodies if '::test::' in P.insts[i]['name'] or '::tests::' in P.insts[i]['name']}
    c.guard('origin', lambda: origins(c, t, roots))
    c.guard('seed', lambda: seeds(c, t))
    c.guard('parallel', lambda: parallel(c, t))
def calls(P, i):
    for bi, (ss, t) in enumerate(P.bodies[i]['blocks']):
        if t[0] == 'call' and t[1][0] == 'k' and t[1][1].get('fn') is not None: yield t, P.insts[t[1][1]['fn']]
def consts(x):
    if isinstance(x, dict):
        yield x
    elif isinstance(x, list):
        for y in x: yield from consts(y)
def sources(c, t):
    P = c.P; out = {}
    for i, b in P.bodies.items():
        if i in t.tests: continue
        for term, g in calls(P, i):
            n = g['name']; where = (i, term[3][0], t.path(term[3][1]))
            for lab, rx in SOURCES:
                if re.search(rx, n) or re.search(rx, g['def']): out.setdefault(lab, []).append((where, term[-1]))
            if not t.callees(term[1])[0] and any(hashed(P, t, i, x) for x in term[2]) and g['item'] not in KEYED: out.setdefault('hash order', []).append((where, term[-1]))
        for ss, term in b['blocks']:
            for s in ss:
                if s[0] == '=' and s[2][0] == 'cast' and s[2][1] == 'PointerExposeAddress': out.setdefault('an address', []).append(((i, s[1][0], t.path(s[1][1])), s[3]))
    return out
def hashed(P, t, i, x):
    """an operand that is a randomly keyed hash table"""
    if x[0] not in ('c', 'm') or x[1][1]: return False
    ty = t.ty(i, x[1][0])
    while ty['k'] == 'ref': ty = P.types[ty['e']]
    return bool(HASH.match(ty['s'])) and 'BuildHasherDefault' not in ty['s']
def globals_(c, t):
    """reads of mutable global state"""
    P = c.P; out = []
    for i, b in P.bodies.items():
        if i in t.tests: continue
        for ss, term in b['blocks']:
            for s in ss:
                if s[0] == '=':
                    for k in consts(s[2]):
                        if 'static' in k and mutable(P, P.types[k['t']]): out.append(((i, s[1][0], t.path(s[1][1])), s[3], k['static']))
            if term[0] == 'call':
                for x in term[2]:
                    for k in consts(x):
                        if 'static' in k and mutable(P, P.types[k['t']]): out.append(((i, term[3][0], t.path(term[3][1])), term[-1], k['static']))
                g = P.insts[term[1][1]['fn']] if term[1][0] == 'k' and term[1][1].get('fn') is not None else None
                if g and re.search(r'thread::LocalKey', g['name']): out.append(((i, term[3][0], t.path(term[3][1])), term[-1], 'thread local'))
    return out
def mutable(P, t):
    s = re.sub(r'Lazy(Lock|Cell)', '', t['s'])
    return s.startswith('*mut') or bool(re.search(r'Atomic|Mutex|RwLock|Cell|OnceLock|OnceCell', s))
def origins(c, t, roots):
    P = c.P
    t.tests = {i for i in P.bodies if '::test::' in P.insts[i]['name'] or '::tests::' in P.insts[i]['name']}
    src = sources(c, t)
    gl = globals_(c, t)
    if gl: src['a global variable'] = [(w, l) for w, l, n in gl]
    labels = [l for l, _ in SOURCES] + ['hash order', 'a global variable']
    for lab in labels:
        ss = src.get(lab, []); soft = False; tt = t
        if lab == 'hash order' and ss:
            tt = Taint(P, cut=any_order); seen = tt.run(ss)
            soft = any(g['item'].startswith('sort') and x[0] in ('c', 'm') and any(q[0] == i and q[1] == x[1][0] for q in seen) for i in {w[0] for w, _ in ss} for term, g in calls(P, i) for x in term[2][:1])
        else: seen = t.run(ss)
        for r in roots:
            n = P.insts[r]['name']
            if P.bodies[r].get('poly'): continue
            hit = [x for x in seen if x[0] == r and (x[1] == 0 or 1 <= x[1] <= P.bodies[r]['argc'] and '*' in x[2] and mutarg(P, r, x[1]) and not print_state(c, r, x))]
            key = 'origin/%s/%s' % (lab.split()[-1], n.split('bitboost::')[-1])
            if hit:
                x = min(hit, key=lambda x: len(t.trace(seen, x, 50)))
                c.ob(key, UNDET if soft else VIOLATED, n, 'depends on %s: %s' % (lab, ' <- '.join(t.trace(seen, x))), FLOW)
            else: c.ob(key, PROVED, n, '%d places where %s is read, %d values reached' % (len(ss), lab, len(seen)), FLOW)
def any_order(g, ty):
    """results that do not depend on the order of the items"""
    it = g['item']
    if it in ('count', 'any', 'all', 'len', 'is_empty'): return True
    if it in ('max', 'min', 'sum', 'product'): return ty['k'] in ('int', 'uint') or ty['s'].startswith('std::option::Option<') and not re.search(r'f32|f64|\(', ty['s'])
    return it in ('collect', 'from_iter', 'extend') and bool(re.match(r'^(std::collections::)?(hash::\w+::|btree_\w+::)?(Hash|BTree)(Map|Set)<', ty['s']))
def mutarg(P, r, l):
    t = P.types[P.bodies[r]['locals'][l]]
    return t['k'] == 'ref' and t.get('m')
def print_state(c, r, x): return False

def seeds(c, t):
    """generators are made from the configured seed"""
    P = c.P; idx = c.fidx('config::Config', 'random_seed')
    src = []; n = 0
    for i, b in P.bodies.items():
        for ss, term in b['blocks']:
            for s in ss:
                if s[0] != '=': continue
                for op in ops(s[2]):
                    if reads(P, b, op, idx): src.append(((i, s[1][0], t.path(s[1][1])), s[3]))
            if term[0] == 'call':
                for x in term[2]:
                    if x[0] in ('c', 'm') and reads(P, b, x[1], idx): src.append(((i, x[1][0], t.path(x[1][1])), term[-1]))
    seen = t.run(src, implicit=False)
    for i, b in P.bodies.items():
        if i in t.tests: continue
        if '{closure' not in P.insts[i]['name'] and not P.insts[i].get('local'): continue
        for term, g in calls(P, i):
            if not re.search(r'(^|::)(seed_from_u64|from_seed|from_rng)(::<.*>)?$', g['name']): continue
            n += 1; w = '%s:%s %s' % (b['file'], term[-1], P.insts[i]['name'])
            x = term[2][0]
            ok = x[0] in ('c', 'm') and any((i, x[1][0], t.path(x[1][1])[:k]) in seen for k in range(len(x[1][1]) + 1)) or x[0] in ('c', 'm') and any(s[0] == i and s[1] == x[1][0] for s in seen)
            c.ob('seed/%d' % n, PROVED if ok else VIOLATED, w, '' if ok else 'the generator is not seeded from the configured seed', FLOW)
    if not n: c.ob('seed', UNDET, 'bitboost', 'no generator is created by a known function', FLOW)
def ops(rv):
    for x in rv[1:]:
        if isinstance(x, list) and len(x) == 2 and x[0] in ('c', 'm') and isinstance(x[1], list): yield x[1]
        elif isinstance(x, list) and len(x) == 2 and isinstance(x[0], int) and isinstance(x[1], list): yield x
        elif isinstance(x, list):
            for y in x:
                if isinstance(y, list) and len(y) == 2 and y[0] in ('c', 'm'): yield y[1]
def reads(P, b, place, idx):
    l, pr = place; ty = P.types[b['locals'][l]]
    for p in pr:
        if p[0] == '*': ty = P.types[ty['e']] if 'e' in ty else None
        elif p[0] == 'f':
            if ty is not None and ty['k'] == 'adt' and ty['name'].endswith('config::Config') and p[1] == idx: return True
            ty = P.types[p[2]] if len(p) > 2 else None
        else: return False
        if ty is None: return False
    return False

def parallel(c, t):
    P = c.P; n = 0; seen = set()
    for i, b in P.bodies.items():
        if i in t.tests: continue
        for term, g in calls(P, i):
            if not re.search(r'\brayon(_core)?::', g['def']) and not g['def'].startswith('std::thread::'): continue
            op = g['item']; w = '%s:%s %s' % (b['file'], term[-1], P.insts[i]['name'])
            if g['def'].startswith('std::thread::'):
                if op in ('spawn', 'scope') or 'scope' in g['def']: c.ob('parallel/thread/%d' % n, UNDET, w, 'threads started by hand', PAR); n += 1
                continue
            n += 1; key = 'parallel/%d/%s' % (n, op)
            bodies = closures(P, t, b, term)
            if op in FIRSTCOME: c.ob(key, VIOLATED, w, '%s returns whichever match is found first' % op, PAR); continue
            if op in ('sum', 'product'):
                rt = t.ty(i, term[3][0])
                c.ob(key, PROVED if rt['k'] in ('int', 'uint') else VIOLATED if rt['k'] == 'float' else UNDET, w, '%s of %s values in an order that depends on scheduling' % (op, rt['s']), PAR); continue
            if op in ('reduce', 'reduce_with', 'try_reduce', 'fold', 'fold_with', 'try_fold', 'try_reduce_with'):
                fl = any(floatsum(P, t, h) for h in bodies)
                c.ob(key, VIOLATED if fl else UNDET, w, 'the grouping of floating point additions depends on scheduling' if fl else 'not decided whether the operation is associative', PAR); continue
            if op in PERTHREAD: c.ob(key, UNDET, w, 'state kept per group of items', PAR)
            if op in ('spawn', 'spawn_fifo', 'broadcast'): c.ob(key, UNDET, w, 'free running tasks', PAR)
            if op not in PURE and op not in PERTHREAD: c.ob(key, UNDET, w, 'operation not classified', PAR); continue
            if op not in PERTHREAD: c.ob(key, PROVED, w, 'result does not depend on scheduling', PAR)
            for h in bodies:
                if (h, op) in seen: continue
                seen.add((h, op)); c.guard('%s/shared' % key, lambda: shared(c, t, h, key, ordered=False))
    if not n: c.ob('parallel', PROVED, 'bitboost', 'nothing runs in parallel', PAR)
def closures(P, t, b, term):
    out = []
    for x in term[2]:
        if x[0] in ('c', 'm') and not x[1][1]:
            ct = b['locals'][x[1][0]]
            if P.types[ct]['k'] == 'ref': ct = P.types[ct]['e']
            if ct in t.closures and t.closures[ct] in P.bodies: out.append(t.closures[ct])
        elif x[0] == 'k' and x[1].get('fn') is not None and x[1]['fn'] in P.bodies: out.append(x[1]['fn'])
        elif x[0] == 'k':
            ct = x[1].get('t')
            if ct in t.closures and t.closures[ct] in P.bodies: out.append(t.closures[ct])
    return out
def below(P, t, h, depth=12):
    seen = {h}; todo = [h]
    while todo:
        i = todo.pop()
        for ss, term in P.bodies[i]['blocks']:
            if term[0] == 'call':
                fs, g = t.callees(term[1])
                for k in fs + closures(P, t, P.bodies[i], term):
                    if k in P.bodies and k not in seen: seen.add(k); todo.append(k)
    return seen
def floatsum(P, t, h):
    for i in below(P, t, h):
        for ss, term in P.bodies[i]['blocks']:
            for s in ss:
                if s[0] == '=' and s[2][0] == 'bin' and s[2][1].startswith(('Add', 'Sub', 'Mul')):
                    if P.types[P.bodies[i]['locals'][s[1][0]]]['k'] == 'float' and not s[1][1]: return True
                    if any(q[0] == 'f' and len(q) > 2 and P.types[q[2]]['k'] == 'float' for q in s[1][1][-1:]): return True
    return False
def shared(c, t, h, key, ordered):
    """what a closure that runs in parallel does to state it shares with the others"""
    P = c.P; f = P.insts[h]; w = f['name']
    inner = below(P, t, h); locks, atoms, raws = [], [], []
    for i in inner:
        for term, g in calls(P, i):
            if LOCKS.search(g['name']) or LOCKS.search(g['def']): locks.append((i, term, g))
            elif ATOMIC.search(g['name']): atoms.append((i, term, g))
            elif re.search(r'ptr::(write|copy|swap|replace)|::write(_unaligned|_volatile)?$|get_unchecked_mut|UnsafeCell|from_raw_parts_mut', g['def']) and 'ptr' in g['def']: raws.append((i, term, g))
    for i, term, g in atoms:
        d = t.ty(i, term[3][0]); used = True
        op = g['item']; commut = op in ('fetch_add', 'fetch_sub', 'fetch_or', 'fetch_and', 'fetch_xor', 'fetch_max', 'fetch_min')
        dead = not any(reads_local(P.bodies[i], term[3][0]))
        if op in ('new',): continue
        c.ob(key + '/atomic', PROVED if commut and dead else VIOLATED if op.startswith('compare_exchange') and floatsum(P, t, h) or commut and not dead else UNDET, w, '%s in a parallel section' % op, PAR)
    if raws: c.ob(key + '/raw', UNDET, w, 'writes through raw pointers', PAR)
    if not locks: 
        if not atoms and not raws: c.ob(key + '/shared', PROVED, w, '%d functions, no shared state is written' % len(inner), PAR)
        return
    keyed(c, t, h, key)
def reads_local(b, l):
    def ps(x):
        if isinstance(x, list):
            if len(x) == 2 and x[0] in ('c', 'm') and isinstance(x[1], list): yield x[1][0]
            for y in x: yield from ps(y)
    for ss, term in b['blocks']:
        for s in ss:
            if s[0] == '=':
                for k in ps(s[2]):
                    if k == l: yield True
                if s[2][0] in ('ref', 'discr') and s[2][1][0] == l: yield True
        for k in ps(term[1:3]):
            if k == l: yield True
def parts(P, ty, x):
    """(integer components, other components) of an item"""
    if ty['k'] in ('int', 'uint'): return [x], []
    if ty['k'] == 'ref': return parts(P, P.types[ty['e']], mk('deref', x)) if P.types[ty['e']]['k'] in ('int', 'uint', 'tuple') else ([], [x])
    if ty['k'] == 'tuple':
        a, b = [], []
        for i, e in enumerate(ty['f']):
            u, v = parts(P, P.types[e], proj(x, ('f', i))); a += u; b += v
        return a, b
    return [], [x]
STORE = (r'^slice_store::', r'^bitblock::', r'^dataset::', r'^objective::', r'^bitslice::')
def keyed(c, t, h, key):
    """every write to shared state lands in a place that is different for different items, and does not depend on what other items wrote"""
    P = c.P; f = P.insts[h]; b = P.bodies[h]
    args = [mk('arg', i) for i in range(b['argc'])]
    r = c.run(f, args, opaque=STORE)
    ints, others = [], []
    for k in range(2, b['argc'] + 1):
        u, v = parts(P, P.types[b['locals'][k]], args[k - 1]); ints += u; others += v
    item = set(ints) | set(others) | set(args[1:])
    st = states_of(r); n = 0
    if os.environ.get('VERIF_DEBUG') == '3':
        for p, v in st.items(): print(show(p), '==>', show(v))
    shared_ = [mk('deref', p) for p in st]
    for p, v in st.items():
        if v is mk('deref', p): continue
        for path, conds, old, new in changes(mk('deref', p), v):
            if new.op == 'out' and new.args[0].op == 'call' and ACCESSOR.search(str(new.args[0].args[0])): continue
            n += 1; k_ = '%s/write/%d' % (key, n); place = [p] + list(path)
            deps = [any(depends(z, [x]) for z in place) for x in ints]
            own = old; foreign = [z for z in shared_ if z is not mk('deref', p) and depends(new, [z])]
            if any(z.args[1][1] not in path for z in find_all(new, lambda q: q.op == 'proj' and q.args[1][0] == 'i' and q.args[0] is mk('deref', p))):
                c.ob(k_, VIOLATED, f['name'], 'reads what other items write: %s' % show(new)[:120], PAR); continue
            if ints and all(deps):
                c.ob(k_, UNDET if foreign else PROVED, f['name'], 'place keyed by the item: %s' % ' '.join(show(z)[:60] for z in place), PAR); continue
            if commutes(old, new, conds, args[1:]): c.ob(k_, PROVED, f['name'], 'updates commute', PAR); continue
            if new.op == 'push':
                kept = ints and all(holds(new.args[1], x) for x in ints) or sorts(P, t, h)
                c.ob(k_, UNDET if kept else VIOLATED, f['name'], 'items are appended in the order in which they finish: %s' % show(new)[:100], PAR); continue
            tie = any(compared(q, x) for q in conds for x in ints)
            sure = (depends(new, [old]) and floatish(new)) or (ints and not any(deps) and not tie and depends(new, args[1:]))
            c.ob(k_, VIOLATED if sure else UNDET, f['name'], 'several items write the same place: %s := %s' % (' '.join(show(z)[:60] for z in place), show(new)[:120]), PAR)
    if not n: c.ob(key + '/write', PROVED, f['name'], 'nothing shared is written', PAR)
ACCESSOR = re.compile(r'::(get_\w*mut|index_mut|deref_mut|as_mut\w*|iter_mut|get_\w+|borrow_mut|split_at_mut)\b')
def holds(v, x): return v is x or v.op == 'agg' and any(holds(y, x) for y in v.args[-1])
def compared(q, x): return bool(find_all(q, lambda z: z.op != 'call' and z.op != 'ret' and any(y is x for y in z.args if isinstance(y, Term)))) and not find_all(q, lambda z: z.op == 'call' and depends(z, [x]))
def sorts(P, t, h):
    return any(g['item'].startswith(('sort', 'par_sort')) for i, _ in t.callers.get(h, ()) for _, g in calls(P, i))
def depends(x, ys):
    return any(find_all(x, lambda t, y=y: t is y) for y in ys)
def changes(old, new, path=(), conds=()):
    """parts in which new differs from old: (path, conditions, old part, new part)"""
    if new is old: return
    o = new.op
    if o == 'ite':
        if minmax(new): yield path, conds, old, new; return
        yield from changes(old, new.args[1], path, conds + (new.args[0],)); yield from changes(old, new.args[2], path, conds + (new.args[0],)); return
    if o == 'store':
        base, k, v = new.args
        yield from changes(old, base, path, conds)
        yield from changes(proj(old, ('i', k)), v, path + (k,), conds); return
    if o == 'upd':
        base, e, v = new.args
        yield from changes(old, base, path, conds)
        yield from changes(proj(old, e), v, path + tuple(x for x in e if isinstance(x, Term)), conds); return
    if o == 'sw':
        for _, x in new.args[1]: yield from changes(old, x, path, conds + (new.args[0],))
        yield from changes(old, new.args[2], path, conds + (new.args[0],)); return
    if o == 'agg' and new.args[0] in ('adt', 'tuple') :
        for i, x in enumerate(new.args[-1]): yield from changes(proj(old, ('f', i)), x, path, conds)
        return
    yield path, conds, old, new
def minmax(x):
    return x.op == 'ite' and x.args[0].op in ('lt', 'flt', 'le', 'fle') and set(map(id, x.args[1:])) == set(map(id, x.args[0].args))
def commutes(old, new, conds, item):
    if minmax(new) or new.op in ('fmin', 'fmax') : return True
    if not depends(new, item) and not depends(new, [old]): return True
    if isinstance(new, Term) and not floatish(new) and depends(new, [old]) and new.op in ('lin', 'add', 'or', 'and', 'xor') and not any(depends(q, [old]) for q in conds): return True
    return False
def floatish(x): return bool(find_all(x, lambda t: t.op in ('fadd', 'fmul', 'fsub', 'fdiv')))
