"""Where do values of a given origin go?  Interprocedural propagation over the monomorphised MIR: access paths (fields, derefs,
elements), references in both directions, calls into the crate by parameter binding (trait objects: every implementation),
other calls from any argument to the result and to what mutable arguments point at, closures by the calls they are passed to,
and implicit flows through branches on such a value."""
import re
DEPTH = 8
PRINT = re.compile(r'^(std::io::_e?print|std::fmt::|core::fmt::|log::|std::rt::(panic|begin)|core::panicking|std::panicking|std::result::unwrap_failed|std::option::(unwrap|expect)_failed)')

class Taint:
    def __init__(s, P, reach=None, cut=None):
        s.P = P; s.edges = {}; s.switches = {}; s.ext = {}; s.impls = {}; s.stats = {'edges': 0}
        for f in P.insts:
            if f.get('trait') and f['id'] in P.bodies: s.impls.setdefault((f['trait'], f['item']), []).append(f['id'])
        s.closures = {}            # closure type -> body
        for i, t in enumerate(P.types):
            if t['k'] == 'closure' and t.get('body') is not None: s.closures[i] = t['body']
        s.callers = {}
        s.reach = reach; s.cut = cut
        for i, b in P.bodies.items():
            if reach is None or i in reach: s.body(i, b)
    # ---------------------------------------------------------------- helpers
    def path(s, pr):
        out = []
        for p in pr:
            if p[0] == '*': out.append('*')
            elif p[0] == 'f': out.append(p[1])
            elif p[0] in ('i', 'ci', 'sub', 'c'): out.append('i')
        return tuple(out)
    def ty(s, f, l): return s.P.types[s.P.bodies[f]['locals'][l]]
    def edge(s, f, l, p, kind, g, m, q, line):
        s.edges.setdefault((f, l), []).append((p, kind, g, m, q, line)); s.stats['edges'] += 1
    def pointerish(s, t, depth=0):
        k = t['k']
        if k in ('ref', 'ptr', 'closure', 'dyn'): return True
        if k == 'adt':
            if "'" in t['s'] or 'Iter' in t['s'] or '&' in t['s'] or 'Option<&' in t['s'] or '*' in t['s'] or 'Guard' in t['s']: return True
        if k == 'tuple': return any(s.pointerish(s.P.types[x]) for x in t['f'])
        return False
    def flow(s, f, op, l, q, kind, line):
        """operand into a place"""
        if op[0] not in ('c', 'm'): return
        a, pr = op[1]; p = s.path(pr)
        s.edge(f, a, p, kind, f, l, q, line)
        if kind == 'copy': s.edge(f, l, q, 'back', f, a, p, line)
    # ---------------------------------------------------------------- one body
    def body(s, f, b):
        for bi, (stmts, term) in enumerate(b['blocks']):
            for st in stmts:
                if st[0] != '=': continue
                (l, pr), rv, line = st[1], st[2], st[3]; q = s.path(pr); k = rv[0]
                if k == 'use': s.flow(f, rv[1], l, q, 'copy', line)
                elif k in ('ref', 'addr'):
                    a, p = rv[1][0], s.path(rv[1][1])
                    if p and p[-1] == '*' :      # reborrow
                        s.edge(f, a, p[:-1], 'copy', f, l, q, line); s.edge(f, l, q, 'back', f, a, p[:-1], line)
                    else:
                        s.edge(f, a, p, 'copy', f, l, q + ('*',), line); s.edge(f, l, q + ('*',), 'copy', f, a, p, line)
                elif k == 'agg':
                    for i, x in enumerate(rv[2]): s.flow(f, x, l, q + (('i',) if rv[1][0] == 'array' else (i,)), 'copy', line)
                elif k == 'cast':
                    s.flow(f, rv[2], l, q, 'copy' if 'Ptr' in rv[1] or 'Pointer' in rv[1] or 'Transmute' in rv[1] else 'value', line)
                elif k == 'bin':
                    for x in rv[2:4]: s.flow(f, x, l, q, 'value', line)
                elif k == 'un': s.flow(f, rv[2], l, q, 'value', line)
                elif k == 'discr': s.edge(f, rv[1][0], s.path(rv[1][1]), 'value', f, l, q, line)
                elif k == 'repeat': s.flow(f, rv[1], l, q + ('i',), 'copy', line)
                else:
                    for x in rv[1:]:
                        if isinstance(x, list) and x and x[0] in ('c', 'm'): s.flow(f, x, l, q, 'value', line)
            if term[0] == 'switch' and term[1][0] in ('c', 'm'):
                a, pr = term[1][1]; s.switches.setdefault((f, a), []).append((s.path(pr), bi, term[-1]))
            elif term[0] == 'call': s.call(f, bi, term)
    def callees(s, op):
        """bodies an operand in call position can denote, and its instance"""
        if op[0] != 'k' or op[1].get('fn') is None: return [], None
        g = s.P.insts[op[1]['fn']]
        if g['kind'] == 'virtual':
            d = g['def'].rsplit('::', 1)
            out = [i for (t, n), v in s.impls.items() if n == g['item'] and (t == d[0] or t.endswith('::' + d[0]) or d[0].endswith(t)) for i in v]
            return out, g
        if g['id'] in s.P.bodies and (g.get('local') or s.P.bodies[g['id']].get('file', '').startswith('src')): return [g['id']], g
        return [], g
    def call(s, f, bi, t):
        op, args, (l, pr), line = t[1], t[2], t[3], t[-1]; q = s.path(pr)
        fs, g = s.callees(op)
        for h in fs:
            b = s.P.bodies[h]; s.callers.setdefault(h, []).append((f, line))
            ps = list(range(1, b['argc'] + 1)); xs = list(args)
            if b.get('spread') is not None or (len(xs) == 2 and len(ps) != 2 and g and re.search(r'Fn(Once|Mut)?::call', g['def'])):
                s.bind(f, xs[0], h, 1, line)
                if len(xs) > 1 and xs[1][0] in ('c', 'm'):
                    a, p = xs[1][1]; p = s.path(p)
                    for j, k in enumerate(ps[1:]):
                        s.edge(f, a, p + (j,), 'copy', h, k, (), line); s.edge(h, k, (), 'back', f, a, p + (j,), line)
            else:
                for x, k in zip(xs, ps): s.bind(f, x, h, k, line)
            s.edge(h, 0, (), 'copy', f, l, q, line); s.edge(f, l, q, 'back', h, 0, (), line)
        if fs: return
        name = g['name'] if g else '?'
        if s.cut and g and s.cut(g, s.ty(f, l)): return
        quiet = bool(PRINT.match(name)) and not name.startswith('std::fmt::format')
        pl = []
        for x in args:
            if x[0] in ('c', 'm'): pl.append((x[1][0], s.path(x[1][1])))
        tys = [s.P.types[s.P.bodies[f]['locals'][a]] if not p else None for a, p in pl]
        dt = s.ty(f, l)
        for i, (a, p) in enumerate(pl):
            s.edge(f, a, p, 'any', f, l, q, line)
            t_ = tys[i]
            if s.pointerish(dt) and not quiet:
                s.edge(f, l, q, 'backany', f, a, p + ('*',), line)
                if t_ and t_['k'] == 'ref' and s.pointerish(s.P.types[t_['e']]): s.edge(f, l, q, 'backany', f, a, p + ('*', '*'), line)
            if t_ and t_['k'] == 'ref' and t_.get('m') and not quiet:
                for j, (a2, p2) in enumerate(pl):
                    if j != i: s.edge(f, a2, p2, 'any', f, a, p + ('*',), line)
        for i, t_ in enumerate(tys):          # closures handed to code outside the crate
            if not t_ or t_['k'] not in ('closure', 'ref'): continue
            h = None
            ct = s.P.bodies[f]['locals'][pl[i][0]]
            isref = False
            if t_['k'] == 'ref': ct = t_.get('e'); isref = True
            h = s.closures.get(ct)
            if h is None or h not in s.P.bodies: continue
            a, p = pl[i]; hb = s.P.bodies[h]; s.callers.setdefault(h, []).append((f, line))
            self_ref = s.ty(h, 1)['k'] == 'ref'
            src = p + (('*',) if isref else ()); dst = ('*',) if self_ref else ()
            s.edge(f, a, src, 'copy', h, 1, dst, line); s.edge(h, 1, dst, 'back', f, a, src, line)
            for j, (a2, p2) in enumerate(pl):
                if j != i:
                    for k in range(2, hb['argc'] + 1): s.edge(f, a2, p2, 'any', h, k, (), line)
            s.edge(h, 0, (), 'any', f, l, q, line)
            for k in range(2, hb['argc'] + 1):
                for j, (a2, p2) in enumerate(pl):
                    if j != i: s.edge(h, k, (), 'backany', f, a2, p2 + ('*',), line)
    def bind(s, f, x, h, k, line):
        if x[0] not in ('c', 'm'): return
        a, p = x[1]; p = s.path(p)
        s.edge(f, a, p, 'copy', h, k, (), line); s.edge(h, k, (), 'back', f, a, p, line)
    # ---------------------------------------------------------------- propagation
    def run(s, seeds, implicit=True, stop=None):
        """seeds: [((f, l, path), why)] -> {cell: (parent cell, line)}"""
        seen = {}; todo = []
        def add(c, par, line):
            c = (c[0], c[1], c[2][:DEPTH])
            if c in seen: return
            for n in range(len(c[2])):         # already covered by a shorter path
                if (c[0], c[1], c[2][:n]) in seen and '*' not in c[2][n:]: return
            seen[c] = (par, line); todo.append(c)
        for c, why in seeds: add(c, None, why)
        done = set()
        while todo:
            c = todo.pop(); f, l, p = c
            if len(seen) > 400000: raise MemoryError('too many cells')
            for sp, kind, g, m, q, line in s.edges.get((f, l), ()):
                pre = p[:len(sp)] == sp; up = sp[:len(p)] == p
                if not (pre or up): continue
                rest = p[len(sp):] if pre else ()
                if kind == 'copy': add((g, m, q + rest), c, line)
                elif kind == 'value':
                    if '*' not in rest: add((g, m, q), c, line)
                elif kind == 'any': add((g, m, q), c, line)
                elif kind == 'back':
                    if '*' in rest: add((g, m, q + rest), c, line)
                elif kind == 'backany':
                    if pre and '*' in rest: add((g, m, q), c, line)
            if implicit:
                for sp, bi, line in s.switches.get((f, l), ()):
                    if not (sp[:len(p)] == p): continue
                    if (f, bi) in done: continue
                    done.add((f, bi)); s.controlled(f, bi, c, line, add)
        return seen
    def controlled(s, f, bi, c, line, add):
        b = s.P.bodies[f]
        for j in s.region(f, bi):
            stmts, t = b['blocks'][j]
            for st in stmts:
                if st[0] == '=': add((f, st[1][0], s.path(st[1][1])), c, st[3])
            if t[0] == 'call':
                fs, g = s.callees(t[1])
                if g is not None and PRINT.match(g['name']): continue
                add((f, t[3][0], s.path(t[3][1])), c, t[-1])
                for x in t[2]:
                    if x[0] in ('c', 'm') and not x[1][1]:
                        ty = s.ty(f, x[1][0])
                        if ty['k'] == 'ref' and ty.get('m'): add((f, x[1][0], ('*',)), c, t[-1])
    def succ(s, t):
        if t[0] == 'goto': return [t[1]]
        if t[0] == 'switch': return [x[1] for x in t[2]] + ([t[3]] if isinstance(t[3], int) and t[3] >= 0 else [])
        if t[0] == 'call': return [t[4]] if t[4] is not None and t[4] >= 0 else []
        if t[0] == 'drop': return [t[2]]
        if t[0] == 'assert': return [t[5]]
        return []
    def region(s, f, bi):
        if not hasattr(s, 'pd'): s.pd = {}
        if f not in s.pd:
            bl = s.P.bodies[f]['blocks']; n = len(bl); EXIT = n
            suc = [[x for x in s.succ(t) if x < n] for _, t in bl]
            live = set(); todo = [0]
            while todo:
                x = todo.pop()
                if x in live: continue
                live.add(x); todo += suc[x]
            # blocks that only lead to a panic do not count
            good = set(); pred = {}
            for x in live:
                for y in suc[x]: pred.setdefault(y, set()).add(x)
            todo = [x for x in live if bl[x][1][0] == 'ret']
            while todo:
                x = todo.pop()
                if x in good: continue
                good.add(x); todo += list(pred.get(x, ()))
            full = good | {EXIT}; pd = {x: set(full) for x in good}; pd[EXIT] = {EXIT}
            ch = True
            while ch:
                ch = False
                for x in sorted(good, reverse=True):
                    ss = [y for y in suc[x] if y in good] or [EXIT]
                    new = set.intersection(*[pd[y] for y in ss]) | {x}
                    if new != pd[x]: pd[x] = new; ch = True
            s.pd[f] = (suc, good, pd)
        suc, good, pd = s.pd[f]
        if bi not in good: return []
        out = set()
        for y in suc[bi]:
            if y not in good: continue
            # blocks reached from y that do not postdominate bi
            todo = [y]
            while todo:
                x = todo.pop()
                if x in out or x in pd[bi] and x != bi or x not in good: continue
                if x == bi: continue
                out.add(x); todo += suc[x]
        return out
    def trace(s, seen, c, n=8):
        out = []
        while c is not None and len(out) < 60:
            par, line = seen[c]; b = s.P.bodies[c[0]]
            out.append('%s:%s %s' % (b.get('file', '?').split('/')[-1], line, s.P.insts[c[0]]['name'].split('::')[-1] if par is not None else line)); c = par
        ded = []
        for x in out:
            if not ded or ded[-1] != x: ded.append(x)
        return ded if len(ded) <= n else ded[:n // 2] + ['...'] + ded[-n // 2:]
