"""Every exported function with the C calling convention: one panic boundary, nothing outside it that can unwind, and the
returned value equal to the reference for every argument and every context (whatever is below the boundary may fail)."""
from core import *
from props import c02
RULE = 'panic boundary: nothing that can unwind runs outside it'
# outside the boundary these cannot panic
CALM = re.compile(r'^std::(mem|ptr|slice|alloc|marker|convert|clone|cmp|ops|num|intrinsics|hint)::|^core::(fmt|num|ptr|slice)::|^std::fmt::Arguments|^std::panic::AssertUnwindSafe')

def check(c):
    for f in sorted(exported(c), key=lambda f: f['name']): c.guard(f['name'].split('::')[-1] + '/boundary', lambda: boundary(c, f))
    for name in c02.ENTRY: c.guard(name, lambda: result(c, name))
def exported(c):
    return [f for f in c.P.insts if f.get('exported') and f.get('extern_c') and f['kind'] == 'item' and f['id'] in c.P.bodies]
def boundary(c, f):
    name = f['name'].split('::')[-1]; w = f['name']
    r = c.run(f, opaque=c02.OP)
    bad, unsure = [], []
    def walk(es, pre):
        for e in es:
            if e[0] == 'caught' or AND(pre, e[1]) is FALSE: continue
            if e[0] == 'loop': walk(e[2][3], AND(pre, e[1])); continue
            if e[0] == 'panic' and AND(pre, e[1], e[2][0]) is not FALSE: bad.append('line %s: panic when %s' % (e[4], show(e[2][0])[:200]))
            elif e[0] == 'assert' and AND(pre, e[1], NOT(e[2][1])) is not FALSE: bad.append('line %s: %s check can fail' % (e[4], e[2][0]))
            elif e[0] == 'call':
                d = e[2][1]
                if any(n['local'] for n in c.P.insts if n['def'] == d) or d == 'std::io::_print': bad.append('line %s: %s can panic' % (e[4], d))
                elif not CALM.search(d): unsure.append('line %s: %s' % (e[4], d))
    walk(r['it'].events, TRUE)
    c.ob(name + '/boundary', VIOLATED if bad else UNDET if unsure else PROVED, w, '; '.join(bad or unsure) or '%d boundaries, nothing fallible outside' % r['it'].boundaries, RULE)
def result(c, name):
    f, r, s = c02.pair(c, name)
    if f not in exported(c): c.ob(name + '/exported', VIOLATED, f['name'], 'not exported under its own name with the C calling convention', 'export table')
    else: c.ob(name + '/exported', PROVED, f['name'], '', 'export table')
    c.same(name + '/result', r['ret'], s['ret'], f['name'], 'result', allow=c02.ALLOW, rule='value-graph equality with reference')
