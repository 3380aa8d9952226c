"""Check runner: extraction of /repo's current source, obligations, evidence, verdicts."""
import os, sys, json, time, subprocess, signal, shutil, hashlib, traceback, re, fcntl
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
sys.path.insert(0, HERE)
from terms import *
import terms
from interp import Prog, Interp, Unsupported
from models import MODELS
import eqv

NIGHTLY = 'nightly'
class Fatal(Exception): pass

def sh(cmd, env=None, cwd=None):
    e = dict(os.environ)
    if env: e.update(env)
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout

def build_driver():
    rc, out = sh(['cargo', '+' + NIGHTLY, 'build', '--release', '--offline', '-q'], cwd=os.path.join(VERIF, 'driver'),
                 env={'CARGO_TARGET_DIR': os.path.join(BUILD, 'driver')})
    if rc: raise Fatal('driver build failed:\n' + out[-3000:])
    return os.path.join(BUILD, 'driver', 'release', 'mirdump')

def dump(crate_dir, out, target, args, clean):
    """run the extraction driver on the crate's current source"""
    drv = build_driver()
    rc, root = sh(['rustc', '+' + NIGHTLY, '--print', 'sysroot'])
    root = root.strip().splitlines()[-1]
    os.makedirs(out, exist_ok=True)
    for f in os.listdir(out): os.remove(os.path.join(out, f))
    for sub_ in ('.fingerprint', 'build'):           # both cargo build-directory layouts
        fp = os.path.join(target, 'debug', sub_)
        if os.path.isdir(fp):
            for d in os.listdir(fp):
                if any(d == x or d.startswith(x + '-') for x in clean.split()): shutil.rmtree(os.path.join(fp, d))
    rc, log = sh(['cargo', '+' + NIGHTLY, 'check', '--offline'] + args, cwd=crate_dir, env={
        'LD_LIBRARY_PATH': root + '/lib', 'MIRDUMP_OUT': out, 'RUSTC_WORKSPACE_WRAPPER': drv,
        'RUSTFLAGS': '-Zmir-opt-level=0 -Cdebug-assertions=off -Coverflow-checks=off -Zalways-encode-mir -Awarnings',
        'CARGO_TARGET_DIR': target})
    if rc: raise Fatal('extraction failed (does the tree compile?):\n' + log[-3000:])
    if not os.listdir(out): raise Fatal('extraction produced nothing:\n' + log[-2000:])

def repo_prog(which='bitboost.lib'):
    out = os.path.join(BUILD, 'mir')
    if not getattr(repo_prog, 'done', False):
        if os.environ.get('VERIF_MIR') and os.path.isdir(os.environ['VERIF_MIR']): out = os.environ['VERIF_MIR']
        else: dump(REPO, out, os.path.join(BUILD, 'target'), ['--lib', '--bins'], 'bitboost')
        repo_prog.done = True; repo_prog.out = out
    p = os.path.join(repo_prog.out, which + '.json')
    if not os.path.exists(p): raise Fatal('no extraction output for ' + which)
    return Prog(p)

def spec_prog():
    out = os.path.join(BUILD, 'specmir')
    src = os.path.join(VERIF, 'spec')
    h = hashlib.sha256()
    for root, _, fs in sorted(os.walk(os.path.join(src, 'src'))):
        for f in sorted(fs): h.update(open(os.path.join(root, f), 'rb').read())
    h.update(open(os.path.join(VERIF, 'driver', 'src', 'main.rs'), 'rb').read())
    stamp = os.path.join(BUILD, 'specmir.stamp'); hx = h.hexdigest()
    if not (os.path.exists(stamp) and open(stamp).read() == hx and os.path.isdir(out) and os.listdir(out)):
        dump(src, out, os.path.join(BUILD, 'spectarget'), ['--lib'], 'spec')
        open(stamp, 'w').write(hx)
    return Prog(os.path.join(out, 'spec.lib.json'))

def client_prog():
    """the library as instantiated by a client that names every public storage operation"""
    out = os.path.join(BUILD, 'clientmir'); d = os.path.join(BUILD, 'client')
    if not getattr(client_prog, 'done', False):
        os.makedirs(d, exist_ok=True)
        src = os.path.join(VERIF, 'client')
        t = open(os.path.join(src, 'Cargo.toml.in')).read().replace('@SRC@', src).replace('@REPO@', REPO)
        open(os.path.join(d, 'Cargo.toml'), 'w').write(t)
        lock = os.path.join(REPO, 'Cargo.lock')
        if os.path.exists(lock): shutil.copy(lock, os.path.join(d, 'Cargo.lock'))
        dump(d, out, os.path.join(BUILD, 'clienttarget'), ['--lib'], 'client bitboost')
        client_prog.done = True
    return Prog(os.path.join(out, 'client.lib.json'))

class Timeout(Exception): pass
def _alarm(*a): raise Timeout()

PROVED, VIOLATED, UNDET = 'proved', 'violated', 'undetermined'

class Check:
    def __init__(self, prop, tier='quick', seed=1):
        self.prop = prop; self.tier = tier; self.seed = seed
        self.obs = []; self.t0 = time.time(); self.info = {}; self.assumptions = []; self.fns = set()
        self.units = {}
        self._p = {}; self._sumcache = {}
    # -- programs
    @property
    def P(self):
        if 'P' not in self._p: self._p['P'] = repo_prog()
        return self._p['P']
    @property
    def S(self):
        if 'S' not in self._p: self._p['S'] = spec_prog(); self._p['S'].mirror(self.P)
        return self._p['S']
    @property
    def C(self):
        """the client program (generic library operations at concrete types)"""
        if 'client' not in self._p:
            self.P                                    # a library that does not compile is reported as such
            try: self._p['client'] = client_prog()
            except Fatal as e: raise Unsupported('the client of the storage interface does not compile: ' + str(e)[-600:])
        return self._p['client']
    def bin(self, name):
        if name not in self._p: self._p[name] = repo_prog(name + '.bin')
        return self._p[name]
    def refs(self, prog):
        """the reference crate with its types aligned to those of `prog`"""
        k = 'refs%d' % id(prog)
        if k not in self._p: self._p[k] = spec_prog(); self._p[k].mirror(prog)
        return self._p[k]
    # -- obligations
    def ob(self, key, status, where='', detail='', rule=''):
        self.obs.append({'key': key, 'status': status, 'where': where, 'detail': detail, 'rule': rule})
        return status
    def guard(self, key, fn, where=''):
        """run an obligation generator; an analysis failure leaves the obligation undetermined"""
        try: return fn()
        except Timeout: self.ob(key, UNDET, where, 'analysis time limit')
        except Unsupported as e: self.ob(key, UNDET, where, 'not analysable: %s' % e)
        except Missing as e: self.ob(key, VIOLATED if e.public else UNDET, where, str(e))
        except RecursionError: self.ob(key, UNDET, where, 'recursion limit')
        except Fatal: raise
        except Exception as e:
            self.ob(key, UNDET, where, 'analysis error %s: %s' % (type(e).__name__, e))
            if os.environ.get('VERIF_DEBUG'): traceback.print_exc()
    # -- analysis
    def fn(self, pat, public=True, prog=None, pick=None):
        prog = prog or self.P
        xs = prog.find(pat)
        if pick: xs = [x for x in xs if pick(x)]
        if not xs: raise Missing('no function matches %s' % pat, public)
        return xs[0]
    def run(self, inst, args=None, st=None, opaque=(), ignore=(), prog=None, limit=60, **kw):
        prog = prog or self.P
        it = Interp(prog, MODELS, opaque=opaque, ignore=ignore, **kw)
        old = signal.signal(signal.SIGALRM, _alarm); signal.alarm(limit)
        try:
            if args is None: args = [mk('arg', i) for i in range(prog.bodies[inst['id']]['argc'])]
            r = it.analyze(inst, args, dict(st or {}))
        finally:
            signal.alarm(0); signal.signal(signal.SIGALRM, old)
        r['it'] = it; r['args'] = args
        if prog in [v for k, v in self._p.items() if k == 'P' or k == 'client' or k.endswith('.bin') or k.startswith('run_')]:
            for v in it.visited: self.fns.add(prog.insts[v]['name'])
        self.units['abstract evaluations'] = self.units.get('abstract evaluations', 0) + 1
        return r
    def spec(self, name, args, st=None, limit=60, like=None, **kw):
        S = self.S if like is None else self.refs(like)
        inst = self.fn(r'(^|::)%s$' % name, prog=S)
        return self.run(inst, args, st, prog=S, limit=limit, **kw)
    # -- comparing
    def same(self, key, got, want, where='', what='', allow=(), facts=None, strict=False, rule='', unless=()):
        allow = tuple(re.compile(a) for a in allow)
        if got is None or want is None:
            return self.ob(key, UNDET, where, 'no value', rule)
        r, diffs = eqv.decide(got, want, allow, facts)
        self.units['term comparisons'] = self.units.get('term comparisons', 0) + 1
        if r == eqv.EQ: return self.ob(key, PROVED, where, what, rule)
        d = '%s: computed value differs from the reference: %s' % (what, eqv.explain(diffs))
        if os.environ.get('VERIF_DEBUG'):
            print('--', key, r, '\n  GOT ', show(got)[:3000], '\n  WANT', show(want)[:3000])
            for a, b, s in diffs: print('   diff', s, show(a)[:400], ' | ', show(b)[:400])
        if unless and r == eqv.DIFF:        # the same comparison over explicit small inputs is exact: a difference has to show there
            st = {o['key']: o['status'] for o in self.obs if o['key'] in unless}
            if len(st) == len(unless) and all(x == PROVED for x in st.values()): r = eqv.UNK
        return self.ob(key, VIOLATED if r == eqv.DIFF else UNDET, where, d, rule)
    # -- type / field helpers
    def adt(self, name, prog=None):
        prog = prog or self.P
        for t in prog.types:
            if t['k'] == 'adt' and t.get('local') and re.search(r'(^|::)%s$' % name, t['name']): return t
        raise Missing('type %s' % name, False)
    def fidx(self, adt, field, prog=None):
        t = self.adt(adt, prog) if isinstance(adt, str) else adt
        for i, f in enumerate(t['variants'][0]['f']):
            if f[0] == field: return i
        raise Missing('field %s of %s' % (field, adt if isinstance(adt, str) else t['name']), False)
    def floc(self, base, adt, field, prog=None):
        """location (base, path) of a named field of the struct behind pointer term `base`"""
        return (('O', base), (('f', self.fidx(adt, field, prog)),))
    def fld(self, v, adt, field):
        return proj(v, ('f', self.fidx(adt, field)))
    def ref(self, loc):
        return mk('ref', loc[0], loc[1])
    def rd(self, r, loc):
        return r['it'].read(r['st'], loc)
    # -- result
    def finish(self):
        known = load_known()
        viol = [o for o in self.obs if o['status'] == VIOLATED]
        undet = [o for o in self.obs if o['status'] == UNDET]
        proved = [o for o in self.obs if o['status'] == PROVED]
        listed = {k['key'] for k in known if k['property'] == self.prop}
        new = [o for o in viol if o['key'] not in listed]
        old = [o for o in viol if o['key'] in listed]
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        meta = manifest_entry(self.prop)
        rep = os.path.join(VERIF, 'evidence', self.prop + '.report.json')
        json.dump({'property': self.prop, 'obligations': self.obs, 'functions': sorted(self.fns)}, open(rep, 'w'), indent=1)
        cov = {'obligations': len(self.obs), 'discharged': len(proved), 'undetermined': len(undet), 'violated': len(viol),
               'functions_analysed': len(self.fns), 'units': self.units,
               'explanation': EXPL.get(self.prop, 'obligations decided on the value graphs / call graph extracted from the current source'),
               'rules': sorted({o['rule'] for o in self.obs if o['rule']}),
               'samples': [{'obligation': o['key'], 'status': o['status'], 'at': o['where'], 'detail': o['detail'][:300]} for o in (viol + undet + proved)[:25]],
               'checker_cmd': 'python3 %s/engine/check.py %s --tier %s' % (VERIF, self.prop, self.tier),
               'trusted_base': 'rustc nightly MIR as produced for /repo; models of std/rayon calls in engine/models.py; reference definitions in spec/src'}
        cov.update(self.info)
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': (meta or {}).get('level', 'other'), 'coverage': cov,
              'assumptions': self.assumptions or ['release semantics (debug assertions off, wrapping integer overflow); float identities are taken modulo rounding and NaN where normal forms are not identical'],
              'wall_s': round(time.time() - self.t0, 2),
              'violations': [{'key': o['key'], 'where': o['where'], 'detail': o['detail'][:600]} for o in new]}
        json.dump(ev, open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w'), indent=1)
        for o in old: print('KNOWN-FINDING: property=%s %s' % (self.prop, o['key']))
        print('%s: %d obligations, %d proved, %d undetermined, %d violated (%d known) in %.1fs' % (self.prop, len(self.obs), len(proved), len(undet), len(viol), len(old), time.time() - self.t0))
        for o in undet: print('  undetermined: %s (%s)' % (o['key'], o['detail'][:160]))
        for o in new:
            print('  violated: %s at %s: %s' % (o['key'], o['where'], o['detail'][:600]))
        if not self.obs:
            print('VIOLATION property=%s replay=%s' % (self.prop, rep)); return 1
        if new:
            print('VIOLATION property=%s replay=%s' % (self.prop, rep)); return 1
        return 0

# ---- results, panics
OKU = agg('std::result::Result', 0, (UNIT,)); ERR = agg('std::result::Result', 1, (UNIT,))
def shape(v, unit=False):
    """a Result with the error payload forgotten"""
    def f(x):
        if x.op == 'agg': return ERR if x.args[0].endswith('Result') and x.args[1] == 1 else x
        if x.op in ('undef', 'ux'): return x
        d = eq(discr(x, 2), I(0))
        if is_node(x): return x
        return ite(d, OKU if unit else agg('std::result::Result', 0, (proj(x, ('vf', 0, 0)),)), ERR)
    return lift('shape%d' % unit, f, v)
def states_of(r):
    return {b[1]: v for b, v in r['st'].items() if b[0] == 'O' and v is not mk('deref', b[1])}
def panics(es):
    """(line, condition) of everything that can panic, loops included"""
    out = []
    for e in es:
        if e[0] == 'loop': out += [(l, AND(e[1], x)) for l, x in panics(e[2][3])]
        elif e[0] == 'panic': out.append((e[4], AND(e[1], e[2][0])))
        elif e[0] == 'assert': out.append((e[4], AND(e[1], NOT(e[2][1]))))
    return [(l, x) for l, x in out if x is not FALSE]
def no_panic(c, key, r, where, allow=()):
    c.ob(key + '/no-panic', PROVED, where, 'no reachable panic', 'path conditions of panics') if not panics(r['events']) else None
    for i, (l, x) in enumerate(panics(r['events'])):
        c.same('%s/no-panic/%d' % (key, i), x, FALSE, where + ' line %s' % l, 'panic must be unreachable', allow=allow, rule='path conditions of panics')

class Missing(Exception):
    def __init__(self, msg, public): super().__init__('anchor missing: ' + msg); self.public = public

EXPL = {}
def load_known():
    p = os.path.join(VERIF, 'known_findings.jsonl')
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('{'):
                d = json.loads(l)
                if d.get('status') == 'open': out.append(d)
    return out
def manifest_entry(prop):
    try:
        m = json.load(open(os.path.join(VERIF, 'MANIFEST.json')))
        for c in m['checks']:
            if c['property'] == prop: return c
    except Exception: pass
    return None
