#!/usr/bin/env python3
"""plant.py ID PROP NEEDS BREAKS DEMO.rs FILE OLD NEW [FILE OLD NEW ...]: create /verif/seeded/ID and try it in a scratch copy.
plant.py --test ID: only try it.   (scratch copy: /tmp/seedw, sources re-synced from /repo each time)"""
import sys, os, subprocess, json, shutil
V = '/verif/seeded'; W = '/tmp/seedw'
CLI = """#!/bin/bash
# exit 0: property holds for the demonstrated case
HERE=$(cd "$(dirname "$0")" && pwd); REPO=$(pwd)
W=/tmp/bitboost-demo-@ID@
rm -rf /tmp/bitboost-demo-@ID@; mkdir -p "$W" || exit 2
trap 'rm -rf /tmp/bitboost-demo-@ID@' EXIT
cd "$REPO" || exit 2
CARGO_TARGET_DIR="$W/target" CARGO_NET_OFFLINE=true cargo build --offline -q --bin run_bitboost 2> "$W/build.log" || { tail -20 "$W/build.log"; exit 2; }
BIN="$W/target/debug/run_bitboost"; cd "$W" || exit 2
. "$HERE/cli.sh"
"""
PY = """#!/bin/bash
# exit 0: property holds for the demonstrated case
HERE=$(cd "$(dirname "$0")" && pwd); REPO=$(pwd)
W=/tmp/bitboost-demo-@ID@
rm -rf /tmp/bitboost-demo-@ID@; mkdir -p "$W" || exit 2
trap 'rm -rf /tmp/bitboost-demo-@ID@' EXIT
cd "$REPO" || exit 2
CARGO_TARGET_DIR="$W/target" CARGO_NET_OFFLINE=true cargo build --offline -q --lib 2> "$W/build.log" || { tail -20 "$W/build.log"; exit 2; }
cp -r python/bitboost "$W/bitboost" && cp python/bitboost_config.gen.csv "$W/target/debug/libbitboost.so" "$W/bitboost/" || exit 2
cd "$W" || exit 2
cat > run.py <<'END'
# scikit-learn is not installed here: stand-ins for the few names the package imports
import sys, types
for n in ('sklearn', 'sklearn.base', 'sklearn.utils', 'sklearn.utils.validation', 'sklearn.utils.estimator_checks'): sys.modules[n] = types.ModuleType(n)
class Base:
    def get_params(self): return {k: v for k, v in self.__dict__.items() if not k.startswith('_')}
sys.modules['sklearn.base'].BaseEstimator = Base
v = sys.modules['sklearn.utils.validation']
v.check_X_y = lambda X, y, **k: (X, y); v.check_array = lambda X, **k: X; v.check_is_fitted = lambda *a: None
sys.modules['sklearn.utils.estimator_checks'].check_estimator = None
END
cat "$HERE/demo.py" >> run.py
timeout 120 python3-vt run.py > out.log 2>&1; rc=$?
tail -5 out.log
exit $rc
"""
DEMO = '''#!/bin/bash
# exit 0: property holds for the demonstrated case
HERE=$(cd "$(dirname "$0")" && pwd); REPO=$(pwd)
W=/tmp/bitboost-demo-@ID@
rm -rf /tmp/bitboost-demo-@ID@; mkdir -p "$W/src" || exit 2
trap 'rm -rf /tmp/bitboost-demo-@ID@' EXIT
cp "$HERE/demo.rs" "$W/src/main.rs"
printf '[package]\\nname="demo"\\nversion="0.1.0"\\nedition="2018"\\n[dependencies]\\nbitboost={path="%s"}\\n[workspace]\\n' "$REPO" > "$W/Cargo.toml"
[ -f Cargo.lock ] && cp Cargo.lock "$W/Cargo.lock"
cd "$W" || exit 2
export CARGO_TARGET_DIR="$W/target" CARGO_NET_OFFLINE=true
cargo build --offline -q 2> build.log || { tail -20 build.log; exit 2; }
cd "$W" && exec_out=$(timeout 120 "$W/target/debug/demo" 2>&1); rc=$?
echo "$exec_out" | tail -5
exit $rc
'''
def sh(c, cwd=None, env=None, t=900):
    e = dict(os.environ); e.update(env or {})
    p = subprocess.run(c, shell=True, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
    return p.returncode, p.stdout
def sync():
    if not os.path.isdir(W): sh('cp -a /repo %s' % W)
    sh('rm -rf /tmp/seedw/src /tmp/seedw/python && cp -a /repo/src /repo/python /tmp/seedw/ && rm -rf /tmp/seedw/.git && cp -a /repo/.git /tmp/seedw/.git && git -C /tmp/seedw checkout -q -- .')
def tests():
    rc, o = sh('cargo test --workspace --no-fail-fast --offline -- --test-threads 8', cwd=W, env={'CARGO_TARGET_DIR': W + '/target', 'RUSTUP_TOOLCHAIN': 'stable-x86_64-unknown-linux-gnu', 'CARGO_TERM_COLOR': 'never', 'CARGO_PROFILE_DEV_DEBUG': 'line-tables-only'})
    base = json.load(open('/opt/vp/BASELINE.json'))
    ok = {l.split()[1] for l in o.splitlines() if l.startswith('test ') and l.rstrip().endswith('... ok')}
    bad = [n for n in base['stable'] if n.split('::', 1)[1] not in ok]
    return bad, o
def test(i):
    d = os.path.join(V, i); m = json.load(open(d + '/meta.json'))
    sync()
    rc0, o0 = sh('bash %s/demo.sh' % d, cwd=W)
    rc, o = sh('git apply %s/patch.diff' % d, cwd=W)
    if rc: print('APPLY FAILED', o); return
    bad, out = tests()
    rc1, o1 = sh('bash %s/demo.sh' % d, cwd=W)
    res = []
    for p in m['property'].split(','):
        rc2, o2 = sh('python3 /verif/engine/check.py %s' % p, env={'VERIF_REPO': W})
        res.append((p, rc2, o2))
    print('%s: demo clean rc=%d, patched rc=%d, failing stable tests: %s, check: %s' % (i, rc0, rc1, bad[:5], [(p, r) for p, r, _ in res]))
    if rc0: print('  clean:', o0[-600:])
    if rc1 in (0, 2): print('  patched:', o1[-600:])
    if bad and len(bad) > 10: print(out[-800:])
    for p, r, o in res: print('   ', '\n    '.join(l[:300] for l in o.splitlines() if 'violated:' in l or 'VIOLATION' in l or 'undetermined:' in l)[:900])
    sync()
if sys.argv[1] == '--test':
    for i in sys.argv[2:]: test(i)
    sys.exit()
i, prop, needs, breaks, demo = sys.argv[1:6]
d = os.path.join(V, i); os.makedirs(d, exist_ok=True)
sync()
r = sys.argv[6:]
while r:
    f, old, new = r[:3]; r = r[3:]
    s = open(W + '/' + f).read(); n = s.count(old)
    if n != 1: print('pattern occurs %d times in %s' % (n, f)); sys.exit(2)
    open(W + '/' + f, 'w').write(s.replace(old, new))
rc, o = sh('git diff', cwd=W); open(d + '/patch.diff', 'w').write(o)
if demo.endswith('.sh'):          # runs the command line program ($BIN) in the scratch directory
    open(d + '/demo.sh', 'w').write(CLI.replace('@ID@', i)); shutil.copy(demo, d + '/cli.sh'); demo = d + '/demo.rs'
elif demo.endswith('.py'): open(d + '/demo.sh', 'w').write(PY.replace('@ID@', i)); shutil.copy(demo, d + '/demo.py'); demo = d + '/demo.rs'
else: open(d + '/demo.sh', 'w').write(DEMO.replace('@ID@', i))
if os.path.abspath(demo) != d + '/demo.rs': shutil.copy(demo, d + '/demo.rs')
json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
test(i)
