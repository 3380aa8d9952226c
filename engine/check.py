#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]"""
import sys, os, importlib, resource
if not os.environ.get('VERIF_STK'):
    try: resource.setrlimit(resource.RLIMIT_STACK, (resource.getrlimit(resource.RLIMIT_STACK)[1],) * 2)
    except Exception: pass
    os.environ['VERIF_STK'] = '1'; os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core
def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv: tier = sys.argv[sys.argv.index('--tier') + 1]
    c = core.Check(prop, tier, int(os.environ.get('VERIF_SEED', '1') or 1))
    try:
        m = importlib.import_module('props.' + prop.lower())
        core.EXPL[prop] = ' '.join((m.__doc__ or '').split())
        m.check(c)
    except core.Fatal as e:
        print(e)
        c.ob('extraction', core.VIOLATED, core.REPO, str(e)[-1500:])
    return c.finish()
rc = []
def run():
    import traceback
    try: rc.append(main())
    except SystemExit as e: rc.append(e.code)
    except BaseException:
        traceback.print_exc()
        print('%s: analysis failed, nothing decided' % sys.argv[1]); rc.append(0)
run()
sys.stdout.flush()
os._exit(rc[0] if rc else 1)
