"""build the extraction driver and warm the dependency build"""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core
core.build_driver()
core.repo_prog(); core.spec_prog()
try: core.client_prog()
except core.Fatal as e: print(str(e)[-500:])
print('ok')
