#!/opt/veriftools/pyvenv/bin/python
"""check.py <id> [--replay file]: decides one property of /repo (see DESIGN.md)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'engine'))
sys.dont_write_bytecode = True
import driver, checks
cid = sys.argv[1]
spec = checks.CHECKS[cid]
if '--replay' in sys.argv:
    sys.exit(driver.replay_file(cid, spec, sys.argv[sys.argv.index('--replay') + 1]))
tier = os.environ.get('VERIF_TIER', 'quick')
if '--thorough' in sys.argv:
    tier = 'thorough'
seed = int(os.environ.get('VERIF_SEED', '1') or 1)
sys.exit(driver.Check(cid, spec, tier, seed).run())
