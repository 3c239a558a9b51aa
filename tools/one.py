"""Run one case in this process with a traceback: one.py C15 180 [seed]"""
import sys, importlib, os, warnings, traceback
warnings.simplefilter('ignore'); os.environ.setdefault('MPLBACKEND','Agg')
sys.path[:0] = [os.environ.get('SYMMON_REPO', '/repo'), '/verif']
from symmon import core
import numpy as np
prop, i = sys.argv[1], int(sys.argv[2]); seed = sys.argv[3] if len(sys.argv) > 3 else '1'
np.seterr(all='ignore')
mod = importlib.import_module('symmon.checks.' + prop.lower())
ctx = core.Ctx(prop, int(seed), i, 'quick')
np.random.seed(ctx.rng.randrange(2 ** 31))
try: 
    import random; random.seed(ctx.rng.randrange(2 ** 31)); mod.case(ctx)
except BaseException: traceback.print_exc()
for k, v in ctx.desc.items(): print(k, ':', str(v)[:600])
print(ctx.tags)
for v in ctx.violations: print(str(v)[:1500])
print(ctx.inconclusive)
