"""Runs cases of one property in this process and writes JSON lines."""
import importlib
import json
import os
import signal
import sys
import time
import warnings


def _alarm(signum, frame):
    from .core import CaseTimeout
    raise CaseTimeout()


def run_case(module, prop, seed, index, tier, limit):
    from .core import Ctx, Skip, Inconclusive, CaseTimeout
    import numpy as np
    import random
    from sympy.core.cache import clear_cache
    clear_cache()
    ctx = Ctx(prop, seed, index, tier)
    np.random.seed(ctx.rng.randrange(2 ** 31))
    random.seed(ctx.rng.randrange(2 ** 31))
    signal.signal(signal.SIGALRM, _alarm)
    t0 = time.time()
    status = 'ok'
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        with np.errstate(all='ignore'):
            module.case(ctx)
    except Skip as err:
        status = 'skip'
        ctx.tag('skip:' + str(err)[:60])
    except Inconclusive as err:
        ctx.inconclusive.append(str(err)[:200])
    except CaseTimeout:
        status = 'timeout'
        ctx.inconclusive.append('case time limit')
    except (MemoryError, OSError) as err:
        ctx.inconclusive.append(repr(err)[:200])
    except Exception as err:
        ctx.unexpected(err)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        if 'matplotlib.pyplot' in sys.modules:
            sys.modules['matplotlib.pyplot'].close('all')
    out = ctx.result()
    out['status'] = status
    out['wall'] = round(time.time() - t0, 3)
    return out


def main():
    prop, seed, tier, w, n, total, limit, deadline, path = sys.argv[1:10]
    only = [int(i) for i in sys.argv[10].split(',')] if len(sys.argv) > 10 else None
    seed, w, n, total = int(seed), int(w), int(n), int(total)
    limit, deadline = float(limit), float(deadline)
    warnings.simplefilter('ignore')
    repo = os.environ.get('SYMMON_REPO', '/repo')
    sys.path.insert(0, repo)
    with open(path, 'w', buffering=1) as fh:
        module = importlib.import_module('symmon.checks.' + prop.lower())
        import symfit
        real = os.path.realpath(symfit.__file__)
        if not real.startswith(os.path.realpath(repo) + os.sep):
            fh.write(json.dumps({'fatal': 'symfit imported from ' + real}) + '\n')
            return
        warnings.simplefilter('ignore')
        for index in (only if only is not None else range(w, total, n)):
            if time.time() > deadline:
                fh.write(json.dumps({'stopped': index}) + '\n')
                break
            fh.write(json.dumps({'begin': index}) + '\n')
            out = run_case(module, prop, seed, index, tier, limit)
            fh.write(json.dumps(out, default=str) + '\n')
        fh.write(json.dumps({'done': True}) + '\n')


if __name__ == '__main__':
    main()
