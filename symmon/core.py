"""Case context and monitors shared by every check.

A *case* drives symfit with one generated workload.  Monitors judge what is
observed by calling ``ctx.check`` / ``ctx.close``; every judged observation is
counted by name so the evidence shows what the oracles actually saw.
"""
import hashlib
import json
import random
import traceback

import numpy as np


class Skip(Exception):
    """The generated workload does not meet the property's preconditions."""


class Inconclusive(Exception):
    """Nothing can be concluded from this execution (never a violation)."""


class CaseTimeout(BaseException):
    pass


def jsonable(obj, depth=0):
    if depth > 6:
        return str(obj)[:80]
    if isinstance(obj, (str, bool, int)) or obj is None:
        return obj
    if isinstance(obj, (float, np.floating)):
        return float(obj)
    if isinstance(obj, (np.integer,)):
        return int(obj)
    if isinstance(obj, np.ndarray):
        return jsonable(obj.tolist() if obj.size <= 24 else
                        {'shape': list(obj.shape), 'head': obj.ravel()[:6].tolist()}, depth + 1)
    if isinstance(obj, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in obj.items()}
    if isinstance(obj, (list, tuple, set, frozenset)):
        return [jsonable(v, depth + 1) for v in obj]
    return str(obj)[:400]


class Ctx(object):
    def __init__(self, prop, seed, index, tier):
        self.prop, self.seed, self.index, self.tier = prop, seed, index, tier
        key = '{}/{}/{}'.format(prop, seed, index)
        digest = hashlib.sha256(key.encode()).digest()
        self.rng = random.Random(digest)
        self.np = np.random.default_rng(list(digest[:16]))
        self.evals = 0
        self.by_name = {}
        self.tags = {}
        self.violations = []
        self.known = []
        self.desc = {}
        self.nontrivial = False
        self.inconclusive = []

    # -- what this case is ---------------------------------------------------
    def describe(self, **kw):
        self.desc.update(jsonable(kw))

    def tag(self, *names):
        for name in names:
            self.tags[str(name)] = self.tags.get(str(name), 0) + 1

    # -- judging ---------------------------------------------------------------
    def check(self, name, ok, **detail):
        self.evals += 1
        self.by_name[name] = self.by_name.get(name, 0) + 1
        self.nontrivial = True
        ok = bool(ok)
        if not ok:
            self.violations.append({'monitor': name, 'detail': jsonable(detail)})
        return ok

    def close(self, name, got, want, rtol=1e-8, atol=1e-9, shape=True, **detail):
        """``got`` equals ``want`` to tolerance, in shape too when asked."""
        try:
            g = np.asarray(got, dtype=complex if np.iscomplexobj(got) else float)
        except (TypeError, ValueError):
            return self.check(name, False, got=got, want=want, why='not numeric', **detail)
        w = np.asarray(want, dtype=float)
        if shape and g.shape != w.shape:
            return self.check(name, False, got=g, want=w, why='shape {} != {}'.format(g.shape, w.shape), **detail)
        try:
            g, w = np.broadcast_arrays(g, w)
        except ValueError:
            return self.check(name, False, got=g, want=w, why='shape', **detail)
        with np.errstate(all='ignore'):
            err = np.abs(g - w)
            ok = np.all((err <= atol + rtol * np.abs(w)) | (g == w) | (np.isnan(g) & np.isnan(w)))
        if not ok:
            with np.errstate(all='ignore'):
                detail.setdefault('max_err', float(np.nanmax(err)) if err.size else 0.0)
            return self.check(name, False, got=g, want=w, **detail)
        return self.check(name, True)

    def raises(self, name, exc, func, *args, **kwargs):
        """func(*args, **kwargs) is refused with an exception of type exc."""
        try:
            out = func(*args, **kwargs)
        except exc:
            return self.check(name, True)
        except CaseTimeout:
            raise
        except Exception as err:
            return self.check(name, False, why='raised {!r} instead'.format(err)[:300])
        return self.check(name, False, why='accepted', returned=out)

    def known_finding(self, fid, **detail):
        """A violation recognised, by mechanism, as a listed known finding."""
        self.evals += 1
        self.by_name['known:' + fid] = self.by_name.get('known:' + fid, 0) + 1
        self.known.append({'finding': fid, 'detail': jsonable(detail)})

    def unexpected(self, err):
        tb = traceback.extract_tb(err.__traceback__)
        where = ['{}:{}:{}'.format('/'.join(f.filename.split('/')[-3:]), f.lineno, f.name) for f in tb][-6:]
        self.check('unexpected-exception', False, error=repr(err)[:500], where=where)

    def result(self):
        blob = json.dumps(self.desc, sort_keys=True, default=str)
        return {
            'index': self.index, 'evals': self.evals, 'by_name': self.by_name,
            'tags': self.tags, 'violations': self.violations, 'known': self.known,
            'desc': self.desc, 'sig': hashlib.sha1(blob.encode()).hexdigest()[:16],
            'nontrivial': self.nontrivial, 'inconclusive': self.inconclusive,
        }
