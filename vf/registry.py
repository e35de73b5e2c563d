"""contract harness registration"""
REG = []


class Harness:
    def __init__(self, name, fn, args, opts):
        self.name, self.fn, self.args, self.opts = name, fn, args, opts


def contract(name, params=None, **opts):
    """opts: bounded='reason' (no symbolic run: the stated bounded check only), tier='thorough' (thorough tier only),
    samples=N concrete runs, time=s symbolic seconds, timeout_ms per query, max_paths, expect=[labels that must be reached]"""
    def deco(fn):
        ps = params() if callable(params) else params
        if ps is None:
            REG.append(Harness(name, fn, (), opts))
        else:
            for p in ps:
                a = p if isinstance(p, tuple) else (p,)
                REG.append(Harness(name + "[" + ",".join(str(getattr(x, "__name__", x)) for x in a) + "]", fn, a, opts))
        return fn
    return deco
