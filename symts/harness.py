"""Declaring check cases."""


class Case:
    def __init__(self, fn, kw, tier, opts):
        self.fn, self.kw, self.tier, self.opts = fn, kw, tier, opts

    @property
    def name(self):
        return self.fn.__name__ + "(" + ", ".join("%s=%r" % (k, v) for k, v in self.kw.items()) + ")"


def cases(registry, quick, thorough=(), **opts):
    """decorator: register fn(W, **kw) for each kw dict of quick (both tiers) and thorough"""
    def deco(fn):
        for kw in quick:
            registry.append(Case(fn, dict(kw), "quick", opts))
        for kw in thorough:
            registry.append(Case(fn, dict(kw), "thorough", opts))
        return fn
    return deco


def grid(**lists):
    import itertools
    ks = list(lists)
    return [dict(zip(ks, v)) for v in itertools.product(*[lists[k] for k in ks])]
