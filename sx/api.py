"""Parts of the scenario interface shared by both worlds."""
import os

DATA = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'data')

V3, V4, V41 = 'v3_aes256_gz', 'v4_chacha20_argon2_gz', 'v41_aes256_argon2_gz'


class Scen:
    def __init__(self, fn, name=None, quick=True, weight=1):
        self.fn, self.name, self.quick, self.weight = fn, name or fn.__name__, quick, weight


def scenario(quick=True, weight=1, **params):
    """decorator: registers fn(cx, **one combination of params) for every combination"""
    import itertools

    def deco(fn):
        reg = fn.__globals__.setdefault('SCENARIOS', [])
        keys = list(params)
        for combo in itertools.product(*[params[k] for k in keys]):
            kw = dict(zip(keys, combo))
            name = fn.__name__ + ('[' + ','.join('%s=%s' % (k, v) for k, v in kw.items()) + ']' if kw else '')
            q = quick(**kw) if callable(quick) else quick
            reg.append({'fn': fn, 'kw': kw, 'name': name, 'quick': q, 'weight': weight})
        return fn
    return deco
