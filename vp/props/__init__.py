"""One module per property: HARNESSES, BOUNDS, OUTSIDE, ASSUMPTIONS."""
import importlib

COMMON_ASSUMPTIONS = [
    'arithmetic is exact over the reals: floating-point rounding is outside the claim',
    'numpy array structure (stacking, slicing, broadcasting, views) is executed by numpy itself on arrays of symbolic scalars',
]


def mod(prop):
    return importlib.import_module('vp.props.' + prop.lower())


def harnesses(prop):
    return mod(prop).HARNESSES


def info(prop):
    m = mod(prop)
    return {'bounds': m.BOUNDS, 'outside': m.OUTSIDE, 'assumptions': COMMON_ASSUMPTIONS + getattr(m, 'ASSUMPTIONS', [])}


def limit(prop, tier):
    m = mod(prop)
    return getattr(m, 'LIMIT', {}).get(tier, 600 if tier == 'quick' else 3600)
