"""C12, see blocks.py for the format."""
from .large import BOUNDS as LARGE_BOUNDS
from .blocks import standard_cases

BOUNDS = ['0 to 3 bunches (every mix of photons and emitters for 2, selected ones for 3), every field value, every object id and version', LARGE_BOUNDS]
OUTSIDE = ['more bunches in one object', 'rounding of the scaled compact values below 1e-6 relative (1e-4 for the emission height)', 'negative object ids']


def cases(tier):
    return standard_cases('C12', tier)
