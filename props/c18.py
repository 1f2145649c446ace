"""C18, see blocks.py for the format."""
from .large import BOUNDS as LARGE_BOUNDS
from .blocks import standard_cases

BOUNDS = ['the listed versions and sizes, every value of every field and element', LARGE_BOUNDS]
OUTSIDE = ['larger arrays']


def cases(tier):
    return standard_cases('C18', tier)
