"""C29, see blocks.py for the format."""
from .large import BOUNDS as LARGE_BOUNDS
from .blocks import standard_cases

BOUNDS = ['0 to 3 histograms, up to 6 bins, titles of 0 to 5 bytes with characters of 1 to 4 bytes, every field value', LARGE_BOUNDS]
OUTSIDE = ['more bins or histograms, longer titles']


def cases(tier):
    return standard_cases('C29', tier)
