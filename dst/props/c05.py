"""C05: histories of geometric file edits follow the pixel-grid model."""
from . import hist
from .common import *
from .. import edits

ID = 'C05'
QUICK, THOROUGH = 9000, 300000
TECH = 'histories of file edits with storage faults, interruptions and restarts, against a pixel-grid model'
NOTE = ('Trusts the independent pixel-grid model in dst/edits.py. Below 8 bits, region and circle edits work on '
        'whole bytes, which the model mirrors; what the unused bits behind a row bring in, and the last line of line '
        'erasing, may go either way.')
RULE = ('one run = 1-3 random pictures (1/4/8/24 bit, 1..28 pixels a side, own or foreign layout) in four file '
        'slots and 1-8 geometric edits between slots (30% in memory) with arguments drawn for the picture met (regions, discs, '
        'factors, 10% out of range), 30% of the edits disturbed by a storage fault, allocation failure, Ctrl-C '
        'or crash and partly retried; distinct = distinct event log; non-trivial = at least one edit executed')
STATES = 'distinct (edit, depth, expected kind, disturbance, outcome, in place, width class, small dimensions)'


def scenario(rng, i, tier):
    names = sorted(n for n, e in edits.E.items() if e.group == 'geom')
    return hist.make(rng, names, 8 if tier == 'quick' else 14)


execute = hist.execute
