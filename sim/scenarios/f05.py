"""Histories of operations and edits on one or two stiffened bays: every result is what the definition at that moment gives."""
from .. import common as Z
from .. import histories as H
from .. import models as M

RUNS = dict(quick=5000, thorough=60000)
WALL = dict(quick=60, thorough=780)
RULE = ('one simulated history = one seed: initial definition, operations with their arguments, edits of the definition and overwritten results, all drawn from it; '
        'non-trivial when it has at least one edit and two operations')
DISTINCT = 'distinct digests of all the results of a history'
REAL = Z.REAL
STUB = ['contents of fresh memory (libsim)', 'reference: independent dense NumPy model']
ASSUME = ['edits keep the definition consistent (as many plies as thicknesses, stiffeners on panel edges)']


def preload():
    M.kappa_probe()


def gen(rng, tier, i):
    return H.gen_history(rng, 'bay', rng.randint(4, 14) if tier == 'quick' else rng.randint(4, 40))


def run(plan, ctx):
    H.run_history(plan, ctx)


shrink = H.shrink_history
