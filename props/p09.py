"""Mirrored maps are exactly symmetric"""
from . import placement as P

RUNS = {'quick': 1600, 'thorough': 36000}
RULE, MEASURE, REAL, STUB, ASSUME = P.RULE, P.MEASURE, P.REAL, P.STUB, P.ASSUME
gen = P.gen


def run(sc, ctx):
    P.simulate(sc, ctx, {'P09'})
