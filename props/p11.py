"""The list of open doorways is always exact"""
from . import placement as P

RUNS = {'quick': 1800, 'thorough': 40000}
RULE, MEASURE, REAL, STUB, ASSUME = P.RULE, P.MEASURE, P.REAL, P.STUB, P.ASSUME
gen = P.gen


def run(sc, ctx):
    P.simulate(sc, ctx, {'P11'})
