"""Room placement terminates and reaches its target when it can"""
from . import placement as P

RUNS = {'quick': 2000, 'thorough': 45000}
RULE, MEASURE, REAL, STUB, ASSUME = P.RULE, P.MEASURE, P.REAL, P.STUB, P.ASSUME
gen = P.gen


def run(sc, ctx):
    P.simulate(sc, ctx, {'P10'})
