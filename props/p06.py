"""Placed rooms never overlap"""
from . import placement as P

RUNS = {'quick': 1600, 'thorough': 30000}
RULE, MEASURE, REAL, STUB, ASSUME = P.RULE, P.MEASURE, P.REAL, P.STUB, P.ASSUME
gen = P.gen


def run(sc, ctx):
    w = P.simulate(sc, ctx, {'P06'})
    if w.phase == 'idle':
        P.cap(w, ctx)
