"""Placed rooms stay within the map"""
from . import placement as P

RUNS = {'quick': 1500, 'thorough': 28000}
RULE, MEASURE, REAL, STUB, ASSUME = P.RULE, P.MEASURE, P.REAL, P.STUB, P.ASSUME
gen = P.gen


def run(sc, ctx):
    w = P.simulate(sc, ctx, {'P07'})
    if w.phase == 'idle':
        P.cap(w, ctx)
        if sc.get('draw'):
            P.draw(w, ctx)
