"""Rigorous bounds for frequencies: a count is called wrong only if a correct
random source produces one at least as far off with probability below 1e-12
(Chernoff bound), so that no reordering of the draws can raise an alarm."""
import math

LN = 27.7                      # -ln(1e-12)


def kl(a, p):
    if a == p:
        return 0.0
    if p <= 0.0 or p >= 1.0:
        return math.inf
    out = 0.0
    if a > 0:
        out += a * math.log(a / p)
    if a < 1:
        out += (1 - a) * math.log((1 - a) / (1 - p))
    return out


def wrong(hits, n, p):
    """hits of n independent trials of probability p: too far off?"""
    if n == 0:
        return False
    return n * kl(hits / n, min(1.0, max(0.0, p))) > LN


def wrong_range(hits, n, lo, hi):
    """The same for a probability only known to lie between lo and hi."""
    f = hits / n if n else lo
    if lo <= f <= hi:
        return False
    return wrong(hits, n, lo if f < lo else hi)
