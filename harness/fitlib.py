"""Fits used by the sampler checks: module-level (picklable) model functions,
data, and an independent formula for the log-probability."""
import math
import time

import numpy as np

import vlib

nm = vlib.load_naima()
from astropy import units as u  # noqa: E402
from astropy.table import QTable  # noqa: E402

E = np.array([1.0, 2.0, 4.0, 8.0]) * u.TeV
B = 1e-12 / u.cm**2 / u.s / u.TeV
SHAPE = np.array([1.0, 0.25, 0.0625, 0.015625])
LO = np.array([0.25, 0.125, 0.03125, 0.0078125])
HI = LO * 2
CL = 0.95
DELAY = []          # milliseconds, looked up by a hash of the parameters


def table(ul=True, sed=False):
    t = QTable()
    t["energy"] = E
    f = E**2 if sed else np.ones(4)
    t["flux"] = SHAPE * B * f
    t["flux_error_lo"] = LO * B * f
    t["flux_error_hi"] = HI * B * f
    if ul:
        t["ul"] = [False, False, False, True]
    t.meta["keywords"] = {"cl": {"value": CL}}
    return t


def _x():
    return E.to_value("TeV")


def spec(p):
    p = np.asarray(p, dtype=float)
    y = p[0] * _x() ** -p[1]
    for i, q in enumerate(p[2:]):
        y = y * (1 + 0.01 * q * np.log(_x()) ** (i + 1))
    return y * B


def _wait(p):
    if DELAY:
        h = int(abs(float(np.sum(np.asarray(p) * 1e6)))) % len(DELAY)
        time.sleep(DELAY[h] * 1e-3)


def m_plain(p, d):
    _wait(p)
    return spec(p)


def m_tuple(p, d):
    _wait(p)
    return spec(p), p[0] * 2.0 * u.erg, float(p[1])


def m_same(p, d):
    _wait(p)
    return spec(p), 2 * spec(p)


def m_pair(p, d):
    _wait(p)
    x = np.array([1.0, 3.0, 9.0]) * u.TeV
    return [spec(p), (x, p[0] * x.value**-2 * B), p[0] * u.erg]


def m_sed(p, d):
    _wait(p)
    return (spec(p) * E**2).to("erg/(cm2 s)")


def want(name, p):
    """outputs expected in the blobs"""
    f = MODELS[name]
    d, DELAY[:] = list(DELAY), []
    try:
        r = f(p, None)
    finally:
        DELAY[:] = d
    return list(r) if isinstance(r, (tuple, list)) else [r]


MODELS = dict(plain=m_plain, tuple=m_tuple, same=m_same, pair=m_pair, sed=m_sed)


def prior_box(p):
    return (nm.uniform_prior(p[0], 0.5, 2.0) + nm.uniform_prior(p[1], 1.0, 3.0))


def prior_wide(p):
    return nm.normal_prior(p[1], 2.0, 0.5) + nm.uniform_prior(p[0], 0, np.inf)


def prior_tight(p):
    return nm.uniform_prior(p[0], 0.95, 1.05)


PRIORS = dict(none=None, box=prior_box, wide=prior_wide, tight=prior_tight)


def lp(p, prior, ul=True):
    """independent log-probability (differential flux, one upper limit)"""
    pr = 0.0
    if prior == "box":
        pr = 0.0 if 0.5 <= p[0] <= 2 and 1 <= p[1] <= 3 else -math.inf
    elif prior == "tight":
        pr = 0.0 if 0.95 <= p[0] <= 1.05 else -math.inf
    elif prior == "wide":
        pr = (-0.5 * math.log(2 * math.pi * 0.25) - (p[1] - 2) ** 2 / 0.5
              if p[0] >= 0 else -math.inf)
    if math.isinf(pr):
        return pr
    y = spec(p).to(B.unit).value / B.value
    n = 3 if ul else 4
    t = 0.0
    for i in range(n):
        d = y[i] - SHAPE[i]
        t -= 0.5 * (d / (HI[i] if d > 0 else LO[i])) ** 2
    if ul and y[3] > SHAPE[3]:
        t += math.log(1 - CL)
    return t + pr


def same(a, b, rtol=1e-11):
    """equal outputs: same structure, equivalent units, values within rtol"""
    if isinstance(a, (tuple, list)) or isinstance(b, (tuple, list)):
        return (isinstance(a, (tuple, list)) and isinstance(b, (tuple, list))
                and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b)))
    if isinstance(a, u.Quantity) != isinstance(b, u.Quantity):
        return False
    if isinstance(a, u.Quantity):
        try:
            b = b.to(a.unit).value
        except u.UnitsError:
            return False
        a = a.value
    if isinstance(a, str):
        return a == b
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= rtol * np.abs(a)))
