"""Samplers with given contents, and the outputs of their model functions on an
integer lattice, behind the abstract chains of Chain.tla.

A run is a record (made by TLC) with fields
  ch   chain of integer vectors [step][walker][parameter]
  lp   log-probability [step][walker] (MINF: minus infinity)
  lay  kinds of the model outputs
  lab  kinds of the labels: plain, log10, log, with variants of spelling
"""
import math

import numpy as np

import vlib

nm = vlib.load_naima()
import matplotlib  # noqa: E402

matplotlib.use("Agg")
import emcee  # noqa: E402
from astropy import units as u  # noqa: E402
from astropy.table import QTable  # noqa: E402
from naima.core import get_sampler  # noqa: E402

MINF = -99
E = np.array([1.0, 2.0, 4.0, 8.0]) * u.TeV
B = 1e-12 / u.cm**2 / u.s / u.TeV
LB = 1e30 / u.s / u.TeV
PE = np.array([0.5, 4.0, 32.0]) * u.TeV
UNIT = dict(plain=1.0, log10=1.0, log=math.log(2.0))
LABELS = dict(plain=["norm", "index", "B", "n o r m", "t2", "\u0393",
                    "norm of the second component, " * 3],
              log10=["log10(cutoff)", "log10(A)", "my log10(x)"],
              log=["log(amp)", "log(B)", "ln: log(x)"])


INNER = {"log10(cutoff)": "cutoff", "log10(A)": "A", "my log10(x)": "x", "log(amp)": "amp",
         "log(B)": "B", "ln: log(x)": "x"}


class Model:
    """model function; picklable"""

    def __init__(self, lay, units):
        self.lay, self.units = lay, units

    def ints(self, pars):
        return [int(round(float(p) / w)) for p, w in zip(pars, self.units)]

    def __call__(self, pars, data):
        v = self.ints(pars)
        r = [output(k, v, data["energy"]) for k in self.lay]
        return r[0] if len(r) == 1 else tuple(r)


def arr(v, i):
    return 100.0 + i * v[0] + (5 - i) * v[1]


def output(kind, v, energy):
    x = energy.to_value("TeV")
    i = np.log2(x) + 1
    if kind == "arr":
        return arr(v, i) * B
    if kind == "arrsed":
        return (arr(v, i) * B * energy**2).to("erg/(cm2 s)")
    if kind == "pair":
        return (PE.copy(), (200.0 + np.arange(1, 4) * v[0] - v[1]) * B)
    if kind == "pairl":
        return [PE.to("GeV"), (200.0 + np.arange(1, 4) * v[1] + v[0]) * B.to("1/(cm2 s GeV)")]
    if kind == "lum":
        return (PE.copy(), (300.0 - np.arange(1, 4) * v[0] + v[1]) * LB)
    if kind == "qs":
        return (50.0 + 3 * v[0] + v[1]) * u.erg
    if kind == "fl":
        return 7.0 * v[0] - v[1]
    if kind == "npf":
        return np.float64(7.0 * v[1] + v[0])
    if kind == "int":
        return int(v[0] - 4 * v[1])
    if kind == "text":
        return "a%d" % v[0]
    if kind == "tri":
        return (PE.copy(), (20.0 + np.arange(1, 4) * v[0]) * u.erg,
                (9.0 + np.arange(1, 4) * v[1]) * u.s)
    if kind == "qpair":
        return ((5.0 + v[0]) * u.erg, (7.0 + v[1]) * u.s)
    raise KeyError(kind)


# unit of the lattice of the values of each kind (TeV representation)
LAT = dict(arr=B, arrsed=B * u.TeV**2, pair=B, pairl=B, lum=LB, qs=u.erg, fl=1, npf=1, int=1)


def table(ul=True):
    t = QTable()
    t["energy"] = E
    t["flux"] = [101, 110, 120, 111] * B
    t["flux_error"] = [10, 10, 20, 16] * B
    if ul:
        t["ul"] = [False, False, False, True]
    return t


def inner(label):
    """the quantity whose logarithm a label names"""
    return INNER.get(label) or "p" + label[label.rindex("p") + 1:-1]


def build(run, rng=None, data=None):
    """a sampler as naima makes it, its stored steps being those of the run"""
    units = [UNIT[k] for k in run["lab"]]
    mf = Model(run["lay"], units)
    ch = np.array(run["ch"], dtype=float) * np.array(units)
    ns, nw, nd = ch.shape
    used, labels = set(), []
    for k in run["lab"]:
        c = [x for x in LABELS[k] if x not in used]
        if not c or len(run["lab"]) > 5:
            c = [dict(plain="%s", log10="log10(%s)", log="log(%s)")[k] % ("p%d" % len(used))]
        x = c[0] if rng is None else rng.choice(c)
        used.add(x)
        labels.append(x)
    with vlib.silence():
        s, _ = get_sampler(data_table=table() if data is None else data, p0=[1.0] * nd, model=mf, labels=labels,
                           nwalkers=nw, nburn=0, guess=False, threads=1, prefit=False)
    s.reset()
    for i in range(ns):
        lp, bl = s.compute_log_prob(ch[i])
        lp = np.array([-np.inf if x == MINF else float(x) for x in run["lp"][i]])
        s.backend.grow(1, bl)
        st = emcee.State(ch[i], log_prob=lp, blobs=bl)
        acc = np.arange(nw) % 2 == 0
        s.backend.save_step(st, acc)
    s.run_info["n_run"] = ns
    s.run_info["note"] = "verif"
    return s


def units_of(run):
    return [UNIT[k] for k in run["lab"]]


def onlat(x, unit, tol=1e-9, scale=1):
    """x in units of unit, times scale, as integers (nested lists)"""
    if isinstance(unit, (u.Quantity, u.UnitBase)):
        try:
            x = u.Quantity(x).to_value(u.Unit(unit))
        except Exception:
            return vlib.OFF
        unit = 1.0
    x = np.asarray(x, dtype=float) / unit * scale
    if x.ndim == 0:
        return vlib.snap(float(x), 1.0, tol)
    return [vlib.snap(float(y), 1.0, tol) for y in x.ravel()]
