"""C27: data plots show values, errors, limits, groups and residuals of the data."""
import copy
import multiprocessing as mp
import random

import numpy as np

import chainlib as C
import vlib
from vlib import cfg_text, pmap

nm = C.nm
import matplotlib.pyplot as plt  # noqa: E402
from astropy import units as u  # noqa: E402
from astropy.table import QTable  # noqa: E402
from c23 import EUNITS, unit_in  # noqa: E402
from matplotlib.collections import LineCollection  # noqa: E402
from matplotlib.colors import to_hex  # noqa: E402
from naima.plot import plot_data, plot_fit  # noqa: E402
from naima.utils import validate_data_table  # noqa: E402

CLIP = -999999
YUNITS = [u.Unit(x) for x in (
    "erg/(cm2 s)", "TeV/(cm2 s)", "eV/(cm2 s)", "1/(cm2 s TeV)", "1/(cm2 s eV)",
    "1/(cm2 s erg)", "1/(cm2 s GeV)", "erg/s", "1/(s TeV)", "1/(s erg)", "1/(s eV)", "TeV/s")]
EU = [u.TeV, u.GeV, u.eV, u.TeV, u.MeV, u.TeV]
FU = ["1/(cm2 s TeV)", "1/(m2 s GeV)", "1/(cm2 s eV)", "1/(cm2 s erg)", "1/(m2 s TeV)",
      "1/(cm2 s keV)"]
SU = ["erg/(cm2 s)", "TeV/(cm2 s)", "W/m2", "eV/(m2 s)", "erg/(m2 s)", "GeV/(cm2 s)"]
MARKS = ("o", "s", "^", "v", "d", "D", "p", "P", "h", "H", "8", "*", "<", ">", "x", "+", ".", ",")


def table(t, lum):
    q = QTable()
    e = 2.0 ** np.array([r["k"] for r in t["rows"]]) * u.TeV
    b = C.LB if lum else C.B
    un = (SU if t["sed"] else FU)[t["u"]]
    if lum:
        un = ["erg/s", "TeV/s"][t["u"] % 2] if t["sed"] else ["1/(s TeV)", "1/(s erg)"][t["u"] % 2]

    def col(x):
        y = np.array([float(r[x]) for r in t["rows"]]) * b
        return (y * e**2 if t["sed"] else y).to(un)
    q["energy"] = e.to(EU[t["u"]])
    q["energy_error_lo"] = (np.array([r["el"] for r in t["rows"]]) / 8 * u.TeV).to("GeV")
    q["energy_error_hi"] = (np.array([r["eh"] for r in t["rows"]]) / 8 * u.TeV).to(EU[t["u"]])
    q["flux"], q["flux_error_lo"], q["flux_error_hi"] = col("f"), col("lo"), col("hi")
    if t["u"] % 3 == 0 and not lum:        # errors in another unit
        q["flux_error_lo"] = q["flux_error_lo"].to("erg/(m2 s)" if t["sed"] else "1/(m2 s TeV)")
    ul = [bool(r["ul"]) for r in t["rows"]]
    if any(ul) or t["u"] % 2:
        q["ul"] = ul
    return q


class Axis:
    """coordinates of an axis as lattice numbers"""

    def __init__(self, xlabel, ylabel, lum, sed):
        self.eu, self.yu = unit_in(xlabel, EUNITS), unit_in(ylabel or "", YUNITS)
        self.lum, self.sed, self.resid = lum, sed, ylabel is None

    def k(self, x):
        if self.eu is None:
            return vlib.OFF
        return vlib.log2snap(x * self.eu.to("TeV"), 1e-6)

    def x(self, x):
        if self.eu is None:
            return vlib.OFF
        return vlib.snap(8 * x * self.eu.to("TeV"), 1, 1e-6)

    def y(self, y):
        if self.resid:
            return int(round(1e4 * y)) if np.isfinite(y) and abs(y) < 80000 else \
                vlib.OFF
        if self.yu is None:
            return vlib.OFF
        b = C.LB if self.lum else C.B
        b = (b * u.TeV**2 if self.sed else b).to_value(self.yu)
        return vlib.snap(4 * y / b, 1, 1e-6)


def segments(ax):
    r = []
    for c in ax.collections:
        if isinstance(c, LineCollection):
            col = to_hex(c.get_colors()[0]) if len(c.get_colors()) else ""
            for s in c.get_segments():
                if len(s) == 2:
                    r.append((s[0][0], s[0][1], s[1][0], s[1][1], col))
    return r


def drawn(ax, c, ev, tok):
    carets = []
    for x1, y1, x2, y2, col in segments(ax):
        if y1 == y2 and x1 != x2:
            continue
        k = c.k(x1)
        lo, hi = min(y1, y2), max(y1, y2)
        ev["v"].append([k, CLIP if 0 < lo < 1e-5 * hi else c.y(lo), c.y(hi)])
    centres = {}
    for li in ax.lines:
        m = li.get_marker()
        pts = list(zip(np.atleast_1d(li.get_xdata()), np.atleast_1d(li.get_ydata())))
        if isinstance(m, (int, np.integer)):
            carets += pts
        elif m in MARKS and len(pts):
            for x, y in pts:
                p = [c.k(x), c.y(y)]
                ev["m"].append(p)
                ev["cols"].append(p + [tok(to_hex(li.get_color()))])
    # horizontal bars are at the height of the point; its energy is the one of the
    # vertical bar there
    xs = sorted({(x1, y) for x1, y1, x2, y2, _ in segments(ax) if x1 == x2 for y in (y1, y2)}
                | {(x, y) for li in ax.lines if li.get_marker() in MARKS
                   for x, y in zip(np.atleast_1d(li.get_xdata()), np.atleast_1d(li.get_ydata()))})
    for x1, y1, x2, y2, col in segments(ax):
        if not (y1 == y2 and x1 != x2):
            continue
        lo, hi = min(x1, x2), max(x1, x2)
        ks = {c.k(x) for x, y in xs if lo <= x <= hi and abs(y - y1) <= 1e-9 * abs(y1)}
        k = ks.pop() if len(ks) == 1 else vlib.OFF
        p = [k, c.y(y1)]
        ev["h"].append(p + [c.x(lo), c.x(hi)])
        ev["cols"].append(p + [tok(col)])
    return carets


def contents(fig, ev, lum, tok, resid):
    axes = fig.axes
    lab = axes[1].get_xlabel() if resid and len(axes) > 1 else axes[0].get_xlabel()
    c = Axis(lab, axes[0].get_ylabel(), lum, ev["sed"])
    carets = drawn(axes[0], c, ev, tok)
    ev["arrows"] = len(carets) == len(ev["h"]) - len(ev["m"])
    ev["cols"] = [list(x) for x in sorted({tuple(x) for x in ev["cols"]})]
    if resid:
        r = dict(h=[], v=[], m=[], cols=[])
        d = Axis(lab, None, lum, False)
        drawn(axes[1], d, r, tok)
        pos = {tuple(h[:2]): h[2:] for h in r["h"]}
        ys = {}
        for x1, y1, x2, y2, _ in segments(axes[1]):
            if x1 == x2:
                ys.setdefault(d.k(x1), []).append((min(y1, y2), max(y1, y2)))
        ev["res"] = [m + list(pos.get(tuple(m), [vlib.OFF] * 2)) for m in r["m"]]
        ev["units"] = all(abs(b - a - 2) < 1e-6 or (np.isnan(a) and np.isnan(b))
                          for v in ys.values() for a, b in v)
    elif len(axes) > 1:
        ev["res"] = [[0, 0, 0, 0]]


def same_table(a, b):
    return a.colnames == b.colnames and a.meta == b.meta and all(
        u.Quantity(a[x]).unit == u.Quantity(b[x]).unit and a[x].dtype == b[x].dtype
        and np.array_equal(u.Quantity(a[x]).value, u.Quantity(b[x]).value) for x in a.colnames)


def play(job):
    b, seed = job
    # naima makes worker processes for e_range: let a worker of pmap have them
    mp.current_process()._config["daemon"] = False
    rng = random.Random(seed)
    lum = b["tabs"][0]["u"] == 5
    tabs = [table(t, lum) for t in b["tabs"]]
    was = [t.copy() for t in tabs]
    sd = [1, 2]
    smp = None
    if not lum:
        smp = C.build(b["run"], rng, data=[tabs[i - 1] for i in sd])
        swas = smp.data.copy()
    evs = [dict(ev="start", key="start", tabs=b["tabs"], run=b["run"], sd=sd)]
    figs, seds, units, cache = [None, None], [True, True], [None, None], {}
    opts = [({}, {}), (dict(ms=3), {}), (dict(elinewidth=1), {}),
            ({}, dict(capsize=3, height_fraction=0.5)), ({}, dict(elinewidth=3)),
            (dict(color="r"), {})]
    owas = copy.deepcopy(opts)
    tokens = []

    def tok(col):
        if col not in tokens:
            tokens.append(col)
        return tokens.index(col) + 1

    try:
        for o in b["h"]:
            op, how, n = o["op"], o["how"], o["fig"] - 1
            if lum:
                op, how = "data", "list" if how == "sampler" else how
            eo, uo = opts[o["o"]]
            ev = dict(ev=op, how=how, ts=o["ts"], fig=n + 1, sed=o["sed"], fresh=True, i=o["i"],
                      hgt=2 if o["o"] == 3 else 1, plain=o["o"] != 5, h=[], v=[], m=[], cols=[],
                      res=[], units=True, arrows=True, shown=True, resid=False, detail="")
            kw = dict(errorbar_opts=eo, ulim_opts=uo) if o["o"] else {}
            lst = [tabs[i - 1] for i in o["ts"]]
            if op == "data":
                if how == "table":
                    src = lst[0]
                elif how == "dict":
                    src = {c: lst[0][c] for c in lst[0].colnames}
                elif how == "list":
                    src = lst if o["y"] else tuple(lst)
                elif how == "validated":
                    key = tuple(o["ts"])
                    if key not in cache:
                        v = validate_data_table(lst)
                        cache[key] = (v, v.copy())
                    src = cache[key][0]
                else:
                    src = smp
                if o["x"] and figs[n] is not None:
                    ev["fresh"], ev["sed"] = False, seds[n]
                    kw["figure"] = figs[n]
                    if o["e"] == 3:
                        kw["e_unit"] = units[n]
                else:
                    if o["z"]:
                        kw["figure"] = plt.figure()
                    if o["e"] > 1:
                        kw["e_unit"] = [u.TeV, u.GeV][o["e"] - 2]
                ev["key"] = "data:%s:%s" % (how, "new" if ev["fresh"] else "again")
                with vlib.silence():
                    ev["out"], f = vlib.outcome(plot_data, src, sed=ev["sed"], **kw)
                if ev["out"] != "ok":
                    evs.append(ev)
                    break
                figs[n], seds[n] = f, ev["sed"]
                contents(f, ev, lum, tok, False)
                units[n] = unit_in(f.axes[0].get_xlabel(), EUNITS)
            else:
                ev["how"] = "sampler"
                pair = b["run"]["lay"][o["i"]] == "pair"
                if pair or o["z"]:
                    ev["shown"] = o["x"] or not pair
                    kw["plotdata"] = ev["shown"]
                way = o["e"] if o["fig"] == 1 else 4
                ev["resid"] = way in (0, 1, 4)
                kw.update([dict(n_samples=3), dict(confs=[1]), dict(n_samples=None),
                           dict(n_samples=3, plotresiduals=False),
                           dict(n_samples=None, plotresiduals=True)][way])
                ev["resid"] = ev["resid"] and ev["shown"]
                if o["y"]:
                    kw.update(e_range=[1 * u.TeV, 32 * u.TeV], e_npoints=6, threads=1)
                if o["e"] == 3:
                    kw["e_unit"] = u.GeV
                if o["ts"][0] == 1:
                    # another figure than the one given is the current one
                    kw["figure"] = plt.figure()
                    if o["ts"][-1] == 2:
                        plt.figure()
                ev["key"] = "fit:%s" % b["run"]["lay"][o["i"]] + (":range" if o["y"] else "")
                with vlib.silence():
                    ev["out"], f = vlib.outcome(plot_fit, smp, modelidx=o["i"], sed=o["sed"], **kw)
                if ev["out"] == "ok":
                    contents(f, ev, lum, tok, ev["resid"])
            if ev["out"] != "ok":
                ev["detail"] += " out: %s" % ev["out"]
            ev["kept"] = opts == owas and all(map(same_table, tabs, was)) and all(
                same_table(*x) for x in cache.values()) and (
                smp is None or same_table(smp.data, swas))
            evs.append(ev)
        return evs
    finally:
        plt.close("all")


def run(ck):
    c = dict(FV="{0, 1, 2}", LoV="{1, 2, 3}", L=3, Broken="FALSE")
    ck.model("PlotDataMC", cfg_text(spec="Spec", constants=c, invariants=[
        "Kept", "ResidualsOfData"], properties=["OnlyGrows"]), must_take=["Draw", "Residual"])
    ck.mutant_model("PlotDataMC", cfg_text(spec="Spec", constants=dict(c, Broken="TRUE"),
                                           invariants=["ResidualsOfData"]), "ResidualsOfData")
    L = 8
    bs = ck.simulate("PlotDataGen", cfg_text(spec="Spec", invariants=["Emit"], constants=dict(
        L=L, NT=3, F="(-3)..60")), ck.n(110, 1600), L + 3)
    ev = []
    for e in pmap(play, [(b, ck.rng.random()) for b in bs], chunk=2):
        ev += e
    ck.sample(bs[0])
    ck.validate("PlotDataTrace", ev, traces=len(bs), chunk=150, split_on="start")
