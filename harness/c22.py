"""C22: bands are percentile bands of the sampled models, curves are models of samples."""
import numpy as np

import chainlib as C
import vlib
from c21 import DESIGN, gen, log2e, stored
from vlib import cfg_text, pmap

nm = C.nm
import matplotlib.pyplot as plt  # noqa: E402
from astropy import units as u  # noqa: E402
from matplotlib.collections import PolyCollection  # noqa: E402
from naima.plot import plot_CI, plot_fit, plot_samples  # noqa: E402

KINDS = ("arr", "arrsed", "pair", "pairl", "lum")


def back(kind, sed, x, y, e_unit):
    """energies and values drawn, as the lattice of differential models"""
    e = np.asarray(x, float) * u.Unit(e_unit)
    y = np.asarray(y, float)
    lat = C.LB if kind == "lum" else C.B
    if sed:
        y = y * u.Unit("erg/s" if kind == "lum" else "erg/(cm2 s)") / e**2
    else:
        y = y * u.Unit("1/(TeV s)" if kind == "lum" else "1/(TeV cm2 s)")
    return log2e(e), C.onlat(y, lat)


def drawn(ax, kind, sed, e_unit, ev):
    for p in ax.collections:
        if not isinstance(p, PolyCollection):
            continue
        v = p.get_paths()[0].vertices
        xs = np.unique(v[:, 0])
        lo = [np.min(v[v[:, 0] == x, 1]) for x in xs]
        hi = [np.max(v[v[:, 0] == x, 1]) for x in xs]
        ene, lo = back(kind, sed, xs, lo, e_unit)
        _, hi = back(kind, sed, xs, hi, e_unit)
        ev["bands"].append([lo, hi])
        if not ev["ene"]:
            ev["ene"] = ene
        elif ev["ene"] != ene:
            ev["ene"] = [vlib.OFF]
    lines = [li for li in ax.lines if li.get_linestyle() == "-" and len(li.get_xdata()) > 1]
    if not lines:
        ev["out"] = "nothing"
        return
    got = [back(kind, sed, li.get_xdata(), li.get_ydata(), e_unit) for li in lines]
    if not ev["ene"]:
        ev["ene"] = got[0][0]
    if any(g[0] != ev["ene"] for g in got):
        ev["ene"] = [vlib.OFF]
    ev["ml"] = got[-1][1]
    ev["count"] = len(got) - 1
    seen = []
    for g in got[:-1]:
        if g[1] not in seen:
            seen.append(g[1])
    ev["curves"] = seen


def call(o, run, s, ev, rng, ranged):
    i = ev["i"]
    kind = run["lay"][i]
    e_unit = rng.choice([u.eV, u.TeV, u.GeV, u.Unit("erg")])
    kw = dict(sed=o["x"], last_step=o["last"], e_unit=e_unit)
    ev["es"] = []
    if ranged:
        n0, m = -(o["n"] % 3), 2 + o["n"] % 4
        ev["es"] = [n0 + k for k in range(m)]
        er = [2.0**n0 * u.TeV, (2.0 ** (n0 + m - 1) * u.TeV).to("GeV")]
        kw.update(e_range=er if o["y"] else u.Quantity(er), e_npoints=m, threads=1)
    confs = [x / 10 for x in o["c"]]
    how = o["op"]
    if kind == "lum" and how == "fit":
        kw["plotdata"] = False
    ev.update(bands=[], ene=[], ml=[], curves=[], count=0, c=o["c"], n=o["n"])
    if how == "fit":
        if o["z"]:
            ev["ev"] = "rbands" if ranged else "bands"
            out, f = vlib.outcome(plot_fit, s, modelidx=i, confs=confs, **kw)
        else:
            ev["ev"] = "curves"
            ev["n"] = o["n"] % 7
            out, f = vlib.outcome(plot_fit, s, modelidx=i, n_samples=ev["n"] or None,
                                  plotresiduals=o["y"] if ev["n"] else True, **kw) \
                if kind in ("arr", "arrsed") else \
                vlib.outcome(plot_fit, s, modelidx=i, n_samples=ev["n"] or None, **kw)
        ev["out"] = out
        if out == "ok":
            drawn(f.axes[0], kind, o["x"], e_unit, ev)
    else:
        ax = plt.figure().add_subplot(111)
        if how == "ci":
            ev["ev"] = "rbands" if ranged else "bands"
            out, _ = vlib.outcome(plot_CI, ax, s, modelidx=i, confs=confs, **kw)
        else:
            ev["ev"] = "curves"
            ev["n"] = o["n"]
            out, _ = vlib.outcome(plot_samples, ax, s, modelidx=i, n_samples=o["n"], **kw)
        ev["out"] = out
        if out == "ok":
            drawn(ax, kind, o["x"], e_unit, ev)
    ev["key"] = f"{how}:{kind}:{'sed' if o['x'] else 'diff'}" + (":range" if ranged else "")


def play(job):
    b, seed, ranged = job
    import random
    rng = random.Random(seed)
    runs = b["runs"]
    ss = [C.build(r, rng) for r in runs]
    was = [stored(s) for s in ss]
    evs = [dict(ev="start", runs=runs)]
    for o in b["h"]:
        r, s = runs[o["r"] - 1], ss[o["r"] - 1]
        ok = [k for k, x in enumerate(r["lay"]) if x in KINDS]
        i = o["i"] if o["i"] in ok else ok[o["n"] % len(ok)]
        ev = dict(r=o["r"], i=i, last=o["last"])
        np.random.seed(rng.randrange(1 << 30))
        call(o, r, s, ev, rng, ranged)
        plt.close("all")
        ev["kept"] = all(stored(x) == y for x, y in zip(ss, was))
        evs.append(ev)
    return evs


def run(ck):
    ck.model("ChainGen", cfg_text(spec="Spec", constants=dict(DESIGN, LPs="{0, 1}"), invariants=[
        "Nested", "Percentiles"]), must_take=["Make", "Scan"])
    bs = gen(ck, '{"ci", "samples", "fit"}', 6, ck.n(130, 2000))
    rs = gen(ck, '{"ci", "samples", "fit"}', 3, ck.n(8, 80), MaxSteps=3)
    ev = []
    for e in pmap(play, [(b, ck.rng.random(), False) for b in bs], chunk=2):
        ev += e
    for b in rs:  # (these start processes of their own)
        ev += play((b, ck.rng.random(), True))
    ck.sample(bs[0])
    ck.validate("BandTrace", ev, traces=len(bs) + len(rs), chunk=300, split_on="start")
