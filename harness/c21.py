"""C21: the maximum-likelihood result is the stored sample of highest probability."""
import re

import numpy as np

import chainlib as C
import vlib
from vlib import cfg_text, pmap

nm = C.nm
import matplotlib.pyplot as plt  # noqa: E402
from astropy import units as u  # noqa: E402
from naima.plot import find_ML, plot_blob, plot_chain  # noqa: E402


def stored(s):
    """everything that is stored, as text"""
    return (s.get_chain().tobytes(), s.get_log_prob().tobytes(),
            repr([[list(b) for b in st] for st in s.get_blobs()]),
            repr(s.data), list(s.labels))


def scribble(x):
    if isinstance(x, (list, tuple)):
        for y in x:
            scribble(y)
    elif isinstance(x, np.ndarray) and x.ndim:
        try:
            x[...] = x * 0 + 77 * getattr(x, "unit", 1)
        except Exception:
            pass


def log2e(x):
    try:
        return [vlib.log2snap(y) for y in u.Quantity(x).to_value("TeV").ravel()]
    except Exception:
        return [vlib.OFF]


def diff(kind, y):
    """values in the lattice of the kind"""
    unit = C.LAT[kind]
    if kind == "arrsed":
        y = u.Quantity(y) / C.E**2
        unit = C.B
    r = C.onlat(y, u.Unit(unit) if kind not in ("fl", "npf", "int") else 1)
    return r if isinstance(r, list) else [r]


def geometry(f):
    """(median, lo, hi, mass, axis) of the axis with a vertical line"""
    for ax in f.axes:
        v = [li for li in ax.lines if len(np.unique(np.asarray(li.get_xdata(), float))) == 1
             and len(li.get_xdata()) == 2]
        if not v:
            continue
        med = float(np.asarray(v[0].get_xdata(), float)[0])
        lo = hi = np.nan
        mass = np.nan
        for p in ax.patches:
            xy = p.get_path().vertices
            xy = p.get_patch_transform().transform(xy)
            if len(xy) <= 6:
                lo, hi = float(np.min(xy[:, 0])), float(np.max(xy[:, 0]))
            else:
                x, y = xy[:, 0], xy[:, 1]
                mass = 0.5 * abs(float(np.sum(x[:-1] * y[1:] - x[1:] * y[:-1])))
        return med, lo, hi, mass, ax
    return np.nan, np.nan, np.nan, np.nan, None


TEXT = re.compile(r"= \$\(?(-?[\d.]+)(?:\^\{\+([\d.]+)\}_\{-([\d.]+)\}| \\pm ([\d.]+))\)?"
                  r"(?:\\times10\^\{(-?\d+)\})?\$")


def printed(x, order):
    """number as printed: <<value, unit of its last digit>> in units of 1e-3"""
    n = len(x.split(".")[1]) if "." in x else 0
    if n == 0:
        n = -(len(x) - len(x.rstrip("0"))) if x.strip("-0") else 0
    return [vlib.snap(float(x) * 10**order, 1e-3), 10 ** max(3 - n + order, 0)]


def statement(f):
    """what the text of the figure says: medians with upper and lower error"""
    r = dict(said=[], walkers=-1, steps=-1)
    for t in f.texts:
        x = t.get_text()
        for m in TEXT.finditer(x):
            v, hi, lo, both, order = m.groups()
            o = int(order or 0)
            r["said"].append([printed(v, o)] + ([printed(both, o)] if both
                                                else [printed(hi, o), printed(lo, o)]))
        for k, pat in (("walkers", r"Walkers: (\d+)"), ("steps", r"Steps in chain: (\d+)")):
            m = re.search(pat, x)
            if m:
                r[k] = int(m.group(1))
    return r


def call(o, run, s, ev):
    kind = run["lay"][o["i"]]
    if o["op"] == "ml":
        noidx = o["x"] and o["y"]
        ev.update(ev="ml", noidx=noidx, key="ml:" + ("none" if noidx else kind), lp=0, pars=[],
                  err=[], vals=[], ene=[], none=True)
        out, r = vlib.outcome(find_ML, s, None if noidx else o["i"])
        ev["out"] = out
        if out == "ok":
            lp, p, err, (mx, my) = r
            ev["lp"] = C.MINF if np.isneginf(lp) else vlib.snap(lp)
            un = C.units_of(run)
            ev["pars"] = [C.onlat(a, b) for a, b in zip(p, un)]
            ev["err"] = [C.onlat(a, b, scale=200) for a, b in zip(err, un)]
            ev["none"] = mx is None and my is None
            if not noidx and kind in C.LAT:
                vlib_out, v = vlib.outcome(diff, kind, my)
                ev["vals"] = v if vlib_out == "ok" else [vlib.OFF]
                ev["ene"] = log2e(mx)
            if o["z"]:
                scribble([p, mx, my])
        return
    if o["op"] == "dist":
        sc = [i for i, k in enumerate(run["lay"]) if k in ("qs", "fl", "npf", "int")]
        ev.update(ev="dist", med=0, lo=0, hi=0, mass=0, unit=False)
        i = sc[o["n"] % len(sc)]
        ev["i"], ev["key"] = i, "dist:" + run["lay"][i]
        out, f = vlib.outcome(plot_blob, s, blobidx=i, last_step=o["last"],
                              **(dict(label="W") if o["x"] else {}))
        ev["out"] = out
        if out == "ok":
            med, lo, hi, mass, ax = geometry(f)
            ev.update(med=vlib.snap(med, 0.01, 1e-6), lo=vlib.snap(lo, 0.01, 1e-6),
                      hi=vlib.snap(hi, 0.01, 1e-6), mass=vlib.snap(mass, 1e-3, 1e-4),
                      unit=ax is not None and (run["lay"][i] != "qs" or "erg" in ax.get_xlabel()))
        return
    p = o["n"] % len(run["lab"])
    ev.update(ev="chain", p=p + 1, key="chain:" + run["lab"][p], traces=[], med=0, lo=0, hi=0,
              said=[], walkers=0, steps=0)
    out, f = vlib.outcome(plot_chain, s, p, last_step=o["last"])
    ev["out"] = out
    if out == "ok":
        med, lo, hi, _, ax = geometry(f)
        un = C.units_of(run)[p]
        ev.update(med=vlib.snap(med / un, 0.01, 1e-6), lo=vlib.snap(lo / un, 0.01, 1e-6),
                  hi=vlib.snap(hi / un, 0.01, 1e-6))
        ev.update(statement(f))
        other = [a for a in f.axes if a is not ax]
        ev["traces"] = [C.onlat(np.asarray(li.get_ydata(), float), un)
                        for a in other for li in a.lines]


def play(job):
    b, seed = job
    import random
    rng = random.Random(seed)
    runs = b["runs"]
    ss = [C.build(r, rng) for r in runs]
    was = [stored(s) for s in ss]
    evs = [dict(ev="start", runs=runs)]
    for o in b["h"]:
        r, s = runs[o["r"] - 1], ss[o["r"] - 1]
        if o["op"] == "dist" and not any(k in ("qs", "fl", "npf", "int") for k in r["lay"]):
            o = dict(o, op="ml")
        ev = dict(r=o["r"], i=o["i"], last=o["last"])
        np.random.seed(rng.randrange(1 << 30))
        call(o, r, s, ev)
        plt.close("all")
        ev["kept"] = all(stored(x) == y for x, y in zip(ss, was))
        evs.append(ev)
    return evs


KINDS = '{"arr", "arrsed", "pair", "pairl", "lum", "qs", "fl", "npf", "int", "text", "tri", "qpair"}'
DESIGN = dict(NRuns=1, MaxSteps=2, Ws="{2}", NP=1, NPs="{1}", V="0..2", LogV="0..2", LPs="{-99, -1, 0}",
              Kinds1='{"arr"}', KindsN=KINDS, MaxLay=1, Labs='{"plain"}', Ops="{}", L=0,
              Generate="FALSE")


def gen(ck, ops, L, num, **kw):
    c = dict(DESIGN, NRuns=2, MaxSteps=6, Ws="{4, 6, 8}", NPs="{2, 3}", V="(-4)..9", LogV="0..3",
             LPs="{-99, -5, -4, -3, -2, -1, 0, 3}", MaxLay=4, Ops=ops, L=L, Generate="TRUE",
             Kinds1='{"arr", "arrsed"}', Labs='{"plain", "log10", "log"}')
    c.update(kw)
    return ck.simulate("ChainGen", cfg_text(spec="Spec", invariants=["Emit"], constants=c),
                       num, L + 5)


def run(ck):
    ck.model("ChainGen", cfg_text(spec="Spec", constants=DESIGN, invariants=[
        "ScanFindsBest", "Percentiles"]), must_take=["Make", "Scan"])
    bs = gen(ck, '{"ml", "ml", "dist", "chain"}', 6, ck.n(160, 2500))
    ev = []
    for e in pmap(play, [(b, ck.rng.random()) for b in bs], chunk=2):
        ev += e
    ck.sample(bs[0])
    ck.validate("MLTrace", ev, traces=len(bs), chunk=300, split_on="start")
