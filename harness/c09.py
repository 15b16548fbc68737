"""C09: log-log integration and the magnetic-field estimate built on it."""
import numpy as np

import vlib
from vlib import OFF, cfg_text, outcome, snap, ustr

nm = vlib.load_naima()
from astropy import units as u  # noqa: E402
from astropy.table import QTable  # noqa: E402
from naima.utils import estimate_B, trapz_loglog  # noqa: E402

Z = 999


def us(x):
    return snap(x, 1e-6, tol=1e9)     # rounded to 1e-6


def vals(vs):
    return np.array([0.0 if v == Z else 2.0**v for v in vs])


def integ(rng, group):
    """one recorded integration of several integrands on a common grid"""
    ks = group[0]["ks"]
    rows = [g["vs"] for g in group]
    x = 2.0 ** np.array(ks, dtype=float)
    Y = np.array([vals(r) for r in rows])
    xu = rng.choice([None, u.eV, u.TeV, u.cm])
    yu = rng.choice([None, u.eV**-1, u.Unit("erg/(cm2 s)"), u.TeV**-1])
    layout = rng.choice(["flat", "rows", "cols", "cols-axis0", "cube", "x2d"])
    kw, xx = {}, x
    if layout == "flat" or len(rows) == 1:
        Y, rows, layout = Y[0], rows[:1], "flat"
        y, wshape = Y, []
        if rng.random() < 0.3:
            kw["axis"] = rng.choice([0, -1])
    elif layout == "rows":
        y, wshape = Y, [len(rows)]
        if rng.random() < 0.5:
            kw["axis"] = rng.choice([1, -1])
    elif layout in ("cols", "cols-axis0"):
        y, wshape = Y.T, [len(rows)]
        kw["axis"] = 0 if layout == "cols-axis0" else -2
    elif layout == "cube":      # axis in the middle
        y, wshape = np.stack([Y.T, Y.T * 1.0]), [2, len(rows)]
        kw["axis"] = 1
    else:                        # x of the same shape as y
        y, wshape = Y.T, [len(rows)]
        xx = np.repeat(x[:, None], len(rows), axis=1)
        kw["axis"] = 0
    s = 1.0
    if xu is not None:
        xx = xx * xu
    if yu is not None:
        y = y * yu
    out, v = outcome(lambda: trapz_loglog(y, xx, **kw))
    ev = dict(ev="int", key=f"{layout}/{kw.get('axis', 'default')}", ks=ks, rows=rows,
              out=out, wshape=wshape)
    if layout == "cube":
        ev["rows"] = rows + rows
    if out == "ok":
        want = (xu or u.dimensionless_unscaled) * (yu or u.dimensionless_unscaled)
        ev.update(uout=ustr(v), uwant=ustr(want), shape=list(np.shape(v)),
                  got=[us(a) for a in np.ravel(getattr(v, "value", v))])
        out, p = outcome(lambda: trapz_loglog(y, xx, intervals=True, **kw))
        ev["parts"] = []
        if out == "ok":
            if ustr(p) != ustr(want):
                ev["uout"] = "intervals:" + ustr(p)
            p = np.moveaxis(np.asarray(getattr(p, "value", p)), kw.get("axis", -1), -1)
            ev["parts"] = [[us(a) for a in r]
                           for r in p.reshape(-1, p.shape[-1])]
    return ev


def tab(ks, vs, fu, eu, rng, perm=False):
    e = 2.0 ** np.array(ks, dtype=float) * u.keV
    # vs: log2 of the differential flux
    f = 2.0 ** np.array(vs, dtype=float) * 1e-9 * u.Unit("1/(cm2 s keV)")
    if fu == "sed":
        f = (f * e**2).to("erg/(cm2 s)")
    else:
        f = f.to(fu)
    t = QTable()
    idx = np.arange(len(ks))
    if perm:
        idx = np.array(rng.sample(range(len(ks)), len(ks)))
    t["energy"] = e.to(eu)[idx]
    t["flux"] = f[idx]
    t["flux_error"] = t["flux"] * 0.1
    return t


def run(ck):
    inv = ["NonNegative", "Additive", "SplitSame"]
    ck.model("LogLogMC", cfg_text(spec="Spec", invariants=inv, constants=dict(
        DK="{1, 2}", B="{-3, -2, -1, 0, 1}", N=4, V0="{0, 1}", Lo=-5, Hi=5,
        Generate="FALSE")), must_take=["Seg", "Zero", "Rise"])
    gen = []
    for i, n in enumerate((2, 3, 5, 8)):
        gen += ck.simulate("LogLogMC", cfg_text(
            spec="Spec", invariants=["Emit"], constants=dict(
                DK="{1, 1, 2, 3}", B="{-4, -3, -2, -1, -1, 0, 1, 2}", N=n, V0="-3..3",
                Lo=-5, Hi=6, Generate="TRUE")), ck.n(400, 4000), 60,
            seed=ck.seed * 10 + i)
    ck.rng.shuffle(gen)
    by = {}
    for g in gen:
        by.setdefault(tuple(g["ks"]), []).append(g)
    events = []
    for ks, gs in by.items():
        for i in range(0, len(gs), 3):
            events.append(integ(ck.rng, gs[i:i + 3]))
    # descending and unsorted directions are the caller's business; integer
    # arrays and lists are not
    ev = integ(ck.rng, gen[:1])
    events.append(ev)
    n1 = len(events)
    # magnetic field: same shape for both spectra, scaled by powers of two
    u0 = (1 / (8 * np.pi)) * u.erg / u.cm**3
    for g in [g for g in gen if Z not in g["vs"] and len(g["ks"]) >= 3][:ck.n(80, 800)]:
        ex, eg, eu = (ck.rng.randrange(-6, 7) for _ in range(3))
        # luminosity of 2^v integrated: same integral for both
        mk = lambda e: tab(g["ks"], [v + e for v in g["vs"]],
                           ck.rng.choice(["1/(cm2 s keV)", "1/(m2 s TeV)", "sed"]),
                           ck.rng.choice(["keV", "TeV", "J"]), ck.rng,
                           ck.rng.random() < 0.5)
        uph = (u0 * 2.0**eu).to(ck.rng.choice(["erg/cm3", "eV/cm3", "J/m3"]))
        out, B = outcome(lambda: estimate_B(mk(ex), mk(eg), uph))
        ev = dict(ev="estB", key="estB", ex=ex, eg=eg, eu=eu, out=out)
        if out == "ok":
            ev["isB"] = bool(getattr(B, "unit", u.m).physical_type
                             == "magnetic flux density")
            b = B.to("G").value if ev["isB"] else float("nan")
            ev["b2"] = snap(2 * np.log2(b)) if b > 0 else OFF
        events.append(ev)
    # default photon density: the CMB, 0.261 eV/cm3
    t = tab([0, 1, 2], [0, -2, -4], "sed", "keV", ck.rng)
    out, B = outcome(lambda: estimate_B(t, t))
    ev = dict(ev="estB", key="estB/default", ex=0, eg=0, eu=0, out=out)
    if out == "ok":
        ev["isB"] = True
        ev["b2"] = snap(2 * np.log2((B / np.sqrt(
            8 * np.pi * 0.261 * u.eV.to("erg")) / u.G).to("").value))
    events.append(ev)
    ck.sample(events[0])
    ck.sample(events[-2])
    ck.validate("LogLogTrace", events, traces=len(events), chunk=400)
    ck.notes["integrals"] = n1
    ck.assumptions.append("integrals compared to 2e-5 relative + 7e-5 absolute")
