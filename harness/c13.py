"""C13: the log-likelihood is the documented sum over points and limits.

Points sit at energies 2^k TeV in random order; one table, or several tables
with their own confidence levels that are concatenated by naima; data and model
each in differential or SED form and any unit."""
import random

import numpy as np

import vlib
from vlib import cfg_text, pmap, snap

nm = vlib.load_naima()
from astropy import units as u  # noqa: E402
from astropy.table import QTable, Table  # noqa: E402
from naima.core import lnprob, lnprobmodel  # noqa: E402
from naima.utils import validate_data_table  # noqa: E402

DIFF = ["1/(cm2 s TeV)", "1/(m2 s GeV)", "1/(cm2 s erg)", "1/(cm2 h eV)"]
SED = ["erg/(cm2 s)", "TeV/(cm2 s)", "W/m2", "keV/(m2 s)"]
DIFL = ["1/(s TeV)", "1/(s erg)"]
SEDL = ["erg/s", "W", "TeV/s"]


def case(seed, ps):
    rng = random.Random(seed)
    n = len(ps)
    ks = rng.sample(range(-4, 12), n)
    en = 2.0 ** np.array(ks) * u.TeV
    lum = rng.random() < 0.2
    base = 1e30 / u.s / u.TeV if lum else 2.0**-40 / u.cm**2 / u.s / u.TeV
    dif, sed = (DIFL, SEDL) if lum else (DIFF, SED)
    # data value 64, unit of deviations: 1 (or scaled down for faint data)
    d0 = rng.choice([64.0, 64.0, 8.0, 1.0, 0.0])
    data = np.full(n, d0)
    model = data + np.array([p["d"] for p in ps])
    lo, hi = (np.array([float(p[k]) for p in ps]) for k in ("lo", "hi"))
    dsed, msed = rng.random() < 0.5, rng.random() < 0.5

    def q(x, s, unit=None):
        y = x * base * (en**2 if s else 1)
        return y.to(unit or rng.choice(sed if s else dif))

    def sub(idx):
        t = rng.choice([Table, QTable])()
        t["energy"] = en[idx].to(rng.choice(["TeV", "eV", "erg"]))
        t["flux"] = q(data, dsed)[idx]
        t["flux_error_lo"] = q(lo, dsed)[idx]
        t["flux_error_hi"] = q(hi, dsed)[idx]
        uls = np.array([ps[i]["ul"] for i in idx])
        if uls.any() or rng.random() < 0.5:
            t["ul"] = uls
        return t

    how = rng.choice(["column", "tables", "column"])
    if how == "column":
        t = sub(list(range(n)))
        t["cl"] = [ps[i]["cl"] / 1000 for i in range(n)]
        tabs = [t]
    else:                       # one table per confidence level
        tabs = []
        for cl in sorted({p["cl"] for p in ps}):
            t = sub([i for i in range(n) if ps[i]["cl"] == cl])
            t.meta["keywords"] = {"cl": {"value": cl / 1000}}
            tabs.append(t)
        rng.shuffle(tabs)
    dt = validate_data_table(tabs if len(tabs) > 1 else tabs[0],
                             sed=rng.choice([None, True, False]))
    if rng.random() < 0.5:      # any row order
        dt = dt[rng.sample(range(n), n)]
    at = [int(round(np.log2(x.to_value("TeV")))) for x in dt["energy"]]
    order = [ks.index(k) for k in at]
    m = q(model, msed)[order]
    if rng.random() < 0.5:
        return lambda: lnprobmodel(m, dt)
    out = m if rng.random() < 0.5 else (m, 3.0, (dt["energy"], m))
    return lambda: lnprob([1.0], dt, lambda p, d: out, lambda p: 0.0)[0]


def run(ck):
    inv = ["NonPositive", "OrderFree", "Additive", "PerfectIsZero", "Monotone", "Sided"]
    ck.model("LikGen", cfg_text(spec="Spec", invariants=inv, constants=dict(
        MaxN=ck.n(2, 3), MinN=1, Ds="-2..2", Errs="{1, 2}", Cs="{500, 900}",
        Generate="FALSE")), must_take=["Add"])
    gen = ck.enumerate("LikGen", cfg_text(spec="Spec", invariants=["Emit"], constants=dict(
        MaxN=ck.n(1, 2), MinN=1, Ds="{-3, -1, 0, 1, 3}", Errs="{1, 2, 4}",
        Cs="{500, 900}", Generate="FALSE")))
    for i, (n, cs) in enumerate([(4, "CLs"), (8, "CLs"), (12, "CLs"), (6, "{900}")]):
        gen += ck.simulate("LikGen", cfg_text(spec="Spec", invariants=["Emit"],
            constants=dict(MaxN=n, MinN=2, Ds="-6..6", Errs="{1, 2, 4}", Cs=cs,
                           Generate="TRUE")), ck.n(500, 5000), n + 3,
            seed=ck.seed * 10 + i)

    def one(ib):
        i, b = ib
        ps = b["ps"]
        ev = dict(ev="lnl", key="uls" if any(p["ul"] for p in ps) else "points", ps=ps,
                  out="ok", v=vlib.OFF, scalar=False)
        try:
            v = case(ck.seed * 1000003 + i, ps)()
            ev["scalar"] = np.ndim(v) == 0
            ev["v"] = vlib.NAN if np.isnan(float(v)) else int(round(float(v) * 1e6))
        except Exception as e:
            ev["out"] = type(e).__name__ + ": " + str(e)[:80]
        return ev

    events = pmap(one, enumerate(gen), chunk=25)
    ck.sample(events[0])
    ck.sample(events[-1])
    ck.validate("LikTrace", events, traces=len(events), chunk=600)
