"""C06: particle distributions follow their documented formulas."""
import math

import numpy as np

import vlib
from vlib import INF, NAN, NINF, cfg_text, outcome

nm = vlib.load_naima()
from astropy import units as u  # noqa: E402
from astropy.table import QTable  # noqa: E402
from naima import models as M  # noqa: E402

EU = [u.TeV, u.GeV, u.eV, u.erg, u.J, u.keV]
AU = [1 / u.eV, 1 / u.TeV, 1 / u.erg, u.Unit("1/(cm2 s TeV)"), u.Unit("")]


def micro(x):
    x = float(x)
    if math.isnan(x) or x < 0:
        return NAN
    if x == 0:
        return NINF
    if math.isinf(x):
        return INF
    return int(round(1e6 * math.log(x)))


class Rep:
    def __init__(self, base, au, A):
        self.base, self.au, self.A = base, au, A

    def e(self, k, un):
        return (self.base * 2.0**k * u.TeV).to(EU[(un - 1) % len(EU)])

    def par(self, kind, p, v, un):
        """(attribute, value) of abstract parameter p"""
        if p == "amp":
            a = self.A * 2.0**v
            return "amplitude", (a * self.au if self.au != u.Unit("") else a)
        if p in ("e0", "eb", "ec"):
            return dict(e0="e_0", eb="e_break", ec="e_cutoff")[p], self.e(v, un)
        if p == "a":
            return ("alpha_1" if kind in ("BPL", "ECBPL") else "alpha"), v / 4
        if p == "a2":
            return "alpha_2", v / 4
        return "beta", (v / 8 if kind == "LP" else v / 2)


CLS = dict(PL=(M.PowerLaw, ["amp", "e0", "a"]),
           ECPL=(M.ExponentialCutoffPowerLaw, ["amp", "e0", "a", "ec", "b"]),
           BPL=(M.BrokenPowerLaw, ["amp", "e0", "eb", "a", "a2"]),
           ECBPL=(M.ExponentialCutoffBrokenPowerLaw,
                  ["amp", "e0", "eb", "a", "a2", "ec", "b"]),
           LP=(M.LogParabola, ["amp", "e0", "a", "b"]))


def replay(args):
    hist, base, aui, A, kw = args
    r = Rep(base, AU[aui], A)
    ev = []
    o = None
    for h in hist:
        if h["a"] == "new":
            kind, s = h["kind"], h["s"]
            cls, order = CLS[kind]
            pv = [r.par(kind, p, s[p], 1 + i) for i, p in enumerate(order)]
            if kw:
                out, o = outcome(lambda: cls(**dict(pv)))
            else:
                if kind in ("ECPL", "ECBPL") and s["b"] == 2 and A > 5:
                    pv = pv[:-1]     # beta defaults to 1
                out, o = outcome(lambda: cls(*[x for _, x in pv]))
            ev.append(dict(ev="new", key=kind, kind=kind, s=s, out=out))
            if out != "ok":
                return ev
        elif h["a"] == "set":
            n, x = r.par(kind, h["p"], h["v"], h["u"])
            setattr(o, n, x)
            ev.append(dict(ev="set", key=f"{kind}/{h['p']}", p=h["p"], v=h["v"]))
        else:
            ks = h["ks"]
            f = h["f"]
            if f == 1:
                ks = ks[:1]
                e = r.e(ks[0], h["u"])
            else:
                if f == 5:
                    ks = [*ks, *range(-6, 7, 1)]
                e = u.Quantity([r.e(k, h["u"]) for k in ks])
            arg = e
            if f == 3:
                arg = {"energy": e}
            elif f == 4:
                arg = QTable()
                arg["energy"] = e
            keep = e.copy()
            out, v = outcome(lambda: o(arg))
            d = dict(ev="eval", key=f"{kind}/form{f}", ks=list(ks), out=out)
            if out == "ok":
                amp = o.amplitude
                d.update(uamp=vlib.ustr(amp),
                         uout=vlib.ustr(v),
                         eshape=list(np.shape(keep)), shape=list(np.shape(v)))
                w = np.atleast_1d(getattr(v, "value", v)) / A
                d["lnv"] = [micro(x) for x in w]
            ev.append(d)
    return ev


def run(ck):
    small = dict(A0s="{0, 1}", E0s="{-1, 0}", As="{-2, 4, 8}", EBs="{-1, 1}",
                 ECs="{0, 2}", Bs="{1, 2}", Ks="{-2, -1, 0, 1, 2}", L=4, NUnit=1,
                 NForm=1, History="FALSE")
    inv = ["AtReference", "Continuous", "Slopes", "SlopesBroken", "CutoffDecreases",
           "Proportional"]
    ck.model("DistGen", cfg_text(spec="Spec", constants=small, invariants=inv),
             must_take=["Set"])
    gen = dict(A0s="-3..3", E0s="{-3, 0, 4}", As="{-4, 0, 3, 6, 8, 10, 13}",
               EBs="{-4, 0, 1, 5}", ECs="{-2, 0, 3, 6}", Bs="{1, 2, 3, 4}",
               Ks="-8..9", L=12, NUnit=6, NForm=5, History="TRUE")
    # every TLC run draws one initial state per distribution kind
    hists = []
    for i in range(ck.n(4, 16)):
        hists += ck.simulate("DistGen", cfg_text(spec="Spec", constants=gen,
                                                 invariants=["Emit"]),
                             ck.n(100, 400), 16, seed=ck.seed * 100 + i)
    jobs = []
    for h in hists:
        jobs.append((h, ck.rng.choice([1.0, 0.37, 10.0, 1e-6, 1e4]),
                     ck.rng.randrange(len(AU)), ck.rng.choice([1.0, 3e36, 2e-12]),
                     ck.rng.random() < 0.5))
    events = []
    for j in jobs:
        events += replay(j)
    ck.sample(events[:5])
    ck.validate("DistTrace", events, traces=len(jobs), chunk=1500, split_on="new")
    ck.assumptions += ["values are compared to 4e-6 relative",
                       "value exactly 0 expected when the cutoff factor is below exp(-1024)"]
