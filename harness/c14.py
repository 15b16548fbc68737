"""C14: posterior = likelihood + prior; priors are the log-densities they name."""
import math

import numpy as np

import vlib
from vlib import Classes, cfg_text

nm = vlib.load_naima()
from astropy import units as u  # noqa: E402
from astropy.table import QTable  # noqa: E402
from naima.core import lnprob, lnprobmodel  # noqa: E402
from naima.utils import validate_data_table  # noqa: E402

EN = np.array([1.0, 2.0, 4.0]) * u.TeV
B = 1e-12 / u.cm**2 / u.s / u.TeV


def micro(x):
    try:
        x = float(x)
    except Exception:
        return vlib.OFF
    if math.isnan(x):
        return vlib.NAN
    if math.isinf(x):
        return vlib.INF if x > 0 else vlib.NINF
    return int(round(x * 1e6)) if abs(x) < 2000 else vlib.OFF


def val(p):
    return float(p["s"]) * 2.0 ** p["k"]


def call(t, v, rng):
    k, a, b = t["kind"], t["a"], t["b"]
    if rng.random() < 0.5:
        a, b = float(a), float(b)
    if k == "uniform":
        return nm.uniform_prior(v, a, b)
    if k == "normal":
        return nm.normal_prior(v, a, 2.0 ** t["bk"])
    if k == "loguniform":
        return nm.log_uniform_prior(v, a, b)
    if k == "loguniform1":
        return (nm.log_uniform_prior(v, a) if rng.random() < 0.5
                else nm.log_uniform_prior(v, umin=a))
    return nm.log_uniform_prior(v)


def data(rng):
    t = QTable()
    t["energy"] = EN
    t["flux"] = [4, 4, 4] * B
    t["flux_error_lo"] = [1, 2, 2] * B
    t["flux_error_hi"] = [2, 1, 3] * B
    if rng.random() < 0.5:
        t["ul"] = [False, False, True]
    return validate_data_table(t, sed=rng.choice([None, True]))


FORMS = ["quantity", "tuple", "list", "pair", "same", "single", "nested", "text"]


def model(form):
    """model function: outputs depend on every parameter"""
    def f(p, d):
        s = sum((i + 1) * x for i, x in enumerate(p))
        m = (4 + 0.125 * s + 0.0625 * np.arange(3)) * B
        return {"quantity": m, "tuple": (m, (1 + s) * u.erg, 2.0 * s),
                "list": [m, 3.0 * s], "pair": (m, (EN, 2 * m)),
                "same": (m, 2 * m, 3 * m), "single": (m,),
                "nested": (m, (EN[:2], m[:2]), s * u.m), "text": (m, "a%r" % s)}[form]
    return f


def ident(cls, x):
    if isinstance(x, (tuple, list)):
        return [ident(cls, y) for y in x]
    if isinstance(x, str):
        return x
    return [cls.id(x)]


def run(ck):
    import json
    forms = "{" + ", ".join(f'"{f}"' for f in FORMS) + "}"
    small = dict(L=1, NP=2, Generate="FALSE", Forms='{"quantity"}', KS="-2..3",
                 AS="{-2, 0, 1, 2}")
    g1 = ck.enumerate("PostGen", cfg_text(
        spec="Spec", invariants=["ModeAtMean", "BoundsInclusive", "Emit"],
        constants=small))
    g2 = ck.simulate("PostGen", cfg_text(spec="Spec", invariants=["Emit"], constants=dict(
        L=6, NP=3, Generate="TRUE", Forms=forms, KS="-2..3", AS="{-2, 0, 1, 2, 8}")),
        ck.n(300, 4000), 9)
    events = []
    # prior terms: every distinct term over the whole value lattice
    vals = [dict(s=0, k=0)] + [dict(s=s, k=k) for s in (-1, 1) for k in range(-2, 4)]
    terms = {json.dumps(s["ts"][0], sort_keys=True) for b in g1 for s in b}
    for tj in sorted(terms):
        t = json.loads(tj)
        for form in (float, np.float64, "int"):
            ps = vals if form != "int" else [p for p in vals if p["k"] >= 0]
            v = []
            for p in ps:
                x = val(p)
                x = int(x) if form == "int" else form(x)
                try:
                    v.append(micro(call(t, x, ck.rng)))
                except Exception:
                    v.append(vlib.OFF)
            events.append(dict(ev="prior", key=t["kind"], t=t, ps=ps, v=v))
    nprior = len(events)
    dts = [data(ck.rng) for _ in range(4)]
    for h in g2 + [b for i, b in enumerate(g1) if i % 7 == 0]:
        dt = ck.rng.choice(dts)
        for s in h:
            cls = Classes(1e-13)
            ps = np.array([val(p) for p in s["ps"]])
            mf = model(s["f"])
            fresh = mf(ps.copy(), dt)
            want = fresh if isinstance(fresh, (tuple, list)) else [fresh]
            m = want[0]
            pr = lambda p: sum([call(t, p[t["i"] - 1], ck.rng) for t in s["ts"]], 0.0)
            ev = dict(ev="lnprob", key=s["f"] + "/" + "+".join(t["kind"] for t in s["ts"]),
                      ps=s["ps"], ts=s["ts"], out="ok", v=0, blobs=[],
                      want=[json.dumps(ident(cls, w)) for w in want],
                      lnl=micro(lnprobmodel(m, dt)), pr=micro(pr(ps)))
            use = None if not s["ts"] and ck.rng.random() < 0.5 else pr
            try:
                r = lnprob(ps, dt, mf, use)
                ev["v"] = micro(r[0])
                ev["blobs"] = [json.dumps(ident(cls, x)) for x in r[1:]]
            except Exception as e:
                ev["out"] = type(e).__name__ + str(e)[:80]
            events.append(ev)
    ck.notes["prior_terms"] = nprior
    ck.sample(events[0])
    ck.sample(events[-1])
    ck.validate("PostTrace", events, traces=len(g2) + nprior, chunk=1000)
