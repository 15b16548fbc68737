"""C03: the contribution of each seed photon field of inverse Compton emission."""
import random

import numpy as np

import radlib as X
from c04 import lg, processed
from vlib import Classes, TLCError, cfg_text, outcome, pmap

u, R = X.u, X.R
EPS = X.EPS
# field -> name, versions of its definition
FIELDS = [
    ("CMB", ["CMB", ["CMB", 2.72548 * u.K, 0.5 * u.eV / u.cm**3],
             ["CMB", 3.1 * u.K, 0]]),
    ("FIR", ["FIR", ["FIR", 31 * u.K, 0.5 * u.eV / u.cm**3],
             ["FIR", 30 * u.K, 0.7 * u.eV / u.cm**3]]),
    ("star", [["star", 5000 * u.K, 10 * u.eV / u.cm**3, a * u.deg]
              for a in (60, 90, 60.01)]),
    ("mono", [["mono", e * u.eV, d * u.eV / u.cm**3]
              for e, d in ((5, 2), (5.2, 2), (5, 4))]),
    ("SSC", [["SSC", X.SSC_E[::100], s * X.SSC_N[::100] * f]
             for s, f in ((1, 1), (3, 1), (1, np.linspace(1, 2, 13)))]),
]
NAMES = [f[0] for f in FIELDS]
PDS = [("PL", [1, 1, 1]), ("PL", [1, 1, 2]), ("ECPL", [2, 1, 1, 1, 1])]
KW = dict(Eemax=500 * u.TeV, nEed=12)
E = [[0.03, 0.3, 3.0] * u.TeV, [1e-3, 50, 0.5, 2e3] * u.GeV, [0.2] * u.TeV]
D = {"default": {}, "kw2": dict(distance=2 * u.kpc), "kw0": dict(distance=0),
     "pc": dict(distance=300 * u.pc)}


def energy(e, f, rng):
    q = E[e - 1].to(rng.choice(["eV", "TeV", "erg"]))
    if len(q) == 1 and f == 1:
        return q[0]
    if f == 2:
        return {"energy": q}
    if f == 3:
        t = X.QTable()
        t["energy"] = q
        return t
    return q


def replay(job):
    hist, seed = job
    rng = random.Random(seed)
    cl = Classes(1e-10)
    order, ver, pd = hist[0]["order"], [1] * 5, 1
    mkpd = lambda v: X.make_pd(*PDS[v - 1])
    fields = lambda o: [FIELDS[f - 1][1][ver[f - 1] - 1] for f in o]
    o = R.InverseCompton(mkpd(1), seed_photon_fields=fields(order), **KW)
    other = R.InverseCompton(mkpd(2), seed_photon_fields=fields([2, 5]), **KW)
    ev = [dict(ev="new", key="ic", order=order, ver=list(ver))]
    seen = set()
    for h in hist[1:]:
        a = h["a"]
        if a == "field":
            f, v = h["f"], h["v"]
            ver[f - 1] = v
            ev.append(dict(ev="field", key="ic", f=f, v=v))
            if f in order:
                new = processed([FIELDS[f - 1][1][v - 1]])
                d = o.seed_photon_fields[NAMES[f - 1]]
                if rng.random() < 0.5:
                    d.clear()
                    d.update(new[NAMES[f - 1]])
                else:
                    o.seed_photon_fields[NAMES[f - 1]] = new[NAMES[f - 1]]
        elif a == "pd":
            pd = h["v"]
            ev.append(dict(ev="pd", key="ic", v=pd))
            o.particle_distribution = mkpd(pd)
        elif a == "order":
            order = h["order"]
            ev.append(dict(ev="order", key="ic", order=order))
            o.seed_photon_fields = processed(fields(order))
        else:
            sel, op, d, e = h["sel"], h["op"], h["d"], h["e"]
            by, n = sel["by"], sel["n"]
            if by == "name":
                arg = NAMES[n - 1] if n <= 5 else rng.choice(["none", "cmb", "", "FIR "])
                if n == 6:
                    sel = dict(by="bad", n=6)
            else:
                arg = rng.choice([n, np.int64(n)])
            kw = dict(D[d])
            if by != "none":
                kw["seed"] = arg
            elif rng.random() < 0.3:
                kw["seed"] = None
            if rng.random() < 0.3:       # something else computed in between
                other.flux(E[0])
            en = energy(e, h["f"], rng)
            out, v = outcome(lambda: getattr(o, op)(en, **kw))
            r = dict(ev="eval", key=f"{by}/{op}/{d}", sel=sel, op=op, d=d, e=e, out=out,
                     c=0, r=[], n=0)
            if by == "none" and out == "ok":
                parts = []
                for i in range(len(order)):
                    s = rng.choice([i, NAMES[order[i] - 1]])
                    parts.append(getattr(o, op)(en, seed=s, **D[d]))
                r["n"] = len(o.seed_photon_fields)
                r["r"] = lg((sum(parts[1:], parts[0]) / v).to("").value)
            elif by in ("name", "number") and out == "ok":
                f = n if by == "name" else (order[n] if 0 <= n < len(order) else None)
                if f in order:
                    t = [f, ver[f - 1], pd]
                    k = (tuple(t), op, d, e)
                    if k not in seen:
                        seen.add(k)
                        m = R.InverseCompton(mkpd(pd), seed_photon_fields=fields([f]), **KW)
                        w = getattr(m, op)(E[e - 1], **D[d])
                        if h["f"] == 1 and len(E[e - 1]) == 1 and np.ndim(v) == 0:
                            v = np.atleast_1d(v)
                        ev.append(dict(ev="alone", key="ic", t=t, op=op, d=d, e=e,
                                       c=cl.id(w)))
                    elif np.ndim(v) == 0 and h["f"] == 1:
                        v = np.atleast_1d(v)
                    r["c"] = cl.id(v)
            ev.append(r)
    return ev


def run(ck):
    small = dict(NF=2, NV=2, L=4, Ops='{"flux"}', Dists='{"default"}', NE=1, NForm=1,
                 Stale="FALSE", Generate="FALSE", Orders="{<<1>>, <<1, 2>>, <<2, 1>>}")
    inv = ["NameAndNumberAgree", "AddUp"]
    ck.model("SeedsGen", cfg_text(spec="Spec", invariants=inv, properties=["Current"],
                                  constants=small),
             must_take=["SetField", "SetPd", "Reorder", "Eval"])
    ck.mutant_model("SeedsGen", cfg_text(spec="Spec", invariants=inv,
        properties=["Current"], constants=dict(small, Stale="TRUE")), "Current")
    hs = ck.simulate("SeedsGen", cfg_text(spec="Spec", invariants=["Emit"], constants=dict(
        NF=5, NV=3, L=14, Ops='{"flux", "sed"}', NE=3, NForm=4, Stale="FALSE",
        Generate="TRUE", Dists="{" + ", ".join(f'"{d}"' for d in D) + "}",
        Orders="{<<1>>, <<4>>, <<1, 2>>, <<2, 1>>, <<5, 3>>, <<3, 5, 1>>, "
               "<<1, 2, 3, 4, 5>>, <<5, 4, 3, 2, 1>>, <<2, 4, 1, 5, 3>>, <<3, 1, 2>>}")),
        ck.n(600, 6000), 18)
    events = sum(pmap(replay, [(h, ck.seed * 65537 + i) for i, h in enumerate(hs)],
                      chunk=10), [])
    ck.sample(events[:6])
    ck.validate("SeedsTrace", events, traces=len(hs), chunk=2500, split_on="new")
    if any(b["clause"] == "no_reference" for b in ck.bad):
        raise TLCError("trace lacks a reference value: driver/spec disagree")
