"""C04: scaling of the emission with amplitude, density, weights, distance."""
import math
import random

import numpy as np

import radlib as X
from vlib import OFF, cfg_text, outcome, pmap

u, R, M = X.u, X.R, X.M
LUM, ZERO = 99, -99
KINDS = ["PL", "ECPL", "BPL", "ECBPL", "LP", "TAB1"]
KPC = 1 * u.kpc
AREA = (4 * np.pi * KPC**2).to("cm2")


def seeds(w):
    """five seed fields with densities scaled by 2^w"""
    f = [0.0 if k == ZERO else 2.0**k for k in w]
    return [["CMB2", 2.7 * u.K, 0.25 * f[0] * u.eV / u.cm**3],
            ["FIR", 30 * u.K, 0.5 * f[1] * u.eV / u.cm**3],
            ["star", 5000 * u.K, 10 * f[2] * u.eV / u.cm**3, 60 * u.deg],
            ["mono", 5 * u.eV, 2 * f[3] * u.eV / u.cm**3],
            ["SSC", X.SSC_E[::100], 10 * f[4] * X.SSC_N[::100]]]


NAMES = ["CMB2", "FIR", "star", "mono", "SSC"]
NC = dict(SYN=1, IC=5, BREM=2, PP=1, KEL=1, KELLO=1)


def processed(fields):
    return R.InverseCompton(X.make_pd("PL", [1, 1, 1]),
                            seed_photon_fields=fields).seed_photon_fields


def build(cls, pd, den=0, w=None):
    n = 2.0**den / u.cm**3
    if cls == "SYN":
        return R.Synchrotron(pd, B=10 * u.uG, Eemax=500 * u.TeV, nEed=12)
    if cls == "IC":
        return R.InverseCompton(pd, seed_photon_fields=seeds(w), Eemax=500 * u.TeV,
                                nEed=12)
    if cls == "BREM":
        v = [0.0 if k == ZERO else b * 2.0**k for k, b in zip(w, (1.0, 1.2))]
        return R.Bremsstrahlung(pd, n0=n, Eemin=100 * u.MeV, Eemax=500 * u.TeV, nEed=10,
                                weight_ee=v[0], weight_ep=v[1])
    if cls == "PP":
        return R.PionDecay(pd, nh=n, Epmax=1 * u.PeV, nEpd=12)
    return R.PionDecayKelner06(pd, nh=n)


ENE = {"SYN": [0.01, 0.3, 1.0, 20.0] * u.keV, "IC": [1e-4, 0.03, 0.3, 3.0] * u.TeV,
       "BREM": [0.05, 1.0, 300.0, 2e4] * u.GeV, "PP": [0.002, 0.1, 1.0, 90.0] * u.TeV,
       "KEL": [0.1, 0.3, 1.0, 20.0] * u.TeV, "KELLO": [0.5, 5.0, 30.0, 99.0] * u.GeV}
SUBS = [[0, 1, 2, 3], [3, 1], [2], [1, 0, 3], [0], [2, 2, 1]]


def energies(cls, q, form, rng):
    e = ENE[cls][q].to(rng.choice(["TeV", "eV", "keV", "erg", "GeV", "J"]))
    if form == 1 and len(q) == 1:
        return e[0]
    if form == 2:
        return {"energy": e}
    if form == 3:
        t = X.QTable()
        t["energy"] = e
        return t
    return e


def distance(d, rng):
    if d == LUM:
        v = rng.choice([0, 0.0, 0 * u.kpc])
    else:
        v = (2.0**d * u.kpc).to(rng.choice(["kpc", "pc", "cm", "Mpc", "m", "lyr"]))
    return rng.choice([((v,), {}), ((), dict(distance=v))])


def split(x):
    """m * 2^e with m an integer below 2^20"""
    x = float(x)
    if not math.isfinite(x):
        return dict(m=OFF, e=0, fin=False)
    if x == 0:
        return dict(m=0, e=0, fin=True)
    m, e = math.frexp(x)
    return dict(m=int(round(m * 2**20)), e=e, fin=True)


def replay(job):
    cls, kind, hist, seed = job
    rng = random.Random(seed)
    nc = NC[cls]
    par = [1] * len(X.PD[kind][0])
    w0 = [0] * nc
    key = f"{cls}/{kind}"
    E = ENE[cls]
    # components at the reference state, from separate models
    comp = []
    for j in range(nc):
        wj = [ZERO] * nc
        wj[j] = 0
        if cls == "IC":
            o = R.InverseCompton(X.make_pd(kind, par), seed_photon_fields=[seeds(w0)[j]],
                                 Eemax=500 * u.TeV, nEed=12)
        else:
            o = build(cls, X.make_pd(kind, par), 0, wj)
        comp.append(o.flux(E, distance=KPC))
    tot = sum(comp[1:], comp[0])
    c = [[int(round(2**20 * (x[i] / tot[i]).to("").value)) for x in comp]
         for i in range(len(E))]
    ev = [dict(ev="start", key=key, nc=nc, c=c)]
    st = dict(amp=0, den=0, w=list(w0))
    o = build(cls, X.make_pd(kind, par), 0, w0)
    nev = 0
    for h in hist:
        if h["a"] == "eval":
            if nev >= (2 if cls in ("PP", "KEL", "KELLO") else 99):
                continue
            nev += 1
            q = SUBS[h["q"] - 1]
            s = h["s"] if cls == "IC" else 0
            e = energies(cls, q, h["f"], rng)
            a, k = distance(h["d"], rng)
            if s:
                k["seed"] = rng.choice([NAMES[s - 1], s - 1])
            out, v = outcome(lambda: getattr(o, h["op"])(e, *a, **k))
            r = dict(ev="eval", key=key + "/" + h["op"], d=h["d"], q=[i + 1 for i in q],
                     s=s, out=out, unit_ok=False, v=[], n=0)
            ev.append(r)
            if out != "ok":
                continue
            ref = tot[q] * (E[q] ** 2 if h["op"] == "sed" else 1)
            if h["d"] == LUM:
                ref = ref * AREA
            want = {("flux", False): "1/(s cm2 eV)", ("flux", True): "1/(s eV)",
                    ("sed", False): "erg/(s cm2)", ("sed", True): "erg/s"}[
                        h["op"], h["d"] == LUM]
            r["unit_ok"] = bool(v.unit == u.Unit(want))
            r["n"] = int(np.size(v))
            try:
                r["v"] = [split(x) for x in np.atleast_1d((v / ref).to("").value)]
            except Exception:
                r["unit_ok"] = False
            continue
        if h["a"] == "amp":
            st["amp"] = h["k"]
            n, vals = X.PD[kind][0][0]
            a = vals[0] * 2.0 ** h["k"]
            if rng.random() < 0.5:
                o.particle_distribution.amplitude = a
            else:
                o.particle_distribution = X.make_pd(kind, par, h["k"])
            ev.append(dict(ev="set", key=key, what="amp", k=h["k"]))
        elif h["a"] == "den":
            if cls in ("SYN", "IC"):
                continue
            st["den"] = h["k"]
            v = (2.0 ** h["k"] / u.cm**3).to(rng.choice(["1/cm3", "1/m3"]))
            setattr(o, "n0" if cls == "BREM" else "nh", v)
            ev.append(dict(ev="set", key=key, what="den", k=h["k"]))
        else:
            if nc == 1 or h["j"] > nc:
                continue
            j, k = h["j"] - 1, h["k"]
            st["w"][j] = k
            f = 0.0 if k == ZERO else 2.0**k
            if cls == "BREM":
                setattr(o, ("weight_ee", "weight_ep")[j], (1.0, 1.2)[j] * f)
            else:
                sd = o.seed_photon_fields[NAMES[j]]
                one = processed([seeds(w0)[j]])[NAMES[j]]
                n = "u" if sd["type"] == "thermal" else "photon_density"
                sd[n] = one[n] * f
            ev.append(dict(ev="set", key=key, what="w", j=j + 1, k=k))
        if ev[-1]["ev"] == "set" and rng.random() < 0.3 and not (
                cls == "IC" and ZERO in st["w"]):
            # the same state built anew
            o = build(cls, o.particle_distribution, st["den"], st["w"])
    return ev


def lg(r):
    r = np.atleast_1d(r)
    return [int(round(1e9 * math.log2(x))) if 0.5 < x < 2 else OFF for x in r]


def exact(job):
    """relations that hold to rounding, for any state"""
    cls, kind, seed = job
    rng = random.Random(seed)
    par = [rng.choice([1, 2]) for _ in X.PD[kind][0]]
    w = [rng.choice([-2, 0, 1, 3]) for _ in range(NC[cls])]
    o = build(cls, X.make_pd(kind, par), rng.choice([-3, 0, 2]), w)
    key = f"{cls}/{kind}"
    lo, hi = {"SYN": (-4, 5), "IC": (3, 12), "BREM": (6, 13), "PP": (7, 14),
              "KEL": (11, 14), "KELLO": (7.5, 10.99)}[cls]
    E = np.array(sorted(10 ** rng.uniform(lo, hi) for _ in range(4))) * u.eV
    d = rng.uniform(0.1, 30) * u.kpc
    sk = {"seed": rng.choice([None, 0, "star", 4])} if cls == "IC" else {}
    evs = []

    def add(what, fn):
        out, r = outcome(fn)
        evs.append(dict(ev="exact", key=key, what=what, out=out,
                        r=lg(r) if out == "ok" else []))

    f = o.flux(E, distance=d, **sk)
    add("sed_is_e2_flux", lambda: (o.sed(E, distance=d, **sk) / (f * E**2)).to("").value)
    add("luminosity", lambda: (o.flux(E, distance=0, **sk) / (
        f * 4 * np.pi * d**2)).to("").value)
    add("luminosity_sed", lambda: (o.sed(E, distance=0, **sk) / (
        f * E**2 * 4 * np.pi * d**2)).to("").value)
    add("inverse_square", lambda: (o.flux(E, distance=3 * d, **sk) * 9 / f).to("").value)
    i = rng.randrange(4)
    add("independent_of_other_energies",
        lambda: (o.flux(E[i], distance=d, **sk) / f[i]).to("").value)
    j = rng.sample(range(4), 3)
    add("independent_of_order",
        lambda: (o.flux(E[j], distance=d, **sk) / f[j]).to("").value)
    return evs


def scan(job):
    cls, kind, seed, n = job
    rng = random.Random(seed)
    par = [rng.choice([1, 2]) for _ in X.PD[kind][0]]
    w = [rng.choice([ZERO, 0, 2]) if cls == "BREM" else 0 for _ in range(NC[cls])]
    pd = X.make_pd(kind, par)
    o = build(cls, pd, 0, w)
    if cls in ("SYN", "IC", "BREM") and rng.random() < 0.5:
        o.Eemin = rng.choice([1 * u.MeV, 0.6 * u.MeV, 1 * u.GeV, 100 * u.GeV])
        o.Eemax = rng.choice([1 * u.TeV, 50 * u.TeV, 1 * u.PeV])
    lo, hi = (8, 17) if cls[:3] == "KEL" else (7, 18) if cls == "PP" else (-10, 18)
    e = [10 ** rng.uniform(lo, hi) for _ in range(n)]
    if cls in ("SYN", "IC", "BREM"):
        # energies of the electrons, if the grid is the documented one
        a, b = (np.log10(x.to("eV").value) for x in (o.Eemin, o.Eemax))
        g = np.logspace(a, b, max(10, int(o.nEed * (b - a))))
        e += [o.Eemin.to("eV").value, o.Eemax.to("eV").value]
        e += [float(x) * f for x in rng.sample(list(g), min(len(g), 4))
              for f in (1, 1 + 1e-12, 1 - 1e-12, 1.01)]
    elif cls == "PP":
        e += [1e15, 1.22e9, 1e16]
    if cls[:3] == "KEL" and rng.random() < 0.5:
        e = [x for x in e if x >= 1e11] or [1e12]
    ev = dict(ev="scan", key=f"{cls}/{kind}", e=[], nonfinite=0, negative=0,
              missing=0)
    ev["out"], f = outcome(lambda: o.flux(e * u.eV).value)
    if ev["out"] == "ok":
        b = ~np.isfinite(f) | ~(f >= 0)
        if cls == "BREM" and w != [ZERO, ZERO]:
            z = (f == 0) & (np.array(e) < 1e3)
            ev["missing"] = int(np.sum(z))
            b |= z
        ev.update(nonfinite=int(np.sum(~np.isfinite(f))), negative=int(np.sum(f < 0)),
                  e=["%.15g" % x for x in np.array(e)[b][:5]])
    return [ev]


def run(ck):
    inv = ["ComponentsAddUp", "NonNegative", "Monotone", "LuminosityIsFluxTimesArea",
           "FourTimesWeakerAtTwiceTheDistance"]
    ck.model("ScaleGen", cfg_text(spec="Spec", invariants=inv, constants=dict(
        NC=2, Ks="{-1, 2}", Ws="{Zero, 0, 3}", Ds="{0, 1, Lum}", NSub=1, NForm=1, L=3,
        Generate="FALSE")), must_take=["SetAmp", "SetDen", "SetW", "Eval"])
    jobs = []
    for nc, classes, num in ((1, ["SYN", "PP", "KEL", "KELLO"], ck.n(60, 500)),
                             (2, ["BREM"], ck.n(60, 600)), (5, ["IC"], ck.n(80, 800))):
        hs = ck.simulate("ScaleGen", cfg_text(spec="Spec", invariants=["Emit"],
            constants=dict(NC=nc, Ks="-6..6", Ws="{Zero} \\cup (-4..5)",
                           Ds="{-3, -1, 0, 0, 1, 4, Lum, Lum}", NSub=len(SUBS), NForm=4,
                           L=10, Generate="TRUE")), num, 13, seed=ck.seed * 10 + nc)
        for i, h in enumerate(hs):
            cls = classes[0] if nc > 1 else ck.rng.choice(["SYN", "SYN", "SYN"] + classes)
            jobs.append((replay, (cls, KINDS[i % len(KINDS)], h, ck.seed * 7919 + i)))
    nh = len(jobs)
    for cls in NC:
        slow = cls in ("PP", "KEL", "KELLO")
        for i in range(ck.n(6 if slow else 24, 60 if slow else 300)):
            jobs.append((exact, (cls, KINDS[i % len(KINDS)], ck.seed * 31 + i)))
        for i in range(ck.n(4 if slow else 24, 40 if slow else 400)):
            jobs.append((scan, (cls, KINDS[i % len(KINDS)], ck.seed * 37 + i,
                                12 if slow else 40)))
    ck.rng.shuffle(jobs)
    res = pmap(lambda j: j[0](j[1]), jobs, chunk=4)
    # histories first: each starts with its own start event
    events = sum([r for r in res if r[0]["ev"] == "start"], []) + sum(
        [r for r in res if r[0]["ev"] != "start"], [])
    ck.notes["histories"] = nh
    ck.sample(events[:4])
    ck.validate("ScaleTrace", events, traces=len(jobs), chunk=1500, split_on="start")
