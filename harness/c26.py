"""C26: particle energy budgets."""
import random
from fractions import Fraction

import numpy as np

import radlib as X
from vlib import OFF, cfg_text, outcome, pmap, snap

u, R, M = X.u, X.R, X.M
A0 = 1e36 / u.eV
E0 = 1 * u.TeV
TAB = np.logspace(-1, 2.5, 60) * u.TeV
EUN = ["TeV", "eV", "erg", "GeV", "J", "MeV"]
WUN = ["erg", "eV", "J", "TeV", "solLum s"]


class Normed:
    """user-defined distribution, the normalisation of which is called norm"""

    def __init__(self, norm, k):
        self.norm, self.k = norm, k

    def __call__(self, e):
        return self.norm * (e / E0).to("").value ** -self.k


# kind -> (curved, amplitude attribute, builder(amplitude, index))
KIND = {
    "PL": (0, "amplitude", lambda A, a: M.PowerLaw(A, E0, a)),
    "BPL": (0, "amplitude", lambda A, a: M.BrokenPowerLaw(A, E0, 7 * u.TeV, a, a)),
    "LP": (0, "amplitude", lambda A, a: M.LogParabola(A, E0, a, 0.0)),
    "ECPL": (0, "amplitude", lambda A, a: M.ExponentialCutoffPowerLaw(
        A, E0, a, 1e14 * u.TeV)),
    "TAB": (0, "amplitude", lambda A, a: M.TableModel(
        TAB, TAB.value**-a * A0, amplitude=A)),
    "DUCK": (0, "amplitude", lambda A, a: Amped(A, a)),
    "NORM": (0, "norm", lambda A, a: Normed(A, a)),
    "cECPL": (1, "amplitude", lambda A, a: M.ExponentialCutoffPowerLaw(
        A, E0, a, 5 * u.TeV, 0.7)),
    "cBPL": (1, "amplitude", lambda A, a: M.BrokenPowerLaw(
        A, E0, 3 * u.TeV, a, a + 1.3)),
    "cLP": (1, "amplitude", lambda A, a: M.LogParabola(A, E0, a, 0.2)),
    "cECBPL": (1, "amplitude", lambda A, a: M.ExponentialCutoffBrokenPowerLaw(
        A, E0, 6 * u.TeV, a, a + 0.5, 20 * u.TeV)),
    "cTAB": (1, "amplitude", lambda A, a: M.TableModel(
        TAB, TAB.value**-a * np.exp(-TAB.value / 9) * A0, amplitude=A)),
    "cNORM": (1, "norm", lambda A, a: Curved(A, a)),
}


class Amped(Normed):
    def __init__(self, amplitude, k):
        self.amplitude, self.k = amplitude, k

    @property
    def norm(self):
        return self.amplitude


class Curved(Normed):
    def __call__(self, e):
        return super().__call__(e) / (1 + (e / E0).to("").value)


def make(kind, a, A=1.0):
    return KIND[kind][2](A if kind.endswith("TAB") else A * A0, a)


MODELS = {
    "SYN": lambda p: R.Synchrotron(p, nEed=30), "IC": lambda p: R.InverseCompton(p, nEed=17),
    "BREM": lambda p: R.Bremsstrahlung(p, nEed=12), "PP": lambda p: R.PionDecay(p, nEpd=25)}


def rat(x, limit=6000):
    """the fraction with a small denominator that x is, to 1e-9"""
    try:
        x = float(u.Quantity(x).to_value(""))
    except (u.UnitsError, TypeError, ValueError):
        return [OFF, 1]
    if not 0 < x < 1e6:
        return [OFF, 1]
    f = Fraction(x).limit_denominator(limit)
    if f.numerator == 0 or f.numerator > 60000 or abs(float(f) / x - 1) > 1e-9:
        return [OFF, 1]
    return [f.numerator, f.denominator]


def unit(a):
    return A0 * E0**2 * {0: 0.5, 1: 1.0, 2: np.log(2), 3: 1 / 32}[a]


def lim(c):
    return ("Ep" if c == "PP" else "Ee")


def replay(job):
    seed, classes, kinds, g = job
    rng = random.Random(seed)
    idx, key = g["a"], "/".join(classes + kinds)
    variables = []

    def var(k, kind):
        v = 2.0**k if kind.endswith("TAB") else (A0 * 2.0**k).to(
            rng.choice(["1/eV", "1/TeV", "1/erg", "1/J"]))
        variables.append((v, v * 1.0))
        return v

    ds = [KIND[k][2](var(0, k), a) for k, a in zip(kinds, idx)]
    shapes = [make(k, a) for k, a in zip(kinds, idx)]
    slot = [min(i, len(ds) - 1) for i in range(len(classes))]
    ms = [MODELS[c](ds[s]) for c, s in zip(classes, slot)]
    fresh = {}

    def en(i):
        return None if i < 0 else (2.0**i * u.TeV).to(rng.choice(EUN))

    def setlim(m, c, lo, hi):
        setattr(m, lim(c) + "min", en(lo))
        setattr(m, lim(c) + "max", en(hi))

    lims = []
    for m, c in zip(ms, classes):
        setlim(m, c, 0, 5)
        lims.append([0, 5])
    PROBE = [1.3, 7.0, 29.0] * u.TeV

    def base(m, lo, hi):
        """unit of energy for the budget of this model and range"""
        d = slot[m]
        if not KIND[kinds[d]][0]:
            return unit(idx[d])
        i = lims[m][0] if lo < 0 else lo
        j = lims[m][1] if hi < 0 else hi
        k = (classes[m], d, i, j)
        if k not in fresh:
            f = MODELS[classes[m]](make(kinds[d], idx[d]))
            setlim(f, classes[m], i, j)
            fresh[k] = getattr(f, W(m))
        return fresh[k]

    def W(m):
        return "Wp" if classes[m] == "PP" else "We"

    def kw(m, lo, hi):
        k = {}
        if lo >= 0:
            k[lim(classes[m]) + "min"] = en(lo)
        elif rng.random() < 0.3:
            k[lim(classes[m]) + "min"] = None
        if hi >= 0:
            k[lim(classes[m]) + "max"] = en(hi)
        return k

    def common():
        return dict(
            amps=[[rat(v / w) for v, w in zip(d(PROBE), s(PROBE))]
                  for d, s in zip(ds, shapes)],
            vars=all(np.all(v == w) for v, w in variables),
            units=all(u.Quantity(getattr(d, KIND[k][1])).unit.is_equivalent(
                u.dimensionless_unscaled if k.endswith("TAB") else 1 / u.eV)
                for d, k in zip(ds, kinds)))

    ev = [dict(ev="start", key=key, a=idx, slot=[s + 1 for s in slot],
               curved=[bool(KIND[k][0]) for k in kinds])]
    for h in g["h"]:
        op = h["op"]
        m = (h.get("m", 1) - 1) % len(ms)
        r = dict(ev=op, key=f"{classes[m]}/{kinds[slot[m]]}/{op}")
        if op == "set":
            kind = kinds[slot[m]]
            attr = KIND[kind][1]
            k = kw(m, h["lo"], h["hi"])
            named = attr == "amplitude" or h["n"] != "none"
            if h["n"] != "none":
                k["amplitude_name"] = attr
            w = (h["w"] * base(m, h["lo"], h["hi"])).to(rng.choice(WUN))
            variables.append((w, w * 1.0))
            out, _ = outcome(lambda: getattr(ms[m], "set_" + W(m))(w, **k))
            r.update(m=m + 1, w=h["w"], lo=h["lo"], hi=h["hi"], named=named, out=out,
                     now=[OFF, 1])
            o, v = outcome(lambda: getattr(ms[m], "compute_" + W(m))(
                **kw(m, h["lo"], h["hi"])))
            if o == "ok" and named:
                r["now"] = rat(v / w * h["w"])
        elif op == "amp":
            i = (h["d"] - 1) % len(ds)
            # one amplitude object for all distributions that can share it
            v = {t: var(h["k"], "TAB" if t else "") for t in (False, True)}
            for j in range(len(ds)) if h["s"] else [i]:
                setattr(ds[j], KIND[kinds[j]][1], v[kinds[j].endswith("TAB")])
            r.update(key=f"{kinds[i]}/amp", d=i + 1, k=h["k"], s=h["s"])
        elif op == "lim":
            setlim(ms[m], classes[m], h["lo"], h["hi"])
            lims[m] = [h["lo"], h["hi"]]
            r.update(m=m + 1, lo=h["lo"], hi=h["hi"])
        elif op == "swap":
            slot[m] = (h["d"] - 1) % len(ds)
            ms[m].particle_distribution = ds[slot[m]]
            r.update(m=m + 1, d=slot[m] + 1)
        elif op in ("ask", "prop"):
            lo, hi = (h["lo"], h["hi"]) if op == "ask" else (-1, -1)
            out, v = outcome(lambda: getattr(ms[m], "compute_" + W(m))(**kw(m, lo, hi))
                             if op == "ask" else getattr(ms[m], W(m)))
            r.update(ev="ask", m=m + 1, lo=lo, hi=hi, out=out, got=[OFF, 1], isE=False)
            if out == "ok":
                r["isE"] = v.unit.physical_type == "energy"
                if r["isE"]:
                    r["got"] = rat(v / base(m, lo, hi))
        elif op == "refuse":
            bad = [3.0, 3 / u.eV, 3 * u.erg / u.s, None, "1 erg"][h["x"] - 1]
            out, _ = outcome(lambda: getattr(ms[m], "set_" + W(m))(bad))
            r.update(m=m + 1, out=out, what=str(bad))
        r.update(common())
        ev.append(r)
    return ev


def adding(job):
    """adjacent ranges of curved shapes"""
    c, kind, a, i, j, k = job
    m = MODELS[c](make(kind, a))
    n = 120
    setattr(m, "nEpd" if c == "PP" else "nEed", n)
    W = "compute_W" + ("p" if c == "PP" else "e")
    p = lim(c)

    def f(x, y):
        return getattr(m, W)(**{p + "min": 2.0**x * u.TeV, p + "max": 2.0**y * u.TeV})
    return dict(ev="add", key=f"{c}/{kind}/add", tol=5000, sum=snap(
        ((f(i, j) + f(j, k)) / f(i, k)).to("").value, 1e-6, tol=10))


def kelner(job):
    """the proton energy above threshold of the delta-approximation class"""
    a, k, kind = job
    m = R.PionDecayKelner06(make(kind, a, 2.0**k))
    # integral of E N(E) above 1.22 GeV, a = 3
    w = (2.0**k * A0 * E0**2 / 1.22e-3).to("erg")
    return dict(ev="add", key=f"KEL/{kind}", tol=20,
                sum=snap((m.Wp / w).to("").value, 1e-6, tol=10))


def run(ck):
    inv = ["SetExactly", "Positive"]
    ck.model("BudgetGen", cfg_text(spec="Spec", invariants=inv, properties=["Others"],
             constants=dict(NM=2, ND=2, Idx="{3}", Ws="{3}", Ks="{1}", L=2,
                            Generate="FALSE")),
             must_take=["SetW", "SetA", "SetL", "Swap", "Ask", "Refuse"])
    gs = ck.simulate("BudgetGen", cfg_text(spec="Spec", invariants=["Emit"], constants=dict(
        NM=3, ND=3, Idx="{0, 1, 2, 3}", Ws="{1, 2, 3, 5, 7}", Ks="-2..2", L=25,
        Generate="TRUE")), ck.n(150, 2500), 30)
    rng = ck.rng
    jobs = []
    names = list(KIND)
    for i, g in enumerate(gs):
        ks = [names[i % len(names)], rng.choice(names), rng.choice(names)]
        cs = [list(MODELS)[i % 4], rng.choice(list(MODELS)), rng.choice(list(MODELS))]
        jobs.append((ck.seed * 7919 + i, cs, ks, g))
    events = sum(pmap(replay, jobs, chunk=4), [])
    adds = [(c, k, a, i, j, e) for c in MODELS for k in KIND if KIND[k][0]
            for a in (0, 2, 3) for i, j, e in ((0, 1, 5), (0, 3, 4), (1, 4, 5))]
    events += [dict(ev="start", key="adding", a=[], slot=[], curved=[])]
    events += pmap(adding, adds, chunk=20)
    # only the last decades matter for index 3
    events += pmap(kelner, [(3, k, kind) for k in (-3, 0, 4)
                            for kind in ("PL", "BPL", "LP", "DUCK")])
    ck.sample(events[:4])
    ck.validate("BudgetTrace", events, traces=len(jobs), chunk=900, split_on="start")
