"""C30: a seed photon field means the same in every documented form."""
import copy
import random

import numpy as np

import radlib as X
from vlib import OFF, Classes, cfg_text, outcome, pmap

u, R, M = X.u, X.R, X.M
TEMP = [2.72548, 30, 100, 3000, 25000]
MONO = [0.01, 2.0, 500.0]                    # eV
TABLE = [(np.array([1.0, 10.0]), np.array([3.0, 0.02])),
         (np.logspace(-3, 1, 9), np.logspace(2, -3, 9)),
         (np.array([0.5, 0.9, 2, 30, 400.0]), np.array([1.0, 4, 2, 0.05, 1e-4]))]
ANGLE = [30, 90, 180]
EN = [[1e-5, 0.01, 0.5] * u.TeV, [3.0] * u.GeV, [2, 1e-3, 0.04] * u.TeV]
EV3 = u.eV / u.cm**3


def build(fields):
    pd = M.PowerLaw(1e36 / u.eV, 1 * u.TeV, 2.3)
    return R.InverseCompton(pd, seed_photon_fields=fields, Eemax=100 * u.TeV, nEed=12)


def plain(kind, T, th):
    """the emission of a shape, for one eV/cm3"""
    if kind == "thermal":
        f = ["f", TEMP[T - 1] * u.K, 1 * EV3] + [ANGLE[th - 1] * u.deg] * (th > 0)
    elif kind == "mono":
        f = ["f", MONO[T - 1] * u.eV, 1 * EV3]
    else:
        e, n = TABLE[T - 1]
        f = ["f", e * u.eV, n / u.eV / u.cm**3]
    return [build([f]).flux(e, distance=0) for e in EN]


def density(i):
    q = 2.0 ** i["k"] * EV3
    return [q, q.to("erg/cm3"), q.to("J/m3"), q.to("Pa")][i["unit"] - 1]


def item(i, rng):
    f, b = i["f"], i["bad"]
    if f == "name":
        return i["n"]
    if f == "thermal":
        T = TEMP[i["T"] - 1] * u.K
        if i["unit"] == 2:
            T = T.to("mK")
        r = [i["n"], T, rng.choice([0, 0.0, 0 * EV3]) if i["k"] == 99 else density(i)]
        if i["th"]:
            a = ANGLE[i["th"] - 1] * u.deg
            r.append([a, a.to("rad"), a.to("arcmin"), a][i["unit"] - 1])
        if b == "noT":
            r[1] = TEMP[i["T"] - 1]
        elif b == "typeT":
            r[1] = 30 * u.cm
            r[2] = 1 * EV3
        elif b == "typeu":
            r[2] = rng.choice([3.0, 2 * u.erg, 1 / u.cm**3, 1 * u.K])
        elif b == "negT":
            r[1] = -T
        elif b == "negu":
            r[2] = -1.5 * EV3
        elif b == "angle":
            r[3:] = [rng.choice([90.0, 1 * u.cm])]
    elif f == "mono":
        e = MONO[i["T"] - 1] * u.eV
        e = [e, e.to("keV"), e.to("erg"), e.to("J")][i["unit"] - 1]
        d = density(i)
        if i["form"] % 2:
            e = u.Quantity([e])
        if i["form"] % 3:
            d = u.Quantity([d])
        if b == "typeE":
            e = 3 * u.cm
        elif b == "typeu":
            d = rng.choice([3.0, 2 * u.erg, 1 / u.cm**3])
        elif b == "negE":
            e = -e
        elif b == "negu":
            d = -d
        r = [i["n"], e, d]
    else:
        e, n = TABLE[i["T"] - 1]
        o = list(range(len(e)))
        if i["form"] in (3, 4):
            o.reverse()
        elif i["form"] == 5:
            rng.shuffle(o)
        e = e[o] * u.eV
        n = 2.0 ** i["k"] * n[o] / u.eV / u.cm**3
        if i["form"] % 2:
            d = (e**2 * n).to(["eV/cm3", "erg/cm3", "J/m3", "Pa"][i["unit"] - 1])
        else:
            d = n.to(["1/(eV cm3)", "1/(erg cm3)", "1/(J m3)", "1/(TeV pc3)"][i["unit"] - 1])
        e = e.to(["eV", "keV", "erg", "Hz"][i["unit"] - 1 if i["unit"] < 4 else 0])
        if b == "typeE":
            e = e.value * u.cm
        elif b == "typen":
            d = rng.choice([d.value, d.value * u.K])
        elif b == "negE":
            e = e.copy()
            e[0] = -e[0]
        elif b == "negn":
            d = d.copy()
            d[-1] = -d[-1]
        elif b == "lengths":
            if i["form"] in (1, 2):
                d = d[1:]
            else:
                e = e[:-1]
        r = [i["n"], e, d]
    if b == "short":
        r = r[:2]
    elif b == "long":
        r = r[:3] + [1 * u.rad, 1 * u.rad]
    return r


def same(a, b):
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(map(same, a, b))
    if isinstance(a, u.Quantity):
        return isinstance(b, u.Quantity) and a.unit == b.unit and np.array_equal(a.value, b.value)
    return type(a) is type(b) and np.array_equal(a, b)


SHAPES = [("thermal", T, th) for T in range(1, 6) for th in range(4)] + \
    [("mono", T, 0) for T in (1, 2, 3)] + [("table", T, 0) for T in (1, 2, 3)]


def micro(a, b):
    """logarithms of the ratios (none where both vanish)"""
    a, b = np.atleast_1d(a.value), np.atleast_1d(b.to(a.unit).value)
    return [int(round(1e6 * np.log2(x / y))) if x > 0 and y > 0 else OFF
            for x, y in zip(a, b) if not x == y == 0]


def shape(i):
    if i["f"] == "name":
        return "thermal", dict(CMB=1, FIR=2, NIR=4)[i["n"]], 0
    return i["f"], i["T"], i["th"]


def replay(job):
    hist, seed, ref = job
    rng = random.Random(seed)
    ev = []
    made = []
    for c in hist:
        if rng.random() < 0.2 and made:          # the very description again
            c, given = rng.choice(made)
        else:
            given = [item(i, rng) for i in c["items"]]
            made.append((c, given))
        keep = copy.deepcopy(given)
        how = c["how"]
        arg = (given if how == "list" else tuple(given) if how == "tuple" else
               iter(given) if how == "iter" else "-".join(given))
        e = EN[c["e"] - 1]
        r = dict(ev="model", key=how, c=c, names=[], num=[], name=[], tot=[], same=True)
        r["out"], m = outcome(build, arg)
        if r["out"] == "ok":
            r["names"] = list(m.seed_photon_fields)
            parts = []
            for k, i in enumerate(c["items"]):
                s = shape(i)
                w = ref[s][c["e"] - 1]
                for key, sel in (("num", rng.choice([k, np.int64(k)])), ("name", i["n"])):
                    out, v = outcome(lambda: m.flux(e, seed=sel, distance=0))
                    r[key].append(dict(kind=s[0], T=s[1], th=s[2],
                                       r=micro(v, w) if out == "ok" else [OFF]))
                    if key == "num" and out == "ok":
                        parts.append(v)
            tot = m.flux(e, distance=0)
            r["tot"] = micro(tot, sum(parts[1:], parts[0])) if parts else [OFF]
        r["same"] = same(given, keep)
        ev.append(r)
    return ev


def run(ck):
    cl = Classes(1e-9)
    ref = {s: plain(*s) for s in SHAPES}
    start = dict(ev="start", key="start", ref=[
        dict(kind=s[0], T=s[1], th=s[2], c=cl.id(np.concatenate([x.value for x in ref[s]])))
        for s in SHAPES])
    hs = ck.simulate("FieldsGen", cfg_text(spec="Spec", invariants=["Emit", "Sane"],
                                           constants=dict(L=8)), ck.n(150, 3000), 10)
    ev = []
    for e in pmap(replay, [(h, ck.rng.random(), ref) for h in hs], chunk=4):
        ev += [start, *e]
    ck.sample(hs[0])
    ck.validate("FieldsTrace", ev, traces=len(hs), chunk=300, split_on="start")
