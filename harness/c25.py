"""C25: malformed physical inputs are refused, equivalent ones are equivalent."""
import numpy as np

import vlib
from vlib import cfg_text, pmap

nm = vlib.load_naima()
from astropy import units as u  # noqa: E402
from astropy.table import QTable, Table  # noqa: E402
from naima import models as M  # noqa: E402
from naima import radiative as R  # noqa: E402

UNITS = {
    "energy": ["TeV", "erg", "N m"], "length": ["kpc", "cm", "lyr"],
    "time": ["s", "yr", "h"], "temperature": ["K", "mK", "kK"],
    "number density": ["cm-3", "m-3", "pc-3"],
    "differential energy": ["eV-1", "TeV-1", "erg-1"],
    "magnetic flux density": ["uG", "T", "kg s-2 A-1"],
    "angle": ["rad", "deg", "arcmin"],
    "pressure": ["eV cm-3", "erg cm-3", "Pa"],
    "differential number density": ["eV-1 cm-3", "erg-1 m-3", "TeV-1 pc-3"],
    "dimensionless": ["", "%", "m km-1"], "frequency": ["Hz", "GHz", "min-1"],
    "mass": ["g", "kg", "Msun"], "power": ["W", "erg s-1", "Lsun"],
    "differential flux": ["cm-2 s-1 TeV-1", "m-2 s-1 erg-1", "cm-2 s-1 eV-1"]}
A0 = 1e36 / u.eV
EG = [0.05, 0.5] * u.TeV
EX = [0.1, 1.0] * u.keV
ARR_E = np.array([1, 2, 4, 8]) * u.eV


def pl(a=A0):
    return M.PowerLaw(a, 10 * u.TeV, 2.0)


def syn(pd=None, **k):
    return R.Synchrotron(pd or pl(), **{**dict(B=10 * u.uG, nEed=8), **k})


def ic(pd=None, seeds=None, **k):
    return R.InverseCompton(pd or pl(), seed_photon_fields=seeds or ["CMB", "FIR"],
                            **{**dict(nEed=8), **k})


def brem(pd=None, **k):
    return R.Bremsstrahlung(pd or pl(), **{**dict(nEed=8), **k})


def pp(pd=None, **k):
    return R.PionDecay(pd or pl(), **{**dict(nEpd=6), **k})


def kel(pd=None, **k):
    return R.PionDecayKelner06(pd or pl(), **k)


MK = dict(SYN=syn, IC=ic, BREM=brem, PP=pp, KEL=kel)
EN = dict(SYN=EX, IC=EG, BREM=EG, PP=EG, KEL=EG[:1])
T1 = [0.5, 1.0, 20.0] * u.TeV


def mono(x, uu=2 * u.eV / u.cm**3):
    return ic(seeds=[["m", x, uu]]).flux(EG)


SITES = {
    "PL_e0": ("10 TeV", lambda x: M.PowerLaw(A0, x, 2.0)(T1)),
    "ECPL_e0": ("10 TeV", lambda x: M.ExponentialCutoffPowerLaw(A0, x, 2.0, 10 * u.TeV)(T1)),
    "ECPL_ec": ("10 TeV", lambda x: M.ExponentialCutoffPowerLaw(A0, u.TeV * 1, 2.0, x)(T1)),
    "BPL_e0": ("10 TeV", lambda x: M.BrokenPowerLaw(A0, x, 1 * u.TeV, 1.5, 2.5)(T1)),
    "BPL_eb": ("2 TeV", lambda x: M.BrokenPowerLaw(A0, 1 * u.TeV, x, 1.5, 2.5)(T1)),
    "ECBPL_e0": ("10 TeV", lambda x: M.ExponentialCutoffBrokenPowerLaw(
        A0, x, 1 * u.TeV, 1.5, 2.5, 9 * u.TeV)(T1)),
    "ECBPL_eb": ("2 TeV", lambda x: M.ExponentialCutoffBrokenPowerLaw(
        A0, 1 * u.TeV, x, 1.5, 2.5, 9 * u.TeV)(T1)),
    "ECBPL_ec": ("9 TeV", lambda x: M.ExponentialCutoffBrokenPowerLaw(
        A0, 1 * u.TeV, 2 * u.TeV, 1.5, 2.5, x)(T1)),
    "LP_e0": ("10 TeV", lambda x: M.LogParabola(A0, x, 2.0, 0.1)(T1)),
    "TAB_e": ([0.1, 1, 3, 10, 30], lambda x: M.TableModel(
        x, np.array([5, 4, 3, 2, 1]) * A0)(T1)),
    "EBL_z": (0.5, lambda x: M.EblAbsorptionModel(x).transmission(T1)),
    "PL_call": ([0.5, 1, 20], lambda x: pl()(x)),
    "ECPL_call": ([0.5, 1, 20], lambda x: M.ExponentialCutoffPowerLaw(
        A0, 1 * u.TeV, 2.0, 10 * u.TeV)(x)),
    "BPL_call": ([0.5, 1, 20], lambda x: M.BrokenPowerLaw(
        A0, 1 * u.TeV, 2 * u.TeV, 1.5, 2.5)(x)),
    "ECBPL_call": ([0.5, 1, 20], lambda x: M.ExponentialCutoffBrokenPowerLaw(
        A0, 1 * u.TeV, 2 * u.TeV, 1.5, 2.5, 9 * u.TeV)(x)),
    "LP_call": ([0.5, 1, 20], lambda x: M.LogParabola(A0, 1 * u.TeV, 2.0, 0.1)(x)),
    "TAB_call": ([0.5, 1, 20], lambda x: M.TableModel(
        np.array([0.1, 1, 3, 10, 30]) * u.TeV, np.array([5, 4, 3, 2, 1]) * A0)(x)),
    "EBL_call": ([0.5, 1, 20], lambda x: M.EblAbsorptionModel(0.1).transmission(x)),
    "SYN_B": ("10 uG", lambda x: syn(B=x).flux(EX)),
    "BREM_n0": ("2 cm-3", lambda x: brem(n0=x).flux(EG)),
    "PP_nh": ("2 cm-3", lambda x: pp(nh=x).flux(EG)),
    "KEL_nh": ("2 cm-3", lambda x: kel(nh=x).flux(EG[:1])),
    "KEL_Etrans": ("0.2 TeV", lambda x: kel(Etrans=x).flux(EG)),
    "SYN_Eemin": ("0.02 TeV", lambda x: syn(Eemin=x).flux(EX)),
    "SYN_Eemax": ("200 TeV", lambda x: syn(Eemax=x).flux(EX)),
    "IC_Eemin": ("0.2 TeV", lambda x: ic(Eemin=x).flux(EG)),
    "IC_Eemax": ("200 TeV", lambda x: ic(Eemax=x).flux(EG)),
    "BREM_Eemin": ("0.02 TeV", lambda x: brem(Eemin=x).We),
    "BREM_Eemax": ("200 TeV", lambda x: brem(Eemax=x).We),
    "PP_Epmin": ("0.02 TeV", lambda x: pp(Epmin=x).Wp),
    "PP_Epmax": ("200 TeV", lambda x: pp(Epmax=x).Wp),
    "IC_T": ("30 K", lambda x: ic(seeds=["CMB", ["n", x, 1 * u.eV / u.cm**3]]).flux(EG)),
    "IC_u": ("2 eV cm-3", lambda x: ic(seeds=["CMB", ["n", 30 * u.K, x]]).flux(EG)),
    "IC_theta": ("1 rad", lambda x: ic(seeds=[
        ["n", 30 * u.K, 1 * u.eV / u.cm**3, x]]).flux(EG)),
    "IC_monoE": ("3 eV", mono), "IC_monou": ("2 eV cm-3", lambda x: mono(3 * u.eV, x)),
    "IC_arrE": ([1, 2, 4, 8], lambda x: ic(seeds=[
        ["a", x, np.array([4, 3, 2, 1]) / u.eV / u.cm**3]]).flux(EG)),
    "IC_arrn": ([4, 3, 2, 1], lambda x: ic(seeds=[["a", ARR_E, x]]).flux(EG)),
    "ICseed_E": ([0.05, 0.5], lambda x: ic().flux(x, seed="FIR")),
    "ICseed_d": ("2 kpc", lambda x: ic().sed(EG, distance=x, seed=1)),
    "SET_We": ("1 TeV", lambda x: setW(syn(), "We", x)),
    "SET_Wp": ("1 TeV", lambda x: setW(pp(), "Wp", x)),
    "WE_lo": ("1 TeV", lambda x: ic().compute_We(Eemin=x)),
    "WE_hi": ("10 TeV", lambda x: brem().compute_We(Eemax=x)),
    "WP_lo": ("1 TeV", lambda x: pp().compute_Wp(Epmin=x)),
    "WP_hi": ("10 TeV", lambda x: pp().compute_Wp(Epmax=x)),
}
for _k in MK:
    SITES[_k + "_pd"] = ("1e36 eV-1", lambda x, k=_k: MK[k](pl(x)).flux(EN[k]))
    SITES[_k + "_fun"] = ("1e36 eV-1", lambda x, k=_k: MK[k](
        lambda e: x * (e / (10 * u.TeV)).decompose().value ** -2.0).flux(EN[k]))
    SITES[_k + "_E"] = (EN[k_].value if (k_ := _k) in ("IC", "BREM", "PP", "KEL")
                        else [0.1e-9, 1e-9], lambda x, k=_k: MK[k]().flux(x))
    SITES[_k + "_d"] = ("2 kpc", lambda x, k=_k: MK[k]().sed(EN[k], distance=x))
TYPED = {"IC_arrE": "eV", "IC_monoE": "eV"}


def setW(o, w, x):
    getattr(o, "set_" + w)(x)
    return getattr(o, w)


def base(site, typ):
    """value of the site of the given type, in its first unit"""
    v = SITES[site][0]
    if isinstance(v, str):
        q = u.Quantity(v)
        if q.unit.is_equivalent(u.Unit(UNITS[typ][0])):
            return q.to(UNITS[typ][0])
        if site == "IC_T" and typ == "energy":
            return (3 * u.eV).to("TeV")
        return 3.0 * u.Unit(UNITS[typ][0])
    if np.ndim(v):
        un = u.Unit(TYPED.get(site, "TeV"))
        un = un if typ == "energy" else u.Unit(UNITS[typ][0])
        return (np.array(v, float) * un).to(UNITS[typ][0])
    return v * u.Unit(UNITS[typ][0])


def value(site, a, canonical=False, rng=None):
    if a["form"] == "q":
        q = base(site, a["type"])
        if not canonical:
            q = q.to(UNITS[a["type"]][a["un"] - 1])
        if a["neg"]:
            if q.isscalar:
                q = -q
            else:
                q[len(q) // 2] *= -1
        if site.endswith("_E") or site.endswith("_call"):
            if not canonical and a["un"] == 3:      # containers
                if rng is not None and rng.random() < 0.5:
                    return {"energy": q}
                t = QTable()
                t["energy"] = q
                return t
        return q
    if a["form"] == "bare":
        v = SITES[site][0]
        v = 3.0 if isinstance(v, str) else v
        v = np.array(v, float) if np.ndim(v) else float(v)
        if (site.endswith("_E") or site.endswith("_call")) and a["un"] == 2:
            t = Table()
            t["energy"] = np.abs(v)
            return t
        return -v if a["neg"] else v
    return {"none": None, "text": "spam", "list": [1.0, 2.0]}[a["form"]]


def out_of(fn):
    try:
        return "ok", fn()
    except (KeyboardInterrupt, SystemExit, MemoryError):
        raise
    except TypeError:
        return "TypeError", None
    except ValueError:
        return "ValueError", None
    except BaseException as e:
        return type(e).__name__, None


def same(a, b):
    try:
        if isinstance(a, u.Quantity) or isinstance(b, u.Quantity):
            a, b = u.Quantity(a), u.Quantity(b)
            a, b = a.si.value, b.to(a.unit).si.value
        a, b = np.asarray(a, float), np.asarray(b, float)
        if a.shape != b.shape:
            return False
        return bool(np.all((a == b) | (np.isnan(a) & np.isnan(b)) |
                           (np.abs(a - b) <= 1e-9 * np.maximum(np.abs(a), np.abs(b)))))
    except Exception:
        return False


def one(b):
    """one input at one site"""
    site, x = b["site"], value(b["site"], b)
    fn = SITES[site][1]
    before = x.copy() if isinstance(x, (u.Quantity, np.ndarray)) else None
    out, got = out_of(lambda: fn(x))
    kept = before is None or same(x, before)
    ok = True
    if out == "ok" and not b["neg"]:
        o2, want = out_of(lambda: fn(value(site, b, canonical=True)))
        ok = o2 == "ok" and same(got, want)
        if ok and b["form"] == "q":
            ok = bool(np.all(np.isfinite(u.Quantity(got).value)))
    return dict(ev="try", key=site + ":" + b["form"] + ":" + b["type"] + ("-" if b["neg"] else ""),
                sites=[site], args=[{k: b[k] for k in ("form", "type", "neg")}],
                out=out, same=ok, kept=kept, un=b["un"])


class World:
    """live objects and their twins; twins see only the acceptable calls"""

    def __init__(self):
        f = lambda: dict(SYN=syn(), IC=ic(), BREM=brem(), PP=pp())
        self.o, self.t = f(), f()
        self.o["ICseed"], self.t["ICseed"] = self.o["IC"], self.t["IC"]

    @staticmethod
    def do(o, k, op, a):
        if op == "set":
            return getattr(o, "set_Wp" if k == "PP" else "set_We")(*a)
        if op == "compute":
            return getattr(o, "compute_Wp" if k == "PP" else "compute_We")(*a)
        if op in ("flux", "sed"):
            kw = dict(seed="FIR") if k == "ICseed" else {}
            return getattr(o, op)(a[0], distance=a[1], **kw)
        return o.particle_distribution(a[0])


def play(job):
    h, seed = job
    import random
    rng = random.Random(seed)
    w = World()
    evs = []
    for s in h:
        k, op, sites = s["k"], s["op"], s["sites"]
        un1 = s["args"]
        vals = [value(x, a, rng=rng) for x, a in zip(sites, un1)]
        out, got = out_of(lambda: w.do(w.o[k], k, op, vals))
        ok = True
        if out == "ok":
            canon = [value(x, a, canonical=True) for x, a in zip(sites, un1)]
            o2, want = out_of(lambda: w.do(w.t[k], k, op, canon))
            ok = o2 == "ok" and (got is None and want is None or same(got, want))
        kept = all(same(p, q) for n in ("SYN", "IC", "BREM", "PP")
                   for p, q in zip(probe(w.o[n], n), probe(w.t[n], n)))
        evs.append(dict(ev="try", key=k + "." + op, sites=sites, same=ok, kept=kept, out=out,
                        args=[{n: a[n] for n in ("form", "type", "neg")} for a in un1]))
    return evs


def probe(o, k):
    out, v = out_of(lambda: o.particle_distribution(T1))
    v = [v if out == "ok" else np.array([np.nan] * 3)]
    out, f = out_of(lambda: o.flux(EN[k][:1]) if k != "PP" else o.Wp)
    return v + [f if out == "ok" else np.array([-1.0])]


def run(ck):
    g = ck.enumerate("InputsAll", cfg_text(spec="Spec", invariants=["Emit"],
                                           constants=dict(NU=3)))
    ck.model("InputsGen", cfg_text(spec="Spec", invariants=["OnlyAccepted"],
                                   properties=["RefusedUnchanged"], constants=dict(
        L=2, Generate="FALSE", EarlyEffect="FALSE", NU=1)), must_take=["Call", "Stop"])
    ck.mutant_model("InputsGen", cfg_text(spec="Spec", invariants=["OnlyAccepted"],
                                          properties=["RefusedUnchanged"], constants=dict(
        L=1, Generate="FALSE", EarlyEffect="TRUE", NU=1)), "OnlyAccepted")
    hs = ck.simulate("InputsGen", cfg_text(spec="Spec", invariants=["Emit"], constants=dict(
        L=8, Generate="TRUE", EarlyEffect="FALSE", NU=3)), ck.n(120, 2000), 10)
    ck.rng.shuffle(g)
    ev = pmap(one, g, chunk=16)
    ck.sample(ev[0])
    ck.notes["sites"] = len(SITES)
    hist = pmap(play, [(h, ck.rng.random()) for h in hs], chunk=2)
    for e in hist:
        ev += e
    ck.sample(hist[0])
    ck.validate("InputsTrace", ev, traces=len(g) + len(hs), chunk=2500)
