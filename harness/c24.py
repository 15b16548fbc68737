"""C24: Sherpa wrappers return the photon fluxes of the native models."""
import math

import numpy as np

import vlib
from vlib import cfg_text, pmap

nm = vlib.load_naima()
import astropy.units as u  # noqa: E402
import naima.models as M  # noqa: E402
import naima.sherpa_models as S  # noqa: E402

CLASSES = dict(IC=S.InverseCompton, SYN=S.Synchrotron, BREM=S.Bremsstrahlung, PP=S.PionDecay)
# values 2 and 3 of the parameters; value 1 is the default
VALUES = dict(index=[1.75, 3.0], ref=[10.0, 1.0], cutoff=[20.0, 100.0], beta=[2.0, 0.5],
              distance=[2.0, 8.0], tfir=[70.0, 25.0], ufir=[0.5, 2.0], tnir=[5000.0, 2500.0],
              unir=[1.0, 0.25], b=[0.01, 1e-4], n0=[10.0, 0.5], weight_ee=[1.0, 0.0],
              weight_ep=[1.0, 0.5], nh=[10.0, 0.25], verbose=[1.0, 0.0])


def val(par, k, default):
    name = par.lower()
    if name == "ampl":
        return default * 2.0**k
    return default if k == 1 else VALUES[name][k - 2]


def native(cls, p, en):
    """dN/dE in 1/(s cm2 keV) of the native model for parameters p (by name)"""
    amp, ref = p["ampl"] * 1e30 / u.eV, p["ref"] * u.TeV
    if p["cutoff"] == 0:
        d = M.PowerLaw(amp, ref, p["index"])
    else:
        d = M.ExponentialCutoffPowerLaw(amp, ref, p["index"], p["cutoff"] * u.TeV,
                                        beta=p["beta"])
    if cls == "IC":
        seeds = ["CMB"]
        for x in ("fir", "nir"):
            if p["u" + x]:
                seeds.append([x, p["t" + x] * u.K, p["u" + x] * u.eV / u.cm**3])
        m = M.InverseCompton(d, seed_photon_fields=seeds, Eemin=1 * u.GeV, Eemax=100 * u.TeV,
                             Eed=100)
    elif cls == "SYN":
        m = M.Synchrotron(d, B=p["b"] * u.G)
    elif cls == "BREM":
        m = M.Bremsstrahlung(d, n0=p["n0"] / u.cm**3, weight_ee=p["weight_ee"],
                             weight_ep=p["weight_ep"])
    else:
        m = M.PionDecay(d, nh=p["nh"] / u.cm**3)
    return m.flux(en * u.keV, distance=p["distance"] * u.kpc).to_value("1/(s cm2 keV)")


def segment(e1, e2, f1, f2):
    """integral of the power law through two points"""
    if not (f1 > 0 and f2 > 0):
        return 0.0
    b = math.log(f2 / f1) / math.log(e2 / e1)
    if abs(b + 1) < 1e-10:
        return e1 * f1 * math.log(e2 / e1)
    return e1 * f1 * ((e2 / e1) ** (b + 1) - 1) / (b + 1)


def total(e, f):
    return sum(segment(*x) for x in zip(e[:-1], e[1:], f[:-1], f[1:]))


class Session:
    def __init__(self, cls):
        self.cls = cls
        self.ms = [CLASSES[cls]("m1"), CLASSES[cls]("m2")]
        self.names = [p.name for p in self.ms[0].pars]
        self.default = [p.val for p in self.ms[0].pars]
        self.st = [[0 if n == "ampl" else 1 for n in self.names] for _ in self.ms]
        self.seen = []
        self.memo = {}

    def vector(self, v):
        return [val(n, k, d) for n, k, d in zip(self.names, v, self.default)]

    def vals(self):
        r = []
        for m in self.ms:
            v = []
            for p, d in zip(m.pars, self.default):
                n = p.name.lower()
                if n == "ampl":
                    v.append(vlib.log2snap(p.val / d, 1e-9) if p.val > 0 else vlib.OFF)
                    continue
                ks = [k for k in (1, 2, 3) if val(n, k, d) == p.val]
                v.append(ks[0] if ks else vlib.OFF)
            r.append(v)
        return r

    def reference(self, v, grid):
        key = (tuple(v), grid["bins"], tuple(grid["e"]))
        if key not in self.memo:
            e = 2.0 ** np.array(grid["e"])
            p = dict(zip([n.lower() for n in self.names], self.vector(v)))
            f = native(self.cls, p, e)
            self.memo[key] = np.array([segment(*x) for x in zip(e[:-1], e[1:], f[:-1], f[1:])]) \
                if grid["bins"] else e * f
        return self.memo[key]


def same(x, y):
    x = np.asarray(x, dtype=float)
    # a bin much smaller than the neighbouring ones is not resolved
    return x.shape == y.shape and bool(np.all(np.abs(x - y) <= 1e-7 * np.abs(y) + 1e-300))


def canon(s, v):
    """vectors as indices: the third value of verbose is the first one"""
    return [1 if n == "verbose" and k == 3 else k for n, k in zip(s.names, v)]


def step(s, o, cfg, evs):
    r = o["r"] - 1
    m = s.ms[r]
    k = (o["k"] - 1) % len(s.names)
    name = s.names[k]
    ev = dict(ev=o["op"], key=s.cls + ":" + o["op"], r=o["r"], k=k + 1, v=0, m=0, given=[], match=[],
              n=0, nreq=0, fluxok=True, detail="", vals=[])
    evs.append(ev)
    grid = cfg["grids"][o["g"] - 1]
    e = 2.0 ** np.array(grid["e"])
    args = (e[:-1], e[1:]) if grid["bins"] else (e,)
    nreq = len(args[0])

    def body():
        if o["op"] == "set":
            v = o["m"] if name == "ampl" else canon(s, [1] * k + [o["v"]])[k]
            ev["v"] = v
            ev["key"] += ":" + name
            x = val(name, v, s.default[k])
            if o["f"] % 3 == 0:
                getattr(m, name).set(x)
            elif o["f"] % 3 == 1:
                setattr(m, name, x)
            else:
                m.pars[k].val = x
            s.st[r][k] = v
        elif o["op"] == "freeze":
            p = m.pars[k]
            p.freeze() if o["x"] else p.thaw()
        elif o["op"] in ("eval", "given"):
            ev["ev"] = "eval"
            ev["key"] += ":bins" if grid["bins"] else ":points"
            v = s.st[r]
            if o["op"] == "given":
                v = canon(s, [(w - 2 if n == "ampl" else w) for n, w in zip(s.names, o["w"])])
                ev["given"] = v
                kw = dict(xhi=args[1]) if len(args) == 2 and (o["y"] or nreq == 1) else {}
                y = m.calc(s.vector(v), *(args[:1] if kw else args), **kw)
            elif o["x"] or nreq == 1:
                p = [q.val for q in m.pars]
                y = m.calc(p, args[0], xhi=args[1]) if len(args) == 2 else m.calc(p, *args)
            else:
                y = m(*args)
            ev["nreq"], ev["n"] = nreq, int(np.size(y))
            s.seen = [v] + [x for x in s.seen if x != v]
            s.seen = [list(x) for x in s.seen[:6]]
            for x in s.seen:
                if same(y, s.reference(x, grid)):
                    ev["match"].append(list(x))
                    break
            if not ev["match"]:
                ev["detail"] = vlib.ustr(repr(np.asarray(y) / s.reference(v, grid)))[:100]
            if o["y"]:
                # what is done with a result is of no concern to the model
                np.asarray(y)[...] = -1
        elif o["op"] == "guess":
            if nreq < 2:
                ev["ev"] = "freeze"
                return
            ref = s.reference(s.st[r], grid)
            if not np.all(ref > 0) or abs(s.st[r][2] + o["m"]) > 8:
                ev["ev"] = "freeze"
                return
            if o["x"]:
                dep = ref * 2.0 ** o["m"]
                ev["m"] = o["m"]
            else:
                ev["ev"] = "gshape"
                dep = ref * (1.0 + np.arange(nreq) % 2) * 2.0 ** o["m"]
            ev["key"] += ":bins" if grid["bins"] else ":points"
            m.guess(dep, *args)
            y = m.calc([q.val for q in m.pars], *args)
            a, b = total(args[0], dep), total(args[0], y)
            ev["fluxok"] = bool(abs(a - b) <= 1e-6 * a)
            if o["x"]:
                s.st[r][2] += o["m"]

    with vlib.silence():
        ev["out"], _ = vlib.outcome(body)
    ev["vals"] = [canon(s, v) for v in s.vals()]
    if ev["ev"] == "gshape":
        m.ampl = val("ampl", s.st[r][2], s.default[2])
    elif ev["ev"] == "guess":
        # (free of rounding)
        m.ampl = val("ampl", s.st[r][2], s.default[2])


def play(job):
    b, seed = job
    cfg = b["cfg"]
    s = Session(cfg["cls"])
    evs = [dict(ev="start", key=s.cls + ":start", np=len(s.names), out="ok", detail="",
                ampl=s.names.index("ampl") + 1)]
    for o in b["h"]:
        step(s, o, cfg, evs)
        if evs[-1]["out"] != "ok":
            break
    return evs


def run(ck):
    c = dict(NP=3, V="0..1", Grids="{1, 2}", Size=2, L=ck.n(5, 6), Broken="FALSE")
    ck.model("WrapMC", cfg_text(spec="Spec", constants=c, invariants=["Current", "Bounded"]),
             must_take=["Set", "Own", "Given"])
    ck.mutant_model("WrapMC", cfg_text(spec="Spec", constants=dict(c, Broken="TRUE"),
                                       invariants=["Current"]), "Current")
    L = 14
    bs = ck.simulate("WrapGen", cfg_text(spec="Spec", invariants=["Emit"], constants=dict(
        Classes='{"IC", "SYN", "BREM", "PP"}', L=L, EMax=40)), ck.n(120, 1800), L + 3)
    ev = []
    for e in pmap(play, [(b, ck.rng.random()) for b in bs], chunk=2):
        ev += e
    ck.sample(bs[0])
    ck.validate("WrapTrace", ev, traces=len(bs), chunk=300, split_on="start")
