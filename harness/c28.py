"""C28: spectra agree with the published kernels, energetics and kinematics."""
import numpy as np

import vlib
from c06 import micro
from vlib import cfg_text, outcome, pmap

nm = vlib.load_naima()
from astropy import units as u  # noqa: E402
from naima import models as M  # noqa: E402
from naima import radiative as R  # noqa: E402

# constants of nature (CODATA), independent of naima
E_, HBAR, ME, C = 4.80320471e-10, 1.054571817e-27, 9.1093837e-28, 2.99792458e10
MEC2, MEC2E = 0.51099895, 8.1871058e-7                    # MeV, erg
R0, AL, KB = 2.8179403262e-13, 7.2973525693e-3, 8.617333262e-5   # kB: eV/K
ST = 8 * np.pi / 3 * R0**2
MP, MPI, MB = 0.93827208816, 0.1349766, 1e-27
KPC2 = 4 * np.pi * (3.0856775814913673e21) ** 2
EV = 1.602176634e-12
W = 1e-4


def pdist(i):
    a = 1e40 / u.TeV
    return [lambda: M.PowerLaw(a, 1 * u.TeV, 2.0),
            lambda: M.PowerLaw(a, 1 * u.TeV, 2.7),
            lambda: M.ExponentialCutoffPowerLaw(a, 1 * u.TeV, 1.6, 3 * u.TeV, 0.5),
            lambda: M.BrokenPowerLaw(a, 1 * u.TeV, 0.1 * u.TeV, 1.5, 3.0),
            lambda: M.LogParabola(a, 1 * u.TeV, 2.0, 0.1),
            lambda: M.TableModel(np.logspace(-7, 5, 60) * u.TeV, 1e40 * np.logspace(
                -7, 5, 60) ** -2.0 / u.TeV),
            lambda: M.ExponentialCutoffBrokenPowerLaw(
                a, 1 * u.TeV, 0.3 * u.TeV, 1.8, 2.6, 20 * u.TeV),
            lambda: (lambda e: a * (e.to("TeV").value) ** -1.8)][i]()


def particle(st):
    """energy in TeV"""
    if st["proc"] == "PP":
        return (1.5 * 2.0 ** st["s"] + MP) * 1e-3
    g = 1 + 2.0 ** st["s"] if st.get("tgt") == "nr" else 2.0 ** st["g"]
    return g * MEC2 * 1e-6


def seedlist(st):
    w = 2.0 ** st["j"]
    kT = w / 2.0 ** st["g"] * MEC2 * 1e6                   # eV
    den = 2.0 ** st["m"] * u.eV / u.cm**3
    f = st["fld"]
    if f == "mono":
        return ["x", kT * u.eV, den]
    if f == "tab":
        x = np.logspace(-6, np.log10(60), 1600)
        n = x**2 / np.expm1(x) / (np.pi**4 / 15) / kT**2
        return ["x", x * kT * u.eV, n * den.value / u.eV / u.cm**3]
    return ["x", kT / KB * u.K, den] + ([float(f[1:]) * u.deg] if f[0] == "a" else [])


class Obj:
    def __init__(self, st, pd):
        self.st, self.pd = dict(st), pd
        p = st["proc"]
        if p == "SYN":
            self.o = R.Synchrotron(pd, B=2.0 ** st["b"] * u.G)
        elif p == "IC":
            self.o = R.InverseCompton(pd, seed_photon_fields=[seedlist(st)])
        elif p == "BREM":
            ep = st["tgt"] == "ep"
            self.o = R.Bremsstrahlung(pd, n0=2.0 ** st["m"] / u.cm**3,
                                      weight_ep=1.0 * ep, weight_ee=1.0 * (not ep))
        elif p == "PP":
            self.o = R.PionDecay(pd, nh=2.0 ** st["m"] / u.cm**3, useLUT=False,
                                 hiEmodel=st["mod"], nuclear_enhancement=st["nuc"])
        else:
            self.o = R.PionDecayKelner06(pd, nh=2.0 ** st["m"] / u.cm**3,
                                         Etrans=2.0 ** st["t"] * u.TeV)
        self.range()

    def range(self):
        if self.st["proc"] == "KEL":
            return
        e = particle(self.st) * u.TeV
        lo, hi = e * (1 - W / 2), e * (1 + W / 2)
        if self.st["proc"] == "PP":
            self.o.Epmin, self.o.Epmax = lo, hi
        else:
            self.o.Eemin, self.o.Eemax = lo, hi
        self.N = (self.pd(np.atleast_1d(e)).to("TeV-1").value[0] * e.value * W)

    def set(self, f, st):
        self.st = dict(st)
        p, o = st["proc"], self.o
        if p == "IC":
            new = R.InverseCompton(self.pd, seed_photon_fields=[seedlist(st)])
            if f == "m" and st["fld"] not in ("tab", "mono"):
                o.seed_photon_fields["x"]["u"] = 2.0 ** st["m"] * u.eV / u.cm**3
            elif f != "d":
                o.seed_photon_fields = new.seed_photon_fields
        elif f == "b":
            o.B = 2.0 ** st["b"] * u.G
        elif f == "m":
            setattr(o, "n0" if p == "BREM" else "nh", 2.0 ** st["m"] / u.cm**3)
        elif f == "t":
            o.Etrans = 2.0 ** st["t"] * u.TeV
        elif f == "mod":
            o.hiEmodel = st["mod"]
        elif f == "nuc":
            o.nuclear_enhancement = st["nuc"]
        elif f == "tgt":
            o.weight_ep, o.weight_ee = 1.0 * (st["tgt"] == "ep"), 1.0 * (st["tgt"] != "ep")
        self.range()

    def energies(self, ks):
        st, k = self.st, np.array(ks, float)
        p = st["proc"]
        if p == "SYN":
            ec = 1.5 * E_ * HBAR * 2.0 ** st["b"] / (ME * C) * 4.0 ** st["g"]
            return ec * 2 ** (k / 2) * u.erg
        if p == "IC":
            return 4 * 2.0 ** (st["j"] + st["g"] - k) * MEC2 * u.MeV
        if p == "BREM":
            g = 2.0 ** st["g"]
            if st["tgt"] == "nr":
                g = ((1 + 2.0 ** st["s"]) ** 2 - 1) / 4
            return g * 2.0 ** -k * MEC2 * u.MeV
        if p == "PP":
            return MPI / 2 * 2**k * u.GeV
        return 2.0**k * u.TeV

    def unit(self):
        """natural unit of E dN/dE dt per particle"""
        st, p = self.st, self.st["proc"]
        if p == "SYN":
            x = np.sqrt(3) * E_**3 / (2 * np.pi * MEC2E * HBAR)
        elif p == "IC":
            kT = 2.0 ** (st["j"] - st["g"]) * MEC2 * 1e6
            x = C * np.pi * R0**2 / kT
        elif p == "BREM":
            x = C * AL * R0**2
        else:
            x = C * MB
        if p != "KEL":
            x *= self.N
        return x / (KPC2 if st["d"] else 1)

    def flux(self, E):
        d = self.st["d"]
        f = self.o.flux(E, distance=2.0**d * u.kpc if d else 0)
        return f.to("1/(s cm2 erg)" if d else "1/(s erg)").value

    def ask(self, ks):
        E = self.energies(ks)
        x = E.to("erg").value
        if self.st["proc"] == "KEL":
            x = (1 * u.TeV).to("erg").value        # dN/dE per TeV
        return [micro(v) for v in self.flux(E) * x / self.unit()]

    def over(self, x):
        e = particle(self.st) * (1.001 + x / 10)
        return [micro(v) for v in self.flux([e, 10 * e, 1000 * e] * u.TeV)]

    def power(self):
        st = self.st
        g = 2.0 ** st["g"]
        if st["proc"] == "SYN":
            U = 4.0 ** st["b"] / (8 * np.pi)
            e = 1.5 * E_ * HBAR * 2.0 ** st["b"] / (ME * C) * g * g
            E = np.logspace(-9, 2, 250) * e * u.erg
        else:
            U = 2.0 ** st["m"] * EV
            w = 2.0 ** st["j"]
            zmax = min(4 * w * 30, 1.0)
            z = zmax * np.logspace(-7, 0, 350)
            z = np.unique(np.concatenate([z, 1 - np.logspace(-6, -0.3, 80)])) if zmax == 1 else z
            E = z * g * MEC2E * u.erg
        # in pieces: a tabulated field needs a lot of memory
        y = np.concatenate([self.flux(x * E.unit) for x in np.array_split(
            E.value, 10)]) * E.value**2
        p = np.trapezoid(y, np.log(E.value)) * (KPC2 * 4.0 ** st["d"] if st["d"] else 1)
        return micro(p / (4 / 3 * ST * C * U * g * g * self.N))


def parts(st, pd, cuts):
    p = st["proc"]
    d = pdist(pd)
    c = [2e-3 * 2.0 ** x for x in cuts]

    def f(a, b):
        if p == "SYN":
            o = R.Synchrotron(d, B=2.0 ** st["b"] * u.G, Eemin=a * u.TeV, Eemax=b * u.TeV)
            E = 1.5 * E_ * HBAR * 2.0 ** st["b"] / (ME * C) * (
                c[-1] * 1e6 / MEC2) ** 2 * np.array([1e-6, 1e-3, 0.03, 0.2]) * u.erg
        elif p == "IC":
            # gamma kT of the highest energies as of the state
            g = c[-1] * 1e6 / MEC2
            o = R.InverseCompton(d, seed_photon_fields=[seedlist(dict(st, g=np.log2(g)))],
                                 Eemin=a * u.TeV, Eemax=b * u.TeV)
            w = 4 * 2.0 ** st["j"]
            E = g * w / (1 + w) * MEC2 * np.array([1e-5, 1e-3, 0.03, 0.1]) * u.MeV
        elif p == "BREM":
            o = R.Bremsstrahlung(d, Eemin=a * u.TeV, Eemax=b * u.TeV)
            E = c[0] * np.array([1e-3, 0.1, 0.5]) * u.TeV
        else:
            o = R.PionDecay(d, Epmin=a * u.TeV, Epmax=b * u.TeV, useLUT=False,
                            hiEmodel=st["mod"], nuclear_enhancement=st["nuc"])
            E = c[0] * np.array([0.02, 0.1, 0.3]) * u.TeV
        return o.flux(E, distance=0).to("1/(s eV)").value
    whole = f(c[0], c[-1])
    v = np.array([f(a, b) for a, b in zip(c, c[1:])]) / whole * 1e6
    return [[int(round(float(x))) if abs(x) < 2e6 else vlib.OFF for x in row] for row in v.T]


def same(h):
    pd = M.PowerLaw(1e40 / u.TeV, 1 * u.TeV, h["al"] / 4)
    emax = [1.0, 10.0, 100.0, 1000.0, 1e4, 1e5][h["emax"]] * u.TeV
    k = h["k"]
    E = [0.0675 * 2.0 ** x for x in (k, k - 3, k + 2) if 0.0675 * 2.0**x < 0.2 * emax.to("GeV").value
         ] + [emax.to("GeV").value * 1.5]
    E = E * u.GeV
    a, b = (R.PionDecay(pd, Epmax=emax, useLUT=x).flux(E, distance=0).value
            for x in (True, False))
    # nothing beyond the highest proton energy, up to the rounding of the table
    t = R.PionDecay(pd, Epmax=emax).flux(emax / 10, distance=0).value * 1e-10
    return [0 if y == 0 and 0 <= x < t else vlib.OFF if not (x >= 0 and y > 0) else
            int(np.clip(round(1e6 * (x / y - 1)), -10**6, 10**6)) for x, y in zip(a, b)]


def replay(args):
    hist, pd = args
    ev = []
    o = None
    with np.errstate(all="ignore"):
        for h in hist:
            a = h["a"]
            if a == "new":
                st = h["st"]
                d = pdist(pd)
                if st["proc"] == "KEL":
                    d = M.PowerLaw(1 / u.TeV, 1 * u.TeV, 1.5 + st["al"] / 2)
                out, o = outcome(lambda: Obj(st, d))
                ev.append(dict(ev="new", key="new/" + st["proc"], st=st, out=out))
                if out != "ok":
                    break
            elif a == "set":
                o.set(h["f"], h["st"])
                ev.append(dict(ev="set", key="set", f=h["f"], v=h["st"][h["f"]]))
            elif a == "ask":
                out, v = outcome(lambda: o.ask(h["ks"]))
                ev.append(dict(ev="ask", key=f"ask/{o.st['proc']}/{o.st.get('fld') or o.st.get('tgt')}",
                               ks=h["ks"], out=out, v=v if out == "ok" else []))
            elif a == "over":
                out, v = outcome(lambda: o.over(h["x"]))
                ev.append(dict(ev="over", key="over/" + o.st["proc"], out=out,
                               v=v if out == "ok" else []))
            elif a == "power":
                out, v = outcome(o.power)
                ev.append(dict(ev="power", key="power/" + o.st["proc"], out=out,
                               v=v if out == "ok" else 0))
            elif a == "parts":
                out, v = outcome(lambda: parts(o.st, h["pd"], h["cuts"]))
                ev.append(dict(ev="parts", key="parts/" + o.st["proc"], proc=o.st["proc"],
                               out=out, v=v if out == "ok" else []))
            elif a == "same":
                out, v = outcome(lambda: same(h))
                ev.append(dict(ev="same", key=f"same/{h['al']}/{h['emax']}", out=out, tol=10000,
                               k=h["k"], v=v if out == "ok" else []))
    return ev


def run(ck):
    ck.model("EmitMC", cfg_text(spec="Spec", invariants=[
        "SynEnergy", "IcEnergy", "IcLoss", "PpLimit", "PpModels", "BrTargets"]),
        must_take=["Next"])
    jobs = []
    for w, n in (("SYN", 120), ("IC", 300), ("BREM", 100), ("PP", 110), ("KEL", 30)):
        hs = ck.simulate("EmitGen", cfg_text(
            spec="Spec", constants=dict(Which=f'"{w}"', L=6 if w == "KEL" else 12),
            invariants=["Emit_", "Defined", "Askable"]), ck.n(n, 6 * n), 16)
        jobs += [(h, ck.rng.randrange(8)) for h in hs]
    ck.rng.shuffle(jobs)
    events = sum(pmap(replay, jobs, chunk=4), [])
    ck.sample(events[:5])
    ck.validate("EmitTrace", events, traces=len(jobs), chunk=1500, split_on="new")
    ck.assumptions += [
        "kernels are the published formulas, integrated numerically by tools/mkemit.py",
        "particles of one energy are realised as a range of relative width 1e-4"]
