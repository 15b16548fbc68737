"""Concrete radiative models and particle distributions behind the abstract
classes / parameter versions of the TLA+ specifications."""
import numpy as np

import vlib

nm = vlib.load_naima()
from astropy import units as u  # noqa: E402
from astropy.table import QTable, Table  # noqa: E402
from naima import models as M  # noqa: E402
from naima import radiative as R  # noqa: E402

A0 = 1e36 / u.eV
TAB_E = np.logspace(-3.2, 4.2, 40) * u.TeV
EPS = 1 + 1e-8


def _tabvals(alpha):
    return 1e36 * (TAB_E.to("TeV").value / 10) ** -alpha / u.eV


class Duck:
    """user-defined callable with plain attributes"""

    def __init__(self, amplitude, k):
        self.amplitude = amplitude
        self.k = k

    def __call__(self, e):
        return self.amplitude * (e.to("TeV").value / 10) ** -self.k


class SteepPL(M.PowerLaw):
    """same parameters as PowerLaw, different distribution"""

    @staticmethod
    def eval(e, amplitude, e_0, alpha):
        return amplitude * (e / e_0) ** -(alpha + 0.5)


def _fun1(e):
    return 1e36 / u.eV * (e.to("TeV").value / 10) ** -2.0


def _fun2(e):
    return 1e36 / u.eV * (e.to("TeV").value / 10) ** -2.3


AMP = [A0, 2.5 * A0, A0 * EPS]
# kind -> (list of (parameter, three versions), builder)
PD = {
    "PL": ([("amplitude", AMP), ("e_0", [10, 11, 10 * EPS] * u.TeV),
            ("alpha", [2.0, 2.01, 2.0 * EPS])],
           lambda k: M.PowerLaw(k["amplitude"], k["e_0"], k["alpha"])),
    "ECPL": ([("amplitude", AMP), ("e_0", [10, 11, 10 * EPS] * u.TeV),
              ("alpha", [2.0, 2.01, 2.0 * EPS]),
              ("e_cutoff", [30, 300, 30 * EPS] * u.TeV),
              ("beta", [1.0, 0.5, EPS])],
             lambda k: M.ExponentialCutoffPowerLaw(
                 k["amplitude"], k["e_0"], k["alpha"], k["e_cutoff"], k["beta"])),
    "BPL": ([("amplitude", AMP), ("e_0", [10, 11, 10 * EPS] * u.TeV),
             ("e_break", [1, 2, EPS] * u.TeV), ("alpha_1", [1.5, 1.6, 1.5 * EPS]),
             ("alpha_2", [2.5, 2.6, 2.5 * EPS])],
            lambda k: M.BrokenPowerLaw(k["amplitude"], k["e_0"], k["e_break"],
                                       k["alpha_1"], k["alpha_2"])),
    "ECBPL": ([("amplitude", AMP), ("e_0", [10, 11, 10 * EPS] * u.TeV),
               ("e_break", [1, 2, EPS] * u.TeV), ("alpha_1", [1.5, 1.6, 1.5 * EPS]),
               ("alpha_2", [2.5, 2.6, 2.5 * EPS]),
               ("e_cutoff", [30, 300, 30 * EPS] * u.TeV), ("beta", [1.0, 0.5, EPS])],
              lambda k: M.ExponentialCutoffBrokenPowerLaw(
                  k["amplitude"], k["e_0"], k["e_break"], k["alpha_1"],
                  k["alpha_2"], k["e_cutoff"], k["beta"])),
    # alpha/beta chosen so that naive concatenation of values collides
    "LP": ([("amplitude", AMP), ("e_0", [10, 11, 10 * EPS] * u.TeV),
            ("alpha", [2.0, 2.01, 2.0 * EPS]), ("beta", [10.05, 0.05, 0.5])],
           lambda k: M.LogParabola(k["amplitude"], k["e_0"], k["alpha"],
                                   k["beta"] / 100)),
    "TAB1": ([("amplitude", [1.0, 2.5, EPS])],
             lambda k: M.TableModel(TAB_E, _tabvals(2.0), amplitude=k["amplitude"])),
    "TAB2": ([("amplitude", [1.0, 2.5, EPS])],
             lambda k: M.TableModel(TAB_E, _tabvals(2.2), amplitude=k["amplitude"])),
    "FUN1": ([], lambda k: (lambda e: _fun1(e))),
    "FUN2": ([], lambda k: (lambda e: _fun2(e))),
    "DUCK": ([("amplitude", AMP), ("k", [2.0, 2.2, 2.0 * EPS])],
             lambda k: Duck(k["amplitude"], k["k"])),
    "STEEP": ([("amplitude", AMP), ("e_0", [10, 11, 10 * EPS] * u.TeV),
               ("alpha", [2.0, 2.01, 2.0 * EPS])],
              lambda k: SteepPL(k["amplitude"], k["e_0"], k["alpha"])),
}


def lp_attr(kind, name, val):
    return val / 100 if (kind == "LP" and name == "beta") else val


SSC_E = np.logspace(-3, 3, 1201) * u.eV
SSC_N = 1e2 * (SSC_E.value) ** -1.5 / (u.eV * u.cm**3)


def _ssc(version):
    n = SSC_N.copy()
    if version == 2:
        n[600] = n[600] * 1.5       # in the middle: elided by str()
    elif version == 3:
        n = n * EPS
    return n


def _seeds():
    return ["CMB", ["FIR", 30 * u.K, 0.5 * u.eV / u.cm**3],
            ["star", 5000 * u.K, 10 * u.eV / u.cm**3, 60 * u.deg],
            ["mono", 5 * u.eV, 2 * u.eV / u.cm**3],
            ["SSC", SSC_E[::100], SSC_N[::100]]]


def _seeds_big():
    return ["CMB", ["SSC", SSC_E, SSC_N]]


def _set_ic_fir_u(o, v):
    o.seed_photon_fields["FIR"]["u"] = [0.5, 0.7, 0.5 * EPS][v - 1] * u.eV / u.cm**3


def _set_ic_fir_T(o, v):
    o.seed_photon_fields["FIR"]["T"] = [30, 31, 30 * EPS][v - 1] * u.K


def _set_ic_theta(o, v):
    o.seed_photon_fields["star"]["theta"] = [60, 90, 60 * EPS][v - 1] * u.deg


def _set_ic_ssc(o, v):
    o.seed_photon_fields["SSC"]["photon_density"] = _ssc(v).to("1/(eV cm3)")


def _attr(name, vals):
    def f(o, v):
        setattr(o, name, vals[v - 1])
    f.pname = name
    return f


XSEC = [("Pythia8", True, True), ("Pythia8", True, False), ("Pythia8", False, False),
        ("SIBYLL", False, False), ("QGSJET", True, False)]


def _xsec(o, v):
    o.hiEmodel, o.nuclear_enhancement, o.useLUT = XSEC[v - 1]


E_GAMMA = [[0.03, 0.3, 3.0] * u.TeV, [0.02, 0.3] * u.TeV, [0.02, 0.3 * EPS] * u.TeV]
E_XRAY = [[0.1, 1.0, 10.0] * u.keV, [0.2, 1.0] * u.keV, [0.2, EPS] * u.keV]

# class -> builder(pd, v) , list of (parameter name, setter(o, version), n versions)
CLS = {
    "SYN": dict(make=lambda pd: R.Synchrotron(pd, B=10 * u.uG, Eemax=500 * u.TeV,
                                              nEed=12),
                par=[("B", _attr("B", [10, 12, 10 * EPS] * u.uG)),
                     ("Eemin", _attr("Eemin", [1, 30, 100] * u.GeV)),
                     ("Eemax", _attr("Eemax", [500, 60, 90] * u.TeV)),
                     ("nEed", _attr("nEed", [12, 15, 20]))],
                E=E_XRAY, W="We"),
    "IC": dict(make=lambda pd: R.InverseCompton(pd, seed_photon_fields=_seeds(),
                                                Eemax=500 * u.TeV, nEed=12),
               par=[("u", _set_ic_fir_u), ("T", _set_ic_fir_T),
                    ("theta", _set_ic_theta),
                    ("Eemin", _attr("Eemin", [1, 30, 100] * u.GeV)),
                    ("Eemax", _attr("Eemax", [500, 60, 90] * u.TeV)),
                    ("nEed", _attr("nEed", [12, 15, 20]))],
               E=E_GAMMA, W="We"),
    "ICBIG": dict(make=lambda pd: R.InverseCompton(
                      pd, seed_photon_fields=_seeds_big(), Eemin=1 * u.GeV,
                      Eemax=100 * u.TeV, nEed=6),
                  par=[("ssc", _set_ic_ssc)], E=E_GAMMA, W="We"),
    "BREM": dict(make=lambda pd: R.Bremsstrahlung(pd, n0=1 / u.cm**3,
                                                  Eemin=100 * u.MeV,
                                                  Eemax=500 * u.TeV, nEed=10,
                                                  weight_ee=1.0, weight_ep=1.2),
                 par=[("n0", _attr("n0", [1, 5, EPS] / u.cm**3)),
                      ("weight_ee", _attr("weight_ee", [1.0, 0.0, EPS])),
                      ("weight_ep", _attr("weight_ep", [1.2, 0.5, 1.2 * EPS])),
                      ("Eemin", _attr("Eemin", [100, 900, 3000] * u.MeV)),
                      ("Eemax", _attr("Eemax", [500, 60, 90] * u.TeV)),
                      ("nEed", _attr("nEed", [10, 12, 15]))],
                 E=E_GAMMA, W="We"),
    "PP": dict(make=lambda pd: R.PionDecay(pd, nh=1 / u.cm**3, Epmax=1 * u.PeV,
                                           nEpd=12),
               par=[("nh", _attr("nh", [1, 5, EPS] / u.cm**3)),
                    ("xsec", _xsec),
                    ("Epmin", _attr("Epmin", [1.3, 30, 100] * u.GeV)),
                    ("Epmax", _attr("Epmax", [1, 0.06, 0.09] * u.PeV)),
                    ("nEpd", _attr("nEpd", [12, 15, 20]))],
               E=E_GAMMA, W="Wp"),
    "KEL": dict(make=lambda pd: R.PionDecayKelner06(pd, nh=1 / u.cm**3),
                par=[("nh", _attr("nh", [1, 5, EPS] / u.cm**3)),
                     ("Etrans", _attr("Etrans", [0.1, 0.4, 0.01] * u.TeV))],
                E=[[0.03, 0.3] * u.TeV, [0.02, 0.3] * u.TeV, [0.05, 1] * u.TeV], W="Wp"),
}


def nver(cls, p):
    return len(XSEC) if CLS[cls]["par"][p - 1][0] == "xsec" else 3


def make_pd(kind, par, exp=0):
    spec, build = PD[kind]
    k = {n: vals[v - 1] for (n, vals), v in zip(spec, par)}
    if exp and "amplitude" in k:
        k["amplitude"] = k["amplitude"] * 2.0**exp
    return build(k)


def make_model(cls, par, pd):
    o = CLS[cls]["make"](pd)
    for (n, setter), v in zip(CLS[cls]["par"], par):
        setter(o, v)
    return o


def set_pd(o, kind, p, v):
    n, vals = PD[kind][0][p - 1]
    setattr(o, n, lp_attr(kind, n, vals[v - 1]))
    return n


def energy(cls, e, form):
    q = CLS[cls]["E"][e - 1]
    if form == 1:
        return q
    if form == 2:
        return q.to("eV")
    if form == 3:
        return {"energy": q.to("GeV")}
    if form == 4:
        t = QTable()
        t["energy"] = q
        return t
    t = Table()
    t["energy"] = q
    return t


DIST = {
    "default": ((), {}), "kw1": ((), dict(distance=1 * u.kpc)),
    "pos1": ((1 * u.kpc,), {}), "kw1000pc": ((), dict(distance=1000 * u.pc)),
    "kw2": ((), dict(distance=2 * u.kpc)), "pos2": ((2 * u.kpc,), {}),
    "kw2000pc": ((), dict(distance=2000 * u.pc)),
    "kw0": ((), dict(distance=0)), "pos0": ((0,), {}),
    "kw0kpc": ((), dict(distance=0 * u.kpc)),
}
DPHYS = {1: "kw1", 2: "kw2", 0: "kw0"}
DOF = {k: (0 if "0kpc" in k or k in ("kw0", "pos0") else
           2 if k.endswith("2") or "2000" in k else 1) for k in DIST}


def evaluate(o, cls, op, e, form, dcode, seed=None):
    a, k = DIST[dcode]
    k = dict(k)
    if op in ("flux", "sed"):
        if seed is not None:
            k["seed"] = seed
        return getattr(o, op)(energy(cls, e, form), *a, **k)
    if op == "W":
        return getattr(o, CLS[cls]["W"])
    if op == "Wc":
        w = CLS[cls]["W"]
        f = getattr(o, "compute_" + w)
        if w == "We":
            return f(Eemin=50 * u.GeV, Eemax=20 * u.TeV)
        return f(Epmin=50 * u.GeV, Epmax=20 * u.TeV)
    raise KeyError(op)
