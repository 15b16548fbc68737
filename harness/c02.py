"""C02: calls change neither what the caller owns nor the environment."""
import multiprocessing as mp
import os
import random
import shutil
import tempfile

import numpy as np

import vlib
from vlib import cfg_text, pmap

nm = vlib.load_naima()
import matplotlib  # noqa: E402

matplotlib.use("Agg")
import emcee  # noqa: E402
import matplotlib.pyplot as plt  # noqa: E402
import naima.models as M  # noqa: E402
import naima.sherpa_models as S  # noqa: E402
from astropy import units as u  # noqa: E402
from astropy.table import QTable, Table  # noqa: E402
from naima.core import log_uniform_prior, normal_prior, uniform_prior  # noqa: E402
from naima.extern.minimize import minimize  # noqa: E402
from naima.model_fitter import InteractiveModelFitter  # noqa: E402
from naima.plot import find_ML  # noqa: E402
from naima.radiative import PionDecayKelner06  # noqa: E402
from naima.utils import (build_data_table, estimate_B, generate_energy_edges,  # noqa: E402
                         sed_conversion, trapz_loglog, validate_data_table)

F = u.Unit("1/(cm2 s TeV)")
KINDS = ["env", "ene", "ene", "energy1", "edict", "etab", "amp", "We", "B", "dq", "seeds",
         "tab", "tab", "tab", "tab", "tdict", "badtab", "vec", "vec", "lab", "lab", "opts", "opts",
         "uopts", "pe", "tabE", "tabV", "mask", "kev", "kev", "shp", "dep", "eun"]


class Model:
    """model function that hands out an array of the caller"""

    def __init__(self, pe):
        self.pe = pe

    def __call__(self, pars, data):
        e = data["energy"].to_value("TeV")
        f = pars[0] * 1e-12 * e ** -pars[1] * F
        return f, (self.pe, pars[0] * 1e35 * (self.pe.to_value("TeV")) ** -2.0 / u.eV), \
            pars[0] * 1e47 * u.erg


def prior(pars):
    return uniform_prior(pars[0], 0.0, np.inf)


class Bad(Model):
    def __call__(self, pars, data):
        return np.ones(len(data["energy"])) * u.s


def initial(rng):
    n = len
    en = np.array([0.3, 2.0, 7.0])
    k = rng.choice([1.0, 2.0, 0.5])
    e = np.array([0.5, 1.0, 2.0, 8.0])
    f = 1e-12 * k * e**-2.0
    t1 = QTable(dict(energy=e * u.TeV, flux=f * F, flux_error=f * 0.3 * F))
    t2 = Table(dict(energy=e * 1e3, energy_lo=e * 800, energy_hi=e * 1200,
                    flux=f * 1e-3, flux_error_lo=f * 2e-4, flux_error_hi=f * 1e-4,
                    ul=[0, 1, 0, 1]))
    for c in t2.colnames[:3]:
        t2[c].unit = "GeV"
    for c in t2.colnames[3:6]:
        t2[c].unit = "1/(cm2 s GeV)"
    t2.meta["keywords"] = {"cl": {"value": 0.9}}
    t3 = QTable(dict(energy=e[::-1] * u.TeV, energy_width=e[::-1] * 0.2 * u.TeV,
                     flux=(f * e**2 * F * u.TeV**2).to("erg/(cm2 s)")[::-1],
                     flux_error=(f * 0.2 * e**2 * F * u.TeV**2).to("erg/(cm2 s)")[::-1],
                     ul=[True, False, False, True], cl=[0.9, 0.8, 0.9, 0.7]))
    t4 = QTable(dict(energy=e[:2] * u.TeV, energy_error_lo=e[:2] * 0.1 * u.TeV,
                     energy_error_hi=e[:2] * 0.2 * u.TeV, flux=f[:2] * F,
                     flux_error_lo=3 * f[:2] * F, flux_error_hi=f[:2] * F, group=[0, 1]))
    bad = QTable(dict(energy=e * u.TeV, flux=f * F))
    td = {c: t1[c].copy() for c in t1.colnames}
    seeds = ["CMB", ["FIR", 30 * u.K, 0.5 * u.eV / u.cm**3],
             ["mono", 50 * u.eV, 5 * u.eV / u.cm**3],
             ["grid", [1.0, 2.0, 4.0] * u.eV, [3.0, 2.0, 0.1] / u.eV / u.cm**3],
             ["star", 9000 * u.K, 2 * u.eV / u.cm**3, 100 * u.deg]]
    rng.shuffle(seeds)
    edges = np.array([10.0, 100.0, 1e3]) * u.TeV
    return [
        None, en * u.TeV, (en[:2] * 1e9 * u.keV), 3.0 * k * u.GeV, {"energy": en * 1e6 * u.MeV},
        QTable({"energy": en[1:] * u.TeV}), 1e36 * k / u.eV, 1e48 * k * u.erg, 1e-5 * u.G,
        u.Quantity(1.0, u.kpc), seeds[:rng.choice([1, 2, 5])],
        t1, t2, t3, t4, td, bad, np.array([2.0 * k, 2.0]), [1, 3], ["norm", "index"],
        ["log10(norm)"][:0] + ["free"], {"ms": 3}, {"elinewidth": 1}, {"capsize": 2},
        np.array([0.1, 1.0, 10.0]) * u.TeV, np.array([0.1, 1.0, 10.0, 300.0]) * u.TeV,
        np.array([5.0, 1.0, 0.02, 1e-6]) * 1e36 / u.eV, np.array([0, 1, 0, 0]),
        np.array([1e9, 2e9, 5e9]), [1e9, 4e9], None, np.array([1e-3, 1e-4, 1e-5]),
        np.array([5.0, 0.2, 90.0, 1.0]) * u.TeV]


def dig(x, attrs):
    """a hashable value that determines the content of x"""
    if isinstance(x, u.Quantity):
        return ("Q", x.unit.to_string(), dig(x.value, attrs))
    if isinstance(x, np.ndarray):
        if x.dtype.hasobject:
            return ("O", x.shape) + tuple(dig(y, attrs) for y in x.ravel())
        if x.dtype.names:
            return ("R",) + tuple(dig(x[n], attrs) for n in x.dtype.names)
        return ("A", str(x.dtype), x.shape, x.tobytes())
    if isinstance(x, Table):
        return (type(x).__name__, dig(dict(x.meta), attrs)) + tuple(
            (c, str(getattr(x[c], "unit", None)), dig(np.asarray(x[c]), attrs))
            for c in x.colnames)
    if isinstance(x, dict):
        return (type(x).__name__,) + tuple((k, dig(v, attrs)) for k, v in x.items())
    if isinstance(x, (list, tuple)):
        return (type(x).__name__,) + tuple(dig(y, attrs) for y in x)
    if isinstance(x, (int, float, str, bool, type(None), np.generic, u.UnitBase, bytes)):
        return (type(x).__name__, str(x) if isinstance(x, u.UnitBase) else repr(x))
    if isinstance(x, emcee.State):
        return ("state", dig(x.coords, attrs), dig(x.log_prob, attrs), dig(x.blobs, attrs))
    if hasattr(x, "run_info"):
        return ("sampler", dig(x.get_chain(), attrs), dig(x.get_log_prob(), attrs),
                dig(x.get_blobs(), attrs), dig(x.data, attrs), dig(list(x.labels), attrs),
                dig(x.run_info, attrs), dig(x.acceptance_fraction, attrs)) \
            if getattr(x, "iteration", 1) else \
            ("sampler", dig(x.data, attrs), dig(list(x.labels), attrs), dig(x.run_info, attrs))
    if hasattr(x, "pars") and hasattr(x, "calc"):
        return ("sherpa",) + tuple((p.name, p.val, p.frozen) for p in x.pars)
    if id(x) in attrs:
        # what it holds is another object
        return (type(x).__name__,) + tuple(
            (a, dig(getattr(x, a, None), attrs) if id(getattr(x, a, None)) not in attrs
             else id(getattr(x, a)))
                                           for a in attrs[id(x)])
    return ("other", type(x).__name__)


def numbers(x):
    """numbers of a result, in a canonical unit, for comparison with a tolerance"""
    if isinstance(x, u.Quantity):
        return [np.ravel(x.si.value), x.unit.si.bases]
    if isinstance(x, np.ndarray) and x.dtype.hasobject:
        return [numbers(y) for y in x.ravel()]
    if isinstance(x, np.ndarray):
        return [np.ravel(x)]
    if isinstance(x, Table):
        return [[c, numbers(u.Quantity(x[c]))] for c in x.colnames]
    if isinstance(x, dict):
        return [[k, numbers(v)] for k, v in x.items()]
    if isinstance(x, (list, tuple)):
        return [numbers(y) for y in x]
    return [x]


def near(a, b):
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
        return a.shape == b.shape and (
            bool(np.all(a == b)) if a.dtype.kind not in "fc" else
            bool(np.allclose(a, b, rtol=1e-9, atol=0, equal_nan=True)))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(near(x, y) for x, y in zip(a, b))
    if isinstance(a, (float, np.floating)) and isinstance(b, (float, np.floating)):
        return a == b or abs(a - b) <= 1e-9 * max(abs(a), abs(b)) or (a != a and b != b)
    return type(a) is type(b) and a == b


def write(x, rng):
    """the caller writes into x"""
    try:
        if isinstance(x, Table):
            c = rng.choice([c for c in x.colnames
                            if c == "flux" or (c == "energy" and "energy_lo" not in x.colnames) or c.startswith("flux_error")])
            x[c][:] = x[c] * 2
        elif isinstance(x, u.Quantity):
            x.view(np.ndarray)[...] *= 2
        elif isinstance(x, np.ndarray):
            if x.dtype.hasobject:
                write(x.flat[rng.randrange(x.size)], rng)
            elif x.dtype.kind == "b":
                x[...] = ~x
            elif x.dtype.kind in "fiu":
                x[...] *= 2
        elif isinstance(x, dict):
            k = rng.choice(list(x))
            if isinstance(x[k], (int, float)):
                x[k] += 1
            else:
                write(x[k], rng)
        elif isinstance(x, emcee.State):
            x.coords[...] *= 1.01
        elif isinstance(x, (list, tuple)):
            q = [y for y in x if isinstance(y, (list, tuple, np.ndarray, dict, Table))]
            if q:
                for y in q:
                    write(y, rng)
            elif isinstance(x, list) and x and isinstance(x[0], str):
                x[0] += "x"
            elif isinstance(x, list) and x:
                x[0] *= 2
    except (ValueError, TypeError, u.UnitsError):
        pass                     # cannot be written to


def envd():
    return (tuple((k, repr(v)) for k, v in sorted(matplotlib.rcParams.items())),
            tuple(sorted(np.geterr().items())), os.getcwd())



class World:
    def __init__(self, rng):
        self.rng = rng
        self.attrs, self.origin = {}, {}
        self.objs = initial(rng)
        self.sher = []
        i = KINDS.index("shp")
        m = S.Bremsstrahlung()
        self.objs[i] = [p.val for p in m.pars]
        self.tokens, self.vals = {}, []
        self.n = 0

    def fp(self, i):
        d = envd() if i == 0 else dig(self.objs[i], self.attrs)
        return self.tokens.setdefault(d, len(self.tokens) + 1)

    def fps(self):
        return [self.fp(i) for i in range(len(self.objs))]

    def val(self, x):
        x = numbers(x)
        for i, y in enumerate(self.vals):
            if near(x, y):
                return i + 1
        self.vals.append(x if not isinstance(x, list) else _copy(x))
        return len(self.vals)

    def add(self, kind, x):
        if kind in ("dist", "rad", "kel", "ebl"):
            self.attrs[id(x)] = sorted(a for a in vars(x) if not a.startswith("_"))
        self.objs.append(x)


def _copy(x):
    if isinstance(x, np.ndarray):
        return x.copy()
    if isinstance(x, list):
        return [_copy(y) for y in x]
    return x


def call(w, op, p, a, kept):
    """result of the operation"""
    rng = w.rng
    keep = []

    def temp(x):
        keep.append((x, dig(x, w.attrs)))
        return x
    try:
        return _call(w, op, p, a, temp, rng)
    finally:
        kept.append(all(dig(x, w.attrs) == d for x, d in keep))


def _call(w, op, p, a, temp, rng):
    e0 = 10 * u.TeV
    bad = op.endswith("_bad") or op.endswith("_bad2")
    if op == "pd":
        return [lambda: M.PowerLaw(a[0], e0, 2.2),
                lambda: M.ExponentialCutoffPowerLaw(a[0], e0, 2.0, 50 * u.TeV),
                lambda: M.BrokenPowerLaw(a[0], e0, 5 * u.TeV, 1.5, 2.5),
                lambda: M.LogParabola(a[0], e0, 2.0, 0.1)][p]()
    if op == "table":
        return M.TableModel(a[0], a[1])
    if op == "pd_eval" or op == "pd_bad":
        return a[0](a[1])
    if op == "syn":
        return M.Synchrotron(a[0], B=a[1], nEed=10)
    if op == "ic":
        return M.InverseCompton(a[0], seed_photon_fields=a[1], nEed=10)
    if op == "brem":
        return M.Bremsstrahlung(a[0], nEed=10)
    if op == "pion":
        return M.PionDecay(a[0], nEpd=10, useLUT=bool(p % 2))
    if op == "kel":
        return PionDecayKelner06(a[0])
    if op == "flux":
        return (a[0].sed if p % 2 else a[0].flux)(a[1], distance=a[2] if p < 2 else 0)
    if op == "flux_bad":
        return a[0].flux(a[1])
    if op == "content":
        return a[0].compute_Wp() if isinstance(a[0], M.PionDecay) else a[0].compute_We()
    if op in ("set", "We_bad"):
        f = a[0].set_Wp if isinstance(a[0], M.PionDecay) else a[0].set_We
        f(a[1])
        return None
    if op in ("trapz", "trapz_bad"):
        return trapz_loglog(a[0], a[1], intervals=bool(p % 2))
    if op == "edges":
        return generate_energy_edges(a[0], groups=temp(np.array([0, 1, 0, 1])) if p % 2 else None)
    if op == "ebl":
        return M.EblAbsorptionModel(redshift=[0.1, 0.03, 0.5, 1.1][p])
    if op == "trans":
        return a[0].transmission(a[1])
    if op == "sedconv":
        e = a[0]["energy"] if isinstance(a[0], Table) else a[0]
        if not isinstance(e, u.Quantity):
            e = temp(u.Quantity(e))
        return sed_conversion(e, [F, u.Unit("erg/(cm2 s)")][p % 2], p > 1)[1]
    if op == "estB":
        return estimate_B(a[0], a[1])
    if op in ("check", "check_bad"):
        return validate_data_table(a[0], sed=[None, None, True, False][p])
    if op in ("check2", "check2_bad"):
        return validate_data_table(temp([a[0], a[1]]), sed=[None, None, True, False][p])
    if op == "build":
        return build_data_table(energy=a[0], flux=a[1].value * F, flux_error=a[1].value * 0.1 * F,
                                ul=a[2], cl=0.9)
    if op == "prior":
        return [uniform_prior(a[0][0], 0, 5), normal_prior(a[0][0], 1, 2),
                log_uniform_prior(a[0][0], 1e-3, 1e9)]
    if op == "minimize":
        return minimize(lambda x: float(np.sum((np.asarray(x) - 3) ** 2)), a[0],
                        options=temp({"maxfev": 20}))["x"]
    if op in ("sampler", "sampler2", "start", "get", "sampler_bad", "sampler_bad2"):
        two = op == "sampler2"
        vec, lab, pe = a[1 + two:]
        kw = dict(data_table=temp([a[0], a[1]]) if two else a[0], p0=vec,
                  model=(Bad if op == "sampler_bad2" else Model)(pe), prior=prior, nwalkers=6,
                  labels=lab, threads=1, nburn=[0, 2, 0, 1][p], guess=p < 2)
        if op == "start":
            return nm.get_sampler(**kw)[1]
        if p == 3:
            kw["prefit"] = True
        if op == "get":
            return nm.get_sampler(**kw)[0]
        return nm.run_sampler(nrun=2, **kw)[0]
    if op == "run":
        st = a[0].get_last_sample() if a[0].iteration > 0 else \
            np.random.uniform(1, 2, (6, 2))
        x = nm.run_sampler(nrun=2, sampler=a[0], pos=st)[1]
        w.origin[id(x)] = id(a[0])
        return x
    if op == "resume":
        # a state of another sampler: only its positions belong to this one
        pos = a[1] if w.origin.get(id(a[1])) == id(a[0]) else temp(a[1].coords)
        x = nm.run_sampler(nrun=2, sampler=a[0], pos=pos)[1]
        w.origin[id(x)] = id(a[0])
        return x
    if op == "run_bad":
        return nm.run_sampler(nrun=2, sampler=a[0], pos=a[1])
    if op == "best":
        return find_ML(a[0], [0, 1, 2, None][p])
    if op == "chains":
        return [nm.plot_chain(a[0]), nm.plot_chain(a[0], 1, last_step=True)]
    if op in ("blob", "blob_bad"):
        return nm.plot_blob(a[0], 9 if bad else [0, 1, 2, 0][p], last_step=p == 3)
    if op in ("corner", "corner_bad"):
        kw = dict(color="g") if bad else {}
        return nm.plot_corner(a[0], labels=temp(["a"]) if bad else None, show_ML=p < 2, **kw)
    if op in ("fit", "fit_bad"):
        kw = dict(errorbar_opts=a[1])
        if not bad:
            kw["ulim_opts"] = a[2]
        return nm.plot_fit(a[0], 7 if bad else p % 2, sed=p > 1,
                           **temp(dict(kw, **[dict(confs=[1, 2]), dict(n_samples=3),
                                              dict(n_samples=None), dict(label="x")][p])))
    if op == "data":
        return nm.plot_data(temp([a[0], a[1]]), sed=p % 2 == 0, errorbar_opts=a[2], ulim_opts=a[3])
    if op in ("data1", "data_bad"):
        return nm.plot_data(a[0], sed=p % 2 == 0, errorbar_opts=a[1])
    if op == "results":
        w.n += 1
        return nm.save_results_table("r%d" % w.n, a[0], format=["ascii.ecsv", "ascii.ipac"][p % 2],
                                     convert_log=p < 2, last_step=p == 1)
    if op == "save":
        w.n += 1
        return nm.save_run("s%d.hdf5" % w.n, a[0])
    if op == "save_bad":
        return nm.save_run("s.txt", a[0])
    if op == "reread":
        w.n += 1
        nm.save_run("s%d.hdf5" % w.n, a[0])
        return nm.read_run("s%d.hdf5" % w.n, modelfn=getattr(a[0], "modelfn", None))
    if op in ("inter", "inter_bad"):
        f = InteractiveModelFitter((Bad if bad else Model)(a[3]), a[1], a[0], labels=a[2], sed=p < 2)
        return f
    if op in ("diag", "diag_bad"):
        w.n += 1
        return nm.save_diagnostic_plots(
            "d%d" % w.n, a[0], modelidxs=temp([0, 9, 1]) if bad else None if p < 2 else temp([0]), sed=p < 2,
            blob_labels=a[1] if p < 2 else temp(["Spectrum", "particles", "We"]), last_step=p == 1)
    if op == "sher":
        return [S.InverseCompton, S.Synchrotron, S.PionDecay, S.Bremsstrahlung][p]("m")
    if op == "shcalc":
        q = a[2] if isinstance(a[0], S.Bremsstrahlung) else temp([x.val for x in a[0].pars])
        return a[0].calc(q, a[1])
    if op == "shguess":
        return a[0].guess(a[2][:len(a[1])], a[1])
    raise KeyError(op)


# random: samplers, and what starts from random numbers
RANDOM = ("get", "sampler", "sampler2", "start", "run", "resume")


def play(job):
    b, seed, ops = job
    mp.current_process()._config["daemon"] = False
    rng = random.Random(seed)
    np.random.seed(rng.randrange(2**31))
    was, rc = os.getcwd(), dict(matplotlib.rcParams)
    d = tempfile.mkdtemp(prefix="c02_")
    os.chdir(d)
    try:
        w = World(rng)
        evs = [dict(ev="start", key="start", kinds=KINDS, fps=w.fps())]
        for o in b:
            ev = dict(ev="op", n=o["n"], p=o["p"], q=o["q"], key="write", out="ok", res=[], det=True,
                      kept=True, detail="")
            args = [w.objs[i - 1] for i in o["q"]]
            if o["n"] == 0:
                write(args[0], rng)
                ev["fps"] = w.fps()
                evs.append(ev)
                continue
            op = ops[o["n"] - 1]
            ev["key"] = op["op"]
            ev["det"] = op["op"] not in RANDOM
            kept = []
            with vlib.silence():
                ev["out"], x = vlib.outcome(call, w, op["op"], o["p"], args, kept)
            ev["kept"] = kept[0]
            plt.close("all")
            ev["fps"] = w.fps()
            if ev["out"] != "ok" and not op["bad"]:
                ev["detail"] = str(x).encode("ascii", "replace").decode()
            if ev["out"] == "ok" and op["r"]:
                w.add(op["r"], x)
                ev["res"] = [w.fp(len(w.objs) - 1), w.val(x) if op["r"] in ("val", "ml", "tab") else 0]
            evs.append(ev)
            if (ev["out"] == "ok") == bool(op["bad"]):
                break
        return evs
    finally:
        plt.close("all")
        os.chdir(was)
        shutil.rmtree(d)
        with vlib.silence():
            matplotlib.rcParams.update(rc)


def run(ck):
    c = dict(N=5, V=4, Share='"none"')
    ck.model("OwnMC", cfg_text(spec="Spec", constants=c, invariants=["Right", "Kept"]),
             must_take=["Call", "Write"])
    for s, inv in (("result", "Right"), ("argument", "Kept")):
        ck.mutant_model("OwnMC", cfg_text(spec="Spec", constants=dict(c, Share='"%s"' % s),
                                          invariants=[inv]), inv)
    L = 20
    start = "<<" + ", ".join('"%s"' % k for k in KINDS) + ">>"
    ops = ck.enumerate("OwnOps", cfg_text(spec="Spec", invariants=["Emit"]))[0]
    bs = ck.simulate("OwnGen", cfg_text(spec="Spec", invariants=["Emit"], constants=dict(
        L=L, Start=start, Heavy=ck.n(4, 2))), ck.n(240, 3000), L + 3)
    ev = []
    for e in pmap(play, [(b, ck.rng.random(), ops) for b in bs], chunk=1):
        ev += e
    ck.sample(bs[0])
    ck.validate("OwnTrace", ev, traces=len(bs), chunk=200, split_on="start")
