"""C23: the interactive fitter always shows the model of its current parameters."""
import math
import random

import numpy as np

import vlib
from vlib import cfg_text, pmap

nm = vlib.load_naima()
import matplotlib  # noqa: E402

matplotlib.use("Agg")
import matplotlib.pyplot as plt  # noqa: E402
import naima.model_fitter as mfm  # noqa: E402
from astropy import units as u  # noqa: E402
from astropy.table import QTable  # noqa: E402
from matplotlib.backend_bases import MouseEvent  # noqa: E402
from naima.core import get_sampler  # noqa: E402

B = 1e-12 / u.cm**2 / u.s / u.TeV
E = np.array([1.0, 2.0, 4.0, 8.0]) * u.TeV
F = np.array([101.0, 110.0, 120.0, 111.0])
ERR = np.array([10.0, 10.0, 20.0, 16.0])
LABELS = [None, ["log10(norm)", "index"], ["norm", "alpha"], ["mass"]]
EUNITS = [u.TeV, u.GeV, u.eV, u.keV, u.MeV, u.erg]
YUNITS = [u.Unit("erg/(cm2 s)"), u.Unit("1/(cm2 s TeV)"), u.Unit("TeV/(cm2 s)"),
          u.Unit("1/(cm2 s eV)"), u.Unit("1/(cm2 s GeV)"), u.Unit("1/(cm2 s erg)")]


def shape(p, rough):
    p = [float(x) for x in p]
    # the best fit of the rough model is at infinity, fits do not converge
    if rough:
        s = [math.atan(math.log1p(math.log1p(abs(x)))) for x in p]
        return [s[0], -s[1]]
    return p


def flux(p, energy, rough):
    v = shape(p, rough)
    i = np.log2(energy.to_value("TeV")) + 1
    return (100.0 + i * v[0] + (5 - i) * v[1]) * B


def lnl(p, rough):
    """log-likelihood, from its definition"""
    y = flux(p, E, rough).to_value(B)
    d = (y - F) / ERR
    return -0.5 * float(np.sum(d[:3] ** 2)) + (math.log(1 - 0.9) if y[3] > F[3] else 0.0)


class Model:
    def __init__(self, out, rough):
        self.out, self.rough, self.calls = out, rough, 0

    def __call__(self, pars, data):
        self.calls += 1
        y = flux(pars, data["energy"], self.rough)
        if self.out == "sed":
            return (y * data["energy"] ** 2).to("erg/(cm2 s)")
        if self.out == "tuple":
            return y, 3.0 * u.m
        if self.out == "list":
            return [y, (E.copy(), F * B)]
        return y


def table(sed, n):
    t = QTable()
    k = (E**2 if sed else 1)
    un = ["erg/(cm2 s)", "TeV/(cm2 s)"][n % 2] if sed else ["1/(cm2 s TeV)", "1/(m2 s GeV)"][n % 2]
    t["energy"] = E.to(["TeV", "GeV"][n // 2 % 2])
    t["flux"] = (F * B * k).to(un)
    t["flux_error"] = (ERR * B * k).to(un)
    t["ul"] = [False, False, False, True]
    t.meta["keywords"] = {"cl": {"value": 0.9}}
    return t


class Tokens:
    def __init__(self):
        self.seen = []

    def __call__(self, x):
        x = float(x)
        for i, y in enumerate(self.seen):
            if abs(x - y) <= 1e-12 * max(abs(x), abs(y)):
                return i + 1
        self.seen.append(x)
        return len(self.seen)


def unit_in(text, units):
    c = [x for x in units if x.to_string("latex_inline") in text or "[%s]" % x in text]
    return max(c, key=lambda x: len(x.to_string("latex_inline"))) if c else None


class Session:
    """one fitter and its figure"""

    def __init__(self, cfg, tok):
        self.c, self.tok = cfg, tok
        self.mode = cfg["mode"]
        self.hasdata = self.mode in ("data", "both", "sampler")
        self.sed = True if self.mode == "sampler" else cfg["sed"]
        self.model = Model(cfg["out"], cfg["rough"])
        self.vectors = []
        self.imf = self.fig = None

    def kwargs(self):
        k = {}
        c = self.c
        if self.hasdata:
            k["data"] = table(c["dsed"], c["n"])
        if self.mode in ("range", "both"):
            lo, hi = [(0.5 * u.TeV, 16 * u.TeV), (500 * u.GeV, 32000 * u.GeV),
                      (1 * u.TeV, 8000 * u.GeV)][c["n"] % 3]
            k["e_range"] = [lo, hi]
            self.range = (lo, hi)
            k["e_npoints"] = 4 + c["n"] % 7
        if self.mode == "none" and c["n"] % 2:
            k["e_npoints"] = 4 + c["n"] % 7
        self.npoints = k.get("e_npoints", 100)
        return k

    def make(self):
        c = self.c
        if c["auto"] and c["n"] % 2:
            kw = {}
        else:
            kw = dict(auto_update=c["auto"])
        self.imf = mfm.InteractiveModelFitter(
            self.model, list(c["p0"]) if c["n"] % 2 else np.array(c["p0"]),
            labels=LABELS[c["lab"] - 1], sed=c["sed"], **self.kwargs(), **kw)
        self.fig = self.imf.fig

    def axis(self, label):
        for a in self.fig.axes:
            if any(t.get_text() == label for t in a.texts):
                return a

    def click(self, ax, fx=0.5, fy=0.5):
        x, y = ax.transAxes.transform((fx, fy))
        for n in ("button_press_event", "button_release_event"):
            self.fig.canvas.callbacks.process(n, MouseEvent(n, self.fig.canvas, x, y, 1))

    def do(self, o, ev):
        ev["v"] = 0
        op = o["op"]
        if op == "fit" and not self.hasdata:
            op = "update"
        ev["ev"] = "move" if op == "mouse" else op
        was = None if self.imf is None else self.lnl_of([s.val for s in self.imf.parsliders])
        n = self.model.calls
        if op == "move":
            sl = self.imf.parsliders[o["k"] - 1]
            if sl.valmin <= o["v"] <= sl.valmax:
                ev["v"] = self.tok(o["v"])
            sl.set_val(o["v"])
        elif op == "mouse":
            sl = self.imf.parsliders[o["k"] - 1]
            self.click(sl.ax, o["f"] / 8)
        elif op == "toggle":
            self.fig.canvas.draw()
            self.click(self.axis("Auto update"), 0.2)
        elif op == "update":
            if o["ui"]:
                self.click(self.axis("Update model"))
            else:
                self.imf.update("x")
        elif op == "fit":
            self.click(self.axis("Do Nelder-Mead fit"))
        ev["calls"] = self.model.calls - n
        if op == "fit":
            ev["better"] = bool(self.lnl_of([s.val for s in self.imf.parsliders]) >= was - 1e-9)

    def lnl_of(self, p):
        return lnl(p, self.c["rough"])

    def observe(self, ev):
        imf, c = self.imf, self.c
        ev["full"] = imf is not None
        ev["hasdata"], ev["rough"] = self.hasdata, c["rough"]
        sl = [float(s.val) for s in imf.parsliders]
        pars = [float(x) for x in imf.pars] if hasattr(imf, "pars") else sl
        for v in (sl, pars):
            if v not in self.vectors:
                self.vectors.append(v)
        ev["sl"], ev["pars"] = [self.tok(x) for x in sl], [self.tok(x) for x in pars]
        ev["ints"] = [int(x) for x in pars] if all(
            x == int(x) and abs(x) < 100 for x in pars) else []
        ev["auto"], ev["ml"] = bool(imf.autoupdate), bool(imf.P0_IS_ML)
        chk = self.axis("Auto update").collections
        fc = [x.get_facecolor() for x in chk]
        ev["box"] = bool(any(len(f) and f[0][3] > 0 and f[0][:3].sum() < 0.5 for f in fc))
        ax = self.fig.axes[0]
        eu, yu = unit_in(ax.get_xlabel(), EUNITS), unit_in(ax.get_ylabel(), YUNITS)
        x, y = imf.line.get_data()
        x, y = u.Quantity(x).value * eu, u.Quantity(y).value * yu
        ev["curve"] = []
        for v in self.vectors:
            z = flux(v, x, c["rough"]) * (x**2 if self.sed else 1)
            if np.allclose((z / y).to_value(""), 1, rtol=1e-9, atol=0):
                ev["curve"].append([self.tok(a) for a in v])
        if self.mode in ("data", "sampler"):
            want = E
        elif self.mode == "none":
            want = None
        else:
            lo, hi = self.range
            want = np.exp(np.linspace(math.log(lo.to_value("TeV")), math.log(hi.to_value("TeV")),
                                      self.npoints)) * u.TeV
        if want is None:
            d = np.diff(np.log(x.value))
            ev["energies"] = bool(len(x) == self.npoints and np.allclose(d, d[0]) and d[0] > 0)
        else:
            ev["energies"] = bool(len(x) == len(want) and
                                  np.allclose(x.to_value("TeV"), want.to_value("TeV"), rtol=1e-9))
        ev["lik"], ev["lnl"], ev["points"] = [], 0, True
        if self.hasdata:
            txt = [t.get_text() for t in ax.texts if "ln" in t.get_text()]
            shown = float(txt[-1].split("=")[1].strip(" $"))
            ev["lnl"] = vlib.snap(shown, 0.1, 1e-6)
            for v in self.vectors:
                r = lnl(v, c["rough"])
                if abs(r - shown) <= 0.05 + 1e-6 * max(1, abs(r)):
                    ev["lik"].append([self.tok(a) for a in v])
            ev["points"] = False
            for k in ax.containers:
                a, b = k[0].get_data()
                if len(a) == 3:
                    z = (F[:3] * B * (E[:3] ** 2 if self.sed else 1)).to_value(yu)
                    ev["points"] = ev["points"] or bool(
                        np.allclose(u.Quantity(a).value, E[:3].to_value(eu)) and
                        np.allclose(u.Quantity(b).value, z))


def record(evs, s, r, key, o=None):
    ev = dict(ev="new", key=key, r=r, k=1, v=0, calls=0, better=True, full=True, hasdata=False,
              rough=False, sl=[], pars=[], ints=[], auto=False, ml=False, box=False, curve=[],
              energies=False, lik=[], lnl=0, points=False, p0=[], auto0=False)
    evs.append(ev)

    def go():
        if o is None:
            if s.fig is None:
                s.make()
        else:
            ev["k"] = o["k"]
            s.do(o, ev)
        s.observe(ev)

    if o is None:
        ev["p0"], ev["auto0"] = [s.tok(x) for x in s.c["p0"]], s.c["auto"]
    else:
        ev["ev"] = "move" if o["op"] == "mouse" else o["op"]
    with vlib.silence():
        ev["out"], _ = vlib.outcome(go)
    return ev


def sampler(b, evs, tok, rng):
    """a session within get_sampler; all is done while the window is shown"""
    c = dict(b["cfg"][0], auto=True)
    s = Session(c, tok)
    orig, show = mfm.InteractiveModelFitter, plt.show

    class Seen(orig):
        def __init__(self, *a, **k):
            s.imf = self
            super().__init__(*a, **k)

    def shown(*a, **k):
        s.fig = plt.gcf()
        record(evs, s, 1, "sampler:new")
        for o in b["h"]:
            record(evs, s, 1, "sampler:" + o["op"], o)
            s.fig.canvas.draw_idle()

    ev = dict(ev="sampler", key="sampler", prefit=c["prefit"], p0=[], spread="none")
    k = s.kwargs()
    mfm.InteractiveModelFitter, plt.show = Seen, shown
    try:
        lab = LABELS[c["lab"] - 1]
        with vlib.silence():
            ev["out"], r = vlib.outcome(
                get_sampler, data_table=k["data"], p0=[float(x) for x in c["p0"]], model=s.model,
                labels=lab, interactive=True, prefit=c["prefit"], guess=False, nburn=0,
                nwalkers=60, threads=1)
    finally:
        mfm.InteractiveModelFitter, plt.show = orig, show
    if ev["out"] == "ok":
        smp, pos = r
        p0 = smp.run_info["p0"]
        ev["p0"] = [tok(x) for x in p0]
        x = np.asarray(getattr(pos, "coords", pos), dtype=float)
        rel = [np.std(x[:, i]) / abs(p) for i, p in enumerate(p0) if p]
        if rel and (max(rel) < 0.02 or min(rel) > 0.03):
            ev["spread"] = "narrow" if max(rel) < 0.02 else "wide"
    evs.append(ev)


def play(job):
    b, seed = job
    rng = random.Random(seed)
    tok = Tokens()
    evs = [dict(ev="start", key="start")]
    try:
        if b["cfg"][0]["mode"] == "sampler":
            sampler(b, evs, tok, rng)
            return evs
        ss = [Session(dict(c, mode="data" if c["mode"] == "sampler" else c["mode"]), tok)
              for c in b["cfg"]]
        for i, s in enumerate(ss):
            e = record(evs, s, i + 1, "new:" + s.mode)
            if e["out"] != "ok":
                return evs
        for o in b["h"]:
            s = ss[o["r"] - 1]
            e = record(evs, s, o["r"], o["op"] + ":" + s.mode, o)
            if e["out"] != "ok":
                break
        return evs
    finally:
        plt.close("all")


def run(ck):
    c = dict(NP=2, V="0..2", Broken="FALSE")
    ck.model("FitterMC", cfg_text(spec="Spec", constants=c, invariants=["Refines", "Together"],
                                  properties=["Asked", "Ends"]),
             must_take=["Move", "Toggle", "Update", "Fit", "Apply", "Finish"])
    ck.mutant_model("FitterMC", cfg_text(spec="Spec", constants=dict(c, Broken="TRUE"),
                                         invariants=["Refines"]), "Refines")
    L = 12
    bs = ck.simulate("FitterGen", cfg_text(spec="Spec", invariants=["Emit"], constants=dict(
        Modes='{"data", "data", "both", "range", "none", "sampler"}', V="(-3)..5", L=L)),
        ck.n(100, 1500), L + 3)
    ev = []
    for e in pmap(play, [(b, ck.rng.random()) for b in bs], chunk=2):
        ev += e
    ck.sample(bs[0])
    fits = [e["calls"] for e in ev if e["ev"] == "fit"]
    ck.notes["fits"] = "%d fits, %d of them without convergence" % (
        len(fits), sum(c >= 500 for c in fits))
    ck.validate("FitterTrace", ev, traces=len(bs), chunk=200, split_on="start")
