"""C08: EBL transmission is a probability that falls with energy and redshift."""
import math
import os

import numpy as np

import vlib
from vlib import NAN, REPO, cfg_text, outcome

nm = vlib.load_naima()
from astropy import units as u  # noqa: E402
from astropy.table import QTable  # noqa: E402
from naima import models as M  # noqa: E402

EU = [u.TeV, u.GeV, u.eV, u.erg]


def run(ck):
    inv = ["MonotoneE", "MonotoneZ", "Transparent"]
    ck.model("EblMC", cfg_text(spec="Spec", invariants=inv, constants=dict(
        Cols="{100, 200, 300}", NE=3, MaxTau=2,
        Zs="{0, 50, 99, 100, 140, 160, 200, 249, 251, 300, 900}")),
        must_take=["MoveZ", "MoveE"])
    T = np.load(os.path.join(REPO, "src/naima/data/tau_dominguez11.npz"))["arr_0"]
    et = np.asarray(T["energy"], dtype=float)          # TeV
    N = len(et)
    rng = ck.rng
    zs = [0, 1, 50, 99, 100, 101, 104, 106, 149, 151, 199, 200, 201, 39800, 39849,
          39851, 39900, 39901, 39949, 45000, 100000]
    zs += [rng.randrange(100, 40000) for _ in range(ck.n(60, 1500))]
    zs = [z + 1 if z > 100 and z % 100 == 50 else z for z in zs]
    events = []

    def t9(x):
        x = float(x)
        return NAN if math.isnan(x) or abs(x) > 2 else (
            int(round(x * 1e9)) if x <= 1 else 1000000000 + max(1, int(1e9 * (x - 1))))

    def o6(x):
        x = float(x)
        return NAN if math.isnan(x) or x <= 0 else int(round(-math.log(x) * 1e6))

    grids = {}
    for n, z in enumerate(zs):
        form = n % 6
        cols = sorted({min(max(z // 100 + d, 1), 399) for d in (-2, -1, 0, 1, 2)})
        nodes = sorted(rng.sample(range(N), 14)) + [0, N - 1]
        jn = {k: i + 1 for i, k in enumerate(sorted(set(nodes)))}
        pts = [(et[k], jn[k]) for k in jn]
        # all node energies above are exact; edges of the table are only
        # compared in its own unit
        last = jn[N - 1]
        pts += [(x, 0) for x in (1e-9, 1e-4, 0.5e-3, 0.999999e-3)]
        pts += [(x, last) for x in (100.001, 150.0, 1e3, 1e6)]
        pts += [(10 ** rng.uniform(-2.99, 1.99), -1) for _ in range(10)]
        un = EU[n % len(EU)]
        if form == 3:
            rng.shuffle(pts)
        elif form == 4:
            pts.sort(reverse=True)
        zz = z / 1e4
        arg = [zz, zz, zz * u.dimensionless_unscaled, u.Quantity(zz), np.float64(zz),
               zz][form]
        m = M.EblAbsorptionModel(arg) if form % 2 else M.EblAbsorptionModel(
            arg, "Dominguez")
        e = ([p[0] for p in pts] * u.TeV).to(un)
        q = e
        if form == 1:
            q = {"energy": e}
        elif form == 2:
            q = QTable()
            q["energy"] = e
        out, v = outcome(lambda: m.transmission(q))
        ev = dict(ev="eval", key=f"z={z}" if z < 300 or z > 39000 else "z", z=z,
                  out=out)
        if out == "ok":
            v = np.asarray(getattr(v, "value", v), dtype=float)
            ev.update(shape=list(np.shape(v)), eshape=[len(pts)],
                      pts=[dict(j=int(p[1]), t=t9(x), o=o6(x))
                           for p, x in zip(pts, np.atleast_1d(v))],
                      ek=[int(round(1e7 * math.log10(p[0]))) for p in pts],
                      rows=[dict(z=100 * c, tau=[
                          int(round(1e6 * min(T["col%d" % (c + 1)][k], 150.0)))
                          for k in sorted(jn)]) for c in cols])
        events.append(ev)
        if n % 3 == 0:      # a single energy gives a single value
            p = pts[rng.randrange(len(pts))]
            out, v = outcome(lambda: m.transmission((p[0] * u.TeV)))
            ev = dict(ev="eval", key="scalar", z=z, out=out)
            if out == "ok":
                ev.update(shape=list(np.shape(v)), eshape=[],
                          pts=[dict(j=int(p[1]), t=t9(v), o=o6(v))], ek=[0],
                          rows=events[-1]["rows"])
            events.append(ev)
    # monotone in redshift at fixed energies
    E = np.logspace(-4, 3, ck.n(80, 400)) * u.TeV
    grid = sorted({0, 50, 100, 200, 1000, 5000, 39900, 50000} | set(
        rng.sample(range(100, 40000), ck.n(20, 200))))
    grid = [z + 1 if z > 100 and z % 100 == 50 else z for z in grid]
    prev = None
    for z in grid:
        t = [t9(x) for x in np.asarray(M.EblAbsorptionModel(z / 1e4).transmission(E))]
        if prev:
            events.append(dict(ev="zpair", key="zpair", z1=prev[0], t1=prev[1], z2=z,
                               t2=t))
        prev = (z, t)
    for k, f in (("good_float", lambda: M.EblAbsorptionModel(0.3)),
                 ("good_int", lambda: M.EblAbsorptionModel(1)),
                 ("good_quantity", lambda: M.EblAbsorptionModel(
                     0.3 * u.dimensionless_unscaled, "Dominguez")),
                 ("zero", lambda: M.EblAbsorptionModel(0.0)),
                 ("negative", lambda: M.EblAbsorptionModel(-0.1)),
                 ("negative", lambda: M.EblAbsorptionModel(-1e-9)),
                 ("array", lambda: M.EblAbsorptionModel(np.array([0.1, 0.2]))),
                 ("list", lambda: M.EblAbsorptionModel([0.1, 0.2])),
                 ("wrong_unit", lambda: M.EblAbsorptionModel(0.1 * u.m)),
                 ("unknown_model", lambda: M.EblAbsorptionModel(0.1, "Finke")),
                 ("unknown_model", lambda: M.EblAbsorptionModel(0.1, "dominguez2")),
                 ("unknown_model", lambda: M.EblAbsorptionModel(0.001, "")),
                 ("unknown_model", lambda: M.EblAbsorptionModel(0.1, None))):
        events.append(dict(ev="make", key=k, k=k, out=outcome(f)[0]))
    ck.sample({k: events[0][k] for k in ("z", "out", "ek")})
    ck.sample(events[-1])
    ck.validate("EblTrace", events, traces=len(events), chunk=60)
    ck.assumptions += [
        "the opacity table shipped with naima is input data, not verified",
        "monotonicity within the table's own rounding (2e-6 in energy, 5e-4 in redshift)"]
