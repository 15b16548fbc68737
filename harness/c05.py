"""C05: results do not depend on the unit, form or order of the energies."""
import random

import numpy as np

import radlib as X
from vlib import OFF, Classes, cfg_text, outcome, pmap

u, R, M = X.u, X.R, X.M
UN = ["TeV", "eV", "erg", "keV", "J", "GeV", "MeV"]
# object -> (builder, operations, energies)
PDE = [3e-3, 0.7, 2.0, 11.0, 77.0, 900.0] * u.TeV


def rad(cls):
    return X.make_model(cls, [1] * len(X.CLS[cls]["par"]), X.make_pd(
        "ECPL", [1] * 5))


def ops(cls):
    d = 2 * u.kpc
    o = {"flux": lambda m, e: m.flux(e), "flux0": lambda m, e: m.flux(e, distance=0),
         "sed": lambda m, e: m.sed(e, distance=d)}
    if cls == "IC":
        o["seed"] = lambda m, e: m.flux(e, seed="star")
        o["sedseed"] = lambda m, e: m.sed(e, seed=4, distance=d)
    return o


OBJ = {c: (lambda c=c: rad(c), ops(c), e) for c, e in {
    "SYN": [0.01, 0.1, 1.0, 3.0, 20.0, 200.0] * u.keV,
    "IC": [1e-4, 1e-2, 0.03, 0.3, 3.0, 40.0] * u.TeV,
    "BREM": [1e-6, 1.3e-4, 0.03, 0.3, 3.0, 40.0] * u.TeV,
    "PP": [5e-4, 0.03, 3.0] * u.TeV, "KEL": [0.11, 0.5, 4.0] * u.TeV}.items()}
# below and above the transition, always together: the approximation below is
# normalised to the calculation above if both are requested
OBJ["KELT"] = (lambda: rad("KEL"), ops("KEL"), [0.02, 0.06, 0.11, 2.0] * u.TeV)
CALL = {"call": lambda m, e: m(e)}
for kind in ("PL", "ECPL", "BPL", "ECBPL", "LP", "TAB1"):
    OBJ["pd" + kind] = (lambda k=kind: X.make_pd(k, [1] * len(X.PD[k][0])), CALL, PDE)
OBJ["EBL"] = (lambda: M.EblAbsorptionModel(0.3),
              {"transmission": lambda m, e: m.transmission(e)},
              [1e-4, 0.02, 0.3, 2.0, 30.0, 200.0] * u.TeV)
NAMES = list(OBJ)


def request(e, form, unit, rng):
    q = e.to(unit)
    v = q.value
    Table, QTable = X.Table, X.QTable
    t = QTable() if rng.random() < 0.5 else Table()

    def tab(t, **cols):
        for k, x in cols.items():
            t[k] = x
        return t

    return {
        "array": lambda: q, "scalar": lambda: q[0], "listofq": lambda: [x for x in q],
        "column": lambda: tab(QTable(), energy=q)["energy"],
        "float32free": lambda: u.Quantity(v, unit, copy=True),
        "ro": lambda: frozen(q),
        "dict": lambda: {"energy": q, "flux": v},
        "qtable": lambda: tab(QTable(), flux=v, energy=q),
        "table": lambda: tab(Table(), energy=q, flux=v),
        "number": lambda: float(v[0]), "plainarray": lambda: v, "list": lambda: list(v),
        "dimensionless": lambda: v * u.dimensionless_unscaled,
        "length": lambda: v * u.cm, "time": lambda: v * u.s, "frequency": lambda: v * u.Hz,
        "perenergy": lambda: v / u.eV, "temperature": lambda: v * u.K,
        "dict_without_energy": lambda: {"ene": q}, "dict_without_unit": lambda: {"energy": v},
        "dict_wrong_unit": lambda: {"energy": v * u.m},
        "table_without_energy": lambda: tab(t, ene=q),
        "table_without_unit": lambda: tab(t, energy=v),
        "table_wrong_unit": lambda: tab(t, energy=v * u.m),
        "none": lambda: None, "text": lambda: rng.choice(["energy", "TeV", ""]),
    }[form]()


def frozen(q):
    q = q.copy()
    q.flags.writeable = False
    return q


def replay(job):
    seed, name, hist = job
    rng = random.Random(seed)
    make, op, E = OBJ[name]
    cl = Classes(1e-9)
    m = make()
    ev = [dict(ev="start", key=name)]
    done = set()
    for h in hist:
        o = sorted(op)[h["o"] % len(op)]
        q = [1 + (i - 1) % len(E) for i in h["q"]]
        if name == "KELT":
            q += [x for x, y in ((2, {1, 2}), (3, {3, 4})) if not y & set(q)]
            if h["form"] == "scalar":
                h = dict(h, form="array")
        if o not in done:
            done.add(o)
            ref = []
            for e in E if name != "KELT" else []:
                out, v = outcome(lambda: op[o](make(), e))
                # a scalar must have been returned
                ref.append(cl.id(v) if out == "ok" else OFF)
            if name == "KELT":
                out, v = outcome(lambda: op[o](make(), E))
                ref = [cl.id(x) for x in v] if out == "ok" else [OFF] * len(E)
            ev.append(dict(ev="ref", key=name, o=name, op=o, c=ref))
        arg = request(E[[i - 1 for i in q]], h["form"], UN[h["unit"] % len(UN)], rng)
        out, v = outcome(lambda: op[o](m, arg))
        r = dict(ev="ask", key=f"{name}/{o}/{h['form']}", o=name, op=o, q=q,
                 form=h["form"], out=out, shape=OFF, c=[])
        ev.append(r)
        if out == "ok":
            sh = np.shape(v)
            r["shape"] = -1 if sh == () else sh[0] if len(sh) == 1 else OFF
            if len(sh) < 2:
                r["c"] = [cl.id(x) for x in (v if sh else [v])]
    return ev


def run(ck):
    inv = ["PermutationCommutes", "ScalarsOnly"]
    ck.model("FormGen", cfg_text(spec="Spec", invariants=inv, constants=dict(
        NE=3, MaxQ=3, Units="{0}", Objs="{0}", L=1, Generate="FALSE")),
        must_take=["Extend", "Ask"])
    hs = ck.simulate("FormGen", cfg_text(spec="Spec", invariants=["Emit"], constants=dict(
        NE=6, MaxQ=5, Units="0..6", Objs="0..7", L=12, Generate="TRUE")),
        ck.n(260, 3000), 80)
    names = []
    for i in range(len(hs)):
        n = NAMES[i % len(NAMES)]
        if n in ("PP", "KEL", "KELT") and i > 60 and not ck.thorough:
            n = "SYN"
        names.append(n)
    jobs = [(ck.seed * 99991 + i, n, h[:6] if n in ("PP", "KEL", "KELT") else h)
            for i, (n, h) in enumerate(zip(names, hs))]
    # every object refuses everything that is no energy, in every operation
    bad = ["number", "plainarray", "list", "dimensionless", "length", "time", "frequency",
           "perenergy", "temperature", "dict_without_energy", "dict_without_unit",
           "dict_wrong_unit", "table_without_energy", "table_without_unit",
           "table_wrong_unit", "none", "text"]
    for i, n in enumerate(NAMES):
        k = len(OBJ[n][1])
        jobs.append((i, n, [dict(q=[1, 2], form=f, unit=0, o=o) for f in bad
                            for o in range(k)]))
        jobs.append((i, n, [dict(q=q, form=f, unit=un, o=o) for o in range(k)
                            for f, un, q in (("scalar", 1, [2]), ("array", 2, [2]),
                                             ("dict", 0, [3, 1, 2]), ("table", 3, [2, 3]))]))
    jobs.sort(key=lambda j: -(j[1] in ("PP", "KEL", "KELT")))
    events = sum(pmap(replay, jobs, chunk=2), [])
    ck.sample(events[:4])
    ck.validate("FormTrace", events, traces=len(jobs), chunk=900, split_on="start")
