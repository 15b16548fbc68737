"""C17: labels, normalisation guess, pre-fit and walker initialisation."""
import math

import numpy as np

import vlib
from vlib import cfg_text, pmap, silence

nm = vlib.load_naima()
from astropy import units as u  # noqa: E402
from astropy.table import QTable  # noqa: E402

TAIL = {"norm": ["", "alization"], "ampl": ["", "itude"], "we": ["", "_50TeV"],
        "wp": ["", "ight"], "index": ["", "_1"], "B": ["", "field"],
        "flux": ["", "norm"], "a norm": ["", "x"]}
E = np.array([1.0, 2.0, 4.0, 9.0]) * u.TeV
B = 1e-12 / u.cm**2 / u.s / u.TeV
F = np.array([4.0, 1.5, 0.25, 0.03]) * B


def label(lab):
    if lab["stem"] == "par":
        return "par%d" % lab["tail"]
    s = lab["pre"] + lab["stem"] + TAIL[lab["stem"]][-lab["tail"] - 1]
    if lab["pre"]:
        s += ")"
    return {"lower": s.lower() if lab["stem"] not in ("B",) else s,
            "upper": s.upper(), "title": s[:1].upper() + s[1:],
            "mixed": "".join(c.upper() if i % 2 else c for i, c in enumerate(s))
            }[lab["style"]]


def datatable(rng, sed, lum=False):
    t = QTable()
    f = (1e60 * u.cm**2 if lum else 1) * F * (E**2 if sed else 1)
    t["energy"] = E.to(rng.choice(["TeV", "GeV", "erg"]))
    t["flux"] = f
    t["flux_error_lo"] = 0.1 * f
    t["flux_error_hi"] = 0.2 * f
    return t


def represent(y, sed, rng, d=None):
    y = y * E**2 if sed else y
    return y.to(rng.choice(["erg/(cm2 s)", "TeV/(cm2 s)", "W/m2"] if sed else
                           ["1/(cm2 s TeV)", "1/(m2 s GeV)", "1/(cm2 s erg)"]))


def walkers(ev, state, p0, nw):
    c = np.asarray(state.coords)
    ev["walkers_ok"] = (c.shape == (nw, len(p0))
                        and len(np.unique(c, axis=0)) == nw)
    rel = c / np.asarray(p0) - 1
    ev["std"] = [int(round(x * 1e6)) for x in np.std(rel, axis=0)]
    ev["mean"] = [int(round(x * 1e6)) for x in np.mean(rel, axis=0)]
    ev["meantol"] = int(6 * max(ev["std"]) / math.sqrt(nw))


def guess_case(seed, b):
    import random
    rng = random.Random(seed)
    np.random.seed(seed % 2**31)
    n, r = b["n"], b["r"]
    labels = [label(x) for x in b["labs"]] if b["given"] else None
    nw = 64
    p = [rng.choice([8, 16, 64, -8, 24]) for _ in range(n)]
    norms = [i for i, x in enumerate(b["labs"]) if x["stem"] in ("norm", "ampl", "we", "wp")]
    if not b["given"]:
        norms = [0]
    j = norms[0] if norms else 0
    pre = b["labs"][j]["pre"] if b["given"] and norms else ""
    form = rng.choice(["float", "int", "list", "intlist"])
    arg = {"float": np.array(p, dtype=float), "int": np.array(p), "intlist": list(p),
           "list": [float(x) for x in p]}[form]
    msed, dsed = rng.random() < 0.5, rng.random() < 0.5
    mu = rng.randrange(10**6)
    tup = rng.random() < 0.3

    def model(q, d):
        k = (q[j] / p[j] if pre == "" else math.exp(q[j] - p[j]) if pre == "log("
             else 10 ** (q[j] - p[j]))
        y = represent(k * 2.0**-r * F, msed, random.Random(mu))
        return (y, 1.0) if tup else y

    tab = datatable(rng, dsed)
    al = None if labels is None else list(labels)
    ap = list(arg)
    key = f"{form}/{'none' if labels is None else '+'.join(labels)}".replace(" ", "_")
    ev = dict(ev="guess", key=key, labs=b["labs"], given=b["given"], n=n, r=r,
              guess=b["guess"], out="ok", p0=[x * 10**6 for x in p], nw=nw)
    try:
        with silence():
            s, st = nm.get_sampler(data_table=tab, p0=arg, model=model, prior=None,
                                   nwalkers=nw, nburn=0, guess=b["guess"],
                                   labels=labels, threads=1,
                                   data_sed=rng.choice([None, True, False]))
    except Exception as e:
        ev["out"] = type(e).__name__ + ": " + str(e)[:100]
        return ev
    full = labels or []
    inv = {label(x): x for x in b["labs"]}
    outl = []
    for x in list(s.labels):
        if x in inv:
            outl.append(inv[x])
        elif x == "norm":
            outl.append(dict(pre="", stem="norm", style="lower", tail=-1))
        elif x.startswith("par") and x[3:].isdigit():
            outl.append(dict(pre="", stem="par", style="lower", tail=int(x[3:])))
        else:
            outl.append(dict(pre="?", stem="?", style="?", tail=0))
    # identical spellings of distinct abstract labels
    ev["outlabs"] = [b["labs"][i] if i < len(full) and x == full[i] else o
                     for i, (x, o) in enumerate(zip(s.labels, outl))]
    q = s.run_info["p0"]
    ev["p"] = [vlib.OFF if abs(x) > 2000 or x != x else int(round(x * 1e6)) for x in q]
    walkers(ev, st, q, nw)
    ev["args_ok"] = (list(arg) == ap and type(arg[0]) is type(ap[0])
                     and (labels is None or labels == al))
    ev["nwalk"], ev["rguess"] = s.run_info["n_walkers"], bool(s.run_info["guess"])
    return ev


# ---- pre-fits: (status, scenario builder)
def quad(opt, scale=1.0):
    """model whose likelihood is quadratic around opt"""
    def f(q, d):
        q = np.asarray(q, dtype=float)
        y = 1 + scale * sum(0.3 * (x / o - 1) * np.log(2 + i + E.value)
                            for i, (x, o) in enumerate(zip(q, opt)))
        y[3] = 1.4      # misfit at the last point: the minimum is not zero
        return y * F
    return f


def valley(q, d):
    """a long curved valley: the simplex needs more than 500 evaluations"""
    q = np.asarray(q, dtype=float)
    t = np.zeros(4)
    s = np.sum(100 * (q[1:] - q[:-1] ** 2) ** 2 + (1 - q[:-1]) ** 2)
    t[0] = math.sqrt(s) * 0.05
    return (1 + t) * F


def scenarios():
    opt1, opt2 = [2.0], [2.0, 1.5]
    yield "one", 0, opt1, [1.5], quad(opt1)
    yield "two", 0, opt2, [2.4, 1.2], quad(opt2, 20)
    yield "two_far", 0, [5.0, -3.0], [3.5, -4.0], quad([5.0, -3.0], 20)
    yield "valley", 1, None, [-1.2, 1.0, -1.2, 1.0, -1.2, 1.0, -1.2, 1.0], valley
    # optimum at infinity: expands until the iterations are exhausted
    yield "runaway", 2, None, [1.0], lambda q, d: (1 + abs(q[0]) ** -0.1) * F


def lnl(model, q):
    y = (model(q, None) / F).to("").value - 1
    return -0.5 * np.sum((y / np.where(y > 0, 0.2, 0.1)) ** 2)


def prefit_case(seed, sc, allowed, rng):
    name, status, opt, p0, model = sc
    np.random.seed(seed)
    nw = 64
    p0 = list(p0)
    if allowed:
        prior = rng.choice([None, lambda p: 0.0,
                            lambda p: sum(nm.normal_prior(x, 0, 100.0) for x in p)])
    else:   # only a small box around the start vector
        prior = lambda p: sum(nm.uniform_prior(x, a - 1e-3, a + 1e-3)
                              for x, a in zip(p, p0))
    arg = np.array(p0)
    ev = dict(ev="prefit", key="prefit/" + name, scenario=name, status=status,
              allowed=allowed, out="ok", guess=False, nw=nw)
    try:
        with silence():
            s, st = nm.get_sampler(data_table=datatable(rng, False), p0=arg, model=model,
                                   prior=prior, nwalkers=nw, nburn=0, guess=False,
                                   prefit=True, threads=1)
    except Exception as e:
        ev["out"] = type(e).__name__ + ": " + str(e)[:100]
        return ev
    q = np.array(s.run_info["p0"])
    ev["replaced"] = not np.array_equal(q, p0)
    ev["better"] = bool(lnl(model, q) > lnl(model, p0))
    ev["near"] = opt is None or bool(np.all(np.abs(q / np.array(opt) - 1) < 0.15))
    walkers(ev, st, q, nw)
    ev["args_ok"] = np.array_equal(arg, p0)
    ev["nwalk"], ev["rguess"] = s.run_info["n_walkers"], bool(s.run_info["guess"])
    return ev


def rejects(rng):
    good = lambda q, d: q[0] * F
    cases = [("no_data", dict(data_table=None), "TypeError"),
             ("no_model", dict(model=None), "TypeError")]
    for i, unit in enumerate(["erg", "1/TeV", "erg/s", "1/(s TeV)", "m", "", "1/(cm2 s)",
                              "K", "erg/cm3"]):
        cases.append((f"unit[{unit}]", dict(
            model=lambda q, d, un=unit: q[0] * np.ones(4) * u.Unit(un)), "UnitsError"))
    for lu in ("erg/(cm2 s)", "1/(cm2 s TeV)"):
        cases.append((f"lumdata[{lu}]", dict(
            data_table=datatable(rng, False, lum=True),
            model=lambda q, d, un=lu: q[0] * np.ones(4) * u.Unit(un)), "UnitsError"))
    for guess in (True, False):
        for nb in (0, 1):
            for name, kw, want in cases:
                k = dict(data_table=datatable(rng, rng.random() < 0.5), p0=[1.0, 2.0],
                         model=good, nwalkers=8, nburn=nb, guess=guess, threads=1)
                k.update(kw)
                out = "ok"
                try:
                    with silence():
                        nm.get_sampler(**k)
                except u.UnitsError:
                    out = "UnitsError"
                except Exception as e:
                    out = type(e).__name__
                yield dict(ev="reject", key=f"{name}/guess={guess}/nburn={nb}", out=out,
                           want=want)


def run(ck):
    stems = '{"norm", "ampl", "we", "wp", "index", "B", "flux", "a norm"}'
    inv = ["AllNamed", "KeepsGiven", "OneAtMost", "OnlyWhenUnique", "NoLabelsMeansNorm"]
    pres = '{"", "log(", "log10("}'
    ck.model("StartGen", cfg_text(spec="Spec", invariants=inv, constants=dict(
        MaxP=3, MaxL=3, Stems='{"norm", "we", "B"}', Styles='{"lower"}', Pres=pres,
        Rs="{-1, 2}", Generate="FALSE")), must_take=["AddLabel", "NoLabels"])
    gen = ck.enumerate("StartGen", cfg_text(spec="Spec", invariants=["Emit"],
        constants=dict(MaxP=2, MaxL=1, Stems=stems,
                       Styles='{"lower", "upper", "title", "mixed"}', Pres=pres,
                       Rs="{2}", Generate="FALSE")))
    gen = [b for b in gen if b["guess"] or ck.rng.random() < 0.2]
    gen += ck.simulate("StartGen", cfg_text(spec="Spec", invariants=["Emit"],
        constants=dict(MaxP=4, MaxL=4, Stems=stems,
                       Styles='{"lower", "upper", "title", "mixed"}', Pres=pres,
                       Rs="{-3, -1, 0, 1, 3}", Generate="TRUE")), ck.n(500, 6000), 12)
    events = pmap(lambda ib: guess_case(ck.seed * 100003 + ib[0], ib[1]),
                  enumerate(gen), chunk=20)
    jobs = [(sc, al, k) for sc in scenarios() for al in (True, False)
            for k in range(ck.n(2, 12))]
    import random
    events += pmap(lambda ij: prefit_case(ck.seed * 1000 + ij[0], ij[1][0], ij[1][1],
                                          random.Random(ij[0] + ck.seed)),
                   enumerate(jobs), chunk=1)
    events += list(rejects(ck.rng))
    ck.notes["prefits"] = len(jobs)
    ck.sample(events[0])
    ck.sample(events[len(gen)])
    ck.validate("StartTrace", events, traces=len(events), chunk=400)
