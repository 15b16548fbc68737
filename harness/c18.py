"""C18: the simplex minimiser follows Nelder-Mead and returns its best point."""
import contextlib
import io

import numpy as np

import vlib
from vlib import cfg_text, pmap

nm = vlib.load_naima()
from naima.extern.minimize import minimize  # noqa: E402

TOLS = [(1e-1, 1e-3), (1e-4, 1e-4), (0.02, 0.5), (1.0, 1.0)]


class TooMany(Exception):
    pass


def message(m):
    return "success" if "success" in m else "evaluations" if "eval" in m \
        else "iterations" if "iter" in m else m


def events_of(key, f, x0, opts, crit, tols, args=(), extra=0):
    """record one minimisation"""
    calls = []
    told = {}                   # after how many evaluations: best point
    opts = dict(opts)
    cb, ret, disp = extra % 2 == 1, extra // 2 % 2 == 1, extra // 4 % 2 == 1
    if cb:
        opts["callback"] = lambda x: told.setdefault(len(calls), []).append(
            np.array(x, float, copy=True))
    if ret:
        opts["return_all"] = True
    if disp:
        opts["disp"] = True
    said = io.StringIO()
    cap = opts.get("maxfev", 10**9) + 50

    def func(x, *a):
        if len(calls) > min(cap, 4000):
            raise TooMany
        x = np.array(x, dtype=float, copy=True)
        calls.append([x, None])
        calls[-1][1] = f(x, len(calls) - 1)
        assert a == tuple(args)
        return calls[-1][1]

    given = x0
    copy = np.array(x0, copy=True)
    try:
        with contextlib.redirect_stdout(said):
            r = minimize(func, given, args=args, method="Nelder-Mead", options=opts)
        err = None if np.array_equal(copy, np.asarray(given)) else "x0 modified"
    except Exception as e:
        r, err = None, type(e).__name__ + str(e)[:60]
    xs = np.array([c[0] for c in calls] + [np.ravel(copy).astype(float)])
    N = xs.shape[1]
    mx = np.max(np.abs(xs))
    q = (mx if mx > 0 else 1.0) / 5e7
    pt = lambda x: [int(round(v / q)) for v in np.ravel(x)]
    ev = [dict(ev="start", key=key, n=N, x0=pt(copy), zd=int(round(0.00025 / q)),
               maxfev=opts.get("maxfev") or N * 200,
               maxiter=opts.get("maxiter") or N * 200,
               xt=int(tols[0] * 1000), ft=int(tols[1] * 1000),
               cb=cb, all=ret, disp=disp,
               crit=crit and tols[0] >= 1e-3 and tols[1] >= 1e-3)]
    fs = [c[1] for c in calls]
    if crit:
        fi = lambda v: int(v)
    else:                       # dense ranks
        u = sorted(set(fs))
        rank = {v: i + 1 for i, v in enumerate(u)}
        fi = lambda v: rank.get(v, -1)
    for i, c in enumerate(calls):
        ev.append(dict(ev="eval", key=key, x=pt(c[0]), f=fi(c[1])))
        ev += [dict(ev="told", key=key, x=pt(x)) for x in told.get(i + 1, [])]
    if err:
        ev.append(dict(ev="fail", key=key, what=err))
    else:
        ev.append(dict(ev="end", key=key, x=pt(r["x"]), f=fi(float(r["fun"])),
                       nfev=int(r["nfev"]), status=int(r["status"]),
                       success=bool(r["success"]), nit=int(r["nit"]),
                       all=[pt(x) for x in r["allvecs"]] if ret else [],
                       said=bool(said.getvalue()), msg=message(r["message"])))
    return ev


def start(rng, N):
    k = rng.choice(["float", "int", "list", "intlist", "mixed", "tuple"])
    v = [rng.choice([20, -20, 40, 60, 1, 3, 7] + ([0] if k == "mixed" else []))
         for _ in range(N)]
    if k == "int":
        return np.array(v, dtype=int), k
    if k == "intlist":
        return v, k
    v = [float(x) * rng.choice([1, 1, 1e-3, 1e5] if k == "float" else [1]) for x in v]
    return (np.array(v) if k in ("float", "mixed") else v if k == "list" else tuple(v)), k


REAL = [
    ("sphere", lambda x: float(np.sum((x - 1.5) ** 2))),
    ("steps", lambda x: float(np.sum(np.floor(np.abs(x) * 4)))),
    ("abs", lambda x: float(np.sum(np.abs(x)) + 1)),
    ("rosen", lambda x: float(np.sum(100 * (x[1:] - x[:-1] ** 2) ** 2
                                     + (1 - x[:-1]) ** 2) + (1 - x[0]) ** 2)),
    ("neg", lambda x: float(-1 / (1 + np.sum((x - 0.3) ** 2)))),
    ("flat", lambda x: 3.0),
    ("inf", lambda x: float("inf") if x[0] > 30 else float(np.sum(x**2))),
]


def run(ck):
    import random
    base = dict(Vals="{1, 2, 3}", MaxIter=100, CanConverge="TRUE", KeepHist="FALSE",
                Forget="FALSE")
    inv = ["BestKept", "Size", "InBudget", "Truthful"]
    for N, mf in ((1, 9), (2, 9), (3, 10)):
        ck.model("SimplexMC", cfg_text(spec="Spec", invariants=inv,
                 properties=["Terminates"], constants=dict(base, N=N, MaxFev=mf)),
                 name=f"SimplexMC_N{N}",
                 must_take=["InitEval", "Reflect", "Expand", "Contract", "Shrink",
                            "Converge", "OutOfBudget"] if N == 2 else ())
    ck.mutant_model("SimplexMC", cfg_text(spec="Spec", invariants=inv, constants=dict(
        base, N=2, MaxFev=8, Forget="TRUE")), "BestKept")
    items = []
    gen = []
    for N, mf, mi in ck.n([(1, 6, 99), (2, 6, 99), (2, 99, 3)],
                          [(1, 8, 99), (2, 8, 99), (3, 8, 99), (2, 99, 4), (1, 99, 5)]):
        for h in ck.enumerate("SimplexMC", cfg_text(spec="Spec", invariants=["Emit"],
                constants=dict(base, N=N, MaxFev=mf, MaxIter=mi, KeepHist="TRUE",
                               CanConverge="FALSE")), workers=1):
            gen.append((N, mf, mi, h))
    if not ck.thorough and len(gen) > 2500:
        gen = ck.rng.sample(gen, 2500)
    ck.notes["oracle_sequences"] = len(gen)
    # values behind the ranks: neighbours closer or further than the tolerances
    SC = [[0, 1000, 1001, 2000], [0, 1, 2, 3], [0, -5, 0, 5], [0, 1000, 1000, 3000],
          [0, -2000, -1999, 7]]
    jobs = [("oracle", N, mf, mi, h) for N, mf, mi, h in gen]
    for i in range(ck.n(250, 4000)):
        N = ck.rng.choice([1, 2, 2, 3, 4])
        jobs.append(("random", N, ck.rng.choice([1, 5, 12, 20, 30]),
                     ck.rng.choice([99, 99, 3, 6]),
                     [ck.rng.randint(1, 3) for _ in range(60)]))
    for i in range(ck.n(120, 2000)):
        jobs.append(("real", ck.rng.choice([1, 2, 3, 4, 5]),
                     ck.rng.choice([None, 3, 40, 80]), ck.rng.choice([None, 5]), i))

    def one(iw):
        i, (kind, N, mf, mi, h) = iw
        rng = random.Random(ck.seed * 1000003 + i)
        x0, form = start(rng, N)
        tols = rng.choice(TOLS)
        opts = dict(maxfev=mf, xtol=tols[0], ftol=tols[1])
        if mi and mi != 99:
            opts["maxiter"] = mi
        if kind == "real":
            name, f = REAL[h % len(REAL)]
            if mf is None:
                opts.pop("maxfev")
            return events_of(f"real/{name}/{form}", lambda x, j: f(x), x0, opts, False,
                             tols, args=(1, 2) if h % 2 else (), extra=h % 13 % 8)
        sc = rng.choice(SC)
        # the objective after the listed values: the worst
        f = lambda x, j: float(sc[h[j] if j < len(h) else 3])
        return events_of(f"{kind}/{form}", f, x0, opts, True, tols,
                         extra=rng.choice([0, 0, 0, 1, 2, 3, 4, 7]))

    events = []
    for e in pmap(one, enumerate(jobs), chunk=50):
        events += e
    ck.sample(events[:6])
    ck.validate("SimplexTrace", events, traces=len(jobs), chunk=3500, split_on="start")
