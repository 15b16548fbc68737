"""C15: a sampler run keeps exactly its production steps, each with its own
results; runs can be resumed from any returned state."""
import numpy as np

import fitlib as F
import vlib
from vlib import Classes, cfg_text, silence

nm = F.nm
P0 = {2: [1.1, 2.1], 3: [1.1, 2.1, 0.3]}


def observe(ev, sampler, state, name, prior, cls, frm, ul):
    nw, nd = ev["nw"], ev["nd"]
    try:
        ch, lps, bl = sampler.get_chain(), sampler.get_log_prob(), sampler.get_blobs()
    except AttributeError:      # emcee: nothing stored
        ch = np.zeros((0, nw, nd))
        lps, bl = np.zeros((0, nw)), []
    n = len(ch)
    ev["nsteps"] = n
    ev["shape_ok"] = ch.shape == (n, nw, nd) and lps.shape == (n, nw) and len(bl) == n
    ev["end"] = cls.id(state.coords)
    ev["last_ok"] = bool(n and np.array_equal(ch[-1], state.coords)
                         and np.array_equal(lps[-1], state.log_prob))
    lpb = blb = 0
    for i in range(n):
        for w in range(nw):
            x = F.lp(ch[i, w], prior, ul)
            y = float(lps[i, w])
            if not (x == y or abs(x - y) <= 1e-8 * max(1, abs(x))):
                lpb += 1
            wn = F.want(name, ch[i, w])
            try:
                b = list(bl[i][w])[:len(wn)]
            except TypeError:
                b = [None]
            if not F.same(b, wn):
                blb += 1
    ev["lp_bad"], ev["blob_bad"] = lpb, blb
    prev, mv = frm, 0
    if frm is not None:
        for i in range(n):
            mv += int(np.sum(np.any(ch[i] != prev, axis=1)))
            prev = ch[i]
    ev["moved"] = mv
    try:
        ev["accepted"] = int(np.round(np.sum(sampler.acceptance_fraction * n)))
    except Exception:
        ev["accepted"] = 0
    g = dict(sampler.run_info)
    ev["info"] = dict(n_run=int(g.get("n_run", -1)), n_burn=int(g.get("n_burn", -1)),
                      n_walkers=int(g.get("n_walkers", -1)),
                      p0_ok=np.array_equal(g.get("p0"), ev["p0"]),
                      med=cls.id(np.array(g.get("p0_burn_median", [0.0]))),
                      medref=ev["medref"])


def replay(ck, h, idx, rng):
    cls = Classes(1e-13)
    name = rng.choice(sorted(F.MODELS))
    prior = rng.choice(sorted(F.PRIORS))
    nd = rng.choice([2, 3])
    ul = rng.random() < 0.5
    key = f"{name}/{prior}/th{h[0]['th']}"
    events = [dict(ev="new", key=key)]
    np.random.seed(idx)
    sampler, states = None, []
    common = {}
    for op in h:
        ev = dict(op, ev=op["a"], key=key, out="ok", nd=nd, end=0)
        events.append(ev)
        frm = None
        try:
            with silence():
                if op["a"] in ("get", "runnew"):
                    kw = dict(data_table=F.table(ul), p0=np.array(P0[nd]),
                              model=F.MODELS[name], prior=F.PRIORS[prior],
                              nwalkers=op["nw"], nburn=op["nb"], guess=False,
                              threads=op["th"])
                    if op["a"] == "get":
                        sampler, st = nm.get_sampler(**kw)
                    else:
                        sampler, st = nm.run_sampler(nrun=op["n"], **kw)
                    common = dict(nw=op["nw"], p0=P0[nd])
                    states = [st]
                    med = (np.median(st.coords, axis=0) if op["a"] == "get"
                           else sampler.run_info.get("p0_burn_median"))
                    common["medref"] = cls.id(np.array(med))
                else:
                    src = states[op["from"] - 1]
                    frm = np.array(src.coords, copy=True)
                    pos = frm.copy() if op["arr"] else src
                    sampler, st = nm.run_sampler(nrun=op["n"], sampler=sampler, pos=pos)
                    if not np.array_equal(src.coords, frm):
                        ev["out"] = "given state modified"
                    if op["n"] > 0:
                        states.append(st)
            ev.update(common)
            observe(ev, sampler, st, name, prior, cls, frm, ul)
            if op["a"] == "runnew":   # the burnt-in ensemble was not returned
                states = [st] * (2 if op["n"] > 0 else 1)
        except Exception as e:
            ev["out"] = type(e).__name__ + ": " + str(e)[:100]
            break
    return events


def run(ck):
    import random
    inv = ["OnlyProduction", "BurnKept", "Resumable", "PoolReleased"]
    ck.model("SamplerGen", cfg_text(spec="Spec", invariants=inv, constants=dict(
        L=4, NWs="{8}", NBs="{0, 2}", NRs="{0, 1, 3}", Ths="{1, 2}", Generate="FALSE")),
        must_take=["Create", "Run", "Oneshot"])
    gen = ck.enumerate("SamplerGen", cfg_text(spec="Spec", invariants=["Emit"],
        constants=dict(L=2, NWs="{8}", NBs="{0, 2}", NRs=ck.n("{0, 3}", "{0, 1, 3}"),
                       Ths="{1, 2}", Generate="FALSE")))
    gen += ck.simulate("SamplerGen", cfg_text(spec="Spec", invariants=["Emit"],
        constants=dict(L=4, NWs="{8, 10, 16}", NBs="{0, 1, 5}", NRs="{0, 1, 2, 7}",
                       Ths="{1, 1, 2, 3}", Generate="TRUE")), ck.n(40, 600), 8)
    out = []
    # worker processes of naima may not be children of daemons: run in threads
    # of the main process only
    for i, h in enumerate(gen):
        out.append(replay(ck, h, i, random.Random(ck.seed * 1000003 + i)))
    events = sum(out, [])
    ck.sample(events[:3])
    ck.validate("SamplerTrace", events, traces=len(gen), chunk=150, split_on="new")
