"""C16: parallel sampling equals serial sampling for the same random seed.

Schedules come from TLC (finishing orders of a worker pool); they are forced on
the real workers by delays that depend on the parameter vector."""
import hashlib

import numpy as np

import fitlib as F
import vlib
from vlib import cfg_text, silence

nm = F.nm


def digest(x):
    """exact digest of a (nested) result"""
    from astropy import units as u

    h = hashlib.sha256()

    def add(v):
        if isinstance(v, dict):
            for k in sorted(v):
                h.update(str(k).encode())
                add(v[k])
        elif isinstance(v, u.Quantity):
            h.update(b"q" + vlib.ustr(v.unit).encode())
            add(v.value)
        elif isinstance(v, (list, tuple)) or (isinstance(v, np.ndarray)
                                              and v.dtype == object):
            h.update(b"l%d" % len(v))
            for y in v:
                add(y)
        elif isinstance(v, str):
            h.update(v.encode())
        elif v is None:
            h.update(b"None")
        else:
            a = np.ascontiguousarray(np.asarray(v, dtype=float))
            h.update(str(a.shape).encode() + a.tobytes())

    add(x)
    return h.hexdigest()[:16]


def one(problem, threads, delays):
    name, prior, nw, nb, nr, resume, guess, prefit, seed = problem
    F.DELAY[:] = delays
    np.random.seed(seed)
    ev = dict(ev="run", key=f"{name}/{prior}/th{threads}", problem="/".join(
        map(str, problem)), threads=threads or 0, out="ok",
        obs=dict(chain="", lp="", blobs="", info="", end="", rnd=""))
    try:
        with silence():
            s, pos = nm.get_sampler(
                data_table=F.table(), p0=np.array([1.1, 2.1]), model=F.MODELS[name],
                prior=F.PRIORS[prior], nwalkers=nw, nburn=nb, guess=guess,
                prefit=prefit, threads=threads)
            rnd = np.random.random()
            s, pos = nm.run_sampler(sampler=s, pos=pos, nrun=nr)
            if resume:
                s, pos = nm.run_sampler(sampler=s, pos=pos, nrun=nr)
        ev["obs"] = dict(chain=digest(s.get_chain()), lp=digest(s.get_log_prob()),
                         blobs=digest(s.get_blobs()), info=digest(s.run_info),
                         end=digest([pos.coords, pos.log_prob]), rnd=digest(rnd))
    except Exception as e:
        ev["out"] = type(e).__name__ + ": " + str(e)[:100]
    finally:
        F.DELAY[:] = []
    return ev


def run(ck):
    base = dict(NT=4, W=3, NS=2, Ordered="TRUE", Gen="FALSE")
    ck.model("Pool", cfg_text(spec="Spec", invariants=["SameAsSerial"],
                              properties=["Finishes"], constants=base),
             must_take=["Take", "Finish", "EndStep"])
    ck.mutant_model("Pool", cfg_text(spec="Spec", invariants=["SameAsSerial"],
                                     constants=dict(base, Ordered="FALSE")),
                    "SameAsSerial")
    orders = ck.enumerate("Pool", cfg_text(spec="Spec", invariants=["Emit"],
                          constants=dict(base, NT=5, W=4, NS=1, Gen="TRUE")))
    ck.rng.shuffle(orders)
    events = []
    for i in range(ck.n(10, 80)):
        r = ck.rng
        problem = (r.choice(sorted(F.MODELS)), r.choice(sorted(F.PRIORS)),
                   r.choice([8, 10, 14]), r.choice([0, 2, 4]), r.choice([2, 4]),
                   r.random() < 0.5, r.random() < 0.5, i % 4 == 3, 100 + i)
        events.append(one(problem, 1, []))
        # (None: as many as there are processors)
        for th in ck.rng.sample([1, 2, 3, 4, 6], ck.n(3, 4)) + [None] * (i % 3 == 1):
            o = orders[len(events) % len(orders)]
            # the later a task is to finish, the longer it takes
            events.append(one(problem, th, [0.8 * o.index(t) for t in sorted(o)]))
    ck.sample(events[0])
    ck.notes["schedules"] = len(orders)
    ck.validate("PoolTrace", events, traces=len(events))
