"""C19: saving and reading back a run preserves it; files are not clobbered silently."""
import hashlib
import os
import pathlib
import random
import shutil
import tempfile

import numpy as np

import chainlib as C
import vlib
from c20 import same
from c21 import DESIGN, diff, gen, log2e, stored
from vlib import cfg_text, pmap

nm = C.nm
from astropy import units as u  # noqa: E402
from naima.analysis import read_run, save_run  # noqa: E402

PATHS = ["a.h5", "b.hdf5", "c.h5", "a.txt", "b", "c.hdf"]


def digests(d, ids):
    r = {}
    for p in PATHS:
        f = os.path.join(d, p)
        h = hashlib.sha1(open(f, "rb").read()).hexdigest() if os.path.exists(f) else None
        # (a file written again may be the same)
        r[p] = ids.setdefault(h, len(ids))
    return r


def parts(kind, x):
    """(values of the parts, right units and energies) of one stored output"""
    if kind in ("pair", "pairl", "lum"):
        e, y = x
        en = (C.PE.to("GeV") if kind == "pairl" else C.PE)
        un = dict(pair=C.B, pairl=C.B.to("1/(cm2 s GeV)"), lum=C.LB)[kind]
        return [diff(kind, y)], e.unit == en.unit and log2e(e) == [-1, 2, 5] and \
            y.unit.is_equivalent(un.unit)
    if kind in ("arr", "arrsed"):
        return [diff(kind, x)], x.unit.is_equivalent(
            C.B.unit if kind == "arr" else u.Unit("erg/(cm2 s)"))
    if kind == "qs":
        return [diff(kind, x)], x.unit.is_equivalent(u.erg) and np.ndim(x) == 0
    if kind in ("fl", "npf", "int"):
        return [C.onlat(np.atleast_1d(u.Quantity(x).value), 1)], \
            u.Quantity(x).unit == u.dimensionless_unscaled
    e = None
    if kind == "tri":
        e, *x = x
    a = [C.onlat(np.atleast_1d(y.value), 1) for y in x]
    return a, [y.unit for y in x] == [u.erg, u.s] and \
        (e is None or (log2e(e) == [-1, 2, 5] and e.unit == u.TeV))


def table_same(a, b):
    if list(a.colnames) != list(b.colnames) or len(a) != len(b):
        return False
    for c in a.colnames:
        x, y = u.Quantity(a[c]), u.Quantity(b[c])
        if x.unit != y.unit or not np.array_equal(x.value, y.value):
            return False
        if (a[c].dtype == bool) != (b[c].dtype == bool):
            return False
    return True


def content(run, s, org, info, acc, ev):
    un = C.units_of(run)
    ch = s.get_chain()
    ev["chain"] = [[[C.onlat(p, w) for p, w in zip(x, un)] for x in st] for st in ch]
    ev["lp"] = [[C.MINF if np.isneginf(x) else vlib.snap(x) for x in st]
                for st in s.get_log_prob()]
    ev["exact"] = np.array_equal(ch, org.get_chain()) and \
        np.array_equal(s.get_log_prob(), org.get_log_prob())
    b = s.get_blobs()
    flat = [x for st in b for x in st]
    ev["flat"] = bool(
        np.array_equal(s.get_chain(flat=True), np.concatenate(list(ch)))
        and np.array_equal(s.get_log_prob(flat=True), np.concatenate(list(s.get_log_prob())))
        and all(x is y for p, q in zip(s.get_blobs(flat=True), flat) for x, y in zip(p, q)))
    n = len(flat[0])
    for i in range(n):
        col = [x[i] for x in flat]
        ev["none"].append(all(x is None for x in col))
        kind = run["lay"][i] if i < len(run["lay"]) else None
        if kind is None or kind == "text":
            ev["outs"].append([])
            ev["units"].append(True)
            continue
        out, r = vlib.outcome(lambda: [parts(kind, x) for x in col])
        ev["outs"].append([x[0] for x in r] if out == "ok" else [out])
        ev["units"].append(out == "ok" and all(bool(x[1]) for x in r))
    ev["labels"] = list(s.labels) == list(org.labels)
    ev["info"] = all(k in s.run_info and same(s.run_info[k], v) for k, v in info.items())
    ev["data"] = table_same(org.data, s.data)
    ev["accept"] = abs(float(s.acceptance_fraction) - float(np.mean(acc))) < 1e-12


def disturb(s, rng):
    """numbers with all their digits, outputs in several units, other run information"""
    s.backend.chain *= 1 + 2.0**-40
    s.backend.log_prob *= 1 + 2.0**-40
    s.run_info["extra"] = rng.choice([None, {"a": 1}, 3.25, "text", [1.0, 2.0], True])
    b = s.backend.blobs
    if rng.random() < 0.4 and isinstance(b, np.ndarray) and b.dtype == object and b.ndim == 3:
        other = {u.erg: u.TeV, u.s: u.h, C.B.unit: u.Unit("1/(m2 s GeV)")}
        for st in range(b.shape[0]):
            for w in range(st % 2, b.shape[1], 2):
                for i in range(b.shape[2]):
                    x = b[st, w, i]
                    if isinstance(x, u.Quantity) and x.unit in other:
                        b[st, w, i] = x.to(other[x.unit])


def play(job):
    b, seed = job
    rng = random.Random(seed)
    d = tempfile.mkdtemp(prefix="verif_c19_")
    try:
        runs = b["runs"]
        ss = [C.build(r, rng) for r in runs]
        for s in ss:
            disturb(s, rng)
        was = [stored(s) for s in ss]
        info = [dict(s.run_info) for s in ss]
        acc = [np.array(s.acceptance_fraction) for s in ss]
        evs = [dict(ev="start", runs=runs)]
        ids, origin = {None: 0}, {}
        got = None
        for o in b["h"]:
            good = o["n"] % 9
            p = dict(a="a.h5", b="b.hdf5", c="c.h5")[o["f"]] if good else \
                dict(a="a.txt", b="b", c="c.hdf")[o["f"]]
            fn = os.path.join(d, p)
            fn = pathlib.Path(fn) if o["y"] else fn
            if o["op"] == "save":
                again = bool(o["z"] and got is not None)
                s, r = got if again else (ss[o["r"] - 1], o["r"])
                ev = dict(ev="save", key="save:" + (p if not good else p.split(".")[-1]) +
                          (":again" if again else ""), r=o["r"], p=p, clobber=o["x"], again=again)
                kw = dict(clobber=o["x"]) if o["x"] or o["n"] % 2 else {}
                if o["n"] % 5 == 0:
                    kw["compression"] = False if o["last"] else "gzip"
                with vlib.silence():
                    ev["out"], _ = vlib.outcome(save_run, fn, s, **kw)
                if good and (o["x"] or p not in origin):
                    origin[p] = r
                ev["now"] = digests(d, ids)
                ev["kept"] = all(stored(x) == y and x.run_info == z
                                 for x, y, z in zip(ss, was, info))
            else:
                p = p if good else "a.h5"
                fn = os.path.join(d, p)
                ev = dict(ev="read", key="read", p=p, chain=[], lp=[], exact=False, flat=False, outs=[],
                          units=[], none=[], labels=False, info=False, data=False, accept=False)
                with vlib.silence():
                    ev["out"], s = vlib.outcome(read_run, fn)
                if ev["out"] == "ok":
                    r = origin.get(p, 1)
                    k = r - 1
                    ev["key"] = "read:" + ",".join(runs[k]["lay"])
                    out, _ = vlib.outcome(content, runs[k], s, ss[k], info[k], acc[k], ev)
                    got = (s, r)
                    ev["out"] = out
                ev["now"] = digests(d, ids)
            evs.append(ev)
        return evs
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run(ck):
    c = dict(Paths="{1, 2, 3}", Runs="{1, 2}", L=5, Broken="FALSE")
    ck.model("FilesMC", cfg_text(spec="Spec", constants=c,
                                 properties=["Guarded", "Kept", "OneAtATime"]),
             must_take=["DoSave", "Read"])
    ck.mutant_model("FilesMC", cfg_text(spec="Spec", constants=dict(c, Broken="TRUE"),
                                        properties=["Guarded"]), "Guarded")
    bs = gen(ck, '{"save", "save", "read"}', 9, ck.n(120, 2000), MaxSteps=3, Ws="{6, 8}", NPs="{2, 3, 5, 12}")
    ev = []
    for e in pmap(play, [(b, ck.rng.random()) for b in bs], chunk=2):
        ev += e
    ck.sample(bs[0])
    ck.validate("SaveTrace", ev, traces=len(bs), chunk=200, split_on="start")
