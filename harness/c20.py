"""C20: the results table summarises exactly the requested samples."""
import hashlib
import math
import os
import shutil
import tempfile

import numpy as np

import chainlib as C
import vlib
from c21 import DESIGN, gen, stored
from vlib import cfg_text, pmap

nm = C.nm
from astropy.table import Table  # noqa: E402
from naima.analysis import read_run, save_results_table, save_run  # noqa: E402

FORMATS = ["ascii.ecsv", "ascii.ipac", "ascii.csv", "ascii.basic"]


def text(x):
    return x.decode() if isinstance(x, bytes) else str(x)


def plain(x):
    return x.encode("ascii", "xmlcharrefreplace").decode().strip()


def rows(t, run, labels):
    """rows on the lattice; the placeholder after the outputs of some models is left out"""
    kinds = dict(zip([x.strip() for x in labels], run["lab"]))
    r = []
    for x in t:
        name = text(x["label"]).strip()
        v = []
        for c in ("median", "unc_lo", "unc_hi"):
            y = x[c]
            if y is np.ma.masked:
                y = math.nan
            un = math.log(2) if kinds.get(name) == "log" else 1.0
            v.append(vlib.snap(float(y) / un, 0.01, 1e-6))
        if name == "blob%d" % len(run["lay"]) and v == [vlib.NAN] * 3:
            continue
        r.append(dict(n=plain(name), r=v))
    return r


def same(a, b):
    if isinstance(b, (list, tuple, np.ndarray)):
        try:
            return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
        except TypeError:
            return False
    try:
        return bool(a == b) or abs(float(a) - float(b)) < 1e-9 * abs(float(b))
    except (TypeError, ValueError):
        return str(a) == str(b)


def meta_of(t, fmt):
    if fmt == "ascii.ipac":
        return {k: v["value"] for k, v in t.meta.get("keywords", {}).items()}
    return dict(t.meta)


def digest(p):
    return hashlib.sha1(open(p, "rb").read()).hexdigest() if os.path.exists(p) else None


def call(o, run, s, ev, d, info, reads):
    fmt = FORMATS[o["n"] % 4]
    ext = "ecsv" if fmt == "ascii.ecsv" else "dat"
    path = os.path.join(d, o["f"])
    was = {f: digest(os.path.join(d, f)) for f in os.listdir(d) if "_results." in f}
    if o["n"] % 3 == 0:
        if o["r"] not in reads:
            fn = os.path.join(d, "run%d.h5" % o["r"])
            save_run(fn, s)
            reads[o["r"]] = read_run(fn)
        s = reads[o["r"]]
    name = f"{o['f']}.{ext}"
    ev.update(ev="table", key=f"table:{fmt}" + (":read" if o["n"] % 3 == 0 else ""), f=name,
              conv=o["x"], blobs=o["y"], over=o["z"], rows=[], frows=[], nsamp=0, mlpars=[], ml=0,
              bic=0, info=True, units=[], fmeta=True, fmt="other" if fmt in FORMATS[2:] else fmt)
    kw = dict(format=fmt, convert_log=o["x"], last_step=o["last"], include_blobs=o["y"])
    if o["z"] or o["n"] % 5:
        kw["overwrite"] = o["z"]
    out, t = vlib.outcome(save_results_table, path, s, **kw)
    ev["out"] = out
    fn = f"{path}_results.{ext}"
    new = {f: digest(os.path.join(d, f)) for f in os.listdir(d) if "_results." in f}
    base = os.path.basename(fn)
    ev["others"] = {k: v for k, v in was.items() if k != base} == \
        {k: v for k, v in new.items() if k != base}
    ev["now"] = new.get(base)
    if out != "ok":
        return
    labels = list(s.labels)
    ev["rows"] = rows(t, run, labels)
    m = meta_of(t, fmt)
    ev["nsamp"] = vlib.snap(m.get("n_samples", math.nan))
    un = C.units_of(run)
    try:
        ev["mlpars"] = [C.onlat(a, b) for a, b in zip(m["ML_pars"], un)]
        ml = float(m["MaxLogLikelihood"])
        ev["ml"] = C.MINF if np.isneginf(ml) else vlib.snap(ml)
        ev["bic"] = len(un) if np.isneginf(ml) and float(m["BIC"]) == math.inf else \
            vlib.snap((float(m["BIC"]) + 2 * ml) / math.log(4))
    except KeyError:
        pass
    ev["info"] = all(k in m and same(m[k], v) for k, v in info.items())
    ev["units"] = [k[:-5] for k, v in m.items() if k.endswith("_unit") and v == "erg"]
    out, ft = vlib.outcome(Table.read, fn, format=fmt)
    if out == "ok":
        ev["frows"] = rows(ft, run, labels)
        fm = meta_of(ft, fmt)
        ev["fmeta"] = all(
            k in fm and (same(fm[k], m[k]) or (fmt == "ascii.ipac" and str(m[k]) == str(fm[k])))
            for k in ("n_samples", "MaxLogLikelihood", "BIC", "ML_pars", *info)
            if not (fmt == "ascii.ipac" and isinstance(m[k], (list, tuple, np.ndarray))))


def play(job):
    b, seed = job
    import random
    rng = random.Random(seed)
    d = tempfile.mkdtemp(prefix="verif_c20_")
    try:
        runs = b["runs"]
        ss = [C.build(r, rng) for r in runs]
        was = [stored(s) for s in ss]
        info = [dict(s.run_info) for s in ss]
        evs = [dict(ev="start", runs=runs, names=[[dict(n=plain(x), i=C.inner(x) if k != "plain" else "")
                                                for x, k in zip(s.labels, r["lab"])]
                                               for s, r in zip(ss, runs)])]
        reads, ids = {}, {None: 0}
        for o in b["h"]:
            r, s = runs[o["r"] - 1], ss[o["r"] - 1]
            ev = dict(r=o["r"], last=o["last"])
            with vlib.silence():
                call(o, r, s, ev, d, info[o["r"] - 1], reads)
            ev["now"] = ids.setdefault(ev["now"], len(ids))
            ev["kept"] = all(stored(x) == y and x.run_info == z
                             for x, y, z in zip(ss, was, info))
            evs.append(ev)
        return evs
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run(ck):
    ck.model("ChainGen", cfg_text(spec="Spec", constants=dict(DESIGN, V="0..3", LPs="{0}"),
                                  invariants=["Percentiles"]), must_take=["Make", "Scan"])
    bs = gen(ck, '{"table"}', 8, ck.n(150, 2500), NPs="{2, 3, 3, 4, 11}")
    ev = []
    for e in pmap(play, [(b, ck.rng.random()) for b in bs], chunk=2):
        ev += e
    ck.sample(bs[0])
    ck.validate("TableTrace", ev, traces=len(bs), chunk=300, split_on="start")
