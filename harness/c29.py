"""C29: saved diagnostic plots are complete, each shows its own part of the run."""
import glob
import logging
import os
import re
import shutil
import tempfile

import numpy as np

import c22
import chainlib as C
import vlib
from c21 import geometry, stored
from vlib import cfg_text, pmap

nm = C.nm
logging.getLogger().setLevel(logging.CRITICAL)
import matplotlib.figure  # noqa: E402
import matplotlib.pyplot as plt  # noqa: E402
from astropy import units as u  # noqa: E402
from naima.analysis import save_diagnostic_plots  # noqa: E402


def asc(x):
    return str(x).encode("ascii", "backslashreplace").decode()


def size(path):
    """width of an image"""
    with open(path, "rb") as f:
        b = f.read(24)
    return int.from_bytes(b[16:20], "big")


def labelled(run, s, o):
    """parameters may be called the same, or have a name that is no file name"""
    k = [i for i, x in enumerate(run["lab"]) if x == "plain"]
    was = list(s.labels)
    if o["dup"] == 1 and len(k) > 1:
        s.labels[k[1]] = s.labels[k[0]]
    elif o["dup"] == 2 and k:
        s.labels[k[0]] = "E/TeV"
    elif o["dup"] == 3 and k and len(k) < len(was):
        j = [i for i in range(len(was)) if i not in k][0]
        s.labels[k[0]] = C.inner(was[j])
    return was


class Recorder:
    """what is drawn in every figure that is saved"""

    def __init__(self, run, s, o, where):
        self.run, self.s, self.o, self.where = run, s, o, where
        self.pages = []

    def page(self, f, target):
        r, o = self.run, self.o
        un = C.units_of(r)
        path = target if isinstance(target, str) else getattr(
            getattr(target, "_filename", None), "name", getattr(target, "_filename", "?"))
        if path == "?" or not isinstance(path, str):
            path = getattr(getattr(getattr(target, "_file", None), "fh", None), "name", "?")
        path = os.path.relpath(str(path), self.where)
        m = re.search(r"(\d+)\.png$", path)
        g = dict(kind="?", path=asc(path), prefix=asc(path[:len(o["name"]) + 1]),
                 num=-1, label="", med=0, lo=0, hi=0, count=0, cols=[], dpi=0,
                 reads=[])
        med, lo, hi, _, ax = geometry(f)
        n = len(r["lab"])
        others = [a for a in f.axes if a is not ax]
        if len(f.axes) == n * n and n > 1:
            g["kind"] = "corner"
            for p in range(n):
                a = f.axes[p * (n + 1)]
                x = sorted({float(np.asarray(li.get_xdata(), float)[0]) for li in a.lines
                            if len(np.unique(np.asarray(li.get_xdata(), float))) == 1})
                g["cols"].append(sorted({vlib.snap(v / un[p], 0.01, 1e-6) for v in x}))
                c = 0
                for q in a.patches:
                    v = q.get_path().vertices
                    x, y = v[:, 0], v[:, 1]
                    # heights of the steps
                    c = max(c, sum(b for b, d in zip(y[1:], np.diff(x)) if d > 0))
                g["count"] = int(round(c)) if p == 0 or g["count"] == int(round(c)) else -1
        elif ax is not None and others and any(a.lines for a in others):
            g["kind"] = "chain"
            g["cols"] = None
        elif ax is not None:
            g["kind"] = "dist"
            g["label"] = asc(ax.get_title())
            g.update(med=vlib.snap(med, 0.01, 1e-6), lo=vlib.snap(lo, 0.01, 1e-6),
                     hi=vlib.snap(hi, 0.01, 1e-6))
        else:
            g["kind"] = "fit"
        if g["kind"] == "chain":
            # the parameter whose values these are, if any
            tr = [np.asarray(li.get_ydata(), float) for a in others for li in a.lines]
            best = None
            for p in range(n):
                cols = [C.onlat(t, un[p]) for t in tr]
                want = [[st[w][p] for st in r["ch"]] for w in range(len(r["ch"][0]))]
                if sorted(map(tuple, cols)) == sorted(map(tuple, want)):
                    lab = ax.get_xlabel()
                    if best is None or lab == self.s.labels[p]:
                        best = p
            p = best if best is not None else 0
            g["cols"] = [C.onlat(t, un[p]) for t in tr]
            g.update(med=vlib.snap(med / un[p], 0.01, 1e-6), lo=vlib.snap(lo / un[p], 0.01, 1e-6),
                     hi=vlib.snap(hi / un[p], 0.01, 1e-6), label=asc(ax.get_xlabel()))
        if g["kind"] == "fit":
            g["label"] = asc(f.axes[0].get_title() or "".join(
                t.get_text() for t in f.axes[0].texts))
            # read as each of the outputs it may be of
            g["reads"] = []
            for k, i in enumerate(self.asked()):
                kind = r["lay"][i]
                if kind not in c22.KINDS:
                    continue
                e = dict(bands=[], ene=[], ml=[], count=0, curves=[])
                c22.drawn(f.axes[0], kind, self.sed()[k], self.unit(f), e)
                g["count"] = e["count"]
                if vlib.OFF not in e["ml"] and self.ok(e["ml"], kind):
                    g["reads"].append(dict(i=i, cols=[e["ml"], *e["curves"]]))
        if m and g["kind"] in ("fit", "dist"):
            g["num"] = int(m.group(1))
        return g

    def ok(self, ml, kind):
        return len(ml) == (4 if kind in ("arr", "arrsed") else 3)

    def unit(self, f):
        m = re.search(r"\[\$?\\?(?:mathrm\{)?(\w+)", f.axes[-1].get_xlabel())
        return u.Unit(m.group(1)) if m else u.eV

    def asked(self):
        return list(range(len(self.run["lay"]))) if self.o["all"] else self.o["idx"]

    def sed(self):
        return self.o["sed"] or [True] * 9

    def __enter__(self):
        self.real = matplotlib.figure.Figure.savefig
        me = self

        def savefig(fig, fname, *a, **k):
            g = me.page(fig, fname)
            w = fig.get_figwidth()
            r = me.real(fig, fname, *a, **k)
            me.pages.append(g)
            if isinstance(fname, str):
                g["dpi"] = int(round(size(fname) / w))
            return r
        matplotlib.figure.Figure.savefig = savefig
        return self

    def __exit__(self, *a):
        matplotlib.figure.Figure.savefig = self.real


def seen(d):
    return {os.path.relpath(p, d): os.stat(p).st_mtime_ns for p in glob.glob(d + "/**", recursive=True)
            if os.path.isfile(p)}


def save(o, run, s, where):
    kw = dict(last_step=o["last"], pdf=o["pdf"], dpi=o["dpi"])
    if not o["all"]:
        kw["modelidxs"] = dict(list=list, tuple=tuple, array=np.array, iter=iter)[o["how"]](
            [int(x) for x in o["idx"]])
    if o["labels"]:
        kw["blob_labels"] = o["labels"][0] if o["str"] else list(o["labels"])
    if o["sed"]:
        kw["sed"] = list(o["sed"])
    was = labelled(run, s, o)
    ev = dict(ev="save", o=dict(o, dup=0), key=f"save:{'pdf' if o['pdf'] else 'png'}:{o['how']}:{o['dup']}")
    before = seen(where)
    for p in before:
        os.utime(os.path.join(where, p), ns=(1, 1))
    keep = stored(s)
    with Recorder(run, s, o, where) as rec:
        ev["out"], _ = vlib.outcome(save_diagnostic_plots, os.path.join(where, o["name"]), s, **kw)
    now = seen(where)
    ev["kept"] = stored(s) == keep
    s.labels[:] = was
    ev["pages"] = rec.pages
    ev["files"] = sorted(map(asc, now))
    ev["written"] = sorted(asc(p) for p, t in now.items() if t != 1)
    ev["left"] = len(plt.get_fignums())
    ev["sheets"] = 0
    p = os.path.join(where, o["name"] + "_plots.pdf")
    if o["pdf"] and os.path.exists(p):
        ev["sheets"] = len(re.findall(rb"/Type /Page\b", open(p, "rb").read()))
    plt.close("all")
    return ev


def play(job):
    b, seed = job
    import random
    rng = random.Random(seed)
    ss = [C.build(r, rng) for r in b["runs"]]
    evs = [dict(ev="start", runs=b["runs"], key="start")]
    where = tempfile.mkdtemp(prefix="c29_")
    try:
        for o in b["h"]:
            np.random.seed(rng.randrange(1 << 30))
            evs.append(save(o, b["runs"][o["r"] - 1], ss[o["r"] - 1], where))
    finally:
        shutil.rmtree(where)
    return evs


def run(ck):
    bs = ck.simulate("DiagGen", cfg_text(spec="Spec", invariants=["Emit", "Complete"], constants=dict(
        L=3, Kinds1='{"arr", "arrsed"}',
        KindsN='{"arr", "arrsed", "pair", "pairl", "lum", "qs", "fl", "npf", "int", "text", "tri", "qpair"}')),
        ck.n(40, 500), 8)
    ev = []
    for e in pmap(play, [(b, ck.rng.random()) for b in bs], chunk=1):
        ev += e
    ck.sample(bs[0])
    ck.validate("DiagTrace", ev, traces=len(bs), chunk=60, split_on="start")
