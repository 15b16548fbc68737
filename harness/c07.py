"""C07: tabulated models reproduce their table and vanish outside it."""
import numpy as np

import vlib
from c06 import AU, EU, micro
from vlib import cfg_text, outcome, snap

nm = vlib.load_naima()
from astropy import units as u  # noqa: E402
from astropy.table import QTable  # noqa: E402
from naima import models as M  # noqa: E402


def replay(args):
    hist, base, aui, A, order, plain, rng = args
    ev, o = [], None
    au = AU[aui]

    def en(ks, un):
        return u.Quantity([base * 2.0 ** (k / 16) for k in ks] * u.TeV).to(
            EU[(un - 1) % len(EU)])

    for h in hist:
        if h["a"] == "new":
            tab = h["tab"]
            tu = h["u"]
            idx = list(range(len(tab)))
            if order == "rev":
                idx = idx[::-1]
            elif order == "shuf":
                rng.shuffle(idx)
            E = en([tab[i][0] for i in idx], tu)
            V = np.array([A * 2.0 ** (tab[i][1] / 16) for i in idx])
            if not plain:
                V = V * au
            a = 2.0 ** h["amp"]
            kE, kV = E.copy(), V.copy()
            if h["amp"] == 0 and order == "asc":
                out, o = outcome(lambda: M.TableModel(E, V))
            else:
                out, o = outcome(lambda: M.TableModel(E, V, amplitude=a))
            ev.append(dict(ev="new", key="new/" + order, tab=tab, amp=h["amp"],
                           out=out))
            if out != "ok":
                return ev
        elif h["a"] == "setamp":
            o.amplitude = 2.0 ** h["amp"]
            ev.append(dict(ev="setamp", key="setamp", amp=h["amp"]))
        else:
            ks, f = list(h["ks"]), h["f"]
            un = h["u"]
            edge = {min(t[0] for t in tab), max(t[0] for t in tab)}
            if un != tu:
                # converting units may round an edge to just outside
                ks = [k for k in ks if k not in edge]
            if f == 1:
                ks = ks[:1]
            if f == 5:
                ks = sorted(set(ks), reverse=True)
            if not ks:
                continue
            e = en(ks, un)
            if f == 1:
                e = e[0]
            arg = e
            if f == 3:
                arg = {"energy": e}
            elif f == 4:
                arg = QTable()
                arg["energy"] = e
            out, v = outcome(lambda: o(arg))
            d = dict(ev="eval", key=f"form{f}/{'plain' if plain else 'unit'}", ks=ks,
                     out=out)
            if out == "ok":
                d.update(uval=vlib.ustr(u.Unit("") if plain else au),
                         uout=vlib.ustr(v),
                         shape=list(np.shape(v)), eshape=list(np.shape(e)))
                d["lnv"] = [micro(x) for x in np.atleast_1d(getattr(v, "value", v)) / A]
            ev.append(d)
    return ev


def run(ck):
    c = dict(MinN=4, MaxN=9, Steps="{3, 8, 16, 16, 31, 48}", Vals="-160..160",
             Slopes="{-40, -32, -29, -8, 0, 16}", Amps="-4..4", Qs="-20..330", L=9,
             NUnit=6, NForm=5)
    hists = ck.simulate("TabGen", cfg_text(spec="Spec", constants=c,
                                           invariants=["Emit"]),
                        ck.n(400, 5000), 40)
    jobs = []
    for h in hists:
        jobs.append((h, ck.rng.choice([1.0, 0.37, 1e-6]),
                     ck.rng.randrange(len(AU)), ck.rng.choice([1.0, 3e36, 2e-12]),
                     ck.rng.choice(["asc", "asc", "rev", "shuf"]),
                     ck.rng.random() < 0.2, ck.rng))
    events = []
    for j in jobs:
        events += replay(j)
    ck.sample(events[:4])
    ck.validate("TabTrace", events, traces=len(jobs), chunk=1200, split_on="new")
    ck.assumptions += ["values compared to 1.2e-5 relative",
                       "table edges are queried in the table's own energy unit"]
