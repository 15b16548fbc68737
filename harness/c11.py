"""C11: concatenating spectra keeps every point, its errors, limits and origin."""
import datalib as D
from vlib import cfg_text, pmap


def run(ck):
    ck.model("DataGen", cfg_text(spec="Spec", invariants=D.INV, constants=dict(
        D.SMALL, MaxTabs=2, Dev=1, UlRows="{{1}}", Grps="{5}",
        KSets=ck.n("{<<2, 0>>, <<1>>}", D.SMALL["KSets"]))), must_take=["AddTable", "Deviate"])
    gen = []
    good = dict(D.GENC, WrS='{"none"}', FEr='{"sym", "asym", "both"}',
                UlS='Uls \\ {"badstr", "float"}', ClS='Cls \\ {"string", "array"}')
    cfgs = [dict(good, FpS='{"dflux", "flux"}', MaxTabs=4, Dev=3),
            dict(good, FpS='{"dflux", "flux"}', MaxTabs=3, Dev=5),
            dict(good, FpS='{"dpower", "power", "dflux"}', MaxTabs=3, Dev=2),
            dict(D.GENC, MaxTabs=3, Dev=1)]
    for i, c in enumerate(cfgs):
        gen += ck.simulate("DataGen", cfg_text(spec="Spec", invariants=["Emit"],
                                               constants=c), ck.n(350, 4000), 40,
                           seed=ck.seed * 10 + i)
    # luminosity tables: first table with a power type, to be kept as such
    items = []
    for b in gen:
        ts = b["ts"]
        if len(ts) < 2 and ck.rng.random() < 0.7:
            continue
        if ck.rng.random() < 0.25:      # whole list in luminosities
            for t in ts:
                t["fpt"] = {"dflux": "dpower", "flux": "power"}.get(t["fpt"], t["fpt"])
        tabs = [D.build(t, ck.rng) for t in ts]
        arg = tuple(tabs) if ck.rng.random() < 0.2 else tabs
        key = "+".join(t["fpt"] for t in ts) + "/" + b["sed"]
        items.append((ts, b["sed"], arg, key))
    events = pmap(lambda a: D.record(*a), items, chunk=20)
    ck.sample(events[0])
    ok = sum(e["out"] == "ok" for e in events)
    ck.notes["accepted"], ck.notes["rejected"] = ok, len(events) - ok
    ck.validate("DataTrace", events, traces=len(events), chunk=300)
