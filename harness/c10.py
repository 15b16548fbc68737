"""C10: data tables are accepted or rejected and canonicalised as documented."""
import random

import datalib as D
from vlib import cfg_text, pmap


def run(ck):
    ck.model("DataGen", cfg_text(spec="Spec", invariants=D.INV, constants=dict(
        D.SMALL, MaxTabs=1, Dev=3)), must_take=["AddTable", "Deviate"])
    # every combination of up to two deviating columns of one table ...
    g1 = ck.enumerate("DataGen", cfg_text(spec="Spec", invariants=["Emit"],
        constants=dict(D.GENC, Generate="FALSE",
                       UlRows=ck.n("{{1, 3}}", "SUBSET {1, 2, 3}"), Grps=ck.n("{0, 5}", "{0, 1, 5}"),
                       KSets="{<<2, 0, 3>>}", FVals="{4}",
                       MaxTabs=1, Dev=2)), tag="B ")
    # ... and random ones with many
    g2 = []
    for i, dev in enumerate((2, 3, 5)):
        g2 += ck.simulate("DataGen", cfg_text(spec="Spec", invariants=["Emit"],
            constants=dict(D.GENC, MaxTabs=1, Dev=dev)), ck.n(500, 6000), 30,
            seed=ck.seed * 10 + i)
    gen = [b for b in g1 + g2 if b["ts"]]

    def one(ib):
        i, b = ib
        rng = random.Random(ck.seed * 1000003 + i)
        events = []
        ts = b["ts"]
        t = ts[0]
        tab = D.build(t, rng)
        arg = tab if rng.random() < 0.7 else [tab]
        dv = "+".join(f"{k}={t[k]}" for k in ("wrong", "ferr", "ul", "cl", "ebin")
                      if t[k] not in ("none", "sym"))
        events.append(D.record(ts, b["sed"], arg, "validate/" + dv))
        if (t["wrong"] == "none" and not t["flul"] and not t["grp"]
                and t["cl"] in ("none", "cl95", "cl50", "string", "array")
                and t["ul"] in ("none", "int", "bool")
                and t["ebin"] in ("none", "width", "edges", "only_energy_hi")):
            kw = D.build_args(t, rng)
            out, tab = D.attempt(lambda: D.build_data_table(**kw))
            if out == "ok":
                events.append(D.record(ts, b["sed"], tab, "build/" + dv))
            else:
                events.append(dict(ev="validate", key="build/" + dv, ts=ts,
                                   sed=b["sed"], out=out))
        return events

    events = sum(pmap(one, enumerate(gen), chunk=50), [])
    ck.sample(events[0])
    ck.sample(events[-1])
    ok = sum(e["out"] == "ok" for e in events)
    ck.notes["accepted"], ck.notes["rejected"] = ok, len(events) - ok
    ck.validate("DataTrace", events, traces=len(events), chunk=400)
