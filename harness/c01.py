"""C01: results of radiative models are a function of the current state."""
import radlib as X
from vlib import Classes, TLCError, cfg_text, outcome, pmap

DCODES = ["default", "kw1", "pos1", "kw1000pc", "kw2", "pos2", "kw2000pc", "kw0",
          "pos0", "kw0kpc"]


def design(ck):
    F = '{"par", "pdpar", "pdid", "dist"}'
    base = dict(Fields=F, Cap=2, CopyOut="TRUE", Nobody="Nobody")
    inv = ["Transparent", "Bounded", "UniqueKeys"]
    ck.model("Memo", cfg_text(spec="Spec", constants=dict(base, KeyFields=F),
                              invariants=inv), must_take=["Set", "Hit", "Miss"])
    # the specification rejects caches whose key forgets a field, and caches
    # that hand out the stored object
    for f in ("par", "pdpar", "pdid", "dist"):
        key = "{" + ", ".join(f'"{x}"' for x in ("par", "pdpar", "pdid", "dist")
                              if x != f) + "}"
        ck.mutant_model("Memo", cfg_text(spec="Spec", invariants=inv,
                                         constants=dict(base, KeyFields=key)),
                        "Transparent")
    ck.mutant_model("Memo", cfg_text(
        spec="Spec", invariants=inv,
        constants=dict(base, KeyFields=F, CopyOut="FALSE")), "Transparent")


class Replayer:
    """Replays an abstract history on real objects, recording what it sees."""

    def __init__(self, ck, seeds=False):
        self.ck = ck
        self.cl = Classes(rtol=1e-11)
        self.fresh_cache = {}
        self.events = []
        self.nt = 0

    def fresh(self, t):
        """value class of a brand new model in that state (the reference)"""
        k = repr(t)
        if k not in self.fresh_cache:
            cls, par, kind, dpar, exp, op, e, d, s = t
            o, v = outcome(lambda: X.evaluate(
                X.make_model(cls, par, X.make_pd(kind, dpar, exp)), cls, op,
                max(e, 1), 1, X.DPHYS[d], s if s != 0 else None))
            self.fresh_cache[k] = self.cl.id(v) if o == "ok" else -1
        return self.fresh_cache[k]

    def replay(self, hist, classes, kinds, key, share=False):
        """classes: class per model; kinds: distribution kind per slot"""
        dists = [dict(kind=k, par=[1] * len(X.PD[k][0]), exp=0) for k in kinds]
        mods = [dict(cls=c, par=[1] * len(X.CLS[c]["par"]),
                     slot=min(i + 1, len(kinds))) for i, c in enumerate(classes)]
        od = [X.make_pd(d["kind"], d["par"]) for d in dists]
        om = [X.make_model(m["cls"], m["par"], od[m["slot"] - 1]) for m in mods]
        ev = self.events
        ev.append(dict(ev="start", key=key,
                       models=[dict(m, par=list(m["par"])) for m in mods],
                       dists=[dict(d, par=list(d["par"])) for d in dists]))
        emitted = set()
        last = None
        for h in hist:
            a = h["a"]
            if a == "set":
                m = mods[(h["m"] - 1) % len(mods)]
                o = om[(h["m"] - 1) % len(mods)]
                if h["p"] > len(m["par"]):
                    continue
                p, v = h["p"], 1 + (h["v"] - 1) % X.nver(m["cls"], h["p"])
                X.CLS[m["cls"]]["par"][p - 1][1](o, v)
                m["par"][p - 1] = v
                ev.append(dict(ev="set", key=key, m=mods.index(m) + 1, p=p, v=v))
            elif a == "setd":
                i = (h["d"] - 1) % len(dists)
                d = dists[i]
                if h["p"] > len(d["par"]):
                    continue
                n = X.set_pd(od[i], d["kind"], h["p"], h["v"])
                d["par"][h["p"] - 1] = h["v"]
                if n == "amplitude":
                    d["exp"] = 0
                ev.append(dict(ev="setamp" if n == "amplitude" else "setd", key=key,
                               d=i + 1, p=h["p"], v=h["v"]))
            elif a == "swap":
                i = (h["m"] - 1) % len(mods)
                j = (h["d"] - 1) % len(dists)
                mods[i]["slot"] = j + 1
                om[i].particle_distribution = od[j]
                ev.append(dict(ev="swap", key=key, m=i + 1, d=j + 1))
            elif a == "scale":
                i = (h["m"] - 1) % len(mods)
                m, d = mods[i], dists[mods[i]["slot"] - 1]
                if m["cls"] == "KEL" or "amplitude" not in [
                        n for n, _ in X.PD[d["kind"]][0]] or abs(d["exp"] + h["k"]) > 3:
                    continue
                W = X.CLS[m["cls"]]["W"]
                o, _ = outcome(lambda: getattr(om[i], "set_" + W)(
                    getattr(om[i], W) * 2.0 ** h["k"]))
                d["exp"] += h["k"]
                ev.append(dict(ev="scale", key=key, m=i + 1, k=h["k"], out=o))
            elif a == "scribble":
                if last is not None and last.ndim:
                    last[...] = last * 3
                    ev.append(dict(ev="scribble", key=key))
            elif a == "eval":
                i = (h["m"] - 1) % len(mods)
                m, d = mods[i], dists[mods[i]["slot"] - 1]
                op, e, dc = h["op"], h["e"], h["d"]
                if op == "Wc" and m["cls"] == "KEL":
                    op = "W"
                spec = op in ("flux", "sed")
                t = [m["cls"], list(m["par"]), d["kind"], list(d["par"]), d["exp"],
                     op, e if spec else 0, X.DOF[dc] if spec else 0, 0]
                r = repr(t)
                if r not in emitted:
                    emitted.add(r)
                    ev.append(dict(ev="fresh", key=key, t=t, c=self.fresh(t)))
                o, v = outcome(lambda: X.evaluate(om[i], m["cls"], op, e, h["f"], dc))
                c = self.cl.id(v) if o == "ok" else -1
                if o == "ok":
                    last = v
                ev.append(dict(ev="eval", key=f"{m['cls']}/{d['kind']}/{op}/{dc}",
                               m=i + 1, op=op, e=e, d=dc, s=0, out=o, c=c))
        self.nt += 1


FULL = {("SYN", "PL"), ("IC", "ECPL"), ("BREM", "PL"), ("PP", "TAB1"),
        ("ICBIG", "PL"), ("KEL", "FUN1")}
SOME = ["PL", "FUN1", "TAB1", "STEEP"]
KINDS = list(X.PD)
OTHER = {k: KINDS[(i + 1) % len(KINDS)] for i, k in enumerate(KINDS)}
OTHER.update(PL="STEEP", TAB1="TAB2", FUN1="FUN2", DUCK="PL")


def pair_histories(gen, cls, kind, thorough):
    """evaluate / change one thing / evaluate / undo / evaluate"""
    slow = cls in ("PP", "KEL")
    full = (cls, kind) in FULL
    for e0, ch in gen:
        base = (e0["op"], e0["e"], e0["d"]) == ("flux", 1, "default")
        if not (base or thorough or (full and not slow)):
            continue
        if cls == "KEL" and e0["op"] == "sed":
            continue
        if ch["a"] == "eval":
            if not full:
                continue
            hist = [e0, ch, e0]
        elif ch["a"] == "set":
            if ch["p"] > len(X.CLS[cls]["par"]) or ch["v"] > X.nver(cls, ch["p"]):
                continue
            if X.CLS[cls]["par"][ch["p"] - 1][0] == "xsec" and full and base:
                # every switch of cross sections, also from a fresh model
                for v in range(1, X.nver(cls, ch["p"]) + 1):
                    if v != ch["v"]:
                        yield [dict(ch, v=v), dict(e0), dict(ch), dict(e0)]
            if ch["v"] == 1:
                continue
            hist = [e0, ch, e0, dict(ch, v=1), e0]
            if X.CLS[cls]["par"][ch["p"] - 1][0] == "xsec":
                hist = [dict(ch, v=ch["v"] - 1), e0, ch, e0]
        elif ch["a"] == "setd":
            if ch["p"] > len(X.PD[kind][0]) or ch["v"] > 3 or ch["d"] != 1 \
                    or ch["v"] == 1:
                continue
            hist = [e0, ch, e0, dict(ch, v=1), e0]
        elif ch["a"] == "swap":
            hist = [e0, ch, e0, dict(ch, d=1), e0]
        elif ch["a"] == "scale":
            hist = [e0, ch, e0, dict(ch, k=-ch["k"]), e0]
        else:
            hist = [e0, ch, e0]
        yield [dict(x) for x in hist]


def work(unit):
    """one unit of replay: list of (history, classes, kinds, key)"""
    rp = Replayer(None)
    for h, c, k, key in unit:
        rp.replay(h, c, k, key)
    return rp.events, rp.nt, rp.cl.n


def run(ck):
    design(ck)
    units = []
    # (1) systematic: evaluate, change one thing, evaluate, undo, evaluate
    gen = ck.enumerate("RadGen", cfg_text(
        spec="PairSpec", invariants=["Emit"],
        constants=dict(NM=1, ND=2, NP=6, NQ=7, NV=5, NE=2, NForm=1, L=2,
                       Ops='{"flux", "sed"}',
                       Dists='{"default", "kw2", "pos0"}')))
    n = 0
    for cls in X.CLS:
        ks = KINDS
        if cls in ("ICBIG", "KEL") or (cls == "PP" and not ck.thorough):
            ks = SOME
        for kind in ks:
            hs = list(pair_histories(gen, cls, kind, ck.thorough))
            n += len(hs)
            step = 12 if cls in ("PP", "KEL") else 60
            for i in range(0, len(hs), step):
                units.append([(h, [cls], [kind, OTHER[kind]], f"pair/{cls}/{kind}")
                              for h in hs[i:i + step]])
    # colliding concatenations: two parameters changed together
    ev = dict(a="eval", m=1, op="flux", e=1, d="default", f=1)
    for cls in ("SYN", "PP"):
        units.append([([ev, dict(a="setd", d=1, p=3, v=2),
                        dict(a="setd", d=1, p=4, v=3), ev], [cls], ["LP", "PL"],
                       f"collide/{cls}")])
    # (2) random long histories over two models sharing distributions, beyond
    # the capacity of any result cache
    L = ck.n(60, 120)
    num = ck.n(24, 150)
    ops = '{"flux", "sed", "W", "Wc"}'
    ds = '{' + ", ".join(f'"{d}"' for d in DCODES) + '}'
    long1 = ck.simulate("RadGen", cfg_text(
        spec="Spec", invariants=["Emit"],
        constants=dict(NM=2, ND=2, NP=6, NQ=5, NV=3, NE=2, NForm=5, L=L, Ops=ops,
                       Dists=ds)), num, L + 2)
    long2 = ck.simulate("RadGen", cfg_text(
        spec="Spec", invariants=["Emit"],
        constants=dict(NM=1, ND=1, NP=1, NQ=1, NV=2, NE=3, NForm=2, L=L,
                       Ops='{"flux", "sed"}', Dists='{"default", "kw2", "pos0"}')),
        ck.n(12, 40), L + 2, seed=ck.seed + 77)
    fast = ["SYN", "IC", "BREM", "PP"]
    for i, h in enumerate(long1):
        c = [ck.rng.choice(fast), ck.rng.choice(fast)]
        if i % 8 == 7:
            c[1] = "KEL"
        k = [ck.rng.choice(KINDS), ck.rng.choice(KINDS)]
        units.append([(h, c, k, f"long/{c[0]}+{c[1]}/{k[0]}+{k[1]}")])
    for i, h in enumerate(long2):
        units.append([(h, [fast[i % 4]], [ck.rng.choice(KINDS)],
                       f"evict/{fast[i % 4]}")])
    # two instances of the process that shares class-level state
    h = [dict(a="eval", m=1, op="flux", e=1, d="default", f=1),
         dict(a="eval", m=2, op="flux", e=1, d="default", f=1),
         dict(a="eval", m=1, op="W", e=1, d="default", f=1),
         dict(a="eval", m=2, op="sed", e=1, d="default", f=1)]
    for a, b in (("FUN1", "FUN2"), ("TAB1", "TAB2"), ("PL", "STEEP"), ("DUCK", "PL")):
        units.append([(h, ["KEL", "KEL"], [a, b], f"two/KEL/{a}+{b}")])
    # slow units first
    cost = {"PP": 20, "KEL": 20}
    units.sort(key=lambda t: -sum(len(h) * sum(cost.get(c, 1) for c in cs)
                                  for h, cs, _, _ in t))
    res = pmap(work, units)
    events = [e for ev, _, _ in res for e in ev]
    nt = sum(r[1] for r in res)
    ck.sample(events[:6])
    ck.sample(events[-40:-34])
    ck.validate("RadTrace", events, traces=nt, chunk=2500, split_on="start")
    if any(b["clause"] == "no_reference" for b in ck.bad):
        raise TLCError("trace lacks a reference value: driver/spec disagree")
    ck.notes["value_classes"] = sum(r[2] for r in res)
    ck.notes["pair_histories"] = n
    ck.assumptions += [
        "values equal to 1e-11 relative are the same result",
        "the reference for a state is a freshly built object in that state"]
