"""Concrete data tables behind the abstract tables of spec/DataTab.tla."""
import math

import numpy as np

import vlib
from vlib import OFF, outcome, snap

nm = vlib.load_naima()
from astropy import units as u  # noqa: E402
from astropy.table import Column, QTable, Table  # noqa: E402
from naima.utils import build_data_table, validate_data_table  # noqa: E402

EN = [u.TeV, u.GeV, u.eV, u.erg, u.keV]
F0 = {False: 1e-12 / u.cm**2 / u.s / u.TeV, True: 1e30 / u.s / u.TeV}
FU = {"dflux": ["1/(cm2 s TeV)", "1/(m2 s GeV)", "1/(cm2 s erg)", "1/(cm2 h eV)"],
      "flux": ["erg/(cm2 s)", "TeV/(cm2 s)", "W/m2", "keV/(m2 s)"],
      "dpower": ["1/(s TeV)", "1/(s erg)", "1/(h eV)"],
      "power": ["erg/s", "W", "TeV/s"]}
SUB = 2.0**-8 * u.TeV


def E(k):
    return 4.0**k * u.TeV


def flux_col(t, rows, name, rng):
    lum = t["fpt"] in ("power", "dpower")
    sed = t["fpt"] in ("power", "flux")
    q = u.Quantity([r[name] * F0[lum] * (E(r["k"]) ** 2 if sed else 1) for r in rows])
    return q.to(rng.choice(FU[t["fpt"]]))


def ul_col(t, rows):
    b = [bool(r["ul"]) for r in rows]
    k = t["ul"]
    if k == "int":
        return np.array(b, dtype=int)
    if k == "int32":
        return np.array(b, dtype=np.int32)
    if k == "uint8":
        return np.array(b, dtype=np.uint8)
    if k == "bool":
        return np.array(b)
    if k == "str":
        return np.array([str(x) for x in b])
    if k == "badstr":
        s = [str(x) for x in b]
        s[-1] = "yes"
        return np.array(s)
    if k == "float":
        return np.array(b, dtype=float)
    raise KeyError(k)


def build(t, rng, cls=None, perm=True):
    """astropy table for abstract table t (rows possibly permuted)"""
    rows = list(t["rows"])
    if perm and rng.random() < 0.5:
        rng.shuffle(rows)
    w = t["wrong"]
    cols = {}
    e = u.Quantity([E(r["k"]) for r in rows]).to(rng.choice(EN))
    if w == "energy":
        e = e.value * rng.choice([u.m, u.Hz, u.s, u.TeV / u.cm])
    elif w == "unitless_energy":
        e = e.value
    if w != "missing_energy":
        cols["energy"] = e
    f = flux_col(t, rows, "f", rng)
    if w == "flux":
        f = f.value * rng.choice([u.m, u.Unit("1/(cm2 s)"), u.erg, u.Unit("1/TeV")])
    elif w == "unitless_flux":
        f = f.value
    if w != "missing_flux":
        cols["flux"] = f
    lo, hi = flux_col(t, rows, "lo", rng), flux_col(t, rows, "hi", rng)
    if w == "ferr":
        bu = rng.choice([u.m, u.Unit("1/(cm2 s)"), u.Unit("")])
        if rng.random() < 0.5:
            lo = lo.value * bu
        else:
            hi = hi.value * bu
        if t["ferr"] in ("sym", "both"):
            lo = lo.value * bu
    if t["ferr"] in ("sym", "both"):
        cols["flux_error"] = lo
    if t["ferr"] in ("asym", "both", "only_lo"):
        cols["flux_error_lo"] = lo if t["ferr"] != "both" else hi
    if t["ferr"] in ("asym", "both", "only_hi"):
        cols["flux_error_hi"] = hi
    ek = u.Quantity([E(r["k"]) for r in rows])
    a = u.Quantity([r["a"] * SUB for r in rows])
    b = u.Quantity([r["b"] * SUB for r in rows])
    x = {"none": {}, "width": dict(energy_width=a), "error": dict(energy_error=a),
         "errors": dict(energy_error_lo=a, energy_error_hi=b),
         "edges": dict(energy_lo=ek - a, energy_hi=ek + b),
         "only_error_lo": dict(energy_error_lo=a),
         "only_energy_hi": dict(energy_hi=ek + b)}[t["ebin"]]
    for i, n in enumerate(x):
        q = x[n].to(rng.choice(EN))
        if w == "ebin" and i == len(x) - 1:
            q = q.value * rng.choice([u.m, u.Unit(""), u.Hz])
        cols[n] = q
    if t["ul"] != "none":
        cols["ul"] = ul_col(t, rows)
    if t["flul"]:
        cols["flux_ul"] = flux_col(t, rows, "fu", rng)
    if t["grp"]:
        cols["group"] = np.array([r["g"] for r in rows], dtype=int)
    if t["cl"] == "col":
        cols["cl"] = np.array([r["c"] / 1000 for r in rows])
    cls = cls or rng.choice([Table, QTable])
    tab = cls()
    names = list(cols)
    if rng.random() < 0.4:
        rng.shuffle(names)
    for n in names:
        c = cols[n]
        if isinstance(c, u.Quantity) and cls is Table:
            tab[n] = Column(c.value, unit=c.unit)
        else:
            tab[n] = c
    k = t["cl"]
    if k == "other":
        tab.meta["keywords"] = {"name": {"value": "x"}}
    elif k in ("cl95", "cl50", "string", "array"):
        tab.meta["keywords"] = {"cl": {"value": dict(
            cl95=0.95, cl50=0.5, string="test", array=np.array([0.9, 0.9]))[k]}}
    return tab


def build_args(t, rng):
    """the same table through build_data_table"""
    rows = list(t["rows"])
    if rng.random() < 0.5:
        rng.shuffle(rows)
    ek = u.Quantity([E(r["k"]) for r in rows])
    a = u.Quantity([r["a"] * SUB for r in rows])
    b = u.Quantity([r["b"] * SUB for r in rows])
    kw = dict(energy=ek.to(rng.choice(EN)), flux=flux_col(t, rows, "f", rng))
    lo, hi = flux_col(t, rows, "lo", rng), flux_col(t, rows, "hi", rng)
    if t["ferr"] == "sym":
        kw["flux_error"] = lo
    elif t["ferr"] == "both":
        kw.update(flux_error=lo, flux_error_lo=hi, flux_error_hi=hi)
    if t["ferr"] in ("asym", "only_lo"):
        kw["flux_error_lo"] = lo
    if t["ferr"] in ("asym", "only_hi"):
        kw["flux_error_hi"] = hi
    if t["ebin"] == "width":
        kw["energy_width"] = a.to(rng.choice(EN))
    elif t["ebin"] == "edges":
        kw.update(energy_lo=(ek - a).to(rng.choice(EN)), energy_hi=ek + b)
    elif t["ebin"] == "only_energy_hi":
        kw["energy_hi"] = ek + b
    if t["ul"] != "none":
        kw["ul"] = ul_col(t, rows)
        if rng.random() < 0.3:
            kw["ul"] = list(kw["ul"])
    if t["cl"] in ("cl95", "cl50", "string", "array"):
        kw["cl"] = dict(cl95=0.95, cl50=0.5, string="test",
                        array=np.array([0.9, 0.9]))[t["cl"]]
    return kw


FLUXT = u.Unit("erg/(cm2 s)"), u.Unit("erg/s"), u.Unit("1/(cm2 s TeV)"), u.Unit("1/(s TeV)")


def project(tab):
    """(representation, luminosity?, rows) of a validated table"""
    fu = tab["flux"].unit
    if fu is None:
        return "none", False, []
    kind = [i for i, x in enumerate(FLUXT) if fu.is_equivalent(x)]
    if not kind:
        return "unknown", False, []
    kind = kind[0]
    sed, lum = kind < 2, kind in (1, 3)
    base = F0[lum] * (u.TeV**2 if sed else 1)

    def fl(c):
        c = tab[c]
        try:
            return [snap((x / base).to("").value) for x in u.Quantity(c)]
        except Exception:
            return [OFF] * len(c)

    def en(c):
        try:
            return [snap((x / SUB).to("").value) for x in u.Quantity(tab[c])]
        except Exception:
            return [OFF] * len(tab)

    try:
        ks = [snap(math.log2((x / u.TeV).to("").value) / 2)
              for x in u.Quantity(tab["energy"])]
    except Exception:
        ks = [OFF] * len(tab)
    f, lo, hi = fl("flux"), fl("flux_error_lo"), fl("flux_error_hi")
    el, eh = en("energy_error_lo"), en("energy_error_hi")
    rows = []
    for i in range(len(tab)):
        rows.append(dict(k=ks[i], f=f[i], lo=lo[i], hi=hi[i], el=el[i], eh=eh[i],
                         ul=bool(tab["ul"][i]), cl=snap(tab["cl"][i], 1e-3),
                         g=snap(tab["group"][i])))
    return ("sed" if sed else "diff"), lum, rows


def kind_of(e):
    return "TypeError" if isinstance(e, TypeError) else type(e).__name__


def attempt(fn):
    """('ok', value) or ('TypeError'|class name, None)"""
    try:
        return "ok", fn()
    except Exception as e:
        return kind_of(e), None


def record(ts, sed, arg, key):
    kw = {} if sed == "none" else dict(sed=sed == "true")
    out, v = attempt(lambda: validate_data_table(arg, **kw))
    ev = dict(ev="validate", key=key, ts=ts, sed=sed, out=out)
    if out == "ok":
        ev["rep"], ev["lum"], ev["rows"] = project(v)
        out2, v2 = attempt(lambda: validate_data_table(v))
        ev["again"] = out2
        if out2 == "ok":
            r2 = project(v2)
            srt = lambda rs: sorted(rs, key=lambda r: sorted(r.items()))
            if (r2[0], r2[1], srt(r2[2])) != (ev["rep"], ev["lum"], srt(ev["rows"])):
                ev["again"] = "differs"
    return ev


GENC = dict(
    KSets="{<<0>>, <<2>>, <<0, 1>>, <<1, 0, 3>>, <<0, 1, 2>>, <<2, 3, 0, 4>>, "
          "<<0, 1, 2, 3, 4>>, <<4, 2, 1>>}",
    FVals="0..8", EBn="EBins", FEr="FErrs", UlS="Uls", ClS="Cls", FpS="Fpts",
    WrS="Wrongs", UlRows="SUBSET {1, 2, 3}",
    Grps="{0, 1, 5}", Generate="TRUE")
SMALL = dict(KSets="{<<2, 0, 3>>, <<1>>}", FVals="{1}", EBn='{"none", "errors"}',
             FEr='{"sym", "asym"}', UlS='{"none", "int"}', ClS='{"none", "cl95"}',
             FpS='{"dflux", "flux"}', WrS='{"none"}', UlRows="{{}, {2}}", Grps="{0, 5}",
             Generate="FALSE", Dev=2)
INV = ["EveryRowOnce", "BinsPositive", "BinsTouch", "Idempotent", "OrderFree",
       "RoundTrip"]
