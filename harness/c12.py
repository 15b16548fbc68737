"""C12: SED and differential representations convert losslessly."""
import numpy as np

import vlib
from vlib import cfg_text, log2snap, ustr

nm = vlib.load_naima()
from astropy import units as u  # noqa: E402
from naima.utils import sed_conversion  # noqa: E402

# (family, form) -> units
UN = {
    ("energy", "sed"): ["erg", "TeV", "J", "eV", "GeV"],
    ("energy", "diff"): ["1/TeV", "1/erg", "1/eV", "1/J"],
    ("flux", "sed"): ["erg/(cm2 s)", "TeV/(cm2 s)", "W/m2", "keV/(m2 s)", "eV/(cm2 h)"],
    ("flux", "diff"): ["1/(cm2 s TeV)", "1/(m2 s GeV)", "1/(cm2 s erg)", "1/(cm2 h eV)"],
    ("power", "sed"): ["erg/s", "W", "TeV/s", "eV/h"],
    ("power", "diff"): ["1/(s TeV)", "1/(s erg)", "1/(h eV)"],
    ("other", "-"): ["", "m", "1/(cm2 s)", "erg/cm3", "K", "1/cm3", "Hz", "TeV/cm2",
                     "erg2", "G", "1/TeV2"],
}
BASE = {("energy", "sed"): "TeV", ("energy", "diff"): "1/TeV",
        ("flux", "sed"): "TeV/(cm2 s)", ("flux", "diff"): "1/(cm2 s TeV)",
        ("power", "sed"): "TeV/s", ("power", "diff"): "1/(s TeV)"}
NAMES = ["erg", "1/TeV", "erg/(s cm2)", "1/(s TeV cm2)", "erg/s", "1/(s TeV)"]
NAME = {ustr(u.Unit(n)): n for n in NAMES}


def run(ck):
    units = ", ".join(f'<<"{a}", "{b}", {i}>>' for (a, b), us in UN.items()
                      for i in range(len(us)))
    k1 = "{<<0, 1, 2>>, <<-3, 2>>, <<5>>}"
    k2 = "{<<0, 1, 2>>, <<-3, 2>>, <<5>>, <<2, -1, 0, 1>>, <<-6, 6>>}"
    cfg = dict(L=ck.n(3, 5), Units="{" + units + "}", KSeqs=ck.n(k1, k2))
    gen = ck.enumerate("ReprGen", cfg_text(
        spec="Spec", invariants=["Lossless", "PathFree", "Emit"], constants=cfg))
    events = []
    for b in gen:
        fam, form, iu = b["h"][0]["unit"]
        unit = u.Unit(UN[fam, form][iu])
        key = f"{fam}/{UN[fam, form][iu]}"
        events.append(dict(ev="start", key=key, fam=fam, form=form, x=b["x"], ks=b["ks"]))
        en = (4.0 ** np.array(b["ks"]) * u.TeV).to(ck.rng.choice(["TeV", "eV", "erg"]))
        scalar = len(b["ks"]) == 1 and ck.rng.random() < 0.5
        if scalar:
            en = en[0]
        if fam == "other":
            v = 2.0 ** np.array(b["x"]) * unit
        else:
            v = (2.0 ** np.array(b["x"]) * u.Unit(BASE[fam, form])).to(unit)
        if scalar:
            v = v[0]
        for h in b["h"][1:]:
            ev = dict(ev="convert", key=key, sed=h["sed"], out="ok", x=[], same=False,
                      unit="?")
            events.append(ev)
            try:
                fu, sedf = sed_conversion(en, v.unit, h["sed"])
                w = (v * sedf).to(fu)
            except u.UnitsError:
                ev["out"] = "UnitsError"
                continue
            except Exception as e:
                ev["out"] = type(e).__name__
                continue
            ev["unit"] = NAME.get(ustr(fu), ustr(fu))
            fo = "sed" if h["sed"] else "diff"
            try:
                ev["x"] = [log2snap(r) for r in np.atleast_1d(
                    (w / u.Unit(BASE[fam, fo])).to("").value)]
            except Exception:
                ev["x"] = [vlib.OFF]
            try:
                ev["same"] = bool(np.all(np.abs((w / v).to("").value - 1) < 1e-12))
            except Exception:
                pass
            v = w
    ck.sample(events[1])
    ck.validate("ReprTrace", events, traces=len(gen), chunk=1500, split_on="start")
