#!/opt/veriftools/pyvenv/bin/python
"""Writes spec/EmitTab.tla: the published single-particle emission kernels at
the lattice points of Emit.tla, from the formulas of the publications by direct
numerical integration.  Nothing here reads or uses naima.  Values are 1e6 * ln.
"""
import os

import mpmath as mp
import numpy as np
from scipy.integrate import quad
from scipy.special import kv

OUT = os.path.join(os.path.dirname(__file__), "..", "spec", "EmitTab.tla")
NINF = -777777775


def micro(x):
    return NINF if not x > 0 else int(round(1e6 * float(mp.log(x))))


# --- synchrotron in a random field, G(x); x = 2^(k/2) ------------------------
# (Crusius & Schlickeiser 1986; exact)
def G_syn(x):
    a, b = mp.besselk(mp.mpf(1) / 3, x / 2), mp.besselk(mp.mpf(2) / 3, x / 2)
    return x / 20 * ((8 + 3 * x * x) * a * a + x * b * (2 * a - 3 * x * b))


# --- inverse Compton: units of c * pi * r0^2, energies in m c^2 ---------------
def k_iso(w0, z):
    """dN/dt dE * E for one electron, one photon of energy w0/gamma per volume,
    averaged over directions; z = E/gamma, w0 = gamma*eps  (Jones 1968)"""
    G = 4 * w0
    if z >= G / (1 + G):
        return 0.0
    q = z / (G * (1 - z))
    f = 2 * q * np.log(q) + (1 + 2 * q) * (1 - q) + 0.5 * (G * q)**2 / (1 + G * q) * (1 - q)
    return 2 * f * z / w0       # E dN/dE = (2 pi r0^2 c/(gamma eps))(E/gamma) f


def k_ani(w0, z, th):
    """the same for a photon at angle th: Klein-Nishina in the electron frame"""
    w = w0 * (1 - np.cos(th))
    if z >= 2 * w / (1 + 2 * w):
        return 0.0
    a = z / (w * (1 - z))
    return ((1 - z) + 1 / (1 - z) - 2 * a + a * a) * z / w0


def thermal(ker, j, z):
    """black body of unit energy density (in kT): int n(e) ker de, e in kT"""
    t = 2.0**j

    def f(le):
        e = np.exp(le)
        return e**3 / np.expm1(e) * ker(e * t, z)
    # photons below the kinematic limit do not contribute: start there
    lo = -14.0
    g = np.linspace(lo, 4.2, 4001)
    on = [x for x in g if ker(np.exp(x) * t, z) > 0]
    if not on:
        return 0.0
    a = max(lo, on[0] - 18.2 / 4000)
    pts = np.linspace(a, 4.2, 9)
    s = sum(quad(f, p, q, epsabs=0, epsrel=1e-10, limit=400)[0]
            for p, q in zip(pts, pts[1:]))
    return s / (np.pi**4 / 15)


def f_kn(j):
    """energy-loss rate over the Thomson rate, black body, gamma kT/mc2 = 2^j"""
    t = 2.0**j

    def pw(w0):
        b = mp.mpf(4 * w0)
        if b < 1e-3:
            return 1 - float(b) * 63 / 40
        g = ((b / 2 + 6 + 6 / b) * mp.log(1 + b)
             - (11 * b**3 / 12 + 6 * b**2 + 9 * b + 4) / (1 + b)**2 - 2
             + 2 * mp.polylog(2, -b))
        return float(9 * g / b**3)
    with mp.workdps(40):
        s = quad(lambda le: np.exp(4 * le) / np.expm1(np.exp(le)) * pw(np.exp(le) * t),
                 -12, 4.2, epsrel=1e-9, limit=400)[0]
    return s / (np.pi**4 / 15)


# --- bremsstrahlung (Baring et al. 1999): units alpha r0^2 ---------------------
def s_1(g, e):
    return 4 * (1 + (mp.mpf(1) / 3 - e / g) * (1 - e / g)) * (
        mp.log(2 * g * (g - e) / e) - mp.mpf(1) / 2)


def s_2(g, e):
    if e <= mp.mpf(1) / 2:
        l2 = 0 if e == mp.mpf(1) / 2 else (1 - 2 * e) * mp.log(1 - 2 * e)
        return (16 * (1 - e + e * e) * mp.log(g / e) - 1 / e**2 + 3 / e - 4 + 4 * e
                - 8 * e**2 - 2 * l2 * (1 / (4 * e**3) - 1 / (2 * e**2) + 3 / e - 2
                                       + 4 * e)) / 3
    return 2 / (3 * e) * ((4 - 1 / e + 1 / (4 * e**2)) * mp.log(2 * g)
                          - 2 + 2 / e - 5 / (8 * e**2))


def s_ee(g, e):
    A = 1 - mp.mpf(8) / 3 * (g - 1)**mp.mpf("0.2") / (g + 1) * (e / g)**(mp.mpf(1) / 3)
    return (s_1(g, e) + s_2(g, e)) * A


def s_nr(g, x):
    b = mp.sqrt(1 - 1 / g**2)
    C = 10 * x * g * b * (2 + g * b) / (1 + x * x * (g * g - 1))
    F = (1 + (g * g - 1) / 2) * (17 - 3 * x * x / (2 - x)**2 - C) * mp.sqrt(1 - x)
    F += (12 * (2 - x) - 7 * x * x / (2 - x) - 3 * x**4 / (2 - x)**3) * mp.log(
        (1 + mp.sqrt(1 - x)) / mp.sqrt(x))
    return F * 4 / 15


# --- pp (Kafexhiu et al. 2014): E dsigma/dE in mb ------------------------------
MP, MPI, TTH = 0.93827208816, 0.1349766, 0.27966184


def s_inel(T):
    L = np.log(T / TTH)
    return (30.7 - 0.96 * L + 0.18 * L * L) * (1 - (TTH / T)**1.9)**3


def s_pi(T, mod):
    s = 2 * MP * (T + 2 * MP)
    if T < 2:
        M, Gm = 1.1883, 0.2264
        g = np.sqrt(M**2 * (M**2 + Gm**2))
        K = np.sqrt(8) * M * Gm * g / (np.pi * np.sqrt(M**2 + g))
        bw = MP * K / (((np.sqrt(s) - MP)**2 - M**2)**2 + M**2 * Gm**2)
        eta = np.sqrt((s - MPI**2 - 4 * MP**2)**2 - 16 * MPI**2 * MP**2) / (
            2 * MPI * np.sqrt(s))
        one = 7.66e-3 * eta**1.95 * (1 + eta + eta**5) * bw**1.86
        two = 5.7 / (1 + np.exp(-9.3 * (T - 1.4))) if T >= 0.56 else 0
        return one + two
    if T < 5:
        Q = (T - TTH) / MP
        return s_inel(T) * (-6e-3 + 0.237 * Q - 0.023 * Q * Q)
    a = {"Geant4": (0.728, 0.596, 0.491, 0.2503, 0.117),
         "Pythia8": (0.652, 0.0016, 0.488, 0.1928, 0.483),
         "SIBYLL": (5.436, 0.254, 0.072, 0.075, 0.166),
         "QGSJET": (0.908, 0.0009, 6.089, 0.176, 0.448)}[regime(T, mod)]
    x = (T - 3) / MP
    return s_inel(T) * a[0] * x**a[3] * (1 + np.exp(-a[1] * x**a[4])) * (
        1 - np.exp(-a[2] * x**0.25))


def regime(T, mod):
    return mod if T >= {"Pythia8": 50, "SIBYLL": 100, "QGSJET": 100, "Geant4": 100}[mod] \
        else "Geant4"


def pp(T, E, mod):
    s = 2 * MP * (T + 2 * MP)
    ecm = (s - 4 * MP**2 + MPI**2) / (2 * np.sqrt(s))
    gcm = (T + 2 * MP) / np.sqrt(s)
    emax = gcm * (ecm + np.sqrt(ecm**2 - MPI**2) * np.sqrt(1 - gcm**-2.0))
    gl = emax / MPI
    egmax = MPI / 2 * gl * (1 + np.sqrt(1 - gl**-2.0))
    Y, Ym = E + MPI**2 / (4 * E), egmax + MPI**2 / (4 * egmax)
    X = (Y - MPI) / (Ym - MPI)
    if X >= 1:
        return 0.0
    r = regime(T, mod)
    th = T / MP
    q = (T - 1) / MP
    mu = 1.25 * q**1.25 * np.exp(-1.25 * q) if T > 1 else 0
    if T <= 1:
        lam, al, be, ga = 1.0, 1.0, 3.29 - th**-1.5 / 5, 0.0
    elif T <= 4:
        lam, al, be, ga = 3.0, 1.0, mu + 2.45, mu + 1.45
    elif T <= 20:
        lam, al, be, ga = 3.0, 1.0, 1.5 * mu + 4.95, mu + 1.5
    elif r == "Geant4":
        lam, al, be, ga = 3.0, 0.5, 4.2 if T <= 100 else 4.9, 1.0
    else:
        lam, al, be, ga = {"Pythia8": (3.5, 0.5, 4.0, 1.0), "SIBYLL": (3.55, 0.5, 3.6, 1.0),
                           "QGSJET": (3.55, 0.5, 4.5, 1.0)}[r]
    F = (1 - X**al)**be / (1 + X * Ym / (lam * MPI))**ga
    if T < 1:
        A = 5.9 * s_pi(T, mod) / emax
    else:
        b = (9.53, 0.52, 0.054) if T < 5 else {
            "Geant4": (9.13, 0.35, 9.7e-3), "Pythia8": (9.06, 0.3795, 0.01105),
            "SIBYLL": (10.77, 0.412, 0.01264), "QGSJET": (13.16, 0.4419, 0.01439)}[r]
        A = b[0] * th**-b[1] * np.exp(b[2] * np.log(th)**2) * s_pi(T, mod) / MP
    return A * F * E


def nuc(T):
    if T < 1:
        return 1.9141
    f = max(s_inel(T) / s_inel(1e3), 1.0)
    return 1.37 + 0.39 * 10 * np.pi * (1 + np.log(f)) / s_inel(T)


# --- pp (Kelner et al. 2006), protons E^-2 (per TeV at 1 TeV): mb --------------
def sk(E):
    L = np.log(E)
    s = 34.3 + 1.88 * L + 0.25 * L * L
    if E <= 0.1:
        s *= (1 - (1.22e-3 / E)**4)**2 if E > 1.22e-3 else 0
    return s


def kel_hi(E, al):
    def f(lx):
        x = np.exp(lx)
        Ep = E / x
        L = np.log(Ep)
        B = 1.30 + 0.14 * L + 0.011 * L * L
        be = 1 / (1.79 + 0.11 * L + 0.008 * L * L)
        k = 1 / (0.801 + 0.049 * L + 0.014 * L * L)
        xb = x**be
        D = 1 + k * xb * (1 - xb)
        F = B * lx / x * ((1 - xb) / D)**4 * (
            1 / lx - 4 * be * xb / (1 - xb) - 4 * k * be * xb * (1 - 2 * xb) / D)
        return sk(Ep) * Ep**-al * F
    return sum(quad(f, a, b, epsrel=1e-8, epsabs=0, limit=200)[0]
               for a, b in ((-40, -20), (-20, -8), (-8, -3), (-3, -1e-12)))


def kel_lo(E, al):
    m, mpT, K = 1.349766e-4, 0.93827208816e-3, 0.17
    e0 = E + m * m / (4 * E)

    def f(s):                      # Epi = e0 + exp(s)
        ep = e0 + np.exp(s)
        Ep = mpT + ep / K
        return sk(Ep) * Ep**-al / np.sqrt(ep * ep - m * m) * np.exp(s) / K
    return 2 * sum(quad(f, a, b, epsrel=1e-8, epsabs=0, limit=200)[0]
                   for a, b in ((-45, -20), (-20, -12), (-12, -5), (-5, 0), (0, 20)))


def row(v):
    return "<<" + ", ".join(str(x) for x in v) + ">>"


def tab(name, doc, rows):
    body = ",\n     ".join(row(r) for r in rows)
    return f"\\* {doc}\n{name} ==\n  <<{body}>>\n"


def main():
    J = list(range(-20, 9, 2))
    I = list(range(-3, 13))
    o = ["---------------------------- MODULE EmitTab ----------------------------",
         "(* Generated by tools/mkemit.py from the published formulas; 1e6 * ln.   *)",
         "(* The tables are indexed through the functions of Emit.tla.             *)",
         "EXTENDS Integers"]
    o.append("\\* synchrotron G(2^(k/2)), k = -40..8\nSynT ==\n  "
             + row([micro(G_syn(mp.mpf(2)**(mp.mpf(k) / 2))) for k in range(-40, 9)]) + "\n")
    z = lambda j, i: 4 * 2.0**j * 2.0**-i
    o.append(tab("IcT", "black body, isotropic: w = 2^j (j = -20,-18..8), "
                 "E = 4 w 2^-i gamma (i = -3..12)",
                 [[micro(thermal(k_iso, j, z(j, i))) if z(j, i) < 1 else NINF for i in I]
                  for j in J]))
    o.append(tab("IcTop", "black body, isotropic: E = (1 - 2^-s) gamma (s = 1..4)",
                 [[micro(thermal(k_iso, j, 1 - 2.0**-s)) for s in range(1, 5)]
                  for j in J]))
    for th in (60, 90, 120):
        ker = lambda w, zz, th=th: k_ani(w, zz, np.radians(th))
        o.append(tab(f"Ic{th}", f"black body at {th} degrees",
                     [[micro(thermal(ker, j, z(j, i))) if z(j, i) < 1 else NINF for i in I]
                      for j in J]))
    o.append(tab("IcM", "one photon energy: w = gamma eps = 2^j",
                 [[micro(k_iso(2.0**j, z(j, i))) if z(j, i) < 1 else NINF for i in I]
                  for j in J]))
    o.append("\\* black body: energy-loss rate over the Thomson rate\nKnT ==\n  "
             + row([micro(f_kn(j)) for j in J]) + "\n")
    Gs = list(range(3, 28, 2))
    Is = list(range(1, 21))
    o.append(tab("BrP", "electron-proton: gamma = 2^g (g = 3,5..27), eps = gamma 2^-i "
                 "(i = 1..20)",
                 [[micro(s_1(mp.mpf(2)**g, mp.mpf(2)**(g - i))) for i in Is] for g in Gs]))
    o.append(tab("BrE", "electron-electron, relativistic",
                 [[micro(s_ee(mp.mpf(2)**g, mp.mpf(2)**(g - i))) for i in Is] for g in Gs]))
    o.append(tab("BrN", "electron-electron below 2 MeV: gamma = 1 + 2^s (s = -5..1), "
                 "eps = (gamma^2-1)/4 2^-i (i = 1..16)",
                 [[micro(s_nr(1 + mp.mpf(2)**s, mp.mpf(2)**-i)) for i in range(1, 17)]
                  for s in range(-5, 2)]))
    T = list(range(-2, 17))
    for mod in ("Geant4", "Pythia8", "SIBYLL", "QGSJET"):
        o.append(tab("Pp" + mod, "E dsigma/dE (mb), T = 1.5 2^s GeV (s = -2..16), "
                     "E = m_pi/2 2^i (i = 0..24)",
                     [[micro(pp(1.5 * 2.0**s, MPI / 2 * 2.0**i, mod)) for i in range(25)]
                      for s in T]))
    o.append("\\* nuclear enhancement\nNucT ==\n  " + row([micro(nuc(1.5 * 2.0**s)) for s in T])
             + "\n")
    A = (2.0, 2.5, 3.0)
    o.append(tab("KelHi", "Kelner: protons E^-alpha (alpha = 2, 2.5, 3), E = 2^k TeV "
                 "(k = -5..6)", [[micro(kel_hi(2.0**k, a)) for k in range(-5, 7)] for a in A]))
    o.append(tab("KelLo", "delta approximation, n-hat = 1: k = -14..0",
                 [[micro(kel_lo(2.0**k, a)) for k in range(-14, 1)] for a in A]))
    o.append("=" * 77)
    with open(OUT, "w") as f:
        f.write("\n".join(o) + "\n")


if __name__ == "__main__":
    main()
