"""Random API histories and a model of what the parameters of an object are (C13, C16, C17, C18, C21, ...).

An operation is a JSON-able list.  `run(obj, op)` performs it, `Model.note(op)` follows it, and
`Model.fresh()` builds a new object with the parameters the model says the old one has."""
import os
import tempfile

import numpy as np

from . import oracle as O
from . import twopoint as TP

CHEAP = ["den", "rsd", "d1"]
POT = ["d2", "g1", "g2", "g3", "g4", "g5"]
FLAG = {"den": "has_density", "rsd": "has_rsd", "d1": "has_d1", "d2": "has_d2", "g1": "has_g1", "g2": "has_g2",
        "g3": "has_g3", "g4": "has_g4", "g5": "has_g5", "len": "has_lensing"}
FLATS = ("has_flatsky_local", "has_flatsky_local_nonlocal", "has_flatsky_nonlocal")
PRECISION = {"k_per_decade_for_bao": 70.0, "k_per_decade_for_pk": 10.0, "start_large_k_at_tau_h_over_tau_k": 0.07, "l_max_g": 12, "l_max_ur": 17,
             "tol_perturb_integration": 1e-5, "radiation_streaming_trigger_tau_over_tau_k": 45.0, "ur_fluid_trigger_tau_over_tau_k": 30.0}
DROP = set(PRECISION) | {"omega_cdm", "omega_m", "omega_baryon", "omega_gamma", "h", "w0", "wa", "n_s", "sigma8", "A_s", "T_cmb", "N_ur", "m_ncdm",
                         "YHe", "N_ncdm", "k_min", "k_max", "pk_type"}
ALWAYS = set(PRECISION) | {"A_s", "k_min", "k_max", "pk_type"}
NU = 93.14


def uni(a, b):
    return lambda rng: float(rng.uniform(a, b))


SCALARS = {
    "omega_cdm": uni(0.15, 0.4), "omega_m": uni(0.22, 0.45), "omega_baryon": uni(0.03, 0.07), "omega_gamma": lambda r: float(r.choice([0.0, 9e-5, 1e-3])),
    "h": uni(0.55, 0.8), "w0": uni(-1.3, -0.7), "wa": uni(-0.4, 0.3), "n_s": uni(0.9, 1.02), "sigma8": uni(0.7, 0.9), "A_s": uni(1.5e-9, 2.6e-9),
    "T_cmb": uni(2.6, 2.8), "N_ur": uni(1.5, 3.1), "m_ncdm": lambda r: float(r.choice([0.0, 0.06, 0.3])), "YHe": uni(0.2, 0.3),
    "N_ncdm": lambda r: int(r.integers(0, 4)), "k_min": uni(5e-6, 2e-5), "k_max": uni(5, 40),
    "integration_1d_prec": lambda r: float(10 ** r.uniform(-6, -4)), "integration_1d_type": lambda r: str(r.choice(["gsl", "exponential", "exponential"])),
    "integration_sampling": lambda r: int(r.integers(600, 1500)), "background_sampling": lambda r: int(r.integers(300, 1500)),
    "integrals_fftlog_sampling": lambda r: int(r.integers(300, 1200)) * 2,
    "covariance_interpolation_method": lambda r: str(r.choice(["bilinear", "bicubic"])),
    "covariance_integration_method": lambda r: str(r.choice(["standard", "standard", "standard", "fftlog"])),
    "covariance_integration_sampling": lambda r: int(r.integers(100, 200)) * 2,
    "has_binned_covariance": lambda r: bool(r.random() < 0.5), "covariance_cosmic": lambda r: bool(r.random() < 0.7),
    "covariance_mixed": lambda r: bool(r.random() < 0.7), "covariance_poisson": lambda r: bool(r.random() < 0.7),
    "covariance_populations": lambda r: [int(x) for x in r.integers(1, 5, 4)],
    "has_only_cross_correlations": lambda r: bool(r.random() < 0.4), "verbose": lambda r: False,
}
for _k, _v in PRECISION.items():
    SCALARS[_k] = (lambda v: (lambda r: int(v + r.integers(0, 4)) if isinstance(v, int) else float(v * r.uniform(0.8, 1.2))))(_v)
COORDS = {
    "sep": lambda r: [float(x) for x in 15 + np.cumsum(r.uniform(9, 40, int(r.integers(1, 4))))],
    "mu": lambda r: [float(x) for x in r.uniform(-0.99, 0.99, int(r.integers(1, 3)))],
    "l": lambda r: [int(x) for x in r.permutation(5)[:int(r.integers(1, 4))]],
    "z_mean": lambda r: [float(x) for x in r.uniform(0.4, 1.8, int(r.integers(1, 3)))],
}
LISTS = ("deltaz", "number_density1", "number_density2", "fsky", "pixelsize", "z_min", "z_max")


def equal(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.all(a == b))


class Generator:
    """names: contributions which may be switched on"""

    def __init__(self, rng, names=CHEAP + ["len"], heavy=True):
        self.rng, self.names, self.heavy = rng, list(names), heavy

    def survey(self):
        r = self.rng
        n = int(r.integers(1, 4))
        z = r.uniform(0.4, 1.6, n)
        dz = r.uniform(0.1, 0.25, n)
        v = dict(z_mean=z, deltaz=dz, number_density1=10 ** r.uniform(-4, -2, n), number_density2=10 ** r.uniform(-4, -2, n),
                 fsky=r.uniform(0.1, 1, n), pixelsize=r.uniform(4, 10, n), z_min=z - dz, z_max=z + dz)
        return [["set", k, [float(x) for x in x_]] for k, x_ in v.items()]

    def start(self):
        """every history begins with something that can be computed at moderate cost"""
        ops = [["set", k, SCALARS[k](self.rng)] for k in ("integration_sampling", "background_sampling", "integrals_fftlog_sampling", "covariance_integration_sampling")]
        if self.rng.random() < 0.7:
            ops.append(["set", "integration_1d_type", "exponential"])
        ops += self.survey() + [["set", k, COORDS[k](self.rng)] for k in ("sep", "mu", "l")]
        ops.append(["set", FLAG[str(self.rng.choice([n for n in self.names if n in CHEAP] or self.names))], True])
        if self.rng.random() < 0.7:
            ops.append(self.spectrum())
        else:
            ops.append(["set", "k_max", SCALARS["k_max"](self.rng)])
        return ops

    def spectrum(self):
        return ["spectrum", TP.spectrum(self.rng), float(self.rng.choice([0.0, 0.0, 0.7]))]

    def bias(self):
        r = self.rng
        kind = str(r.choice(["galaxy", "magnification", "evolution"]))
        return ["bias", kind, int(r.integers(1, 5 if kind == "galaxy" else 3)), [float(r.uniform(0.5, 2)), float(r.uniform(-0.2, 0.3))], int(r.integers(5, 60))]

    def setter(self):
        r = self.rng
        u = r.random()
        if u < 0.3:
            n = str(r.choice(self.names))
            return [["set", FLAG[n], bool(r.random() < 0.6)]]
        if u < 0.36:
            return [["set", str(r.choice(FLATS)), bool(r.random() < 0.5)]]
        if u < 0.48:
            return [self.bias()]
        if u < 0.56:
            return [self.spectrum()]
        if u < 0.70:
            k = str(r.choice(["sep", "mu", "l", "survey", "survey"]))
            return self.survey() if k == "survey" else [["set", k, COORDS[k](r)]]
        if u < 0.72:
            return [["reset"]]
        k = str(r.choice(list(SCALARS)))
        return [["set", k, SCALARS[k](r)]]

    def query(self):
        r = self.rng
        k = str(r.choice(["background", "integral", "power", "corrfunc", "multipole", "corrfunc_bulk", "multipoles_bulk", "average_multipoles_bulk",
                          "covariance_bulk", "average_covariance_bulk", "biases", "budget"],
                         p=[.06, .08, .06, .12, .1, .12, .12, .08, .1, .08, .04, .04]))
        if k == "background":
            return ["q", k, [float(x) for x in r.uniform(0, 5, 3)]]
        if k == "integral":
            n, l = [(0, 0), (0, 2), (0, 4), (1, 1), (1, 3), (2, 0), (2, 2), (3, 1)][int(r.integers(8))]
            return ["q", k, [float(r.uniform(2, 300)), n, l]]
        if k == "power":
            return ["q", k, [float(r.uniform(0.01, 0.2)), float(r.uniform(0, 2)), float(r.uniform(0, 2))]]
        if k == "corrfunc":
            return ["q", k, [float(r.uniform(0.4, 1.8)), float(r.uniform(20, 150)), float(r.uniform(-1, 1))]]
        if k == "multipole":
            return ["q", k, [float(r.uniform(0.4, 1.8)), float(r.uniform(20, 150)), int(r.integers(0, 5))]]
        if k in ("biases", "budget"):
            return ["q", k, [float(r.uniform(0, 3))]]
        return ["q", k, [bool(r.random() < 0.07)]]

    def reader(self):
        return [str(self.rng.choice(["params", "to_file", "repr", "maxsep"]))]

    def history(self, n, checkpoint=5):
        ops = self.start()
        for i in range(n):
            u = self.rng.random()
            if u < 0.5:
                ops += self.setter()
            elif u < 0.9:
                ops.append(self.query())
            else:
                ops.append(self.reader())
            if i % checkpoint == checkpoint - 1:
                ops.append(["check"] + self.query()[1:])
        return ops


def run(c, op):
    """performs one operation; queries return a list of numbers"""
    k = op[0]
    if k == "set":
        setattr(c, op[1], op[2])
    elif k == "bias":
        x = np.linspace(0, 12, op[4])
        getattr(c, "set_%s_bias%d" % (op[1], op[2]))(x, op[3][0] + op[3][1] * x)
    elif k == "spectrum":
        kk, p = TP.spectrum_table(op[1])
        c.set_power_spectrum_linear(kk, p, op[2])
    elif k == "reset":
        c.reset_contributions()
    elif k == "params":
        c.parameters
    elif k == "to_file":
        with tempfile.TemporaryDirectory() as d:
            c.to_file(os.path.join(d, "x.cfg"))
    elif k == "repr":
        repr(c), str(c)
    elif k == "maxsep":
        c.maximum_separation(1.0, 0.1)
    elif k in ("q", "check"):
        return query(c, op[1], op[2])
    else:
        raise AssertionError(op)


BG = ("scale_factor", "hubble_rate", "hubble_rate_conformal", "hubble_rate_conformal_derivative", "comoving_distance", "growth_factor", "growth_rate")


def query(c, what, a):
    if what == "background":
        return [getattr(c, f)(z) for z in a for f in BG]
    if what == "integral":
        return [c.integral(r=a[0], n=a[1], l=a[2])]
    if what == "power":
        return [c.power_spectrum(a[0], a[1]), c.cross_spectrum(a[0], a[1], a[2])]
    if what == "corrfunc":
        return [c.compute_corrfunc(z=a[0], r=a[1], mu=a[2])]
    if what == "multipole":
        return [c.compute_multipole(z=a[0], r=a[1], l=a[2])]
    if what == "biases":
        z = a[0]
        return [c.galaxy_bias1(z), c.galaxy_bias2(z), c.galaxy_bias3(z), c.galaxy_bias4(z), c.magnification_bias1(z), c.magnification_bias2(z),
                c.evolution_bias1(z), c.evolution_bias2(z)]
    if what == "budget":
        return [c.omega_m, c.omega_cdm, c.omega_baryon, c.omega_gamma, c.omega_nu, c.omega_de, c.h, c.k_min, c.k_max, c.A_s, c.sigma8]
    out = []
    for m in getattr(c, "compute_" + what)(recompute=a[0]):
        d = m.to_dict()
        out += [float(d[k]) for k in sorted(d)]
    return out


class Model:
    """the values a user would say the object has, from the operations alone"""

    def __init__(self):
        self.v = {}                 # last accepted value of every attribute
        self.bias = {}
        self.user = None            # spectrum in force, if any
        self.cosmo = dict(m=None)   # filled from a default object on demand
        import coffe
        c = coffe.Coffe()
        self.m, self.b, self.g, self.h, self.mnu = c.omega_m, c.omega_baryon, c.omega_gamma, c.h, c.m_ncdm
        self.now = {k: getattr(c, k) for k in DROP}
        self.flags = set(FLAG.values()) | set(FLATS) | {"has_only_cross_correlations", "has_binned_covariance"}

    @property
    def nu(self):
        return self.mnu / NU / self.h ** 2

    def note(self, op):
        k = op[0]
        if k == "bias":
            self.bias[(op[1], op[2])] = op
        elif k == "spectrum":
            self.user = op
            t = op[1]
            kk, _ = TP.spectrum_table(t)
            self.v["k_min"], self.v["k_max"] = self.now["k_min"], self.now["k_max"] = float(kk[0]), float(kk[-1])
        elif k == "reset":
            for f in self.flags:
                self.v[f] = False
        elif k == "set":
            name, value = op[1], op[2]
            if name in DROP and (name in ALWAYS or value != self.now[name]):
                self.user = None
            if name == "omega_m":
                self.m = value
            elif name == "omega_baryon":
                self.b = value
            elif name == "omega_gamma":
                self.g = value
            elif name == "omega_cdm":
                self.m = value + self.b + self.nu
            elif name == "h":
                self.h = value
            elif name == "m_ncdm":
                self.mnu = value
            else:
                self.v[name] = value
            if name in DROP:
                self.now[name] = value
            self.now.update(omega_m=self.m, omega_baryon=self.b, omega_cdm=self.m - self.b - self.nu, omega_gamma=self.g)

    def fresh(self):
        import coffe
        c = coffe.Coffe()
        c.h = self.h
        c.m_ncdm = self.mnu
        c.omega_gamma = self.g
        c.omega_m = self.m
        c.omega_baryon = self.b
        for k in sorted(self.v):
            setattr(c, k, self.v[k])
        for op in self.bias.values():
            run(c, op)
        if self.user:
            run(c, self.user)
        return c


def attempt(f, *a):
    try:
        return f(*a), None
    except (ValueError, TypeError, AttributeError) as e:
        return None, type(e).__name__


def agree(a, b, rtol=1e-7):
    """largest difference relative to the largest value of the answer"""
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return np.inf
    if a.size == 0:
        return 0.0
    d = np.abs(a - b)
    s = np.maximum(np.abs(a), np.abs(b))
    # values which are accurate to the size of the largest one only
    with np.errstate(invalid="ignore", divide="ignore"):
        e = np.where(d == 0, 0, d / (rtol * s + 1e-13 * s.max()))
    return float(np.max(np.where(np.isnan(e), np.inf, e)))
