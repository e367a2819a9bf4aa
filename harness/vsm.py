"""Drives the real vspec_vsm and records what it does.

A scenario is {"id": str, "ops": [op, ...]}; an op is a dict with "op" and its arguments.
Physical arguments are [value, unit] pairs.  Running a scenario yields a trace: one event per op with
the op's arguments in canonical units (km, km2, day, rad, K, erg), whether it raised, what it
returned, and the star's public state afterwards.  Every number is logged as the decimal string of an
IEEE double (TLC reads those; it has no reals of its own).
"""
import copy
import os
import pickle
import signal
import sys
import warnings

os.environ.setdefault("JAX_PLATFORMS", "cpu")
os.environ.setdefault("MPLBACKEND", "Agg")
sys.dont_write_bytecode = True
REPO = os.environ.get("VSM_REPO", "/repo")
sys.path.insert(0, REPO)
warnings.simplefilter("ignore")

import numpy as np  # noqa: E402
from astropy import units as u  # noqa: E402
import vspec_vsm  # noqa: E402
from vspec_vsm import (CoordinateGrid, Facula, FaculaCollection, FaculaGenerator, FlareCollection,  # noqa: E402
                       FlareGenerator, Granulation, MSH, SpotCollection, SpotGenerator, Star, StarSpot,
                       StellarFlare)

assert os.path.realpath(vspec_vsm.__file__).startswith(os.path.realpath(REPO) + "/"), vspec_vsm.__file__


class Hang(Exception):
    pass


def fl(x):
    """canonical decimal string of a number, as Java reads it"""
    x = float(x)
    if x != x:
        return "NaN"
    if x in (float("inf"), float("-inf")):
        return "Infinity" if x > 0 else "-Infinity"
    return repr(x)


def fls(a):
    return [fl(x) for x in np.asarray(a, dtype=float).ravel()]


_units = {"MSH": MSH, "MSH/d": MSH / u.day, "": u.dimensionless_unscaled}


def unit(name):
    if name not in _units:
        _units[name] = u.Unit(name)
    return _units[name]


ARGS = []        # what the scenario has given to the code: object, copy


def arg(x):
    ARGS.append((x, dict(x) if isinstance(x, dict) else np.array(x, copy=True, subok=True)))
    return x


def args_kept():
    """nothing the code was given has changed"""
    for x, y in ARGS:
        if isinstance(x, dict):
            if list(x) != list(y) or any(x[k] is not y[k] for k in y):
                return False
        elif getattr(x, "unit", None) != getattr(y, "unit", None) or np.shape(x) != np.shape(y) or np.asarray(x).tobytes() != np.asarray(y).tobytes():
            return False
    return True


def scribble(*results):
    """what was returned is the caller's to change"""
    for x in results:
        if isinstance(x, dict):
            x.clear()
        elif isinstance(x, np.ndarray) and x.ndim and x.flags.writeable:
            np.asarray(x)[...] = 0


def Q(v):
    if isinstance(v, (list, tuple)):
        q = float(v[0]) * unit(v[1])
        return arg(q if len(v) == 2 else q.to(unit(v[2])))
    return v


PER_DAY, AREA_RATE, K_PER_KM = u.day**-1, u.km**2 / u.day, u.K / u.km


def can(q, to):
    """quantity -> canonical string; a number that should be a quantity and is not is recorded as such"""
    if not isinstance(q, u.Quantity):
        return "bare:" + fl(q)
    return fl(q.to_value(to))


def grid_params(g):
    return tuple(g) if isinstance(g, (list, tuple)) else g


GRIDS = {}


def gkey(gm):
    """names a grid object by its public parameters and remembers its points"""
    if gm is None:
        return "none"
    if hasattr(gm, "n_points"):
        key = f"s{gm.n_points}"
    elif hasattr(gm, "nlat"):
        key = f"r{gm.nlat}x{gm.nlon}"
    else:
        return "unknown"
    if key not in GRIDS:
        lat, lon = gm.grid()
        g = {"lat": fls(lat.to_value(u.rad)), "lon": fls(lon.to_value(u.rad)), "area": fls(gm.area),
             "shape": list(gm.zeros().shape)}
        if key[0] == "s":
            g.update(kind="spiral", n=int(gm.n_points))
        else:
            g.update(kind="rect", nlat=int(gm.nlat), nlon=int(gm.nlon))
        GRIDS[key] = g
    return key


# ---------------------------------------------------------------- building objects
def make_spot(s, shared=None):
    kw = {}
    for k, name in (("lat", "lat"), ("lon", "lon"), ("amax", "area_max"), ("a", "area_current"),
                    ("tu", "teff_umbra"), ("tp", "teff_penumbra"), ("gr", "growth_rate"), ("dr", "decay_rate")):
        if k in s:
            kw[name] = Q(s[k])
    if "ratio" in s:
        kw["area_over_umbra_area"] = float(s["ratio"])
    if "grow" in s:
        kw["is_growing"] = bool(s["grow"])
    if s.get("gm"):
        kw["gridmaker"] = CoordinateGrid.new(grid_params(s["grid"]))
    else:
        kw["grid_params"] = grid_params(s.get("grid", 12))
    return StarSpot(**kw)


def make_fac(f):
    kw = {}
    for k, name in (("lat", "lat"), ("lon", "lon"), ("rmax", "r_max"), ("r", "r_init"), ("depth", "depth"),
                    ("life", "lifetime"), ("fs", "floor_teff_slope"), ("fmin", "floor_teff_min_rad"),
                    ("fb", "floor_teff_base_dteff"), ("ws", "wall_teff_slope"), ("wi", "wall_teff_intercept")):
        kw[name] = Q(f[k])
    if "grow" in f:
        kw["growing"] = bool(f["grow"])
    if f.get("gm"):
        kw["gridmaker"] = CoordinateGrid.new(grid_params(f["grid"]))
    else:
        kw["grid_params"] = grid_params(f.get("grid", 12))
    return Facula(**kw)


def make_spotgen(g, rng):
    if g == "off":
        return SpotGenerator.off(rng=rng)
    kw = dict(dist_area_mean=Q(g["mean"]), dist_area_logsigma=float(g["sig"]), umbra_teff=Q(g["tu"]),
              penumbra_teff=Q(g["tp"]), growth_rate=Q(g["gr"]), decay_rate=Q(g["dr"]), init_area=Q(g["init"]),
              distribution=g.get("dist", "iso"), coverage=float(g["cov"]), rng=rng)
    if g.get("gm"):
        kw["gridmaker"] = CoordinateGrid.new(grid_params(g["grid"]))
    else:
        kw["grid_params"] = grid_params(g.get("grid", 12))
    return give(SpotGenerator(**kw), lambda: asked(SPOTGEN_ARGS, g, sig=fl(g["sig"]), dist=g.get("dist", "iso"), cov=fl(g["cov"])))


def make_facgen(g, rng):
    if g == "off":
        return FaculaGenerator.off(rng=rng)
    kw = dict(dist_r_peak=Q(g["rp"]), dist_r_logsigma=float(g["rsig"]), depth=Q(g["depth"]),
              dist_life_peak=Q(g["life"]), dist_life_logsigma=float(g["lsig"]), floor_teff_slope=Q(g["fs"]),
              floor_teff_min_rad=Q(g["fmin"]), floor_teff_base_dteff=Q(g["fb"]), wall_teff_slope=Q(g["ws"]),
              wall_teff_intercept=Q(g["wi"]), coverage=float(g["cov"]), dist=g.get("dist", "iso"), rng=rng)
    if g.get("gm"):
        kw["gridmaker"] = CoordinateGrid.new(grid_params(g["grid"]))
    else:
        kw["grid_params"] = grid_params(g.get("grid", 12))
    return give(FaculaGenerator(**kw), lambda: asked(FACGEN_ARGS, g, rsig=fl(g["rsig"]), lsig=fl(g["lsig"]), cov=fl(g["cov"])))


def make_flaregen(g, rng):
    if g == "off":
        return FlareGenerator.off(rng=rng)
    return give(FlareGenerator(dist_teff_mean=Q(g["tm"]), dist_teff_sigma=Q(g["ts"]), dist_fwhm_mean=Q(g["fm"]),
                               dist_fwhm_logsigma=float(g["fsig"]), alpha=float(g["alpha"]), beta=float(g["beta"]),
                               min_energy=Q(g["emin"]), cluster_size=g["cl"], rng=rng),
                lambda: asked(FLAREGEN_ARGS, g, fsig=fl(g["fsig"]), alpha=fl(g["alpha"]), beta=fl(g["beta"]), cl=fl(g["cl"])))


def make_gran(g):
    if g == "off":
        return Granulation.off(seed=0)
    return give(Granulation(mean_coverage=g["mean"], amplitude=g["amp"], period=Q(g["per"]), dteff=Q(g["dt"]), seed=int(g["seed"])),
                lambda: {"mean": fl(g["mean"]), "amp": fl(g["amp"]), "perh": can(Q(g["per"]), u.hr), "seed": int(g["seed"])})


def given(obj):
    """what a generator was built with, where this scenario built it"""
    o, d = GIVEN.get(id(obj), (None, None))
    return d() if o is obj and o is not None else {}


def make_flare(f):
    return StellarFlare(fwhm=Q(f["fwhm"]), energy=Q(f["e"]), lat=Q(f["lat"]), lon=Q(f["lon"]), Teff=Q(f["T"]),
                        tpeak=Q(f["tp"]))


# ---------------------------------------------------------------- what was asked for, in canonical units
SPOT_ARGS = (("lat", u.rad), ("lon", u.rad), ("amax", u.km**2), ("a", u.km**2), ("tu", u.K), ("tp", u.K), ("gr", PER_DAY), ("dr", AREA_RATE))
SPOT_DEFAULTS = {"gr": [0.52, "1/day"], "dr": [10.89, "MSH/d"], "ratio": 5.0, "grow": True}
FAC_ARGS = (("lat", u.rad), ("lon", u.rad), ("rmax", u.km), ("r", u.km), ("depth", u.km), ("life", u.day), ("fs", K_PER_KM),
            ("fmin", u.km), ("fb", u.K), ("ws", K_PER_KM), ("wi", u.K))
SPOTGEN_ARGS = (("mean", u.km**2), ("tu", u.K), ("tp", u.K), ("gr", PER_DAY), ("dr", AREA_RATE), ("init", u.km**2))
FACGEN_ARGS = (("rp", u.km), ("depth", u.km), ("life", u.day), ("fs", K_PER_KM), ("fmin", u.km), ("fb", u.K), ("ws", K_PER_KM), ("wi", u.K))
FLAREGEN_ARGS = (("tm", u.K), ("ts", u.K), ("fm", u.day), ("emin", u.erg))
FLARE_ARGS = (("fwhm", u.day), ("e", u.erg), ("lat", u.rad), ("lon", u.rad), ("T", u.K), ("tp", u.day))


def asked(args, d, **more):
    return {k: can(Q(d[k]), un) for k, un in args} | more


def asked_spot(s):
    d = dict(SPOT_DEFAULTS, **s)
    return asked(SPOT_ARGS, d, ratio=fl(d["ratio"]), grow=bool(d["grow"]))


def asked_fac(f):
    return asked(FAC_ARGS, f, grow=bool(f.get("grow", True)))


def asked_flare(f):
    return asked(FLARE_ARGS, f)


GIVEN = {}       # generators: what they were built with


def give(obj, d):
    GIVEN[id(obj)] = (obj, d)
    return obj


# ---------------------------------------------------------------- observing objects
def see_spot(s):
    return {"lat": can(s.coords["lat"], u.rad), "lon": can(s.coords["lon"], u.rad),
            "amax": can(s.area_max, u.km**2), "a": can(s.area_current, u.km**2),
            "tu": can(s.teff_umbra, u.K), "tp": can(s.teff_penumbra, u.K),
            "ratio": fl(s.total_area_over_umbra_area), "grow": bool(s.is_growing),
            "gr": can(s.growth_rate, PER_DAY), "dr": can(s.decay_rate, AREA_RATE), "g": gkey(s.gridmaker)}


def see_fac(f):
    return {"lat": can(f.lat, u.rad), "lon": can(f.lon, u.rad), "rmax": can(f.r_max, u.km),
            "r": can(f.radius, u.km), "depth": can(f.depth, u.km), "life": can(f.lifetime, u.day),
            "fs": can(f.floor_teff_slope, K_PER_KM), "fmin": can(f.floor_teff_min_rad, u.km),
            "fb": can(f.floor_teff_base_dteff, u.K), "ws": can(f.wall_teff_slope, K_PER_KM),
            "wi": can(f.wall_teff_intercept, u.K), "grow": bool(f.is_growing), "g": gkey(f.gridmaker)}


def see_flare(f):
    return {"fwhm": can(f.fwhm, u.day), "e": can(f.energy, u.erg), "lat": can(f.lat, u.rad),
            "lon": can(f.lon, u.rad), "T": can(f.Teff, u.K), "tp": can(f.tpeak, u.day)}


def see_spotgen(g):
    return {"mean": can(g.dist_area_mean, u.km**2), "sig": fl(g.dist_area_logsigma), "tu": can(g.umbra_teff, u.K),
            "tp": can(g.penumbra_teff, u.K), "gr": can(g.growth_rate, PER_DAY), "dr": can(g.decay_rate, AREA_RATE),
            "init": can(g.init_area, u.km**2), "dist": str(g.distribution), "cov": fl(g.coverage),
            "g": gkey(g.gridmaker)} | given(g)


def see_facgen(g):
    return {"rp": can(g.dist_r_peak, u.km), "rsig": fl(g.dist_r_logsigma), "depth": can(g.depth, u.km),
            "life": can(g.dist_life_peak, u.day), "lsig": fl(g.dist_life_logsigma),
            "fs": can(g.floor_teff_slope, K_PER_KM), "fmin": can(g.floor_teff_min_rad, u.km),
            "fb": can(g.floor_teff_base_dteff, u.K), "ws": can(g.wall_teff_slope, K_PER_KM),
            "wi": can(g.wall_teff_intercept, u.K), "cov": fl(g.coverage), "g": gkey(g.gridmaker)} | given(g)


def see_flaregen(g):
    fm = g.dist_fwhm_mean
    return {"tm": can(g.dist_teff_mean, u.K), "ts": can(g.dist_teff_sigma, u.K),
            "fm": can(fm, u.day) if fm.unit.is_equivalent(u.day) else "0.0", "fsig": fl(g.dist_fwhm_logsigma),
            "alpha": fl(g.alpha), "beta": fl(g.beta), "emin": can(g.min_energy, u.erg), "cl": fl(g.cluster_size)} | given(g)


NOSTATE = {"teff": "0.0", "rad": "0.0", "u1": "0.0", "u2": "0.0", "gdt": "0.0", "g": "none", "sg": "none",
           "fg": "none", "spots": [], "facs": [], "flares": []}


class World:
    """the objects a scenario works on"""

    def __init__(self):
        self.star = None        # Star
        self.spots = None       # SpotCollection, of the star or on its own
        self.facs = None        # FaculaCollection
        self.flares = None      # FlareCollection
        self.sgen = self.fgen = self.flgen = self.gran = None
        self.rng, self.rngs = None, []
        self.teff = self.rad = None
        self.one = None         # a single spot or facula

    # collections of a star are looked up every time: methods may replace them
    def spotc(self):
        return self.star.spots if self.star is not None else self.spots

    def facc(self):
        return self.star.faculae if self.star is not None else self.facs

    def flarec(self):
        return self.star.flares if self.star is not None else self.flares

    def snapshot(self):
        st = dict(NOSTATE)
        s = self.star
        if s is not None:
            st.update(teff=can(s.teff, u.K), rad=can(s.radius, u.km), u1=fl(s.u1), u2=fl(s.u2),
                      gdt=can(s.granulation.dteff, u.K), g=gkey(s.gridmaker))
        elif self.teff is not None:
            st.update(teff=can(self.teff, u.K), rad=can(self.rad, u.km))
        sc, fc, lc = self.spotc(), self.facc(), self.flarec()
        if sc is not None:
            st.update(sg=gkey(sc.gridmaker), spots=[see_spot(x) for x in sc.spots])
        if fc is not None:
            st.update(fg=gkey(fc.gridmaker), facs=[see_fac(x) for x in fc.faculae])
        if lc is not None:
            st.update(flares=[see_flare(x) for x in lc.flares])
        return st


def view(a):
    return arg({"lat": Q(a["lat"]), "lon": Q(a["lon"])})


def see_view(a):
    return {"lat": can(Q(a["lat"]), u.rad), "lon": can(Q(a["lon"]), u.rad)}


def planet_kw(p, for_mask=False):
    if p is None:
        return {}
    r = "radius" if for_mask else "planet_radius"
    return {"orbit_radius": Q(p["a"]), r: Q(p["r"]), "phase": Q(p["phase"]), "inclination": Q(p["inc"])}


DEFAULT_PLANET = {"a": [1, "AU"], "r": [1, "R_earth"], "phase": [90, "deg"], "inc": [0, "deg"]}


def see_planet(p):
    p = p or DEFAULT_PLANET
    return {"a": can(Q(p["a"]), u.km), "r": can(Q(p["r"]), u.km), "phase": can(Q(p["phase"]), u.rad),
            "inc": can(Q(p["inc"]), u.rad)}


def label_K(key):
    """temperature of a key of a coverage dictionary: a Quantity or its text"""
    return fl(key.to_value(u.K) if isinstance(key, u.Quantity) else u.Quantity(key).to_value(u.K))


def see_fracs(d):
    return [{"t": label_K(k), "f": fl(v)} for k, v in d.items()]


def as_K(m):
    return fls(m.to_value(u.K))


def times(a):
    """["lin", t0, t1, n, unit] or [[...], unit], and maybe another unit to give them in"""
    if a[0] == "lin":
        t, more = np.linspace(float(a[1]), float(a[2]), int(a[3])) * unit(a[4]), a[5:]
    else:
        t, more = np.array(a[0], dtype=float) * unit(a[1]), a[2:]
    return arg(t.to(unit(more[0])) if more else t)


# ---------------------------------------------------------------- operations
OPS = {}


def op(f):
    OPS[f.__name__[3:]] = f
    return f


@op
def op_star(w, a):
    """a new star"""
    w.__init__()
    w.rng = np.random.default_rng(int(a.get("seed", 0)))
    w.rngs = [np.random.default_rng(int(a.get("seed", 0)) + 1 + k) for k in range(3)] if a.get("apart") else [w.rng] * 3
    sk = {"grid_params": grid_params(a["sgrid"])} if "sgrid" in a else {"grid_params": grid_params(a["grid"])}
    fk = {"grid_params": grid_params(a["fgrid"])} if "fgrid" in a else {"grid_params": grid_params(a["grid"])}
    if a.get("sgm"):
        sk = {"gridmaker": CoordinateGrid.new(sk["grid_params"])}
    if a.get("fgm"):
        fk = {"gridmaker": CoordinateGrid.new(fk["grid_params"])}
    kw = {}
    if "flaregen" in a:
        kw["flare_generator"] = make_flaregen(a["flaregen"], w.rngs[0])
    if "spotgen" in a:
        kw["spot_generator"] = make_spotgen(a["spotgen"], w.rngs[1])
    if "facgen" in a:
        kw["fac_generator"] = make_facgen(a["facgen"], w.rngs[2])
    if "gran" in a:
        kw["granulation"] = make_gran(a["gran"])
    if "u1" in a:
        kw["u1"] = float(a["u1"])
    if "u2" in a:
        kw["u2"] = float(a["u2"])
    star = Star(teff=Q(a["teff"]), radius=Q(a["rad"]), period=Q(a.get("per", [40, "day"])),
                spots=SpotCollection(*[make_spot(s) for s in a.get("spots", [])], **sk),
                faculae=FaculaCollection(*[make_fac(f) for f in a.get("facs", [])], **fk),
                grid_params=grid_params(a["grid"]), rng=w.rng, **kw)
    w.star = star
    gd = a["gran"]["dt"] if isinstance(a.get("gran"), dict) else [0, "K"]
    return {"gen": {"s": gkey(star.spot_generator.gridmaker), "f": gkey(star.fac_generator.gridmaker)},
            "given": {"teff": can(Q(a["teff"]), u.K), "rad": can(Q(a["rad"]), u.km), "u1": fl(a.get("u1", 0)), "u2": fl(a.get("u2", 0)),
                      "gdt": can(Q(gd), u.K), "spots": [asked_spot(x) for x in a.get("spots", [])],
                      "facs": [asked_fac(x) for x in a.get("facs", [])], "flares": []}}


@op
def op_coll(w, a):
    """a spot and a facula collection on their own"""
    w.__init__()
    w.rng = np.random.default_rng(int(a.get("seed", 0)))
    w.teff, w.rad = Q(a["teff"]), Q(a["rad"])
    g = grid_params(a["grid"])
    kw = {"gridmaker": CoordinateGrid.new(g)} if a.get("gm") else {"grid_params": g}
    w.spots = SpotCollection(*[make_spot(s) for s in a.get("spots", [])], **kw)
    w.facs = FaculaCollection(*[make_fac(f) for f in a.get("facs", [])], **kw)
    return {"given": {"teff": can(w.teff, u.K), "rad": can(w.rad, u.km), "u1": "0.0", "u2": "0.0", "gdt": "0.0",
                      "spots": [asked_spot(x) for x in a.get("spots", [])], "facs": [asked_fac(x) for x in a.get("facs", [])], "flares": []}}


@op
def op_regrid(w, a):
    gm = CoordinateGrid.new(grid_params(a["grid"]))
    w.spotc().set_gridmaker(gm)
    w.facc().set_gridmaker(gm)
    if w.star is not None:
        w.star.gridmaker = gm
    return {"g": gkey(gm)}


def step(w, dt):
    """a time step: [value, unit], or relative to what a feature would do:
    {"spot": i, "to": "max" | "end", "f": x}  x times the time until spot i (0: the only one) is largest, or gone
    {"fac": i, "to": ...}                      the same for a facula (gone at e^-2 of its maximum)
    An answer here does not matter: the step taken is what is recorded."""
    if not isinstance(dt, dict):
        return Q(dt)
    kind = "spot" if "spot" in dt else "fac"
    if w.one is not None:
        x = w.one
    else:
        c = w.spotc().spots if kind == "spot" else w.facc().faculae
        if not len(c):
            return 0.37 * u.day
        x = c[dt[kind] % len(c)]
    day = u.day
    if kind == "spot":
        tau = np.log1p((x.growth_rate * day).to_value(""))
        rise = np.log((x.area_max / x.area_current).to_value("")) / tau if x.is_growing and tau > 0 and x.area_current > 0 * MSH else 0.0
        top = (x.area_max if x.is_growing else x.area_current).to_value(u.km**2)
        dr = x.decay_rate.to_value(AREA_RATE)
        fall = top / dr if dr > 0 else 1.0
    else:
        life = x.lifetime.to_value(day)
        rise = -np.log((x.radius / x.r_max).to_value("")) * life / 2 if x.is_growing else 0.0
        fall = life - (0.0 if x.is_growing else -np.log((x.radius / x.r_max).to_value("")) * life / 2)
    t = float(dt["f"]) * (rise if dt["to"] == "max" else rise + fall)
    if not np.isfinite(t) or t < 0 or t > 1e6:
        t = 0.37
    return (t * day).to(unit(dt.get("u", "day")))


@op
def op_age(w, a):
    dt = step(w, a["dt"])
    if w.star is not None:
        w.star.age(dt)
    else:
        w.spots.age(dt)
        w.facs.age(dt)
    return {"dt": can(dt, u.day)}


def _wrap(objs, how):
    if how == "one" and len(objs) == 1:
        return objs[0]
    return tuple(objs) if how == "tuple" else list(objs)


@op
def op_add_spots(w, a):
    new = [make_spot(s) for s in a["spots"]]
    seen = [asked_spot(s) for s in a["spots"]]
    arg = _wrap(new, a.get("how", "list"))
    if w.star is not None and not a.get("coll"):
        w.star.add_spot(arg)
    else:
        w.spotc().add_spot(arg)
    return {"new": seen}


@op
def op_add_facs(w, a):
    new = [make_fac(f) for f in a["facs"]]
    seen = [asked_fac(f) for f in a["facs"]]
    arg = _wrap(new, a.get("how", "list"))
    if w.star is not None and not a.get("coll"):
        w.star.add_fac(arg)
    else:
        w.facc().add_faculae(arg)
    return {"new": seen}


@op
def op_set(w, a):
    """assign public attributes of the star"""
    for k, v in a["vals"].items():
        if k == "gdt":
            w.star.granulation.dteff = Q(v)
        elif w.star is None:
            setattr(w, {"teff": "teff", "radius": "rad"}[k], Q(v))
        else:
            setattr(w.star, k, Q(v) if isinstance(v, list) else float(v))


@op
def op_mut_spot(w, a):
    sc = w.spotc().spots
    if not len(sc):
        return
    s = sc[a["i"] % len(sc)]
    for k, v in a["vals"].items():
        if k == "grow":
            s.is_growing = bool(v)
        elif k == "ratio":
            s.total_area_over_umbra_area = float(v)
        else:
            setattr(s, {"a": "area_current", "amax": "area_max", "tu": "teff_umbra", "tp": "teff_penumbra"}[k], Q(v))


@op
def op_mut_fac(w, a):
    fc = w.facc().faculae
    if not len(fc):
        return
    f = fc[a["i"] % len(fc)]
    for k, v in a["vals"].items():
        setattr(f, {"lat": "lat", "lon": "lon", "r": "radius", "rmax": "r_max", "depth": "depth"}[k], Q(v))


@op
def op_birth(w, a):
    """births from the star's generators"""
    dt = Q(a["dt"])
    ns, nf = len(w.star.spots.spots), len(w.star.faculae.faculae)
    if a["what"] == "spots":
        w.star.birth_spots(dt)
    else:
        w.star.birth_faculae(dt)
    return {"what": a["what"], "dt": can(dt, u.day), "ns": ns, "nf": nf, "sgen": see_spotgen(w.star.spot_generator),
            "fgen": see_facgen(w.star.fac_generator)}


@op
def op_mature(w, a):
    ns = len(w.star.spots.spots)
    w.star.generate_mature_spots(float(a["cov"]))
    return {"cov": fl(a["cov"]), "ns": ns, "sgen": see_spotgen(w.star.spot_generator)}


# queries -----------------------------------------------------------------
def themap(w):
    return w.star.map if w.star is not None else w.spots.map_pixels(w.rad, w.teff)


@op
def op_map(w, a):
    m = themap(w)
    rad = w.star.radius if w.star is not None else w.rad
    res = {"shape": list(m.shape), "map": as_K(m), "cov": fl(w.spotc().get_coverage(rad)), "sp": []}
    scribble(m)
    for s in w.spotc().spots:
        d = s.map_pixels(rad)
        pen = np.asarray(d[s.teff_penumbra])
        umb = np.asarray(d[s.teff_umbra])
        res["sp"].append({"rad": can(s.angular_radius(rad), u.rad), "km": can(s.radius, u.km),
                          "pen": [int(i) + 1 for i in np.flatnonzero(pen.ravel())],
                          "umb": [int(i) + 1 for i in np.flatnonzero(umb.ravel())], "shape": list(pen.shape)})
    return res


@op
def op_shapes(w, a):
    """where everything believes it is"""
    rad = w.star.radius if w.star is not None else w.rad
    m = themap(w)
    res = {"map": list(m.shape), "spots": [], "facs": [], "gens": "none", "genf": "none"}
    for s in w.spotc().spots:
        d = s.map_pixels(rad)
        res["spots"].append({"shape": list(np.shape(d[s.teff_penumbra])), "g": gkey(s.gridmaker),
                             "pen": [int(i) + 1 for i in np.flatnonzero(np.ravel(d[s.teff_penumbra]))]})
    for f in w.facc().faculae:
        d = f.map_pixels(rad)
        res["facs"].append({"shape": list(np.shape(d)), "g": gkey(f.gridmaker),
                            "pix": [int(i) + 1 for i in np.flatnonzero(np.ravel(d))]})
    if w.star is not None:
        full = w.star.add_faculae_to_map(0 * u.deg, 0 * u.deg)
        res["full"] = list(full.shape)
        w.star.calc_coverage({"lat": 0 * u.deg, "lon": 0 * u.deg})
        res["gens"], res["genf"] = gkey(w.star.spot_generator.gridmaker), gkey(w.star.fac_generator.gridmaker)
    else:
        res["full"] = list(m.shape)
    return res


@op
def op_facmap(w, a):
    v = view(a["v"])
    m0 = as_K(w.star.map)
    m1 = w.star.add_faculae_to_map(v["lat"], v["lon"])
    res = {"v": see_view(a["v"]), "m0": m0, "m1": as_K(m1), "shape": list(m1.shape)}
    scribble(m1)
    return res


@op
def op_facids(w, a):
    """the collection's own map of its faculae on a given map of temperatures"""
    fc, m = w.facc(), themap(w)
    rad, teff = (w.star.radius, w.star.teff) if w.star is not None else (w.rad, w.teff)
    ids, d = fc.map_pixels(m, rad, teff)
    return {"shape": list(ids.shape), "ids": [int(i) for i in np.ravel(ids)], "keys": [int(k) for k in d], "vals": [int(k) for k in d.values()],
            "map": as_K(m)}


@op
def op_facinfo(w, a):
    """one facula, its split into wall and floor seen under some angles"""
    f = w.facc().faculae[a["i"] % len(w.facc().faculae)]
    rad = w.star.radius if w.star is not None else w.rad
    out = {"f": see_fac(f), "wall": can(f.wall_dteff, u.K), "floor": can(f.floor_dteff, u.K),
           "ang": can(f.angular_radius(rad), u.rad), "seen": []}
    for ang in a["angles"]:
        e = f.effective_area(Q(ang))
        r = f.fractional_effective_area(Q(ang))
        (tw, aw), (tf, af) = e.items()
        (tw2, fw), (tf2, ff) = r.items()
        out["seen"].append({"ang": can(Q(ang), u.rad), "tw": can(tw, u.K), "tf": can(tf, u.K),
                            "aw": can(aw, u.km**2), "af": can(af, u.km**2), "tw2": can(tw2, u.K),
                            "tf2": can(tf2, u.K), "fw": fl(u.Quantity(fw).to_value("")),
                            "ff": fl(u.Quantity(ff).to_value(""))})
    return out


@op
def op_coverage(w, a):
    v = view(a["v"])
    p = a.get("pl")
    g = float(a.get("g", 0))
    kw = planet_kw(p)
    if "g" in a:
        kw["granulation_fraction"] = g
    tot, cov, pl = w.star.calc_coverage(v, **kw)
    m1 = w.star.add_faculae_to_map(v["lat"], v["lon"])
    mask, pl2 = w.star.get_transit_mask(v["lat"], v["lon"], **planet_kw(p or DEFAULT_PLANET, True))
    res = {"v": see_view(a["v"]), "pl": see_planet(p), "g": fl(g), "tot": see_fracs(tot), "cov": see_fracs(cov),
           "seen": fl(pl), "seen2": fl(pl2), "m1": as_K(m1), "mask": fls(mask)}
    scribble(tot, cov, m1, mask)
    return res


@op
def op_grancov(w, a):
    """coverage without granulation, and with the share g of it"""
    v = view(a["v"])
    kw = planet_kw(a.get("pl"))
    g = float(a["g"])
    tot0, cov0, pl0 = w.star.calc_coverage(v, **kw)
    tot, cov, pl = w.star.calc_coverage(v, granulation_fraction=g, **kw)
    return {"v": see_view(a["v"]), "g": fl(g), "tot0": see_fracs(tot0), "cov0": see_fracs(cov0), "seen0": fl(pl0),
            "tot": see_fracs(tot), "cov": see_fracs(cov), "seen": fl(pl)}


@op
def op_transit(w, a):
    v = view(a["v"])
    mask, pl = w.star.get_transit_mask(v["lat"], v["lon"], **planet_kw(a["pl"], True))
    res = {"v": see_view(a["v"]), "pl": see_planet(a["pl"]), "mask": fls(mask), "shape": list(np.shape(mask)),
           "seen": fl(pl)}
    scribble(mask)
    return res


@op
def op_plfrac(w, a):
    p = a["pl"]
    x = w.star.get_pl_frac(Q(p["phase"]) - 180 * u.deg, Q(p["a"]), Q(p["r"]), Q(p["inc"]))
    v = {"lat": [10, "deg"], "lon": [20, "deg"]}
    _, pl = w.star.get_transit_mask(*view(v).values(), **planet_kw(p, True))
    _, _, pl2 = w.star.calc_coverage(view(v), **planet_kw(p))
    return {"pl": see_planet(p), "raw": fl(x), "seen": fl(pl), "seen2": fl(pl2)}


@op
def op_overlap(w, a):
    from vspec_vsm.helpers import calc_circ_fraction_inside_unit_circle as frac
    return {"x": fl(a["x"]), "y": fl(a["y"]), "r": fl(a["r"]), "f": fl(frac(float(a["x"]), float(a["y"]), float(a["r"])))}


@op
def op_avg(w, a):
    v = view(a["v"])
    t = w.star.average_teff(v)
    tot, _, _ = w.star.calc_coverage(v)
    return {"v": see_view(a["v"]), "t": can(t, u.K), "tot": see_fracs(tot)}


@op
def op_mu(w, a):
    v = view(a["v"])
    mu = w.star.get_mu(v["lat"], v["lon"])
    mu = np.asarray(mu)
    keep = mu.copy()
    arg(mu)
    ld = w.star.ld_mask_for_plotting(mu)
    pr = w.star.area_projection_coefficient(keep.copy())
    return {"v": see_view(a["v"]), "mu": fls(keep), "ld": fls(ld), "pr": fls(pr), "shape": list(mu.shape),
            "ldm": fls(w.star.ld_mask(keep.copy())), "jac": fls(w.star.get_jacobian())}


# grids -------------------------------------------------------------------
@op
def op_grid(w, a):
    g = grid_params(a["grid"])
    gm = CoordinateGrid.new(g)
    lat, lon = gm.grid()
    k = gkey(gm)
    other = CoordinateGrid.new(g)
    res = {"g": k, "kind": type(gm).__name__, "lat": fls(lat.to_value(u.rad)), "lon": fls(lon.to_value(u.rad)),
           "area": fls(gm.area), "shlat": list(lat.shape), "shlon": list(lon.shape), "sharea": list(np.shape(gm.area)),
           "zeros": fls(gm.zeros()), "shz": list(gm.zeros().shape), "zi": str(gm.zeros(dtype="int16").dtype),
           "same": bool(gm == other), "views": []}
    lat2, lon2 = gm.grid()
    res["again"] = bool(np.array_equal(lat, lat2) and np.array_equal(lon, lon2))
    for v in a["views"]:
        vv = view(v)
        res["views"].append({"v": see_view(v), "mu": fls(gm.cos_angle_from_disk_center(vv["lat"], vv["lon"]))})
    if not isinstance(g, int):
        la, lo = gm.oned()
        res["one"] = {"lat": fls(la.to_value(u.rad)), "lon": fls(lo.to_value(u.rad)), "dlat": can(gm.dlat, u.rad),
                      "dlon": can(gm.dlon, u.rad)}
    return res


@op
def op_grideq(w, a):
    x, y = CoordinateGrid.new(grid_params(a["a"])), CoordinateGrid.new(grid_params(a["b"]))
    try:
        eq = "TRUE" if bool(x == y) else "FALSE"
    except TypeError:
        eq = "TypeError"
    return {"ga": gkey(x), "gb": gkey(y), "eq": eq}


@op
def op_gridnew(w, a):
    """arguments that are no grid parameters"""
    bad = {"float": 10.0, "str": "10", "list": [3, 4], "none": None, "floats": (3.0, 4), "floats2": (3, 4.0)}[a["what"]]
    return {"what": a["what"], "kind": type(CoordinateGrid.new(bad)).__name__}


@op
def op_display(w, a):
    gm = CoordinateGrid.new(grid_params(a["grid"]))
    n = gm.zeros().shape
    rng = np.random.default_rng(int(a["seed"]))
    kind = a["data"]
    if kind == "const":
        data = np.full(n, float(a["c"]))
    elif kind == "rand":
        data = rng.uniform(float(a["lo"]), float(a["hi"]), size=n)
    elif kind == "lat":
        data = np.broadcast_to(gm.grid()[0].to_value(u.rad), n).copy()
    else:
        data = np.zeros(n)
        data.ravel()[int(a["i"]) % data.size] = 1.0
    un = a.get("unit", "")
    x = data * unit(un) if un else data
    arg(x)
    la, lo, out = gm.display_grid(int(a["nlat"]), int(a["nlon"]), x)
    return {"g": gkey(gm), "data": fls(data), "kind": kind, "nlat": int(a["nlat"]), "nlon": int(a["nlon"]),
            "lat": fls(la), "lon": fls(lo), "shape": list(out.shape), "out": fls(u.Quantity(out).to_value(unit(un))),
            "unit": str(u.Quantity(out).unit == unit(un))}


# helpers -----------------------------------------------------------------
@op
def op_angle(w, a):
    from vspec_vsm.helpers import get_angle_between
    d = get_angle_between(*[Q(a[k]) for k in ("lat1", "lon1", "lat2", "lon2")])
    return {k: can(Q(a[k]), u.rad) for k in ("lat1", "lon1", "lat2", "lon2")} | {"d": can(d, u.rad)}


@op
def op_angles(w, a):
    """from each place to each other, one by one and as arrays"""
    from vspec_vsm.helpers import get_angle_between
    ps = [(Q(p["lat"]), Q(p["lon"])) for p in a["ps"]]
    la = arg(np.array([p[0].to_value(u.rad) for p in ps]) * u.rad)
    lo = arg(np.array([p[1].to_value(u.rad) for p in ps]) * u.rad)
    return {"ps": [see_view(p) for p in a["ps"]],
            "d": [[can(get_angle_between(*x, *y), u.rad) for y in ps] for x in ps],
            "arr": [fls(get_angle_between(*x, la, lo).to_value(u.rad)) for x in ps]}


@op
def op_fraction(w, a):
    """share of the hemisphere an observer sees that the spot covers"""
    rad = w.rad
    out = {"s": see_spot(w.one), "rad": can(rad, u.km), "seen": []}
    for v in a["vs"]:
        kw = {"n_points": int(a["n"])} if "n" in a else {}
        out["seen"].append({"v": see_view(v), "f": fl(w.one.surface_fraction(view(v), rad, **kw))})
    return out | {"n": int(a.get("n", 1001))}


@op
def op_proj(w, a):
    from vspec_vsm.helpers import proj_ortho
    v = view(a["v"])
    gm = CoordinateGrid.new(grid_params(a["grid"]))
    lat, lon = gm.grid()
    x, y = proj_ortho(v["lat"], v["lon"], lat, lon)
    return {"g": gkey(gm), "v": see_view(a["v"]), "x": fls(x), "y": fls(y)}


# one feature -------------------------------------------------------------
@op
def op_spot(w, a):
    w.__init__()
    w.teff, w.rad = 3000 * u.K, Q(a.get("rad", [0.15, "R_sun"]))
    w.one = make_spot(a["s"])
    return {"now": see_spot(w.one), "given": asked_spot(a["s"])}


@op
def op_spot_age(w, a):
    dt = step(w, a["dt"])
    pre = see_spot(w.one)
    w.one.age(dt)
    return {"dt": can(dt, u.day), "pre": pre, "now": see_spot(w.one)}


@op
def op_spot_parts(w, a):
    """the same spot aged in one go and in parts"""
    whole, parts = copy.deepcopy(w.one), copy.deepcopy(w.one)
    pre = see_spot(w.one)
    dts = [step(w, d) for d in a["dts"]]
    tot = sum(d.to_value(u.day) for d in dts) * u.day
    whole.age(tot)
    for d in dts:
        parts.age(d)
    return {"pre": pre, "tot": can(tot, u.day), "whole": see_spot(whole), "parts": see_spot(parts)}


@op
def op_fac(w, a):
    w.__init__()
    w.teff, w.rad = 3000 * u.K, Q(a.get("rad", [0.15, "R_sun"]))
    w.one = make_fac(a["f"])
    return {"now": see_fac(w.one), "given": asked_fac(a["f"])}


@op
def op_fac_age(w, a):
    dt = step(w, a["dt"])
    pre = see_fac(w.one)
    w.one.age(dt)
    return {"dt": can(dt, u.day), "pre": pre, "now": see_fac(w.one)}


@op
def op_fac_parts(w, a):
    whole, parts = copy.deepcopy(w.one), copy.deepcopy(w.one)
    pre = see_fac(w.one)
    dts = [step(w, d) for d in a["dts"]]
    tot = sum(d.to_value(u.day) for d in dts) * u.day
    whole.age(tot)
    for d in dts:
        parts.age(d)
    return {"pre": pre, "tot": can(tot, u.day), "whole": see_fac(whole), "parts": see_fac(parts)}


# generators --------------------------------------------------------------
@op
def op_spotgen(w, a):
    w.__init__()
    w.rng = np.random.default_rng(int(a.get("seed", 0)))
    w.rad, w.teff = Q(a["rad"]), 3000 * u.K
    w.sgen = make_spotgen(a["gen"], w.rng)
    return {"gen": see_spotgen(w.sgen), "rad": can(w.rad, u.km)}


@op
def op_spot_nexp(w, a):
    dt = Q(a["dt"])
    g = w.sgen
    return {"gen": see_spotgen(g), "rad": can(w.rad, u.km), "dt": can(dt, u.day),
            "n": fl(g.get_n_spots_to_birth(dt, w.rad)), "life": can(g.mean_lifetime, u.day),
            "area": can(g.mean_area, u.km**2), "static": bool(g.is_static)}


def due(a, f, rad):
    """the time asked for, or one in which so many births are due"""
    dt = Q(a["dt"])
    if "mean" not in a:
        return dt
    n = float(u.Quantity(f(dt, rad)).to_value(u.dimensionless_unscaled))
    return arg(dt * a["mean"] / n) if np.isfinite(n) and n > 0 else dt


@op
def op_spot_births(w, a):
    """many births of the same expected size: counts, and the newborn"""
    dt = due(a, w.sgen.get_n_spots_to_birth, w.rad)
    n = [w.sgen.birth_spots(dt, w.rad) for _ in range(int(a["n"]))]
    new = [s for x in n for s in x]
    return {"gen": see_spotgen(w.sgen), "rad": can(w.rad, u.km), "dt": can(dt, u.day), "counts": [len(x) for x in n],
            "new": [see_spot(s) for s in new[: int(a.get("keep", 400))]]}


def _make(f, a):
    """n features, all at once or some at a time"""
    n, by = int(a["n"]), int(a.get("by", 0))
    return [x for k in range(0, n, by) for x in f(min(by, n - k))] if by and n else list(f(n))


@op
def op_spot_make(w, a):
    new = _make(w.sgen.generate_spots, a)
    return {"gen": see_spotgen(w.sgen), "n": int(a["n"]), "new": [see_spot(s) for s in new]}


@op
def op_spot_mature(w, a):
    cov = float(a["cov"])
    new = w.sgen.generate_mature_spots(cov, w.rad)
    return {"gen": see_spotgen(w.sgen), "rad": can(w.rad, u.km), "cov": fl(cov), "new": [see_spot(s) for s in new],
            "ang": [can(s.angular_radius(w.rad), u.rad) for s in new]}


@op
def op_facgen(w, a):
    w.__init__()
    w.rng = np.random.default_rng(int(a.get("seed", 0)))
    w.rad, w.teff = Q(a["rad"]), 3000 * u.K
    w.fgen = make_facgen(a["gen"], w.rng)
    return {"gen": see_facgen(w.fgen), "rad": can(w.rad, u.km)}


@op
def op_fac_nexp(w, a):
    dt = Q(a["dt"])
    g = w.fgen
    return {"gen": see_facgen(g), "rad": can(w.rad, u.km), "dt": can(dt, u.day),
            "n": fl(g.get_n_faculae_expected(dt, w.rad)), "area": can(g.mean_area, u.km**2)}


@op
def op_fac_births(w, a):
    dt = due(a, w.fgen.get_n_faculae_expected, w.rad)
    n = [w.fgen.birth_faculae(dt, w.rad) for _ in range(int(a["n"]))]
    new = [s for x in n for s in x]
    return {"gen": see_facgen(w.fgen), "rad": can(w.rad, u.km), "dt": can(dt, u.day), "counts": [len(x) for x in n],
            "new": [see_fac(s) for s in new[: int(a.get("keep", 400))]]}


@op
def op_fac_make(w, a):
    new = _make(w.fgen.generate_faculae, a)
    return {"gen": see_facgen(w.fgen), "n": int(a["n"]), "new": [see_fac(s) for s in new]}


# flares ------------------------------------------------------------------
@op
def op_flaregen(w, a):
    w.__init__()
    w.rng = np.random.default_rng(int(a.get("seed", 0)))
    w.flgen = make_flaregen(a["gen"], w.rng)
    return {"gen": see_flaregen(w.flgen)}


@op
def op_flare_law(w, a):
    g = w.flgen
    dt = Q(a["dt"])
    es = [Q(e) for e in a["es"]]
    xs = [float(x) for x in a["xs"]]
    arr = arg(np.array([e.to_value(u.erg) for e in es]) * u.erg)
    return {"gen": see_flaregen(g), "dt": can(dt, u.day), "es": [can(e, u.erg) for e in es], "xs": [fl(x) for x in xs],
            "freq": [can(g.frequency_greater_than(e), PER_DAY) for e in es],
            "nexp": [fl(g.get_nexp_greater_than(e, dt)) for e in es], "ntot": fl(g.get_ntotal(dt)),
            "cdf": [fl(g.cdf(e)) for e in es], "pdf": [fl(g.pdf(e)) for e in es],
            "cdfv": fls(g.cdf(arr)), "pdfv": fls(g.pdf(arr)),
            "qs": fls(g.quantile_func(arg(np.array(xs))).to_value(u.erg)),
            "q1": [fl(g.quantile_func(x).to_value(u.erg)[0]) for x in xs]}


@op
def op_flare_badq(w, a):
    w.flgen.quantile_func(np.array([float(x) for x in a["xs"]]))
    return {}


@op
def op_flare_series(w, a):
    g = w.flgen
    dt = Q(a["dt"])
    runs = [g.generate_flare_series(dt) for _ in range(int(a["n"]))]
    keep = int(a.get("keep", 30))
    return {"gen": see_flaregen(g), "dt": can(dt, u.day), "counts": [len(r) for r in runs],
            "runs": [[see_flare(f) for f in r[:60]] for r in runs[:keep]],
            "es": [can(f.energy, u.erg) for r in runs for f in r][:3000],
            "tps": [can(f.tpeak, u.day) for f in max(runs, key=len, default=[])],
            "sl": [fl(np.sin(f.lat)) for r in runs for f in r][:3000],
            "lo": [can(f.lon, u.rad) for r in runs for f in r][:3000]}


@op
def op_flare_draws(w, a):
    """the generator's own draws"""
    g, n = w.flgen, int(a["n"])
    pk = np.asarray(g.get_peaks(n))
    return {"gen": see_flaregen(g), "n": n, "peaks": fls(pk), "fwhm": fls(g.gen_fwhm(n).to_value(u.day)),
            "T": fls(g.gen_teffs(n).to_value(u.K))}


@op
def op_flares(w, a):
    """a collection with given flares, on its own or the star's"""
    if not a.get("star"):
        w.__init__()
    fs = [make_flare(f) for f in a["flares"]]
    c = FlareCollection(fs[0] if a.get("one") and len(fs) == 1 else fs)
    if a.get("star"):
        w.star.flares = c
    else:
        w.flares = c
    return {"given": [asked_flare(f) for f in a["flares"]]}


@op
def op_star_flares(w, a):
    """flares of a star over an observation"""
    w.star.get_flares_over_observation(Q(a["dt"]))
    return {"n": len(w.star.flares.flares), "dt": can(Q(a["dt"]), u.day), "gen": see_flaregen(w.star.flare_generator)}


def _ids(fc, sel):
    """which flares of the collection these are: the same objects, or ones with the same parameters"""
    ids = {id(f): i + 1 for i, f in enumerate(fc.flares)}
    seen = [see_flare(f) for f in fc.flares]

    def find(f):
        x = see_flare(f)
        return seen.index(x) + 1 if x in seen else 0
    return [ids.get(id(f)) or find(f) for f in sel]


@op
def op_flare_window(w, a):
    fc = w.flarec()
    t0, t1 = Q(a["t0"]), Q(a["t1"])
    v = view(a["v"]) if "v" in a else None
    vis = fc.get_visible_flares_in_timeperiod(t0, t1, v) if v else fc.get_visible_flares_in_timeperiod(t0, t1)
    act = fc.get_flares_in_timeperiod(t0, t1)
    if w.star is not None and v:
        ints = w.star.get_flare_int_over_timeperiod(t0, t1, v)
    else:
        ints = fc.get_flare_integral_in_timeperiod(t0, t1, v) if v else fc.get_flare_integral_in_timeperiod(t0, t1)
    return {"t0": can(t0, u.day), "t1": can(t1, u.day), "v": see_view(a["v"]) if v else {"lat": "0.0", "lon": "0.0"},
            "vis": _ids(fc, vis), "act": _ids(fc, act), "mask": [bool(x) for x in fc.mask(t0, t1)],
            "peaks": fls(fc.peaks.to_value(u.day)), "fwhms": fls(fc.fwhms.to_value(u.day)),
            "ints": [{"T": can(d["Teff"], u.K), "ta": can(d["timearea"], u.km**2 * u.day)} for d in ints]}


@op
def op_flare_split(w, a):
    """the window as a whole and cut at a sampling time"""
    fc = w.flarec()
    v = view(a["v"])
    ts = [Q(t) for t in a["ts"]]

    def tot(x, y):
        acc = {}
        for d in fc.get_flare_integral_in_timeperiod(x, y, v):
            acc[d["Teff"].to_value(u.K)] = acc.get(d["Teff"].to_value(u.K), 0) + d["timearea"].to_value(u.km**2 * u.day)
        return acc
    whole = tot(ts[0], ts[-1])
    parts = [tot(x, y) for x, y in zip(ts, ts[1:])]
    Ts = [f.Teff.to_value(u.K) for f in fc.flares]
    return {"whole": [fl(whole.get(T, 0)) for T in Ts], "parts": [fl(sum(p.get(T, 0) for p in parts)) for T in Ts],
            "t0": can(ts[0], u.day), "t1": can(ts[-1], u.day), "k": len(ts) - 1}


@op
def op_flare_curve(w, a):
    f = make_flare(a["f"])
    t = times(a["t"])
    ar = f.areacurve(t)
    return {"f": asked_flare(a["f"]), "t": fls(t.to_value(u.day)), "a": fls(ar.to_value(u.km**2)),
            "peak": can(f.calc_peak_area(), u.km**2), "ta": can(f.get_timearea(t), u.km**2 * u.day)}


@op
def op_lights(w, a):
    """the light curve of a group of flares, as it is or averaged over exposures"""
    from vspec_vsm.xoflares import get_light_curvenp
    t = np.array([float(x) for x in a["t"]])
    fs = a["fl"]
    fl3 = [np.array([float(f[k]) for f in fs]) for k in ("tp", "fw", "am")]
    if a.get("one") and len(fs) == 1:
        fl3 = [float(x[0]) for x in fl3]
    for x in [t] + fl3:
        arg(x)
    kw = {}
    if "texp" in a:
        kw["texp"] = float(a["texp"])
    if "over" in a:
        kw["oversample"] = int(a["over"])
    y = get_light_curvenp(t, *fl3, **kw)
    return {"t": fls(t), "fl": [{k: fl(f[k]) for k in ("tp", "fw", "am")} for f in fs], "y": fls(y), "shape": list(np.shape(y)),
            "texp": fl(a.get("texp", 0)), "exp": "texp" in a, "over": int(a.get("over", 7))}


# calls that are refused --------------------------------------------------
def refused(w, a):
    """one call with an argument that makes no sense"""
    k, s = a["what"], w.star
    bad = {"km": 3 * u.km, "K": 200 * u.K, "text": "soon", "none": None, "deg": 3 * u.deg}.get(a.get("bad"))
    good = make_spot(a["spot"]) if "spot" in a else None
    fac = make_fac(a["fac"]) if "fac" in a else None
    thing = {"text": "spot", "none": None, "int": 3}.get(a.get("bad"))
    return {
        "mature": lambda: s.generate_mature_spots(float(a.get("cov", 0))),
        "genmature": lambda: s.spot_generator.generate_mature_spots(float(a.get("cov", 0)), s.radius),
        "spots": lambda: s.add_spot([good, thing] if a.get("second") else [thing, good]),
        "spot": lambda: s.add_spot(thing),
        "facs": lambda: s.add_fac([fac, thing] if a.get("second") else [thing, fac]),
        "fac": lambda: s.add_fac(thing),
        "age": lambda: s.age(bad),
        "births": lambda: s.birth_spots(bad),
        "birthf": lambda: s.birth_faculae(bad),
        "flares": lambda: s.get_flares_over_observation(bad),
        "cover": lambda: s.calc_coverage({"lat": bad, "lon": bad}),
        "transit": lambda: s.get_transit_mask(0 * u.deg, 0 * u.deg, bad, bad, bad, bad),
        "gran": lambda: s.get_granulation_coverage(bad),
        "window": lambda: s.get_flare_int_over_timeperiod(bad, bad, {"lat": 0 * u.deg, "lon": 0 * u.deg}),
        "bigplanet": lambda: s.calc_coverage({"lat": 0 * u.deg, "lon": 0 * u.deg}, orbit_radius=3 * s.radius, planet_radius=a.get("f", 1.5) * s.radius,
                                             phase=a.get("phase", 10) * u.deg, inclination=90 * u.deg),
    }[k]


@op
def op_reject(w, a):
    call = refused(w, a)
    state = lambda: str([r.bit_generator.state for r in [w.rng] + w.rngs])
    before, err = state(), ""
    try:
        call()
    except Hang:
        raise
    except Exception as e:
        err = type(e).__name__
    return {"what": a["what"], "err": err, "must": bool(a.get("must")), "rng": before == state()}


# copies ------------------------------------------------------------------
def copied(w, how):
    """another world with copies of everything in this one"""
    x = World()
    old = dict(w.__dict__)
    new = copy.deepcopy(old) if how == "copy" else pickle.loads(pickle.dumps(old, protocol={"pickle": 2, "pickle4": 4}.get(how, 5)))
    x.__dict__.update(new)
    if w.star is not None:
        for k in ("spot_generator", "fac_generator", "flare_generator", "granulation"):
            o = getattr(w.star, k)
            if id(o) in GIVEN and GIVEN[id(o)][0] is o:
                give(getattr(x.star, k), GIVEN[id(o)][1])
    return x


@op
def op_save(w, a):
    """goes on with a copy, or changes a copy and goes on with the original"""
    state = lambda w: str([r.bit_generator.state for r in [w.rng] + w.rngs])
    before = state(w)
    x = copied(w, a["how"])
    res = {"copy": x.snapshot(), "rng": state(x) == before, "lone": True}
    if a.get("fork"):
        for b in a["fork"]:
            e = run_op(x, b)
            if not e["ok"]:
                raise RuntimeError("copy: " + e["err"] + " " + e.get("msg", ""))
        res["lone"] = state(w) == before
    else:
        w.__dict__.update(x.__dict__)
    return res


# granulation -------------------------------------------------------------
@op
def op_gran(w, a):
    w.__init__()
    w.gran = make_gran(a["gran"])


@op
def op_gran_cov(w, a):
    t = times(a["t"])
    if w.star is not None:
        g = w.star.granulation
        c = w.star.get_granulation_coverage(t)
        c2 = w.star.get_granulation_coverage(t)
    else:
        g = w.gran
        c, c2 = g.get_coverage(t), g.get_coverage(t)
    p = given(g) or {"mean": "0.0", "amp": "0.0", "perh": "0.0"}       # built here, or switched off
    return {"n": int(t.size), "shape": list(np.shape(c)), "tshape": list(t.shape), "c": fls(c), "again": fls(c2),
            "mean": p["mean"], "amp": p["amp"], "perh": p["perh"], "gdt": can(g.dteff, u.K), "star": w.star is not None,
            "t": fls(t.to_value(u.hr))}


@op
def op_gran_many(w, a):
    """first points of series with many seeds"""
    t = times(a["t"])
    out = []
    for s in range(int(a["n"])):
        d = dict(a["gran"], seed=int(a["gran"]["seed"]) + s)
        out.append(fls(make_gran(d).get_coverage(t)))
    return {"c": out, "mean": fl(a["gran"]["mean"]), "amp": fl(a["gran"]["amp"]), "perh": can(Q(a["gran"]["per"]), u.hr),
            "t": fls(t.to_value(u.hr))}


# misc --------------------------------------------------------------------
@op
def op_msh(w, a):
    return {"km2": fl((1 * MSH).to_value(u.km**2)), "rsun": fl((1 * u.R_sun).to_value(u.km))}


@op
def op_rng(w, a):
    """what the star's generators would draw next, without drawing it"""
    return {"s": str([r.bit_generator.state for r in [w.rng] + w.rngs])}


# ---------------------------------------------------------------- running
def run_op(w, a):
    ev = {"op": a["op"], "expect": a.get("expect", ""), "ok": True, "err": "", "args": True}
    if "w" in a:
        ev["w"] = a["w"]
    if a.get("keep") == 1 and a["op"] in ("map", "shapes", "coverage"):
        ev["kept"] = True
    if a.get("aside"):
        ev["aside"] = True
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            res = OPS[a["op"]](w, a)
        ev["res"] = res if res is not None else {"none": ""}
    except Hang:
        raise
    except Exception as e:  # the code under test raised
        ev.update(ok=False, err=type(e).__name__, msg=str(e)[:300], res={"none": ""})
    if not args_kept():
        ev["args"] = False
        ARGS.clear()
    try:
        ev["post"] = w.snapshot()
    except Hang:
        raise
    except Exception as e:
        ev.update(ok=False, err="state:" + type(e).__name__, msg=str(e)[:300], post=dict(NOSTATE))
    return ev


def run(scn, limit=60):
    """one scenario -> its trace (list of events)"""
    def boom(*_):
        raise Hang()
    old = signal.signal(signal.SIGALRM, boom)
    signal.alarm(int(scn.get("limit", limit)))
    worlds = {}
    GIVEN.clear()
    ARGS.clear()
    tr = []
    try:
        for a in scn["ops"]:
            w = worlds.setdefault(a.get("w", 0), World())
            if a.get("maybe") and not len(w.facc().faculae):
                continue
            ev = run_op(w, a)
            tr.append(ev)
            if not ev["ok"] and ev["err"] != ev["expect"]:
                break
    except Hang:
        tr.append({"op": a["op"], "expect": a.get("expect", ""), "ok": False, "err": "Hang", "msg": "no answer", "args": True,
                   "res": {"none": ""}, "post": dict(NOSTATE), **({"w": a["w"]} if "w" in a else {})})
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    return tr
