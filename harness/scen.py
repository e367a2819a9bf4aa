"""Random scenarios per property, reproducible from (property, seed).

Inputs are drawn from the whole documented domain with extra weight on its corners: both kinds of grid,
poles, longitudes outside [0, 360), several units for the same quantity, limb darkening, zero and exact
boundary time steps, many or no features, features larger than a hemisphere, repeated regridding.
"""
import math
import random

from pairs import QUERIES

KM2_MSH = 3.0429e6        # about; only used to keep inputs in range
RSUN = 695700.0


class R(random.Random):
    def pick(self, *xs):
        return self.choice(xs)

    def log(self, lo, hi):
        return math.exp(self.uniform(math.log(lo), math.log(hi)))


def r4(x):
    return float(f"{x:.6g}")


# ---------------------------------------------------------------- values
def ang(r, deg, generic=False):
    deg = r4(deg)
    return [deg, "deg"] if generic or r.random() < 0.75 else [r4(math.radians(deg)), "rad"]


def lat(r, generic=False):
    if generic:
        return [r4(r.uniform(-84, 84)), "deg"]
    k = r.random()
    if k < 0.12:
        return [r.pick(90, -90, 0, 45, -45), "deg"]
    return ang(r, math.degrees(math.asin(r.uniform(-1, 1))))


def lon(r, generic=False):
    if generic:
        return [r4(r.uniform(0, 360)), "deg"]
    k = r.random()
    if k < 0.12:
        return [r.pick(0, 90, 180, 270, 360, 359.999), "deg"]
    if k < 0.25:
        return ang(r, r.uniform(-400, 900))
    return ang(r, r.uniform(0, 360))


def on_grid(r):
    """right above a point of the star's rectangular grid"""
    g = r.g
    return {"lat": [-90 + 180 * r.randrange(g[0]) / (g[0] - 1), "deg"], "lon": [360 * r.randrange(g[1]) / g[1], "deg"]}


def v(r, generic=False):
    if not generic and isinstance(getattr(r, "g", None), list) and r.random() < 0.08:
        return on_grid(r)
    if not generic and r.random() < 0.15:
        return {"lat": [r.pick(0, 0, 90, -90), "deg"], "lon": [r.pick(0, 0, 180, 90), "deg"]}
    return {"lat": lat(r, generic), "lon": lon(r, generic)}


def dur(r, lo=1e-4, hi=60.0):
    d = r.log(lo, hi)
    un, f = r.pick(("day", 1), ("day", 1), ("hr", 24), ("min", 1440), ("s", 86400), ("yr", 1 / 365.25), ("week", 1 / 7))
    return [r4(d * f), un]


def near(r, kind, n=10):
    """a step about as long as a feature needs to reach its maximum or its end"""
    return {kind: r.randint(0, n - 1), "to": r.pick("max", "end", "end"),
            "f": r.pick(1.0, 1 + r.uniform(-1e-3, 1e-3), r.uniform(0.97, 1.03), r.uniform(0.97, 1.0), r.uniform(0.5, 1.2)),
            "u": r.pick("day", "day", "hr", "s", "yr")}


def area(r, msh):
    """an area, in one of the units people use"""
    return r.pick([r4(msh), "MSH"], [r4(msh), "MSH"], [r4(msh * KM2_MSH), "km2"], [r4(msh * KM2_MSH * 1e6), "m2"])


SMALL_GRIDS = [40, 77, 100, 150, 233, [5, 8], [7, 12], [9, 16], [12, 7], [13, 24], [4, 40], [40, 3], [5, 5]]


def grid(r, small=True):
    if r.random() < 0.5:
        return r.pick(*SMALL_GRIDS)
    if r.random() < 0.5:
        return r.randint(20, 260)
    return [r.randint(4, 16), r.randint(3, 22)]


def temp(r, lo, hi):
    # two decimals at most, never halfway between labels
    return [round(r.uniform(lo, hi), r.pick(0, 0, 1, 2)), "K"]


def spot(r, g=None, rad=0.15, big=True, life=True, generic=False):
    sphere = 2e6 * rad * rad          # MSH
    amax = r.log(sphere * 3e-3, sphere * (0.45 if big else 0.12))
    if big and r.random() < 0.06:
        amax = sphere * r.uniform(0.5, 0.97)
    if r.random() < 0.06:             # smaller than the distance of grid points
        amax = r.log(sphere * 1e-6, sphere * 3e-3)
    grow = r.random() < 0.6
    a = amax * (r.uniform(0.02, 1.0) if r.random() < 0.9 else 1.0)
    tp = r.uniform(2400, 3250) if r.random() < 0.9 else r.uniform(2950, 6800)
    s = {"lat": lat(r, generic), "lon": lon(r, generic), "amax": area(r, amax), "tp": [round(tp, r.pick(0, 0, 1)), "K"]}
    f = s["amax"][0] / amax
    s["a"] = list(s["amax"]) if a == amax else [min(r4(a * f), s["amax"][0]), s["amax"][1]]
    if a < 0.999 * amax and r.random() < 0.25:
        s["a"] = area(r, a)
    if r.random() < 0.1:
        s["tu"] = list(s["tp"])
    else:
        s["tu"] = [round(s["tp"][0] - r.uniform(1, 600), r.pick(0, 0, 1)), "K"]
    if r.random() < 0.85:
        s["ratio"] = r4(r.pick(r.uniform(1, 12), 5, 1))
    if r.random() < 0.85:
        s["grow"] = grow
    if life and r.random() < 0.85:
        s["gr"] = r.pick([r4(r.log(0.05, 3)), "1/day"], [r4(r.log(0.002, 0.1)), "1/hr"], [0.52, "1/day"])
        k = r.random()
        if k < 0.08:
            s["gr"] = [0, "1/day"]
        elif k < 0.16:                # over years, or within minutes
            s["gr"] = [r4(r.pick(r.log(1e-6, 0.05), r.log(3, 1e4))), "1/day"]
        d = r.log(amax * 0.02, amax * 3)
        s["dr"] = r.pick([r4(d), "MSH/d"], [r4(d * KM2_MSH), "km2/day"], [r4(d * KM2_MSH / 24), "km2/hr"])
        if r.random() < 0.08:
            s["dr"] = [0, "MSH/d"]
    s["grid"] = g if g is not None and r.random() < 0.5 else grid(r)
    if r.random() < 0.3:
        s["gm"] = 1
    return s


def length(r, km):
    return r.pick([r4(km), "km"], [r4(km), "km"], [r4(km * 1e3), "m"], [r4(km / 1e3), "Mm"], [r4(km / RSUN), "R_sun"])


def facula(r, g=None, rad=0.15, generic=False):
    R0 = rad * RSUN
    rmax = r.log(R0 * 0.03, R0 * 0.9)
    k = r.random()
    if k < 0.08:
        rmax = R0 * r.uniform(1.0, 3.0)
    elif k < 0.12:
        rmax = R0 * r.log(0.001, 0.03)
    grow = r.random() < 0.6
    x = rmax * (math.exp(r.uniform(-1.95, -0.01)) if r.random() < 0.84 else r.pick(1.0, math.exp(r.uniform(-7, -2))))
    f = {"lat": lat(r, generic), "lon": lon(r, generic), "rmax": length(r, rmax), "depth": length(r, x * r.log(0.05, 3)),
         "life": dur(r, 0.05, 60), "grow": grow, "grid": g if g is not None and r.random() < 0.5 else grid(r)}
    sc = f["rmax"][0] / rmax
    f["r"] = list(f["rmax"]) if x == rmax else [min(r4(x * sc), f["rmax"][0]), f["rmax"][1]]
    if x < 0.999 * rmax and r.random() < 0.25:
        f["r"] = length(r, x)
    f["fmin"] = length(r, x * r.pick(r.uniform(0.1, 0.95), r.uniform(1.05, 2))) if r.random() < 0.9 else list(f["r"])
    # floor and wall differ at every radius up to the maximum
    f["fs"] = r.pick([0, "K/km"], [r4(-r.uniform(1, 60) / rmax), "K/km"])
    f["fb"] = [r4(-r.uniform(60, 300)) + 0.13, "K"]
    f["ws"] = r.pick([0, "K/km"], [r4(r.uniform(1, 60) / rmax), "K/km"])
    f["wi"] = [r4(r.uniform(130, 500)) + 0.17, "K"]
    if r.random() < 0.12:             # a floor hotter than the wall
        f["fb"], f["wi"] = [r4(r.uniform(310, 600)) + 0.13, "K"], [r4(r.uniform(-150, 130)) + 0.17, "K"]
    elif r.random() < 0.1:
        f["wi"] = [1500.2, "K"]       # beyond the warmest temperature allowed
    elif r.random() < 0.08:
        f["fb"] = [-1200.3, "K"]
    if r.random() < 0.3:
        f["gm"] = 1
    return f


def planet(r, rad=0.15, transit=0.7):
    """mostly near or on the stellar disk, in front or behind"""
    R0 = rad * RSUN
    rp = R0 * (r.pick(r.uniform(0.03, 0.35), r.uniform(0.2, 0.95), 0.5) if r.random() < 0.9 else r.pick(r.log(0.002, 0.03), r.uniform(0.95, 1)))
    a = R0 * r.pick(r.uniform(1.5, 8), r.uniform(5, 60))
    if r.random() < transit:
        x, y = r.uniform(-1.4, 1.4), r.uniform(-1.4, 1.4)
        if r.random() < 0.25:
            x = 0.0
        if r.random() < 0.25:
            y = 0.0
        if r.random() < 0.25:         # at the edge of the disk
            d, th = 1 + rp / R0 * r.uniform(-1.1, 1.1), r.pick(0, 0, math.pi, r.uniform(0, 2 * math.pi))
            x, y = d * math.cos(th), d * math.sin(th)
        x, y = x * min(1, 0.9 * a / R0 / 1.5), y * min(1, 0.9 * a / R0 / 1.5)
        phi = math.asin(x * R0 / a)
        inc = math.acos(max(-1, min(1, y * R0 / a / math.cos(phi))))
        phase = (180 if r.random() < 0.7 else 0) + math.degrees(phi)
        inc = math.degrees(inc)
    else:
        phase, inc = r.uniform(-360, 720), r.pick(90, r.uniform(0, 180), r.uniform(80, 100))
    if r.random() < 0.15:
        phase += r.pick(360, -360)
    return {"a": r.pick([r4(a), "km"], [r4(a / 1.495978707e8), "AU"]), "r": r.pick([r4(rp), "km"], [r4(rp / 6378.1), "R_earth"]),
            "phase": ang(r, phase), "inc": ang(r, inc)}


def ld(r):
    k = r.random()
    if k < 0.25:
        return {}
    if k < 0.5:
        return {"u1": r4(r.uniform(0, 1))}
    if k < 0.6:
        return {"u2": r4(r.uniform(0, 1))}
    if k < 0.67:          # steep in the middle, flat at the limb
        u1 = r4(r.uniform(1, 1.8))
        return {"u1": u1, "u2": r4(-r.uniform(u1 - 0.99, u1 / 2))}
    u1 = r4(r.uniform(-0.3, 0.95))
    return {"u1": u1, "u2": r4(r.uniform(-0.4, 0.99 - max(u1, 0)))}


def gran(r):
    return {"mean": r4(r.uniform(0, 1)), "amp": r4(r.uniform(0, 0.2)), "per": [r4(r.uniform(1, 50)), "hr"],
            "dt": [r.pick(0, 100, 200, 250.5, round(r.uniform(1, 600), 1), round(r.uniform(600, 1800), 1)), "K"],
            "seed": r.randint(0, 2**31 - 1)}


def spotgen(r, rad=0.15, static=None):
    sphere = 2e6 * rad * rad
    mean = r.log(sphere * 0.01, sphere * 0.08)
    st = static if static is not None else r.random() < 0.2
    return {"mean": area(r, mean), "sig": r4(r.pick(0, r.uniform(0.05, 0.8))), "tu": temp(r, 2300, 2600),
            "tp": temp(r, 2650, 2950), "gr": r.pick([r4(r.log(0.1, 1.5)), "1/day"], [r4(r.log(0.005, 0.06)), "1/hr"]),
            "dr": [0, "MSH/d"] if st else r.pick([r4(mean * r.log(0.05, 1)), "MSH/d"], [r4(mean * KM2_MSH * r.log(0.05, 1)), "km2/day"]),
            "init": area(r, mean * r.uniform(0.02, 0.6)), "dist": r.pick("iso", "solar"), "cov": r4(r.uniform(0, 0.4) if r.random() < 0.9 else r.uniform(0.4, 1)),
            "grid": grid(r), **({"gm": 1} if r.random() < 0.4 else {})}


def facgen(r, rad=0.15):
    R0 = rad * RSUN
    rp = R0 * r.uniform(0.05, 0.2)
    return {"rp": length(r, rp), "rsig": r4(r.pick(0, r.uniform(0.02, 0.2))), "depth": length(r, rp * r.uniform(0.1, 1)),
            "life": dur(r, 0.2, 20), "lsig": r4(r.pick(0, r.uniform(0.02, 0.3))), "fs": [0, "K/km"],
            "fmin": length(r, rp * r.uniform(0.1, 0.8)), "fb": [r4(-r.uniform(60, 200)), "K"], "ws": [0, "K/km"],
            "wi": [r4(r.uniform(60, 300)), "K"], "cov": r4(r.uniform(0, 0.4) if r.random() < 0.9 else r.uniform(0.4, 1)), "grid": grid(r),
            **({"gm": 1} if r.random() < 0.4 else {})}


def flaregen(r):
    alpha = -r4(r.uniform(0.5, 1.4) if r.random() < 0.85 else r.uniform(1.4, 2.2))
    emin = r.log(1e31, 1e35) if r.random() < 0.9 else r.log(1e28, 1e31)
    rate = r.log(0.05, 20)        # per day above emin
    beta = math.log10(rate) - alpha * math.log10(emin)
    return {"tm": [r4(r.uniform(6000, 12000)), "K"], "ts": [r4(r.uniform(10, 800)), "K"],
            "fm": r.pick([r4(r.uniform(0.5, 10)), "hr"], [r4(r.uniform(0.02, 0.4)), "day"]), "fsig": r4(r.uniform(0.01, 0.5)),
            "alpha": alpha, "beta": float(f"{beta:.10g}"), "emin": r.pick([r4(emin), "erg"], [r4(emin * 1e-7), "J"]),
            "cl": r.randint(0, 6)}


def days(x):
    return x[0] / {"day": 1, "hr": 24, "min": 1440, "s": 86400}[x[1]]


def flare(r, tmax=10.0, T=None):
    fw = r.log(0.003, 2)
    return {"fwhm": r.pick([r4(fw), "day"], [r4(fw * 24), "hr"], [r4(fw * 1440), "min"], [r4(fw * 86400), "s"]), "e": [r4(r.log(1e30, 1e37)), "erg"] if r.random() < 0.8 else [r4(r.log(1e23, 1e30)), "J"],
            "lat": lat(r), "lon": lon(r), "T": [T or r4(r.uniform(5000, 15000)), "K"],
            "tp": r.pick([r4(r.uniform(-1, tmax)), "day"], [r4(24 * r.uniform(0, tmax)), "hr"], [r4(1440 * r.uniform(0, tmax)), "min"])}


RADS = [0.15, 0.15, 1.0, 0.11, 2.3]


def radius(r):
    return r.pick(*RADS) if r.random() < 0.6 else r4(r.log(0.1, 2.5))


def big_grid(r):
    return r.pick(r.randint(800, 3000), [r.randint(20, 50), r.randint(24, 60)])


def regrid(r):
    """another grid, often one that is easily mistaken for the present one"""
    g = getattr(r, "g", None)
    k = r.random()
    if isinstance(g, list) and k < 0.2 and min(g) >= 4:
        g = g[::-1]
    elif isinstance(g, list) and k < 0.3:
        g = g[0] * g[1]
    elif isinstance(g, list) and k < 0.4:
        a = [d for d in range(4, g[0] * g[1] // 3 + 1) if g[0] * g[1] % d == 0]
        g = [a[0], g[0] * g[1] // a[0]] if a else grid(r)
    elif isinstance(g, int) and k < 0.15:
        g = [d for d in (4, 5, 6, 7, 8, 9, 10, 11) if g % d == 0]
        g = [g[-1], r.g // g[-1]] if g and r.g // g[-1] >= 3 else grid(r)
    else:
        g = grid(r)
    r.g = g
    return {"op": "regrid", "grid": g}


def alike(r, teff, spots, facs):
    """temperatures that differ in the second decimal only, features in the same place"""
    both = spots + facs
    if len(both) > 1:
        for x in both[1:]:
            if r.random() < 0.1:
                y = r.choice(both)
                x["lat"], x["lon"] = list(y["lat"]), list(y["lon"])
    if spots and r.random() < 0.2:
        base = r.pick(teff[0], r.choice(spots)["tp"][0], 3000.0)
        for s in spots:
            if r.random() < 0.7:
                s["tp"] = [round(base + 0.01 * r.randint(-4, 4), 2), "K"]
                s["tu"] = [round(s["tp"][0] - r.pick(0.01 * r.randint(0, 3), round(r.uniform(1, 600))), 2), "K"]


def photosphere(r):
    k = r.random()
    return [3300, "K"] if k < 0.4 else temp(r, 2900, 3600) if k < 0.85 else temp(r, 2320, 2900) if k < 0.91 else temp(r, 3600, 6900)


def star(r, ns=None, nf=None, teff=None, g=None, gens=False, generic=False, mixed=True, rad=None):
    rad = rad or radius(r)
    g = g if g is not None else big_grid(r) if r.random() < 0.04 else grid(r)
    r.g = g
    ns = r.pick(0, 1, 2, 3, 5, r.randint(0, 12)) if ns is None else ns
    if ns > 4 and r.random() < 0.1 and (g if isinstance(g, int) else g[0] * g[1]) < 150:
        ns = r.randint(20, 60)
    nf = r.pick(0, 0, 1, 2, 3, r.randint(0, 7)) if nf is None else nf
    o = {"op": "star", "teff": teff or photosphere(r), "rad": r.pick([rad, "R_sun"], [r4(rad * RSUN), "km"]),
         "grid": g, "seed": r.randint(0, 10**6), "spots": [spot(r, g, rad, generic=generic) for _ in range(ns)],
         "facs": [facula(r, g, rad, generic=generic) for _ in range(nf)]}
    if not generic:
        alike(r, o["teff"], o["spots"], o["facs"])
    o.update(ld(r))
    if r.random() < 0.5:
        o["gran"] = gran(r)
    if mixed and r.random() < 0.4:
        o["sgrid"] = grid(r)
    if mixed and r.random() < 0.4:
        o["fgrid"] = grid(r)
    for k in ("sgm", "fgm"):
        if r.random() < 0.3:
            o[k] = 1
    if gens or r.random() < 0.3:
        o["spotgen"] = spotgen(r, rad)
        o["facgen"] = facgen(r, rad)
    return o, rad


def settles(r, rad):
    """one change of the star"""
    k = r.random()
    if k < 0.3:
        k = r.random()
        return {"op": "age", "dt": dur(r, 0.01, 8) if k < 0.67 else dur(r, 8, 900) if k < 0.7 else near(r, r.pick("spot", "fac")) if k < 0.92 else [0, "day"]}
    if k < 0.5:
        return {"op": "add_spots", "spots": [spot(r, None, rad) for _ in range(r.pick(0, 1, 1, 2))],
                "how": r.pick("list", "tuple", "one"), **({"coll": 1} if r.random() < 0.3 else {})}
    if k < 0.66:
        return {"op": "add_facs", "facs": [facula(r, None, rad) for _ in range(r.pick(0, 1, 1, 2))],
                "how": r.pick("list", "tuple", "one"), **({"coll": 1} if r.random() < 0.3 else {})}
    if k < 0.78:
        return regrid(r)
    if k < 0.88:
        return {"op": "set", "vals": r.pick({"teff": photosphere(r)}, {"u1": r4(r.uniform(0, 0.5)), "u2": r4(r.uniform(0, 0.45))},
                                            {"gdt": [round(r.uniform(0, 400), 1), "K"]}, {"radius": [r4(rad * r.uniform(1, 1.5)), "R_sun"]})}
    if k < 0.94:
        return {"op": "mut_spot", "i": r.randint(0, 9), "vals": r.pick({"tp": temp(r, 2700, 3200), "tu": temp(r, 2300, 2650)},
                                                                      {"ratio": r4(r.uniform(1, 9))}, {"grow": 0}, {"grow": 1})}
    return {"op": "mut_fac", "i": r.randint(0, 9), "vals": {"lat": lat(r), "lon": lon(r)}}


def history(r, query, steps=None, **kw):
    o, rad = star(r, **kw)
    ops = [o] + query(r, rad)
    for _ in range(r.pick(1, 2, 3, 4, r.randint(5, 9)) if steps is None else steps):
        ops.append(settles(r, rad))
        if r.random() < 0.7:
            ops += query(r, rad)
    return ops + query(r, rad)


def ops_of(f):
    def make(r):
        return f(r)
    make.__name__ = f.__name__
    return make


# ---------------------------------------------------------------- queries
def q_cov(r, rad):
    o = {"op": "coverage", "v": v(r)}
    if r.random() < 0.7:
        o["pl"] = planet(r, rad)
    if r.random() < 0.5:
        o["g"] = r.pick(0, 1, 0.5, r4(r.random()))
    return [o] + same_numbers(r, o)


def same_numbers(r, o):
    """the same numbers again, in another unit"""
    if r.random() > 0.12:
        return []
    x = r4(r.uniform(-1.5, 1.5))
    y = r4(r.uniform(0, 6))
    a, b = ("deg", "rad") if r.random() < 0.5 else ("rad", "deg")
    return [dict(o, v={"lat": [x, a], "lon": [y, a]}), dict(o, v={"lat": [x, b], "lon": [y, b]})]


def q_mu(r, rad):
    o = {"op": "mu", "v": v(r)}
    return [o] + same_numbers(r, o) if r.random() < 0.5 else []


def q_avg(r, rad):
    o = {"op": "avg", "v": v(r)}
    return [o] + same_numbers(r, o)


def q_grancov(r, rad):
    o = {"op": "grancov", "v": v(r), "g": r.pick(0, 1, r4(r.random()), r4(r.random()))}
    if r.random() < 0.5:
        o["pl"] = planet(r, rad)
    return [o]


def q_facmap(r, rad):
    o = {"op": "facmap", "v": v(r)}
    return [o] + same_numbers(r, o)


def q_any(r, rad):
    out = []
    for _ in range(r.randint(1, 3)):
        k = r.randint(0, 10)
        out += [lambda: q_cov(r, rad), lambda: [{"op": "map"}], lambda: q_facmap(r, rad), lambda: q_avg(r, rad),
                lambda: [{"op": "mu", "v": v(r)}], lambda: [{"op": "shapes"}], lambda: [{"op": "transit", "v": v(r), "pl": planet(r, rad)}],
                lambda: [{"op": "plfrac", "pl": planet(r, rad)}], lambda: q_grancov(r, rad),
                lambda: [{"op": "facinfo", "i": r.randint(0, 5), "angles": [ang(r, r.uniform(0, 89))], "maybe": 1}],
                lambda: [{"op": "gran_cov", "t": ["lin", 0, 30, 4, "day"]}]][k]()
    return out


# ---------------------------------------------------------------- per property
def gen_C01(r):
    return history(r, q_cov)


def gen_C02(r):
    return history(r, lambda r, rad: q_cov(r, rad) + q_mu(r, rad), steps=r.pick(0, 1, 2))


def gen_C03(r):
    if r.random() < 0.15:
        return [{"op": "proj", "grid": grid(r), "v": v(r)} for _ in range(3)]
    o, rad = star(r, ns=r.pick(0, 1, 2), nf=r.pick(0, 1), g=r.pick(grid(r), r.randint(150, 700), [r.randint(12, 24), r.randint(16, 32)]))
    ops = [o]
    for _ in range(r.randint(2, 4)):
        ops.append({"op": "transit", "v": v(r), "pl": planet(r, rad, 0.85)})
        if r.random() < 0.5:
            ops.append({"op": "coverage", "v": v(r), "pl": planet(r, rad, 0.9), **({"g": r4(r.random())} if r.random() < 0.3 else {})})
        if r.random() < 0.3:
            ops.append({"op": "set", "vals": {"radius": [r4(rad * r.uniform(1, 1.3)), "R_sun"]}})
        if r.random() < 0.2:
            ops.append(regrid(r))
    return ops


def gen_C04(r):
    if r.random() < 0.4:
        ops = []
        for _ in range(20):
            rr = r.pick(1.0, r.uniform(0.001, 1), r.uniform(0.3, 1), r.log(1e-4, 0.1))
            k = r.random()
            d = abs(1 - rr) if k < 0.1 else 1 + rr if k < 0.2 else 0.0 if k < 0.25 else 1 + rr * r.uniform(-1.1, 1.1) if k < 0.5 else r.uniform(0, 2.3)
            th = r.pick(0, math.pi / 2, math.pi, r.uniform(0, 2 * math.pi))
            ops.append({"op": "overlap", "x": d * math.cos(th), "y": d * math.sin(th), "r": rr})
        ops.append({"op": "overlap", "x": r4(r.uniform(-0.5, 0.5)), "y": r.pick(0, r4(r.uniform(-0.5, 0.5))), "r": r.pick(1.5, 1 + 1e-9, 1 + r.log(1e-6, 1), r.log(1, 100)), "expect": "ValueError"})
        return ops
    o, rad = star(r, ns=0, nf=0, g=r.pick(30, [4, 6]))
    ops = [o]
    for _ in range(8):
        p = planet(r, rad, 0.9)
        if r.random() < 0.6:
            p["phase"] = ang(r, r.pick(0, 360, -360) + r.uniform(-50, 50))
        k = r.random()
        if k < 0.7:
            ops.append({"op": "plfrac", "pl": p})
        elif k < 0.85:
            ops.append({"op": "transit", "v": v(r), "pl": p})
        else:
            ops.append({"op": "coverage", "v": v(r), "pl": p})
        if r.random() < 0.2:
            ops.append({"op": "set", "vals": {"radius": [r4(rad * r.uniform(1, 1.3)), "R_sun"]}})
    return ops


def _parts(r, lo, hi):
    n = r.randint(2, 6)
    if r.random() < 0.2:         # many short ones
        d = dur(r, 1e-6, 0.05)
        return [[r4(d[0] * r.uniform(0.5, 1)), d[1]] for _ in range(r.randint(10, 40))]
    return [dur(r, lo, hi) if r.random() < 0.9 else [0, "day"] for _ in range(n)]


def gen_C05(r):
    s = spot(r, 12, big=True)
    s["grid"] = r.pick(5, [3, 4])
    ops = [{"op": "spot", "s": s}]
    for _ in range(r.randint(2, 7)):
        if r.random() < 0.5:
            ops.append({"op": "spot_parts", "dts": _parts(r, 1e-3, r.pick(1, 10, 60))})
        if r.random() < 0.25:
            ops.append({"op": "spot_parts", "dts": [near(r, "spot") for _ in range(r.randint(2, 3))]})
        k = r.random()
        ops.append({"op": "spot_age", "dt": dur(r, r.pick(1e-4, 1e-4, 1e-7), r.pick(1, 8, 60, 3000)) if k < 0.6 else near(r, "spot") if k < 0.88 else [0, "hr"]})
    return ops


def gen_C06(r):
    f = facula(r, 12)
    f["grid"] = r.pick(5, [3, 4])
    ops = [{"op": "fac", "f": f}]
    life = f["life"]
    for _ in range(r.randint(2, 7)):
        if r.random() < 0.5:
            ops.append({"op": "fac_parts", "dts": [[r4(life[0] * r.log(0.01, 0.6)), life[1]] for _ in range(r.randint(2, 6))]})
        if r.random() < 0.25:
            ops.append({"op": "fac_parts", "dts": _parts(r, 1e-3, 1) if r.random() < 0.4 else [near(r, "fac") for _ in range(r.randint(2, 3))]})
        ops.append({"op": "fac_age", "dt": near(r, "fac") if r.random() < 0.3 else [r4(life[0] * r.log(0.001, 0.9)), life[1]] if r.random() < 0.8 else dur(r, r.pick(1e-4, 1e-7), 4) if r.random() < 0.6 else [r4(life[0] * r.log(1, 50)), life[1]] if r.random() < 0.4 else [0, "hr"]})
    return ops


def over_spot(r, rad):
    """a spot that has decayed already"""
    s = dict(spot(r, None, rad), grow=False)
    s["a"] = [0, s["a"][1]]
    return s


def over_fac(r, rad):
    """a facula that has shrunk to its end already"""
    f = dict(facula(r, None, rad), grow=False)
    f["r"] = [r4(f["rmax"][0] * math.exp(-r.uniform(2.01, 4))), f["rmax"][1]]
    return f


def gen_C07(r):
    own = r.random() < 0.3
    if own:
        g = grid(r)
        ops = [{"op": "coll", "teff": [3300, "K"], "rad": [0.15, "R_sun"], "grid": g, "spots": [spot(r, g) for _ in range(r.randint(0, 6))],
                "facs": [facula(r, g) for _ in range(r.randint(0, 6))], **({"gm": 1} if r.random() < 0.5 else {})}]
        alike(r, ops[0]["teff"], ops[0]["spots"], ops[0]["facs"])
        rad = 0.15
    else:
        o, rad = star(r, ns=r.randint(0, 6) if r.random() < 0.9 else r.randint(10, 70), nf=r.randint(0, 6) if r.random() < 0.9 else r.randint(8, 40),
                      gens=True, rad=0.15, g=r.pick(20, [4, 6], grid(r)))
        ops = [o]
    for _ in range(r.randint(3, 9)):
        k = r.random()
        if k < 0.5:
            k = r.random()
            ops.append({"op": "age", "dt": dur(r, 0.02, 12) if k < 0.5 else near(r, r.pick("spot", "fac")) if k < 0.9 else [0, "day"]})
        elif k < 0.56:                # some are gone already, or a step of no length
            ops.append({"op": "add_spots", "spots": [over_spot(r, rad) if r.random() < 0.6 else spot(r, None, rad) for _ in range(r.randint(1, 4))], "how": "list"}
                       if r.random() < 0.5 else
                       {"op": "add_facs", "facs": [over_fac(r, rad) if r.random() < 0.6 else facula(r, None, rad) for _ in range(r.randint(1, 4))], "how": "list"})
            ops.append({"op": "age", "dt": r.pick([0, "day"], [0, "s"], dur(r, 1e-7, 1e-3))})
        elif k < 0.62:
            ops.append({"op": "add_spots", "spots": [spot(r, None, rad) for _ in range(r.randint(0, 3))], "how": r.pick("list", "tuple", "one"),
                        **({"coll": 1} if r.random() < 0.3 else {})})
        elif k < 0.74:
            ops.append({"op": "add_facs", "facs": [facula(r, None, rad) for _ in range(r.randint(0, 3))], "how": r.pick("list", "tuple", "one"),
                        **({"coll": 1} if r.random() < 0.3 else {})})
        elif k < 0.80:
            ops.append(regrid(r))
        elif k < 0.85:
            ops.append({"op": "mut_spot", "i": r.randint(0, 9), "vals": r.pick({"grow": 0}, {"grow": 1})})
        elif not own and k < 0.95:
            ops.append({"op": "birth", "what": r.pick("spots", "facs"), "dt": dur(r, 0.01, 3)})
        elif not own:
            ops.append({"op": "mature", "cov": r.pick(0, r4(r.uniform(0, 0.2)))})
    return ops


def gen_C08(r):
    own = r.random() < 0.4
    n = r.pick(1, 2, 3, 5, 8)
    if own:
        g = grid(r)
        ops = [{"op": "coll", "teff": photosphere(r), "rad": [r.pick(0.15, 0.3), "R_sun"], "grid": g,
                "spots": [spot(r, g) for _ in range(n)], "facs": [], **({"gm": 1} if r.random() < 0.5 else {})}, {"op": "map"}]
        alike(r, ops[0]["teff"], ops[0]["spots"], [])
        rad = 0.15
    else:
        o, rad = star(r, ns=n, nf=0)
        ops = [o, {"op": "map"}]
    for _ in range(r.randint(0, 3)):
        k = r.random()
        if k < 0.4:
            ops.append({"op": "age", "dt": dur(r, 0.05, 6) if r.random() < 0.6 else near(r, "spot")})
        elif k < 0.7:
            ops.append({"op": "add_spots", "spots": [spot(r, None, rad)], "how": r.pick("list", "one")})
        elif k < 0.85:
            ops.append(regrid(r))
        else:
            ops.append({"op": "mut_spot", "i": r.randint(0, 9), "vals": r.pick({"tp": temp(r, 2700, 3400), "tu": temp(r, 2300, 2650)},
                                                                               {"ratio": r4(r.uniform(1, 9))}, {"a": [r4(r.uniform(1, 3000)), "MSH"]})})
        ops.append({"op": "map"})
    return ops


def gen_C09(r):
    if r.random() < 0.08:
        g = grid(r)
        return [{"op": "coll", "teff": temp(r, 2900, 3600), "rad": [0.15, "R_sun"], "grid": g, "spots": [spot(r, g) for _ in range(r.randint(0, 2))],
                 "facs": [facula(r, g) for _ in range(r.randint(0, 6) if r.random() < 0.8 else r.randint(130, 300))]}, {"op": "facids"}, {"op": "age", "dt": dur(r, 0.02, 4)}, {"op": "facids"}]
    o, rad = star(r, ns=r.pick(0, 1, 2), nf=r.pick(1, 2, 3, 4))
    ops = [o]
    def q():
        out = [{"op": "facmap", "v": v(r)}]
        if r.random() < 0.4:
            f = o["facs"][0]
            out[0]["v"] = {"lat": f["lat"], "lon": f["lon"]}      # seen from above
        if r.random() < 0.35:
            out.append({"op": "facids"})
        if r.random() < 0.6:
            out.append({"op": "facinfo", "i": r.randint(0, 9), "maybe": 1,
                        "angles": [ang(r, r.pick(0, r.uniform(0, 89), r.uniform(0, 60), r.uniform(91, 179))) for _ in range(3)]})
        return out
    ops += q()
    for _ in range(r.randint(1, 3)):
        k = r.random()
        if k < 0.4:
            ops.append({"op": "age", "dt": dur(r, 0.02, 4) if r.random() < 0.6 else near(r, "fac")})
        elif k < 0.65:
            ops.append({"op": "add_facs", "facs": [facula(r, None, rad)], "how": r.pick("list", "one")})
        elif k < 0.75:
            ops.append(regrid(r))
        elif k < 0.9:
            ops.append({"op": "mut_fac", "i": r.randint(0, 9), "vals": r.pick({"lat": lat(r), "lon": lon(r)}, {"r": [r4(rad * RSUN * r.uniform(0.05, 0.5)), "km"]})})
        else:
            ops.append({"op": "set", "vals": {"teff": photosphere(r)}})
        ops += q()
    return ops


def gen_C10(r):
    if r.random() < 0.25:
        g = grid(r)
        ops = [{"op": "coll", "teff": [3300, "K"], "rad": [0.15, "R_sun"], "grid": g, "spots": [spot(r, g) for _ in range(r.randint(0, 3))],
                "facs": [facula(r, g) for _ in range(r.randint(0, 3))], **({"gm": 1} if r.random() < 0.5 else {})}, {"op": "shapes"}]
        rad = 0.15
        own = True
    else:
        o, rad = star(r, ns=r.randint(0, 3), nf=r.randint(0, 3), gens=True)
        ops = [o, {"op": "shapes"}]
        own = False
    for _ in range(r.randint(2, 5)):
        k = r.random()
        if k < 0.3:
            ops.append({"op": "add_spots", "spots": [spot(r, None, rad) for _ in range(r.randint(1, 2))], "how": r.pick("list", "tuple", "one"),
                        **({"coll": 1} if r.random() < 0.4 else {})})
        elif k < 0.6:
            ops.append({"op": "add_facs", "facs": [facula(r, None, rad) for _ in range(r.randint(1, 2))], "how": r.pick("list", "tuple", "one"),
                        **({"coll": 1} if r.random() < 0.4 else {})})
        elif k < 0.75:
            ops.append(regrid(r))
        elif k < 0.85 or own:
            ops.append({"op": "age", "dt": dur(r, 0.01, 3)})
        elif k < 0.95:
            ops.append({"op": "birth", "what": r.pick("spots", "facs"), "dt": dur(r, 0.5, 5)})
        else:
            ops.append({"op": "mature", "cov": r4(r.uniform(0, 0.1))})
        if r.random() < 0.8:
            ops.append({"op": "shapes"})
    return ops


def gen_C11(r):
    k = r.random()
    if k < 0.7:
        g = r.pick(grid(r), r.randint(1, 1500), [r.randint(3, 60), r.randint(1, 60)], [3, 3], [3, 1], 1, 2)
        if r.random() < 0.12:
            g = r.pick(round(r.log(1500, 12000)), [r.randint(40, 120), r.randint(30, 90)])
            return [{"op": "grid", "grid": g, "views": [v(r)]}]
        return [{"op": "grid", "grid": g, "views": [v(r) for _ in range(3)]}]
    if k < 0.95:
        out = []
        for _ in range(12):
            a = grid(r)
            b = a if r.random() < 0.3 else list(reversed(a)) if isinstance(a, list) and r.random() < 0.5 else grid(r)
            if isinstance(a, list) and r.random() < 0.2:
                b = a[0] * a[1]
            out.append({"op": "grideq", "a": a, "b": b})
        return out
    return [{"op": "gridnew", "what": w, "expect": "TypeError"} for w in ("float", "str", "none", "floats", "floats2")]


def gen_C12(r):
    rad = radius(r)
    k = r.random()
    R_ = [rad, "R_sun"]
    if k < 0.45:
        ops = [{"op": "spotgen", "gen": spotgen(r, rad), "rad": R_, "seed": r.randint(0, 10**6)}]
        for _ in range(3):
            ops.append({"op": "spot_nexp", "dt": dur(r, 1e-3, 100)})
        ops.append({"op": "spot_births", "dt": dur(r, 0.01, 1) if r.random() < 0.7 else dur(r, 1, 15) if r.random() < 0.8 else dur(r, 15, 60), "n": 120, "keep": 120})
        if r.random() < 0.25:           # few births are due
            ops.append({"op": "spot_births", "mean": r4(r.log(0.02, 0.3)), "dt": [1, "day"], "n": 1500, "keep": 120})
        big = r.random() < 0.08
        ops.append({"op": "spot_make", "n": 5000 if big else r.pick(0, 1, 7, 700, 700), "by": 0 if big else r.pick(0, 0, 0, 1, 2, 3, 9)})
        return ops
    if k < 0.85:
        ops = [{"op": "facgen", "gen": facgen(r, rad), "rad": R_, "seed": r.randint(0, 10**6)}]
        for _ in range(3):
            ops.append({"op": "fac_nexp", "dt": dur(r, 1e-3, 100)})
        ops.append({"op": "fac_births", "dt": dur(r, 0.01, 0.4) if r.random() < 0.75 else dur(r, 0.4, 2), "n": 120, "keep": 120})
        if r.random() < 0.25:
            ops.append({"op": "fac_births", "mean": r4(r.log(0.02, 0.3)), "dt": [1, "day"], "n": 1500, "keep": 120})
        big = r.random() < 0.08
        ops.append({"op": "fac_make", "n": 5000 if big else r.pick(0, 1, 7, 700, 700), "by": 0 if big else r.pick(0, 0, 0, 1, 2, 3, 9)})
        return ops
    o, rad = star(r, ns=1, nf=1, gens=True)
    if r.random() < 0.3:
        del o["spotgen"], o["facgen"]
    return [o] + [{"op": "birth", "what": r.pick("spots", "facs"), "dt": dur(r, 0.01, 1.5)} for _ in range(6)]


def gen_C13(r):
    rad = radius(r)
    if r.random() < 0.25:
        o, rad = star(r, ns=r.pick(0, 1), nf=0, gens=True)
        return [o] + [{"op": "mature", "cov": r.pick(0, r4(r.uniform(0, 0.3)))} for _ in range(3)]
    if r.random() < 0.12:           # many small ones
        g = spotgen(r, rad, static=r.random() < 0.4)
        g["sig"] = r4(r.pick(0, r.uniform(0.05, 0.5)))
        f = r.log(0.02, 0.1)
        for k in ("mean", "init", "dr"):
            g[k] = [r4(g[k][0] * f), g[k][1]]
        return [{"op": "spotgen", "gen": g, "rad": [rad, "R_sun"], "seed": r.randint(0, 10**6)}, {"op": "spot_mature", "cov": r4(r.uniform(0.05, 0.2))}]
    ops = [{"op": "spotgen", "gen": spotgen(r, rad, static=r.random() < 0.4), "rad": [rad, "R_sun"], "seed": r.randint(0, 10**6)}]
    for _ in range(3):
        ops.append({"op": "spot_mature", "cov": r.pick(0, r4(r.uniform(0, 0.5)), r4(r.uniform(0, 0.05)), r.pick(1.0, r4(r.uniform(0.5, 1)), 0.1))})
    ops.append({"op": "spot_mature", "cov": r.pick(-0.1, 1.2, 1.0001, -1e-9), "expect": "ValueError"})
    return ops


def gen_C15(r):
    g = "off" if r.random() < 0.05 else flaregen(r)
    ops = [{"op": "flaregen", "gen": g, "seed": r.randint(0, 10**6)}]
    if g == "off":
        return ops + [{"op": "flare_series", "dt": dur(r, 1, 1000), "n": 20}]
    f, un = (1, "erg")
    e0 = g["emin"][0] * (1e7 if g["emin"][1] == "J" else 1)
    es = [r.pick([float(f"{e0 * x:.10g}"), "erg"], [float(f"{e0 * x * 1e-7:.10g}"), "J"]) for x in [1, 1.5] + [r.log(1, 1e5) for _ in range(5)] + [r.log(1e-3, 1)]]
    for _ in range(2):
        ops.append({"op": "flare_law", "dt": dur(r, 0.01, 100), "es": es, "xs": [0, 0.5, r.pick(0.99, 0.999, 0.99999, 0.9999999)] + [r4(r.random()) for _ in range(3)]})
    if r.random() < 0.5:
        ops.append({"op": "flare_badq", "xs": r.pick([1.0], [0.5, 1.0], [-0.01], [1.7, 0.2]), "expect": "ValueError"})
    rate = 10 ** (g["beta"] + g["alpha"] * math.log10(e0))
    d = r.pick(0.3, 1.0, 6.0, 30.0) / rate
    ops.append({"op": "flare_series", "dt": [r4(d), "day"] if r.random() < 0.6 else [r4(d * 24), "hr"], "n": 120 if d * rate > 2 else 600, "keep": 20})
    if r.random() < 0.12:       # one long observation
        ops.append({"op": "flare_series", "dt": [r4(r.uniform(1500, 6000) / rate), "day"], "n": 1, "keep": 1})
    ops.append({"op": "flare_draws", "n": r.pick(1, 2, 40, 700, 700, 5000)})
    if r.random() < 0.3:
        o, rad = star(r, ns=0, nf=0, g=20)
        o["flaregen"] = g
        ops += [o] + [{"op": "star_flares", "dt": [r4(d * r.pick(1, 0.1)), "day"]} for _ in range(r.randint(1, 3))]
    return ops


def gen_C16(r):
    n = r.pick(1, 2, 4, 7, 0)
    fs = [flare(r) for _ in range(n)]
    alone = r.random() < 0.7
    for i, f in enumerate(fs):
        f["T"] = [9000 + 100 * i * alone, "K"]      # tells them apart
    ops = [{"op": "flares", "flares": fs, **({"one": 1} if n == 1 and r.random() < 0.5 else {})}]
    if r.random() < 0.3:
        ops[0]["star"] = 1
        ops.insert(0, star(r, ns=0, nf=0, g=12)[0])
    for _ in range(8):
        f = r.choice(fs) if fs else flare(r)
        fw, tp = days(f["fwhm"]), days(f["tp"])
        t0 = tp + fw * r.pick(r.uniform(-3, 21), r.uniform(-1.2, 1), r.uniform(18, 20.5), r.uniform(-30, 30))
        w = r.log(1e-4, 3) if r.random() < 0.92 else r.uniform(3, 60)
        if r.random() < 0.3:          # window ends while the flare starts
            t0 = tp - w - fw * r.uniform(-0.99, 1.2)
        un, k = r.pick(("day", 1), ("hr", 24), ("min", 1440))
        un2, k2 = (un, k) if r.random() < 0.6 else r.pick(("day", 1), ("hr", 24), ("s", 86400))
        o = {"op": "flare_window", "t0": [t0 * k, un], "t1": [(t0 + w) * k2, un2]}
        if r.random() < 0.85:
            o["v"] = v(r) if r.random() < 0.5 else {"lat": f["lat"], "lon": f["lon"]}
        ops.append(o)
        if r.random() < 0.4 and fs and alone:
            ts = sorted([t0] + [t0 + w * r.random() for _ in range(r.randint(1, 3))] + [t0 + w])
            ops.append({"op": "flare_split", "ts": [[t, "day"] for t in ts], "v": {"lat": f["lat"], "lon": f["lon"]}})
    return ops


def gen_C17(r):
    ops = []
    for _ in range(4):
        f = flare(r)
        fw, tp = days(f["fwhm"]), days(f["tp"])
        xs = sorted([r.uniform(-3, 25) for _ in range(15)] + [r.uniform(-1.1, 0.3) for _ in range(12)] + [0.0, -0.5, 0.5, 10.0])
        if r.random() < 0.3:
            t = ["lin", tp - 2 * fw, tp + 22 * fw, 60, "day"]
        else:
            un, k = r.pick(("day", 1), ("hr", 24), ("s", 86400))
            t = [[(tp + x * fw) * k for x in xs], un]
            if f["tp"][1] == un:
                t[0] = sorted(t[0] + [f["tp"][0]])
        ops.append({"op": "flare_curve", "f": f, "t": t})
    return ops


def gran_times(r, ph):
    """times to ask for granulation with period ph hours"""
    n = r.pick(1, 2, 5, 9, 12, 12)
    k = r.random()
    if k < 0.2:
        return r.pick(["lin", 0, r4(ph * n * r.uniform(0.5, 3)), n, "hr"], ["lin", 1.5, r4(1.5 + ph / 24 * n), n, "day"],
                      ["lin", r4(r.log(10, 400)), r4(r.log(500, 3000)), r.randint(2, 9), "day"])
    if k < 0.4:                       # much closer than the period
        return ["lin", r4(r.uniform(0, 100)), r4(100 + ph * r.log(1e-3, 3)), r.pick(40, 120, 400), "hr"]
    t = [r4(r.pick(ph * (1.5 * i + r.random()), r.uniform(0, 3 * ph), r.log(1e-4, 10) * ph)) for i in range(n)]
    if r.random() < 0.3:
        t += r.sample(t, r.randint(1, len(t)))        # the same time again
    if r.random() < 0.7:
        r.shuffle(t)
    else:
        t.sort(reverse=r.random() < 0.3)
    un, f = r.pick(("hr", 1), ("hr", 1), ("day", 1 / 24), ("s", 3600))
    return [[x * f for x in t], un]


def gen_C18(r):
    k = r.random()
    if k < 0.45:
        g = gran(r)
        g["amp"] = r4(r.pick(r.uniform(0.001, 0.05), r.uniform(0.05, 5), 1e-4, 0.0, 0))
        g["mean"] = r.pick(r4(r.random()), r4(r.uniform(0.3, 0.7)), 0, 1, 0.0, 1.0)
        return [{"op": "gran", "gran": g}] + [{"op": "gran_cov", "t": gran_times(r, g["per"][0])} for _ in range(2)]
    if k < 0.55:
        g = gran(r)
        g["mean"], g["amp"] = 0.5, r4(g["per"][0] * r.uniform(0.0005, 0.003))
        p = g["per"][0]
        t = [0, r4(p * 0.5), r4(p * 1.3), r4(p * 3)]
        r.shuffle(t)
        return [{"op": "gran_many", "gran": dict(g, seed=r.randint(0, 10**6)), "n": 250, "t": [t, "hr"]}]
    o, rad = star(r, ns=0, nf=0, g=20)
    o["gran"] = r.pick(gran(r), gran(r), "off", dict(gran(r), mean=0, amp=0), dict(gran(r), amp=0), dict(gran(r), mean=0), dict(gran(r), dt=[0, "K"]), dict(gran(r), dt=[150, "K"]))
    ph = o["gran"]["per"][0] if o["gran"] != "off" else 5
    return [o] + [{"op": "gran_cov", "t": gran_times(r, ph)} for _ in range(2)]


def gen_C22(r):
    return history(r, q_avg, steps=r.pick(1, 2, 3))


def gen_C23(r):
    return history(r, q_grancov, steps=r.pick(0, 1, 2))


def gen_C24(r):
    if r.random() < 0.3:
        g = [r.randint(2, 12), r.randint(2, 12)]
        ops = []
        for _ in range(3):
            ops.append({"op": "display", "grid": g, "nlat": g[0], "nlon": g[1], "seed": r.randint(0, 999), "data": "rand", "lo": -5, "hi": 9,
                        **({"unit": "K"} if r.random() < 0.5 else {})})
        if r.random() < 0.6:          # another size
            k = [g[0] + r.pick(0, -1, 1, 2, -2), g[1] + r.pick(-1, 1, 2, -2, 5)]
            r.shuffle(k) if g[0] == g[1] else None
            k = [max(1, x) for x in k]
            if k != g:
                ops.append({"op": "display", "grid": g, "nlat": k[0], "nlon": k[1], "seed": 1, "data": "rand", "lo": 0, "hi": 1, "expect": "TypeError"})
            if g[0] > 2 and r.random() < 0.5:
                ops.append({"op": "display", "grid": g, "nlat": g[0] + r.pick(-1, 1), "nlon": g[1], "seed": 1, "data": "rand", "lo": 0, "hi": 1, "expect": "TypeError"})
        if r.random() < 0.4 and g[0] != g[1]:
            ops.append({"op": "display", "grid": g, "nlat": g[1], "nlon": g[0], "seed": 1, "data": "rand", "lo": 0, "hi": 1, "expect": "TypeError"})
        return ops
    n = r.pick(r.randint(5, 60), r.randint(60, 400), r.randint(1, 6))
    out = []
    for _ in range(2):
        out.append({"op": "display", "grid": n, "nlat": r.randint(2, 10), "nlon": r.randint(1, 12), "seed": r.randint(0, 999),
                    **r.pick({"data": "const", "c": r4(r.uniform(-5, 4000))}, {"data": "rand", "lo": r.pick(-2, 2500), "hi": 3500}, {"data": "lat"},
                             {"data": "one", "i": r.randint(0, 10**6)}),
                    **({"unit": "K"} if r.random() < 0.5 else {})})
    return out


# ---------------------------------------------------------------- pairs of runs


def gen_C08_pair(r):
    """the same spots in another order, through the same history"""
    g = grid(r)
    n = r.randint(2, 7)
    spots = [spot(r, g, generic=True) for _ in range(n)]
    perm = list(range(n))
    r.shuffle(perm)
    o = {"op": "coll", "teff": [3300, "K"], "rad": [0.15, "R_sun"], "grid": g, "facs": []}
    tail = ([{"op": "age", "dt": dur(r, 0.05, 4)}] if r.random() < 0.5 else []) + [{"op": "map"}]
    a = [dict(o, spots=spots)] + tail
    k = r.randint(0, n)
    if r.random() < 0.5:
        b = [dict(o, spots=[spots[i] for i in perm])] + tail
    else:
        b = [dict(o, spots=[spots[i] for i in perm[:k]]), {"op": "add_spots", "spots": [spots[i] for i in perm[k:]]}] + tail
    return {"pair": "order", "ops": a, "opsB": b}


def gen_C14(r):
    """everything that draws random numbers"""
    o, rad = star(r, ns=r.pick(0, 1), nf=r.pick(0, 1), gens=True, g=r.pick(30, [5, 8]))
    if r.random() < 0.15:
        del o["spotgen"], o["facgen"]
    if r.random() < 0.8:
        o["flaregen"] = flaregen(r)
    o["gran"] = gran(r)
    if r.random() < 0.5:
        o["apart"] = 1
    ops = [o]
    for _ in range(r.randint(3, 8)):
        k = r.random()
        if k < 0.25:
            ops.append({"op": "birth", "what": r.pick("spots", "facs"), "dt": dur(r, 0.05, r.pick(3, 3, 6))})
        elif k < 0.4:
            ops.append({"op": "mature", "cov": r.pick(0.0, r4(r.uniform(0, 0.2))) if "spotgen" in o else 0.0})
        elif k < 0.55:
            ops.append({"op": "age", "dt": dur(r, 0.05, 3)})
        elif k < 0.7:
            ops.append({"op": "star_flares", "dt": dur(r, 0.5, 8)})
        elif k < 0.8:
            ops.append({"op": "gran_cov", "t": ["lin", 0, 40, 5, "day"]})
        else:
            ops += q_cov(r, rad)
    ops += [{"op": "rng"}, {"op": "coverage", "v": v(r)}]
    return {"pair": "processes", "ops": ops}


def gen_C19(r):
    o, rad = star(r, gens=True)
    if r.random() < 0.5:
        o["flaregen"] = flaregen(r)
    if r.random() < 0.4:
        o["apart"] = 1
    ops = [o]
    fl = False
    if r.random() < 0.35:             # flares as someone lists them
        fs = [flare(r, 3.0) for _ in range(r.randint(2, 5))]
        ops.append({"op": "flares", "star": 1, "flares": fs})
        fl = True
    for _ in range(r.randint(2, 5)):
        ops += q_any(r, rad)
        if fl and r.random() < 0.7:
            t0 = r.uniform(0, 3)
            ops.append({"op": "flare_window", "t0": [t0, "day"], "t1": [t0 + r.log(0.001, 3), "day"], "v": v(r)})
        k = r.random()
        if k < 0.5:
            ops.append(settles(r, rad))
        elif k < 0.75:
            ops.append({"op": "birth", "what": r.pick("spots", "facs"), "dt": dur(r, 0.05, 2)})
        elif k < 0.85:
            ops.append({"op": "mature", "cov": r4(r.uniform(0, 0.05))})
        elif "flaregen" in o:
            ops.append({"op": "star_flares", "dt": dur(r, 1, 8)})
            fl = True
        ops.append({"op": "rng"})
    ops += q_any(r, rad) + [{"op": "birth", "what": "spots", "dt": [0.5, "day"]}, {"op": "rng"}]
    out = [{"op": "map"}, {"op": "shapes"}, {"op": "coverage", "v": v(r)}]
    for x in out:
        x["keep"] = 1
    ops += out
    return {"pair": "queries", "ops": ops, "opsB": [x for x in ops if x["op"] not in QUERIES or x.get("keep")]}


ALT = {"deg": ["rad", "arcmin"], "rad": ["deg"], "day": ["hr", "s", "yr"], "hr": ["day", "min"], "min": ["day"], "s": ["day", "hr"],
       "yr": ["day"], "week": ["day"], "MSH": ["km2", "m2", "R_sun2"], "km2": ["MSH", "m2"], "m2": ["km2", "MSH"],
       "km": ["m", "R_sun", "AU"], "m": ["km"], "Mm": ["km", "cm"], "R_sun": ["km", "m", "R_earth"], "AU": ["km", "R_sun"],
       "R_earth": ["km", "R_sun"], "erg": ["J", "TJ"], "J": ["erg"], "1/day": ["1/hr", "1/s"], "1/hr": ["1/day"],
       "MSH/d": ["km2/hr", "km2/day"], "km2/day": ["MSH/d", "m2/s"], "km2/hr": ["MSH/d"], "K/km": ["K/m", "K/Mm"]}


def other_units(r, x):
    """marks every quantity with another unit to use: [v, unit] -> [v, unit, unit2] (the executor converts)"""
    if isinstance(x, dict):
        return {k: other_units(r, y) for k, y in x.items()}
    if isinstance(x, list):
        if len(x) == 5 and x[0] == "lin" or len(x) == 2 and isinstance(x[0], list) and isinstance(x[1], str):
            return x + [r.choice(ALT[x[-1]])]
        if len(x) == 2 and isinstance(x[1], str) and isinstance(x[0], (int, float)):
            return [x[0], x[1], r.choice(ALT[x[1]])] if x[1] in ALT and r.random() < 0.8 else x
        return [other_units(r, y) for y in x]
    return x


def gen_C20(r):
    k = r.random()
    if k < 0.5:
        o, rad = star(r, gens=True, generic=True, g=grid(r))
        ops = [o]
        for _ in range(r.randint(1, 4)):
            j = r.random()
            if j < 0.35:
                ops.append({"op": "age", "dt": dur(r, 0.05, 4)})
            elif j < 0.5:
                ops.append({"op": "add_spots", "spots": [spot(r, None, rad, generic=True)]})
            elif j < 0.65:
                ops.append({"op": "add_facs", "facs": [facula(r, None, rad, generic=True)]})
            elif j < 0.8:
                ops.append({"op": "birth", "what": r.pick("spots", "facs"), "dt": dur(r, 0.05, 1)})
            elif j < 0.9:
                ops.append({"op": "mature", "cov": r4(r.uniform(0, 0.1))})
            ops += r.pick([{"op": "coverage", "v": v(r, True), "pl": planet(r, rad)}], [{"op": "avg", "v": v(r, True)}],
                          [{"op": "transit", "v": v(r, True), "pl": planet(r, rad)}], [{"op": "plfrac", "pl": planet(r, rad)}])
        for s in o["spots"] + [s for x in ops if x["op"] == "add_spots" for s in x["spots"]]:
            s["a"] = [s["a"][0] * 0.987, s["a"][1]]
        for f in o["facs"] + [f for x in ops if x["op"] == "add_facs" for f in x["facs"]]:
            f["r"] = [f["r"][0] * 0.987, f["r"][1]]
    elif k < 0.65:
        ops = [{"op": "flaregen", "gen": flaregen(r), "seed": r.randint(0, 10**6)}, {"op": "flare_series", "dt": dur(r, 1, 5), "n": 3},
               {"op": "flare_law", "dt": dur(r, 0.1, 10), "es": [[1e34, "erg"], [3e35, "erg"]], "xs": [0.3]}]
    elif k < 0.8:
        fs = [flare(r) for _ in range(r.randint(1, 4))]
        ops = [{"op": "flares", "flares": fs}]
        for _ in range(4):
            t0 = r.uniform(0, 9)
            ops.append({"op": "flare_window", "t0": [r4(t0), "day"], "t1": [r4(t0 + r.log(0.001, 3)), "day"], "v": v(r, True)})
    elif k < 0.86:
        g = gran(r)
        g["amp"] = r4(r.uniform(0.01, 0.5))
        if r.random() < 0.4:
            g["per"] = [r4(r.uniform(0.2, 3)), "day"]
        p = g["per"][0] * (24 if g["per"][1] == "day" else 1)
        ops = [{"op": "gran", "gran": g}]
        for _ in range(3):
            n = r.randint(1, 6)
            ops.append({"op": "gran_cov", "t": r.pick(["lin", 0, r4(p * n), n, "hr"], ["lin", 0, r4(p / 24 * n * 2), n, "day"],
                                                      [[r4(p * (i + 0.5 * r.random())) for i in range(n)], "hr"])})
    elif k < 0.94:
        rad = radius(r)
        ops = [{"op": "spotgen", "gen": spotgen(r, rad), "rad": [rad, "R_sun"], "seed": 3}, {"op": "spot_nexp", "dt": dur(r, 0.1, 9)},
               {"op": "spot_mature", "cov": 0.1}]
    else:
        rad = radius(r)
        ops = [{"op": "facgen", "gen": facgen(r, rad), "rad": [rad, "R_sun"], "seed": 3}, {"op": "fac_nexp", "dt": dur(r, 0.1, 9)},
               {"op": "fac_make", "n": 5}, {"op": "msh"}]
    if k < 0.8 and r.random() < 0.2 and ops[0]["op"] in ("flares", "flaregen"):
        ops += [{"op": "flare_curve", "f": flare(r), "t": ["lin", 0, r4(r.uniform(1, 10)), 40, "day"]}]
    ops = [dict(x) for x in ops]
    return {"pair": "units", "ops": ops, "opsB": other_units(r, ops)}


def clear(r, g, rad):
    """a facula that stays clear of the poles"""
    f = facula(r, g, rad, generic=True)
    f["lat"] = [r4(r.uniform(-20, 20)), "deg"]
    R0 = rad * RSUN
    f["rmax"], f["r"] = [r4(R0 * r.uniform(0.3, 0.8)), "km"], [r4(R0 * r.uniform(0.1, 0.29)), "km"]
    f["fmin"] = [r4(R0 * r.pick(0.01, 0.5)), "km"]
    f["fs"], f["ws"] = [0, "K/km"], [0, "K/km"]
    f["life"] = [5.0, "day"]
    return f


def gen_C21(r):
    g = [r.randint(4, 16), r.randint(3, 24)]
    k = r.randint(1, g[1] - 1) + g[1] * r.pick(0, 0, 0, 1, -1, 2, -3, 10)
    pole = r.random() < 0.15
    nf = 0 if pole else r.pick(0, 1, 2)
    o, rad = star(r, ns=r.pick(0, 1, 2, 4), nf=0, g=g, generic=True, mixed=False)
    o["facs"] = [clear(r, g, rad) for _ in range(nf)]
    for f in o["spots"] + o["facs"]:
        f["grid"] = g
    o.pop("spotgen", None), o.pop("facgen", None)
    w = v(r, True)
    if pole:
        w["lat"] = [r.pick(90, -90), "deg"]
    p = planet(r, rad, 0.9)
    tail = []
    if r.random() < 0.4:
        tail.append({"op": "age", "dt": [r4(r.uniform(0.05, 1.0)), "day"]})
    pl = {"pl": p} if r.random() < 0.6 else {}
    seen = lambda w: [{"op": "map"}, {"op": "facmap", "v": w}, {"op": "transit", "v": w, "pl": p}, dict({"op": "coverage", "v": w}, **pl),
                      {"op": "avg", "v": w}]
    step = 360.0 / g[1] * k

    def turn(x):
        return dict(x, lon=[x["lon"][0] + step, "deg"])
    ops = [o] + tail + seen(w)
    ops2 = [dict(o, spots=[turn(s) for s in o["spots"]], facs=[turn(f) for f in o["facs"]])] + tail + seen(turn(w))
    return {"pair": "turn", "ops": ops, "opsB": ops2, "k": k % g[1]}


# ---------------------------------------------------------------- light curves of groups, angles, shares
def gen_C25(r):
    ops = []
    for _ in range(r.randint(2, 5)):
        n = r.pick(1, 1, 2, 3, 8, 0, r.randint(9, 25))
        fl = []
        for _ in range(n):
            fl.append({"tp": r4(r.uniform(-2, 10)), "fw": r4(r.log(0.003, 2)), "am": r4(r.pick(1, r.log(1e-3, 1e5), r.log(1e-12, 1e12), r.uniform(-2, 2)))})
        if n > 1 and r.random() < 0.3:
            fl[1]["tp"] = fl[0]["tp"]
        ts = [r4(r.uniform(-3, 12)) for _ in range(r.randint(1, 12))]
        for f in fl:
            ts += [f["tp"] + f["fw"] * r.pick(r.uniform(-1.1, 0), r.uniform(0, 2), r.uniform(0, 21)) for _ in range(4)]
        if fl and r.random() < 0.5:
            ts.append(fl[0]["tp"])
        if r.random() < 0.7:
            ts.sort()
        else:
            r.shuffle(ts)
        o = {"op": "lights", "t": ts, "fl": fl, **({"one": 1} if n == 1 and r.random() < 0.5 else {})}
        if r.random() < 0.55:
            o["texp"] = r4(r.log(1e-3, 1))
            if r.random() < 0.8:
                o["over"] = r.pick(1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 21, 40)
            o["t"] = ts[:8] if r.random() < 0.8 else ts[-1:]
        ops.append(o)
    return ops


def gen_C26(r):
    ps = [{"lat": lat(r), "lon": lon(r)} for _ in range(r.randint(2, 5))]
    p = r.choice(ps)
    k = r.random()
    if k < 0.35:
        ps.append(dict(p))
    if k < 0.7:       # the opposite place
        un, half = p["lon"][1], 180 if p["lon"][1] == "deg" else math.pi
        ps.append({"lat": [-p["lat"][0], p["lat"][1]], "lon": [p["lon"][0] + half, un]})
    if 0.3 < k < 0.8:  # very close
        ps.append({"lat": p["lat"], "lon": [p["lon"][0] + r.pick(1e-4, 1e-6, 1e-8), p["lon"][1]]})
    if r.random() < 0.5:
        ps += [{"lat": [90 * r.pick(1, -1), "deg"], "lon": lon(r)}]
    ops = [{"op": "angles", "ps": ps}]
    for _ in range(r.randint(1, 3)):
        g = r.pick(grid(r), [r.randint(3, 30), r.randint(1, 30)], r.randint(1, 300))
        w = v(r)
        if isinstance(g, list) and r.random() < 0.4:      # right above a point of the grid
            w = {"lat": [-90 + 180 * r.randrange(g[0]) / (g[0] - 1), "deg"], "lon": [360 * r.randrange(g[1]) / g[1], "deg"]}
        ops.append({"op": "proj", "grid": g, "v": w})
    return ops


def gen_C27(r):
    rad = radius(r)
    s = spot(r, 12, rad)
    s["grid"] = r.pick(5, [3, 4])
    ops = [{"op": "spot", "s": s, "rad": [rad, "R_sun"]}]

    def vs():
        la, lo = s["lat"], s["lon"]
        half = 180 if lo[1] == "deg" else math.pi
        out = [v(r) for _ in range(r.randint(1, 3))]
        k = r.random()
        if k < 0.5:
            out.append({"lat": la, "lon": lo})
        if k > 0.35:
            out.append({"lat": [-la[0], la[1]], "lon": [lo[0] + half, lo[1]]})
        if r.random() < 0.6:      # as far on one side as on the other
            d = half * r.uniform(0, 1)
            w = r.pick(la, lat(r))
            out += [{"lat": w, "lon": [lo[0] + d, lo[1]]}, {"lat": w, "lon": [lo[0] - d, lo[1]]}]
        return out
    ops.append({"op": "fraction", "vs": vs(), **({"n": r.pick(51, 200, 501, 1000, 2500)} if r.random() < 0.7 else {})})
    for _ in range(r.randint(0, 2)):
        ops += [{"op": "spot_age", "dt": dur(r, 0.01, 5)}, {"op": "fraction", "vs": vs(), "n": r.pick(101, 400, 1001)}]
    return ops


# ---------------------------------------------------------------- refused calls, two stars
def refused(r, rad):
    """a call the star refuses"""
    k = r.random()
    if k < 0.2:
        return {"op": "reject", "what": r.pick("mature", "genmature"), "cov": r.pick(-0.1, 1.5, -1e-9, 1.0001, 7), "must": 1}
    if k < 0.4:
        return {"op": "reject", "what": r.pick("spots", "spots", "spot"), "spot": spot(r, None, rad), "bad": r.pick("text", "none", "int"),
                "second": r.pick(0, 1, 1), "must": 1}
    if k < 0.6:
        return {"op": "reject", "what": r.pick("facs", "facs", "fac"), "fac": facula(r, None, rad), "bad": r.pick("text", "none", "int"),
                "second": r.pick(0, 1, 1), "must": 1}
    if k < 0.64:
        return {"op": "reject", "what": "bigplanet", "f": 1 + r.log(1e-6, 2), "phase": r.pick(0, r4(r.uniform(-80, 80))), "must": 1}
    return {"op": "reject", "what": r.pick("age", "age", "births", "birthf", "flares", "cover", "transit", "gran", "window"),
            "bad": r.pick("km", "K", "text", "none")}


def gen_C28(r):
    o, rad = star(r, gens=True, ns=r.pick(0, 1, 2, 4), nf=r.pick(0, 1, 2))
    if r.random() < 0.6:
        o["flaregen"] = flaregen(r)
    if r.random() < 0.3:
        o["apart"] = 1
    ops = [o]
    for _ in range(r.randint(2, 5)):
        ops += [refused(r, rad) for _ in range(r.randint(1, 4))]
        k = r.random()
        if k < 0.5:
            ops.append(settles(r, rad))
        elif k < 0.7:
            ops.append({"op": "birth", "what": r.pick("spots", "facs"), "dt": dur(r, 0.05, 1)})
        elif k < 0.8:
            ops.append({"op": "mature", "cov": r4(r.uniform(0, 0.05))})
        elif "flaregen" in o:
            ops.append({"op": "star_flares", "dt": dur(r, 0.3, 4)})
    ops += [refused(r, rad), {"op": "rng"}, {"op": "birth", "what": "spots", "dt": [0.5, "day"]}]
    ops += [{"op": "map", "keep": 1}, {"op": "coverage", "v": v(r), "keep": 1}]
    return {"pair": "queries", "ops": ops, "opsB": [x for x in ops if x["op"] not in QUERIES or x.get("keep")]}


def mutated(r, o, rad):
    """a star that is easily mistaken for this one"""
    import copy
    o = copy.deepcopy(o)
    for k in r.sample(["teff", "rad", "seed", "u1", "grid", "spots", "facs", "gran", "gens", "none"], r.randint(1, 3)):
        if k == "teff":
            o["teff"] = r.pick(photosphere(r), [round(o["teff"][0] + 0.02, 2), "K"], [round(o["teff"][0] + 1, 2), "K"])
        elif k == "rad":
            o["rad"] = [r4(o["rad"][0] * r.pick(r.uniform(1, 1.4), 1.001, 1.01)), o["rad"][1]]
        elif k == "seed":
            o["seed"] += 1
        elif k == "u1":
            o["u1"] = r4(r.uniform(0, 0.5))
        elif k == "grid":
            g = o["grid"]
            o["grid"] = g[::-1] if isinstance(g, list) and min(g) > 3 else grid(r)
        elif k == "spots" and o["spots"]:
            s = r.choice(o["spots"])
            s.update(r.pick({"lat": lat(r)}, {"lon": shift(r, s["lon"])}, {"lat": shift(r, s["lat"]), "lon": shift(r, s["lon"])},
                            {"amax": [r4(s["amax"][0] * r.uniform(1.001, 1.05)), s["amax"][1]]}, {"gr": [0.31, "1/day"]}, {"tp": temp(r, 2700, 3200), "tu": temp(r, 2300, 2650)}, {"a": [s["a"][0] * 0.7, s["a"][1]]}))
        elif k == "facs" and o["facs"]:
            f = r.choice(o["facs"])
            f.update(r.pick({"lat": lat(r)}, {"lon": shift(r, f["lon"])}, {"lat": shift(r, f["lat"]), "lon": shift(r, f["lon"])},
                            {"life": [r4(f["life"][0] * 1.07), f["life"][1]]}, {"rmax": [r4(f["rmax"][0] * r.uniform(1.001, 1.05)), f["rmax"][1]]}, {"depth": [f["depth"][0] * 1.5, f["depth"][1]]}, {"wi": [f["wi"][0] + 31, "K"]}))
        elif k == "gran" and isinstance(o.get("gran"), dict):
            o["gran"].update(r.pick({"seed": 5}, {"mean": 0.4}, {"dt": [123, "K"]}))
        elif k == "gens" and "spotgen" in o:
            o["spotgen"].update(r.pick({"cov": r4(r.uniform(0, 0.4))}, {"tp": temp(r, 2650, 2950)}, {"dist": r.pick("iso", "solar")}))
            o["facgen"].update(r.pick({"cov": r4(r.uniform(0, 0.4))}, {"life": dur(r, 0.2, 20)}, {"wi": [r4(r.uniform(60, 300)), "K"]}))
    return o


def shift(r, x):
    """nearly the same place"""
    d = r.log(1e-5, 0.4) * (r.pick(1, -1) if abs(x[0]) < (85 if x[1] == "deg" else 1.48) else -1 if x[0] > 0 else 1)
    return [x[0] + (d if x[1] == "deg" else math.radians(d)), x[1]]


def apart(r, o, o2, rad):
    """a spot of both stars, a little moved on the second, whose border lies between the two distances of a grid point"""
    g = [r.randint(5, 16), r.randint(6, 22)]
    o["grid"] = o2["grid"] = g
    s = spot(r, g, rad, generic=True)
    t = dict(s, lat=shift(r, s["lat"]) if r.random() < 0.7 else s["lat"], lon=shift(r, s["lon"]))
    pt = (math.radians(-90 + 180 * r.randrange(g[0]) / (g[0] - 1)), math.radians(360 * r.randrange(g[1]) / g[1]))

    def dist(x):
        a, b = math.radians(x["lat"][0]), math.radians(x["lon"][0])
        h = math.sin((a - pt[0]) / 2) ** 2 + math.cos(a) * math.cos(pt[0]) * math.sin((b - pt[1]) / 2) ** 2
        return 2 * math.asin(min(1, math.sqrt(h)))
    d = (dist(s) + dist(t)) / 2
    if not 0.2 < d < 2.0:
        return
    a = 1e6 * rad * rad * (1 - math.cos(d))        # MSH
    for x, y in ((s, o), (t, o2)):
        x.update(a=[a, "MSH"], amax=[a * 1.7, "MSH"])
        y["spots"].append(x)
        y["rad"] = [rad, "R_sun"]


def gen_C29_makers(r):
    """two makers of features that differ in one thing"""
    rad = radius(r)
    kind = r.pick("flare", "spot", "fac")
    g = {"flare": flaregen, "spot": lambda r: spotgen(r, rad), "fac": lambda r: facgen(r, rad)}[kind](r)
    h = {"flare": flaregen, "spot": lambda r: spotgen(r, rad), "fac": lambda r: facgen(r, rad)}[kind](r)
    g2 = dict(g, **{k: h[k] for k in r.sample(sorted(set(g) & set(h)), r.randint(1, 2))})
    if kind == "flare":
        g2["beta"] = g["beta"] + (g["alpha"] - g2["alpha"]) * 32
        es = [[1e32, "erg"], [3e34, "erg"]]
        ask = [{"op": "flare_law", "dt": dur(r, 0.01, 100), "es": es, "xs": [0, 0.5, 0.99]}, {"op": "flare_draws", "n": r.randint(1, 9)}]
    else:
        ask = [{"op": kind + "_nexp", "dt": dur(r, 0.01, 10)}, {"op": kind + "_make", "n": r.randint(0, 6)}]
        if kind == "spot":
            ask.append({"op": "spot_mature", "cov": r4(r.uniform(0, 0.1))})
    head = {"op": kind + "gen", "rad": [rad, "R_sun"], "seed": r.randint(0, 10**6)}
    both = {1: [dict(head, gen=g)] + ask, 2: [dict(head, gen=g2)] + ask}
    return woven(r, both)


def woven(r, both):
    ops, at = [], {1: 0, 2: 0}
    while any(at[w] < len(both[w]) for w in both):
        w = r.pick(*[w for w in both if at[w] < len(both[w])])
        ops.append(dict(both[w][at[w]], w=w))
        at[w] += 1
    return {"pair": "alone", "ops": ops, "opsB": [x for w in (2, 1) for x in ops if x["w"] == w]}


def gen_C29(r):
    if r.random() < 0.15:
        return gen_C29_makers(r)
    o, rad = star(r, gens=r.random() < 0.7, ns=r.pick(0, 1, 2, 3), nf=r.pick(0, 1, 2))
    if r.random() < 0.5:
        o["flaregen"] = flaregen(r)
    if r.random() < 0.3:       # left to their defaults
        for k in ("spotgen", "facgen", "flaregen", "gran"):
            o.pop(k, None)
    o2 = mutated(r, o, rad) if r.random() < 0.75 else star(r, gens=True, ns=2, nf=1, rad=rad)[0]
    both = {1: [o], 2: [o2]}
    if r.random() < 0.25:             # granulation that differs in one thing, asked at the same times
        o["gran"] = dict(gran(r), dt=[200, "K"], amp=r4(r.uniform(0.001, 0.2)))
        o2["gran"] = dict(o["gran"], **r.pick({"mean": r4(r.random())}, {"mean": r4(r.random())}, {"seed": r.randint(0, 9)}, {"amp": r4(r.uniform(0, 0.3))}, {"per": [r4(r.uniform(1, 50)), "hr"]}))
        x = {"op": "gran_cov", "t": gran_times(r, o["gran"]["per"][0])}
        both = {1: [o, x], 2: [o2, x]}
    if r.random() < 0.2:
        apart(r, o, o2, rad)
        both = {1: [o, {"op": "map"}], 2: [o2, {"op": "map"}]}
    gen = {w: "spotgen" in both[w][0] for w in both}
    for _ in range(r.randint(2, 5)):
        k = r.random()
        x = None
        if k < 0.4:
            x = [settles(r, rad)]
        elif k < 0.55:
            x = [{"op": "birth", "what": r.pick("spots", "facs"), "dt": dur(r, 0.05, 1)}]
        elif k < 0.65:
            x = [{"op": "mature", "cov": r4(r.uniform(0, 0.05))}]
        elif k < 0.8 and "flaregen" in o:
            t0 = r.uniform(0, 3)
            x = [{"op": "star_flares", "dt": dur(r, 1, 5)}, {"op": "flare_window", "t0": [t0, "day"], "t1": [t0 + r.log(0.001, 3), "day"], "v": v(r)}]
        else:
            x = q_any(r, rad)
        w = r.pick(1, 2)
        both[w] += x
        if r.random() < 0.5:      # the same for the other one
            both[3 - w] += x
        y = q_any(r, rad)
        both[1] += y
        both[2] += y
    end = [{"op": "map"}, {"op": "coverage", "v": v(r), "pl": planet(r, rad)}, {"op": "rng"}, {"op": "shapes"}]
    for w in both:
        both[w] = [x for x in both[w] if x["op"] != "mature" or gen[w]] + end
    return woven(r, both)


# ---------------------------------------------------------------- copies, parts, mirrors, scales
def change(r, o, rad):
    """one change of a star with generators"""
    k = r.random()
    if k < 0.5:
        return settles(r, rad)
    if k < 0.75:
        return {"op": "birth", "what": r.pick("spots", "facs"), "dt": dur(r, 0.05, 2)}
    if k < 0.85 or "flaregen" not in o:
        return {"op": "mature", "cov": r4(r.uniform(0, 0.05))}
    return {"op": "star_flares", "dt": dur(r, 1, 5)}


def gen_C30(r):
    o, rad = star(r, gens=True)
    if r.random() < 0.6:
        o["flaregen"] = flaregen(r)
    if r.random() < 0.3:
        o["apart"] = 1
    ops = [o]
    for _ in range(r.randint(2, 5)):
        if r.random() < 0.8:
            s = {"op": "save", "how": r.pick("pickle", "copy", "copy", "pickle4", "pickle5")}
            if r.random() < 0.5:
                s["fork"] = [x for _ in range(r.randint(1, 4)) for x in ([change(r, o, rad)] if r.random() < 0.75 else q_any(r, rad)) if not x.get("maybe")]
            ops.append(s)
        ops.append(change(r, o, rad))
        if r.random() < 0.3:
            ops += [x for x in q_any(r, rad) if not x.get("maybe")]
    ops += [{"op": "save", "how": r.pick("pickle", "copy")}, {"op": "rng"}, {"op": "birth", "what": r.pick("spots", "facs"), "dt": [0.5, "day"]}]
    if "flaregen" in o:
        ops.append({"op": "star_flares", "dt": [2, "day"]})
    ops += [{"op": "map", "keep": 1}, {"op": "shapes", "keep": 1}, {"op": "coverage", "v": v(r), "pl": planet(r, rad), "keep": 1}, {"op": "rng"}]
    return {"pair": "queries", "ops": ops, "opsB": [x for x in ops if x["op"] not in QUERIES or x.get("keep")]}


def started(ops):
    """features a little below their largest (rounding decides whether one at its largest turns at once)"""
    for o in ops:
        for s in o.get("spots", []):
            s["a"] = [s["a"][0] * 0.987, s["a"][1]]
        for f in o.get("facs", []):
            f["r"] = [f["r"][0] * 0.987, f["r"][1]]
    return ops


DAYS = {"day": 1, "hr": 24, "min": 1440, "s": 86400, "yr": 1 / 365.25, "week": 1 / 7}


def gen_C31(r):
    o, rad = star(r, generic=True, ns=r.pick(1, 2, 3, 6), nf=r.pick(0, 1, 2, 4))
    o.pop("spotgen", None), o.pop("facgen", None)
    a, b = [o], [o]
    for _ in range(r.randint(1, 3)):
        t = r.log(0.05, 12) if r.random() < 0.9 else r.log(12, 300)
        n = r.pick(1, 1, 2, 3, 5, r.randint(6, 25))
        cuts = sorted(r.random() for _ in range(n))
        if r.random() < 0.3:       # nearly all of it in one part
            cuts = [c * 1e-3 for c in cuts]
        if r.random() < 0.15:
            cuts = cuts + [cuts[-1]]
        parts = [y - x for x, y in zip([0.0] + cuts, cuts + [1.0])]
        a.append({"op": "age", "dt": [t, "day"]})
        for x in parts:
            un = r.pick("day", "day", "hr", "s", "week")
            b.append({"op": "age", "dt": [t * x * DAYS[un], un]})
            if r.random() < 0.25:
                b.append(dict(r.pick({"op": "map"}, {"op": "coverage", "v": v(r, True)}, {"op": "facmap", "v": v(r, True)},
                                     {"op": "coverage", "v": v(r, True), "pl": planet(r, rad)}), aside=1))
        k = r.random()
        x = []
        if k < 0.25:
            x = [{"op": "add_spots", "spots": [spot(r, None, rad, generic=True)]}]
        elif k < 0.5:
            x = [{"op": "add_facs", "facs": [facula(r, None, rad, generic=True)]}]
        elif k < 0.6:
            x = [regrid(r)]
        x += [{"op": "map"}, {"op": "coverage", "v": v(r, True), "pl": planet(r, rad)}, {"op": "facmap", "v": v(r, True)}, {"op": "avg", "v": v(r, True)}]
        a += x
        b += x
    started([o] + [x for x in a if x["op"] in ("add_spots", "add_facs")])
    return {"pair": "parts", "ops": a, "opsB": b}


def mirrored(ops, ns, ew):
    """the same seen in a mirror: north for south, east for west"""
    half = lambda x, n: n * (180 if x[1] == "deg" else math.pi)

    def image(x):
        if isinstance(x, list):
            return [image(y) for y in x]
        if not isinstance(x, dict):
            return x
        x = {k: image(y) for k, y in x.items()}
        if "lat" in x and ns:
            x["lat"] = [-x["lat"][0], x["lat"][1]]
        if "lon" in x and ew:
            x["lon"] = [-x["lon"][0], x["lon"][1]]
        if "inc" in x and ns:
            x["inc"] = [half(x["inc"], 1) - x["inc"][0], x["inc"][1]]
        if "phase" in x and ew:
            x["phase"] = [half(x["phase"], 2) - x["phase"][0], x["phase"][1]]
        return x
    return image(ops)


LONG = {"km": 1, "m": 1, "Mm": 1, "cm": 1, "R_sun": 1, "R_earth": 1, "AU": 1, "MSH": 2, "km2": 2, "m2": 2, "R_sun2": 2,
        "MSH/d": 2, "km2/day": 2, "km2/hr": 2, "m2/s": 2, "K/km": -1, "K/m": -1, "K/Mm": -1}


def scaled(x, k):
    """all lengths k times as long"""
    if isinstance(x, dict):
        return {n: scaled(y, k) for n, y in x.items()}
    if isinstance(x, list):
        if len(x) == 2 and isinstance(x[1], str) and isinstance(x[0], (int, float)):
            return [x[0] * k ** LONG.get(x[1], 0), x[1]]
        return [scaled(y, k) for y in x]
    return x


def seen_ops(w, p, pl):
    return [{"op": "map"}, {"op": "facmap", "v": w}, {"op": "transit", "v": w, "pl": p}, dict({"op": "coverage", "v": w}, **pl), {"op": "avg", "v": w}]


def gen_C32(r):
    g = [r.randint(4, 18), r.randint(3, 26)]
    pole = r.random() < 0.12
    o, rad = star(r, ns=r.pick(0, 1, 2, 4), nf=0, g=g, generic=True, mixed=False)
    o["facs"] = [clear(r, g, rad) for _ in range(0 if pole else r.pick(0, 1, 2))]
    o.pop("spotgen", None), o.pop("facgen", None)
    for f in o["spots"] + o["facs"]:
        f["grid"] = g
    w = v(r, True)
    if pole:
        w["lat"] = [r.pick(90, -90), "deg"]
    p = planet(r, rad, 0.9)
    ops = started([o])
    if r.random() < 0.4:
        ops = ops + [{"op": "age", "dt": [r4(r.uniform(0.05, 1.0)), "day"]}]
    ops = ops + seen_ops(w, p, {"pl": p} if r.random() < 0.6 else {})
    ns, ew = r.pick((1, 0), (0, 1), (1, 1))
    return {"pair": "mirror", "ops": ops, "opsB": mirrored(ops, ns, ew), "ns": ns, "ew": ew}


def gen_C33(r):
    o, rad = star(r, generic=True, gens=r.random() < 0.5)
    ops = [o]
    for _ in range(r.randint(0, 3)):
        j = r.random()
        if j < 0.35:
            ops.append({"op": "age", "dt": dur(r, 0.05, 4)})
        elif j < 0.5:
            ops.append({"op": "add_spots", "spots": [spot(r, None, rad, generic=True)]})
        elif j < 0.65:
            ops.append({"op": "add_facs", "facs": [facula(r, None, rad, generic=True)]})
        elif j < 0.75:
            ops.append(regrid(r))
        elif j < 0.9:
            ops.append({"op": "birth", "what": r.pick("spots", "facs"), "dt": dur(r, 0.05, 2)})
        elif "spotgen" in o:
            ops.append({"op": "mature", "cov": r4(r.uniform(0, 0.15))})
    for x in ops:                     # what is left to a default is an area of its own, and does not scale
        for f in x.get("spots", []):
            f.setdefault("dr", [r4(2e4 * rad * rad * r.log(0.1, 10)), "MSH/d"])
    started(ops)
    p = planet(r, rad, 0.9)
    ops += seen_ops(v(r, True), p, {"pl": p})
    return {"pair": "scale", "ops": ops, "opsB": scaled(ops, r.pick(2.0, r.log(0.05, 20), r.log(1e-4, 1e4), r.log(1e-4, 1e-2), r.log(0.5, 2)))}


PAIRS = {"C08": gen_C08_pair}


def scenarios(prop, seed, n):
    """n scenarios of a property"""
    gen = globals()["gen_" + prop]
    out = []
    for i in range(n):
        r = R(f"{prop}/{seed}/{i}")
        x = PAIRS[prop](r) if prop in PAIRS and i % 4 == 3 else gen(r)
        if not isinstance(x, dict):
            x = {"ops": x}
        x["id"] = f"{prop}-{seed}-{i}"
        out.append(x)
    return out
