"""Histories written by the model checker -> scenarios for the executor, with each property's questions after each step."""
import json
import math
import os
import random

from pairs import QUERIES

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CAT = json.load(open(os.path.join(HERE, "spec", "catalog.json")))

SPOT_U = {"lat": "rad", "lon": "rad", "amax": "km2", "a": "km2", "tu": "K", "tp": "K", "gr": "1/day", "dr": "km2/day"}
FAC_U = {"lat": "rad", "lon": "rad", "rmax": "km", "r": "km", "depth": "km", "life": "day", "fs": "K/km", "fmin": "km", "fb": "K",
         "ws": "K/km", "wi": "K"}
GEN_U = {"mean": "km2", "tu": "K", "tp": "K", "gr": "1/day", "dr": "km2/day", "init": "km2"}
FACGEN_U = {"rp": "km", "depth": "km", "life": "day", "fs": "K/km", "fmin": "km", "fb": "K", "ws": "K/km", "wi": "K"}
FLARE_U = {"fwhm": "day", "e": "erg", "lat": "rad", "lon": "rad", "T": "K", "tp": "day"}
FLAREGEN_U = {"tm": "K", "ts": "K", "fm": "day", "emin": "erg"}


def q(x, un):
    return [float(x), un]


def with_units(d, units):
    return {k: q(x, units[k]) if k in units else float(x) if isinstance(x, str) and k not in ("dist",) else x for k, x in d.items()}


def grid(i):
    g = CAT["grids"][i - 1]
    return [g["nlat"], g["nlon"]] if g["kind"] == "rect" else g["n"]


def spot(i):
    return dict(with_units(CAT["spots"][i - 1], SPOT_U), grid=grid(1 + i % 3))


def fac(i):
    return dict(with_units(CAT["facs"][i - 1], FAC_U), grid=grid(1 + i % 3))


def view(i):
    return {k: q(x, "rad") for k, x in CAT["views"][i].items()}


def planet(i):
    p = CAT["planets"][i]
    return {"a": q(p["a"], "km"), "r": q(p["r"], "km"), "phase": q(p["phase"], "rad"), "inc": q(p["inc"], "rad")}


# ---------------------------------------------------------------- MC_Star
def star_ops(hist):
    """(step, op) of a history of MC_Star"""
    out = []
    for h in hist:
        op, i = h["op"], h["i"]
        if op == "star":
            c = CAT["stars"][i - 1]
            out.append({"op": "star", "teff": q(c["teff"], "K"), "rad": q(c["rad"], "km"), "u1": float(c["u1"]), "u2": float(c["u2"]),
                        "grid": grid(h["g"]), "sgrid": grid(1 + h["g"] % 3), "fgrid": grid(1 + (h["g"] + 1) % 3), "seed": 1,
                        "gran": {"mean": 0.3, "amp": 0.01, "per": [5, "hr"], "dt": q(c["gdt"], "K"), "seed": 4},
                        "spots": [spot(1), spot(2)] if h["n"] else [], "facs": [fac(1)] if h["n"] else []})
        elif op == "age":
            out.append({"op": "age", "dt": q(CAT["dts"][i - 1], "day")})
        elif op == "spot":
            out.append({"op": "add_spots", "spots": [spot(i)], "how": "one"})
        elif op == "fac":
            out.append({"op": "add_facs", "facs": [fac(i)], "how": "one"})
        elif op == "regrid":
            out.append({"op": "regrid", "grid": grid(i)})
        elif op == "darken":
            out.append({"op": "set", "vals": {"u1": 0.3, "u2": 0.1}})
        elif op in ("ask", "refuse", "save"):
            out.append({"op": op, "i": i})
        else:
            raise ValueError(op)
    return out


NV, NP = len(CAT["views"]), len(CAT["planets"])


def ask_cov(r, all_):
    out = []
    for _ in range(4 if all_ else 1):
        o = {"op": "coverage", "v": view(r.randrange(NV)), "g": float(r.choice(CAT["grans"]))}
        if r.random() < 0.8:
            o["pl"] = planet(r.randrange(NP))
        out.append(o)
    return out


def ask_mu(r, all_):
    return ask_cov(r, all_) + [{"op": "mu", "v": view(r.randrange(NV))}]


def ask_transit(r, all_):
    out = [{"op": "transit", "v": view(r.randrange(NV)), "pl": planet(k)} for k in (range(NP) if all_ else (r.randrange(NP),))]
    return out + [{"op": "coverage", "v": view(r.randrange(NV)), "pl": planet(r.randrange(4))}]


def ask_map(r, all_):
    return [{"op": "map"}]


def ask_fac(r, all_):
    out = [{"op": "facmap", "v": view(k)} for k in (range(NV) if all_ else (r.randrange(NV),))]
    return out + [{"op": "facinfo", "i": r.randrange(4), "angles": [[0, "deg"], [35, "deg"], [80, "deg"], [130, "deg"]], "maybe": 1}]


def ask_shapes(r, all_):
    return [{"op": "shapes"}]


def ask_avg(r, all_):
    return [{"op": "avg", "v": view(k)} for k in (range(NV) if all_ else (r.randrange(NV),))]


def ask_gran(r, all_):
    return [{"op": "grancov", "v": view(r.randrange(NV)), "g": float(g), "pl": planet(r.randrange(NP))}
            for g in (CAT["grans"] if all_ else [r.choice(CAT["grans"])])]


ASK = {"C01": ask_cov, "C02": ask_mu, "C03": ask_transit, "C07": ask_map, "C08": ask_map, "C09": ask_fac, "C10": ask_shapes,
       "C22": ask_avg, "C23": ask_gran}


def turned(o, step):
    t = lambda x: dict(x, lon=[x["lon"][0] + step, "rad"])
    o = dict(o)
    for k in ("spots", "facs"):
        if k in o:
            o[k] = [t(x) for x in o[k]]
    for k in ("v",):
        if k in o:
            o[k] = t(o[k])
    return o


def below(ops):
    """features that are born exactly at their largest turn or not according to rounding: start them below it"""
    low = lambda o: dict(o, **{k: [dict(f, **{s: [f[s][0] * 0.987, f[s][1]]}) for f in o[k]] for k, s in (("spots", "a"), ("facs", "r")) if k in o})
    return [low(o) for o in ops]


def star_scn(prop, hist, r, all_):
    ops = star_ops(hist)
    if prop == "C19":
        full = []
        for o in ops:
            if o["op"] == "ask":
                full += [x for f in r.sample([ask_cov, ask_mu, ask_transit, ask_map, ask_fac, ask_shapes, ask_avg, ask_gran], 3) for x in f(r, False)]
            else:
                full.append(o)
        end = [dict(o, keep=1) for o in ({"op": "map"}, {"op": "shapes"}, {"op": "coverage", "v": view(1)})]
        full += [{"op": "rng"}] + end
        return {"pair": "queries", "ops": full, "opsB": [o for o in full if o["op"] not in QUERIES or o.get("keep")]}
    if prop == "C28":
        from scen import R, refused
        r2, full = R(str(r.random())), []
        for o in ops:
            if o["op"] == "refuse":
                full.append({"op": "reject", "what": r.choice(("mature", "genmature")), "cov": float(CAT["refused"][o["i"] - 1]), "must": 1})
                full += [refused(r2, 0.15) for _ in range(2)]
            else:
                full.append(o)
        full += [{"op": "rng"}, {"op": "birth", "what": "spots", "dt": [1, "day"]}] + [dict(o, keep=1) for o in ({"op": "map"}, {"op": "coverage", "v": view(1)})]
        return {"pair": "queries", "ops": full, "opsB": [o for o in full if o["op"] not in QUERIES or o.get("keep")]}
    if prop == "C30":
        full = []
        for o in ops:
            if o["op"] == "save":
                o = {"op": "save", "how": r.choice(("pickle", "copy", "pickle5"))}
                if full[-1]["op"] == "save" or ops and hist[len(full)]["i"] == 3:
                    o["fork"] = [{"op": "add_spots", "spots": [spot(1)], "how": "one"}, {"op": "age", "dt": q(CAT["dts"][3], "day")}]
            full.append(o)
        full += [{"op": "rng"}, {"op": "birth", "what": "spots", "dt": [1, "day"]}] + [dict(o, keep=1) for o in ({"op": "map"}, {"op": "coverage", "v": view(1)})]
        return {"pair": "queries", "ops": full, "opsB": [o for o in full if o["op"] not in QUERIES or o.get("keep")]}
    if prop == "C31":
        full, opsb = [], []
        for o in below(ops):
            full.append(o)
            if o["op"] == "age":
                t, cuts = o["dt"][0], sorted(r.random() for _ in range(r.randrange(1, 5)))
                opsb += [{"op": "age", "dt": [t * (b - a), "day"]} for a, b in zip([0.0] + cuts, cuts + [1.0])]
            else:
                opsb.append(o)
        end = [{"op": "map"}, {"op": "coverage", "v": view(1), "pl": planet(1)}, {"op": "avg", "v": view(2)}]
        return {"pair": "parts", "ops": full + end, "opsB": opsb + end}
    if prop in ("C32", "C33"):
        from scen import mirrored, scaled, R
        g = grid(hist[0]["g"])
        for o in ops:
            if o["op"] == "regrid":
                g = o["grid"]
        if prop == "C32" and not isinstance(g, list) or any(h["op"] == "fac" and h["i"] == 3 for h in hist):
            return None
        w, p = view(r.choice((1, 2))), planet(r.randrange(4))
        ops = below(ops)
        ops += [{"op": "map"}, {"op": "facmap", "v": w}, {"op": "transit", "v": w, "pl": p}, {"op": "coverage", "v": w, "pl": p}, {"op": "avg", "v": w}]
        if prop == "C33":
            k = r.choice((2.0, 0.37, 3.3, 11.0, 2e-3, 5e3))
            return {"pair": "scale", "ops": ops, "opsB": scaled(ops, k)}
        ns, ew = r.choice(((1, 0), (0, 1), (1, 1)))
        return {"pair": "mirror", "ops": ops, "opsB": mirrored(ops, ns, ew), "ns": ns, "ew": ew}
    if prop == "C20":
        from scen import R, other_units
        r2 = R(str(r.random()))
        ops = below(ops)
        for s in [s for o in ops if "spots" in o for s in o["spots"]] + [f for o in ops if "facs" in o for f in o["facs"]]:
            s["lat"] = [min(1.5, max(-1.5, s["lat"][0])), "rad"]
        ops += [{"op": "coverage", "v": view(1), "pl": planet(1)}, {"op": "avg", "v": view(2)}]
        return {"pair": "units", "ops": ops, "opsB": other_units(r2, ops)}
    if prop == "C21":
        g = grid(hist[0]["g"])
        for o in ops:
            if o["op"] == "regrid":
                g = o["grid"]
        # rectangular grids; faculae that stay clear of the poles; generic views
        if not isinstance(g, list) or any(h["op"] == "fac" and h["i"] == 3 for h in hist):
            return None
        k = r.randrange(1, g[1])
        w, p = view(r.choice((1, 2))), planet(r.randrange(4))
        ops += [{"op": "map"}, {"op": "facmap", "v": w}, {"op": "transit", "v": w, "pl": p}, {"op": "coverage", "v": w, "pl": p}, {"op": "avg", "v": w}]
        return {"pair": "turn", "ops": ops, "opsB": [turned(o, 2 * math.pi / g[1] * k) for o in ops], "k": k}
    full = []
    for o in ops:
        full.append(o)
        full += ASK[prop](r, all_)
    return {"ops": full}


# ---------------------------------------------------------------- the others
def life_scn(prop, hist, r, all_):
    c, h = CAT["lives"], hist[0]
    if (prop in ("C05", "C27")) != (h["op"] == "spot"):
        return None
    dts = [q(c["dts"][x["i"] - 1], "day") for x in hist[1:]]
    if h["op"] == "spot":
        s = dict(spot(1), **with_units(c["spots"][h["i"] - 1], SPOT_U), grid=[3, 4])
        ops, k = [{"op": "spot", "s": s}], "spot"
    else:
        f = dict(fac(1), **with_units(c["facs"][h["i"] - 1], FAC_U), grid=[3, 4])
        ops, k = [{"op": "fac", "f": f}], "fac"
    if prop == "C27":
        vs = lambda: {"op": "fraction", "n": r.choice((201, 501, 1001)), "vs": [view(i) for i in range(NV)] + [{"lat": s["lat"], "lon": s["lon"]}]}
        ops.append(vs())
        for d in dts:
            ops += [{"op": "spot_age", "dt": d}, vs()]
        return {"ops": ops}
    ops.append({"op": k + "_parts", "dts": dts})
    for d in dts:
        ops.append({"op": k + "_age", "dt": d})
    return {"ops": ops}


def grid_scn(prop, hist, r, all_):
    g = hist[0]
    gp = [g["nlat"], g["nlon"]] if g["kind"] == "rect" else g["n"]
    if prop == "C11":
        return {"ops": [{"op": "grid", "grid": gp, "views": [view(0), view(1), view(2)]}, {"op": "grideq", "a": gp, "b": gp},
                        {"op": "grideq", "a": gp, "b": [g["nlon"], g["nlat"]] if g["kind"] == "rect" and g["nlon"] > 2 else g.get("n", 7) + 1}]}
    if prop == "C26":
        some = [{"lat": [r.uniform(-1.5, 1.5), "rad"], "lon": [r.uniform(0, 6), "rad"]} for _ in range(2)]
        return {"ops": [{"op": "angles", "ps": [view(i) for i in range(NV)] + some}]
                + [{"op": "proj", "grid": gp, "v": x} for x in [view(i) for i in range(NV)] + some]}
    n = (g["nlat"], g["nlon"]) if g["kind"] == "rect" else (r.randrange(2, 7), r.randrange(1, 8))
    if g["kind"] == "spiral" and g["n"] < 2:
        return None
    if g["kind"] == "rect" and g["nlon"] < 2:
        return None
    return {"ops": [{"op": "display", "grid": gp, "nlat": n[0], "nlon": n[1], "seed": r.randrange(99), **d}
                    for d in ({"data": "const", "c": 7.0, "unit": "K"}, {"data": "rand", "lo": 2500, "hi": 3500}, {"data": "one", "i": r.randrange(99)})]}


def gen_scn(prop, hist, r, all_):
    h, b = hist[0], CAT["births"]
    g = dict(with_units(CAT["spotgens"][h["i"] - 1], GEN_U), grid=[4, 6])
    rad = q(CAT["stars"][0]["rad"], "km")
    if prop == "C14":
        fg = dict(with_units(CAT["facgens"][h["s"] % 2], FACGEN_U), grid=30)
        flg = with_units(CAT["flaregens"][h["i"] % 3], FLAREGEN_U)
        ops = [{"op": "star", "teff": [3300, "K"], "rad": rad, "grid": [5, 8], "seed": h["s"], "spots": [spot(1)], "facs": [fac(1)],
                "spotgen": g, "facgen": fg, "flaregen": flg,
                "gran": {"mean": 0.3, "amp": 0.01, "per": [5, "hr"], "dt": [200, "K"], "seed": h["s"]}}]
        for x in hist[1:]:
            if x["op"] == "birth":
                dt = q(b["dts"][x["i"] - 1], "day")
                ops += [{"op": "birth", "what": "spots", "dt": dt}, {"op": "birth", "what": "facs", "dt": dt}, {"op": "age", "dt": dt},
                        {"op": "star_flares", "dt": dt}, {"op": "gran_cov", "t": ["lin", 0, 40, 5, "day"]}]
            else:
                ops.append({"op": "mature", "cov": float(b["covs"][x["i"] - 1])})
        return {"pair": "processes", "ops": ops + [{"op": "rng"}, {"op": "coverage", "v": view(1)}]}
    ops = [{"op": "spotgen", "gen": g, "rad": rad, "seed": h["s"]}]
    fops = [{"op": "facgen", "gen": dict(with_units(CAT["facgens"][h["i"] % 2], FACGEN_U), grid=30), "rad": rad, "seed": h["s"]}]
    for x in hist[1:]:
        if x["op"] == "birth":
            dt = q(b["dts"][x["i"] - 1], "day")
            if prop == "C12":
                ops += [{"op": "spot_nexp", "dt": dt}, {"op": "spot_births", "dt": dt, "n": 15, "keep": 40}]
                fops += [{"op": "fac_nexp", "dt": dt}, {"op": "fac_births", "dt": dt, "n": 15, "keep": 40}]
            else:
                ops.append({"op": "spot_births", "dt": dt, "n": 1})
        elif prop == "C13":
            ops.append({"op": "spot_mature", "cov": float(b["covs"][x["i"] - 1])})
        else:
            ops.append({"op": "spot_make", "n": 3 * x["i"]})
            fops.append({"op": "fac_make", "n": 3 * x["i"]})
    return {"ops": ops + (fops if prop == "C12" else [])}


def gran_scn(prop, hist, r, all_):
    p = hist[0]
    g = {"mean": float(p["mean"]), "amp": float(p["amp"]), "per": q(p["per"], "hr"), "dt": q(p["dt"], "K"), "seed": r.randrange(10**6)}
    per = float(p["per"])
    ops = [{"op": "gran", "gran": g}] + [{"op": "gran_cov", "t": ["lin", 0, n * per * r.uniform(0.5, 3), n, "hr"]} for n in (1, 6)]
    ts = [per * (i + r.random()) for i in range(8)] + [per * 1e-3 * i for i in range(4)]
    r.shuffle(ts)
    ops += [{"op": "gran_cov", "t": [ts, "hr"]}, {"op": "gran_cov", "t": ["lin", 50, 50 + 0.1 * per, 100, "hr"]}]
    ops += [{"op": "star", "teff": [3300, "K"], "rad": [0.15, "R_sun"], "grid": 20, "seed": 1, "gran": g},
            {"op": "gran_cov", "t": ["lin", 0, 10, 4, "day"]}]
    return {"ops": ops}


def planet_scn(prop, hist, r, all_):
    c, h = CAT["orbit"], hist[0]
    p = {"a": q(c["a"][h["a"] - 1], "km"), "r": q(c["r"][h["r"] - 1], "km"), "inc": q(c["inc"][h["inc"] - 1], "rad")}
    st = CAT["stars"][0]
    ops = [{"op": "star", "teff": q(st["teff"], "K"), "rad": q(st["rad"], "km"), "grid": 20, "seed": 1}]
    for x in hist[1:]:
        ph = 2 * math.pi * x["k"] / c["steps"]
        ops.append({"op": "plfrac", "pl": dict(p, phase=[ph, "rad"])})
    return {"ops": ops}


def flare_scn(prop, hist, r, all_):
    h = hist[0]
    if prop == "C15":
        g = with_units(CAT["flaregens"][h["i"] - 1], FLAREGEN_U)
        e0 = g["emin"][0]
        ops = [{"op": "flaregen", "gen": g, "seed": r.randrange(10**6)}]
        for x in hist[1:]:
            dt = q(CAT["cuts"][x["i"] - 1], "day")
            ops += [{"op": "flare_law", "dt": dt, "es": [[e0 * f, "erg"] for f in (1, 2, 30, 1e4)], "xs": [0, 0.25, 0.9, 0.9999]},
                    {"op": "flare_series", "dt": dt, "n": 3}]
        return {"ops": ops}
    t, ts = float(CAT["starts"][h["s"] - 1]), []
    ts = [t]
    for x in hist[1:]:
        t += float(CAT["cuts"][x["i"] - 1])
        ts.append(t)
    f = with_units(CAT["flares"][h["i"] - 1], FLARE_U)
    if prop == "C17":
        return {"ops": [{"op": "flare_curve", "f": f, "t": [ts, "day"]}, {"op": "flare_curve", "f": f, "t": ["lin", ts[0], ts[-1], 41, "day"]}]}
    if prop == "C25":
        fl = [{"tp": float(x["tp"]), "fw": float(x["fwhm"]), "am": r.choice((1, 1, 0.3, 25))} for x in CAT["flares"]]
        r.shuffle(fl)
        return {"ops": [{"op": "lights", "t": ts, "fl": fl}, {"op": "lights", "t": ts, "fl": fl[:1], "one": 1},
                        {"op": "lights", "t": ts, "fl": fl[:2], "texp": r.choice((0.01, 0.2)), "over": r.choice((3, 4, 7, 10))}]}
    fs = [with_units(x, FLARE_U) for x in CAT["flares"]]
    vs = [view(r.randrange(NV)), {"lat": f["lat"], "lon": f["lon"]}]
    ops = [{"op": "flares", "flares": fs}]
    for v in vs:
        ops += [{"op": "flare_window", "t0": [a, "day"], "t1": [b, "day"], "v": v} for a, b in zip(ts, ts[1:])]
        ops.append({"op": "flare_window", "t0": [ts[0], "day"], "t1": [ts[-1], "day"], "v": v})
    if len(ts) > 2:
        ops.append({"op": "flare_split", "ts": [[x, "day"] for x in ts], "v": vs[1]})
    return {"ops": ops}


def two_scn(prop, hist, r, all_):
    """two stars, interleaved, and one after the other"""
    ops = []
    for h in hist:
        w = h["w"]
        # (the model's second star differs from its first in places that shared memory would mix up)
        o = star_ops([dict(h, n=1)])[0]
        ops.append(dict(o, w=w))
        if h["op"] != "star":
            ops += [dict(x, w=k) for k in (1, 2) for x in (r.choice(ASK_TWO)(r, False))]
    for k in (1, 2):
        ops += [dict(x, w=k) for x in ({"op": "map"}, {"op": "coverage", "v": view(1), "pl": planet(1)}, {"op": "rng"})]
    return {"pair": "alone", "ops": ops, "opsB": [o for w in (2, 1) for o in ops if o["w"] == w]}


ASK_TWO = [ask_cov, ask_map, ask_avg, ask_mu, ask_transit, ask_shapes]
SCN = {"MC_Two": two_scn, "MC_Star": star_scn, "MC_Life": life_scn, "MC_Grid": grid_scn, "MC_Gen": gen_scn, "MC_Gran": gran_scn, "MC_Planet": planet_scn,
       "MC_Flare": flare_scn}


def scenarios(prop, module, lines, seed, cap, all_=False):
    """scenarios of the histories no other history extends; at most cap of them, chosen by the seed"""
    hists = sorted(set(json.dumps(json.loads(x), sort_keys=True) for x in lines))
    hists = [json.loads(x) for x in hists]
    prefix = {json.dumps(h[:-1], sort_keys=True) for h in hists if len(h) > 1}
    hists = [h for h in hists if json.dumps(h, sort_keys=True) not in prefix]
    total = len(hists)
    r = random.Random(f"{prop}/{seed}/histories")
    r.shuffle(hists)
    out = []
    for i, h in enumerate(hists):
        s = SCN[module](prop, h, random.Random(f"{prop}/{seed}/{json.dumps(h, sort_keys=True)}"), all_)
        if s is None:
            continue
        s["id"] = f"{prop}-model-{i}"
        s["hist"] = h
        out.append(s)
        if len(out) == cap:
            break
    return out, total
