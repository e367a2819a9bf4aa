"""Comparing two runs of the implementation: what each observed becomes one "pair" event for the specification to judge."""

QUERIES = {"map", "facmap", "facinfo", "coverage", "transit", "plfrac", "avg", "mu", "shapes", "grancov", "gran_cov",
           "flare_window", "flare_split", "display", "grid", "facids", "angles", "fraction", "lights", "reject", "save"}
APART = {"processes", "alone"}       # kinds whose two runs are in two processes
NOSTATE = {"teff": "0.0", "rad": "0.0", "u1": "0.0", "u2": "0.0", "gdt": "0.0", "g": "none", "sg": "none",
           "fg": "none", "spots": [], "facs": [], "flares": []}


def flat(x, num, txt):
    """numbers and texts of a record, in a fixed order"""
    if isinstance(x, dict):
        for k in sorted(x):
            if k != "msg":
                flat(x[k], num, txt)
    elif isinstance(x, (list, tuple)):
        for y in x:
            flat(y, num, txt)
    elif isinstance(x, bool):
        txt.append(str(x))
    elif isinstance(x, int):
        num.append(str(x))
    else:
        try:
            float(x)
            num.append(x)
        except ValueError:
            txt.append(x)


def pair(events, other, **more):
    na, ta, nb, tb = [], [], [], []
    flat(events, na, ta)
    flat(other, nb, tb)
    ok = all(e["ok"] for e in events + other)
    bad = next((e for e in events + other if not e["ok"]), None)
    return dict({"op": "pair", "ok": ok, "err": bad["err"] if bad else "", "expect": "", "res": {"none": ""},
                 "post": dict(NOSTATE), "na": na, "nb": nb, "ta": ta, "tb": tb}, **more)


def by_label(fr):
    """fractions in the order of their temperatures"""
    return [x for d in sorted(fr, key=lambda d: float(d["t"])) for x in (d["t"], d["f"])]


def last(tr, op):
    for e in reversed(tr):
        if e["op"] == op and e["ok"]:
            return e["res"]
    return None


def judged(s, tr, other):
    """the trace of a scenario whose two runs were tr and other"""
    kind = s["pair"]
    if kind == "processes":
        return tr + [pair(tr, other)]
    if kind == "alone":
        # each star's events by themselves
        split = lambda t: [e for w in sorted({e["w"] for e in tr + other}) for e in t if e["w"] == w]
        return tr + [pair(split(tr), split(other))]
    if kind == "order":
        a, b = last(tr, "map"), last(other, "map")
        bad = next((e for e in other if not e["ok"]), None)
        ev = pair([], [], a=a["map"] if a else [], b=b["map"] if b else [])
        if bad:
            ev.update(ok=False, err=bad["err"])
        return tr + [ev]
    if kind == "queries":
        return tr + [pair(*([e for e in t if e["op"] not in QUERIES or e.get("kept")] for t in (tr, other)))]
    if kind == "units":
        # granulation is computed in single precision
        return [pair(tr, other, tol="2e-3" if any(e["op"] == "gran_cov" for e in tr) else "1e-7")]
    if kind == "parts":
        return tr + [pair(*([e for e in t if e["op"] != "age" and not e.get("aside")] for t in (tr, other)), tol="1e-7")]
    if kind in ("turn", "mirror", "scale"):
        pa, pb, fa, fb = [], [], [], []
        for t, p, f in ((tr, pa, fa), (other, pb, fb)):
            m, fm, ms, cv, av = (last(t, o) for o in ("map", "facmap", "transit", "coverage", "avg"))
            if all((m, fm, ms, cv, av)):
                p += [m["map"], fm["m1"], ms["mask"]]
                f += [m["cov"], ms["seen"], cv["seen"], av["t"]] + by_label(cv["tot"]) + by_label(cv["cov"])
        st = tr[-1]["post"] if tr else NOSTATE
        ok = all(e["ok"] for e in tr + other)
        ev = pair([], [], g=st["g"], k=s.get("k", 0), ns=bool(s.get("ns")), ew=bool(s.get("ew")), pa=pa, pb=pb, tol="1e-7", ptol="1e-7")
        ev.update(na=fa, nb=fb, ok=ok and len(pa) == len(pb))
        return [ev] if ok else tr + other + [ev]
    raise ValueError(kind)
