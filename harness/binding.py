"""How tightly the specification holds the implementation: recorded executions are changed in one place (one number by a few percent, one
flag, one text) and judged again.   harness/binding.py Cxx [n]   prints, per kind of call and place, how many of the changes are noticed."""
import collections
import copy
import json
import random
import shutil
import sys
import tempfile

import check
import replay
import scen
import tlc


def leaves(x, path=()):
    if isinstance(x, dict):
        for k in x:
            yield from leaves(x[k], path + (k,))
    elif isinstance(x, list):
        for i, y in enumerate(x):
            yield from leaves(y, path + (i,))
    else:
        yield path, x


def changed(v, rng):
    if isinstance(v, bool):
        return not v
    if isinstance(v, int):
        return v + 1
    try:
        x = float(v)
    except (TypeError, ValueError):
        return None
    if x != x or x in (float("inf"), float("-inf")):
        return None
    return repr(x * 1.03) if x else "0.03"


def main(prop, n=8, count=60):
    rng = random.Random(7)
    tlc.compile_java()
    scratch = tempfile.mkdtemp(prefix="vsm-")
    try:
        items = scen.scenarios(prop, 1, count)
        got, grids = check.run_all(items, scratch, 700)
        places = collections.defaultdict(list)
        for i in got:
            for l, e in enumerate(got[i]):
                for part in ("res", "post", "both"):
                    if part in e:
                        for path, v in leaves(e[part], (part,)):
                            if changed(v, rng) is not None:
                                places[(e["op"],) + tuple("*" if isinstance(p, int) else p for p in path)].append((i, l, path))
        traces, of = [], []
        for k, where in sorted(places.items()):
            for i, l, path in rng.sample(where, min(n, len(where))):
                t = copy.deepcopy(got[i][:l + 1])
                x = t[l]
                for p in path[:-1]:
                    x = x[p]
                x[path[-1]] = changed(x[path[-1]], rng)
                traces.append(t)
                of.append((k, l))
        bad, _, _ = tlc.validate(prop, traces, grids, scratch)
        hit = collections.Counter()
        tot = collections.Counter()
        for j, (k, l) in enumerate(of):
            tot[k] += 1
            hit[k] += any((j, m) in bad for m in range(l + 1))
        return {" ".join(k): (hit[k], tot[k]) for k in tot}
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    for k, (h, t) in sorted(main(sys.argv[1], *map(int, sys.argv[2:])).items()):
        print(f"{sys.argv[1]} {h}/{t} {k}")
