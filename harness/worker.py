"""Runs a shard of scenarios on the code under test: worker.py IN OUT"""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import pairs  # noqa: E402
import vsm  # noqa: E402


def run(s):
    tr = vsm.run(s)
    if not s.get("pair") or s["pair"] in pairs.APART:
        return tr
    return pairs.judged(s, tr, vsm.run({"ops": s["opsB"]}))


def main():
    src, dst = sys.argv[1:3]
    with open(src) as f:
        items = json.load(f)
    out = []
    for s in items:
        tr = run(s)
        out.append(tr)
        if any(e["err"] == "Hang" for e in tr):
            break       # one is enough; the rest would take as long
    with open(dst, "w") as f:
        json.dump({"grids": vsm.GRIDS, "out": out}, f)


if __name__ == "__main__":
    main()
