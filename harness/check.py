"""check.py PROP [quick|thorough]   decides one property on /repo's working tree
   check.py --replay FILE          runs one recorded violation again
Exit 0: held on everything explored.  1: violated (VIOLATION line).  2: no answer."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import pairs  # noqa: E402
import replay  # noqa: E402
import scen  # noqa: E402
import tlc  # noqa: E402

ROOT = os.path.dirname(HERE)
PY = "/opt/venv/bin/python"
CORES = max(2, min(8, os.cpu_count() or 2))

# property: model, its depth (quick, thorough), histories replayed (quick; thorough: up to), random scenarios (quick, thorough)
PLAN = {
    "C01": ("MC_Star", (2, 3), (150, 4000), (500, 6000)), "C02": ("MC_Star", (2, 3), (150, 3000), (500, 5000)),
    "C03": ("MC_Star", (2, 3), (120, 2000), (500, 4000)), "C04": ("MC_Planet", (120, 120), (24, 0), (700, 8000)),
    "C05": ("MC_Life", (3, 5), (400, 6000), (1600, 12000)), "C06": ("MC_Life", (3, 5), (400, 6000), (1600, 12000)),
    "C07": ("MC_Star", (2, 3), (250, 6000), (800, 8000)), "C08": ("MC_Star", (2, 3), (180, 4000), (600, 6000)),
    "C09": ("MC_Star", (2, 3), (180, 4000), (600, 6000)), "C10": ("MC_Star", (2, 3), (250, 6000), (600, 6000)),
    "C11": ("MC_Grid", (8, 14), (0, 0), (400, 3000)), "C12": ("MC_Gen", (2, 3), (0, 0), (300, 4000)),
    "C13": ("MC_Gen", (2, 3), (0, 0), (600, 6000)), "C14": ("MC_Gen", (2, 3), (60, 800), (160, 3000)),
    "C15": ("MC_Flare", (2, 3), (120, 2000), (340, 4000)), "C16": ("MC_Flare", (2, 3), (250, 3000), (600, 8000)),
    "C17": ("MC_Flare", (2, 3), (250, 3000), (800, 8000)), "C18": ("MC_Gran", (1, 1), (0, 0), (260, 2000)),
    "C19": ("MC_Star", (2, 3), (200, 4000), (420, 5000)), "C20": ("MC_Star", (2, 3), (150, 3000), (420, 6000)),
    "C21": ("MC_Star", (2, 3), (200, 3000), (460, 6000)), "C22": ("MC_Star", (2, 3), (150, 3000), (500, 6000)),
    "C23": ("MC_Star", (2, 3), (150, 3000), (500, 6000)), "C24": ("MC_Grid", (8, 14), (0, 0), (500, 4000)),
    "C25": ("MC_Flare", (2, 3), (200, 3000), (700, 8000)), "C26": ("MC_Grid", (8, 14), (0, 0), (400, 4000)),
    "C27": ("MC_Life", (3, 5), (200, 3000), (500, 5000)), "C28": ("MC_Star", (2, 3), (200, 4000), (500, 6000)),
    "C29": ("MC_Two", (2, 3), (100, 4000), (220, 4000)),
    "C30": ("MC_Star", (2, 3), (120, 4000), (240, 4000)), "C31": ("MC_Star", (2, 3), (160, 4000), (420, 6000)),
    "C32": ("MC_Star", (2, 3), (160, 3000), (420, 6000)), "C33": ("MC_Star", (2, 3), (160, 3000), (420, 6000)),
}
ASK = {"C19": "1", "C28": "2", "C30": "3"}      # steps of MC_Star only these properties are about


def execute(items, scratch, hashseed=0, shards=CORES, timeout=700):
    """runs scenarios on the implementation -> {index: trace}, grids"""
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", JAX_PLATFORMS="cpu", MPLBACKEND="Agg", OMP_NUM_THREADS="1",
               OPENBLAS_NUM_THREADS="1",
               XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1")
    procs = []
    work = tempfile.mkdtemp(dir=scratch)
    for k in range(shards):
        part = items[k::shards]
        if not part:
            continue
        src, dst = os.path.join(work, f"in.{k}.json"), os.path.join(work, f"out.{k}.json")
        with open(src, "w") as f:
            json.dump(part, f)
        err = open(dst + ".err", "w")
        procs.append((k, dst, subprocess.Popen([PY, os.path.join(HERE, "worker.py"), src, dst], env=dict(env, PYTHONHASHSEED=str(hashseed and hashseed + 13 * k)), cwd=work, stdout=err, stderr=err)))
    got, grids = {}, {}
    end = time.time() + timeout
    try:
        for k, dst, p in procs:
            try:
                rc = p.wait(max(1, end - time.time()))
            except subprocess.TimeoutExpired:
                raise tlc.Broken("the implementation took too long")
            if rc != 0:
                raise tlc.Broken(f"executor failed ({rc}): " + open(dst + ".err").read()[-3000:])
            with open(dst) as f:
                d = json.load(f)
            grids.update(d["grids"])
            for i, tr in enumerate(d["out"]):
                got[k + i * shards] = tr
    finally:
        for _, _, p in procs:
            if p.poll() is None:
                p.kill()
                p.wait()
    shutil.rmtree(work)
    return got, grids


def run_all(items, scratch, timeout):
    got, grids = execute(items, scratch, timeout=timeout)
    twice = [i for i, s in enumerate(items) if s.get("pair") in pairs.APART and i in got]
    if twice:
        # another process, another order, other hash seeds
        rev = list(reversed(twice))
        other, g2 = execute([dict(items[i], ops=items[i].get("opsB", items[i]["ops"])) for i in rev], scratch, hashseed=77, timeout=timeout)
        grids.update(g2)
        for k, i in enumerate(rev):
            if k in other:
                got[i] = pairs.judged(items[i], got[i], other[k])
    return got, grids


def model(prop, module, depth, scratch, timeout):
    cfg = os.path.join(scratch, f"{module}.cfg")
    with open(cfg, "w") as f:
        f.write(f"SPECIFICATION Spec\nINVARIANT Inv_{prop}\nACTION_CONSTRAINT Emitted\nCHECK_DEADLOCK FALSE\n")
    emit = os.path.join(scratch, "histories.txt")
    t = tlc.Tlc(module + ".tla", cfg, CORES, scratch, {"DEPTH": str(depth), "ASK": ASK.get(prop, "0")}, [("num.emit", emit)],
                heap="8g").wait(timeout)
    if not t.clean:
        raise tlc.Broken(f"the specification does not satisfy Inv_{prop} or was not explored completely\n" + t.text[-4000:])
    with open(emit) as f:
        return t, f.read().splitlines()


def known(prop):
    """findings recorded for a property: lines "known: property=<id> {json} what fails" """
    out = []
    with open(os.path.join(ROOT, "known_findings.txt")) as f:
        for line in f:
            if line.startswith(f"known: property={prop} "):
                k, end = json.JSONDecoder().raw_decode(line.split(" ", 2)[2])
                out.append(dict(k, what=line.split(" ", 2)[2][end:].strip()))
    return out


def is_known(k, item, ev, clauses):
    """a recorded finding names the operation, its exact arguments and the clause"""
    return k["op"] == ev["op"] and set(clauses) <= set(k["clauses"]) and k["args"] in item["ops"]


def sample(item):
    return {"id": item["id"], **({"history": item["hist"]} if "hist" in item else {}), "ops": [o["op"] for o in item["ops"]],
            "first": json.loads(json.dumps(item["ops"][0]))}


def report(prop, item, tr, step, clauses):
    out = os.path.join(ROOT, "out")
    os.makedirs(out, exist_ok=True)
    path = os.path.join(out, f"{prop}-{item['id']}.json")
    with open(path, "w") as f:
        json.dump({"property": prop, "step": step, "clauses": clauses, "scenario": item, "event": tr[step],
                   "before": tr[step - 1]["post"] if step else None}, f, indent=1)
    return path


def decide(prop, tier, seed):
    t0 = time.time()
    module, depths, caps, counts = PLAN[prop]
    deep = tier == "thorough"
    limit = 6 * 3600 if deep else 700
    tlc.compile_java()
    scratch = tempfile.mkdtemp(prefix="vsm-")
    try:
        m, lines = model(prop, module, depths[deep], scratch, limit)
        t1 = time.time()
        items, total = replay.scenarios(prop, module, lines, seed, caps[deep], deep)
        nmodel = len(items)
        items += scen.scenarios(prop, seed, counts[deep])
        bad, traces, states, trans, steps, ran = {}, {}, 0, 0, {}, 0
        chunk = 1500
        for a in range(0, len(items), chunk):
            part = items[a:a + chunk]
            got, grids = run_all(part, scratch, limit)
            idx = sorted(got)
            b, s, t = tlc.validate(prop, [got[i] for i in idx], grids, scratch, timeout=limit)
            states, trans, ran = states + s, trans + t, ran + len(idx)
            for i in idx:
                for e in got[i]:
                    steps[e["op"]] = steps.get(e["op"], 0) + 1
            for (i, l), c in b.items():
                bad[(a + idx[i], l)] = c
                traces[a + idx[i]] = got[idx[i]]
            if bad:
                break
        t2 = time.time()
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    listed = known(prop)
    fresh, seen = [], set()
    for (i, l), c in sorted(bad.items()):
        hit = next((k for k in listed if is_known(k, items[i], traces[i][l], c)), None)
        if hit:
            seen.add(hit["what"])
        else:
            fresh.append((i, l, c))
    for what in sorted(seen):
        print(f"KNOWN-FINDING: property={prop} {what}")
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": {"states": m.distinct + states, "transitions": m.generated + trans, "traces_validated_against_impl": ran,
                       "model_states": m.distinct, "model_transitions": m.generated, "model_depth": depths[deep],
                       "model_exhaustive_to_depth": True, "histories_of_the_model": total, "histories_replayed": nmodel,
                       "random_scenarios": len(items) - nmodel, "steps_judged": trans, "steps_by_operation": steps,
                       "samples": [sample(items[i]) for i in sorted({0, nmodel // 2, nmodel, len(items) - 1}) if i < len(items)]},
          "assumptions": ["the catalog of spec/catalog.json and the input ranges of harness/scen.py",
                          "java/Num.java evaluates the specification's arithmetic in IEEE doubles",
                          "harness/vsm.py reports what the public API returned"],
          "wall_s": round(time.time() - t0, 1), "violations": len(fresh)}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{prop} {tier}: model {m.distinct} states ({t1 - t0:.1f} s); {nmodel} histories and {len(items) - nmodel} random scenarios, "
          f"{trans} steps judged ({t2 - t1:.1f} s)")
    for i, l, c in fresh[:5]:
        e = traces[i][l]
        print(f"  {items[i]['id']} step {l} {e['op']}: {'; '.join(c)} {e.get('msg', '')}")
    if fresh:
        i, l, c = fresh[0]
        print(f"VIOLATION property={prop} replay={report(prop, items[i], traces[i], l, c)}")
        return 1
    return 0


def again(path):
    with open(path) as f:
        d = json.load(f)
    tlc.compile_java()
    scratch = tempfile.mkdtemp(prefix="vsm-")
    try:
        got, grids = run_all([d["scenario"]], scratch, 700)
        bad, _, _ = tlc.validate(d["property"], [got[0]], grids, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    for (_, l), c in sorted(bad.items()):
        print(f"step {l} {got[0][l]['op']}: {'; '.join(c)} {got[0][l].get('msg', '')}")
    if bad:
        print(f"VIOLATION property={d['property']} replay={path}")
        return 1
    return 0


def main():
    try:
        if sys.argv[1] == "--replay":
            return again(sys.argv[2])
        tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
        return decide(sys.argv[1], tier, int(os.environ.get("VERIF_SEED", "1")))
    except tlc.Broken as e:
        print("no answer:", e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
