"""Running TLC."""
import json
import os
import re
import subprocess
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
JAR = "/opt/veriftools/tla/tla2tools.jar"
DEPS = "/opt/veriftools/tla/CommunityModules-deps.jar"
BUILD = os.path.join(HERE, "build")


def compile_java():
    """the Java definitions of the operators of Num.tla"""
    src = [os.path.join(HERE, "java", f) for f in ("Num.java", "NumReal.java")]
    cls = [os.path.join(BUILD, f) for f in ("Num.class", "NumReal.class")]
    if all(os.path.exists(c) for c in cls) and min(map(os.path.getmtime, cls)) >= max(map(os.path.getmtime, src)):
        return
    os.makedirs(BUILD, exist_ok=True)
    subprocess.run(["javac", "-d", BUILD, "-cp", JAR] + src, check=True)


class Tlc:
    """one TLC run, in the background"""

    def __init__(self, module, config, workers, scratch, env=None, props=(), heap="3g", extra=()):
        self.meta = tempfile.mkdtemp(dir=scratch)
        cmd = ["java", "-Xss64m", f"-Xmx{heap}", "-XX:+UseParallelGC", f"-XX:ParallelGCThreads={workers}",
               f"-Djava.io.tmpdir={self.meta}"]
        cmd += [f"-D{k}={x}" for k, x in props]
        cmd += ["-cp", f"{JAR}:{DEPS}:{BUILD}", "tlc2.TLC", "-workers", str(workers), "-metadir", self.meta, "-noGenerateSpecTE"]
        cmd += list(extra) + ["-config", config, module]
        self.cmd = cmd
        self.out = os.path.join(self.meta, "out.txt")
        self.f = open(self.out, "w")
        self.p = subprocess.Popen(cmd, stdout=self.f, stderr=subprocess.STDOUT, cwd=os.path.join(HERE, "spec"),
                                  env=dict(os.environ, **(env or {})))

    def wait(self, timeout=None):
        try:
            self.p.wait(timeout)
        except subprocess.TimeoutExpired:
            self.p.kill()
            self.p.wait()
        self.f.close()
        with open(self.out) as f:
            self.text = f.read()
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", self.text)
        self.generated, self.distinct = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
        self.clean = "Model checking completed. No error has been found." in self.text
        m = re.search(r"depth of the complete state graph search is (\d+)", self.text)
        self.depth = int(m.group(1)) if m else 0
        return self

    def bad(self):
        """<<"BAD", tr, l, {..}>> lines, which TLC may wrap"""
        out = {}
        for m in re.finditer(r'<<\s*"BAD",\s*(\d+),\s*(\d+),\s*\{(.*?)\}\s*>>', self.text, re.S):
            out[(int(m.group(1)), int(m.group(2)))] = sorted(re.findall(r'"((?:[^"\\]|\\.)*)"', m.group(3)))
        return out


class Broken(Exception):
    """the machinery gave no answer"""


def judge(prop, part, grids, scratch, workers):
    fd, path = tempfile.mkstemp(suffix=".json", dir=scratch)
    with os.fdopen(fd, "w") as f:
        json.dump({"grids": grids, "traces": part}, f)
    return Tlc("Trace.tla", "Trace.cfg", workers, scratch, {"TRACES": path, "PROP": prop})


FATAL = ("OutOfMemory", "StackOverflow", "Parsing or semantic analysis failed", "No space left")


def complete(run, part):
    return run.clean and run.distinct == sum(len(x) + 1 for x in part)


def culprit(prop, part, grids, scratch, timeout):
    """index and step of a trace TLC cannot evaluate the clauses on, found by halving; None if there is none"""
    lo, hi = 0, len(part)
    while True:
        run = judge(prop, part[lo:hi], grids, scratch, 4).wait(timeout)
        if complete(run, part[lo:hi]):
            return None
        if any(x in run.text for x in FATAL) or "The error occurred" not in run.text and "Evaluating" not in run.text and "Attempted" not in run.text:
            return None
        if hi - lo == 1:
            steps = [int(x) for x in re.findall(r"^/\\ l = (\d+)", run.text, re.M)]
            return lo, min(max(steps, default=0), len(part[lo]) - 1), run.text
        mid = (lo + hi) // 2
        first = judge(prop, part[lo:mid], grids, scratch, 4).wait(timeout)
        if complete(first, part[lo:mid]):
            lo = mid
        else:
            hi = mid


def validate(prop, traces, grids, scratch, jvms=4, workers=2, timeout=800):
    """traces: list of traces.  Returns ({(index, step): [clauses]}, states, transitions)."""
    traces = list(enumerate(traces))
    size = lambda t: len(json.dumps(t))
    order = sorted(traces, key=lambda it: -size(it[1]))
    bins = [[] for _ in range(min(jvms, max(1, len(order))))]
    loads = [0] * len(bins)
    for it in order:
        i = loads.index(min(loads))
        bins[i].append(it)
        loads[i] += size(it[1])
    runs = [(b, judge(prop, [t for _, t in b], grids, scratch, workers)) for b in bins if b]
    for _, t in runs:
        t.wait(timeout)
    bad, states, trans = {}, 0, 0
    for b, t in runs:
        part = [x for _, x in b]
        for (i, l), c in t.bad().items():
            bad[(b[i - 1][0], l - 1)] = c
        states += t.distinct
        trans += sum(map(len, part))
        if not complete(t, part):
            # a step the clauses cannot even be evaluated on (say, an array of another size) is no step of the specification
            hit = culprit(prop, part, grids, scratch, timeout)
            if hit:
                bad[(b[hit[0]][0], hit[1])] = ["what was observed does not have the form the specification requires"]
            elif not bad:
                raise Broken(f"TLC judged {t.distinct} steps of {sum(map(len, part))}\n" + t.text[-6000:])
    return bad, states, trans
