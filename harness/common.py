"""Shared machinery of the checks: TLC runs, trace validation, evidence, verdicts."""

import glob
import json
import os
import re
import shutil
import subprocess
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TLA = os.path.join(VERIF, "tla")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
PY = "/opt/venv/bin/python"
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
if TIER not in ("quick", "thorough"):
    TIER = "quick"
NPROC = 8


class MachineryError(Exception):
    pass


class Tlc:
    """Runs TLC in a scratch directory that is removed at the end."""

    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="verif_")
        self.classes = os.path.join(self.dir, "classes")
        os.makedirs(self.classes)
        r = subprocess.run(
            ["javac", "-nowarn", "-cp", JARS, "-d", self.classes]
            + glob.glob(os.path.join(TLA, "java", "vf", "*.java")),
            capture_output=True,
            text=True,
        )
        if r.returncode:
            raise MachineryError("javac failed: " + r.stderr[-2000:])
        self.n = 0
        self.states = 0
        self.transitions = 0
        self.log = []

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def path(self, name):
        return os.path.join(self.dir, name)

    def run(self, module, cfg_text=None, cfg=None, args=(), env=None, workers=1, timeout=850, heap="3g", props=()):
        """Run TLC on a module of /verif/tla. Returns the output."""
        self.n += 1
        k = self.n
        work = os.path.join(self.dir, f"w{k}")
        os.makedirs(work)
        for f in glob.glob(os.path.join(TLA, "*.tla")):
            os.symlink(f, os.path.join(work, os.path.basename(f)))
        if cfg_text is None:
            cfg_text = open(os.path.join(TLA, cfg or module + ".cfg")).read()
        cfgfile = os.path.join(work, "MC.cfg")
        open(cfgfile, "w").write(cfg_text)
        cmd = [
            "java", f"-Xmx{heap}", "-Xss64m", f"-Djava.io.tmpdir={work}", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2",
            "-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:vf.NumOverrides",
            *props, "-cp", JARS + ":" + self.classes, "tlc2.TLC",
            "-metadir", os.path.join(work, "md"), "-workers", str(workers), "-config", cfgfile,
            *args, module + ".tla",
        ]
        e = dict(os.environ)
        e.update(env or {})
        try:
            r = subprocess.run(cmd, cwd=work, env=e, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise MachineryError(f"TLC timed out on {module}")
        out = r.stdout + r.stderr
        self.log.append((module, r.returncode))
        shutil.rmtree(os.path.join(work, "md"), ignore_errors=True)
        return r.returncode, out

    def check(self, module, cfg_text=None, cfg=None, workers=4, timeout=850, **kw):
        """Exhaustively check a design model. Any error is a machinery error: the model
        does not depend on /repo, so a violated invariant is a defect of the model."""
        rc, out = self.run(module, cfg_text, cfg, workers=workers, timeout=timeout, **kw)
        if rc != 0 or "No error has been found" not in out:
            raise MachineryError(f"design model {module} fails:\n" + out[-3000:])
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
        gen, dist = int(m.group(1)), int(m.group(2))
        self.states += dist
        self.transitions += gen
        return dict(module=module, cfg=cfg or module + ".cfg", distinct_states=dist, states_generated=gen)

    def simulate(self, module, cfg_text, num, depth, seed, timeout=600):
        rc, out = self.run(
            module, cfg_text, args=["-simulate", f"num={num}", "-depth", str(depth), "-seed", str(seed)],
            timeout=timeout,
        )
        if rc != 0:
            raise MachineryError(f"generator {module} fails:\n" + out[-3000:])
        return out


def tla(x):
    """Python value to TLA+ text for a config file."""
    if isinstance(x, bool):
        return "TRUE" if x else "FALSE"
    if isinstance(x, int):
        return str(x)
    if isinstance(x, str):
        return '"' + x + '"'
    if isinstance(x, (set, frozenset)):
        return "{" + ", ".join(tla(y) for y in sorted(x, key=str)) + "}"
    if isinstance(x, (list, tuple)):
        return "<<" + ", ".join(tla(y) for y in x) + ">>"
    raise TypeError(x)


def cfg(spec="Spec", constants=None, extra=""):
    lines = [f"SPECIFICATION {spec}"]
    if constants:
        lines.append("CONSTANTS")
        for k, v in constants.items():
            lines.append(f" {k} = {tla(v)}")
    return "\n".join(lines) + "\n" + extra + "\nCHECK_DEADLOCK FALSE\n"


def driver(script, args, env=None, timeout=800):
    e = dict(os.environ)
    e.update(
        OMP_NUM_THREADS="1", MKL_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
        PYTHONDONTWRITEBYTECODE="1", CUDA_VISIBLE_DEVICES="", PYTHONHASHSEED="0",
        PYTHONPATH="/repo:" + os.path.join(VERIF, "harness"),
    )
    e.update(env or {})
    r = subprocess.run(
        [PY, "-W", "ignore", os.path.join(VERIF, "harness", script), *map(str, args)],
        env=e, cwd=os.path.join(VERIF, "harness"), capture_output=True, text=True, timeout=timeout,
    )
    if r.returncode:
        raise MachineryError(f"driver {script} failed ({r.returncode}):\n" + r.stderr[-3000:])
    return r.stdout


def pmap(f, xs, n=NPROC):
    with ThreadPoolExecutor(n) as ex:
        return list(ex.map(f, xs))


def balance(tlc, files, name):
    """Distribute the runs of some trace files over as many files of similar size."""
    runs, order, cur = {}, [], None
    for f in files:
        for line in open(f):
            if line.startswith('{"ev": "conf"'):
                cur = json.loads(line)["run"]
                if cur not in runs:
                    order.append(cur)
                    runs[cur] = []
            runs[cur].append(line)
    bins = [[0, i, []] for i in range(NPROC)]
    # numbers with many digits and large matrices cost more than their length
    for k in sorted(order, key=lambda k: -sum(map(len, runs[k]))):
        b = min(bins)
        b[0] += sum(map(len, runs[k])) + 200 * len(runs[k])
        b[2].append(k)
    out = []
    for _, i, ks in bins:
        out.append(tlc.path(f"{name}_b{i}.ndjson"))
        with open(out[-1], "w") as h:
            for k in sorted(ks):
                h.writelines(runs[k])
    return out


def validate(tlc, module, trace_files, heap="3g"):
    """Run a trace specification on each file. Returns the list of reported clauses
    (each with its file) and the number of validated lines."""

    def one(path):
        n = sum(1 for _ in open(path))
        if n == 0:
            return [], 0, 0
        rc, out = tlc.run(module, env={"TRACE": path}, heap=heap)
        m = re.search(r'@@DONE (\d+) (\d+)', out)
        if rc != 0 or not m or int(m.group(1)) != int(m.group(2)) or int(m.group(2)) != n:
            raise MachineryError(f"trace validation with {module} did not finish on {path}:\n" + out[-3000:])
        bad = []
        for line in out.splitlines():
            if "@@BAD " in line:
                s = line[line.index("@@BAD ") + 6 :].rstrip()
                if s.endswith('"'):
                    s = s[:-1]
                s = s.replace('\\"', '"').replace("\\\\", "\\")
                d = json.loads(s)
                d["file"] = path
                bad.append(d)
        g = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
        return bad, n, int(g.group(1)) if g else n

    res = pmap(one, trace_files)
    bads = [b for r in res for b in r[0]]
    lines = sum(r[1] for r in res)
    tlc.states += lines
    tlc.transitions += sum(r[2] for r in res)
    return bads, lines


class Check:
    """One run of one property's check."""

    def __init__(self, prop):
        self.prop = prop
        self.t0 = time.time()
        self.tlc = Tlc()
        self.models = []
        self.traces = 0
        self.events = 0
        self.samples = []
        self.cov = {}
        self.bad = []  # reported violations, dictionaries
        self.assumptions = []

    def known(self):
        out = []
        p = os.path.join(VERIF, "known_findings.jsonl")
        if os.path.exists(p):
            for line in open(p):
                line = line.strip()
                if line.startswith("{"):
                    d = json.loads(line)
                    if d.get("property") == self.prop:
                        out.append(d)
        return out

    def finish(self):
        known = self.known()
        open_bad, found = [], {}
        for b in self.bad:
            k = next((k for k in known if all(b.get(f) in v for f, v in k["match"].items())), None)
            if k is None:
                open_bad.append(b)
            else:
                found[k["id"]] = k
        for k in found.values():
            print(f"KNOWN-FINDING: property={self.prop} {k['what']}")
        cov = dict(
            states=self.tlc.states,
            transitions=self.tlc.transitions,
            traces_validated_against_impl=self.traces,
            events_validated=self.events,
            design_models=self.models,
            samples=self.samples[:5],
            **self.cov,
        )
        ev = dict(
            property=self.prop, tier=TIER, seed=SEED, level="model_checking", coverage=cov,
            assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(open_bad),
        )
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w"), indent=1)
        self.tlc.close()
        print(f"{self.prop}: {self.traces} traces, {self.events} events, {self.tlc.states} states, {ev['wall_s']} s, {len(open_bad)} violations")
        if open_bad:
            rp = os.path.join(VERIF, "evidence", self.prop + ".replay.json")
            json.dump(open_bad[:50], open(rp, "w"), indent=1)
            for b in open_bad[:5]:
                s = {k: v for k, v in b.items() if k not in ("schedule", "file")}
                print("  " + json.dumps(s)[:600])
            print(f"VIOLATION property={self.prop} replay={rp}")
            return 1
        return 0
