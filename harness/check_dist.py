"""Checks of distributed training: C12 (optimizer) and C17 (structured matrices)."""

import json
import os
import subprocess
import time

from check_optim import BASE, SMALL, VALUE, DIFFERS, design, theorems, generate, judge, plan
from common import PY, SEED, TIER, VERIF, Check, MachineryError, balance, cfg, pmap, validate

LIMIT = 700


def ranks(script, progs, out, world, share, nshares, store, extra=()):
    """Run one process per rank; returns the log of each rank and whether all ended normally."""
    e = dict(os.environ)
    e.update(OMP_NUM_THREADS="1", MKL_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1",
             CUDA_VISIBLE_DEVICES="", PYTHONHASHSEED="0", GLOO_SOCKET_IFNAME="lo",
             PYTHONPATH="/repo:" + os.path.join(VERIF, "harness"))
    ps, outs = [], []
    for r in [*extra, *range(world)]:
        f = f"{out}.{r}"
        outs.append(f)
        err = open(f + ".err", "w")
        ps.append(subprocess.Popen(
            [PY, "-W", "ignore", os.path.join(VERIF, "harness", script), progs, f, str(SEED), str(r), str(world), store, str(share), str(nshares)],
            env=e, cwd=os.path.join(VERIF, "harness"), stdout=subprocess.DEVNULL, stderr=err))
    died, logs = [], []
    end = time.time() + LIMIT
    for p, f in zip(ps, outs):
        try:
            rc = p.wait(max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            rc = -9
        logs.append([json.loads(x) for x in open(f)] if os.path.exists(f) else [])
        # what happens after the last entry of the log does not matter
        if logs[-1] and logs[-1][-1]["ev"] == "end":
            logs[-1].pop()
        else:
            died.append(f"process ended with {rc}: " + open(f + ".err").read()[-300:])
    return logs, died


def split(log):
    runs, cur = {}, None
    for e in log:
        if e["ev"] == "conf":
            cur = runs.setdefault(e["run"], [])
        cur.append(e)
    return runs


def merge(logs, died, per_layer):
    """One log with the observations of all ranks; unequal logs end with an exception."""
    runs = [split(x) for x in logs]
    res = {}
    for i in sorted(set().union(*runs)):
        mine = [r.get(i, []) for r in runs]
        n = min(len(m) for m in mine)
        bad = ""
        merged = []
        for es in zip(*mine):
            if len({e["ev"] for e in es}) > 1:
                bad = "processes disagree"
                break
            d = dict(es[0])
            d["exc"] = next((e["exc"] for e in es if e["exc"]), "")
            d["same"] = {k: all(e["same"].get(k, True) for e in es) for k in set().union(*[e["same"] for e in es])}
            for k in per_layer:
                if k in d and not d["exc"]:
                    d[k] = [sum([e[k][j] for e in es], []) for j in range(len(d[k]))]
            if "val" in d:
                d["val"] = sum([e["val"] for e in es], [])
            for k in ("warned", "pending", "scales", "alive"):
                if k in d:
                    d[k] = any(e[k] for e in es) if k == "warned" else max(e[k] for e in es)
            merged.append(d)
            if d["exc"]:
                break
        else:
            if any(len(m) > n for m in mine):
                bad = "process stopped: " + " ".join(died)
        if bad:
            late = next((e["exc"] for m in mine for e in m if e["exc"]), bad)
            merged.append(dict(ev="broken", exc=late[:400], same={}, text=""))
        res[i] = merged
    return res


def collect(c, script, progs, trace, layout, per_layer, reference=False):
    f = c.tlc.path("progs.ndjson")
    with open(f, "w") as h:
        for p in progs:
            h.write(json.dumps(p) + "\n")

    def one(a):
        i, (world, share, nshares) = a
        return ranks(script, f, c.tlc.path(f"log{i}"), world, share, nshares, c.tlc.path(f"store{i}"), extra=(-1,) if reference else ())

    files, n = [], 0
    for i, (logs, died) in enumerate(pmap(one, list(enumerate(layout)))):
        if all(not x for x in logs):
            raise MachineryError(f"no process of {script} logged anything: {died}")
        ref = split(logs.pop(0)) if reference else {}
        merged = merge(logs, died, per_layer)
        if died and not any(e["exc"] for r in merged.values() for e in r):
            # all processes end at the same place
            if not merged:
                raise MachineryError(f"{script}: {died}")
            merged[max(merged)].append(dict(ev="broken", exc=str(died)[:400], same={}, text=""))
        path = c.tlc.path(f"{trace}{i}_")
        files.append(path + ".ndjson")
        with open(files[-1], "w") as h:
            for k, run in merged.items():
                for e in ref.get(k, []) + run:
                    h.write(json.dumps(e) + "\n")
                n += 1
    return balance(c.tlc, files, trace), n


def dist_optim(c):
    base = dict(kinds=["train", "step", "trainstep", "nograd"], length=[12], T=[1, 2, 3], zero="maybe",
                arch=["mlp", "seq", "conv", "reuse", "single", "mlp3"])
    union = dict(base, arch=["mlp", "seq", "seq4", "conv", "conv2", "reuse", "single", "mlp3"], la=["batch", "batch+sequence"], batches=[1, 2])
    m = 1 if TIER == "quick" else 8
    top = BASE["topfields"] + ["uneven"]
    plans = [
        (3, plan(26, relate="union", **union)),
        (2, plan(26, relate="union", **union)),
        (3, plan(22, topfields=top, **base)),
        (2, plan(22, topfields=top, **dict(base, kinds=["train", "step", "trainstep", "infstep", "announce", "hyper"]),
                 scaling=["explicit", "attr"], initscale=["1", "16.0"])),
        (2, plan(14, **dict(base, kinds=["train", "step", "trainstep", "save", "load"], length=[14]))),
        (3, plan(10, **dict(base, length=[8], dtype=["f32", "bf16"], pK=["none", "f32"], pC=["none", "bf16"], damping=["0.1"], lrcov=["c:0.05"], lr=["0.03"]))),
    ]
    for _, p in plans:
        p["opts"]["options"]["uneven"] = [0, 1]
    progs = []
    for w, p in plans:
        c_progs = generate(c, [p], m, tag=f"d{len(progs)}_")
        for q in c_progs:
            q["R"] = w
        progs += c_progs
    return progs


def main(prop):
    c = Check(prop)
    if prop == "C17":
        return reductions(c)
    design(c)
    theorems(c)
    progs = dist_optim(c)
    layout = [(3, 0, 2), (3, 1, 2), (2, 0, 2), (2, 1, 2)]
    files, n = collect(c, "dist_driver.py", progs, "trace", layout, ("obs", "grads", "after"), reference=True)
    bads, lines = validate(c.tlc, "SingdTrace", files)
    judge(c, progs, bads, VALUE | DIFFERS | {"replicas", "inf-step-changes"})
    c.traces, c.events = n, lines
    c.cov = dict(worlds=sorted({p["R"] for p in progs}), programs=len(progs))
    c.samples = progs[:2]
    c.assumptions = ["gloo back end over loop-back, 2 and 3 processes", "every process makes the same sequence of calls"]
    return c.finish()


def reductions(c):
    c.models.append(c.tlc.check("MCReduction", workers=8))
    quick = TIER == "quick"
    big = {"block30diagonal", "hierarchical15_15"}
    f = c.tlc.path("red.ndjson")
    rest = dict(R=3, OutFile=f)
    small = {x for x in SMALL} | {"rec_rec", "naiveblock2"}
    full = [  # exhaustive over configurations with one reduction
        dict(Names=small, Dims={1, 2, 5}, DTypes={"f64"}, Layouts={"c", "t", "op"}, Delayed={True}, NMat=1, MaxLen=1),
        dict(Names=small | {"rec_hier_toep"}, Dims={6}, DTypes={"f64"}, Layouts={"s", "inner"}, Delayed={False}, NMat=1, MaxLen=1),
        dict(Names=big, Dims={16, 31}, DTypes={"f64"}, Layouts={"c", "t"}, Delayed={True}, NMat=1, MaxLen=1),
        dict(Names=small, Dims={4}, DTypes={"f32", "bf16"}, Layouts={"c"}, Delayed={True}, NMat=1, MaxLen=1),
    ]
    if not quick:
        full += [
            dict(Names=small, Dims={3, 4, 7, 8, 9}, DTypes={"f64"}, Layouts={"c", "t", "s", "op", "inner"}, Delayed={True, False}, NMat=1, MaxLen=1),
            dict(Names=small, Dims={5}, DTypes={"f32", "bf16", "f16"}, Layouts={"c", "t"}, Delayed={True, False}, NMat=1, MaxLen=1),
            dict(Names=big, Dims={3, 29, 30, 32, 61}, DTypes={"f64"}, Layouts={"c", "t", "op"}, Delayed={True}, NMat=1, MaxLen=1),
        ]
    for k in full:
        c.models.append(c.tlc.check("ReductionGen", cfg(constants=dict(k, **rest)), workers=1))
    ncover = sum(1 for _ in open(f))
    for i, (w, num) in enumerate([(3, 120), (2, 160)]):
        c.tlc.simulate("ReductionGen", cfg(constants=dict(
            R=w, OutFile=f, Names=small | {"rec_hier_toep"}, Dims={5, 6, 7}, DTypes={"f64"}, Layouts={"c", "t", "s", "op", "inner"},
            Delayed={True, False}, NMat=3, MaxLen=9)), num=num * (1 if quick else 20), depth=20, seed=SEED * 131 + i)
    progs = [json.loads(x) for x in open(f)]
    files, n = collect(c, "reduction_driver.py", progs, "trace", [(3, 0, 2), (3, 1, 2), (2, 0, 1)], ())
    bads, lines = validate(c.tlc, "ReductionTrace", files)
    for b in bads:
        b["schedule"] = progs[b["run"] - 1]
        c.bad.append(b)
    c.traces, c.events = n, lines
    c.cov = dict(exhaustive_configurations=ncover, programs=len(progs))
    c.samples = [progs[0], progs[-1]]
    c.assumptions = ["gloo back end over loop-back, 2 and 3 processes", "all processes issue the same sequence of reductions"]
    return c.finish()
