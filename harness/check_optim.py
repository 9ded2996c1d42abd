"""Checks of the optimizer: C01-C08, C11, C13, C14, C18."""

import json
import re

from common import NPROC, SEED, TIER, TLA, Check, MachineryError, balance, cfg, driver, pmap, validate
from archs import NLAYERS

SMALL = ["dense", "diagonal", "block2diagonal", "block3diagonal", "hierarchical3_2", "hierarchical1_1", "triltoeplitz",
         "triutoeplitz", "trilbottomrightdiag", "triltopleftdiag", "triubottomrightdiag", "triutopleftdiag"]
BIG = ["dense", "diagonal", "block30diagonal", "hierarchical15_15", "triltoeplitz", "triutoeplitz"]
BASE = dict(
    topfields=["arch", "dtype", "scaling", "initscale", "ngroups", "listing", "autocast", "growth", "length", "vary", "graph", "decoy", "probe", "mag", "memfmt", "frozen"],
    layerfields=["group", "list"],
    groupfields=["T", "lr", "momentum", "damping", "alpha1", "wd", "la", "lrcov", "sK", "sC", "approx", "like", "norm", "pK", "pC"],
    nlayers=NLAYERS,
    kinds=["train", "step", "trainstep", "infstep", "nograd", "zero"],
    maxbwd=3, zero="maybe", batches=[1, 2, 3], scales=["4.0", "0.5", "1024.0", "3.0", "65536.0"],
    hyper=[["lr", ["0.02", "0.2", "0"]], ["damping", ["0.3", "0.01"]], ["wd", ["0.0", "0.05"]], ["momentum", ["0.3", "0.8"]],
           ["alpha1", ["0.2", "0.6"]], ["lrcov", ["c:0.02", "s:0.08"]], ["norm", [True, False]],
           ["la", ["none", "batch", "batch+sequence"]], ["approx", ["expand", "reduce"]]],
    options=dict(
        arch=["single", "mlp", "mlp3", "seq", "seq4", "conv", "conv2", "bnconv", "reuse", "branch", "embed", "tiedemb", "ckpt", "ckptre", "seq5", "deep"],
        dtype=["f64"], scaling=["none"], initscale=["1"], ngroups=[1, 2], listing=["groups", "none", "list", "junk"],
        autocast=[0], growth=[1, 3], length=[12], list=["both"], vary=["all"], graph=[0], decoy=[0], probe=[0], mag=["1"], memfmt=["plain", "last"], frozen=[0, 1],
        T=[1, 2, 3], lr=["0.1", "0.03"], momentum=["0", "0.9", "0.5"], damping=["0.1", "0.001", "0"],
        alpha1=["0", "0.5", "0.9"], wd=["0", "0.1"], la=["none", "batch", "batch+sequence"],
        lrcov=["c:0.05", "c:0.2", "s:0.1"], sK=SMALL, sC=SMALL, approx=["expand", "reduce"], like=[True, False],
        norm=[True, False], pK=["none"], pC=["none"]),
)
CONVS = ["conv", "conv1", "conv1", "conv2", "bnconv"]


def plan(n, relate="", **kw):
    o = json.loads(json.dumps(BASE))
    for k, v in kw.items():
        if k in o["options"]:
            o["options"][k] = v
        else:
            o[k] = v
    return dict(n=n, relate=relate, opts=o)


VALUE = {"init", "factors", "momenta", "parameters", "momentum", "stale-refresh", "raises", "step-count"}
RESTORE = {"restored-preconditioner", "restored-parameters", "restored-steps", "restored-hyper-parameters", "changed-snapshot",
           "changed-state", "changed-gradients"}
DIFFERS = {"differs-preconditioner", "differs-parameters"}
TWIN = {"changed-" + x for x in ("registry", "outputs", "inputs", "rng", "mode", "buffers", "state", "gradients", "input_gradients", "grad_mode", "untrained", "zeroed")}
AMP = dict(scaling=["explicit", "attr", "scaler"], initscale=["1", "16.0"])
EVENTS = ["train", "trainstep", "step", "infstep", "nograd", "eval", "fwd", "bwd", "bwdkeep", "drop", "zero", "zerokeep"]

# property -> (plans, judged clauses, design model settings)
FOCUS = {
    "C01": (
        [plan(110, like=[True, False]), plan(40, mag=["tiny", "big", "zero", "sparse", "equal", "ignored"], length=[9]), plan(50, arch=["mlp", "conv"], hyper=BASE["hyper"], kinds=["trainstep", "train", "step", "hyper"]),
         plan(6, arch=["big", "bigconv"], sK=BIG, sC=BIG, length=[8], kinds=["trainstep"])],
        VALUE,
    ),
    "C02": (
        [plan(120, list=["both", "weight", "bias"], kinds=["train", "step", "trainstep", "nograd", "zero", "hyper", "infstep", "clip", "edit"], graph=[0, 1], **AMP),
         plan(40, list=["both", "weight", "bias"], listing=["list", "groups"])],
        VALUE | {"changed-gradients", "changed-untrained"},
    ),
    "C03": (
        [plan(130, probe=[1], arch=["conv1"], sK=["dense", "diagonal", "triutoeplitz"], sC=["dense"], length=[8], batches=[1, 2, 4], kinds=["trainstep", "train", "step"], T=[1]),
         plan(10, arch=["wide"], length=[5], batches=[33, 65, 130, 300, 520, 1100], kinds=["trainstep", "train", "step"], T=[1]),
         plan(4, arch=["wideconv"], length=[4], batches=[1, 2], kinds=["trainstep"], T=[1]),
         plan(60, probe=[1], mag=["1", "sparse", "ignored"], arch=["seq", "seq4", "seq5", "reuse", "branch", "embed", "single", "ckpt", "ckptre"], kinds=["trainstep", "train", "step"], T=[1, 2]),
         plan(40, probe=[1], arch=["conv", "conv2", "bnconv"], kinds=["trainstep", "train", "step"], T=[1, 2])],
        VALUE,
    ),
    "C04": (
        [plan(130, length=[24], T=[1, 2, 3, 4], kinds=EVENTS, arch=["single", "mlp", "reuse", "mlp3", "seq", "ckpt", "ckptre", "deep"], scaling=["none", "attr", "explicit"], decoy=[0, 0, 1]),
         plan(12, length=[60], T=[4, 5, 7, 10], kinds=["trainstep", "train", "step", "nograd"], arch=["single", "mlp"], batches=[1]),
         plan(30, length=[20], T=[1, 2, 3], kinds=["train", "step", "trainstep", "hyperT", "infstep", "nograd"], arch=["mlp", "single"])],
        VALUE | {"pending-statistics"},
    ),
    "C05": (
        [plan(70, relate="unscaled", length=[16], zero="always", kinds=["train", "step", "trainstep", "infstep", "nograd", "announce", "trainbad"],
              arch=["mlp", "conv", "seq", "single"], **AMP),
         plan(50, length=[16], kinds=["train", "step", "trainstep", "infstep", "announce", "zerokeep", "trainbad"], **AMP)],
        VALUE | DIFFERS | {"inf-step-changes"},
    ),
    "C06": (
        [plan(110, length=[20], kinds=["train", "step", "trainstep", "infstep", "infstep", "trainbad", "nograd", "announce"],
              arch=["mlp", "conv", "seq", "reuse", "single", "bnconv"], **AMP)],
        VALUE | {"inf-step-changes", "missing-warning", "spurious-warning", "pending-statistics", "changed-untrained"},
    ),
    "C07": (
        [plan(150, length=[22], kinds=["train", "step", "trainstep", "save", "load", "hyper", "hyperT", "nograd"],
              arch=["mlp", "conv", "mlp3", "single", "bnconv"], ngroups=[1, 2]),
         plan(50, length=[22], kinds=["train", "step", "trainstep", "save", "load", "infstep", "announce"],
              arch=["mlp", "conv", "single"], **AMP),
         plan(12, length=[16], kinds=["train", "trainstep", "save", "load", "step"], dtype=["f32", "bf16"], arch=["mlp", "conv"], pK=["none", "f32"], pC=["none", "f32"])],
        VALUE | RESTORE,
    ),
    "C08": (
        [plan(130, ngroups=[2, 3], list=["both", "weight", "bias"], kinds=["train", "step", "trainstep", "hyper", "hyperT"], length=[14],
              arch=["mlp3", "reuse", "branch", "conv", "mlp", "embed", "bnconv", "deep"], listing=["groups", "junk"]),
         plan(50, ngroups=[1, 2, 3], kinds=["train", "step", "trainstep", "hyper", "edit", "clip"], decoy=[1], length=[9]),
         plan(90, ngroups=[2, 3], kinds=["trainstep", "train", "step"], length=[9], arch=["mlp3", "branch", "conv", "mlp"], listing=["groups"],
              vary=["T", "lr", "momentum", "damping", "alpha1", "wd", "la", "lrcov", "sK", "sC", "approx", "norm", "like", "pK"],
              pK=["none", "f32"], la=["none", "batch"], T=[1, 2]),
         plan(60, ngroups=[1], list=["both", "weight", "bias"], arch=["mlp3", "branch", "conv", "bnconv"], listing=["none", "list", "groups"])],
        VALUE | {"changed-untrained", "changed-types", "restored-hyper-parameters"},
    ),
    "C11": (
        [plan(90, dtype=["f32", "bf16", "f16", "f64"], pK=["none", "f32", "bf16", "f16", "f64"], pC=["none", "f32", "bf16", "f16", "f64"],
              arch=["mlp", "conv", "seq", "single", "mlp3"], length=[10], kinds=["trainstep", "train", "step", "nograd"], maxbwd=2, lrcov=["c:0.05"], damping=["0.1"], alpha1=["0", "0.5"], lr=["0.03"], sK=SMALL + BIG, sC=SMALL + BIG, listing=["groups", "none", "junk"]),
         plan(40, dtype=["f64", "f32"], arch=["conv1", "reuse", "bnconv", "embed"], sK=SMALL + BIG, sC=SMALL + BIG, length=[8]),
         plan(16, dtype=["f32"], autocast=[1], pK=["none", "f32", "bf16"], pC=["none", "bf16"], arch=["mlp", "conv", "seq"], length=[8], lrcov=["c:0.05"], damping=["0.1"], lr=["0.03"], **AMP),
         plan(4, arch=["big", "bigconv"], dtype=["f64", "f32", "bf16"], sK=BIG, sC=BIG, length=[8], kinds=["trainstep"], lrcov=["c:0.05"], damping=["0.1"])],
        VALUE | {"changed-types", "differs-preconditioner", "differs-parameters"},
    ),
    "C13": (
        [plan(100, relate="merged", length=[16], maxbwd=4, zero="always", kinds=["train", "train2", "step", "nograd"], batches=[2], like=[False],
              la=["batch", "batch+sequence"], arch=["mlp", "mlp3", "seq", "seq4", "seq5", "conv", "conv1", "conv2", "reuse", "branch", "embed"]),
         plan(30, length=[16], maxbwd=4, kinds=["train", "train2", "step"], like=[False], batches=[1, 2])],
        VALUE | DIFFERS,
    ),
    "C14": (
        [plan(110, length=[16], kinds=EVENTS + ["clip", "edit"], graph=[0, 0, 1], arch=BASE["options"]["arch"] + ["conv1"], list=["both", "weight", "bias"], scaling=["none", "attr"]),
         plan(30, length=[12], kinds=EVENTS, dtype=["f64", "f32", "bf16"], pK=["none", "f32", "bf16"], pC=["none", "f32", "bf16"], sK=["dense", "diagonal", "triltoeplitz"], sC=["dense", "diagonal"], damping=["0.1"], lrcov=["c:0.05"], lr=["0.03"])],
        TWIN | {"raises"},
    ),
    "C18": (
        [plan(70, length=[36], kinds=EVENTS + ["save", "announce"], graph=[0, 1], arch=["mlp", "single", "conv", "reuse", "mlp3", "ckpt", "ckptre"], scaling=["none", "attr", "explicit", "scaler"]),
         plan(10, length=[90], kinds=["trainstep", "train", "step", "infstep", "nograd", "fwd", "drop"], arch=["single", "mlp"], scaling=["explicit", "attr"])],
        {"pending-statistics", "scale-history", "state-growth", "state-extra", "activations-alive", "raises"},
    ),
}


def model_configs():
    q = [dict(), dict(MaxSteps=2, MaxSnap=1)]
    if TIER == "thorough":
        q = [dict(Ts={1, 2, 3}, MaxSteps=4, InitScales={0, 1}), dict(Ts={2}, Scales={0}, MaxSteps=3, MaxSnap=1), dict(MaxSteps=2, MaxSnap=1)]
    return q


def design(c):
    """Exhaustive exploration of the optimizer's state machine."""
    base = open(f"{TLA}/MCSingd.cfg").read()
    from common import tla as t

    for kw in model_configs():
        text = base
        for k, v in {**(dict(Scales={2}) if TIER == "quick" else {}), **kw}.items():
            text = re.sub(rf"(?m)^ {k} = .*$", f" {k} = {t(v)}", text)
        c.models.append(c.tlc.check("MCSingd", text, workers=8, heap="8g"))


# consequences of the specification (tla/Theorems.tla)
THEOREMS = {"C01": "stationary", "C05": "scale", "C12": "parallel", "C13": "accumulation"}


def theorems(c):
    kind = THEOREMS.get(c.prop)
    if kind is None:
        return
    names = {"dense", "diagonal", "triltoeplitz", "hierarchical1_1", "trilbottomrightdiag"}
    if TIER == "quick" and kind != "stationary":
        names = {"dense", "triltoeplitz"} if kind == "scale" else {"dense", "triltoeplitz", "hierarchical1_1"}
    text = cfg(constants=dict(Kind=kind, Structs=names, Seeds={1} if TIER == "quick" else {1, 2}, Parts={2} if kind == "stationary" or TIER == "quick" else {2, 3}),
               extra="INVARIANTS ScaleFree Accumulation DataParallel Stationary")
    c.models.append(c.tlc.check("Theorems", text, workers=8, heap="6g"))


def generate(c, plans, mult=1, tag=""):
    """Programs from tla/SingdGen.tla."""
    progs = []

    def one(a):
        i, p = a
        f, o = c.tlc.path(f"gen{tag}{i}.ndjson"), c.tlc.path(f"opts{tag}{i}.json")
        json.dump(p["opts"], open(o, "w"))
        num = int(p["n"] * mult)
        rc, out = c.tlc.run("SingdGen", cfg(constants=dict(OutFile=f)), env={"OPTS": o},
                            args=["-simulate", f"num={num}", "-depth", "400", "-seed", str(SEED * 7919 + i)])
        res = [json.loads(x) for x in open(f)] if rc == 0 else None
        if res is None or len(res) < 0.8 * num:
            raise MachineryError("generator fails:\n" + out[-3000:])
        for r in res:
            r["relate"] = p["relate"]
        return res

    for r in pmap(one, list(enumerate(plans))):
        progs += r
    return progs


def execute(c, progs, name="progs"):
    f = c.tlc.path(name + ".ndjson")
    with open(f, "w") as h:
        for p in progs:
            h.write(json.dumps(p) + "\n")
    files = [c.tlc.path(f"{name}_t{i}.ndjson") for i in range(NPROC)]
    pmap(lambda i: driver("optim_driver.py", [f, files[i], SEED, i, NPROC]), range(NPROC))
    return balance(c.tlc, files, name)


def main(prop):
    c = Check(prop)
    plans, judged = FOCUS[prop]
    design(c)
    theorems(c)
    progs = generate(c, plans, 1 if TIER == "quick" else 8)
    files = execute(c, progs)
    bads, lines = validate(c.tlc, "SingdTrace", files)
    judge(c, progs, bads, judged)
    c.traces = len(progs)
    c.events = lines
    kinds = {}
    for p in progs:
        for e in p["ev"]:
            kinds[e["e"]] = kinds.get(e["e"], 0) + 1
    c.cov = dict(scheduled_events=kinds, configurations=len({json.dumps([p["top"], p["layers"], p["groups"]], sort_keys=True) for p in progs}))
    c.samples = progs[:2]
    c.assumptions = [
        "the meaning of an operation is tla/Singd.tla with tla/Recursion.tla and tla/Curvature.tla",
        "CPU tensors, small models, schedules generated by tla/SingdGen.tla; every backward pass happens before the next step",
    ]
    return c.finish()


def judge(c, progs, bads, judged):
    rows = [b for b in bads if "specification-rows" in b["clauses"]]
    for b in bads:
        hit = set(b["clauses"]) & (judged | {"generator"})
        if hit:
            b["clauses"] = sorted(hit)
            p = progs[b["run"] - 1]
            b["arch"] = p["top"]["arch"]
            b["schedule"] = p
            c.bad.append(b)
    if rows and not c.bad:
        raise MachineryError(f"rows of tla/Curvature.tla differ from the layer's: {rows[0]}")
