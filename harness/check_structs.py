"""Checks of the structured-matrix algebra: C09, C10, C16."""

import json
import os

from common import NPROC, SEED, TIER, Check, cfg, driver, validate

SMALL = {
    "dense", "diagonal", "block3diagonal", "block2diagonal", "hierarchical3_2", "hierarchical1_1", "triltoeplitz",
    "triutoeplitz", "trilbottomrightdiag", "triltopleftdiag", "triubottomrightdiag", "triutopleftdiag",
    "rec_hier_toep", "rec_rec", "naiveblock2",
}
BIG = {"block30diagonal", "hierarchical15_15"}
ALGEBRA = {"eye", "zeros", "matmul", "add", "mul", "add_", "mul_", "diag_add_", "matmul_dense", "rmatmat", "to_dense"}
EXTRACT = {
    "from_dense", "from_inner", "from_inner_x", "from_mat_inner", "from_inner2", "average_trace", "frobenius_norm",
    "infinity_vector_norm",
}
INPLACE = {"add_", "mul_", "diag_add_"}
ALL = ALGEBRA | EXTRACT
# property -> (generated operations, judged (operations, clauses))
FOCUS = {
    "C09": (ALGEBRA | {"from_dense", "from_inner_x", "from_inner"}, [(ALGEBRA, {"value", "member", "raises", "type"})]),
    "C10": (EXTRACT | {"matmul", "add_", "diag_add_"}, [(EXTRACT, {"value", "member", "raises", "type"})]),
    "C16": (
        ALL,
        [(ALL, {"other-register", "dense-operand", "identity"}), (INPLACE, {"value", "raises"})],
    ),
}


def main(prop):
    c = Check(prop)
    tlc = c.tlc
    ops, judged = FOCUS[prop]
    thorough = TIER == "thorough"
    c.models.append(tlc.check("NumCheck"))
    text = open(os.path.join(os.path.dirname(__file__), "..", "tla", "MCStructures.cfg")).read()
    if thorough:
        text = text.replace("MaxN = 7", "MaxN = 12")
    c.models.append(tlc.check("MCStructures", text, workers=8))
    f = tlc.path("progs.ndjson")
    # every operation on every structure and dimension
    covers = [(SMALL, set(range(1, 9)), {"f64"}, {"c"}), (SMALL, {6}, {"f64"}, {"t", "s"})]
    covers += [(SMALL, {2, 7}, {"f32"}, {"c"}), (SMALL, {5}, {"bf16"}, {"c"}), (SMALL, {4}, {"f16"}, {"c"})]
    covers += [({"block30diagonal"}, {1, 4, 29, 30, 31, 61}, {"f64"}, {"c"})]
    covers += [({"hierarchical15_15"}, {1, 4, 14, 15, 16, 29, 30, 31, 33}, {"f64"}, {"c"})]
    covers += [({"triltoeplitz", "triutoeplitz"}, {17}, {"f64"}, {"c"})]
    if thorough:
        covers += [(SMALL, set(range(9, 17)), {"f64"}, {"c", "t"}), (SMALL, set(range(1, 9)), {"f32", "bf16", "f16"}, {"c", "s"})]
        covers += [({"block30diagonal", "hierarchical15_15"}, set(range(1, 70, 3)), {"f64"}, {"c"})]
        covers += [({"block30diagonal", "hierarchical15_15"}, {16, 31}, {"f32", "bf16", "f16"}, {"c", "t"})]
    large = [(SMALL | BIG, {40}), ({"triltoeplitz", "triutoeplitz"}, {65, 129})]
    if thorough:
        large += [(SMALL | BIG, {64, 71, 100, 130}), ({"triltoeplitz", "triutoeplitz"}, {33, 257})]
    alias = [(SMALL, {5} if prop != "C16" else {1, 5})]
    if thorough:
        alias = [(SMALL, {1, 2, 5, 6, 9}), (BIG, {16, 31})]
    covers = [(*x, "full") for x in covers] + [(n, d, {"f64"}, {"c"}, "large") for n, d in large] + [(n, d, {"f64"}, {"c"}, "alias") for n, d in alias]
    for names, dims, dts, lays, kind in covers:
        tlc.check("VMCover", cfg(constants=dict(Names=names, Dims=dims, DTypes=dts, Layouts=lays, Kind=kind, OutFile=f)), workers=1)
    ncover = sum(1 for _ in open(f))
    # random programs
    plans = [(SMALL, set(range(1, 9)), {"f64"}, 250, 14), (SMALL, set(range(1, 7)), {"f32", "bf16", "f16"}, 60, 7)]
    plans += [({"block30diagonal", "hierarchical15_15"}, {3, 15, 16, 31}, {"f64"}, 10, 8)]
    for i, (names, dims, dts, num, ln) in enumerate(plans):
        if thorough:
            num *= 25
        tlc.simulate(
            "VMGen",
            cfg(constants=dict(
                Names=names, Dims=dims, DTypes=dts, Layouts={"c", "t", "s"}, Scalars={"-1.5", "0.5", "1.0", "-0.25", "0.0", "-1.0"},
                NReg=4, MaxLen=ln, OpSet=ops, OutFile=f)),
            num=num, depth=5 + 2 * ln, seed=SEED * 7919 + i,
        )
    info = json.loads(driver("vm_driver.py", [f, tlc.path("vm"), NPROC, SEED]).splitlines()[-1])
    files = [tlc.path(f"vm{i}.ndjson") for i in range(NPROC)]
    bads, lines = validate(tlc, "VMTrace", files)
    c.traces, c.events = info["programs"], lines - info["programs"]
    progs = [json.loads(x) for x in open(f)]
    opcount = {}
    for p in progs:
        for e in p["prog"]:
            opcount[e["op"]] = opcount.get(e["op"], 0) + 1
    c.cov = dict(cover_programs=ncover, operations=opcount, configurations=len({json.dumps(p["conf"], sort_keys=True) for p in progs}))
    c.samples = [progs[0]["conf"], progs[-1]]
    for b in bads:
        cl = set(b["clauses"])
        hit = set()
        for o, k in judged:
            if b["op"] in o:
                hit |= cl & k
        if hit:
            b["clauses"] = sorted(hit)
            b["schedule"] = progs[b["run"] - 1]
            c.bad.append(b)
    c.assumptions = [
        "the meaning of the operations is tla/StructVM.tla over tla/Structures.tla",
        "CPU tensors; operands with entries that are multiples of 1/4",
    ]
    return c.finish()
