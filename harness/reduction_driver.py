"""One process of the reductions of real structured matrices (tla/ReductionGen.tla).

usage: reduction_driver.py PROGRAMS OUT_FILE SEED RANK WORLD STORE SHARE NSHARES
"""

import json
import random
import sys

import torch
import torch.distributed as dist

import ranks
import structs
from vm_driver import DT, layout, rows

torch.set_num_threads(1)
TOL = {"f64": ("1e-12", "1e-14"), "f32": ("1e-5", "1e-6"), "bf16": ("0.03", "0.02"), "f16": ("0.005", "0.003")}
OPS = {"sum": dist.ReduceOp.SUM, "avg": dist.ReduceOp.AVG}


def main():
    progs = [json.loads(x) for x in open(sys.argv[1])]
    seed, rank, world, share, nshares = int(sys.argv[3]), int(sys.argv[4]), int(sys.argv[5]), int(sys.argv[7]), int(sys.argv[8])
    coll = ranks.start(rank, world, sys.argv[6])
    groups = {}
    with open(sys.argv[2], "w") as out:
        for i, p in enumerate(progs):
            if p["R"] != world or i % nshares != share:
                continue
            if not run(p, i + 1, seed, rank, world, coll, groups, out):
                break
        out.write('{"ev": "end"}\n')
    ranks.leave()


def run(p, idx, seed, rank, world, coll, groups, out):
    c = p["conf"]
    cls, n, dt = structs.CLASSES[c["name"]], c["n"], DT[c["dtype"]]
    gen = torch.Generator().manual_seed(seed * 100003 + idx * 7 + rank)
    r = random.Random(seed * 1009 + idx * 31 + rank)
    coll.delayed = c["delayed"]

    def log(ev, **kw):
        kw.setdefault("exc", "")
        kw.setdefault("same", {})
        kw.setdefault("text", "")
        out.write(json.dumps(dict(ev=ev, **kw)) + "\n")
        out.flush()

    mats, exc = [], ""
    try:
        for how in p["lays"]:
            x = (torch.randint(-8, 9, (n, n), generator=gen).to(torch.float64) / 4)
            x = ((x + x.T) / 2).to(dt)
            if how == "op":
                mats.append(cls.from_dense(x) @ cls.from_dense(x))
            elif how == "inner":
                mats.append(cls.from_dense(x).from_inner())
            else:
                mats.append(cls.from_dense(layout(x, how)))
    except Exception as e:  # noqa
        exc = f"{type(e).__name__}: {e}"[:200]
    dense = lambda: [rows(m.to_dense()) for m in mats]
    log("conf", run=idx, name=c["name"], n=n, tol=TOL[c["dtype"]], val=[dense() if not exc else []], exc=exc)
    if exc:
        return True
    handles = {}
    for e in p["ev"]:
        same = {}
        try:
            if e["e"] == "reduce":
                m = mats[e["m"] - 1]
                kw = {} if e["op"] == "default" else dict(op=OPS[e["op"]])
                g = tuple(q - 1 for q in e["g"])
                if len(g) < world:
                    # every process takes part in the creation of a group
                    if g not in groups:
                        groups[g] = dist.new_group(list(g))
                    kw["group"] = groups[g]
                if rank in g:
                    if e["async"]:
                        h = m.all_reduce(async_op=True, **kw)
                        same["handles"] = isinstance(h, tuple) or hasattr(h, "wait")
                        handles[e["m"]] = list(h) if isinstance(h, tuple) else [h]
                    else:
                        same["nothing_returned"] = m.all_reduce(**kw) is None
                same["type"] = type(m) is cls and all(t.dtype == dt for _, t in m.named_tensors())
            elif e["e"] == "wait":
                ms = list(e["ms"])
                hs = [h for k in ms for h in handles.pop(k, [])]
                r.shuffle(hs)
                for h in hs:
                    h.wait()
            elif e["e"] == "local":
                m = mats[e["m"] - 1]
                if e["how"] == "mul":
                    m.mul_(-0.5)
                elif e["how"] == "add":
                    m.add_(m, alpha=-0.5)
                else:
                    mats[e["m"] - 1] = (m @ m) * 0.125
        except Exception as ex:  # noqa
            log(e["e"], **{k: v for k, v in e.items() if k != "e"}, val=[[]], exc=f"{type(ex).__name__}: {ex}"[:200])
            return False
        log(e["e"], **{k: v for k, v in e.items() if k != "e"}, val=[dense()], same=same)
    return True


if __name__ == "__main__":
    main()
