"""Executes register-machine programs (tla/VMGen.tla) on the real structured matrices
and logs one event per operation for tla/VMTrace.tla.

usage: vm_driver.py PROGRAMS OUT_PREFIX NFILES SEED
"""

import json
import sys

import torch

import structs

torch.set_num_threads(1)
DT = {"f64": torch.float64, "f32": torch.float32, "bf16": torch.bfloat16, "f16": torch.float16}
TOL = {"f64": ("1e-12", "1e-14"), "f32": ("1e-5", "1e-6"), "bf16": ("0.02", "0.01"), "f16": ("0.005", "0.002")}
SYM = {"from_dense", "from_inner2"}
NREG = 4


def num(x):
    return repr(float(x))


def rows(t):
    t = t.detach().to(torch.float64)
    if t.ndim == 0:
        t = t.reshape(1, 1)
    return [[num(v) for v in r] for r in t.tolist()]


def layout(x, how):
    """Same values with another memory layout."""
    if how == "t":  # column major
        return x.t().contiguous().t()
    if how == "s":  # strided view into a larger tensor
        big = torch.full((2 * x.shape[0] + 1, 2 * x.shape[1] + 1), 7.0, dtype=x.dtype)
        v = big[1::2, 1::2]
        v.copy_(x)
        return v
    return x


def run(prog, idx, seed, out):
    conf = prog["conf"]
    n, dt = conf["n"], DT[conf["dtype"]]
    cls = structs.CLASSES[conf["name"]]
    gen = torch.Generator().manual_seed(seed * 100003 + idx)
    rtol, arel = TOL[conf["dtype"]]
    ev = lambda d: out.write(json.dumps(d) + "\n")
    ev(dict(ev="conf", run=idx, name=conf["name"], n=n, rtol=rtol, arel=arel, nreg=NREG, half=conf["dtype"]))
    regs, held, tick = {}, [], [0]
    lim = 1e3 if conf["dtype"] in ("f64", "f32") else 8.0

    def dense(m):
        return m.to_dense().detach().clone()

    def execute(e):
        op = e["op"]
        tick[0] += 1
        x = None
        xsame = True
        if op in ("from_dense", "from_inner2"):
            x = torch.randint(-8, 9, (n, n), generator=gen).to(torch.float64) / 4
            x = ((x + x.T) / 2).to(dt)
        elif op in ("from_inner_x", "from_mat_inner", "matmul_dense", "rmatmat"):
            x = (torch.randint(-8, 9, (n, e["cols"]), generator=gen).to(torch.float64) / 4).to(dt)
        if x is not None:
            if tick[0] % 13 == 5:  # operands that do nothing
                x.zero_()
                x.diagonal().fill_(tick[0] % 2)
            x = layout(x, e["layout"])
            keep = x.clone()
        a, b = regs.get(e["a"]), regs.get(e["b"])
        v = float(e["v"])
        before = {k: dense(m) for k, m in regs.items()}
        res, exc, same, typed, tgt = None, "", True, True, 0
        try:
            if op == "from_dense":
                # the structure may share memory with the passed tensor
                res = cls.from_dense(layout(x.clone(), e["layout"]))
            elif op == "eye":
                res = cls.eye(n, dtype=dt, device=torch.device("cpu"))
            elif op == "zeros":
                res = cls.zeros(n, dtype=dt, device=torch.device("cpu"))
            elif op == "matmul":
                res = a @ b
            elif op == "add":
                res = a + b
            elif op == "mul":
                res = a * v
            elif op == "from_inner":
                res = a.from_inner()
            elif op == "from_inner_x":
                res = a.from_inner(X=x)
            elif op == "from_inner2":
                res = a.from_inner2(x)
            elif op == "from_mat_inner":
                res = cls.from_mat_inner(x)
            elif op == "add_":
                # the scalar may be a tensor, and its default is one
                alpha = {"c": dict(alpha=v), "t": dict(alpha=torch.tensor(v)), "s": {} if v == 1.0 else dict(alpha=v)}[e["layout"]]
                res = a.add_(b, **alpha)
            elif op == "mul_":
                res = a.mul_(v)
            elif op == "diag_add_":
                res = a.diag_add_(v)
            elif op == "matmul_dense":
                res = a @ x
            elif op == "rmatmat":
                res = a.rmatmat(x)
            else:
                res = getattr(a, op)()
            if op in ("add_", "mul_", "diag_add_"):
                same, tgt = res is a, e["a"]
                logged = dense(a)
            elif op in ("matmul_dense", "rmatmat", "average_trace", "frobenius_norm", "infinity_vector_norm", "to_dense"):
                logged = torch.as_tensor(res).detach().clone()
                typed = logged.dtype == dt
                if op != "to_dense" and isinstance(res, torch.Tensor):
                    # a result may be changed by its owner, and lives on
                    if tick[0] % 2:
                        res.add_(1.0)
                    else:
                        held.append((res, logged))
            else:
                tgt = e["d"]
                typed = type(res) is cls
                logged = dense(res)
                if typed and (logged.dtype != dt or any(t.dtype != dt for _, t in res.named_tensors())):
                    typed = False
                regs[tgt] = res
        except Exception as ex:  # noqa
            exc = f"{type(ex).__name__}: {ex}"[:200]
            logged = torch.zeros(1, 1)
        if x is not None and not torch.equal(x, keep):
            xsame = False
        after = {k: dense(m) for k, m in regs.items()}
        changed = [k for k, m in before.items() if k != tgt and not (m.shape == after[k].shape and torch.equal(m, after[k]))]
        xsame &= all(torch.equal(p, q) | bool(p.isnan().any()) for p, q in held)
        d = dict(e)
        d.pop("layout", None)
        d.pop("cols", None)
        d["X"] = rows(keep) if x is not None else []
        ev(dict(ev="op", e=d, res=rows(logged), changed=changed, xsame=xsame, same=same, typed=typed, exc=exc))
        return exc == ""

    count = 0
    for e in prog["prog"]:
        # keep the magnitudes bounded so that rounding stays bounded, too
        for k in [e["a"], e["b"]]:
            m = regs.get(k)
            if m is not None:
                mx = float(m.to_dense().abs().max())
                if mx > lim:
                    s = 2.0 ** -int(torch.tensor(mx).log2().item())
                    execute(dict(op="mul_", d=1, a=k, b=1, v=num(s), cols=0, layout="c"))
                    count += 1
        count += 1
        if not execute(e):
            break
    return count


def main():
    progs = [json.loads(x) for x in open(sys.argv[1])]
    prefix, nf, seed = sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
    files = [open(f"{prefix}{i}.ndjson", "w") for i in range(nf)]
    total = 0
    for i, p in enumerate(progs):
        total += run(p, i + 1, seed, files[i % nf])
    for f in files:
        f.close()
    print(json.dumps(dict(programs=len(progs), events=total)))


if __name__ == "__main__":
    main()
