"""Constructs the real optimizer with the configurations of tla/ConfigGen.tla and logs what
happens for tla/ConfigTrace.tla.

usage: config_driver.py CONFIGS OUT_FILE SHARE NSHARES STRIDE OFFSET STEP_STRIDE
"""

import json
import os
import sys
import warnings

os.environ.setdefault("GLOO_SOCKET_IFNAME", "lo")
import torch
import torch.distributed as dist
from torch import nn
from torch.nn.parallel import DataParallel, DistributedDataParallel

from singd.optim.optimizer import SINGD

torch.set_num_threads(1)
DT = {"None": None, "float32": torch.float32, "float64": torch.float64, "bfloat16": torch.bfloat16}


class Nested(nn.Module):
    def __init__(self):
        super().__init__()
        self.shift = nn.Parameter(torch.zeros(4))
        self.emb = nn.Embedding(5, 4)
        self.body = nn.Sequential(nn.Linear(4, 3), Gain())

    def forward(self, x):
        return self.body(self.emb(x) + self.shift)


class Gain(nn.Sequential):
    def __init__(self):
        super().__init__(nn.Linear(3, 2))
        self.gain = nn.Parameter(torch.ones(2))

    def forward(self, x):
        return super().forward(x) * self.gain


def build(name):
    torch.manual_seed(0)
    if name == "lin":
        m = nn.Sequential(nn.Linear(4, 3))
    elif name == "norm":
        m = nn.Sequential(nn.Linear(4, 3), nn.LayerNorm(3), nn.Linear(3, 2, bias=False))
    elif name == "conv":
        m = nn.Sequential(nn.Conv2d(2, 3, 2), nn.BatchNorm2d(3), nn.Flatten(), nn.Linear(27, 2))
    elif name == "nested":
        m = Nested()
    elif name == "frozen":
        m = nn.Sequential(nn.Linear(4, 3), nn.LayerNorm(3), nn.Conv2d(1, 2, 1), nn.Flatten(), nn.Linear(4 * 3 * 2, 2))
        for i in (0, 1):
            m[i].requires_grad_(False)
    else:
        m = nn.Sequential(nn.Linear(4, 3), nn.Tanh(), nn.Linear(3, 2))
    with torch.no_grad():
        for p in m.parameters():
            p.copy_(torch.rand(p.shape) * 1.5 - 0.7)
    return m


def inputs(name):
    g = torch.Generator().manual_seed(3)
    if name == "conv":
        return torch.randn(5, 2, 4, 4, generator=g)
    if name == "nested":
        return torch.randint(0, 5, (5,), generator=g)
    if name == "frozen":
        return torch.randn(5, 1, 4, 4, generator=g)
    return torch.randn(5, 4, generator=g)


def number(v):
    if v == "callable":
        return lambda t: 0.01
    return float(v) if "." in v else int(v)


def arguments(d):
    kw = {}
    for k in ("lr", "momentum", "damping", "alpha1", "weight_decay", "T", "lr_cov", "init_grad_scale"):
        if k in d:
            kw[k] = number(d[k])
    for k in ("kfac_like", "normalize_lr_cov"):
        if k in d:
            kw[k] = d[k] == "True"
    if "loss_average" in d:
        v = d["loss_average"]
        kw["loss_average"] = None if v == "None" else True if v == "True" else v
    if "kfac_approx" in d:
        kw["kfac_approx"] = None if d["kfac_approx"] == "None" else d["kfac_approx"]
    return kw


def pair(kw, key, base, d, a, b, table=None):
    if a in d or b in d:
        t = tuple((d.get(x) or base[x]) for x in (a, b))
        kw[key] = tuple(table[x] for x in t) if table else t


WRAPPED = {}


def wrap(name, kind):
    if (name, kind) not in WRAPPED:
        m = build(name)
        if kind == "DP":
            WRAPPED[name, kind] = DataParallel(m)
        else:
            dist.init_process_group("gloo", store=dist.HashStore(), rank=0, world_size=1)
            WRAPPED[name, kind] = DistributedDataParallel(m)
            dist.destroy_process_group()
    return WRAPPED[name, kind]


def execute(c, run, stepped):
    if c["wrapper"] == "none":
        whole = model = build(c["model"])
    else:
        whole = wrap(c["model"], c["wrapper"])
        model = whole.module
    mods = dict(model.named_modules())
    kw = arguments(c["args"])
    pair(kw, "structures", c["args"], c["args"], "K", "C")
    pair(kw, "preconditioner_dtype", c["args"], c["args"], "pK", "pC", DT)
    member = {}
    for r in c["assign"]:
        member.setdefault(r["g"], []).append(mods[r["l"]]._parameters[r["p"]])
    if c["how"] == "list":
        kw["params"] = member[1]
    elif c["how"] == "groups":
        kw["params"] = []
        for i, over in enumerate(c["over"]):
            over = over or {}
            d = {"params": member[i + 1], **arguments(over)}
            pair(d, "structures", c["args"], over, "K", "C")
            kw["params"].append(d)
    if not c["warn"]:
        kw["warn_unsupported"] = False
    log = dict(run=run, c=c, exc="", stepped=stepped, stepexc="")
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        try:
            opt = SINGD(whole, **kw)
        except Exception as e:  # noqa
            log["exc"] = type(e).__name__
            log["text"] = str(e)[:200]
            return log
    texts = [str(w.message) for w in ws]
    log["like"] = sum("kfac_like" in t for t in texts)
    unsup = [t for t in texts if "supported" in t]
    log["warned"] = [n for n in mods if any(f"layer {n}:" in t for t in unsup)]
    log["alpha"], log["alphakept"] = [], []
    for i, g in enumerate(opt.param_groups):
        a = g["alpha1"]
        over = c["over"][i] if c["how"] == "groups" else {}
        want = number((over or {}).get("alpha1", c["args"]["alpha1"]))
        log["alpha"].append(repr(float(a)))
        log["alphakept"].append(a == want)
    if not stepped:
        return log
    before = {n: p.detach().clone() for n, p in model.named_parameters()}
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            out = model(inputs(c["model"]))
            loss = ((out - 0.3) ** 2).sum() / out.shape[0]
            loss.backward()
            opt.step()
    except Exception as e:  # noqa
        log["stepexc"] = f"{type(e).__name__}: {e}"[:200]
        return log
    now = {n: p.detach().clone() for n, p in model.named_parameters()}
    log["changed"] = [[n.rpartition(".")[0], n.rpartition(".")[2]] for n in now if not torch.equal(now[n], before[n])]
    called = []

    def closure():
        called.append(1)
        return loss.detach()

    state = [opt.steps] + [x.to_dense().clone() for t in (opt.Ks, opt.Cs) for x in t.values()]
    log["closure"] = ""
    try:
        opt.step(closure)
    except Exception as e:  # noqa
        log["closure"] = type(e).__name__
    after = [opt.steps] + [x.to_dense().clone() for t in (opt.Ks, opt.Cs) for x in t.values()]
    log["closurekept"] = (
        not called and all(torch.equal(p, now[n]) for n, p in model.named_parameters()) and state[0] == after[0]
        and all(torch.equal(a, b) for a, b in zip(state[1:], after[1:]))
    )
    return log


def main():
    share, nshares, stride, offset, sstride = map(int, sys.argv[3:8])
    n = 0
    with open(sys.argv[2], "w") as out:
        for i, line in enumerate(open(sys.argv[1])):
            if i % stride != offset or (i // stride) % nshares != share:
                continue
            n += 1
            log = execute(json.loads(line), i + 1, (i // stride // nshares) % sstride == 0)
            out.write(json.dumps(log) + "\n")
    print(json.dumps(dict(configurations=n)))


if __name__ == "__main__":
    main()
