"""Executes schedules (tla/SingdGen.tla) on the real optimizer and logs one event per
operation for tla/SingdTrace.tla.

usage: optim_driver.py PROGRAMS OUT_FILE SEED SHARE NSHARES
"""

import copy
import gc
import io
import json
import random
import sys
import traceback
import warnings
import weakref

import torch
from torch import nn

import structs
from models import DT, Net, geometry, loss_of
from singd.optim.optimizer import SINGD
from singd.structures.base import StructuredMatrix

torch.set_num_threads(1)
NSCHED = 64
TOL = {"f64": ("1e-8", "1e-11"), "f32": ("1e-4", "3e-6"), "bf16": ("0.06", "0.03"), "f16": ("0.02", "0.01")}
# largest values whose products are judged
LIMIT = {"f64": "1e25", "f32": "1e6", "bf16": "1e6", "f16": "12"}
HYPER = {"lr": "lr", "momentum": "momentum", "damping": "damping", "alpha1": "alpha1", "wd": "weight_decay", "T": "T",
         "la": "loss_average", "lrcov": "lr_cov", "approx": "kfac_approx", "like": "kfac_like", "norm": "normalize_lr_cov"}


class Opt(SINGD):
    """All structures, also with small blocks."""

    SUPPORTED_STRUCTURES = {**SINGD.SUPPORTED_STRUCTURES, **structs.CLASSES}


class Sched:
    """A learning rate schedule for the pre-conditioner."""

    def __init__(self, base):
        self.base = base

    def __call__(self, t):
        return self.base * (1.0 + (t * 7 % 5)) / 4.0


def num(v):
    return repr(float(v))


def nest(t):
    t = t.detach().to(torch.float64)

    def f(x):
        return [f(y) for y in x] if isinstance(x, list) else repr(x)

    return f(t.tolist())


def same(a, b):
    """Bitwise equal (all NaNs are alike)."""
    if a is None or b is None:
        return a is None and b is None
    if a.shape != b.shape or a.dtype != b.dtype:
        return False
    if not a.is_floating_point():
        return bool(torch.equal(a, b))
    return bool(((a == b) | (a.isnan() & b.isnan())).all())


def value(key, v):
    """Generated value of a hyper-parameter to the value the optimizer gets."""
    if key == "la":
        return None if v == "none" else v
    if key == "lrcov":
        return Sched(float(v[2:])) if v.startswith("s:") else float(v[2:])
    if key in ("T", "approx", "like", "norm"):
        return v
    return float(v)


def logged(key, v):
    """Value of a hyper-parameter as logged."""
    if key == "la":
        return "none" if v is None else str(v)
    if key == "lrcov":
        return [num(v(t)) for t in range(NSCHED)] if callable(v) else [num(v)]
    if key in ("like", "norm"):
        return bool(v)
    if key == "T":
        return int(v)
    if key == "approx":
        return str(v)
    return num(v)


def registry(model):
    """What a model consists of."""
    return ([(n, q.requires_grad, q.is_leaf, type(q)) for n, q in model.named_parameters()], [n for n, _ in model.named_buffers()],
            [(n, type(m)) for n, m in model.named_modules()], list(model.state_dict()))


class Stop(Exception):
    pass


class Warned:
    """Records warnings without touching the warning machinery's state: whether a warning is
    shown a second time is up to whoever issues it."""

    def __init__(self):
        self.seen = []
        warnings.resetwarnings()
        warnings.simplefilter("default")
        warnings.showwarning = lambda message, *a, **kw: self.seen.append(str(message))

    def take(self):
        res, self.seen = self.seen, []
        return res


WARNED = Warned()


class Run:
    rank = 0
    world = 1

    def __init__(self, prog, idx, seed, out, variant="", fresh=True):
        self.prog, self.idx, self.out, self.variant, self.fresh = prog, idx, out, variant, fresh
        self.top, self.groups, self.layers = prog["top"], prog["groups"], prog["layers"]
        self.seed = seed * 1000003 + prog.get("n", idx) * 131
        self.dtype = self.top["dtype"]
        self.scaling = self.top["scaling"]
        if variant == "reference-unscaled" and self.scaling != "none":
            self.scaling = "unit"
        self.relate = prog.get("relate", "")
        self.frozen_ = bool(self.top.get("frozen")) and self.top["arch"] != "ckptre"

    # ---- log -------------------------------------------------------------
    def log(self, ev, **kw):
        kw.setdefault("exc", "")
        kw.setdefault("same", {})
        self.out.write(json.dumps(dict(ev=ev, **kw)) + "\n")

    # ---- set-up ----------------------------------------------------------
    def group_of(self, i):
        return self.layers[i]["group"] if i < len(self.layers) else 0

    def trained(self, i, m):
        """Parameters of layer i that are listed."""
        if m.bias is None:
            return [m.weight]
        return {"both": [m.weight, m.bias], "weight": [m.weight], "bias": [m.bias]}[self.layers[i]["list"]]

    def build(self, model, seed):
        """The optimizer for a model."""
        r = random.Random(self.seed + 5)
        dt = {"": None, "none": None, **DT}
        sup = model.supported()
        hyper = []
        for g in self.groups:
            h = {HYPER[k]: value(k, g[k]) for k in HYPER}
            h["structures"] = (g["sK"], g["sC"])
            h["preconditioner_dtype"] = (dt[g["pK"]], dt[g["pC"]])
            hyper.append(h)
        all_listed = all(self.group_of(i) == 1 and (m.bias is None or self.layers[i]["list"] == "both") for i, (_, m) in enumerate(sup))
        junk = dict(lr=0.77, momentum=0.33, damping=0.5, alpha1=0.0, weight_decay=0.3, T=2, loss_average="batch",
                    lr_cov=0.3, structures=("diagonal", "dense"), kfac_approx="reduce", normalize_lr_cov=True)
        listing = self.top["listing"]
        kw = {}
        if self.top["initscale"] != "1":
            kw["init_grad_scale"] = float(self.top["initscale"])
        members = []
        for g in range(len(self.groups)):
            ps = []
            for i, (_, m) in enumerate(sup):
                if self.group_of(i) == g + 1:
                    mine = self.trained(i, m)
                    if r.random() < 0.3:
                        mine.reverse()
                    ps += mine
            members.append(ps)
        if self.frozen_:
            # the default is to train what can be trained
            all_listed = all(self.group_of(i) == 0 or m.bias is None or self.layers[i]["list"] == "both" for i, (_, m) in enumerate(sup))
        if len(self.groups) == 1 and listing == "none" and all_listed:
            return Opt(model, warn_unsupported=False, **hyper[0], **kw)
        if len(self.groups) == 1 and listing in ("none", "list"):
            return Opt(model, params=members[0], **hyper[0], **kw)
        params = []
        if listing == "junk":
            defaults = junk
            for g, h in enumerate(hyper):
                params.append({"params": members[g], **h})
        else:
            # first group's values are the defaults, the others override what differs
            defaults = hyper[0]
            for g, h in enumerate(hyper):
                params.append({"params": members[g], **{k: v for k, v in h.items() if g == 0 and r.random() < 0.5 or g > 0 and v != defaults[k]}})
        params = [p for p in params if p["params"]]
        self.kept = [g for g in range(len(hyper)) if members[g]]
        return Opt(model, params=params, **defaults, **kw)

    def describe(self):
        """Intended configuration for the specification (listed layers only)."""
        ly = []
        for i, (_, m) in enumerate(self.model.supported()):
            if self.group_of(i) == 0:
                continue
            d = dict(group=self.group_of(i), kind="linear" if isinstance(m, nn.Linear) else "conv", bias=m.bias is not None,
                     tw=any(p is m.weight for p in self.trained(i, m)), tb=any(p is m.bias for p in self.trained(i, m)))
            if d["kind"] == "conv":
                d["geo"] = geometry(m)
            ly.append(d)
        groups = []
        for g in self.groups:
            d = {k: logged(k, value(k, g[k])) for k in HYPER}
            d.update(sK=g["sK"], sC=g["sC"])
            groups.append(d)
        return dict(layers=ly, groups=groups)

    def attach(self):
        """Layers that are trained, their names and parameters."""
        self.listed = [(n, m) for i, (n, m) in enumerate(self.model.supported()) if self.group_of(i) > 0]
        ids = set()
        for i, (_, m) in enumerate(self.model.supported()):
            if self.group_of(i) > 0:
                ids |= {id(p) for p in self.trained(i, m)}
        self.trained_ids = ids
        self.watch = []
        for _, m in self.model.supported():
            m.register_forward_pre_hook(lambda mod, inp: self.watch.append(weakref.ref(inp[0])))

    def net(self):
        """The model."""
        model = Net(self.top["arch"], self.seed, self.approx, self.dtype)
        model.mag = self.top.get("mag", "1")
        if self.top.get("memfmt") == "last":
            model.to(memory_format=torch.channels_last)
        if self.frozen_:
            for i, (_, m) in enumerate(model.supported()):
                if self.group_of(i) == 0:
                    m.requires_grad_(False)
        return model

    def start(self):
        approx = "expand" if any(g["approx"] == "expand" for g in self.groups) else "reduce"
        self.approx = approx
        self.model = self.net()
        # the twin never meets an optimizer
        self.twin = copy.deepcopy(self.model)
        self.twin_names = {m: n for n, m in self.twin.supported()}
        self.rec = None
        for m in self.twin_names:
            m.register_forward_hook(self.observe)
        conf = self.describe()
        self.attach()
        self.kept = list(range(len(self.groups)))
        exc, after = "", []
        try:
            self.opt = self.build(self.model, self.seed)
            after = self.after()
        except Exception as e:  # noqa
            exc = err(e)
        self.scaler = None
        if self.scaling == "scaler":
            self.scaler = torch.amp.GradScaler("cpu", init_scale=float(self.top["initscale"]) * 4, growth_factor=2.0,
                                               backoff_factor=0.5, growth_interval=self.top.get("growth", 2))
        self.log("conf", run=self.idx, conf=conf, tol=self.tolerance(), limit=LIMIT[self.weakest()], fresh=self.fresh, initscale=self.top["initscale"],
                 par=[self.par(m) for _, m in self.listed], after=after, exc=exc)
        if exc:
            raise Stop
        self.passes, self.snaps = {}, {}
        self.announced = None
        self.graphs = False

    def tolerance(self):
        return TOL[self.weakest()]

    def weakest(self):
        names = {self.dtype} | {g[k] for g in self.groups for k in ("pK", "pC") if g[k] not in ("", "none")}
        if self.top.get("autocast"):
            names.add("bf16")
        for d in ("bf16", "f16", "f32"):
            if d in names:
                return d
        return "f64"

    # ---- observation -----------------------------------------------------
    def observe(self, mod, inp, out):
        """Forward hook on the twin's layers: what the layer computed with."""
        use = dict(a=inp[0].detach().clone(), o=out.detach().clone(), g=[], on=out.requires_grad)
        self.rec[self.twin_names[mod]].append(use)
        if out.requires_grad:
            out.register_hook(lambda g: use["g"].append(g.detach().clone()))
        return out.clone()

    def par(self, m):
        w = m.weight.detach().flatten(1)
        if m.bias is not None:
            w = torch.cat([w, m.bias.detach().unsqueeze(1)], 1)
        return nest(w)

    def matrix(self, table, name, like):
        if name in table:
            return table[name].to_dense()
        return torch.zeros_like(like)

    def layer_state(self, n, m):
        o = self.opt
        K, C = o.Ks[n].to_dense(), o.Cs[n].to_dense()
        mK, mC = self.matrix(o.m_Ks, n, K), self.matrix(o.m_Cs, n, C)
        moms = []
        for p in (m.weight, m.bias):
            if p is not None:
                b = o.state[p].get("momentum_buffer") if p in o.state else None
                b = torch.zeros_like(p) if b is None else b
                moms.append(b.detach().flatten(1) if p is m.weight else b.detach().unsqueeze(1))
        return dict(K=K, C=C, mK=mK, mC=mC, mom=torch.cat(moms, 1))

    def after(self):
        res = []
        for n, m in self.listed:
            s = self.layer_state(n, m)
            res.append([dict({k: nest(v) for k, v in s.items()}, par=self.par(m))])
        return res

    def frozen(self):
        """Copies of everything a step must not touch."""
        ps = [p.detach().clone() for p in self.model.parameters() if id(p) not in self.trained_ids]
        return ps + [b.clone() for b in self.model.buffers()]

    def grads(self):
        return [None if p.grad is None else p.grad.detach().clone() for p in self.model.parameters()]

    def state(self):
        """Everything that only steps and restores may change."""
        st = [p.detach().clone() for p in self.model.parameters()]
        for n, m in self.listed:
            st += [v.clone() for v in self.layer_state(n, m).values()]
        return st, self.opt.steps

    def same_state(self, a):
        b = self.state()
        return a[1] == b[1] and len(a[0]) == len(b[0]) and all(same(x, y) for x, y in zip(a[0], b[0]))

    def meta(self):
        """Types, data types and shapes of the pre-conditioner and momenta."""
        ok = True
        dt = {"": None, "none": None, **DT}
        idx = [i for i in range(len(self.model.supported())) if self.group_of(i) > 0]
        for i, (n, m) in zip(idx, self.listed):
            g = self.groups[self.group_of(i) - 1]
            dC = m.weight.shape[0]
            dK = m.weight[0].numel() + (m.bias is not None)
            o = self.opt
            for tables, s, p, d in (((o.Ks, o.m_Ks), g["sK"], g["pK"], dK), ((o.Cs, o.m_Cs), g["sC"], g["pC"], dC)):
                for tab in tables:
                    if n not in tab:
                        # without Riemannian momentum there are no momenta to keep
                        ok &= tab is tables[1] and (g["like"] or float(g["alpha1"]) == 0.0)
                        continue
                    want = dt[p] if dt[p] is not None else self.model.dt
                    x = tab[n]
                    ok &= type(x) is structs.CLASSES[s]
                    ok &= x.to_dense().dtype == want and all(t.dtype == want and not t.requires_grad for _, t in x.named_tensors())
                    ok &= tuple(x.to_dense().shape) == (d, d)
            for p in (m.weight, m.bias):
                if p is not None:
                    ok &= p.dtype == self.model.dt and p.requires_grad and p.is_leaf
                    if p in o.state and "momentum_buffer" in o.state[p]:
                        b = o.state[p]["momentum_buffer"]
                        ok &= b.dtype == p.dtype and b.shape == p.shape and not b.requires_grad
        return bool(ok)

    def size(self):
        """Number of tensor entries and of objects the optimizer holds."""
        seen, cnt = set(), [0, 0]
        params = {id(p) for p in self.model.parameters()}

        def walk(x):
            if id(x) in seen or isinstance(x, (nn.Module, str, int, float, bool, type(None), type)):
                return
            seen.add(id(x))
            if isinstance(x, torch.Tensor):
                if id(x) not in params:
                    cnt[0] += x.numel()
                    cnt[1] += 1
            elif isinstance(x, dict):
                cnt[1] += len(x)
                for k, v in list(x.items()):
                    walk(k)
                    walk(v)
            elif isinstance(x, (list, tuple, set, frozenset)):
                cnt[1] += len(x)
                for v in list(x):
                    walk(v)
            elif isinstance(x, StructuredMatrix) or type(x).__module__.startswith("singd"):
                walk(getattr(x, "__dict__", {}))

        o = self.opt
        bufs = [v["momentum_buffer"] for v in o.state.values() if v.get("momentum_buffer") is not None]
        walk([bufs, o.Ks, o.Cs, o.m_Ks, o.m_Cs])
        held = cnt[0]
        cnt[1] = 0
        seen.clear()
        cnt[0] = 0
        walk(o.__dict__)
        for m in self.model.modules():  # hooks on the model
            cnt[1] += sum(len(m.__dict__.get(h, ())) for h in ("_forward_hooks", "_forward_pre_hooks", "_backward_hooks", "_backward_pre_hooks"))
        return [*cnt, held]

    # ---- events ----------------------------------------------------------
    def sync(self):
        with torch.no_grad():
            for p, q in zip(self.twin.parameters(), self.model.parameters()):
                p.data.copy_(q)
            for p, q in zip(self.twin.buffers(), self.model.buffers()):
                p.data.copy_(q)

    def call(self, f):
        try:
            return f(), ""
        except Exception as e:  # noqa
            return None, err(e)

    def batch(self, e):
        """Input and target of a pass; the merged variant sees the union of the micro-batches."""
        if self.variant == "reference-merged":
            parts = [self.model.data(self.seed + 17 * i, e["b"]) for i in self.union[e["id"]]]
            return tuple(torch.cat(z) for z in zip(*parts))
        if self.variant == "reference-union":
            parts = [self.model.data(self.shard(e, r), e["b"]) for r in range(self.prog["R"])]
            return tuple(torch.cat(z) for z in zip(*parts))
        # processes see data of their own, also of different size if nothing is to be compared
        b = e["b"] + (self.rank if self.top.get("uneven") else 0)
        return self.model.data(self.shard(e, self.rank), b)

    def shard(self, e, rank):
        return self.seed + 17 * e["id"] + 100 * rank

    def fwd(self, e):
        before = self.state()
        x, w = self.batch(e)
        modes = [m.training for m in self.model.modules()]
        if e["mode"] == "eval":
            self.model.eval(), self.twin.eval()
        training = [m.training for m in self.model.modules()]
        self.sync()
        x1, x2 = x.clone(), x.clone()
        leaf = e["mode"] != "nograd" and x.is_floating_point() and e["id"] % 2 == 0
        if leaf:
            x1.requires_grad_(), x2.requires_grad_()
        off = torch.inference_mode if e["id"] % 3 == 0 and not self.model.late else torch.no_grad
        ctx = off if e["mode"] == "nograd" else torch.enable_grad
        ac = lambda: torch.autocast("cpu", dtype=torch.bfloat16, enabled=bool(self.top.get("autocast")))
        rng = torch.get_rng_state()
        self.watch = []

        def go():
            with ctx(), ac():
                o = self.model(x1)
                assert torch.is_grad_enabled() == (e["mode"] != "nograd")
            return o

        out, exc = self.call(go)
        rng1 = torch.get_rng_state()
        torch.set_rng_state(rng)
        self.rec = {n: [] for n in self.twin_names.values()}
        with ctx(), ac():
            out2 = self.twin(x2)
        flags = {}
        if not exc:
            flags = dict(
                outputs=same(out, out2), inputs=same(x1.detach(), x), rng=bool(torch.equal(rng1, torch.get_rng_state())),
                mode=training == [m.training for m in self.model.modules()] and out.requires_grad == out2.requires_grad
                and torch.is_grad_enabled(),
                buffers=all(same(a, b) for a, b in zip(self.model.buffers(), self.twin.buffers())),
                state=self.same_state(before), registry=registry(self.model) == registry(self.twin),
            )
        for net in (self.model, self.twin):
            for m, t in zip(net.modules(), modes):
                m.training = t
        if not exc:
            with torch.no_grad() if e["mode"] == "nograd" else torch.enable_grad():
                la = self.groups[0]["la"]
                l1, l2 = loss_of(out, w, la), loss_of(out2, w, la)
        else:
            l1 = l2 = None
        on = [any(u["on"] for u in self.rec[n]) or self.model.late and e["mode"] != "nograd" for n, _ in self.listed]
        self.passes[e["id"]] = dict(l1=l1, l2=l2, rec=self.rec, x1=x1, x2=x2, x=x, watch=self.watch, w=w.shape[0])
        self.rec = None
        self.log("fwd", id=e["id"], on=on, mode=e["mode"], same=flags, exc=exc)
        if exc:
            raise Stop

    def drop(self, e):
        del self.passes[e["id"]]
        self.log("drop", id=e["id"])

    def factor(self, e):
        """Weight of a micro-batch in the loss of its step."""
        if self.relate == "merged" and self.variant != "reference-merged":
            return 1.0 / self.share[e["id"]]
        return 1.0

    def scale_of(self, e):
        if self.scaling in ("none", "unit"):
            return 1.0
        if self.scaling == "scaler":
            return self.scaler.get_scale()
        return float(e["s"])

    def bwd(self, e):
        p = self.passes[e["id"]]
        before = self.state()
        f = self.factor(e) * (float("inf") if e["bad"] else 1.0)
        s = self.scale_of(e)
        for uses in p["rec"].values():
            for u in uses:
                u["g"].clear()
        # gradients that are part of a graph themselves
        graph = self.top.get("graph") and e["id"] % 4 == 1 and not e["keep"]
        kw = dict(retain_graph=e["keep"] or None, create_graph=bool(graph))

        by_hand = e["id"] % 5 == 3 and not graph and not self.model.late

        def back(loss, model):
            if not by_hand:
                return loss.backward(**kw)
            ps = [q for q in model.parameters() if q.requires_grad]
            for q, g in zip(ps, torch.autograd.grad(loss, ps, allow_unused=True, retain_graph=e["keep"] or None)):
                if g is not None:
                    q.grad = g.clone() if q.grad is None else q.grad + g

        def go():
            loss = p["l1"] * f
            back(self.scaler.scale(loss) if self.scaling == "scaler" else loss * s, self.model)

        _, exc = self.call(go)
        self.rec = p["rec"]
        old = [None if q.grad is None else q.grad.detach().clone() for q in self.twin.parameters()]
        _, ill = self.call(lambda: back(p["l2"] * f * s, self.twin))
        self.rec = None
        if ill:  # the schedule is not possible for this model, with or without optimizer
            raise Stop
        if graph:
            self.graphs = True
            for q in self.twin.parameters():
                if q.grad is not None:
                    q.grad = q.grad.detach().clone()
        flags = {}
        if not exc:
            flags = dict(
                gradients=all(same(a.grad, b.grad) for a, b in zip(self.model.parameters(), self.twin.parameters())),
                input_gradients=same(p["x1"].grad, p["x2"].grad), inputs=same(p["x1"].detach(), p["x"]),
                buffers=all(same(a, b) for a, b in zip(self.model.buffers(), self.twin.buffers())),
                grad_mode=torch.is_grad_enabled(), state=self.same_state(before),
            )
        obs = []
        for n, m in self.listed:
            uses = []
            for u in p["rec"][n]:
                for g in u["g"]:
                    uses.append(self.use(m, u["a"], g, u["o"] if self.top.get("probe") else None))
            obs.append([uses])
        more = dict(probe=self.probe(old)) if self.top.get("probe") else {}
        if not e["keep"]:
            del self.passes[e["id"]]
        self.log("bwd", id=e["id"], obs=obs, keep=e["keep"], same=flags, exc=exc, **more)
        if exc:
            raise Stop

    def use(self, m, a, g, o=None):
        flat = (lambda z: z.reshape(z.shape[0], -1, z.shape[-1])) if isinstance(m, nn.Linear) else (lambda z: z)
        return dict(a=nest(flat(a)), g=nest(flat(g)), **({} if o is None else dict(o=nest(flat(o)))))

    def probe(self, old):
        """Weights and their gradient contribution of the last backward pass, of the twin's layers."""
        was = {id(q): g for q, g in zip(self.twin.parameters(), old)}
        res = []
        byname = {n: m for m, n in self.twin_names.items()}
        for n, _ in self.listed:
            m = byname[n]
            rows = []
            for f in (lambda q: q, lambda q: (0 if q.grad is None else q.grad) - (0 if was[id(q)] is None else was[id(q)]) + torch.zeros_like(q)):
                w = f(m.weight).detach().flatten(1)
                rows.append(nest(torch.cat([w, f(m.bias).detach().unsqueeze(1)], 1) if m.bias is not None else w))
            res.append(dict(W=rows[0], dW=rows[1]))
        return res

    def zero(self, e):
        before = self.state()
        _, exc = self.call(lambda: self.opt.zero_grad(set_to_none=e["none"]))
        flags = {}
        if not exc:
            flags = dict(state=self.same_state(before))
            for i, p in enumerate(self.model.parameters()):
                if id(p) in self.trained_ids:
                    flags["zeroed"] = flags.get("zeroed", True) and (
                        p.grad is None if e["none"] else p.grad is None or not bool(p.grad.any()))
            # the parameters of other layers keep accumulating; clear them the same way
            for p in self.model.parameters():
                if id(p) not in self.trained_ids and p.grad is not None:
                    p.grad = None if e["none"] else torch.zeros_like(p)
            for p, q in zip(self.twin.parameters(), self.model.parameters()):
                p.grad = None if q.grad is None else q.grad.detach().clone()
        self.log("zero", same=flags, exc=exc)
        if exc:
            raise Stop

    def clip(self, e):
        """Change the gradients between backward pass and step."""
        for q in (*self.model.parameters(), *self.twin.parameters()):
            if q.grad is not None:
                q.grad.data.mul_(0.5)
                if self.opt.steps % 2 and q.ndim > 1:  # another memory layout
                    q.grad = q.grad.data.transpose(0, 1).contiguous().transpose(0, 1)
        self.log("zero")

    def edit(self, e):
        """Change the parameters from outside (clipping, averaging, re-initialization, ...)."""
        with torch.no_grad():
            for q in self.model.parameters():
                q.mul_(0.75)
        self.log("edit", par=[self.par(m) for _, m in self.listed])

    def announce(self, e):
        if self.scaling != "explicit":
            return
        before = self.state()
        s = float(e["s"])
        _, exc = self.call(lambda: self.opt.set_current_grad_scale(s))
        self.announced = s
        self.log("announce", scale=num(s), same={} if exc else dict(state=self.same_state(before)), exc=exc)
        if exc:
            raise Stop

    def step(self, e):
        if self.scaling == "explicit" and self.announced is None:
            self.announce(dict(s=e["s"]))
        s = self.scale_of(e) if self.announced is None else self.announced
        inf = e["inf"]
        o = self.opt
        if inf:
            for p in self.model.parameters():
                if id(p) in self.trained_ids and p.grad is not None:
                    p.grad.data[(0,) * p.ndim] = float("inf")
        gr0, fz0, tr0 = self.grads(), self.frozen(), [m.training for m in self.model.modules()]
        glog = []
        for _, m in self.listed:
            gw = m.weight.grad
            gw = torch.zeros_like(m.weight) if gw is None else gw
            g = gw.detach().flatten(1)
            if m.bias is not None:
                gb = torch.zeros_like(m.bias) if m.bias.grad is None else m.bias.grad
                g = torch.cat([g, gb.detach().unsqueeze(1)], 1)
            glog.append([nest(g)])

        def go():
            if self.scaling == "scaler":
                self.scaler.step(o)
                self.scaler.update()
            elif self.scaling in ("attr", "unit") or (self.scaling == "explicit" and inf):
                if self.scaling != "explicit":
                    o.grad_scale = torch.tensor(s)
                o.found_inf = torch.tensor(1.0 + o.steps % 2 if inf else 0.0)
                try:
                    o.step()
                finally:
                    if self.scaling != "explicit":
                        del o.grad_scale
                    del o.found_inf
            else:
                o.step()

        WARNED.take()
        _, exc = self.call(go)
        warned = any("inf" in w and "kip" in w for w in WARNED.take())
        if exc:
            self.log("step", inf=inf, exc=exc)
            raise Stop
        gc.collect()
        alive = sum(r() is not None for r in self.dead) if not self.passes and not self.graphs else 0
        flags = dict(
            gradients=all(same(a, b) for a, b in zip(gr0, self.grads())),
            untrained=all(same(a, b) for a, b in zip(fz0, self.frozen())),
            mode=tr0 == [m.training for m in self.model.modules()] and torch.is_grad_enabled(), types=self.meta(),
        )
        pend = len(getattr(o, "H_Ks", {})) + len(getattr(o, "H_Cs", {}))
        self.log("step", inf=inf, scale=num(s), grads=glog, after=self.after(), steps=o.steps, warned=warned, pending=pend,
                 scales=len(getattr(o, "_grad_scales", {})), size=self.size(), alive=alive, same=flags)
        self.announced = None

    def hyper(self, e):
        g = e["g"] - 1
        if g not in self.kept:
            return
        before = self.state()
        self.opt.param_groups[self.kept.index(g)][HYPER[e["k"]]] = value(e["k"], e["v"])
        self.log("hyper", g=e["g"], k=e["k"], v=logged(e["k"], value(e["k"], e["v"])), same=dict(state=self.same_state(before)))

    def digest(self, snap):
        if isinstance(snap, bytes):
            return [snap]
        res = []

        def walk(x):
            if isinstance(x, torch.Tensor):
                res.append(x.detach().clone())
            elif isinstance(x, dict):
                res.append(sorted(map(str, x)))
                for v in x.values():
                    walk(v)
            elif isinstance(x, (list, tuple)):
                for v in x:
                    walk(v)
            elif isinstance(x, StructuredMatrix):
                res.append(x.to_dense().clone())
            elif isinstance(x, (int, float, str)):
                res.append(x)

        walk(snap)
        return res

    def save(self, e):
        before = self.state()
        gr0 = self.grads()

        def go():
            snap = dict(model=self.model.state_dict(), opt=self.opt.state_dict(), grads=[None if p.grad is None else p.grad.detach() for p in self.model.parameters()],
                        scaler=self.scaler.state_dict() if self.scaler else None, announced=self.announced)
            if e["how"] == "ser":
                f = io.BytesIO()
                torch.save(snap, f)
                return f.getvalue()
            return copy.deepcopy(snap)

        snap, exc = self.call(go)
        self.snaps[e["slot"]] = (e["how"], snap, self.digest(snap) if not exc else None)
        self.log("save", slot=e["slot"], exc=exc,
                 same={} if exc else dict(state=self.same_state(before), gradients=all(same(a, b) for a, b in zip(gr0, self.grads()))))
        if exc:
            raise Stop

    def load(self, e):
        how, snap, dig = self.snaps[e["slot"]]

        def go():
            d = torch.load(io.BytesIO(snap), weights_only=False) if how == "ser" else snap
            if e["how"] == "fresh":
                self.model = self.net()
                self.model.set_parameters(self.seed + 999)
                self.attach()
                self.opt = self.build(self.model, self.seed)
                if self.scaler is not None:
                    self.scaler = torch.amp.GradScaler("cpu", init_scale=8.0, growth_factor=2.0, backoff_factor=0.5,
                                                       growth_interval=self.top.get("growth", 2))
            self.model.load_state_dict(d["model"])
            self.opt.load_state_dict(d["opt"])
            for p, g in zip(self.model.parameters(), d["grads"]):
                p.grad = None if g is None else g.detach().clone()
            if self.scaler is not None:
                self.scaler.load_state_dict(d["scaler"])
                # a scaler learns its scale tensor when it is used
                self.scaler.scale(torch.zeros(1))
            self.announced = d["announced"]

        _, exc = self.call(go)
        if exc:
            self.log("load", slot=e["slot"], exc=exc)
            raise Stop
        self.dead = []
        for p, q in zip(self.twin.parameters(), self.model.parameters()):
            p.grad = None if q.grad is None else q.grad.detach().clone()
        hyper = {}
        conf = self.describe()["groups"]
        for j, g in enumerate(self.kept):
            pg = self.opt.param_groups[j]
            conf[g].update({k: logged(k, pg[HYPER[k]]) for k in HYPER})
            conf[g].update(sK=pg["structures"][0], sC=pg["structures"][1])
        for g, d in enumerate(conf):
            if g in self.kept:
                hyper[str(g + 1)] = d
        dig2 = self.digest(snap)
        unchanged = len(dig) == len(dig2) and all(
            same(a, b) if isinstance(a, torch.Tensor) else a == b for a, b in zip(dig, dig2))
        self.log("load", slot=e["slot"], after=self.after(), steps=self.opt.steps,
                 hyper=[dict(g=int(g), h=h) for g, h in hyper.items()], same=dict(snapshot=unchanged))

    # ---- whole run -------------------------------------------------------
    def plan(self):
        """Which passes belong to one step (for the merged variant)."""
        self.share, self.union = {}, {}
        events, cur, merged = self.prog["ev"], [], []
        for e in events:
            if e["e"] == "bwd":
                cur.append(e["id"])
            if e["e"] == "step":
                for i in cur:
                    self.share[i] = len(cur)
                self.union[cur[-1] if cur else -1] = list(cur)
                cur = []
        for i in cur:
            self.share[i] = len(cur)
        if cur:
            self.union[cur[-1]] = list(cur)
        if self.variant == "reference-merged":
            keep = set(self.union)
            merged = [e for e in events if e["e"] not in ("fwd", "bwd") or e["id"] in keep]
            return merged
        return events

    def run(self):
        n = 0
        decoy = None
        if self.top.get("decoy") and not self.variant:
            decoy = Decoy(self.prog, self.idx, self.seed)
        try:
            events = self.plan()
            self.dead = []
            self.start()
            marks = 0
            for e in events:
                n += 1
                if decoy:
                    decoy.advance()
                if e["e"] in ("drop", "bwd") and not e.get("keep"):
                    w = self.passes[e["id"]]["watch"]
                    self.dead += w
                getattr(self, e["e"])(e)
                if e["e"] == "step" and self.relate:
                    marks += 1
                    if self.variant:
                        self.log("mark", key=marks)
                    elif self.world == 1 or self.relate == "union":
                        self.log("cmp", key=marks, tol=self.prog.get("reltol", ("1e-6", "1e-8")))
        except Stop:
            pass
        return n


class Decoy:
    """Another optimizer with another model in the same process that lives through the same history."""

    def __init__(self, prog, idx, seed):
        self.run = Run({**prog, "relate": ""}, idx, seed + 1, io.StringIO(), variant="decoy")
        self.run.dead = []
        try:
            self.run.start()
            self.events = iter(self.run.plan())
        except Exception:  # noqa
            self.events = iter(())

    def advance(self):
        e = next(self.events, None)
        if e is not None:
            rng = torch.get_rng_state()
            try:
                getattr(self.run, e["e"])(e)
            except (Stop, Exception):  # noqa
                self.events = iter(())
            torch.set_rng_state(rng)


def err(e):
    tb = traceback.extract_tb(e.__traceback__)
    return f"{type(e).__name__}: {e} @ {tb[-1].name}"[:240]


def execute(prog, idx, seed, out):
    if prog.get("relate"):
        Run(prog, idx, seed, out, variant="reference-" + prog["relate"]).run()
        return Run(prog, idx, seed, out, fresh=False).run()
    return Run(prog, idx, seed, out).run()


def main():
    progs = [json.loads(x) for x in open(sys.argv[1])]
    seed, share, nshares = int(sys.argv[3]), int(sys.argv[4]), int(sys.argv[5])
    total = 0
    with open(sys.argv[2], "w") as out:
        for i, p in enumerate(progs):
            if i % nshares == share:
                p["n"] = i + 1
                total += execute(p, i + 1, seed, out)
    print(json.dumps(dict(programs=len(progs), events=total)))


if __name__ == "__main__":
    main()
