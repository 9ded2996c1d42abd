"""Small model programs that the optimizer driver trains."""

import random

import torch
from torch import nn
from torch.utils.checkpoint import checkpoint

from structs import CLASSES  # noqa: F401

DT = {"f64": torch.float64, "f32": torch.float32, "bf16": torch.bfloat16, "f16": torch.float16}
PAD_MODES = ["zeros", "zeros", "circular", "reflect", "replicate"]


def conv_layer(r, cin, approx, hw, bias=None, simple=False):
    """A convolution with a random geometry that fits inputs of size hw (or hw x hw)."""
    hw = hw if isinstance(hw, tuple) else (hw, hw)
    for _ in range(1000):
        groups = r.choice([1, 1, 2, cin])
        if cin % groups:
            continue
        cout = groups * r.choice([1, 2])
        k = (r.choice([1, 2, 3]), r.choice([1, 2, 3]))
        s = (r.choice([1, 1, 2]), r.choice([1, 2, 3]))
        d = (r.choice([1, 1, 2]), r.choice([1, 2]))
        mode = r.choice(PAD_MODES)
        form = r.choice(["int", "pair", "pair", "same", "valid"])
        if form == "int":
            p = r.choice([0, 1])
        elif form == "pair":
            p = (r.choice([0, 1, 2]), r.choice([0, 1]))
        else:
            p = form
        if form == "same":
            s = (1, 1)
            # unequal padding is documented as not supported by 'expand'
            if any((d[i] * (k[i] - 1)) % 2 for i in (0, 1)) and (approx == "expand"):
                continue
        if simple:
            groups, cout, s, d, p, mode, form = 1, 2, (1, 1), (1, 1), 0, "zeros", "pair"
            k = (2, 2)
        if form == "valid":
            pp = (0, 0)
        elif form == "same":
            pp = tuple(d[i] * (k[i] - 1) for i in (0, 1))
            pp = tuple((x + 1) // 2 for x in pp)
        else:
            pp = (p, p) if isinstance(p, int) else p
        if mode == "reflect" and any(pp[i] >= hw[i] for i in (0, 1)):
            continue
        if mode == "circular" and any(pp[i] > hw[i] for i in (0, 1)):
            continue
        if any(hw[i] + 2 * pp[i] < d[i] * (k[i] - 1) + 1 for i in (0, 1)):
            continue
        b = r.choice([True, False]) if bias is None else bias
        return nn.Conv2d(cin, cout, k, s, p, d, groups, b, mode)
    raise RuntimeError("no geometry")


def geometry(conv):
    """Description of a convolution for tla/Curvature.tla."""
    k, s, d = conv.kernel_size, conv.stride, conv.dilation
    if conv.padding == "same":
        tot = [d[i] * (k[i] - 1) for i in (0, 1)]
        p = [tot[0] // 2, tot[0] - tot[0] // 2, tot[1] // 2, tot[1] - tot[1] // 2]
    elif conv.padding == "valid":
        p = [0, 0, 0, 0]
    else:
        p = [conv.padding[0], conv.padding[0], conv.padding[1], conv.padding[1]]
    return dict(k=list(k), s=list(s), d=list(d), p=p, groups=conv.groups, mode=conv.padding_mode)


class Net(nn.Module):
    """Model with a known list of supported layers."""

    def __init__(self, arch, seed, approx, dtype, bias=None):
        super().__init__()
        r = random.Random(seed)
        self.arch, self.dt = arch, DT[dtype]
        self.int_input = False
        self.mag = "1"
        self.late = False  # layers run with gradients only during the backward pass
        dim = lambda: r.randint(1, 5)
        b = lambda: r.choice([True, True, False]) if bias is None else bias
        if arch == "single":
            self.shape = (r.randint(1, 6),)
            self.body = nn.Linear(self.shape[0], dim(), bias=b())
        elif arch == "mlp":
            h = dim()
            self.shape = (dim(),)
            self.body = nn.Sequential(nn.Linear(self.shape[0], h, bias=b()), nn.Tanh(), nn.Linear(h, dim(), bias=b()))
        elif arch == "mlp3":
            h, h2 = dim(), r.randint(2, 4)
            self.shape = (dim(),)
            self.body = nn.Sequential(
                nn.Sequential(nn.Linear(self.shape[0], h, bias=b()), nn.LeakyReLU(0.3, inplace=True)),
                nn.Linear(h, h2, bias=b()), nn.LayerNorm(h2),
                nn.ModuleDict(dict(tail=nn.Linear(h2, dim(), bias=b())))["tail"],
            )
        elif arch in ("seq", "seq4", "seq5"):
            h = dim()
            d = dim()
            self.shape = dict(seq=(r.randint(1, 4), d), seq4=(r.randint(1, 3), r.randint(1, 3), d), seq5=(2, 1, r.randint(1, 3), d))[arch]
            self.body = nn.Sequential(nn.Linear(d, h, bias=b()), nn.Tanh(), nn.Linear(h, dim(), bias=b()))
        elif arch == "deep":
            self.shape = (2,)
            self.body = nn.Sequential(*[nn.Tanh() if i % 2 else nn.Linear(2, 2, bias=b()) for i in range(21)])
        elif arch == "conv":
            hw = (r.choice([4, 5]), r.choice([4, 5, 6]))
            cin = r.choice([1, 2, 4])
            c = conv_layer(r, cin, approx, hw)
            self.shape = (cin, *hw)
            self.body = nn.Sequential(c, nn.LeakyReLU(0.2, inplace=True), nn.AdaptiveAvgPool2d((2, 1)), nn.Flatten(),
                                      nn.Linear(2 * c.out_channels, r.choice([1, 2, 3]), bias=b()))
        elif arch == "conv1":
            hw = (r.choice([3, 4, 5]), r.choice([2, 3, 4, 6]))
            cin = r.choice([1, 2, 3, 4])
            self.shape = (cin, *hw)
            self.body = conv_layer(r, cin, approx, hw)
        elif arch == "conv2":
            hw = r.choice([4, 5])
            cin = r.choice([1, 2, 4])
            self.shape = (cin, hw, hw)
            self.body = nn.Sequential(conv_layer(r, cin, approx, hw, simple=True), nn.Tanh(), conv_layer(r, 2, approx, hw - 1))
        elif arch == "bnconv":
            self.shape = (2, 4, 4)
            self.body = nn.Sequential(
                conv_layer(r, 2, approx, 4, bias=False, simple=True), nn.BatchNorm2d(2), nn.Dropout(0.3),
                nn.ReLU(inplace=True), nn.Flatten(), nn.Linear(18, 2, bias=b()),
            )
        elif arch in ("reuse", "branch"):
            d = r.randint(2, 4)
            self.shape = (d,)
            self.l1, self.l2, self.l3 = nn.Linear(d, d, bias=b()), nn.Linear(d, d, bias=b()), nn.Linear(d, dim(), bias=b())
        elif arch == "big":
            self.shape = (r.choice([32, 45]),)
            self.body = nn.Linear(self.shape[0], r.choice([3, 31]), bias=True)
        elif arch == "bigconv":
            self.shape = (4, 3, 3)
            self.body = nn.Conv2d(4, 2, 3, padding=1, bias=True)
        elif arch in ("ckpt", "ckptre"):
            # activation check-pointing: the layer runs once more during the backward pass
            h, d = dim(), dim()
            self.shape = (d,)
            self.late = arch == "ckptre"
            self.l1, self.l2, self.l3 = nn.Linear(d, d, bias=b()), nn.Linear(d, h, bias=b()), nn.Linear(h, dim(), bias=b())
        elif arch == "tiedemb":
            # the weight of the last layer is also an embedding
            d = r.randint(2, 3)
            self.shape = (r.randint(1, 3),)
            self.int_input = True
            self.emb = nn.Embedding(7, d)
            self.body = nn.Sequential(nn.Linear(d, d, bias=b()), nn.Tanh(), nn.Linear(d, 7, bias=b()))
            self.body[2].weight = self.emb.weight
        elif arch == "wide":
            self.shape = r.choice([(3,), (2, 3)])
            self.body = nn.Linear(3, 2, bias=b())
        elif arch == "wideconv":
            self.shape = (2, 12, 9)
            self.body = nn.Conv2d(2, 2, (2, 3), stride=(1, 2), padding=1, bias=b())
        elif arch == "embed":
            # an unsupported layer in front, so that the input needs no gradient and the embedding is not trained
            d = r.randint(2, 4)
            self.shape = (r.randint(1, 3),)
            self.int_input = True
            self.emb = nn.Embedding(7, d)
            self.body = nn.Sequential(nn.Linear(d, d, bias=b()), nn.GELU(), nn.Linear(d, dim(), bias=b()))
        self.to(self.dt)
        self.set_parameters(seed)

    def set_parameters(self, seed):
        gen = torch.Generator().manual_seed(seed)
        with torch.no_grad():
            for p in self.parameters():
                p.copy_((torch.rand(p.shape, generator=gen, dtype=torch.float64) * 1.6 - 0.8).to(p.dtype))
                if p.ndim > 1 and p[0].numel() > 8:
                    p.mul_(0.3)

    def supported(self):
        return [(n, m) for n, m in self.named_modules() if isinstance(m, (nn.Linear, nn.Conv2d))]

    def forward(self, x):
        if self.arch == "reuse":
            x = torch.tanh(self.l1(x))
            x = torch.tanh(self.l2(x))
            x = torch.tanh(self.l2(x))
            return self.l3(x)
        if self.arch == "branch":
            y = self.l1(x)
            z = self.l2(x)
            return self.l3(torch.relu_(y) + z * x)
        if self.arch in ("ckpt", "ckptre"):
            x = self.l1(x) * 1.0
            x = checkpoint(lambda y: torch.tanh(self.l2(y)), x, use_reentrant=self.late)
            return self.l3(x)
        if self.arch in ("embed", "tiedemb"):
            return self.body(self.emb(x))
        return self.body(x)

    def data(self, seed, b):
        """Input and target weights of one batch."""
        gen = torch.Generator().manual_seed(seed)
        if self.int_input:
            x = torch.randint(0, 7, (b, *self.shape), generator=gen)
        else:
            x = torch.randn((b, *self.shape), generator=gen, dtype=torch.float64).clamp(-2, 2).to(self.dt)
            # nobody hands contiguous tensors to a layer all the time
            if x.ndim > 2 and seed % 3 == 0:
                x = x.transpose(1, 2).contiguous().transpose(1, 2)
            if x.ndim == 4 and seed % 3 == 1:
                x = x.contiguous(memory_format=torch.channels_last)
            x = x * dict(tiny=1e-3, big=5.0, zero=0.0).get(self.mag, 1.0)
            if self.mag == "sparse":
                x = x * (x > 0.4)
            if self.mag == "equal":
                x = x[:1].expand_as(x)
        w = torch.randn((b, 64), generator=gen, dtype=torch.float64).clamp(-2, 2)
        if self.mag == "ignored":  # samples that do not count
            w[(seed % 2)::2] = 0.0
        return x, w


def loss_of(out, w, average):
    """Sum or mean over samples (and positions) of a quadratic loss."""
    b = out.shape[0]
    o = out.reshape(b, -1)
    w = w[:, : o.shape[1]]
    if w.shape[1] < o.shape[1]:
        w = w.repeat(1, -(-o.shape[1] // w.shape[1]))[:, : o.shape[1]]
    o = o if o.dtype == torch.float64 else o.to(torch.float32)
    per = ((o * w.to(o.dtype)).sum(1) + 0.25 * (o * o).sum(1)) * (w != 0).any(1)
    total = per.sum()
    if average == "none":
        return total
    n = b
    if average == "batch+sequence":
        n = b * (out[0].numel() // out.shape[1] if out.ndim == 4 else out[0].numel() // out.shape[-1])
    return total / n
