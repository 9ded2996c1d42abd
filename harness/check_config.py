"""Check of C15: which configurations are accepted."""

import json

from common import NPROC, SEED, TIER, Check, cfg, driver, pmap, validate

INV = "INVARIANT Inv\n"


def main(prop):
    c = Check(prop)
    depth = 2
    c.models.append(c.tlc.check("ConfigGen", cfg(constants=dict(OutFile="", Depth=depth), extra=INV), workers=8, heap="6g"))
    jobs = [(1, 1, 0, 1)]
    jobs.append((2, 9, SEED % 9, 3) if TIER == "quick" else (2, 1, 0, 1))
    total = 0
    bads, lines = [], 0
    for d, stride, offset, sstride in jobs:
        f = c.tlc.path(f"configs{d}.ndjson")
        rc, out = c.tlc.run("ConfigGen", cfg(constants=dict(OutFile=f, Depth=d), extra=INV), heap="6g")
        if rc != 0:
            from common import MachineryError
            raise MachineryError("generator fails:\n" + out[-3000:])
        files = [c.tlc.path(f"cfg{d}_{i}.ndjson") for i in range(NPROC)]
        outs = pmap(lambda i: driver("config_driver.py", [f, files[i], i, NPROC, stride, offset, sstride]), range(NPROC))
        total += sum(json.loads(o.splitlines()[-1])["configurations"] for o in outs)
        b, n = validate(c.tlc, "ConfigTrace", files)
        bads += b
        lines += n
        if d == 1:
            c.samples = [json.loads(x) for x in open(f)][:3]
    for b in bads:
        b["config"] = b["detail"].pop("c")
        c.bad.append(b)
    c.traces, c.events = total, lines
    c.cov = dict(exhaustive=dict(changes_per_configuration=1 if TIER == "quick" else 2))
    c.assumptions = ["the documented configurations are those of tla/Config.tla, at most two changes away from the defaults of six models"]
    return c.finish()
