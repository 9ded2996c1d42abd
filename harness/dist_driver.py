"""One process of a distributed training run (schedules of tla/SingdGen.tla).

usage: dist_driver.py PROGRAMS OUT_FILE SEED RANK WORLD STORE SHARE NSHARES
RANK -1: the single process that trains on the union of the shards, without process group
"""

import io
import json
import sys

import ranks
from optim_driver import Run


def main():
    progs = [json.loads(x) for x in open(sys.argv[1])]
    seed, rank, world, share, nshares = int(sys.argv[3]), int(sys.argv[4]), int(sys.argv[5]), int(sys.argv[7]), int(sys.argv[8])
    coll = ranks.start(rank, world, sys.argv[6]) if rank >= 0 else None
    with open(sys.argv[2], "w") as out:
        for i, p in enumerate(progs):
            if p["R"] != world or i % nshares != share:
                continue
            p["n"] = i + 1
            if rank < 0:
                if p["relate"]:
                    Run(p, i + 1, seed, out, variant="reference-union").run()
                continue
            coll.delayed = i % 2 == 0
            buf = io.StringIO()
            r = Run(p, i + 1, seed, buf, fresh=not p["relate"])
            r.rank, r.world = rank, world
            r.run()
            out.write(buf.getvalue())
            out.flush()
            if any(json.loads(x)["exc"] for x in buf.getvalue().splitlines()):
                break
        out.write('{"ev": "end"}\n')
    if rank >= 0:
        ranks.leave()


if __name__ == "__main__":
    main()
