"""Processes of a distributed run: start-up, delayed collectives, merging of their logs."""

import os
import sys
from datetime import timedelta

import torch
import torch.distributed as dist


class Delayed:
    """Handle of an asynchronous reduction that becomes visible when it is waited for."""

    def __init__(self, work, source, target):
        self.work, self.source, self.target, self.done = work, source, target, False

    def wait(self, *a, **kw):
        res = self.work.wait(*a, **kw)
        if not self.done:
            self.done = True
            with torch.no_grad():
                self.target.copy_(self.source)
        return res

    def __getattr__(self, name):
        return getattr(self.work, name)


class Collectives:
    """Optionally defers the effect of asynchronous reductions to the time they are waited for."""

    def __init__(self):
        self.real = dist.all_reduce
        self.delayed = False
        dist.all_reduce = self.all_reduce

    def all_reduce(self, tensor, op=dist.ReduceOp.SUM, group=None, async_op=False):
        if not (async_op and self.delayed):
            return self.real(tensor, op=op, group=group, async_op=async_op)
        source = tensor.detach().clone(memory_format=torch.contiguous_format)
        work = self.real(source, op=op, group=group, async_op=True)
        # a process that is no member gets no handle
        return work if work is None else Delayed(work, source, tensor)


def start(rank, world, store, timeout=40):
    os.environ["GLOO_SOCKET_IFNAME"] = "lo"
    dist.init_process_group("gloo", init_method="file://" + store, rank=rank, world_size=world, timeout=timedelta(seconds=timeout))
    return Collectives()


def leave():
    """End the process once all others are done; skips the clean-up of the back end, whose threads may abort it."""
    sys.stdout.flush()
    try:
        dist.barrier()
    except Exception:  # noqa
        pass
    os._exit(0)
