"""Simulated transport under the real ``torch.distributed`` front end.

The front end (init_process_group, new_group, argument checking, object
collectives, autograd-aware collectives, destroy_process_group) is torch's own
code.  Only the two things that would touch the network are simulated: the
rendezvous store and the process-group backend.  Both block through the kernel,
so the kernel's seeded scheduler decides every interleaving and every fault.
"""
from __future__ import annotations

import datetime
import threading
import types

import torch
import torch.distributed as dist
from torch.distributed import distributed_c10d as c10d
from torch.distributed import rendezvous as rdzv_mod
from torch.futures import Future
from torch._C._distributed_c10d import _create_work_from_future
from torch.testing._internal.distributed import multi_threaded_pg as mt

from .kernel import CURRENT, SimCrash, kernel

import importlib
_rdzv = importlib.import_module("torch.distributed.rendezvous")

DEFAULT_TIMEOUT = 1800.0


def _work(ret):
    fut = Future()
    fut.set_result(ret)
    return _create_work_from_future(fut)


class Net:
    """Shared state of the simulated network of one run."""

    def __init__(self, k, world_size):
        self.k = k
        self.world_size = world_size
        self.kv = {}
        self.slots = {}
        self.gone = set()        # ranks whose connections are closed
        self.gen = {}            # rank -> number of init attempts
        self.collectives = {}
        self.log = []
        self.in_flight = {}
        self.destroyed = {}
        self.inits = {}
        k.net = self
        k.on_exit.append(self._exit)
        self.live_worlds = {}

    def _exit(self, p):
        self.gone.add(p.rank)
        w = getattr(mt.ThreadLocalWorld._world, "world", None)
        p.data["comm_left_open"] = bool(w is not None and w.default_pg is not None)


class SimStore(dist.Store):
    """Rendezvous key-value store (one per rank and generation, shared data)."""

    def __init__(self, net, rank, gen):
        super().__init__()
        self.net, self.rank, self.gen = net, rank, gen
        self._t = DEFAULT_TIMEOUT

    def _k(self, key):
        return f"{self.gen}/{key}"

    def set(self, key, value):
        self.net.k.point("store.set")
        v = value.encode() if isinstance(value, str) else bytes(value)
        self.net.kv[self._k(key)] = v

    def get(self, key):
        self.wait([key])
        return self.net.kv[self._k(key)]

    def add(self, key, value):
        self.net.k.point("store.add")
        k = self._k(key)
        n = int(self.net.kv.get(k, b"0")) + int(value)
        self.net.kv[k] = str(n).encode()
        return n

    def check(self, keys):
        self.net.k.point("store.check")
        return all(self._k(x) in self.net.kv for x in keys)

    def wait(self, keys, timeout=None):
        t = timeout.total_seconds() if isinstance(timeout, datetime.timedelta) else self._t
        ks = [self._k(x) for x in keys]
        if not self.net.k.block(lambda: all(x in self.net.kv for x in ks), f"store.wait:{keys[0]}", t):
            raise RuntimeError(f"simulated store: wait timeout after {t}s for {keys}")

    def delete_key(self, key):
        return self.net.kv.pop(self._k(key), None) is not None

    def num_keys(self):
        return len(self.net.kv)

    def set_timeout(self, t):
        self._t = t.total_seconds()

    @property
    def timeout(self):
        return datetime.timedelta(seconds=self._t)


def _sim_rendezvous(url, timeout=datetime.timedelta(seconds=DEFAULT_TIMEOUT), **kwargs):
    """Handler of env:// that reads the simulated process environment."""
    k = kernel()
    if k is None:
        yield from _REAL_ENV(url, timeout=timeout, **kwargs)
        return
    p = k.current()
    net = k.net
    gen = net.gen.get(p.rank, 0)
    net.gen[p.rank] = gen + 1
    k.point("rendezvous")
    if "RANK" not in p.env or "WORLD_SIZE" not in p.env:
        raise ValueError("Error initializing torch.distributed using env:// rendezvous: environment variable RANK expected, but not set")
    rank, ws = int(p.env["RANK"]), int(p.env["WORLD_SIZE"])
    fault = k.take_fault("rendezvous_error", p.rank, gen)
    if fault:
        raise {"store": dist.DistStoreError, "value": ValueError, "os": OSError, "runtime": RuntimeError}.get(fault.get("err"), dist.DistNetworkError)("simulated: the client socket has failed to connect")
    # every participant must show up
    net.kv.setdefault(("present", gen), set()).add(rank)
    if not k.block(lambda: len(net.kv[("present", gen)]) >= ws, "rendezvous.wait", 300.0):
        raise dist.DistNetworkError("simulated: rendezvous timeout")
    net.inits[p.rank] = net.inits.get(p.rank, 0) + 1
    yield (SimStore(net, rank, gen), rank, ws)


_REAL_ENV = _rdzv._env_rendezvous_handler


class Mismatch(RuntimeError):
    pass


class _Slot:
    def __init__(self, kind, meta):
        self.kind, self.meta = kind, meta
        self.payload = {}
        self.out = {}
        self.done = False
        self.failed = None


class SimPG(dist.ProcessGroup):
    """A process group whose messages travel through the simulated network."""

    def __init__(self, store, rank, size, timeout, name, global_ranks):
        super().__init__(rank, size)
        self._rank, self._size = rank, size
        self._name = name
        k = kernel()
        self._net = k.net
        self._gr = list(global_ranks) if global_ranks else list(range(size))
        self._timeout = timeout.total_seconds() if isinstance(timeout, datetime.timedelta) else DEFAULT_TIMEOUT
        self._seq = 0
        self._gen = self._net.gen.get(k.current().rank, 1)
        self._closed = False
        self._key = (self._gen, tuple(self._gr), name)

    def size(self):
        return self._size

    def rank(self):
        return self._rank

    def getBackendName(self):
        return "gloo"

    @property
    def pg_name(self):
        return self._name

    @property
    def group_name(self):
        return self._name

    def shutdown(self):
        k = kernel()
        if k is not None:
            p = k.current()
            if not self._closed:
                self._closed = True
            k.point("shutdown")
            self._net.destroyed[p.rank] = self._net.destroyed.get(p.rank, 0) + 1
            closed = self._net.kv.setdefault(("closed",) + self._key, set())
            closed.add(self._rank)
            fault = k.take_fault("destroy_error", p.rank, self._gen - 1)
            if fault:
                raise {"value": ValueError, "os": ConnectionResetError, "assert": AssertionError}.get(fault.get("err"), RuntimeError)("simulated: error while closing the communicator")

    def abort(self):
        self.shutdown()

    # ------------------------------------------------------------ the engine
    def _coll(self, kind, meta, payload, compute, deliver, eager=False):
        k = kernel()
        if k is None:
            raise RuntimeError("simulated group used outside its simulation")
        net, p = self._net, k.current()
        n = p.data["coll"] = p.data.get("coll", 0) + 1
        idx = n - 1
        label = f"{kind}@{self._key[2]}#{self._seq}"
        k.point(label + ":enter")
        if k.take_fault("crash", p.rank, idx):
            raise SimCrash(label)
        if k.take_fault("net_error", p.rank, idx):
            # this rank's connections break: its peers see it as gone from here on
            net.kv.setdefault(("closed",) + self._key, set()).add(self._rank)
            net.broken = getattr(net, "broken", set()) | {p.rank}
            raise RuntimeError(f"simulated: connection reset by peer in {label}")
        f = k.take_fault("stall", p.rank, idx)
        if f:
            p.clock += float(f.get("seconds", 30.0))
            k.point(label + ":stalled")
        seq = self._seq
        self._seq += 1
        skey = self._key + (seq,)
        slot = net.slots.get(skey)
        net.log.append((p.rank, kind, str(meta), self._key[2], seq))
        net.collectives[kind] = net.collectives.get(kind, 0) + 1
        if slot is None:
            slot = net.slots[skey] = _Slot(kind, meta)
        elif (slot.kind, slot.meta) != (kind, meta):
            slot.failed = f"ranks disagree on collective {seq} of group {self._gr}: {slot.kind}{slot.meta} vs {kind}{meta}"
            k.anomalies.append("mismatch: " + slot.failed)
            raise Mismatch("simulated: " + slot.failed)
        slot.payload[self._rank] = payload
        if len(slot.payload) == self._size and not slot.failed:
            with torch.no_grad():
                slot.out = compute(slot.payload)
            slot.done = True
            net.slots.pop(skey, None)
        if eager and not slot.done:
            # a root that only sends may run ahead of its receivers
            if k.rng.random() < 0.5:
                k.point(label + ":sent")
                return _work(None)
        closed = ("closed",) + self._key

        def ready():
            if slot.done or slot.failed:
                return True
            missing = [i for i in range(self._size) if i not in slot.payload]
            c = net.kv.get(closed, set())
            return any(self._gr[i] in net.gone or i in c for i in missing)

        ok = k.block(ready, label + ":wait", self._timeout)
        if slot.failed:
            raise Mismatch("simulated: " + slot.failed)
        if not slot.done:
            if ok:
                missing = [self._gr[i] for i in range(self._size) if i not in slot.payload]
                k.anomalies.append(f"peer-gone: {label} rank {p.rank} waits for {missing}")
                net.kv.setdefault(closed, set()).add(self._rank)
                raise RuntimeError(f"simulated: connection closed by peer {missing} in {label}")
            k.anomalies.append(f"timeout: {label} rank {p.rank}")
            raise RuntimeError(f"simulated: timed out waiting {self._timeout}s in {label}")
        with torch.no_grad():
            deliver(slot.out)
        return _work(None)

    @staticmethod
    def _meta(ts):
        return tuple((tuple(t.shape), str(t.dtype)) for t in ts)

    @staticmethod
    def _reduce(op, ts):
        name = str(op).split(".")[-1].upper()
        acc = ts[0].clone()
        for t in ts[1:]:
            if name in ("SUM", "AVG"):
                acc += t
            elif name == "PRODUCT":
                acc *= t
            elif name == "MIN":
                acc = torch.minimum(acc, t)
            elif name == "MAX":
                acc = torch.maximum(acc, t)
            elif name == "BAND":
                acc &= t
            elif name == "BOR":
                acc |= t
            else:
                raise RuntimeError(f"simulated: unsupported reduce op {op}")
        if name == "AVG":
            acc /= len(ts)
        return acc

    @staticmethod
    def _opname(op):
        if hasattr(op, "op"):
            try:
                return str(op.op).split(".")[-1]
            except Exception:  # noqa: BLE001
                pass
        return str(op).split(".")[-1]

    def _rop(self, op):
        for name in ("SUM", "AVG", "PRODUCT", "MIN", "MAX", "BAND", "BOR"):
            if hasattr(dist.ReduceOp, name) and op == getattr(dist.ReduceOp, name):
                return name
        return str(op)

    def allreduce(self, tensors, opts=None):
        op = self._rop(opts.reduceOp) if opts is not None else "SUM"
        ts = list(tensors)

        def compute(pl):
            return [self._reduce(op, [pl[r][i] for r in range(self._size)]) for i in range(len(ts))]

        def deliver(out):
            for t, o in zip(ts, out):
                t.detach().copy_(o)

        return self._coll("all_reduce", (op, self._meta(ts)), [t.detach().clone() for t in ts], compute, deliver)

    allreduce_coalesced = allreduce

    def reduce(self, tensors, opts=None):
        op, root = self._rop(opts.reduceOp), opts.rootRank
        ts = list(tensors)

        def compute(pl):
            return [self._reduce(op, [pl[r][i] for r in range(self._size)]) for i in range(len(ts))]

        def deliver(out):
            if self._rank == root:
                for t, o in zip(ts, out):
                    t.detach().copy_(o)

        return self._coll("reduce", (op, root, self._meta(ts)), [t.detach().clone() for t in ts], compute, deliver)

    def broadcast(self, tensors, opts=None):
        root = opts.rootRank if opts is not None else 0
        ts = list(tensors)

        def compute(pl):
            return pl[root]

        def deliver(out):
            if self._rank != root:
                for t, o in zip(ts, out):
                    t.detach().copy_(o)

        return self._coll("broadcast", (root, self._meta(ts)), [t.detach().clone() for t in ts], compute, deliver, eager=self._rank == root)

    def allgather(self, outputs, inputs, opts=None):
        ins = list(inputs)

        def compute(pl):
            return {r: pl[r] for r in pl}

        def deliver(out):
            for i in range(len(ins)):
                for r in range(self._size):
                    outputs[i][r].detach().copy_(out[r][i])

        return self._coll("all_gather", self._meta(ins), [t.detach().clone() for t in ins], compute, deliver)

    def _allgather_base(self, output, inp, opts=None):
        chunks = list(torch.chunk(output, self._size))
        return self.allgather([chunks], [inp], opts)

    all_gather_single = _allgather_base

    def gather(self, outputs, inputs, opts=None):
        root = opts.rootRank
        ins = list(inputs)

        def deliver(out):
            if self._rank == root:
                for r in range(self._size):
                    outputs[0][r].detach().copy_(out[r][0])

        return self._coll("gather", (root, self._meta(ins)), [t.detach().clone() for t in ins], lambda pl: dict(pl), deliver)

    def scatter(self, outputs, inputs, opts=None):
        root = opts.rootRank
        outs = list(outputs)
        pay = [t.detach().clone() for t in inputs[0]] if self._rank == root else []

        def deliver(out):
            outs[0].detach().copy_(out[root][self._rank])

        return self._coll("scatter", (root, self._meta(outs)), pay, lambda pl: dict(pl), deliver)

    def reduce_scatter(self, outputs, inputs, opts=None):
        op = self._rop(opts.reduceOp)
        outs = list(outputs)
        ins = [list(x) for x in inputs]

        def compute(pl):
            return {r: self._reduce(op, [pl[s][r] for s in range(self._size)]) for r in range(self._size)}

        def deliver(out):
            outs[0].detach().copy_(out[self._rank])

        return self._coll("reduce_scatter", (op, self._meta(outs)), [t.detach().clone() for t in ins[0]], compute, deliver)

    def alltoall(self, outputs, inputs, opts=None):
        outs, ins = list(outputs), list(inputs)

        def deliver(out):
            for r in range(self._size):
                outs[r].detach().copy_(out[r][self._rank])

        return self._coll("all_to_all", self._meta(ins), [t.detach().clone() for t in ins], lambda pl: dict(pl), deliver)

    def barrier(self, opts=None):
        return self._coll("barrier", (), [], lambda pl: {}, lambda out: None)

    def monitored_barrier(self, timeout=None, wait_all_ranks=False):
        self.barrier()

    def send(self, tensors, dst, tag=0):
        k, net, p = kernel(), self._net, kernel().current()
        k.point(f"send->{dst}")
        net.kv.setdefault(("msg", self._key, self._rank, dst, tag), []).append([t.detach().clone() for t in tensors])
        return _work(None)

    def recv(self, tensors, src, tag=0):
        k, net = kernel(), self._net
        key = ("msg", self._key, src, self._rank, tag)
        ok = k.block(lambda: bool(net.kv.get(key)) or self._gr[src] in net.gone, f"recv<-{src}", self._timeout)
        if not net.kv.get(key):
            raise RuntimeError("simulated: connection closed by peer or timeout in recv")
        with torch.no_grad():
            for t, m in zip(tensors, net.kv[key].pop(0)):
                t.detach().copy_(m)
        return _work(None)


def _creator(opts, backend_options=None):
    k = kernel()
    if k is None:
        raise RuntimeError("gloo is replaced by the simulator in this process")
    p = k.current()
    n = p.data["pg_made"] = p.data.get("pg_made", 0) + 1
    k.point(f"new_pg:{opts.group_id}")
    if k.take_fault("crash_pg", p.rank, n - 1):
        raise SimCrash("new process group")
    if k.take_fault("pg_error", p.rank, n - 1):
        raise RuntimeError("simulated: gloo connectFullMesh failed")
    return SimPG(opts.store, opts.group_rank, opts.group_size, opts.timeout, opts.group_id, opts.global_ranks_in_group)


class _TimeShim(types.ModuleType):
    """time module seen by torch's rendezvous code: virtual in a simulation."""

    def __init__(self):
        super().__init__("time")
        import time as _t
        self._t = _t

    def __getattr__(self, name):
        return getattr(self._t, name)

    def time(self):
        k = kernel()
        return self._t.time() if k is None else k.current().clock

    def sleep(self, s):
        k = kernel()
        if k is None:
            self._t.sleep(s)
        else:
            k.current().clock += s
            k.point("sleep")


_INSTALLED = False


def install():
    """Put the simulator under torch.distributed (idempotent)."""
    global _INSTALLED
    if _INSTALLED:
        return
    _INSTALLED = True
    c10d._world = mt.ThreadLocalWorld()
    try:
        torch._C._distributed_c10d._set_thread_isolation_mode(True)
    except Exception:  # noqa: BLE001
        pass
    torch.autograd.set_multithreading_enabled(False)
    c10d.Backend._ensure_backend_registered("gloo")
    old = c10d.Backend._plugins["GLOO"]
    c10d.Backend._plugins["GLOO"] = old._replace(creator_fn=_creator, extended_api=True)
    _rdzv._rendezvous_handlers["env"] = _sim_rendezvous
    c10d.time = _TimeShim()


def reset_thread_world():
    mt.ThreadLocalWorld._world.world = mt.WorldData()
