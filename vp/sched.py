"""Controlled interleaving of threads, reproducible from a seed.

Exactly one thread runs at a time. At every executed line of the code under test
the running thread may hand over to another one, as a seeded generator decides.
If the running thread makes no progress (it waits for a lock another thread
holds), the others go on after a grace period and leave it out until it does, so
correct locking cannot deadlock the check."""
from __future__ import annotations

import os
import random
import sys
import threading
import time

from . import boot

SRC = os.path.realpath(os.path.join(boot.REPO, "src")) + os.sep
GRACE = 0.5


class Scheduler:
    def __init__(self, n: int, seed: int, density: float, burst: int = 0):
        self.rng = random.Random(seed)
        self.cond = threading.Condition()
        self.n = n
        self.live = set(range(n))
        self.blocked: set[int] = set()
        self.turn = self.rng.randrange(n)
        self.density = density
        self.burst = burst  # lines a thread runs before the next hand-over is possible
        self.left = burst
        self.switches = 0
        self.lines = 0
        self.stamp = time.monotonic()
        self.files: dict[str, bool] = {}

    # -- called by the threads ------------------------------------------------
    def others(self, me: int) -> list[int]:
        o = self.live - {me}
        return sorted(o - self.blocked)

    def wait_turn(self, me: int) -> None:
        with self.cond:
            self.blocked.discard(me)
            while self.turn != me:
                self.cond.wait(0.05)
                if self.turn != me and time.monotonic() - self.stamp > GRACE:
                    self.blocked.add(self.turn)
                    self.turn = me
                    self.stamp = time.monotonic()
            self.stamp = time.monotonic()

    def point(self, me: int) -> None:
        if self.turn != me:  # overtaken while blocked
            self.wait_turn(me)
        self.lines += 1
        self.stamp = time.monotonic()
        if self.left > 0:
            self.left -= 1
            return
        if len(self.live) > 1 and self.rng.random() < self.density:
            with self.cond:
                others = self.others(me)
                if not others:
                    return
                self.turn = self.rng.choice(others)
                self.left = self.burst
                self.switches += 1
                self.cond.notify_all()
            self.wait_turn(me)

    def done(self, me: int) -> None:
        with self.cond:
            self.live.discard(me)
            if self.live and self.turn == me:
                self.turn = self.rng.choice(self.others(me) or sorted(self.live))
            self.stamp = time.monotonic()
            self.cond.notify_all()

    # -- tracing --------------------------------------------------------------
    def tracer(self, me: int):
        files = self.files

        def local(frame, event, arg):
            if event == "line":
                self.point(me)
            return local

        def glob(frame, event, arg):
            name = frame.f_code.co_filename
            ours = files.get(name)
            if ours is None:
                ours = files[name] = os.path.realpath(name).startswith(SRC)
            return local if ours else None

        return glob


def run(programs, seed: int, density: float, burst: int = 0, timeout: float = 120.0):
    """Run zero-argument callables concurrently; list of (result, exception)."""
    s = Scheduler(len(programs), seed, density, burst)
    out: list = [(None, None)] * len(programs)

    def body(i):
        s.wait_turn(i)
        sys.settrace(s.tracer(i))
        try:
            out[i] = (programs[i](), None)
        except BaseException as exc:  # noqa: BLE001
            out[i] = (None, exc)
        finally:
            sys.settrace(None)
            s.done(i)

    ts = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(len(programs))]
    for t in ts:
        t.start()
    end = time.monotonic() + timeout
    for t in ts:
        t.join(max(0.0, end - time.monotonic()))
    if any(t.is_alive() for t in ts):
        return None, s
    return out, s
