"""A clock and a process whose memory and processor readings are set by the
harness: time stands still except where the harness lets it pass."""
import time as _time
import types

from .common import *  # noqa


class Monitor:
    def __init__(self, ctx, psutil=True):
        self.t, self.mem, self.cpu = 1000.0, 64.0, 5.0
        self.sleeps = []
        self.on_sleep = None
        m = types.ModuleType("time")
        for n in dir(_time):
            if not n.startswith("_"):
                setattr(m, n, getattr(_time, n))
        m.time = m.perf_counter = m.monotonic = m.process_time = lambda: self.t
        m.sleep = self.sleep
        ctx.stub("time", m)
        if psutil:
            ps = types.ModuleType("psutil")
            mon = self

            class Process:
                def __init__(self, *a): pass
                def memory_info(self): return types.SimpleNamespace(rss=mon.mem * 1024 * 1024, vms=mon.mem * 1024 * 1024)
                def cpu_percent(self, *a, **k): return mon.read_cpu()
            ps.Process = Process
            ps.Error = type("Error", (Exception,), {})
            ps.cpu_percent = lambda *a, **k: mon.read_cpu()
            ctx.stub("psutil", ps)
        else:
            ctx.absent("psutil")

    def read_cpu(self): return self.cpu

    def sleep(self, s):
        self.sleeps.append(s)
        if self.on_sleep:
            self.on_sleep(s)
