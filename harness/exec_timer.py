"""Worker: timer histories under a simulated clock."""
import contextlib, io, re, resource, time
NOW = [0.0]
for name in ("monotonic", "perf_counter", "time", "process_time"):
    setattr(time, name, lambda: NOW[0])
    setattr(time, name + "_ns", lambda: int(NOW[0] * 10**9))
from core import Worker, attempt
from bm25s.utils.benchmark import Timer, get_max_memory_usage

TICK = 0.125


def ticks(v):
    return int(v / TICK) if isinstance(v, (int, float)) and v / TICK == int(v / TICK) else -1


def units(v, p):
    u = round(v * 10**p)
    return u if abs(v - u / 10**p) < 1e-9 else -1


def run(case):
    x = case["x"]
    kw = {} if x["precision"] is None else dict(precision=x["precision"])
    t = Timer(x["prefix"], **kw) if x["prefix"] is not None else Timer(**kw)
    other = Timer()   # (timers of another object are other timers)
    names = x["names"]
    for e in case["ev"]:
        NOW[0] = x["base"] + e["t"] * TICK
        n = names[max(e["n"], 1) - 1]
        if e["op"] == "start":
            if e["x"].get("other") and not other.has_started(n):
                other.start(n)
            o = attempt(lambda: t.start(n))
        elif e["op"] in ("pause", "resume"):
            o = attempt(lambda: getattr(t, e["op"])(n))
        elif e["op"] == "stop":
            def f():
                if e["x"]["show"]:
                    with contextlib.redirect_stdout(io.StringIO()):
                        return t.stop(n, show=True, **({} if e["x"]["total"] is None else dict(n_total=e["x"]["total"])))
                return t.stop(n)
            o = attempt(f)
            o["ticks"] = ticks(o.pop("v", None))
        elif e["op"] == "elapsed":
            o = attempt(lambda: t.elapsed(n) if e["x"]["default"] else t.elapsed(n, precision=e["precision"]))
            o["units"] = units(o.pop("v"), e["precision"]) if o["ok"] else -1
        elif e["op"] == "memory":
            kb = lambda: resource.getrusage(resource.RUSAGE_SELF).ru_maxrss
            u = e["unit"]
            lo = kb()
            o = attempt(lambda: get_max_memory_usage(*([] if u == "default" else ["TB" if u == "bad" else u])))
            v = o.pop("v", -1)
            o.update(lo=lo, hi=kb(), kb=round(v * {"KB": 1, "MB": 1024}.get(u, 1024 ** 2)) if isinstance(v, (int, float)) and v < 10**8 else -1)
        elif e["op"] == "probe":
            o = attempt(lambda: [[bool(getattr(t, q)(m)) for m in names] for q in ("has_started", "has_stopped", "is_paused", "is_resumed")])
            v = o.pop("v", [[], [], [], []])
            o.update(started=v[0], stopped=v[1], paused=v[2], resumed=v[3])
        elif e["op"] == "export":
            kw = {k: True for k in ("underscore", "lowercase") if e["x"][k]}
            want = []
            for m in names:
                m = m.replace(" ", "_") if e["x"]["underscore"] else m
                want.append(m.lower() if e["x"]["lowercase"] else m)

            def f():
                d = t.to_dict(**kw)
                out = [[want.index(k) + 1 if k in want else -1, ticks(v["elapsed"])] for k, v in d.items()]
                for v in d.values():   # the export is a copy
                    v["elapsed"] = 1e9
                    v.pop("last", None)
                d.clear()
                return out
            o = attempt(f)
            o["times"] = o.pop("v", [])
        elif e["op"] == "show":
            buf = io.StringIO()

            def f():
                with contextlib.redirect_stdout(buf):
                    if e["n"] == 0:
                        return t.show_all()
                    kw = {} if e["x"]["total"] is None else dict(n_total=e["x"]["total"])
                    if e["offset"] or e["x"]["zero"]:
                        kw["offset"] = e["offset"] * TICK
                    t.show(names[e["n"] - 1], **kw)
            o = attempt(f)
            lines = []
            for z in buf.getvalue().splitlines():
                m = re.fullmatch(re.escape(x["prefix"] or "") + r" (.*): (-?\d+\.\d+)s.*", z)
                lines.append([names.index(m[1]) + 1, units(float(m[2]), 3)] if m and m[1] in names else [-1, -1])
            o["lines"] = lines
        o.pop("v", None)
        yield o


if __name__ == "__main__":
    Worker(run).run()
