"""C24: timers."""
from gen import G
from core import MachineryError

NAMES = [["a", "b", "c"], ["Index Corpus", "Query", "index corpus 2"], ["", "x y", "X"], ["é", "a.b", "(1)"],
         ["a  b", " a b", "a b "], ["   ", "x\ty", "A   b c"]]


def histories(chk, num):
    rc, out = chk.tlc("Timer", "TimerEmit", workers=1, timeout=300, args=["-simulate", f"num={num}", "-depth", "19", "-seed", str(chk.seed)])
    last = {}
    for h in chk.prints(out, "CASE"):
        last[str(h[:-1])] = h
    if len(last) < 0.8 * num:
        raise MachineryError(f"only {len(last)} histories\n" + out[-1000:])
    chk.extra["histories_from_model"] = len(last)
    return list(last.values())


def make(g, h):
    rng = g.rng
    x = dict(names=rng.choice(NAMES), precision=rng.choice([None, None, 0, 1, 2, 3, 6]), prefix=rng.choice([None, "", "[BM25S]", "p:"]),
             base=rng.choice([0.0, 1024.0, 2.0**20 + 0.5]))
    p = 4 if x["precision"] is None else x["precision"]
    ev, now, scale, state = [], 0, rng.choice([1, 1, 5, 8]), {}

    def add(op, n, x=None, **kw):
        ev.append(dict(op=op, n=n, t=now, x=x or {}, **kw))
    for s in h:
        if s["op"] == "tick":
            now += s["d"] * scale
        else:
            add(s["op"], s["n"], dict(other=rng.random() < 0.3, show=rng.random() < 0.3, total=rng.choice([None, None, 10, 1])))
            state[s["n"]] = s["op"]
        if rng.random() < 0.35:
            q, n = rng.choice(["elapsed", "elapsed", "probe", "export", "show", "refuse"]), rng.randint(1, 3)
            if q == "elapsed":
                d = rng.random() < 0.5
                add("elapsed", n, dict(default=d), precision=p if d else rng.choice([0, 1, 2, 3, 5]))
            elif q == "export":
                add("export", n, dict(underscore=rng.random() < 0.5, lowercase=rng.random() < 0.5) if len({m.lower() for m in x["names"]}) == 3 and x["names"][0] else
                    dict(underscore=rng.random() < 0.5, lowercase=False))
            elif q == "show":
                for _ in range(rng.choice([1, 1, 2])):
                    z = rng.choice([0, n])
                    add("show", z, dict(total=rng.choice([None, None, 10, 1]), zero=rng.random() < 0.2), precision=min(p, 3),
                        offset=rng.choice([0, 0, 1, 3, 40, -2]) if z else 0)
                if z and rng.random() < 0.5:
                    add("elapsed", z, dict(default=False), precision=5)
            elif q == "probe":
                add("probe", n)
            elif n in state:
                add("start", n)
            else:
                add("stop", n, dict(show=rng.random() < 0.3, total=None))
    if rng.random() < 0.3:
        add("memory", 1, unit=rng.choice(["default", "KB", "MB", "GB", "bad"]))
    for n in (1, 2, 3):
        add("elapsed", n, dict(default=False), precision=5)
    return dict(ev=ev, x=x, tag="timer")


def C24(chk):
    chk.assumptions += ["the clock does not go backwards; whether a timer that was resumed after a stop counts as stopped is not settled"]
    chk.model_check("Timer", "TimerDeep" if chk.thorough else "Timer")
    chk.model_check("Timer", "TimerBad", expect_violation="Exact")
    chk.model_check("Timer", "TimerBadResume", expect_violation="Exact")
    g = G(chk.seed * 1000 + 24)
    cases = [make(g, h) for h in histories(chk, chk.scale(600, 6000))]
    chk.judge("TimerTrace", cases, "exec_timer", cls=lambda c, e: e["op"])
