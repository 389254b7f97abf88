"""Worker: calls of the selection functions."""
import os, sys, warnings, logging
logging.disable(logging.CRITICAL)
warnings.simplefilter("ignore")
import numpy as np
from core import Worker, attempt, omit
from retr import exact_ranks
import bm25s
from bm25s import selection
from bm25s.numba import selection as selection_nb


def run(case):
    for e in case["ev"]:
        a = np.array(e["x"]["a"], dtype=e["x"]["dtype"])
        if e["x"].get("strided"):
            b = np.zeros(2 * len(a), dtype=a.dtype)
            b[::2] = a
            a = b[::2]
        before = a.copy()
        if e["x"].get("readonly"):
            a.setflags(write=False)
        f = selection_nb.topk if e["fn"] == "numba" else selection.topk
        kw = dict(k=e["k"], sorted=e["sorted"])
        if e["x"].get("backend") != "default":
            kw["backend"] = e["x"].get("backend") or e["fn"]
        kw = omit(kw, dict(sorted=True), e)
        o = attempt(lambda: f(a, **kw))
        if o["ok"]:
            s, p = o.pop("v")
            s, p = np.asarray(s), np.asarray(p)
            u = {x: i for i, x in enumerate(sorted(set(before.tolist())))}
            o.update(pos=[int(x) for x in p.ravel()], n=int(s.size) if s.ndim == 1 else -1,
                     ord=[u.get(x, -1) for x in s.astype(a.dtype).tolist()] if s.dtype == a.dtype else
                     [u.get(x, -1) for x in s.tolist()],
                     mutated=not np.array_equal(a, before))
            if len(o["ord"]) != len(o["pos"]):
                o["pos"] = [-1]
                o["ord"] = [-1]
        o.pop("msg", None)
        yield o


if __name__ == "__main__":
    Worker(run).run()
