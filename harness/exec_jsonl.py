"""Worker: histories of JSONL corpora."""
import json, os, shutil, sys, tempfile, threading, time, logging, random
logging.disable(logging.CRITICAL)
sys.modules["jax"] = None
sys.modules["jax.lax"] = None
if os.environ.get("NO_ORJSON"):
    sys.modules["orjson"] = None
import warnings
warnings.simplefilter("ignore")
import numpy as np
import bm25s
from bm25s.utils import corpus as cm
from core import Worker, attempt, omit, progress, REPO
from interleave import Scheduler

KW = dict(show_progress=False, verbosity=0)


def canon(v):
    if isinstance(v, np.generic):
        v = v.item()
    return json.dumps(v, sort_keys=True)


class Run:
    def __init__(self, case):
        self.case = case
        self.tmp = tempfile.mkdtemp()
        self.codes = {}
        self.objs = {}
        self.raw = {}

    def code(self, v):
        return self.codes.setdefault(canon(v), len(self.codes) + 1)

    def path(self, name):
        p = os.path.join(self.tmp, self.case["x"]["paths"][name])
        os.makedirs(os.path.dirname(p), exist_ok=True)
        return p

    def expr(self, x):
        if x["form"] == "item":
            return x["ids"][0]
        if x["form"] == "array":
            a = np.array(x["ids"], dtype=x.get("dtype", "int64")).reshape(x["shape"])
            if x.get("layout") == "F" and a.ndim:
                a = np.asfortranarray(a)
            if x.get("layout") == "strided" and a.ndim:
                b = np.zeros((2,) + a.shape, dtype=a.dtype)
                b[0] = a
                a = np.moveaxis(np.stack([a, a], axis=-1), -1, 0)[0]
            return a
        if x["kind"] == "slice":
            g = lambda z: z[0] if z else None
            return slice(g(x["a"]), g(x["b"]), g(x["s"]))
        return (tuple if x.get("tuple") else list)(x["ids"])

    def get(self, c, x):
        o = attempt(lambda: c[self.expr(x)])
        r = dict(ok=o["ok"], flat=[], form="none", shape=[])
        if not o["ok"]:
            return r
        v = o["v"]
        if x["form"] == "item":
            r.update(form="item", flat=[self.code(v)])
            self.spoil(v)
        elif isinstance(v, np.ndarray):
            r.update(form="array", shape=list(v.shape), flat=[self.code(z) for z in v.reshape(-1)])
        elif isinstance(v, list):
            r.update(form="list", flat=[self.code(z) for z in v])
            [self.spoil(z) for z in v]
        return r

    @staticmethod
    def spoil(v):
        """Returned documents belong to the caller, who changes them."""
        if isinstance(v, dict):
            v["spoiled"] = 1
        elif isinstance(v, list):
            v.append("spoiled")

    def op_write(self, e):
        x = e["x"]
        raw = [(t + term).encode(x.get("encoding", "utf-8")) for t, term in x["lines"]]
        with open(self.path(e["path"]), "wb") as f:
            f.write(b"".join(raw))
        self.raw[e["path"]] = raw
        codes = []
        for t, _ in x["lines"]:
            try:
                codes.append(self.code(json.loads(t)))
            except ValueError:
                codes.append(0)
        return dict(ok=True, ev=dict(codes=codes, lens=[len(b) for b in raw]))

    def op_open(self, e):
        def f():
            kw = dict(progress(e), verbosity=0, save_index=e["x"]["save"])
            if "encoding" in e["x"]:
                kw["encoding"] = e["x"]["encoding"]
            p = self.path(e["path"])
            if e["x"].get("pathlib"):
                import pathlib
                p = pathlib.Path(p)
            self.objs[e["o"]] = cm.JsonlCorpus(p, **omit(kw, dict(save_index=True, encoding="utf-8"), e))
            return len(self.objs[e["o"]])
        o = attempt(f)
        o["len"] = o.pop("v", -1)
        return o

    def op_close(self, e):
        return attempt(lambda: self.objs[e["o"]].close())

    def op_reload(self, e):
        return attempt(lambda: self.objs[e["o"]].load())

    def op_len(self, e):
        o = attempt(lambda: len(self.objs[e["o"]]))
        o["len"] = o.pop("v", -1)
        return o

    def op_get(self, e):
        return self.get(self.objs[e["o"]], e["expr"])

    def op_offsets(self, e):
        p = self.path(e["path"])
        enc = e["x"].get("encoding", "utf-8")

        def f():
            pos = cm.find_newline_positions(p, encoding=enc, **progress(e))
            q = os.path.join(self.tmp, "other", os.path.basename(p))
            os.makedirs(os.path.dirname(q), exist_ok=True)
            cm.save_mmindex(pos, q, encoding=enc)
            raw = self.raw[e["path"]]
            rng = random.Random(len(raw))
            some = list(range(len(raw))) if len(raw) < 40 else rng.sample(range(len(raw)), 40)
            lines = all(cm.get_line(p, i, pos, encoding=enc).rstrip("\r\n") == raw[i].decode(enc).rstrip("\r\n") for i in some)
            return [int(z) for z in pos], lines, cm.load_mmindex(q, encoding=enc) == pos
        o = attempt(f)
        o["pos"], o["lines"], o["same"] = o.pop("v", ([], False, False))
        return o

    # -- concurrent reads ------------------------------------------------------------------------
    def op_concurrent(self, e):
        c = self.objs[e["o"]]
        x = e["x"]
        reads = e["reads"]
        # results are interned afterwards: interning must not be scheduled
        def reader(rs):
            exprs = [self.expr(r) for r in rs]

            def f():
                out = []
                for ex in exprs:
                    try:
                        out.append((True, c[ex]))
                    except Exception as ex2:  # noqa
                        out.append((False, repr(ex2)))
                return out
            return f

        def outcome(res):
            o = []
            for rs, vs in zip(reads, res):
                row = []
                for r, (ok, v) in zip(rs, vs or [(False, "no result")] * len(rs)):
                    d = dict(ok=ok, flat=[], form="none", shape=[])
                    if ok:
                        if r["form"] == "item":
                            d.update(form="item", flat=[self.code(v)])
                        elif isinstance(v, np.ndarray):
                            d.update(form="array", shape=list(v.shape), flat=[self.code(z) for z in v.reshape(-1)])
                        else:
                            d.update(form="list", flat=[self.code(z) for z in v])
                    row.append(d)
                o.append(row)
            return o
        seen = {}
        prefix = os.path.join(REPO, "bm25s")
        rng = random.Random(x["seed"])
        T = len(reads)
        # how many steps does every thread take alone?
        s = Scheduler(prefix, [], opcodes=x["opcodes"])
        seen.setdefault(json.dumps(outcome(s.run([reader(rs) for rs in reads]))), "sequential")
        n = [max(1, s.steps.get(t, 1)) for t in range(T)]
        plans = []
        for sch in x.get("schedules", []):
            # abstract schedule of the model: every thread takes a fixed number of steps
            per = [sch.count(t + 1) for t in range(T)]
            plans.append([(t - 1, -(-n[t - 1] // max(1, per[t - 1]))) for t in sch])
        one = [[(a, p), (b, n[b] + 1)] for a in range(T) for b in range(T) if a != b for p in range(n[a])]
        if len(one) > x["max_one"]:
            one = rng.sample(one, x["max_one"])
        plans += one
        for _ in range(x["random"]):
            plan = []
            for _ in range(rng.randint(2, 8)):
                t = rng.randrange(T)
                plan.append((t, rng.randint(0, max(1, n[t] // 2))))
            plans.append(plan)
        end = time.time() + x["budget"]
        runs = stalls = 0
        rng.shuffle(plans)
        for plan in plans:
            if time.time() > end:
                break
            s = Scheduler(prefix, plan, opcodes=x["opcodes"])
            seen.setdefault(json.dumps(outcome(s.run([reader(rs) for rs in reads]))), str(plan))
            runs += 1
            stalls += s.stalls
        # free running threads, switching as often as possible
        old = sys.getswitchinterval()
        sys.setswitchinterval(1e-6)
        for _ in range(x["free"]):
            res = [None] * T
            fns = [reader(rs) for rs in reads]

            def body(t):
                res[t] = fns[t]()
            ths = [threading.Thread(target=body, args=(t,)) for t in range(T)]
            [t.start() for t in ths]
            [t.join() for t in ths]
            seen.setdefault(json.dumps(outcome(res)), "free")
        sys.setswitchinterval(old)
        return dict(ok=True, outcomes=[json.loads(k) for k in list(seen)[:50]], dbg=dict(
            runs=runs, plans=len(plans), stalls=stalls, steps=n, how=list(seen.values())[:5]))

    def run(self):
        for e in self.case["ev"]:
            o = getattr(self, "op_" + e["op"])(e)
            o.pop("v", None)
            yield o
        for c in self.objs.values():
            c.close()
        shutil.rmtree(self.tmp, ignore_errors=True)


if __name__ == "__main__":
    Worker(lambda case: Run(case).run()).run()
