"""Worker: evaluation of retrieval results."""
import json, logging
logging.disable(logging.CRITICAL)
import numpy as np
from bm25s.utils import beir
from core import Worker, attempt


class Run:
    def __init__(self, case):
        self.case, self.x = case, case["x"]
        self.table = self.x["table"]
        self.codes = {v: i for i, v in enumerate(self.table)}

    def post(self, e):
        docs = [[self.table[z] for z in d] for d in e["docs"]]
        sc = [[z / e["x"].get("divide", 1) for z in s] for s in e["scores"]]
        if e["x"].get("arrays"):
            docs, sc = np.array(docs), np.array(sc, dtype=e["x"]["arrays"])
        return beir.postprocess_results_for_eval(docs, sc, [self.table[i] for i in e["ids"]])

    def op_results(self, e):
        o = attempt(lambda: self.post(e))
        # the scores as they are handed over, exactly
        back = {float(np.array(z / e["x"]["divide"], dtype=e["x"]["arrays"])): z for s in e["scores"] for z in s}
        o["rows"] = [[self.codes[q], [[self.codes[str(d)], back.get(s, -999) if type(s) is float else -999] for d, s in m.items()]] for q, m in o.pop("v", {}).items()]
        return o

    def op_keys(self, e):
        o = attempt(lambda: beir.clean_results_keys({k: v for k, v in e["x"]["d"]}))
        o["rows"] = [[self.codes.get(k, -1), v] for k, v in o.pop("v", {}).items()]
        return o

    def op_evaluate(self, e):
        T = self.table
        scale, base = e["x"]["scale"], e["x"]["base"]
        qrels = {T[q]: {T[d]: g for d, g in rels} for q, rels in e["qrels"]}
        if e["x"]["post"]:
            p = dict(ids=[r[0] for r in e["results"]], docs=[[z[0] for z in r[1]] for r in e["results"]],
                     scores=[[base + z[1] * scale for z in r[1]] for r in e["results"]], x=e["x"])
            results = self.post(p)
        else:
            results = {T[q]: {T[d]: base + s * scale for d, s in run} for q, run in e["results"]}
        kw = {} if e["ignore"] and e["x"]["default"] else dict(ignore_identical_ids=e["ignore"])
        o = attempt(lambda: beir.evaluate(qrels, results, list(e["ks"]), **kw))
        v = o.pop("v", None)
        o["names"], o["values"] = False, []
        if v is not None:
            o["names"] = bool(isinstance(v, tuple) and len(v) == 4 and all(
                set(d) == {"%s@%d" % (n, k) for k in e["ks"]} for n, d in zip(("NDCG", "MAP", "Recall", "P"), v)))
            if o["names"]:
                o["values"] = [[float(d["%s@%d" % (n, k)]) for k in e["ks"]] for n, d in zip(("NDCG", "MAP", "Recall", "P"), v)]
        return o

    def run(self):
        for e in self.case["ev"]:
            o = getattr(self, "op_" + e["op"])(e)
            o.pop("v", None)
            yield o


if __name__ == "__main__":
    Worker(lambda case: Run(case).run()).run()
