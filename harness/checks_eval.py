"""C25: evaluation of retrieval results."""
import math
from gen import G
from checks_beir import IDS

NAMES = ("ndcg", "map", "recall", "precision")


def case(g, many=0):
    rng = g.rng
    table = sorted(set(IDS) | {"d%d" % i for i in range(many or rng.choice([0, 4, 40]))}, key=lambda s: s.encode())
    keys = []
    code = {v: i for i, v in enumerate(table)}
    ev = []
    for _ in range(rng.choice([2, 4])):
        n = rng.choice([1, 1, 2, 5])
        ids = rng.sample(range(len(table)), min(len(table), rng.choice([many] if many else [2, 5, 12, 30])))
        pool = rng.sample(range(len(table)), n + rng.choice([0, 1, 2]))
        if rng.random() < 0.4:
            ids = list(set(ids) | set(pool))
        post = rng.random() < 0.5
        m = rng.randint(1, len(ids)) if not many else rng.randint(120, len(ids))
        spread = rng.choice([1, 3, 1000])
        qs = pool[:n]
        results = [[q, [[d, rng.randint(rng.choice([0, 0, -spread]), spread)] for d in rng.sample(ids, m if post else rng.randint(0, len(ids)))]] for q in qs]
        rated = qs[:rng.randint(1, n)] + pool[n:]
        rng.shuffle(rated)
        grades = rng.choice([[1], [0, 1], [0, 1, 2, 3], [0, 0, 0, 1], [-1, 0, 1, 2]])
        qrels = [[q, [[d, rng.choice(grades)] for d in rng.sample(ids, rng.randint(1, len(ids)))]] for q in rated]
        ks = rng.sample([1, 2, 3, 5, 10, 20, 100, 1000], rng.choice([1, 2, 4]))
        ev.append(dict(op="evaluate", qrels=qrels, results=results, ks=ks, ignore=rng.random() < 0.6,
                       x=dict(post=post, arrays=rng.choice([None, "float32", "float64"]), scale=rng.choice([1, 1.0, 0.125, 2.0**-13, 2.0**-18]), base=rng.choice([0, 0, 2]), default=rng.random() < 0.5)))
    n, k = rng.choice([1, 3]), rng.choice([1, 2, 4])
    ev.append(dict(op="results", ids=rng.sample(range(len(table)), n), docs=[rng.sample(range(len(table)), k) for _ in range(n)],
                   scores=[[rng.randint(-5, 50) for _ in range(k)] for _ in range(n)], x=dict(divide=rng.choice([1, 3, 7, 1000, 99999.5]), arrays=rng.choice([None, "float32", "float64"]))))
    dd = [["NDCG@%d" % z, z] for z in rng.sample([1, 3, 10, 100], 2)] + rng.choice([[], [["plain", 7]], [["a@b@c", 8]]])
    want = []
    for z in dd:
        s = z[0].split("@")[-1]
        if s not in code:
            code[s] = len(table)
            table.append(s)
        want.append([code[s], z[1]])
    ev.append(dict(op="keys", want=want, x=dict(d=dd)))
    return dict(ev=ev, x=dict(table=table), tag="evaluation")


def value(terms, name, x, k):
    out = []
    for q in terms:
        a, n = q["at"][x], q["nrel"]
        if name == "precision":
            v = a["hits"] / k
        elif n == 0:
            v = 0.0
        elif name == "recall":
            v = a["hits"] / n
        elif name == "map":
            v = math.fsum(h / r for h, r in a["precisions"]) / n
        else:
            d = [math.fsum(gain / math.log2(i + 2) for i, gain in enumerate(z)) for z in (a["gains"], a["ideal"])]
            v = d[0] / d[1] if d[1] else 0.0
        out.append(v)
    return math.fsum(out) / len(out)


def C25(chk):
    chk.assumptions += ["at least one query has judgements and results; cut-offs are positive and distinct",
                        "scores are distinguishable in single precision (the evaluation library compares them so)",
                        "pytrec_eval is part of what is judged: the measures are specified, not taken from it"]
    chk.model_check("MCEval", "MCEvalDeep" if chk.thorough else "MCEval")
    chk.model_check("MCEval", "MCEvalBad", expect_violation="Complete")
    g = G(chk.seed * 1000 + 25)
    cases = [case(g) for _ in range(chk.scale(500, 5000))] + [case(g, 1200 if chk.thorough else 300) for _ in range(chk.scale(6, 20))]
    obs = chk.execute("exec_eval", cases)
    traces = [dict(ev=[dict({k: v for k, v in e.items() if k != "x"}, obs=dict(ok=o["ok"])) for e, o in zip(c["ev"], os_)]) for c, os_ in zip(cases, obs)]
    bad, exp = chk.validate("EvalTrace", traces, env={"PHASE": "A"})
    for z in exp:
        e, o = cases[z["c"] - 1]["ev"][z["l"] - 1], obs[z["c"] - 1][z["l"] - 1]
        o["dev"] = {}
        for i, name in enumerate(NAMES):
            got = o["values"][i] if o.get("values") else []
            o["dev"][name] = []
            for x, v in enumerate(got):
                d = abs(v - value(z["terms"], name, x, e["ks"][x]))
                o["dev"][name].append(int(math.ceil(min(d, 1) * 1e8)) if d == d and round(v, 5) == v else 10 ** 8)
    for os_ in obs:
        for o in os_:
            if "values" in o:
                o["got"] = str(o.pop("values"))
    chk.judge("EvalTrace", cases, obs=obs, tlc_env={"PHASE": "B"}, cls=lambda c, e: f"{e['op']}")
