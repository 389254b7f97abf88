"""Histories of retrievers: execution, numeric evaluation of expectations, validation by TLC."""
import math
import numpy as np
from core import MachineryError

EPS = {"float32": float(np.finfo(np.float32).eps), "float64": float(np.finfo(np.float64).eps)}


def evaltree(t, env):
    op = t[0]
    if op == "num":
        return float(t[1])
    if op == "sym":
        return env[t[1]]
    a = evaltree(t[1], env)
    if op == "ln":
        return np.log(a)
    b = evaltree(t[2], env)
    if op == "+":
        return a + b
    if op == "-":
        return a - b
    if op == "*":
        return a * b
    if op == "/":
        return a / b
    if op == "max":
        return np.maximum(a, b)
    raise MachineryError(f"unknown operator {op}")


def expected(tree, row, par, dtype):
    """Expected scores of one query and their rounding tolerance."""
    n, total = row["n"], row["total"]
    ld = np.array(row["ld"], dtype=float)
    E = np.zeros(n)
    M = np.zeros(n)
    A = np.zeros(n)
    for term in row["terms"]:
        tf = np.array(term["tf"], dtype=float)
        env = dict(n=float(n), total=float(total), df=float(term["df"]), **par)
        with np.errstate(all="ignore"):
            idf = evaltree(tree["idf"], env)
            absent = evaltree(tree["absent"], env)
            full = evaltree(tree["tfc"], dict(env, tf=tf, ld=ld))
            tfc = np.where(tf > 0, full, absent)
        E += idf * tfc
        m = np.abs(tfc) + 2 * abs(absent)
        M += abs(idf) * m
        A += m
    q = len(row["terms"])
    tol = 4 * EPS[dtype] * (2 + q) * M + 16 * EPS["float64"] * A + 1e-300
    return E, tol


def dev(obs, exp, tol):
    with np.errstate(all="ignore"):
        d = np.abs(np.asarray(obs, dtype=float) - exp) / tol
    d = np.where(np.isnan(d), 1e6, d)
    d = np.where(np.asarray(obs, dtype=float) == exp, 0, d)
    return [int(x) for x in np.ceil(np.minimum(d, 1e6))]


def ranks(v, tol):
    """Order-isomorphic integers; values closer than the sum of their tolerances are ties."""
    v = np.asarray(v, dtype=float)
    o = np.argsort(v, kind="stable")
    out = [0] * len(v)
    cur = 0
    for a, b in zip(o, o[1:]):
        if v[b] - v[a] > tol[a] + tol[b]:
            cur += 1
        out[b] = cur
    return out


def exact_ranks(v):
    v = np.asarray(v, dtype=float)
    u = {x: i for i, x in enumerate(sorted(set(v.tolist())))}
    return [u[x] if x == x else -1 for x in v.tolist()]


STRIP = {"x"}


def strip(e):
    return {k: v for k, v in e.items() if k not in STRIP}


def validate(chk, cases, executor="exec_bm25", shards=6, describe=None, case_timeout=120, env=None, obs=None):
    """Run the cases, validate them in two phases, record violations."""
    if obs is None:
        obs = chk.execute(executor, cases, shards=shards, case_timeout=case_timeout, env=env)
    traces = []
    for case, os_ in zip(cases, obs):
        ev = []
        for e, o in zip(case["ev"], os_):
            e2 = strip(e)
            if e["op"] in ("save", "attach", "retrieve"):
                e2["codes"] = o.pop("codes", [])
                e2["wcodes"] = o.pop("wcodes", [])
                e2["passed"] = bool(e["x"].get("corpus"))
            o2 = {k: v for k, v in o.items() if k not in ("scores", "msg", "got")}
            e2["obs"] = o2
            ev.append(e2)
        traces.append({"ev": ev})
    chk.log(f"executed {len(cases)} histories, {sum(len(t['ev']) for t in traces)} events")
    bad, exp = chk.validate("RetrieverTrace", traces, env={"PHASE": "A"})
    chk.log("phase A done")
    trees = None
    for x in exp:
        if "trees" in x:
            trees = x["trees"]
    n_num = 0
    for x in exp:
        if "trees" in x:
            continue
        case, t = cases[x["c"] - 1], traces[x["c"] - 1]
        e, o = case["ev"][x["l"] - 1], obs[x["c"] - 1][x["l"] - 1]
        te = t["ev"][x["l"] - 1]
        tree = trees[x["tree"][0]][x["tree"][1]]
        par = case["par"][e["r"]]
        par, dtype = {k: float(par[k]) for k in ("k1", "b", "delta")}, par["dtype"]
        m = e["x"].get("mask")
        w = None if m is None else np.array(m["w"], dtype=m.get("dtype", "float64")).astype(float)
        rows = []
        for row in x["rows"]:
            E, tol = expected(tree, row, par, dtype)
            if not np.all(np.isfinite(E)):
                raise MachineryError(f"expectation is not finite: {par} {row} {E}")
            if w is not None:
                tol = tol * np.abs(w) + 8 * EPS[dtype] * np.abs(E * w) + 1e-300
                E = E * w
            rows.append((E, tol))
        n_num += 1
        if e["op"] == "score":
            E, tol = rows[0]
            te["num"] = {"dev": dev(o["scores"], E, tol) if len(o["scores"]) == len(E) else []}
        else:
            nr = []
            for i, (E, tol) in enumerate(rows):
                pos = [p if -1 <= p <= len(E) else -1 for p in (o["pos"][i] if i < len(o["pos"]) else [])]
                pos = np.array(pos, dtype=int)
                sc = o["scores"][i] if i < len(o["scores"]) else []
                if len(pos) == len(sc) and np.all((pos >= 0) & (pos < len(E))):
                    d = dev(sc, E[pos], tol[pos])
                else:
                    d = [10 ** 6]
                nr.append({"dev": d, "rank": ranks(E, tol), "ord": exact_ranks(sc)})
            te["num"] = {"rows": nr}
    for t in traces:  # requests without numbers (refused, failed)
        for e in t["ev"]:
            if e["op"] in ("score", "retrieve") and "num" not in e:
                e["num"] = {"rows": [], "dev": []}
    if n_num:
        badB, _ = chk.validate("RetrieverTrace", traces, env={"PHASE": "B"})
    else:
        badB = bad
    chk.log(f"phase B done, {n_num} numeric events")
    chk.extra["scoring_requests_compared"] = chk.extra.get("scoring_requests_compared", 0) + n_num
    for b in badB:
        case = cases[b["c"] - 1]
        e, o = case["ev"][b["l"] - 1], obs[b["c"] - 1][b["l"] - 1]
        for name in sorted(b["bad"]):
            sig = f"{name} [{case.get('tag', '')}/{e['op']}]"
            desc = f"event {b['l']} {short(e)} -> {short(o)}"
            chk.violation(sig, desc, {"case": case, "event": b["l"], "clauses": b["bad"],
                                      "observed": obs[b["c"] - 1]})
    if cases:
        chk.sample({"tag": cases[0].get("tag"), "events": [short(strip(e)) for e in cases[0]["ev"]][:8]})
    return obs


def short(x, n=300):
    s = repr(x)
    return s if len(s) <= n else s[:n] + "..."
