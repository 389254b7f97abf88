"""C26: loading runs no code from the files of an index."""
from gen import G, METHODS
from core import MachineryError

ARRAYS = ["data", "indices", "indptr", "nnoc"]
FILES = ARRAYS + ["vocab", "params", "corpus", "mmindex", "tokvocab", "tokstop"]


def histories(chk, num):
    rc, out = chk.tlc("LoadSafety", "LoadSafetyEmit", workers=1, timeout=300, args=["-simulate", f"num={num}", "-depth", "20", "-seed", str(chk.seed)])
    last = {}
    for h in chk.prints(out, "CASE"):
        last[str(h[:-1])] = h
    if len(last) < 0.5 * num:
        raise MachineryError(f"only {len(last)} histories\n" + out[-1000:])
    chk.extra["histories_from_model"] = len(last)
    return list(last.values())


def make(g, h, method=None):
    rng = g.rng
    m = method or rng.choice(METHODS)
    words = ["a", "b", "stop", "c", "é", "w1"]
    docs = [[rng.choice(words) for _ in range(rng.randint(1, 5))] for _ in range(rng.randint(1, 5))]

    def ev(s):
        e = dict(s, x=dict(salt=rng.randrange(10**6), hub=rng.random() < 0.4, aspath=rng.random() < 0.4))
        if s["op"] == "tamper":
            e["x"].update(raw=rng.random() < 0.3, expr=rng.random() < 0.4, n=rng.choice([1, 1, 3]), protocol=rng.choice([0, 2, 4]))
        if s["op"] == "save":
            e["x"]["allow"] = rng.random() < 0.3
            e["corpus"] = rng.random() < 0.5
        return e
    first = ev(dict(op="save", f="", r=None))
    first["corpus"], first["x"]["hub"] = True, False
    evs = [first] + [ev(s) for s in h]
    for e in evs:
        if e["op"] != "load":
            e["r"] = 0
    return dict(ev=evs, needs=m in ("bm25l", "bm25+") , x=dict(method=m, docs=docs), tag="pickle")


def C26(chk):
    chk.assumptions += ["what a reader does about a pickle where JSON is expected is not settled, as long as no code runs",
                        "the code in a pickle is represented by a payload that creates a file"]
    chk.model_check("LoadSafety", "LoadSafetyDeep" if chk.thorough else "LoadSafety")
    chk.model_check("LoadSafety", "LoadSafetyBad", expect_violation="NoCode")
    g = G(chk.seed * 1000 + 26)
    req = [dict(scope=s, mmap=m, allow=a, vocab=v, corpus=c) for s in ("load", "scores", "hub", "tokenizer") for m in (False, True) for a in (False, True)
           for v in (True, False) for c in (False, True)
           if (s == "load" or v) and not (c and s in ("tokenizer", "scores")) and not (s == "tokenizer" and (m or a))]
    hs = []
    for f in FILES:
        for r in req:
            t = dict(op="tamper", f=f, r=None)
            l = dict(op="load", f="", r=r)
            hs.append(([t, l, dict(l, r=dict(r, allow=False)), dict(op="save", f="", r=None), l], "lucene"))
            if f == "nnoc":
                hs.append(([t, l, l], "bm25l"))
                hs.append(([t, l], "bm25+"))
    cases = [make(g, h, m if f else None) for h, m in hs for f in [m != "lucene" or g.rng.random() < 0.3]]
    cases += [make(g, h) for h in histories(chk, chk.scale(400, 4000))]
    chk.judge("LoadSafetyTrace", cases, "exec_pickle", cls=lambda c, e: e["op"] + (":" + e["r"]["scope"] + (":allow" if e["r"]["allow"] else "") if e["op"] == "load" else ""))
