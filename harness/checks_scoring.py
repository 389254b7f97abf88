"""Checks of scoring, indexing and retrieval against Scoring/Retriever (RetrieverTrace)."""
from gen import G, History, METHODS, STR_FORMS, ID_FORMS
import retr


def huge(h, n, form="tokens", rs=("r",)):
    """More documents than small integer types can number; the tokens 4 to 6 only occur at positions where
    those types end. Returns queries for them."""
    rng = h.g.rng
    docs = [[1] if d % 3 else [2, 3] if d % 5 else [] for d in range(n)]
    marks = [p for p in (127, 128, 255, 256, 32767, 32768, 65535, 65536) if p < n] + [n - 1, n // 2, 3]
    for p in marks:
        docs[p] = docs[p] + [rng.choice([4, 5])] * rng.randint(1, 3) + [6]
    docs[n - 2] = [4, 5]
    idx = h.index(rs[0], docs, form=form)
    for r in rs[1:]:
        h.add(**dict(idx, r=r))
        h.st[r].update({k: h.st[rs[0]][k] for k in ("docs", "extra", "form", "has_empty", "known")})
    return [[4], [5], [4, 5], [6, 6, 4]]


def C01(chk):
    chk.model_check("MCScoring", chk.scale("MCScoring", "MCScoringDeep"))
    chk.model_check("MCScoring", "MCScoringBadDf0", expect_violation="NeutralTokens")
    g = G(chk.seed)
    cases = []
    # every combination of tf method and idf method, both dtypes, several corpora
    for rep in range(chk.scale(3, 30)):
        for m in METHODS:
            for i in METHODS:
                n = g.rng.choice([1, 2, 3, 5, 8, 13])
                V = g.rng.choice([1, 2, 4, 8, 15])
                h = History(g, g.toks(V + 3), f"{m}/{i}")
                h.new("r", m, i)
                h.index("r", g.docs(n, V), form=g.rng.choice(["tokens", "tokens", "pair", "tokenized", "idlists"]))
                for _ in range(5):
                    h.score("r", api=g.rng.choice(["", "ids"]))
                for _ in range(2):
                    h.retrieve("r")
                cases.append(h.case)
    # sizes: long documents, high term frequencies, large vocabularies, many documents
    for m in METHODS:
        dt = g.rng.choice(["float32", "float64"])
        h = History(g, g.toks(12), f"large-tf/{m}")
        h.new("r", m, dtype=dt)
        docs = [[1] * g.rng.choice([256, 300, 1000]) + [2] * g.rng.randint(0, 3), [1, 2], [3] * 70000 + [5], [2, 3]]
        h.index("r", docs, form=g.rng.choice(["tokens", "pair"]))
        for q in ([1], [1, 1, 2], [3], [2] * 40, [4], [5]):
            h.score("r", q, "str")
        cases.append(h.case)
        h = History(g, g.toks(12), f"long-query/{m}")
        h.new("r", m, dtype=dt)
        h.index("r", [[1, 2], [2, 2, 3], [5, 1], [7]], form=g.rng.choice(["tokens", "pair"]))
        q = g.rng.choices([1, 2, 3, 9], k=1200) + [5] * 20 + g.rng.choices([2, 6, 5], k=1200)
        h.score("r", q, "str")
        h.retrieve("r", [q, [1]], k=2, rep="str")
        cases.append(h.case)
        h = History(g, g.toks(12), f"many-docs/{m}")
        h.new("r", m, dtype=dt)
        n = chk.scale(2000, 20000)
        h.index("r", g.docs(n, 9, maxlen=6), form=g.rng.choice(["tokens", "tokenized"]))
        for _ in range(3):
            h.score("r")
        h.retrieve("r", k=10, nq=2)
        cases.append(h.case)
        for kk in (1.5, 1000.0):  # tokens of (almost) every document: tiny frequencies' weights
            h = History(g, g.toks(12), f"common-tokens/{m}")
            h.new("r", m, dtype=dt, k1=kk, b=g.rng.choice([0.75, 1]))
            h.index("r", [[1] * g.rng.choice([1, 1, 2]) + ([2] if d else []) + ([3] if d > 3 else []) + [g.rng.randint(4, 6)] * (d % 3)
                          for d in range(chk.scale(900, 4000))], form=g.rng.choice(["tokens", "tokenized"]))
            for q in ([1], [2], [3], [1, 2, 3], [1, 4]):
                h.score("r", q, "str")
            cases.append(h.case)
        h = History(g, g.toks(8), f"huge/{m}")
        h.new("r", m, dtype=dt)
        for q in huge(h, g.rng.choice([33001, 66001]), g.rng.choice(["tokens", "tokenized"]))[:chk.scale(2, 4)]:
            h.score("r", q, "str")
        h.retrieve("r", [[4, 5]], k=5, rep="str")
        cases.append(h.case)
        h = History(g, ["", "lastone"] + ["v%d" % i for i in range(40000)], f"large-vocab/{m}")
        h.new("r", m, dtype=dt)
        docs = [list(range(2, 40002, 2)), list(range(3, 40002, 2)) + [1], [1, 2, 2, 40001]]
        h.index("r", docs, form=g.rng.choice(["tokens", "pair"]))
        for q in ([1], [40001, 2], [33000, 33001, 20, 1]):
            h.score("r", q, "str")
        cases.append(h.case)
    retr.validate(chk, cases)


def C02(chk):
    chk.model_check("MCScoring", "MCScoringRename")
    chk.model_check("MCScoring", "MCScoringNeutral")
    g = G(chk.seed)
    rng = g.rng
    cases = []
    for rep in range(chk.scale(60, 600)):
        V = rng.choice([1, 2, 3, 6, 12, 30])
        n = rng.choice([1, 1, 2, 4, 9])
        m, i, p = g.params()
        if rep % 3 == 0:
            m = rng.choice(["bm25l", "bm25+"])
            i = m
            p["k1"] = max(p["k1"], 0.5)
        docs = g.docs(n, V)
        if rep % 12 == 5:
            docs = [[] for _ in range(n)]
        if rep % 10 == 7:
            docs = [[rng.choice([0, t]) if rng.random() < 0.2 else t for t in d] for d in docs]  # "" is a token too
        used = sorted({t for d in docs for t in d})
        h = History(g, g.toks(V + 4), "forms")
        qs = []
        forms = ["tokens"] + rng.sample(STR_FORMS[1:], 2) + ["idlists", "idlists"] + rng.sample(ID_FORMS[1:], 2) + [
            rng.choice(ID_FORMS[1:])]
        if 0 in used:  # documents of token IDs have no empty token
            forms = [f for f in forms if f != "idlists"]
        rng.shuffle(forms)
        for j, f in enumerate(forms):
            r = f"r{j}"
            h.new(r, m, i, **p)
            h.index(r, docs, form=f, style="gaps" if f == "idlists" and rng.random() < 0.5 else None)
        known = [t for t in used if t]
        unk = [t for t in h.T if t not in used]
        queries = [g.query(known, unk, allow_empty=False) for _ in range(3)] + [[0]]
        for j, f in enumerate(forms):
            r = f"r{j}"
            for q in queries:
                if f == "idlists" and 0 not in used:
                    q = [t for t in q if t]
                    if not q:
                        continue
                h.score(r, q, "int" if f == "idlists" else rng.choice(["str", "str", "int"]))
            if n > 0:
                h.retrieve(r, [q for q in queries if f != "idlists" or 0 in used or q != [0]] or [[1]],
                           rep="int" if f == "idlists" else None)
        # the retrievers of all forms still answer alike when the last one was built
        cases.append(h.case)
    # vocabulary larger than any small integer type, single documents, tokens of other types
    for f in ("tokens", "pair", "tokenized", "idlists"):
        h = History(g, [""] + ["v%d" % i for i in range(70000)], f"large-vocab/{f}")
        h.new("r", rng.choice(METHODS), k1=1.2)
        docs = [list(range(1, 70001, 2)), list(range(2, 70001, 2)) + [5], [69999, 40000]]
        h.index("r", docs, form=f, style="dense")
        for q in ([1], [69999, 2], [33000, 40000, 20, 5]):
            h.score("r", q, "int" if f == "idlists" else "str")
        cases.append(h.case)
    retr.validate(chk, cases)


def C04(chk):
    chk.model_check("MCScoring", "MCScoringNeutral")
    g = G(chk.seed)
    rng = g.rng
    cases = []
    for rep in range(chk.scale(70, 700)):
        V = rng.choice([1, 2, 4, 8, 20])
        n = rng.choice([1, 2, 3, 6, 12])
        h = History(g, g.toks(V + 5), "reps")
        backend = "numpy"
        m = rng.choice(METHODS)
        h.new("r", m)
        docs = g.docs(n, V)
        if rep % 9 == 4:
            docs = [[rng.choice([0, t]) if rng.random() < 0.3 else t for t in d] for d in docs]
        form = rng.choice(["tokens", "tuples", "pair", "tokenized", "object", "idlists"])
        if form == "idlists":  # documents of token IDs have no empty token
            docs = [[t or 1 for t in d] for d in docs]
        h.index("r", docs, form=form)
        known, unk = h.pools("r")
        base = [g.query(known, unk, p_unknown=0.35) for _ in range(3)]
        kind = rep % 7
        if kind == 0:
            base = [[rng.choice(unk)], [rng.choice(unk), rng.choice(unk)]]   # unknown only
        elif kind == 1:
            base = [[0], [0, 0] + g.query(known, [], allow_empty=False)]     # the empty token
        elif kind == 2:
            base = [g.query(known, unk, allow_empty=False), []]
        elif kind == 3:
            base = [[], [], g.query(known, unk, allow_empty=False)]
        if any(0 in d for d in docs):  # documents may contain the empty token
            base = base[:2] + [[0], [0, 0], [0] + g.query(known, unk)]
        if rep % 14 == 6:  # long queries, known tokens at both ends
            base = [rng.choices(known * 8 + unk, k=rng.choice([1500, 2000])) + [rng.choice(known)], [rng.choice(known)] * 300] if known else base
        k = rng.randint(1, n)
        reps = h.reps("r") * (2 if form == "idlists" else 1)
        for r_ in reps:
            h.retrieve("r", base, k=k, rep=r_)
            if r_ == "int":
                # IDs just beyond the vocabulary, negative IDs, huge IDs
                for u in ([0], [-1, -2], [10 ** 6], [1]):
                    h.retrieve("r", [[rng.choice(unk)] + (rng.choice(base)), [rng.choice(unk)]], k=k, rep="int", unk=u)
        for q in base:
            if q and form != "idlists":
                h.score("r", q, "str", api=rng.choice(["", "ids"]))
        # the same tokens, with unknown ones in between, in all representations
        q = g.query(known, [], allow_empty=False)
        for r_ in reps:
            q2 = list(q)
            for _ in range(rng.randint(0, 3)):
                q2.insert(rng.randint(0, len(q2)), rng.choice(unk))
            h.retrieve("r", [q2, q], k=k, rep=r_, qbase=0 if r_ == "tokenized" else rng.choice([0, 5]))
        # the same objects of the caller, filled with other tokens (as many as before, or not)
        if form != "idlists":
            vs = rng.sample(known + unk, min(len(known + unk), rng.choice([1, 2, 3])))
            for j in range(rng.randint(2, 4)):
                r_ = rng.choice(["tokenized", "pair"])
                h.retrieve("r", [list(vs), [vs[0]]], k=k, rep=r_, qshare=True)
                if rng.random() < 0.3:
                    h.retrieve("r", [[rng.choice(known + unk)]], k=k, rep=r_)
                vs = rng.sample(known + unk, len(vs) if rng.random() < 0.8 else 1)
        cases.append(h.case)
    retr.validate(chk, cases)


def C05(chk):
    chk.model_check("Batch", chk.scale("Batch", "BatchDeep"))
    chk.model_check("Batch", "BatchBadOrder", expect_violation="NoForeignRow")
    chk.model_check("Batch", "BatchBadScratch", expect_violation="NoForeignRow")
    out = chk.model_check("Batch", "BatchEmit", count=False)
    orders = []
    for o in chk.prints(out, "CASE"):
        if o not in orders:
            orders.append(o)
    chk.extra["schedules_from_model"] = len(orders)
    g = G(chk.seed)
    rng = g.rng
    cases = []
    threads = [0, 1, 2, 3, 7, -1]

    def setup(tag, backend="numpy", dtype=None, m=None, n=None):
        V = rng.choice([3, 6, 12])
        n = n or rng.choice([2, 4, 7, 15])
        h = History(g, g.toks(V + 5), tag)
        h.new("r", m or rng.choice(METHODS), backend=backend, dtype=dtype)
        h.index("r", g.docs(n, V, style=rng.choice(["uniform", "dup", "common", "empties"])),
                form="tokens" if backend == "numba" else rng.choice(["tokens", "pair", "tokenized"]))
        return h, n
    # every completion order of the model, forced in the real thread pool
    h = None
    for j, o in enumerate(sorted(orders, key=lambda o: (len(o["order"]), o["order"], o["w"]))):
        if j % 8 == 0:
            if h:
                cases.append(h.case)
            h, n = setup("schedule")
        known, unk = h.pools("r")
        qs = [g.query(known, unk, p_empty=0) for _ in o["order"]]
        h.retrieve("r", qs, k=rng.randint(1, n), rep="str", n_threads=o["w"], chunksize=o["ch"], gate=o["order"],
                   alone=True, backend_selection=rng.choice(["numpy", "auto"]))
    cases.append(h.case)
    # batches with empty, unknown, duplicated queries in every position, all representations
    for rep in range(chk.scale(40, 400)):
        h, n = setup("batch")
        known, unk = h.pools("r")
        for _ in range(4):
            pool = [[], [rng.choice(unk)], g.query(known, unk, allow_empty=False), g.query(known, unk, allow_empty=False),
                    [0]]
            nq = rng.choice([1, 2, 3, 4, 6])
            qs = [rng.choice(pool) for _ in range(nq)]
            r_ = rng.choice(["str", "int", "tokenized", "pair", "tuple", "int"])
            qs = h.fix_q("r", r_, qs)
            alone = not (r_ == "tuple" and [] in qs)
            x = dict(n_threads=rng.choice(threads), chunksize=rng.choice([1, 2, 3, 50]))
            h.retrieve("r", qs, k=rng.randint(1, n), rep=r_, alone=alone, **x,
                       backend_selection=rng.choice(["numpy", "auto", "jax"]),
                       mask=g.weights(n) if rng.random() < 0.2 else None)
        cases.append(h.case)
    # the worker threads are interrupted at random places inside the library
    for rep in range(chk.scale(12, 120)):
        h, n = setup("preempted")
        known, unk = h.pools("r")
        for _ in range(4):
            pool = [g.query(known, unk) for _ in range(5)] + [[], [rng.choice(unk)]]
            qs = [rng.choice(pool) for _ in range(rng.choice([3, 6, 12]))]
            r_ = rng.choice(["str", "int", "tokenized", "pair"])
            h.retrieve("r", h.fix_q("r", r_, qs), k=rng.randint(1, n), rep=r_, n_threads=rng.choice([2, 3, 8, -1]), chunksize=rng.choice([1, 1, 2]),
                       preempt=dict(seed=rng.randrange(10 ** 6), p=rng.choice([0.05, 0.2, 0.5]), opcodes=rng.random() < 0.5),
                       backend_selection=rng.choice(["numpy", "auto"]),
                       mask=g.weights(n) if rng.random() < 0.3 else None)
        cases.append(h.case)
    # large batches over all thread counts
    for rep in range(chk.scale(3, 20)):
        h, n = setup("large-batch", n=rng.choice([20, 60]))
        known, unk = h.pools("r")
        qs = [g.query(known, unk) for _ in range(chk.scale(150, 400))]
        for t in (0, 2, 5, 16, -1):
            h.retrieve("r", qs, k=rng.randint(1, 8), rep="str", n_threads=t, chunksize=rng.choice([1, 7, 50, 1000]),
                       backend_selection="numpy", alone=(t == 5))
        cases.append(h.case)
    # the numba backend: parallel loop over the queries
    nb = []
    for rep in range(chk.scale(4, 8)):
        h, n = setup("numba", backend="numba", dtype="float32", m=["lucene", "bm25+"][rep % 2])
        known, unk = h.pools("r")
        for _ in range(chk.scale(6, 30)):
            pool = [[], [rng.choice(unk)], g.query(known, unk, allow_empty=False), g.query(known, unk), [0]]
            qs = [rng.choice(pool) for _ in range(rng.choice([1, 2, 3, 5, 40]))]
            r_ = rng.choice(["str", "int", "tokenized"])
            h.retrieve("r", h.fix_q("r", r_, qs), k=rng.randint(1, n), rep=r_, alone=len(qs) < 6,
                       n_threads=rng.choice(threads))
        nb.append(h.case)
    # more tokens in the batch than small integers count
    for rep in range(chk.scale(1, 4)):
        h, n = setup("numba-long", backend="numba", dtype="float32", m="lucene", n=3)
        known, unk = h.pools("r")
        qs = [[rng.choice(known) for _ in range(rng.choice([0, 1, 330]))] for _ in range(chk.scale(360, 700))]
        h.retrieve("r", h.fix_q("r", "int", qs), k=2, rep="int", n_threads=rng.choice([0, 4]))
        nb.append(h.case)
    retr.validate(chk, cases)
    retr.validate(chk, nb, shards=2)


def interleave(groups):
    """Round-robin over the groups, so that shard i of len(groups) runs group i."""
    m = max(map(len, groups))
    out = []
    for j in range(m):
        for gr in groups:
            out.append(gr[j % len(gr)] if j >= len(gr) else gr[j])
    return out


def C06(chk):
    chk.model_check("MCTopK", chk.scale("MCTopK", "MCTopKDeep"))
    g = G(chk.seed)
    rng = g.rng
    groups = []
    for dtype in ("float32", "float64"):
        for nn in (False, True):
            for md in (("float64", "bool") if dtype == "float32" else ("float64", "int64")):
                gr = []
                for rep in range(chk.scale(5, 40)):
                    m = rng.choice(["bm25l", "bm25+"] if nn else METHODS[:3])
                    V = rng.choice([2, 4, 8, 20])
                    n = rng.choice([1, 2, 5, 9, 40])
                    h = History(g, g.toks(V + 4), f"numba/{dtype}/{'nn' if nn else 'plain'}/{md}")
                    m, i, p = g.params(m, None, dtype)
                    docs = g.docs(n, V, style=rng.choice(["uniform", "dup", "common", "empties", "zipf"]))
                    form = rng.choice(["tokens", "pair", "tokenized", "idlists"])
                    for r, b in (("np", "numpy"), ("nb", "numba"), ("act", "numpy")):
                        h.new(r, m, i, backend=b, **p)
                    idx = h.index("np", docs, form=form)
                    for r in ("nb", "act"):
                        h.add(**dict(idx, r=r))
                        h.st[r].update({k: h.st["np"][k] for k in ("docs", "extra", "form", "has_empty", "known")})
                    h.activate("act")
                    if rng.random() < 0.3:
                        h.activate("nb")
                    known, unk = h.pools("np")
                    for _ in range(chk.scale(4, 6)):
                        qs = [g.query(known, unk, p_empty=0.2) for _ in range(rng.choice([1, 2, 3, 6]))]
                        r_ = rng.choice(h.reps("np"))
                        qs = h.fix_q("np", r_, qs)
                        mask = None
                        if rng.random() < 0.6:
                            mask = dict(g.weights(n, rng.choice(["frac", None, None, "neg", "allneg"])), dtype=md)
                            if md == "bool":
                                mask["w"] = [bool(v) for v in mask["w"]]
                            elif md == "int64":
                                mask["w"] = [int(v) for v in mask["w"]]
                        kw = dict(qs=qs, rep=r_, k=rng.choice([1, n, rng.randint(1, n)]), sorted=rng.random() < 0.6,
                                  mask=mask, unk=[rng.choice([0, 1, -1, 10 ** 6])])
                        for r in ("np", "nb", "act"):
                            h.retrieve(r, n_threads=rng.choice([0, 1, 2, 4, -1, 64]), **dict(kw))
                    for _ in range(2):
                        e = h.score("np", mask=dict(g.weights(n), dtype="float64") if False else None)
                        if e:
                            h.add(**dict(e, r="act"))
                            h.add(**dict(e, r="nb"))
                    # the same requests are refused by all of them
                    q = [[known[0] if known else 1]]
                    rep_ = h.reps("np")[0]
                    bad = rng.choice(["k", "2d", "short", "long", "list", "return", "triple", "pairnodict", "0d"])
                    for r in ("np", "nb", "act"):
                        kw = dict(valid=False, rep=rep_, qs=q)
                        if bad == "k":
                            h.retrieve(r, k=n + rng.choice([1, 5]), **kw)
                        elif bad in ("2d", "short", "long", "list", "0d"):
                            h.retrieve(r, k=1, mask=dict(w=[1.0] * n, dtype="float64", bad=bad), **kw)
                        elif bad == "return":
                            h.retrieve(r, k=1, return_as="dict", **kw)
                        else:
                            h.retrieve(r, k=1, bad=bad, **kw)
                        h.retrieve(r, q, k=1, rep=rep_)
                    gr.append(h.case)
                h = History(g, g.toks(8), f"numba-huge/{dtype}/{'nn' if nn else 'plain'}/{md}")
                for r, b in (("nb", "numba"), ("act", "numpy")):
                    h.new(r, "bm25+" if nn else "lucene", backend=b, dtype=dtype)
                n = rng.choice([33001, 66001])
                qs = huge(h, n, rng.choice(["tokens", "pair"]), rs=("nb", "act"))
                h.activate("act")
                w = [0.5 if j % 2 else 1.0 for j in range(n)] if md == "float64" else [j % 2 for j in range(n)]
                mask = dict(w=[bool(v) for v in w] if md == "bool" else w, dtype=md)
                for r in ("nb", "act"):
                    h.retrieve(r, qs, k=7, rep="str", n_threads=2)
                    h.retrieve(r, [[6, 5], []], k=12, rep="str", mask=mask)
                gr.append(h.case)
                groups.append(gr)
    cases = interleave(groups)
    retr.validate(chk, cases, shards=len(groups))


def C07(chk):
    chk.model_check("MCScoring", "MCScoringMask")
    chk.model_check("MCScoring", "MCScoringBadMask", expect_violation="MaskMultipliesFinalScore")
    g = G(chk.seed)
    rng = g.rng
    cases = []

    def build(tag, backend, m, dtype=None):
        V = rng.choice([2, 4, 8])
        n = rng.choice([1, 2, 3, 6, 12])
        h = History(g, g.toks(V + 3), tag)
        h.new("r", m, backend=backend, dtype=dtype)
        h.index("r", g.docs(n, V), form=rng.choice(["tokens", "pair"]))
        return h, n

    BAD = ["2d", "short", "long", "list", "0d"]
    for rep in range(chk.scale(14, 120)):
        for m in METHODS:
            h, n = build(f"numpy/{m}", "numpy", m)
            if rep % 4 == 3:
                h.activate("r")
            for _ in range(4):
                w = g.weights(n)
                w.update(strided=rng.random() < 0.2, readonly=rng.random() < 0.3)
                h.retrieve("r", mask=w, n_threads=rng.choice([0, 0, 3]),
                           backend_selection=rng.choice(["numpy", "numpy", "auto", "jax"]))
                h.score("r", mask=w, api=rng.choice(["", "ids"]))
            known, unk = h.pools("r")
            h.retrieve("r", [known[:1] or [1]], k=1, rep="str", mask=dict(w=[1.0] * n, dtype="float64", bad=rng.choice(BAD)),
                       valid=False)
            h.retrieve("r")
            cases.append(h.case)
    for m in METHODS:
        h = History(g, g.toks(8), f"huge/{m}")
        h.new("r", m)
        n = rng.choice([33001, 66001])
        for q in huge(h, n)[:2]:
            w = [[0.25, 1.0, 0.0][j % 3] for j in range(n)]
            h.retrieve("r", [q, [6]], k=9, rep="str", mask=dict(w=w, dtype="float64"), backend_selection=rng.choice(["numpy", "jax", "numba"]))
        cases.append(h.case)
    retr.validate(chk, cases)
    groups = []
    for m in ("lucene", "bm25+"):
        for dtype in ("float32", "float64"):
            gr = []
            for rep in range(chk.scale(3, 20)):
                h, n = build(f"numba/{m}", "numba", m if rep % 2 == 0 else {"lucene": "atire", "bm25+": "bm25l"}[m], dtype)
                for j in range(5):
                    w = g.weights(n, rng.choice(["frac", "neg", "allneg", "one"]))
                    w["dtype"] = "float64" if rep % 3 else "float32"
                    h.retrieve("r", mask=w, n_threads=rng.choice([0, 2]))
                for b in rng.sample(BAD, 2):
                    h.retrieve("r", [[1]], k=1, rep="str", mask=dict(w=[1.0] * n, dtype="float64", bad=b), valid=False)
                gr.append(h.case)
            groups.append(gr)
    retr.validate(chk, interleave(groups), shards=4)


# ---------------------------------------------------------------------------------------------
def topk_events(chk, rng, emitted):
    """Calls of the selection functions: all small arrays of the model, and large ones."""
    ev = []

    def add(fn, a, k, dtype, sorted=True, valid=True, **x):
        from retr import exact_ranks
        import numpy as np
        arr = np.array(a, dtype=dtype)
        ev.append(dict(op="topk", fn=fn, k=k, sorted=sorted, valid=valid, rank=exact_ranks(arr),
                       x=dict(x, a=a, dtype=dtype)))
    fns = ["numpy", "jax", "numba"]
    maps = [[-1.5, 0.0, 2.0], [0.0, 1e-9, 1e30], [-3e38, -1e-38, 3e38], [-2.0, -1.0, -0.5], [1.0, 1.0 + 2 ** -23, 1.0 + 2 ** -22],
            [-0.0, 1e-40, 5.0]]
    for j, c in enumerate(emitted):
        mp = maps[j % len(maps)]
        for fn in fns:
            add(fn, [mp[v] for v in c["a"]], c["k"], "float32" if (j // 2) % 2 else "float64", sorted=bool((j + len(fn)) % 2))
    # float64 scores that float32 cannot tell apart, tiny and huge scores (in large arrays as well: small
    # ones are often sorted completely by a partition)
    for j in range(chk.scale(60, 400)):
        n = rng.choice([2, 3, 5, 17, 600, 900]) if j % 4 else rng.choice([400, 700])
        base, unit = rng.choice([(1.0, 2.0 ** -40), (-7.25, 7.25 * 2.0 ** -40), (1e8, 1e8 * 2.0 ** -40), (0.0, 1e-8), (0.0, -1e-8),
                                 (0.0, 1e-30), (0.0, 1e-300), (-3.0, 1e-7), (0.0, 1e300), (0.0, 1e36)])
        m = rng.choice([5, 5 * n])
        a = [base + rng.randint(0, m) * unit for _ in range(n)]
        for fn in fns:
            if fn == "jax" and 0 < abs(unit) <= 1e-300:  # JAX flushes subnormal numbers: not judged here
                continue
            add(fn, a, rng.choice([n, n - 1, rng.randint(1, n), min(n, 300)]), "float64", sorted=rng.random() < 0.8)
    sizes = [7, 33, 100, 257] + chk.scale([2000], [2000, 5000, 20000])
    for n in sizes:
        for style in ("random", "ties", "zeros", "asc", "desc", "neg", "spike", "negspike"):
            for dtype in ("float32", "float64"):
                if style == "random":
                    a = [rng.gauss(0, 3) for _ in range(n)]
                elif style == "ties":
                    a = [float(rng.randint(0, 3)) for _ in range(n)]
                elif style == "zeros":
                    a = [0.0] * n
                elif style == "asc":
                    a = [float(i) for i in range(n)]
                elif style == "desc":
                    a = [float(-i) for i in range(n)]
                elif style == "neg":
                    a = [-abs(rng.gauss(0, 3)) - 0.1 for _ in range(n)]
                elif style == "spike":
                    a = [0.0] * n
                    a[rng.randrange(n)] = 1.0
                else:
                    a = [0.0] * n
                    a[rng.randrange(n)] = -1.0
                for fn in fns:
                    k = rng.choice([1, 2, n, n - 1, min(n, 10), max(1, n // 2)])
                    if n > 3000:
                        k = min(k, 50)
                    add(fn, a, k, dtype, sorted=rng.random() < 0.6, readonly=rng.random() < 0.3 and fn != "numba")
    for n in (33000, 70000):  # positions beyond the small integer types
        for fn in fns:
            for k in (1, 3):
                a = [0.5] * n
                for j in [n - 1, n - 2, 5] + ([32768 + 7] if n > 33000 else []):
                    a[j] = 1.0 + j / n
                add(fn, a, k, rng.choice(["float32", "float64"]), sorted=True)
    for n in (1, 3, 6):
        for fn in fns:
            for d in (1, 2, 100):
                add(fn, [1.0] * n, n + d, "float32", valid=False)
            add(fn, [1.0] * n, n, "float32", valid=False, backend="unknown")
    return ev


def C03(chk):
    chk.model_check("MCTopK", chk.scale("MCTopK", "MCTopKDeep"))
    chk.model_check("MCTopK", "MCTopKBad", expect_violation="TopKOfPrefix")
    out = chk.model_check("MCTopK", "MCTopKEmit", count=False)
    g = G(chk.seed)
    rng = g.rng
    ev = topk_events(chk, rng, chk.prints(out, "CASE"))
    by = {}
    for e in ev:
        by.setdefault(e["fn"], []).append(e)
    cases = [dict(ev=es[i:i + 200], tag=fn) for fn, es in by.items() for i in range(0, len(es), 200)]
    chk.judge("TopKTrace", cases, "exec_topk", shards=6, cls=lambda c, e: f"{c['tag']}/{e['x']['dtype']}")
    # selection inside a retrieval
    cases = []
    for rep in range(chk.scale(30, 300)):
        V = rng.choice([2, 4, 10])
        n = rng.choice([1, 2, 3, 5, 8, 30])
        h = History(g, g.toks(V + 3), "retrieve")
        h.new("r", backend="numpy")
        h.index("r", g.docs(n, V, style=rng.choice(["dup", "uniform", "common", "zipf"])), form="tokens")
        for k in sorted({1, n, rng.randint(1, n), rng.randint(1, n)}):
            h.retrieve("r", k=k, backend_selection=rng.choice(["auto", "numpy", "jax", "numba"]),
                       mask=g.weights(n, "neg") if rng.random() < 0.25 else None)
        for b in ("auto", "numpy", "jax", "numba"):
            h.retrieve("r", [[1]], k=n + rng.choice([1, 2, 50]), rep="str", backend_selection=b, valid=False)
        cases.append(h.case)
    for rep in range(chk.scale(8, 40)):
        V = 6
        n = rng.choice([3, 9, 20, 300])
        h = History(g, g.toks(V + 3), "retrieve-numba")
        h.new("r", ["lucene", "robertson", "atire"][rep % 3], dtype="float32", backend="numba")
        h.index("r", g.docs(n, V, style=rng.choice(["dup", "uniform", "common"])), form="tokens")
        for j in range(8):
            h.retrieve("r", k=rng.choice([1, n, rng.randint(1, n)]) if n < 100 else 10,
                       mask=g.weights(n, rng.choice(["neg", "allneg"])) if j % 2 else None, sorted=rng.random() < 0.8)
        h.retrieve("r", [[1]], k=n + rng.choice([1, 2, 50]), rep="str", valid=False)
        cases.append(h.case)
    for b in ("auto", "numpy", "jax", "numba"):  # positions and numbers of results beyond the small integer types
        h = History(g, g.toks(8), f"retrieve-huge/{b}")
        h.new("r", "lucene")
        n = rng.choice([33001, 66001])
        qs = huge(h, n)
        h.retrieve("r", qs, k=rng.randint(2, 20), rep="str", backend_selection=b)
        h.retrieve("r", [qs[0]], k=rng.choice([300, 1500]), rep="str", backend_selection=b)
        cases.append(h.case)
    retr.validate(chk, cases)


def documents(rng, n, kind):
    """A corpus of n documents of one kind."""
    txt = lambda i: rng.choice(["", "doc %d" % i, "same", "naïve \u2028 x%d" % i, 'q"uote\\%d' % i, "line\nbreak %d" % i,
                                "日本 %d" % i, "\t", "x" * 300 + str(i), "nul\x00", "\x00",
                                '{"id": 7, "text": "no"}', '["a"]', "null", "{}", "%d" % i, " padded ", "\ufeffbom"])
    if kind == "str":
        return [txt(i) for i in range(n)]
    if kind == "dict":
        return [rng.choice([{"id": i, "text": txt(i), "n": [1, {"a": None}]}, {"text": txt(i)}, {"_id": "d%d" % i, "title": txt(i), "text": ""},
                            {"id": "x%d" % (n - i)}, {}]) for i in range(n)]
    if kind == "list":
        return [[txt(i), i] for i in range(n)]
    if kind == "ragged":
        return [[i] * rng.randint(0, 3) for i in range(n)]
    if kind == "int":
        return [rng.choice([i, -i, 10 ** 12 + i]) for i in range(n)]
    if kind == "bigint":
        return [rng.choice([2 ** 63 + i, -1 - i, 2 ** 70 + i, 2 ** 53 + 1, i]) for i in range(n)]
    if kind == "float":
        return [i + 0.5 for i in range(n)]
    if kind == "mixed":
        return [[txt(i), i, 0.5 + i, None, [i], {"a": i}][i % 6] for i in range(n)]
    if kind == "mixedscalar":
        return [[txt(i), i, 0.5 + i, True][i % 4] for i in range(n)]
    if kind == "list2d":
        return [[i, -i, 3] for i in range(n)] if rng.random() < 0.6 else [["t%d" % i, txt(i).replace("\0", "")] for i in range(n)]
    if kind == "pairs":
        return [[["id", i], ["text", txt(i)]] for i in range(n)]
    if kind == "same":
        return ["same"] * n


def corpora(rng, n):
    kind = rng.choice(["str", "dict", "list", "ragged", "list2d", "pairs", "int", "float", "bigint", "mixed", "mixedscalar", "same", "str", "dict"])
    items = documents(rng, n, kind)
    forms = ["list", "list", "tuple", "jsonl", "jsonl"]
    if kind in ("list", "ragged"):
        forms += ["tuples"]
    if kind in ("str", "int", "float", "same"):
        forms += ["array", "array"]
    if kind in ("str", "dict", "mixed", "ragged", "list"):
        forms += ["objarray"]
    if kind == "list2d":
        forms = ["array2d", "array2d", "list", "tuples", "jsonl"]
    if kind == "pairs":
        forms = ["list", "pairtuples", "pairtuples", "objarray", "jsonl"]
    return dict(kind=rng.choice(forms), items=items)


def C20(chk):
    chk.model_check("Batch")
    g = G(chk.seed)
    rng = g.rng
    groups = [[], []]
    for rep in range(chk.scale(120, 1000)):
        nb = rep % 5 == 4
        V = rng.choice([3, 6, 10])
        n = rng.choice([1, 2, 3, 5, 9, 25])
        h = History(g, g.toks(V + 3), "numba" if nb else "numpy")
        h.new("r", "lucene" if nb else None, dtype="float32" if nb else None, backend="numba" if nb else "numpy")
        h.index("r", g.docs(n, V, style=rng.choice(["dup", "uniform", "common", "zipf"])),
                form=rng.choice(["tokens", "pair", "tokenized"]))
        known, unk = h.pools("r")
        if rng.random() < 0.6:
            h.attach("r", corpora(rng, n))
        for _ in range(4):
            qs = [g.query(known, unk, p_empty=0.1) for _ in range(rng.choice([1, 2, 3, 4]))]
            if not any(qs):
                qs[0] = [known[0]] if known else [unk[0]]
            x = {}
            if not qs[0] or not qs[-1]:
                qs = [q or [unk[0]] for q in qs]
            if len(qs) > 1:
                x["merge"] = rng.randint(1, len(qs) - 1)
            h.retrieve("r", qs, k=rng.choice([1, n, rng.randint(1, n)]), rep=rng.choice(["str", "tokenized", "int", "pair"]),
                       corpus=corpora(rng, n) if rng.random() < 0.6 else None, both=True, **x,
                       n_threads=rng.choice([0, 0, 2]), sorted=rng.random() < 0.7,
                       **({} if nb else dict(backend_selection=rng.choice(["auto", "numpy", "jax"]))))
            if rng.random() < 0.15:  # storing a corpus with the index does not attach it
                h.save("r", "d", corpus=corpora(rng, n) if rng.random() < 0.7 else None)
        groups[0 if nb else 1].append(h.case)
    for rep in range(chk.scale(6, 30)):  # many queries in one batch
        nb = rep % 3 == 2
        n = rng.choice([4, 7, 30])
        h = History(g, g.toks(9), f"batch/{'numba' if nb else 'numpy'}")
        h.new("r", "lucene" if nb else None, dtype="float32" if nb else None, backend="numba" if nb else "numpy")
        h.index("r", g.docs(n, 8), form="tokens")
        known, unk = h.pools("r")
        for nq in rng.sample([20, 49, 50, 51, 64, 80, 100, 101], 2):
            qs = [g.query(known, unk, p_empty=0)[:6] for _ in range(nq)]
            h.retrieve("r", qs, k=rng.randint(2, n), rep=rng.choice(["str", "tokenized", "int"]), corpus=corpora(rng, n), both=True,
                       merge=rng.randint(1, nq - 1), n_threads=rng.choice([0, 2]), **({} if rep % 2 else dict(chunksize=rng.choice([1, 7, 50]))))
        groups[0 if nb else 1].append(h.case)
    for b in ("numpy", "numba"):  # documents beyond the small integer types
        h = History(g, g.toks(8), f"huge/{b}")
        h.new("r", "lucene", dtype="float32", backend=b)
        qs = huge(h, 66001)
        for kind in (["list", "jsonl"] if b == "numpy" else ["array", "tuple"]):
            h.retrieve("r", qs, k=9, rep="str", corpus=dict(kind=kind, items=["d%d" % i for i in range(66001)]), both=True)
        groups[b == "numpy"].append(h.case)
    retr.validate(chk, groups[1])
    retr.validate(chk, groups[0], shards=2)


def C21(chk):
    chk.model_check("MCScoring", "MCScoringNeutral")
    g = G(chk.seed)
    rng = g.rng
    groups = {"numpy": [], "numba": []}
    for rep in range(chk.scale(60, 500)):
        backend = "numba" if rep % 5 == 0 else "numpy"
        V = rng.choice([3, 6, 10])
        n = rng.choice([1, 2, 4, 9])
        h = History(g, g.toks(V + 3), backend)
        m = "lucene" if backend == "numba" else rng.choice(METHODS)
        h.new("r", m, backend=backend, dtype="float32" if backend == "numba" else None)
        docs = g.docs(n, V)
        h.index("r", docs, form=rng.choice(["tokens", "pair", "tokenized"]))
        known, unk = h.pools("r")
        q = [[(known or unk)[0]]]
        activated = rep % 10 in (0, 1)
        if activated:
            h.activate("r")
        h.save("r", "d")
        if rng.random() < 0.5:
            h.load("r", "d", src="r", mmap=rng.random() < 0.5)
            if activated:
                h.activate("r")
        bad = ["k", "k2", "2d", "short", "long", "list", "0d", "return", "return2", "triple", "pairnodict", "pairnoiter",
               "selection", "method", "idf", "idneg", "idbig", "idlast", "nodir", "emptydir", "otherfile", "badindex", "baditer",
               "scorestr", "scorefloat", "scoremask", "mmaparg"]
        rng.shuffle(bad)
        base = [dict(qs=[g.query(known, unk, p_empty=0)], k=rng.randint(1, n), rep="str"),
                dict(qs=[g.query(known, unk, p_empty=0), g.query(known, [], p_empty=0)], k=n, rep="int")]
        if activated:  # the scorers that cannot see their bounds themselves
            bad = ["idlast", "idneg", "idbig"] + [b for b in bad if not b.startswith("id")]
        for b in bad[:chk.scale(10, 27)]:
            kw = dict(valid=False, rep="str", qs=q)
            if b == "k":
                h.retrieve("r", k=n + 1, **kw)
            elif b == "k2":
                h.retrieve("r", k=n + rng.randint(2, 200), n_threads=rng.choice([0, 2, -1]), **dict(kw, qs=q * 3))
            elif b in ("2d", "short", "long", "list", "0d"):
                h.retrieve("r", k=1, mask=dict(w=[1.0] * n, dtype="float64", bad=b), **dict(kw, qs=rng.choice([q, q, [[]], [[], []]])))
            elif b == "return":
                h.retrieve("r", k=1, return_as=rng.choice(["dict", "Tuple", "", "scores"]), **kw)
            elif b == "return2":
                h.retrieve("r", k=1, return_as="list", n_threads=2, **kw)
            elif b in ("triple", "pairnodict", "pairnoiter"):
                h.retrieve("r", k=1, bad=b, **kw)
            elif b == "selection":
                h.retrieve("r", k=1, backend_selection=rng.choice(["torch", "cupy", "Numpy"]), **kw)
            elif b in ("method", "idf"):
                # refused when it is set or when it is used
                nm = rng.choice(["bm25", "BM25L", "tfidf", "lucene "])
                h.add(op="new", r="x", method="lucene", idf="lucene",
                      x=dict(method=nm) if b == "method" else dict(method="lucene", idf_method=nm), maybe=True)
                h.add(op="index", r="x", docs=docs, extra=[], valid=False, x=dict(form="tokens"))
            elif b == "idneg":
                h.score("r", [known[0]] if known else [], "int", valid=False, bad="rawid", raw=rng.choice([-1, -2, -1000]))
            elif b == "idbig":
                h.score("r", [known[0]] if known else [], "int", valid=False, bad="rawid", raw=rng.choice([2, 5, 10 ** 6]))
            elif b == "idlast":
                h.score("r", [], "int", valid=False, bad="rawid", raw=1)
            elif b in ("nodir", "emptydir", "otherfile"):
                h.load("y", b, valid=False, prepare=b, mmap=rng.random() < 0.5)
            elif b == "mmaparg":
                h.load("y", "d", valid=False, mmap="r")
            elif b == "badindex":
                h.index("r", docs, form="tokens", valid=False, bad=rng.choice(["int", "none"]))
            elif b == "baditer":
                h.index("r", docs, form="pair", valid=False, bad="pairbad")
            elif b == "scorestr":
                h.score("r", [1], "str", valid=False, bad="str")
            elif b == "scorefloat":
                h.score("r", [1], "str", valid=False, bad="floats")
            elif b == "scoremask":
                if n > 1:
                    h.score("r", [(known or unk)[0]], "str", valid=False,
                            mask=dict(w=[1.0] * n, dtype="float64", bad=rng.choice(["short", "long"])) if n > 2 else
                            dict(w=[1.0] * n, dtype="float64", bad="long"))
            kw = dict(rng.choice(base))
            h.retrieve("r", n_threads=rng.choice([0, 2]), **kw)
            if rng.random() < 0.5:
                h.score("r", kw["qs"][0], "str")
        groups[backend].append(h.case)
    retr.validate(chk, groups["numpy"])
    retr.validate(chk, groups["numba"], shards=2)
