"""C09: crashes during a save."""
from gen import G, METHODS

DOCS = ["plain", "é\u2028\u0085", 'q"\\', "", "line\nbreak", "日本語", "x" * 300]


def c09_case(g, i, thorough):
    rng = g.rng
    nv = rng.choice([2, 2, 3])
    ndocs, ntok = rng.randint(1, 6), rng.randint(1, 6)
    names = {}
    if i % 4 == 3:
        names = rng.choice([dict(data_name="d", indices_name="i", indptr_name="p", nnoc_name="n", vocab_name="v", params_name="meta",
                                 corpus_name="docs"),
                            dict(params_name="a.json", corpus_name="c.x.jsonl"), dict(vocab_name="vocab.txt", nnoc_name="nn.npy")])
    withcorpus = rng.random() < 0.6
    same_shape = rng.random() < 0.6
    versions = []
    base = None
    for v in range(nv):
        m, idf, p = g.params(rng.choice(METHODS))
        p.pop("dtype")
        dtype = "float32" if same_shape else rng.choice(["float32", "float64"])
        kw = dict(p, method=m, idf_method=idf, dtype=dtype)
        if base is not None and rng.random() < 0.3:
            # same parameters, other documents; or same documents, other parameters
            kw = dict(versions[0]["kw"])
        n, V = (ndocs, ntok) if same_shape else (rng.randint(1, 7), rng.randint(1, 7))
        if base is not None and same_shape and rng.random() < 0.7:
            docs = [[(t + v) % ntok for t in d] for d in base] if rng.random() < 0.5 else base
        else:
            docs = [[rng.randrange(V) for _ in range(rng.randint(0, 5))] for _ in range(n)]
            docs[rng.randrange(n)].append(rng.randrange(V))
        base = base or docs
        renamed = rng.random() < 0.5
        toks = [("t%d%s" % (k, "abc"[v] if renamed else "")) for k in range(max(ntok, V))]
        corpus = [rng.choice(DOCS) + ("abc"[v] if rng.random() < 0.7 else "") for _ in docs]
        if rng.random() < 0.3:
            corpus = [{"k": c, "v": v} for c in corpus]
        versions.append(dict(kw=kw, docs=docs, toks=toks, corpus=corpus))
    ev = []
    done = None
    for j in range(rng.choice([2, 2, 3, 4])):
        v = 1 + (j % nv) if j < nv else rng.randint(1, nv)
        e = dict(op="save", v=v, interrupt=bool(j and rng.random() < 0.4), frac=rng.random(), viammap=False)
        if done is not None and rng.random() < 0.25:
            e.update(v=done, viammap=True, interrupt=False)
        ev.append(e)
        done = None if e["interrupt"] else e["v"]
    return dict(ev=ev, x=versions, names=names, withcorpus=withcorpus, dense=thorough, tag=f"saves {i}")


def C09(chk):
    chk.assumptions += ["a process death leaves the completed system calls and a prefix of the file being written",
                        "one process saves into a directory at a time"]
    chk.model_check("Persist", chk.scale("Persist", "PersistDeep"))
    chk.model_check("Persist", "PersistBadLast", expect_violation="Recovery")
    chk.model_check("Persist", "PersistBadFirst", expect_violation="Recovery")
    g = G(chk.seed * 1000 + 9)
    n = chk.scale(160, 1200)
    cases = [c09_case(g, i, chk.thorough) for i in range(n)]
    obs = []
    for lib, env in (("orjson", {}), ("builtin", {"NO_ORJSON": "1"})):
        part = cases[::2] if lib == "orjson" else cases[1::2]
        obs += chk.judge("PersistTrace", part, "exec_persist", env=env, cls=lambda c, e: f"{lib}, version {e['v']}")
    cr = [z for o in obs for e in o for z in e.get("crashes", [])]
    chk.extra["crash_states"] = len(cr)
    chk.extra["crash_states_loading"] = sum(any(l["ok"] for l in z["loads"]) for z in cr)
    chk.extra["failed_saves"] = sum(len(e.get("errors", [])) for o in obs for e in o)
