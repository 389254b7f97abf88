"""Checks of the life cycle of retrievers: snapshots, re-indexing, saving and loading."""
from gen import G, History, METHODS
import retr

BADINDEX = ["midfail", "unhashable", "none", "int", "badneg", "badhuge", "pairbad", "objbad"]


def model(chk):
    chk.model_check("Lifecycle", chk.scale("Lifecycle", "LifecycleDeep"))
    if chk.thorough:
        chk.model_check("Lifecycle", "LifecycleDeep3")


def histories(chk, num, depth=None):
    """Histories generated from the model by TLC's simulator."""
    rc, out = chk.tlc("Lifecycle", "LifecycleEmit", workers=1, timeout=300,
                      args=["-simulate", f"num={num}", "-depth", "13", "-seed", str(chk.seed)])
    last = {}
    for h in chk.prints(out, "CASE"):
        last[str(h[:-1])] = h
    hs = list(last.values())
    if len(hs) < num * 0.9:
        from core import MachineryError
        raise MachineryError(f"only {len(hs)} histories generated\n{out[-2000:]}")
    chk.extra["histories_from_model"] = chk.extra.get("histories_from_model", 0) + len(hs)
    return hs


class Player:
    """Concretizes the actions of the model."""

    def __init__(self, g, tag, method=None, dtype=None, backend="numpy", kinds=("lists", "vocab", "tokenizer")):
        self.g, self.rng = g, g.rng
        V = self.rng.choice([4, 7, 10])
        self.V = V
        self.h = History(g, g.toks(V + 6, weird=False), tag)
        self.live = []
        m, i, p = g.params(method, None, dtype)
        self.variant = (m, i, dict(p, backend=backend))
        self.kind = {}
        self.kinds = kinds
        self.n = {}

    def docs(self):
        rng = self.rng
        n = rng.choice([1, 2, 3, 5, 8])
        lo = rng.randint(0, 3)
        ds = self.g.docs(n, self.V, style=rng.choice(["uniform", "common", "zipf", "dup"]))
        return [[min(len(self.h.T), t + lo) for t in d] for d in ds]

    def ensure(self, o):
        if o not in self.h.objs:
            kind = self.rng.choice(self.kinds)
            self.kind[o] = kind
            x = dict(allow_empty=self.rng.random() < 0.5) if kind == "tokenizer" else {}
            self.h.object(o, kind, self.docs(), **x)

    def edit(self, o):
        self.ensure(o)
        rng = self.rng
        kind = self.kind[o]
        if kind == "tokenizer":
            old = self.h.objs[o]
            if rng.random() < 0.6:
                self.h.object(o, kind, old["docs"], old=old, learn=rng.sample(self.h.T, 2))
            else:
                self.h.object(o, kind, self.docs(), old=old, reset=True)
        else:
            self.h.object(o, kind, self.docs())

    def new(self, r):
        if r not in self.h.st:
            m, i, p = self.variant
            if self.rng.random() < 0.4 and not self.live:
                pass
            self.h.new(r, m, i, **p)

    def index(self, r, o):
        self.ensure(o)
        self.new(r)
        self.h.index_object(r, o)
        if r not in self.live:
            self.live.append(r)

    def failindex(self, r, o):
        rng = self.rng
        h = self.h
        bad = rng.choice(BADINDEX)
        docs = self.docs()
        if bad in ("midfail", "unhashable"):
            h.index(r, docs, form=rng.choice(["tokens"]), valid=False, bad=bad)
        elif bad in ("none", "int"):
            h.index(r, docs, form="tokens", valid=False, bad=bad)
        elif bad == "pairbad":
            h.index(r, docs, form="pair", valid=False, bad="pairbad")
        else:
            form = "object" if bad == "objbad" else rng.choice(["pair", "tokenized"])
            di = rng.randrange(len(docs))
            docs.append([1, 2])  # (with it, an ID outside the vocabulary certainly makes indexing fail)
            h.index(r, docs, form=form, valid=False, badid=[di, rng.randrange(len(docs[di])),
                                                            {"badneg": -1, "badhuge": 10 ** 5, "objbad": "x"}[bad]])

    def save(self, r, d):
        self.h.save(r, d)

    def load(self, r, d, mmap):
        self.h.load(r, d, src=self.srcof(d), mmap=mmap)
        if r not in self.live:
            self.live.append(r)

    def srcof(self, d):
        return None

    def probe(self, full=False):
        rng = self.rng
        for r in self.live:
            if rng.random() < (1 if full else 0.7):
                known, unk = self.h.pools(r)
                if rng.random() < 0.5:
                    self.h.score(r, rng.sample(self.h.T, min(len(self.h.T), 4)), "str")
                else:
                    self.h.retrieve(r, [self.g.query(known, unk, p_unknown=0.4), list(rng.sample(self.h.T, 3))],
                                    rep=rng.choice(["str", "tokenized", "pair", "tuple"]),
                                    n_threads=rng.choice([0, 0, 2]))

    def query(self, r):
        rng = self.rng
        if rng.random() < 0.5:
            q = rng.sample(self.h.T, 3)
            self.h.noise(r, "trash", q=q)
            self.h.retrieve(r, [list(q)], rep="str")
        elif rng.random() < 0.3:
            self.h.noise(r, "getids")
        n = len(self.h.st[r]["docs"])
        self.h.retrieve(r, rep="str", mask=self.g.weights(n) if rng.random() < 0.6 else None)

    def play(self, hist):
        for a in hist:
            f = getattr(self, a["op"])
            f(*[a[k] for k in ("r", "o", "d", "mmap") if k in a])
            self.probe()
        self.probe(full=True)
        return self.h.case


def played(chk, g, num, tag, **kw):
    return [Player(g, tag, **{k: (v[j % len(v)] if isinstance(v, list) else v) for k, v in kw.items()}).play(hst)
            for j, hst in enumerate(histories(chk, num))]


def C18(chk):
    model(chk)
    chk.model_check("Lifecycle", "LifecycleBadCopy", expect_violation="AnswersStable")
    g = G(chk.seed)
    rng = g.rng
    cases = played(chk, g, chk.scale(60, 800), "history", method=METHODS)
    # objects edited in every way right after indexing; words learned later are unknown
    for rep in range(chk.scale(60, 500)):
        V = rng.choice([2, 4, 8])
        n = rng.choice([1, 2, 4])
        h = History(g, g.toks(V + 6), "edits")
        h.new("r")
        form = rng.choice(["tokens", "tuples", "shared", "pair", "tokenized", "object", "idlists", "object_tuple"])
        h.index("r", g.docs(n, V), form=form)
        known, unk = h.pools("r")
        ask = lambda: (h.retrieve("r", [g.query(known, unk, p_unknown=0.5) for _ in range(2)],
                                  mask=g.weights(n) if rng.random() < 0.3 else None),
                       h.score("r"))
        ask()
        for kind in rng.sample(["edit", "learn", "clear", "getids", "trash"], 4):
            x = {}
            if kind in ("edit", "learn"):
                x["learn"] = rng.sample(unk, min(2, len(unk)))
            if kind == "trash":
                if form == "idlists":
                    continue
                x["q"] = rng.sample(known + unk, min(len(known), 2)) or rng.sample(h.T, 2)
            h.noise("r", kind, **x)
            if kind == "trash":
                h.score("r", list(x["q"]), "str")
                h.retrieve("r", [list(x["q"])], rep="str")
            ask()
        cases.append(h.case)
    # a corpus passed to a call or attached is not changed either (clause "mutated")
    from checks_scoring import corpora
    for rep in range(chk.scale(20, 200)):
        V = 5
        n = rng.choice([1, 3, 6])
        h = History(g, g.toks(V + 4), "corpus")
        h.new("r")
        h.index("r", g.docs(n, V))
        if rng.random() < 0.5:
            h.attach("r", corpora(rng, n))
        for _ in range(3):
            h.retrieve("r", rep=h.reps("r")[0], corpus=corpora(rng, n) if rng.random() < 0.6 else None)
            if h.st["r"]["corpus"] is not None:
                h.corpus("r")
        cases.append(h.case)
    retr.validate(chk, cases)


def C19(chk):
    model(chk)
    chk.model_check("Lifecycle", "LifecycleBadPublish", expect_violation="AnswersStable")
    g = G(chk.seed)
    rng = g.rng
    cases = []
    for rep in range(chk.scale(100, 1000)):
        P = Player(g, "reindex", method=METHODS[rep % 5], kinds=("lists", "vocab", "tokenizer"))
        h = P.h
        P.index("A", "o%d" % 0)
        for j in range(1, rng.randint(4, 7)):
            x = rng.random()
            if x < 0.4:
                P.failindex("A", None)
            elif x < 0.9:
                P.index("A", "o%d" % rng.randint(0, j))
            else:
                h.save("A", "d")
                h.load("A", "d", mmap=rng.random() < 0.5)
            if rng.random() < 0.2:
                h.activate("A")
            P.probe(full=True)
        # a fresh retriever on the last corpus agrees: both are compared with the formula
        cases.append(h.case)
    # documents with fewer / more / no tokens, other sizes, with an attached corpus
    for rep in range(chk.scale(40, 400)):
        h = History(g, g.toks(14), "sizes")
        h.new("r", METHODS[rep % 5])
        for _ in range(rng.randint(2, 4)):
            n, V = rng.choice([1, 2, 6, 12]), rng.choice([1, 3, 10])
            docs = g.docs(n, V) if rng.random() < 0.85 else [[] for _ in range(n)]
            h.index("r", docs, form=rng.choice(["tokens", "pair", "idlists", "tokenized"]))
            h.retrieve("r")
            h.score("r")
            if rng.random() < 0.4:
                h.index("r", docs, form="pair", valid=False, bad="pairbad")
                if any(docs):
                    di = max(range(n), key=lambda i: len(docs[i]))
                    h.index("r", docs + [[1, 2]], form="pair", valid=False, badid=[di, 0, -1], extra=[0])
                h.retrieve("r")
                h.score("r")
        cases.append(h.case)
    from checks_scoring import huge
    for m in ("lucene", "bm25+"):  # from small to huge and back
        h = History(g, g.toks(8), f"huge/{m}")
        h.new("r", m)
        small = [[1, 2], [4, 5], [6], [2]]
        h.index("r", small, form=g.rng.choice(["tokens", "gen", "shared", "tokenized", "object"]))
        h.retrieve("r", [[4], [6, 1]], k=2, rep="str")
        for q in huge(h, 33001)[:2]:
            h.score("r", q, "str")
        h.index("r", small, form="pair")
        h.retrieve("r", [[4], [6, 1]], k=2, rep="str")
        cases.append(h.case)
    cases += played(chk, g, chk.scale(15, 200), "history", method=METHODS)
    obs = retr.validate(chk, cases)
    nb = []
    for rep in range(chk.scale(4, 20)):
        P = Player(g, "numba", method=["bm25+", "bm25l"][rep % 2], dtype="float32", backend="numba")
        for j in range(4):
            P.index("A", "o%d" % j)
            P.probe(full=True)
            P.failindex("A", None)
            P.probe(full=True)
        nb.append(P.h.case)
    retr.validate(chk, nb, shards=2)


NAMES = [
    {}, {}, {},
    dict(data_name="d.npy", indices_name="i.npy", indptr_name="p.npy", vocab_name="v.json", params_name="q.json",
         nnoc_name="n.npy", corpus_name="c.jsonl"),
    dict(data_name="data", indices_name="indices", indptr_name="indptr", vocab_name="vocab", params_name="params",
         nnoc_name="nnoc", corpus_name="docs"),
    dict(data_name="x.data.bin", indices_name="x.indices.bin", indptr_name="x.indptr.bin", nnoc_name="x.nnoc.bin"),
    dict(corpus_name="corpus.json"), dict(nnoc_name="nonocc"), dict(vocab_name="v.txt", params_name="p.txt"),
    dict(corpus_name="my.docs.jsonl"),
]


def C08(chk):
    model(chk)
    chk.model_check("Lifecycle", "LifecycleBadUnlink", expect_violation="AnswersStable")
    g = G(chk.seed)
    rng = g.rng
    cases = played(chk, g, chk.scale(50, 700), "history", method=METHODS)
    nb = [[], []]

    def one(tag, m, i, dtype, json_=True, backend="numpy"):
        V = rng.choice([1, 3, 8])
        n = rng.choice([1, 2, 5, 12])
        h = History(g, g.toks(V + 4), tag)
        h.new("r", m, i, dtype=dtype, backend=backend, int_dtype=rng.choice(["int32", "int32", "int64"])
              if backend == "numpy" else None)
        docs = g.docs(n, V)
        if rng.random() < 0.06:
            docs = [[] for _ in range(n)]
        if rng.random() < 0.15:
            docs = [d + [0] * rng.randint(0, 1) for d in docs]
        h.index("r", docs, form=rng.choice(["tokens", "pair", "tokenized", "idlists", "object"])
                if not any(0 in d for d in docs) else rng.choice(["tokens", "pair"]))
        names = rng.choice(NAMES)
        jl = (lambda: rng.choice([None, "builtin"])) if json_ else (lambda: None)
        h.save("r", "d", names=names, json=jl())
        loads = []
        for l, mm in (("m", False), ("mm", True)):
            h.load(l, "d", src="r", mmap=mm, names=names, json=jl(), withcorpus=rng.random() < 0.5)
            loads.append(l)
            if any(docs):
                h.twin("r", l)
        # a second index over the first one, the loaded ones keep answering
        for step in range(rng.randint(1, 3)):
            who = rng.choice(loads + ["r"])
            kind = rng.choice(["again", "other", "self", "self", "reload"])
            if kind == "again":
                h.save("r", "d", names=names, json=jl())
            elif kind == "self":
                h.save(who, "d", names=names, json=jl())
            elif kind == "other":
                if h.st["r"]["form"] != "idlists":
                    h.index("r", g.docs(rng.choice([1, 3, 7]), V), form="tokens")
                    h.save("r", "d", names=names, json=jl())
            else:
                h.load(f"l{step}", "d", mmap=rng.random() < 0.5, names=names, json=jl())
                loads.append(f"l{step}")
            for l in loads + ["r"]:
                if h.st[l]["form"] == "idlists":
                    e = h.score(l, rep="int") if l in ("r", "m", "mm") else None
                else:
                    known, unk = h.pools(l)
                    h.score(l, g.query(known, unk, allow_empty=False), "str")
                    if rng.random() < 0.5:
                        h.retrieve(l, rep=rng.choice(["str", "tokenized"]),
                                   mask=g.weights(len(h.st[l]["docs"]), "frac") if rng.random() < 0.3 else None)
        if rng.random() < 0.3 and h.st["r"]["known"] and h.dirs["d"]["docs"] is h.st["r"]["docs"]:
            h.load("nv", "d", src="r", load_vocab=False, mmap=rng.random() < 0.5, names=names)
            ks = [t for t in h.st["r"]["known"]]
            h.score("nv", [rng.choice(ks), rng.choice(ks)], "int")
        return h.case
    variants = [(m, i, d) for m in METHODS for i in METHODS for d in ("float32", "float64")]
    rng.shuffle(variants)
    reps = chk.scale(1, 8)
    for m, i, d in variants * reps:
        cases.append(one(f"{m}", m, i, d))
    # more entries, documents and tokens than small integer types count
    from checks_scoring import huge
    for big in ("documents", "tokens"):
        h = History(g, g.toks(8) if big == "documents" else [""] + ["v%d" % i for i in range(70000)], f"huge/{big}")
        h.new("r", rng.choice(METHODS), int_dtype=rng.choice(["int32", "int64"]))
        if big == "documents":
            qs = huge(h, 66001, rng.choice(["tokens", "tokenized"]))
        else:
            h.index("r", [list(range(1, 70001, 2)), list(range(2, 70001, 2)) + [5], [69999, 40000]], form="pair")
            qs = [[1, 69999], [33000, 40000], [32769, 65537]]
        h.save("r", "d", json=rng.choice([None, "builtin"]))
        for l, mm in (("m", False), ("mm", True)):
            h.load(l, "d", src="r", mmap=mm)
            h.twin("r", l)
            for q in qs[:2]:
                h.score(l, q, "str")
            h.retrieve(l, qs[2:], k=3, rep="str")
        cases.append(h.case)
    retr.validate(chk, cases)
    # without orjson installed
    retr.validate(chk, [one("builtin-json", m, i, d, json_=False) for m, i, d in variants[:chk.scale(10, 50)]],
                  env={"NO_ORJSON": "1"}, shards=3)
    # numba on loaded and memory-mapped arrays
    for m in ("robertson", "bm25l"):
        nb = [one(f"numba/{m}", m, m, "float32", backend="numba") for _ in range(chk.scale(3, 20))]
        cases = nb
        retr.validate(chk, cases, shards=2)


def text_corpus(rng, n, kind=None):
    from checks_scoring import documents
    kind = kind or rng.choice(["str", "dict", "list", "ragged", "same", "pairs", "mixedjson", "bigjson"])
    if kind == "bigjson":  # numbers that fit in 64 bits or not
        return [rng.choice([{"id": 2 ** 64 + i}, {"id": i, "v": [-2 ** 63 - 1 - i, 2 ** 53 + 1, 1e300, 0.1]}, {"id": 2 ** 63 + i, "t": "é%d" % 10 ** 20},
                            {"id": 2 ** 63 - 1 - i}, {"id": i, "n": {str(10 ** 30): 10 ** 30 + i}}, [2 ** 70 + 1, i]]) for i in range(n)]
    if kind == "mixedjson":
        return [rng.choice(["s%d" % i, {"k": i}, [i, "x"], "", {}, []]) for i in range(n)]
    return documents(rng, n, kind)


WEIRD_TEXTS = ["\u2028", "\u2029", "\x85", "\x0b", "\x0c", "\r", "\r\n", "a\nb", "\n", "", " ", "\t", '"', "\\", "\\n", "é", "日本語",
               "\U0001f600", "\x00", "\x1f", "\x7f", "</s>", "{", "[1, 2]", "null", "\ufeff", "x" * 5000, "y" * 70000 + "é", '{"text": "no"}', '["a"]', "nul\x00", "0", "true", "a\u2028b\nc", "ﬀ", "İ"]


def C10(chk):
    chk.model_check("Lifecycle", chk.scale("Lifecycle", "LifecycleDeep"))
    chk.model_check("Lifecycle", "LifecycleBadUnlink", expect_violation="AnswersStable")
    g = G(chk.seed)
    rng = g.rng

    def one(tag, json_=True, backend="numpy", texts=None):
        V = rng.choice([2, 4, 8])
        n = len(texts) if texts else rng.choice([1, 2, 3, 7, 15])
        h = History(g, g.toks(V + 4), tag)
        h.new("r", "lucene" if backend == "numba" else None, backend=backend, dtype="float32" if backend == "numba" else None)
        h.index("r", g.docs(n, V, style=rng.choice(["uniform", "dup", "common"])), form=rng.choice(["tokens", "pair"]))
        names = rng.choice(NAMES)
        jl = (lambda: rng.choice([None, "builtin"])) if json_ else (lambda: None)
        loads = []

        def corpus_spec():
            m = len(h.st["r"]["docs"])
            items = (list(texts) if texts and m == len(texts) else text_corpus(rng, m))
            if all(isinstance(i, list) and len(i) == 2 and all(isinstance(z, list) for z in i) for i in items):
                return dict(kind=rng.choice(["list", "tuple", "jsonl", "objarray", "pairtuples", "pairtuples"]), items=items)
            return dict(kind=rng.choice(["list", "list", "tuple", "jsonl", "objarray", "tuples"]
                                        if all(isinstance(i, list) for i in items) else
                                        ["list", "list", "tuple", "jsonl", "objarray"]), items=items)
        for step in range(rng.randint(1, 4)):
            x = rng.random()
            if x < 0.25 and h.st["r"]["corpus"] is None:
                h.attach("r", corpus_spec())
                h.save("r", "d", names=names, json=jl())
            elif x < 0.7 or step == 0:
                h.save("r", "d", corpus=corpus_spec(), names=names, json=jl())
            elif loads and x < 0.85:
                h.save(rng.choice(loads), "d", names=names, json=jl())   # with its own (mapped) corpus
            else:
                # another index and corpus over the old ones (same file names, other sizes)
                h.case["ev"].append(dict(op="new", r="r", method=h.st["r"]["method"], idf=h.st["r"]["idf"], x=h.st["r"]["x"]))
                h.st["r"]["corpus"] = None
                m = rng.choice([1, 2, 5, 20])
                h.index("r", g.docs(m, V), form="tokens")
                h.save("r", "d", corpus=corpus_spec(), names=names, json=jl())
            if rng.random() < 0.7:  # the saving retriever keeps its own corpus, or none
                h.corpus("r")
                n_ = len(h.st["r"]["docs"])
                known, unk = h.pools("r")
                h.retrieve("r", [g.query(known, unk, allow_empty=False)], rep="str", k=rng.randint(1, n_))
            l = f"l{step}"
            h.load(l, "d", mmap=rng.random() < 0.6, withcorpus=True, names=names, json=jl())
            loads.append(l)
            for l in loads:
                h.corpus(l)
                n_ = len(h.st[l]["docs"])
                known, unk = h.pools(l)
                h.retrieve(l, [g.query(known, unk, allow_empty=False) for _ in range(2)], rep="str",
                           k=rng.randint(1, n_), both=rng.random() < 0.3)
        h.load("nocorpus", "d", mmap=True, withcorpus=False, names=names)
        h.corpus("nocorpus")
        return h.case
    cases = [one("corpus") for _ in range(chk.scale(70, 700))]
    for j in range(chk.scale(6, 40)):
        t = rng.sample(WEIRD_TEXTS, rng.randint(3, len(WEIRD_TEXTS)))
        if j % 2:
            t = [{"id": i, "text": s, s: [s]} for i, s in enumerate(t)]
        cases.append(one("weird-texts", texts=t))
    # more documents and bytes than small integer types count
    h = History(g, g.toks(8), "huge")
    h.new("r", "lucene")
    from checks_scoring import huge
    qs = huge(h, 66001)
    h.save("r", "d", corpus=dict(kind="list", items=["d%d %s" % (i, "\u00e9" * (i % 7)) for i in range(66001)]))
    for l, mm in (("m", False), ("mm", True)):
        h.load(l, "d", mmap=mm, withcorpus=True)
        h.retrieve(l, qs, k=8, rep="str")
        h.corpus(l)
    cases.append(h.case)
    retr.validate(chk, cases)
    retr.validate(chk, [one("builtin-json", json_=False) for _ in range(chk.scale(8, 60))]
                  + [one("builtin-json/weird", json_=False, texts=list(WEIRD_TEXTS))], env={"NO_ORJSON": "1"}, shards=3)
    retr.validate(chk, [one("numba", backend="numba") for _ in range(chk.scale(3, 20))], shards=2)
