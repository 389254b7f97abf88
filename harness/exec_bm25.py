"""Worker: replays histories of retrievers against the real library, through its public API."""
import copy, io, json, threading, time, os, sys, logging, shutil, types, tempfile, warnings, zlib
logging.disable(logging.CRITICAL)
warnings.simplefilter("ignore")
if os.environ.get("NO_ORJSON"):
    sys.modules["orjson"] = None
if os.environ.get("NO_JAX"):
    sys.modules["jax"] = None
    sys.modules["jax.lax"] = None
import numpy as np
import bm25s
from bm25s.tokenization import Tokenized
from core import Worker, attempt, omit, progress

KW = dict(show_progress=False)
# documented defaults
NEW = dict(k1=1.5, b=0.75, delta=0.5, method="lucene", dtype="float32", int_dtype="int32", backend="numpy")
RETRIEVE = dict(k=10, sorted=True, n_threads=0, chunksize=50, backend_selection="auto", return_as="tuple")


def floats(a):
    return [float(x) for x in np.asarray(a, dtype=np.float64).ravel()]


def code(v):
    """Canonical form of a document, to compare documents across types."""
    if isinstance(v, np.ndarray):
        return ["arr", [code(x) for x in v.tolist()]]
    if isinstance(v, np.generic):
        v = v.item()
    if isinstance(v, (list, tuple)):
        return ["list", [code(x) for x in v]]
    if isinstance(v, dict):
        return ["dict", sorted([[str(k), code(x)] for k, x in v.items()], key=repr)]
    return [type(v).__name__, repr(v)]


class Codes:
    def __init__(self):
        self.d = {}

    def __call__(self, v):
        return self.d.setdefault(json.dumps(code(v)), len(self.d) + 1)


def build_corpus_value(spec):
    """A corpus from its description."""
    kind, items = spec["kind"], spec["items"]
    if kind == "list":
        return copy.deepcopy(items)
    if kind == "tuples":
        return [tuple(x) for x in items]
    if kind == "pairtuples":
        return [tuple(tuple(y) for y in x) for x in items]
    if kind == "tuple":
        return tuple(copy.deepcopy(items))
    if kind == "array":
        return np.array(items)
    if kind == "objarray":
        a = np.empty(len(items), dtype=object)
        for i, x in enumerate(items):
            a[i] = x
        return a
    if kind == "array2d":
        return np.array(items)
    if kind == "jsonl":
        p = os.path.join(tempfile.mkdtemp(), "c.jsonl")
        with open(p, "w", encoding="utf-8") as f:
            for x in items:
                f.write(json.dumps(x, ensure_ascii=False) + "\n")
        return bm25s.utils.corpus.JsonlCorpus(p, show_progress=False, verbosity=0)
    raise AssertionError(kind)


def position(c):
    """A position as an integer; -1 for anything else."""
    if isinstance(c, (int, np.integer)) and not isinstance(c, (bool, np.bool_)) and 0 <= c < 10 ** 9:
        return int(c)
    return -1


class preempted:
    """Threads started in this context give way at random places of the library (byte codes or lines)."""

    def __init__(self, spec):
        self.spec = spec
        self.prefix = os.path.dirname(bm25s.__file__)

    def __enter__(self):
        if self.spec:
            import random
            rng = random.Random(self.spec["seed"])
            p, opcodes = self.spec["p"], self.spec["opcodes"]

            def local(frame, event, arg):
                if (event == "opcode" or event == "line") and rng.random() < p:
                    time.sleep(rng.choice([0, 0, 0.0002, 0.001]))
                return local

            def glob(frame, event, arg):
                if frame.f_code.co_filename.startswith(self.prefix):
                    frame.f_trace_opcodes = opcodes
                    return local
            threading.settrace(glob)

    def __exit__(self, *a):
        if self.spec:
            threading.settrace(None)


class Turn:
    """Lets the queries of a batch start scoring in a given order (best effort: no query waits forever)."""

    def __init__(self, order):
        self.rank = {q: i for i, q in enumerate(order)}
        self.turn = 0
        self.cv = threading.Condition()

    def wait(self, q):
        with self.cv:
            self.cv.wait_for(lambda: self.turn >= self.rank[q], timeout=0.25)
            if self.turn == self.rank[q]:
                self.turn += 1
                self.cv.notify_all()
        if self.rank[q] % 2:
            time.sleep(0.002)


class Gate(str):
    """A token that waits for its query's turn when it is looked up."""

    def __hash__(self):
        t = getattr(self, "turn", None)
        if t is not None:
            t.wait(self.q)
        return str.__hash__(self)

    __eq__ = str.__eq__

    def __deepcopy__(self, memo):
        return str(self)


class Run:
    def __init__(self, case):
        self.case = case
        self.toks = case["toks"]
        self.r = {}
        self.idmap = {}
        self.caller = {}
        self.codes = Codes()
        self.dirs = {}
        self.corpora = {}
        self.objs = {}
        self.qshared = dict(ids=[], vocab={})
        self.scratch = tempfile.mkdtemp()

    # -- documents ---------------------------------------------------------------------------
    def strs(self, seq):
        return [self.toks[t] for t in seq]

    def dirpath(self, name):
        if name not in self.dirs:
            self.dirs[name] = os.path.join(self.scratch, "d%d" % len(self.dirs))
        return self.dirs[name]

    def ids(self, r, seq, unk):
        m = self.idmap[r]
        out = []
        for t in seq:
            i = m(t)
            if i is None:
                u = unk[t % len(unk)]
                hi = max([x for x in self.r[r].vocab_dict.values()] + [-1])
                i = hi + 1 + u if u >= 0 else u
            out.append(i)
        return out

    # -- events ------------------------------------------------------------------------------
    def op_new(self, e):
        x = e["x"]

        def f():
            kw = {}
            for k in ("k1", "b", "delta", "dtype", "int_dtype", "backend", "method"):
                if k in x:
                    kw[k] = x[k]
            if "idf_method" in x:
                kw["idf_method"] = x["idf_method"]
            self.r[e["r"]] = bm25s.BM25(**omit(kw, NEW, x))
        return self.simple(f)

    def simple(self, f):
        o = attempt(f)
        o.pop("v", None)
        return o

    # -- objects the caller keeps: documents and vocabulary, possibly of a tokenizer -------------
    def op_object(self, e):
        x = e["x"]
        kind = x["kind"]
        old = self.objs.get(e["o"])
        if kind == "lists":
            new = [self.strs(d) for d in x["docs"]]
            if old is None:
                self.objs[e["o"]] = dict(kind=kind, ids=new, vocab=None)
            else:
                inplace(old["ids"], new)
        elif kind == "vocab":
            num = dict((k, v) for k, v in x["num"])
            ids = [[num[t] for t in d] for d in x["docs"]]
            vocab = {self.toks[t]: num[t] for t in x["order"]}
            if old is None:
                self.objs[e["o"]] = dict(kind=kind, ids=ids, vocab=vocab)
            else:
                inplace(old["ids"], ids)
                old["vocab"].clear()
                old["vocab"].update(vocab)
        elif kind == "tokenizer":
            texts = [" ".join(self.strs(d)) for d in x["docs"]]
            if old is None:
                tok = bm25s.tokenization.Tokenizer(lower=False, splitter=lambda t: t.split(" "), stopwords=None)
                self.objs[e["o"]] = old = dict(kind=kind, tok=tok)
            tok = old["tok"]
            if x.get("reset"):
                tok.reset_vocab()
            if x.get("learn"):
                tok.tokenize([" ".join(self.strs(x["learn"]))], update_vocab=True, show_progress=False,
                             allow_empty=x.get("allow_empty", False))
            if x.get("docs") is not None and (x.get("reset") or "ids" not in old):
                out = tok.tokenize(texts, update_vocab=True, return_as="tuple", show_progress=False,
                                   allow_empty=x.get("allow_empty", False))
                old["ids"] = out.ids
                old["out"] = out
            old["vocab"] = tok.get_vocab_dict()
        return {"ok": True}

    def object_arg(self, name, form):
        ob = self.objs[name]
        if ob["kind"] == "lists":
            return ob["ids"], ob["ids"], None, None
        if form == "pair":
            arg = (ob["ids"], ob["vocab"])
        elif form == "object":
            arg = types.SimpleNamespace(ids=ob["ids"], vocab=ob["vocab"])
        else:
            arg = ob["out"] if ob["kind"] == "tokenizer" and "out" in ob and ob["out"].vocab is ob["vocab"] else \
                Tokenized(ids=ob["ids"], vocab=ob["vocab"])
        voc = dict(ob["vocab"])
        return arg, ob["ids"], ob["vocab"], (lambda t: voc.get(self.toks[t]))

    def op_index(self, e):
        x = e["x"]
        docs = e["docs"]
        form = x["form"]
        vocab = None
        if x.get("use"):
            arg, obj, vocab, idmap = self.object_arg(x["use"], form)
        elif form in ("tokens", "tuples", "gen", "iter", "tupleoftokens", "shared"):
            obj = [self.strs(d) for d in docs]
            if form == "tuples":
                obj = [tuple(d) for d in obj]
            if form == "shared":
                seen = {}
                obj = [seen.setdefault(tuple(d), d) for d in obj]
            arg = obj
            if form == "gen":
                arg = (d for d in obj)
            if form == "iter":
                arg = iter(obj)
            idmap = None
        else:
            num = dict((k, v) for k, v in x["num"])
            ids = [[num[t] for t in d] for d in docs]
            obj = ids
            idmap = lambda t: num.get(t)
            if form == "idlists":
                arg = ids
            else:
                vocab = {self.toks[t]: num[t] for t in x["order"]}
                if x.get("badid"):
                    di, pi, val = x["badid"]
                    ids[di][pi] = val
                if form == "pair":
                    arg = (ids, vocab)
                elif form == "tokenized":
                    arg = Tokenized(ids=ids, vocab=vocab)
                elif form == "object":
                    arg = types.SimpleNamespace(ids=ids, vocab=vocab)
                elif form == "object_tuple":
                    arg = types.SimpleNamespace(ids=tuple(ids), vocab=vocab)
        if x.get("bad") == "int":
            arg = 5
        elif x.get("bad") == "none":
            arg = None
        elif x.get("bad") == "pairbad":
            arg = (obj, "notadict")
        elif x.get("bad") == "midfail":
            def g():
                for i, d in enumerate(obj):
                    if i == len(obj) - 1:
                        raise RuntimeError("source failed")
                    yield d
            arg = g()
        elif x.get("bad") == "unhashable":
            obj[-1] = [["x"]]
            arg = obj
        before = copy.deepcopy((obj, vocab))
        if e["r"] not in self.r:
            return {"ok": False, "exc": "refused before"}
        r = self.r[e["r"]]
        kw = progress(e)
        if "create_empty" in x:
            kw["create_empty_token"] = x["create_empty"]
        kw = omit(kw, dict(create_empty_token=True), x)
        o = self.simple(lambda: r.index(arg, **kw))
        o["mutated"] = before != (obj, vocab) or (
            vocab is not None and list(before[1].items()) != list(vocab.items()))
        if o["ok"]:
            self.caller[e["r"]] = (obj, vocab)
            if idmap is None:
                def idmap(t, r=r):
                    s = self.toks[t]
                    v = r.get_tokens_ids([s])
                    return v[0] if v else None
            known = {t for d in docs for t in d} | set(e["extra"])
            cache = {}

            def m(t, idmap=idmap):
                if t not in known and t != 0:
                    return None
                if t == 0 and t not in known:
                    return r.vocab_dict.get("")
                if t not in cache:
                    cache[t] = idmap(t)
                return cache[t]
            self.idmap[e["r"]] = m
        return o

    def query_arg(self, e, qs):
        x, rep = e["x"], e["rep"]
        if rep == "str":
            out = [self.strs(q) for q in qs]
            if x.get("gate"):
                turn = Turn([i for i in x["gate"] if qs[i - 1]])
                for i, q in enumerate(out):
                    if q:
                        q[0] = Gate(q[0])
                        q[0].turn, q[0].q = turn, i + 1
            return out
        if rep == "tuple":
            return tuple(self.strs(q) for q in qs)
        if rep == "int":
            return [self.ids(e["r"], q, x.get("unk", [1])) for q in qs]
        used = []
        for q in qs:
            for t in q:
                if t not in used:
                    used.append(t)
        order = x.get("qorder") or list(range(len(used)))
        base, step = x.get("qbase", 0), x.get("qstep", 1)
        used = [t for _, t in sorted(zip([hash((i * 7919) % 104729) for i in range(len(used))], used))]
        num = {t: base + step * i for i, t in enumerate(used)}
        ids = [[num[t] for t in q] for q in qs]
        vocab = {self.toks[t]: num[t] for t in used}
        if x.get("qshare"):  # the caller refills the objects of its previous queries
            sh = self.qshared
            inplace(sh["ids"], ids)
            sh["vocab"].clear()
            sh["vocab"].update(vocab)
            ids, vocab = sh["ids"], sh["vocab"]
        if rep == "tokenized":
            return Tokenized(ids=ids, vocab=vocab)
        if rep == "pair":
            return (ids, vocab)
        raise AssertionError(rep)

    def mask(self, e):
        m = e["x"].get("mask")
        if m is None:
            return None
        if m.get("bad") == "list":
            return list(m["w"])
        a = np.array(m["w"], dtype=m.get("dtype", "float64"))
        if m.get("bad") == "2d":
            a = a.reshape(1, -1)
        if m.get("bad") == "short":
            a = a[:-1]
        if m.get("bad") == "long":
            a = np.append(a, a[:1])
        if m.get("bad") == "0d":
            a = np.array(1.0)
        if m.get("strided"):
            b = np.zeros(2 * len(a), dtype=a.dtype)
            b[::2] = a
            a = b[::2]
        if m.get("readonly"):
            a.setflags(write=False)
        return a

    def op_score(self, e):
        r = self.r[e["r"]]
        x = e["x"]
        if e["rep"] == "str":
            q = self.strs(e["q"])
        else:
            q = self.ids(e["r"], e["q"], x.get("unk", [1]))
        if x.get("bad") == "str":
            q = "notalist"
        elif x.get("bad") == "floats":
            q = [1.5]
        elif x.get("bad") == "rawid":
            n = max(list(r.vocab_dict.values()) + [-1])
            q = q + [x["raw"] if x["raw"] < 0 else n + x["raw"]]
        m = self.mask(e)
        kw = {} if m is None else dict(weight_mask=m)
        before = copy.deepcopy((q, m))
        if x.get("api") == "ids":
            o = attempt(lambda: r.get_scores_from_ids(r.get_tokens_ids(q) if e["rep"] == "str" else q, **kw))
        else:
            o = attempt(lambda: r.get_scores(q, **kw))
        if o["ok"]:
            v = np.asarray(o.pop("v"))
            o.update(len=int(v.shape[0]) if v.ndim == 1 else -1, dtype=str(v.dtype), scores=floats(v))
            o["mutated"] = not same((q, m), before)
        return o

    def op_retrieve(self, e):
        r = self.r[e["r"]]
        x = e["x"]
        qs = self.query_arg(e, e["qs"])
        m = self.mask(e)
        kw = dict(k=e["k"], sorted=e["sorted"], **progress(e))
        if m is not None:
            kw["weight_mask"] = m
        for a in ("n_threads", "chunksize", "backend_selection", "return_as"):
            if a in x:
                kw[a] = x[a]
        kw = omit(kw, RETRIEVE, e)
        bad = x.get("bad")
        if bad == "triple":
            qs = (["a"], {}, 3)
        elif bad == "pairnodict":
            qs = ([[0]], [1])
        elif bad == "pairnoiter":
            qs = (5, {"a": 0})
        corpus = None
        if x.get("corpus"):
            corpus = self.corpora.setdefault(json.dumps(x["corpus"]), None)
            if corpus is None:
                corpus = build_corpus_value(x["corpus"])
                self.corpora[json.dumps(x["corpus"])] = corpus
            kw["corpus"] = corpus
        before = copy.deepcopy((qs, m, corpus if isinstance(corpus, (list, tuple, np.ndarray)) else None))
        with preempted(x.get("preempt")):
            o = attempt(lambda: r.retrieve(qs, **kw))
        if not o["ok"]:
            return o
        v = o.pop("v")
        o["mutated"] = not same((qs, m, corpus if isinstance(corpus, (list, tuple, np.ndarray)) else None), before)
        docs, scores = np.asarray(v.documents), np.asarray(v.scores)
        o["dtype"] = str(scores.dtype)
        o["shape"] = [int(z) for z in scores.shape]
        o["same"] = True
        if e["hascorpus"]:
            kw2 = dict(kw)
            if corpus is None:  # attached to the retriever: ask for positions instead
                kw2["corpus"] = list(range(x["ndocs"]))
            else:
                kw2.pop("corpus")
                if getattr(r, "corpus", None) is not None:
                    kw2["corpus"] = list(range(x["ndocs"]))
            p = r.retrieve(qs, **kw2)
            pos = np.asarray(p.documents)
            o["same"] = bool(np.array_equal(np.asarray(p.scores), scores)) and docs.shape == pos.shape
            cells = [[self.codes(c) for c in row] for row in
                     ([list(docs[i]) for i in range(docs.shape[0])] if docs.ndim >= 1 else [])]
            o["docs"] = cells
        else:
            pos = docs
        o["pos"] = [[position(c) for c in row] for row in pos] if pos.ndim >= 2 else []
        if pos.shape != scores.shape:
            o["shape"] = [-1, -1]
        o["scores"] = [floats(row) for row in scores]
        if x.get("both"):
            kw3 = dict(kw, return_as="documents")
            d = np.asarray(r.retrieve(qs, **kw3))
            o["same"] = o["same"] and d.shape == docs.shape and json.dumps(code(d)) == json.dumps(code(docs))
        if x.get("alone"):
            o["alone"] = True
            for i in range(len(e["qs"])):
                kwa = dict(kw)
                for a in ("n_threads", "chunksize"):
                    kwa.pop(a, None)
                one = self.query_arg(dict(e, x=dict(x, gate=None)), [e["qs"][i]])
                s1 = r.retrieve(one, **kwa)
                if not (np.array_equal(np.asarray(s1.scores)[0], scores[i])
                        and json.dumps(code(np.asarray(s1.documents)[0])) == json.dumps(code(docs[i]))):
                    o["alone"] = False
        if x.get("merge") and len(e["qs"]) > 1:
            h = x["merge"]
            parts = [r.retrieve(self.query_arg(dict(e, x=dict(x, gate=None)), q), **kw) for q in (e["qs"][:h], e["qs"][h:])]
            mg = bm25s.Results.merge(parts)
            o["merged"] = (json.dumps(code(np.asarray(mg.documents))) == json.dumps(code(docs)) and len(mg) == len(docs)
                           and np.array_equal(mg.scores, scores) and mg.documents.shape == docs.shape)
            # with the results of another retriever, whose documents and scores may be of other types
            k = docs.shape[1]
            for d2 in ([[i * 7 for i in range(k)]], [[-i - 1 for i in range(k)]], [["t%d" % i for i in range(k)]], [[i + 0.5 for i in range(k)]],
                       [[True] * k]):
                for order in (1, -1):
                    two = [bm25s.Results(documents=docs, scores=scores),
                           bm25s.Results(documents=np.array(d2), scores=np.array([[1 / 3 + i for i in range(k)]], dtype=np.float64))][::order]
                    mg = bm25s.Results.merge(two)
                    cells = lambda a: [[code(z) for z in row] for row in np.asarray(a)]
                    o["merged"] = (o["merged"] and json.dumps(cells(mg.documents)) == json.dumps(sum((cells(t.documents) for t in two), []))
                                   and mg.scores.tolist() == sum((t.scores.tolist() for t in two), []))
        return o

    def op_activate(self, e):
        return self.simple(lambda: self.r[e["r"]].activate_numba_scorer())

    def op_attach(self, e):
        def f():
            self.r[e["r"]].corpus = build_corpus_value(e["x"]["corpus"])
        return self.simple(f)

    def json_lib(self, lib):
        from bm25s.utils import json_functions as jf
        if not hasattr(self, "_orig"):
            self._orig = (getattr(jf, "dumps", None), getattr(jf, "loads", None))
        if None in self._orig:
            return
        if lib == "builtin":
            jf.dumps, jf.loads = (lambda d, **kw: json.dumps(d, **kw)), json.loads
        else:
            jf.dumps, jf.loads = self._orig

    def op_twin(self, e):
        """Do two retrievers answer identically, bit by bit?"""
        a, b = self.r[e["r"]], self.r[e["s"]]

        def f():
            ok = True
            if not e["x"].get("novocab"):
                # (tokens that are integers become strings in JSON)
                ok = {str(k): v for k, v in a.vocab_dict.items()} == {str(k): v for k, v in b.vocab_dict.items()}
            ids = sorted(a.vocab_dict.values())
            for i in ids:
                x, y = a.get_scores_from_ids([i]), b.get_scores_from_ids([i])
                ok = ok and x.dtype == y.dtype and np.array_equal(x, y)
            return bool(ok)
        o = attempt(f)
        o["same"] = o.pop("v", False)
        return o

    def op_save(self, e):
        x = e["x"]
        self.json_lib(x.get("json"))
        kw = spelled(dict(x.get("names", {})), e)
        if x.get("corpus"):
            kw["corpus"] = build_corpus_value(x["corpus"])
        if zlib.crc32(repr(e).encode()) % 4 == 0:
            kw["allow_pickle"] = True
        o = self.simple(lambda: self.r[e["r"]].save(self.dirpath(e["dir"]), **kw))
        self.json_lib(None)
        return o

    def op_load(self, e):
        x = e["x"]
        self.json_lib(x.get("json"))
        kw = spelled(dict(x.get("names", {})), e)
        for a in ("mmap", "load_vocab"):
            if a in x:
                kw[a] = x[a]
        d = self.dirpath(e["dir"])
        if x.get("prepare") == "emptydir":
            os.makedirs(d, exist_ok=True)
        elif x.get("prepare") == "otherfile":
            open(d, "w").close()

        def f():
            kw2 = omit(dict(kw, load_corpus=e["withcorpus"]), dict(load_corpus=False, mmap=False, load_vocab=True), e)
            if zlib.crc32(repr(e).encode()) % 4 == 0:
                kw2["allow_pickle"] = True
            r = bm25s.BM25.load(self.dirpath(e["dir"]), **kw2)
            if zlib.crc32(repr(e).encode()) % 5 == 0:   # the arrays once more, on their own
                r.load_scores(self.dirpath(e["dir"]), num_docs=r.scores["num_docs"],
                              **{k: v for k, v in kw2.items() if k in ("mmap", "data_name", "indices_name", "indptr_name")})
            self.r[e["r"]] = r
            src = x.get("src")
            if src:  # IDs keep their meaning
                self.idmap[e["r"]] = self.idmap[src]
            return r
        o = attempt(f)
        self.json_lib(None)
        if o["ok"]:
            r = o.pop("v")
            p = x.get("params", {})
            o["params"] = all(getattr(r, k) == v for k, v in p.items())
            if not o["params"]:
                o["got"] = {k: repr(getattr(r, k)) for k in p}
        return o

    def op_corpus(self, e):
        r = self.r[e["r"]]

        def f():
            c = r.corpus
            if c is None:
                return None
            return [self.codes(c[i]) for i in range(len(c))]
        o = attempt(f)
        if o["ok"]:
            v = o.pop("v")
            o.update(has=v is not None, codes=v or [])
        return o

    def op_noise(self, e):
        x = e["x"]
        kind = x["kind"]

        def f():
            if kind == "edit":
                obj, vocab = self.caller[e["r"]]
                if isinstance(obj, list):
                    for i, d in enumerate(obj):
                        if isinstance(d, list):
                            d.append(d[0] if d else ("zz" if vocab is None else 0))
                    obj.extend(obj[:1])
                    obj.reverse()
                if vocab is not None:
                    keys = list(vocab)
                    vals = [vocab[k] for k in keys]
                    vocab.clear()
                    for k, v in zip(reversed(keys), vals):
                        vocab[k] = v
                    for t in x.get("learn", []):
                        vocab.setdefault(self.toks[t], len(vocab))
            elif kind == "learn":
                obj, vocab = self.caller[e["r"]]
                if vocab is not None:
                    for t in x["learn"]:
                        vocab.setdefault(self.toks[t], max(list(vocab.values()) + [-1]) + 1)
            elif kind == "clear":
                obj, vocab = self.caller[e["r"]]
                if vocab is not None:
                    vocab.clear()
                if isinstance(obj, list):
                    obj.clear()
            elif kind == "trash":
                # the caller overwrites the results it got
                r = self.r[e["r"]]
                q = [self.strs(x["q"])]
                res = r.retrieve(q, k=1, corpus=None, **KW)
                sc = r.get_scores(q[0])
                sc2 = r.get_scores([i for i in r.get_tokens_ids(q[0])] or q[0])
                non = ["nope"]
                res2 = r.retrieve([non, q[0], non], k=r.scores["num_docs"], corpus=None, **KW)
                more = [r.get_scores(non) for _ in range(2)]
                for a in (np.asarray(res.scores), np.asarray(res.documents), sc, sc2, np.asarray(res2.scores), np.asarray(res2.documents), *more):
                    if a.dtype != object and a.flags.writeable and a.dtype.kind in "fiu":
                        a[...] = 7
                m = np.ones(r.scores["num_docs"], dtype=r.dtype)
                sc3 = r.get_scores(q[0], weight_mask=m)
                sc3 += 5
                m *= 0
                for z in (self.toks, q[0]):
                    ids = r.get_tokens_ids(z)
                    ids.clear()
                q[0].reverse()
                q[0].append("later")
            elif kind == "getids":
                self.r[e["r"]].get_tokens_ids(["nope"] + self.toks)
            else:
                raise AssertionError(kind)
        return self.simple(f)

    # corpora given to save/attach/retrieve: codes of their entries
    def run(self):
        for e in self.case["ev"]:
            o = getattr(self, "op_" + e["op"])(e)
            # codes of documents the specification has to know
            spec = e.get("x", {}).get("corpus") if isinstance(e.get("x"), dict) else None
            if spec and e["op"] in ("save", "attach", "retrieve"):
                ent = self.entries(spec)
                o["codes"] = [self.codes(v) for v in ent]
                o["wcodes"] = [self.codes(self.wrapped(i, v)) for i, v in enumerate(ent)]
            yield o
        shutil.rmtree(self.scratch, ignore_errors=True)

    @staticmethod
    def wrapped(i, v):
        return {"id": i, "text": v} if isinstance(v, str) else v

    @staticmethod
    def entries(spec):
        if spec["kind"] == "tuples":
            return [tuple(x) for x in spec["items"]]
        if spec["kind"] == "pairtuples":
            return [tuple(tuple(y) for y in x) for x in spec["items"]]
        if spec["kind"] == "array2d":
            return [np.array(x) for x in spec["items"]]
        if spec["kind"] == "array":
            return list(np.array(spec["items"]).tolist())
        return spec["items"]


NAMES = dict(data_name="data.csc.index.npy", indices_name="indices.csc.index.npy", indptr_name="indptr.csc.index.npy",
             vocab_name="vocab.index.json", params_name="params.index.json", nnoc_name="nonoccurrence_array.index.npy", corpus_name="corpus.jsonl")


def spelled(names, salt):
    """A file is either named as asked, or has its default name, spelled out or not."""
    return dict(omit(NAMES, NAMES, salt), **names)


def inplace(old, new):
    """Give a list of lists a new content, reusing the inner lists."""
    for i, d in enumerate(new):
        if i < len(old) and isinstance(old[i], list):
            old[i][:] = d
        elif i < len(old):
            old[i] = d
        else:
            old.append(d)
    del old[len(new):]


def same(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return (isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.dtype == b.dtype
                and a.shape == b.shape and json.dumps(code(a)) == json.dumps(code(b)))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and type(a) is type(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return list(a.items()) == list(b.items())
    if isinstance(a, str) and isinstance(b, str):
        return str.__eq__(a, b)
    return type(a) is type(b) and a == b


if __name__ == "__main__":
    Worker(lambda case: Run(case).run()).run()
