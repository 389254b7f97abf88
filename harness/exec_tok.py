"""Worker: histories of tokenizers."""
import copy, json, os, shutil, sys, tempfile, logging
logging.disable(logging.CRITICAL)
sys.modules["jax"] = None
sys.modules["jax.lax"] = None
if os.environ.get("NO_ORJSON"):
    sys.modules["orjson"] = None
import warnings
warnings.simplefilter("ignore")
import re
import bm25s
from bm25s.tokenization import Tokenizer, Tokenized
from core import Worker, attempt, omit, progress

STREAM = dict(update_vocab=True, allow_empty=True)
MODES = {"on": True, "off": False, "never": "never", "if_empty": "if_empty"}


class WordStemmer:
    def __init__(self, d):
        self.d = d

    def stemWord(self, w):
        return self.d.get(w, w)


def clone(t):
    """A copy of a tokenizer which shares its functions (stemmers cannot be copied)."""
    t2 = copy.copy(t)
    memo = {}
    for k, v in vars(t).items():
        if isinstance(v, (dict, list, set)):
            setattr(t2, k, copy.deepcopy(v, memo))
    return t2


class Run:
    def __init__(self, case):
        self.case = case
        self.x = case["x"]
        self.S = self.x["strings"]
        self.codes = {s: i for i, s in enumerate(self.S)}
        self.tok = {}
        self.streams = {}
        self.kept = {}
        self.tmp = tempfile.mkdtemp()
        self.dirs = {}

    def code(self, s):
        return self.codes.setdefault(s, -len(self.codes))

    def build(self, stop):
        x = self.x
        kw = dict(lower=x["lower"], stopwords=stop)
        sp = x["splitter"]
        if sp["kind"] == "regex":
            kw["splitter"] = sp["pattern"]
        elif sp["kind"] == "sep":
            kw["splitter"] = lambda t: t.split(sp["sep"]) if t else []
        elif sp["kind"] == "iter":
            kw["splitter"] = lambda t: iter(re.findall(r"\S+", t))
        stem = x["stemmer"]
        d = {self.S[i]: self.S[j] for i, j in enumerate(self.case["stem"])}
        if stem == "call":
            kw["stemmer"] = lambda w: d.get(w, w)
        elif stem == "object":
            kw["stemmer"] = WordStemmer(d)
        elif stem == "pystemmer":
            import Stemmer
            kw["stemmer"] = Stemmer.Stemmer("english")
        return Tokenizer(**omit(kw, dict(lower=True, splitter=r"(?u)\b\w\w+\b"), [self.x, self.case['ev']]))

    def vocab(self, t):
        return [[self.code(k), v if isinstance(v, int) and not isinstance(v, bool) else -1] for k, v in t.get_vocab_dict().items()]

    def decoded(self, t, ids):
        return [[self.code(z) for z in d] for d in t.decode(ids)]

    def call(self, t, e, form):
        kw = dict(update_vocab=MODES[e["mode"]], allow_empty=e["allow"], return_as=form, **progress(e))
        texts = list(e["x"]["texts"])
        if e["x"].get("gen"):
            kw["length"] = len(texts)
            texts = (z for z in texts)
        if e["x"].get("default") == "mode":
            kw.pop("update_vocab")
        if e["x"].get("default") == "allow":
            kw.pop("allow_empty")
        return t.tokenize(texts, **omit(kw, dict(return_as="ids"), e))

    def observe(self, t, out, form):
        """docs (token codes), ids if the form has them"""
        if form == "stream":
            typ = not isinstance(out, (list, tuple))
            out = list(out)
        elif form == "tuple":
            typ = isinstance(out, Tokenized)
            ids, vocab = out
            rev = {v: k for k, v in vocab.items()}
            return dict(docs=[[self.code(rev[z]) for z in d] for d in ids], ids=ids, hasids=True, type=typ and vocab == t.get_vocab_dict())
        if form == "string":
            return dict(docs=[[self.code(z) for z in d] for d in out], ids=[], hasids=False, type=isinstance(out, list))
        typ = form == "stream" or isinstance(out, list)
        return dict(docs=self.decoded(t, out), ids=out, hasids=True,
                    type=typ and all(type(z) is int for d in out for z in d))

    def op_new(self, e):
        def f():
            self.tok[e["o"]] = self.build(e["x"]["stop"])
        return attempt(f)

    def op_tokenize(self, e):
        t = self.tok[e["o"]]
        def f():
            out = self.call(t, e, e["x"]["form"])
            if e["keep"]:
                self.kept[e["keep"]] = out
            return self.observe(t, out, e["x"]["form"])
        o = attempt(f)
        o.update(o.pop("v", dict(docs=[], ids=[], hasids=False, type=False)))
        o["vocab"] = self.vocab(t)
        return o

    def op_old(self, e):
        """Words of a result returned earlier, through its own vocabulary."""
        def f():
            ids, vocab = self.kept[e["r"]]
            rev = {v: k for k, v in vocab.items()}
            return [[self.code(rev[z]) for z in d] for d in ids]
        o = attempt(f)
        o["docs"] = o.pop("v", [])
        return o

    def op_forms(self, e):
        forms = []
        for form in ("ids", "string", "tuple", "stream", "streaming"):
            t = clone(self.tok[e["o"]])
            if form == "streaming":
                mode = MODES[e["mode"]]
                if mode == "if_empty":
                    continue
                kw = omit(dict(update_vocab=mode, allow_empty=e["allow"]), STREAM, e)
                f = lambda: self.observe(t, t.streaming_tokenize(list(e["x"]["texts"]), **kw), "stream")
            else:
                f = lambda: self.observe(t, self.call(t, e, form), form)
            o = attempt(f)
            v = o.pop("v", dict(docs=[]))
            forms.append(dict(ok=o["ok"], docs=v["docs"], vocab=self.vocab(t)))
        return dict(ok=True, forms=forms)

    def op_open(self, e):
        t = self.tok[e["o"]]

        def f():
            if e["x"].get("direct"):
                it = t.streaming_tokenize(iter(e["x"]["texts"]) if e["x"].get("gen") else list(e["x"]["texts"]),
                                          **omit(dict(update_vocab=MODES[e["mode"]], allow_empty=e["allow"]), STREAM, e))
            else:
                it = self.call(t, e, "stream")
            self.streams[e["s"]] = (t, iter(it))
        o = attempt(f)
        o["vocab"] = self.vocab(t)
        return o

    def op_next(self, e):
        t, it = self.streams[e["s"]]
        end = object()
        o = attempt(lambda: next(it, end))
        v = o.pop("v", end)
        o["ended"] = v is end
        o["ids"] = [] if v is end else [v]
        o["vocab"] = self.vocab(t)
        d = attempt(lambda: self.decoded(t, o["ids"]))
        o["docs"] = d.get("v", [[-999]])
        return o

    def op_reset(self, e):
        t = self.tok[e["o"]]
        o = attempt(t.reset_vocab)
        o["vocab"] = self.vocab(t)
        return o

    def op_refused(self, e):
        t = self.tok[e["o"]]
        kw = dict(e["x"]["kw"], show_progress=False)
        o = attempt(lambda: t.tokenize(list(e["x"]["texts"]), **kw))
        o.pop("v", None)
        o["vocab"] = self.vocab(t)
        return o

    def dir(self, d):
        return self.dirs.setdefault(d, os.path.join(self.tmp, "dir%d" % len(self.dirs), *(["sub"] if len(self.dirs) % 2 else [])))

    def op_save(self, e):
        t = self.tok[e["o"]]

        def f():
            t.save_vocab(self.dir(e["dir"]), **e["x"].get("vn", {}))
            t.save_stopwords(self.dir(e["dir"]), **e["x"].get("sn", {}))
        o = attempt(f)
        o["vocab"] = self.vocab(t)
        return o

    def op_load(self, e):
        t = self.tok[e["o"]]

        def f():
            if e["vocab"]:
                t.load_vocab(self.dir(e["dir"]), **e["x"].get("vn", {}))
            if e["stopwords"]:
                t.load_stopwords(self.dir(e["dir"]), **e["x"].get("sn", {}))
        o = attempt(f)
        o["vocab"] = self.vocab(t)
        # (only the words of the case, if a language was selected)
        o["stop"] = [self.code(z) for z in (t.stopwords or []) if z in self.codes or not self.x["named"]]
        return o

    def op_twin(self, e):
        def f():
            a, b = clone(self.tok[e["a"]]), clone(self.tok[e["b"]])
            for z in e["x"]["steps"]:
                r = [attempt(lambda: self.call(t, z, z["x"]["form"])) for t in (a, b)]
                r = [json.dumps(q.get("v", "failed")) if z["x"]["form"] != "stream" else json.dumps(list(q["v"])) for q in r]
                if r[0] != r[1] or self.vocab(a) != self.vocab(b):
                    return False
            return True
        o = attempt(f)
        o["same"] = o.pop("v", False)
        return o

    def op_index(self, e):
        """An index of the documents in the directory of the tokenizer."""
        t = clone(self.tok[e["o"]])

        def f():
            d = self.dir(e["dir"])
            if e["x"]["what"] == "save":
                out = t.tokenize(list(e["x"]["texts"]), update_vocab=True, return_as="tuple", show_progress=False)
                r = bm25s.BM25()
                r.index(out, show_progress=False)
                self.retr = r
                r.save(d, corpus=list(e["x"]["texts"]))
                return True
            r = bm25s.BM25.load(d, load_corpus=True)
            return (r.vocab_dict == self.retr.vocab_dict and len(r.corpus) == self.retr.scores["num_docs"] and all(
                r.get_scores_from_ids([i]).tolist() == self.retr.get_scores_from_ids([i]).tolist() for i in r.vocab_dict.values()))
        o = attempt(f)
        o["ok"] = bool(o["ok"] and o.pop("v"))
        return o

    def run(self):
        for e in self.case["ev"]:
            o = getattr(self, "op_" + e["op"])(e)
            o.pop("v", None)
            yield o
        shutil.rmtree(self.tmp, ignore_errors=True)


if __name__ == "__main__":
    Worker(lambda case: Run(case).run()).run()
