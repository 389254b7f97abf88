"""Worker: calls of bm25s.tokenize."""
import copy, os, sys, logging
logging.disable(logging.CRITICAL)
sys.modules["jax"] = None
sys.modules["jax.lax"] = None
import warnings
warnings.simplefilter("ignore")
import bm25s
import bm25s.stopwords
from bm25s.tokenization import Tokenizer, Tokenized, convert_tokenized_to_string_list
from core import Worker, attempt, omit, progress


def o(w):
    return [ord(z) for z in w]


class Batch:
    def __init__(self, f):
        self.f = f

    def stemWords(self, ws):
        return [self.f(w) for w in ws]


class Both(Batch):
    def stemWord(self, w):
        return self.f(w)


def stemmers(e, case):
    """(for the function, for the class)"""
    k = e["stem"]
    if k == "none":
        return None, None
    if k == "table":
        import Stemmer
        s = Stemmer.Stemmer(case["x"]["language"])
        return s, s
    f = dict(prefix3=lambda w: w[:3], plural=lambda w: w[:-1] if w.endswith("s") else w, one=lambda w: w and "x")[k]
    how = e["x"]["stemmer"]
    return {"list": lambda ws: [f(w) for w in ws], "batch": Batch(f), "both": Both(f)}[how], (Both(f) if how == "both" else f)


def op_call(e, case):
    x = e["x"]
    texts = ["".join(map(chr, t)) for t in e["texts"]]
    arg = texts[0] if x["single"] else texts
    st, st1 = stemmers(e, case)
    kw = progress(e)
    stop = x["stop"]
    stop = {"list": list, "tuple": tuple, "set": set, "raw": lambda z: z}[x["stoptype"]](stop)
    kw["stopwords"] = stop
    if not (x["defaults"] and e["lower"]):
        kw["lower"] = e["lower"]
    if x["pattern"] is not None:
        kw["token_pattern"] = x["pattern"]
    if st is not None:
        kw["stemmer"] = st
    if not x["allow"]:
        kw["allow_empty"] = False
    before = copy.deepcopy(arg)

    def f():
        docs = bm25s.tokenize(arg, return_ids=False, **kw)
        t = bm25s.tokenize(arg, **(dict(kw, return_ids=True) if x["defaults"] else kw))
        again = bm25s.tokenize(arg, return_ids=False, **kw)
        ids, vocab = t
        conv = convert_tokenized_to_string_list(t)
        ckw = dict(lower=e["lower"], stopwords=stop, stemmer=st1)
        if x["pattern"] is not None:
            ckw["splitter"] = x["pattern"]
        cls = Tokenizer(**omit(ckw, dict(lower=True), e)).tokenize(texts, update_vocab=True, return_as="string", allow_empty=x["allow"], **progress([e]))
        return dict(docs=[[o(w) for w in d] for d in docs], ids=[list(map(int, d)) for d in ids], vocab=[[o(w), int(i)] for w, i in vocab.items()],
                    converted=[[o(w) for w in d] for d in conv], again=again == docs, untouched=arg == before and isinstance(t, Tokenized),
                    **{"class": [[o(w) for w in d] for d in cls]})
    r = attempt(f)
    r.update(r.pop("v", {}))
    return r


def op_names(e, case):
    def f():
        lists = {k: v for k, v in vars(bm25s.stopwords).items() if k.startswith("STOPWORDS_")}
        every = sorted(set(w for v in lists.values() for w in v) | set(w for g in e["groups"] for w in g["core"] + g["never"]))
        res = []
        for g in e["groups"]:
            by = []
            for name in g["names"]:
                sel = {"True": True, "False": False, "None": None}.get(name, name)
                for return_ids in (False,):
                    kw = {} if name == "(default)" else dict(stopwords=sel)
                    left = set(bm25s.tokenize("|".join(every), lower=False, token_pattern=r"[^|]+", return_ids=False, show_progress=False, **kw)[0])
                    by.append([w for w in every if w not in left])
                left = set(Tokenizer(lower=False, splitter=r"[^|]+", **kw).tokenize(["|".join(every)], return_as="string", show_progress=False)[0])
                by.append([w for w in every if w not in left])
            exported = sorted(lists["STOPWORDS_" + g["export"]]) if g["export"] else []
            res.append(dict(by=by, exported=exported))
        return res
    r = attempt(f)
    r["removed"] = r.pop("v", [])
    return r


def op_refused(e, case):
    def f():
        if e["x"]["what"] == "class":
            Tokenizer(**e["x"]["kw"])
        else:
            bm25s.tokenize(["some words here"], show_progress=False, **e["x"]["kw"])
    r = attempt(f)
    r.pop("v", None)
    return r


def run(case):
    for e in case["ev"]:
        yield globals()["op_" + e["op"]](e, case)


if __name__ == "__main__":
    Worker(run).run()
