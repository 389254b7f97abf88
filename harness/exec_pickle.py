"""Worker: loads indexes from directories in which files were replaced by pickles (of a harmless payload)."""
import copy, os, pathlib, pickle, shutil, sys, tempfile, types, logging, warnings
logging.disable(logging.CRITICAL)
sys.modules["jax"] = None
sys.modules["jax.lax"] = None
if os.environ.get("NO_ORJSON"):
    sys.modules["orjson"] = None
os.environ["HF_HUB_OFFLINE"] = "1"
warnings.simplefilter("ignore")
import numpy as np
import bm25s
import bm25s.hf as hf
from core import Worker, attempt, omit

FILE = dict(data="data.csc.index.npy", indices="indices.csc.index.npy", indptr="indptr.csc.index.npy", nnoc="nonoccurrence_array.index.npy",
            vocab="vocab.index.json", params="params.index.json", corpus="corpus.jsonl", mmindex="corpus.mmindex.json",
            tokvocab="vocab.tokenizer.json", tokstop="stopwords.tokenizer.json")
ARRAYS = ("data", "indices", "indptr", "nnoc")


class Payload:
    """Unpickling creates an empty file (in the scratch directory)."""

    def __init__(self, marker):
        self.marker = marker

    def __reduce__(self):
        return open, (self.marker, "w")


class Api:
    where = None

    def __init__(self, *a, token=None, **kw):
        self.token = token

    def whoami(self, *a, **kw):
        return dict(name="u")

    def repo_info(self, *a, **kw):
        return types.SimpleNamespace(id="u/r")
    model_info = repo_info

    def snapshot_download(self, *a, **kw):
        return Api.where


def run(case):
    x = case["x"]
    root = tempfile.mkdtemp()
    d, marker = os.path.join(root, "d"), os.path.join(root, "ran")
    Api.where = d
    docs = x["docs"]
    corpus = [" ".join(t) for t in docs]
    orig = hf.BM25HF(method=x["method"])
    orig.index([list(t) for t in docs], show_progress=False)
    tok = hf.TokenizerHF(stopwords=["stop"], splitter=str.split)
    tok.tokenize(corpus + ["more"], show_progress=False)

    def fingerprint(r):
        if r.vocab_dict:
            return [r.get_scores([t]).tolist() for t in sorted(orig.vocab_dict)]
        return [r.get_scores_from_ids([i]).tolist() for t, i in sorted(orig.vocab_dict.items())]
    want = fingerprint(orig)

    def save(e):
        kw = omit(dict(allow_pickle=e["x"]["allow"]), dict(allow_pickle=False), e["x"]["salt"])
        c = dict(corpus=corpus) if e["corpus"] else {}
        if e["x"]["hub"]:   # what would be uploaded
            got = []

            class Up(Api):
                def create_repo(self, *a, **k):
                    return types.SimpleNamespace(repo_id="u/r", repo_type="model", url="https://hub.invalid/u/r")

                def repo_exists(self, *a, **k):
                    return True

                def upload_folder(self, *, folder_path, **k):
                    for f in os.listdir(folder_path):
                        got.append(f)
                        shutil.copy(os.path.join(folder_path, f), d)
            os.makedirs(d, exist_ok=True)
            old, hf.HfApi = hf.HfApi, Up
            try:
                orig.save_to_hub("u/r", **c, **kw)
            finally:
                hf.HfApi = old
            for f in ["nnoc"] + ["mmindex"] * e["corpus"]:   # as saving to the directory does
                if FILE[f] not in got and os.path.exists(os.path.join(d, FILE[f])):
                    os.remove(os.path.join(d, FILE[f]))
        else:
            orig.save(d, **c, **kw)
        tok.save_vocab(d)
        tok.save_stopwords(d)

    def plain():
        try:
            for f in os.listdir(d):
                if f.endswith(".npy"):
                    np.load(os.path.join(d, f), allow_pickle=False)
        except ValueError:
            return False
        return True

    def load(e):
        r = e["r"]
        kw = omit(dict(allow_pickle=r["allow"], mmap=r["mmap"]), dict(allow_pickle=False, mmap=False), e["x"]["salt"])
        if r["scope"] == "tokenizer":
            t = hf.TokenizerHF(stopwords=[], splitter=str.split)
            if e["x"]["hub"]:
                t.load_vocab_from_hub("u/r")
                t.load_stopwords_from_hub("u/r")
            else:
                t.load_vocab(d)
                t.load_stopwords(d)
            return t.get_vocab_dict() == tok.get_vocab_dict() and list(t.stopwords) == list(tok.stopwords) and \
                t.tokenize(corpus, update_vocab=False, return_as="ids", show_progress=False) == tok.tokenize(corpus, update_vocab=False, return_as="ids", show_progress=False)
        if r["scope"] == "scores":
            t = copy.copy(orig)
            t.load_scores(e["x"]["path"](d), num_docs=len(docs), **kw)
        elif r["scope"] == "hub":
            t = hf.BM25HF.load_from_hub("u/r", **omit(dict(load_corpus=r["corpus"]), dict(load_corpus=False), e["x"]["salt"]), **kw)
        else:
            t = (bm25s.BM25, hf.BM25HF)[e["x"]["hub"]].load(
                e["x"]["path"](d), **omit(dict(load_corpus=r["corpus"], load_vocab=r["vocab"]), dict(load_corpus=False, load_vocab=True), e["x"]["salt"]), **kw)
        ok = fingerprint(t) == want
        if r["corpus"]:
            ok = ok and [z["text"] for z in (t.corpus[i] for i in range(len(docs)))] == corpus
        return bool(ok)

    old, hf.HfApi = hf.HfApi, Api
    for e in case["ev"]:
        if e["op"] == "tamper":
            p = os.path.join(d, FILE[e["f"]])
            if os.path.exists(p):
                os.remove(p)
            if e["f"] in ARRAYS and not e["x"]["raw"]:
                a = np.empty(e["x"]["n"], dtype=object)
                a[:] = Payload(marker)
                with open(p, "wb") as f:
                    np.save(f, a, allow_pickle=True)
            elif e["f"] not in ARRAYS and e["x"]["expr"]:   # not JSON but an expression of Python
                with open(p, "w") as f:
                    f.write("open(%r, 'w')\n" % marker)
            else:
                with open(p, "wb") as f:
                    pickle.dump(Payload(marker), f, protocol=e["x"]["protocol"])
            if os.path.exists(marker):
                os.remove(marker)
            o = dict(ok=True)
        elif e["op"] == "save":
            o = attempt(lambda: save(e))
            o["ran"] = os.path.exists(marker)
            o["plain"] = o["ok"] and (e["x"]["allow"] or plain())
        else:
            e["x"]["path"] = pathlib.Path if e["x"]["aspath"] else str
            o = attempt(lambda: load(e))
            o["ran"] = os.path.exists(marker)
            o["same"] = bool(o.pop("v", False))
        if os.path.exists(marker):
            os.remove(marker)
        o.pop("v", None)
        yield o
    hf.HfApi = old
    shutil.rmtree(root, ignore_errors=True)


if __name__ == "__main__":
    Worker(run).run()
