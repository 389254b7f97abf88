"""Worker: uploads and downloads against a hub in a scratch directory."""
import copy, hashlib, json, os, re, shutil, sys, tempfile, types, logging, zlib
logging.disable(logging.CRITICAL)
sys.modules["jax"] = None
sys.modules["jax.lax"] = None
if os.environ.get("NO_ORJSON"):
    sys.modules["orjson"] = None
os.environ["HF_HUB_OFFLINE"] = "1"
import warnings
warnings.simplefilter("ignore")
import numpy as np
import huggingface_hub
import bm25s
import bm25s.hf as hf
from core import Worker, attempt, omit

HUB = None


class HubError(Exception):
    pass


class FakeApi:
    """The part of HfApi which is used, on a dictionary of repositories."""

    def __init__(self, endpoint=None, token=None, **kw):
        self.token = token

    def _repo(self, repo_id, token=None):
        if HUB.down == "early":
            raise HubError("no connection")
        if repo_id not in HUB.repos:
            raise HubError("404 " + str(repo_id))
        r = HUB.repos[repo_id]
        if r["private"] and not self.allowed(token):
            raise HubError("401 " + repo_id)
        return r

    def allowed(self, token):
        """A token which is given counts, otherwise the one of a login."""
        t = self.token if token is None else token
        return HUB.login if t is None else t == "secret"

    def create_repo(self, repo_id, *, token=None, private=None, repo_type=None, exist_ok=False, **kw):
        if HUB.down == "early":
            raise HubError("no connection")
        if not self.allowed(token):
            raise HubError("401")
        if "/" not in repo_id:
            repo_id = "me/" + repo_id
        if repo_id in HUB.repos and not exist_ok:
            raise HubError("409")
        HUB.repos.setdefault(repo_id, dict(private=bool(private), snaps=[]))
        return types.SimpleNamespace(repo_id=repo_id, repo_type=repo_type or "model", url="https://hub.invalid/" + repo_id)

    def repo_info(self, repo_id, *, token=None, **kw):
        self._repo(repo_id, token)
        return types.SimpleNamespace(id=repo_id)
    model_info = repo_info

    def repo_exists(self, repo_id, *, token=None, **kw):
        return repo_id in HUB.repos

    def upload_folder(self, *, repo_id, folder_path, token=None, repo_type=None, path_in_repo=None, commit_message=None, **kw):
        r = self._repo(repo_id, token)
        files = read_dir(folder_path)
        HUB.uploads.append(dict(repo=repo_id, files=listing(folder_path), readme=files.get("README.md", b"").decode("utf-8"), message=commit_message))
        if HUB.down == "upload":
            raise HubError("connection lost")
        r["snaps"].append(dict(r["snaps"][-1] if r["snaps"] else {}, **files))

    def snapshot_download(self, repo_id, *, revision=None, token=None, local_dir=None, repo_type=None, **kw):
        r = self._repo(repo_id, token)
        if not r["snaps"] and revision is not None:
            raise HubError("404 revision")
        n = len(r["snaps"]) if revision in (None, "main") else int(revision[1:])
        snap = r["snaps"][n - 1] if r["snaps"] else {}
        if HUB.down == "upload":
            raise HubError("connection lost")
        if local_dir is None:
            d = os.path.join(HUB.cache, repo_id.replace("/", "--"), "snapshots", "r%d" % n)
            blobs = os.path.join(HUB.cache, repo_id.replace("/", "--"), "blobs")
            os.makedirs(blobs, exist_ok=True)
            for name, data in snap.items():
                p = os.path.join(d, name)
                if os.path.lexists(p):
                    continue
                os.makedirs(os.path.dirname(p), exist_ok=True)
                b = os.path.join(blobs, hashlib.sha1(data).hexdigest())
                if not os.path.exists(b):
                    with open(b, "wb") as f:
                        f.write(data)
                os.symlink(b, p)
            os.makedirs(d, exist_ok=True)
            return d
        for name, data in snap.items():
            p = os.path.join(str(local_dir), name)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p + ".incomplete", "wb") as f:
                f.write(data)
            os.replace(p + ".incomplete", p)
        return str(local_dir)


def read_dir(d):
    res = {}
    for base, _, names in os.walk(str(d)):
        for n in names:
            p = os.path.join(base, n)
            with open(p, "rb") as f:
                res[os.path.relpath(p, str(d))] = f.read()
    return res


def listing(d):
    return sorted([n, hashlib.sha1(x).hexdigest()[:12]] for n, x in read_dir(d).items())


huggingface_hub.HfApi = FakeApi
hf.HfApi = FakeApi


def probe(t):
    """What a tokenizer makes of the probes, without changing it."""
    t2 = copy.copy(t)
    for k, v in vars(t).items():
        if isinstance(v, (dict, list)):
            setattr(t2, k, copy.deepcopy(v))
    return t2.tokenize(PROBES, update_vocab=True, return_as="string", show_progress=False), sorted(t.get_vocab_dict().items())


PROBES = ["cat dog fish été 日本 bird the and", "", "running runs cat zebra"]


class Run:
    def __init__(self, case):
        global HUB
        self.case, self.x = case, case["x"]
        tempfile.tempdir = None
        self.top = tempfile.mkdtemp()
        self.tmp = os.path.join(self.top, "tmp")
        os.mkdir(self.tmp)
        tempfile.tempdir = self.tmp
        HUB = types.SimpleNamespace(repos={}, uploads=[], down="no", login=False, cache=os.path.join(self.top, "cache"))
        self.retr = {}
        for i, o in enumerate(self.x["objs"], 1):
            r = hf.BM25HF(**dict(o["kw"], **({"corpus": self.x["corpora"][o["corpus"] - 1]} if o["corpus"] else {})))
            r.index(bm25s.tokenize(o["docs"], stopwords=None, show_progress=False), show_progress=False)
            self.retr[i] = r
        self.toks = {}
        for i, o in enumerate(self.x["toks"], 1):
            t = hf.TokenizerHF(stopwords=o["stop"], **self.stemmer())
            t.tokenize(o["texts"], update_vocab=True, show_progress=False)
            self.toks[i] = t
        self.keep = []

    def stemmer(self):
        return dict(stemmer=lambda w: w[:3]) if self.x["stemmer"] else {}

    def dir(self, d):
        return os.path.join(self.top, "dirs", d, "x")

    def fingerprint(self, r):
        v = dict(r.vocab_dict)
        s = {}
        for t, i in sorted(v.items()):
            s[t] = np.asarray(r.get_scores_from_ids([int(i)]), dtype=np.float32).tolist()
        return json.dumps([s, {k: str(getattr(r, k)) for k in ("k1", "b", "delta", "method", "idf_method", "dtype")},
                           r.retrieve([list(v)[:2]], k=1, show_progress=False, return_as="tuple", corpus=list(range(r.scores["num_docs"])))[0].tolist()])

    def expected_corpus(self, docs):
        return [dict(id=i, text=d) if isinstance(d, str) else d for i, d in enumerate(docs)]

    def op_upload(self, e):
        x = e["x"]
        HUB.down, HUB.uploads = e["fails"], []
        d = self.dir(e["dir"]) if e["dir"] else None
        existed = d and os.path.exists(d)
        before = listing(d) if d else []
        kw = dict(token="secret" if e["fails"] != "early" or x["why"] == "down" else "wrong", overwrite_local=e["over"])
        HUB.login = x["login"]
        if HUB.login and kw["token"] == "secret":
            del kw["token"]
        if x["message"]:
            kw["commit_message"] = x["message"]
        if e["fails"] == "early" and x["why"] == "token":
            HUB.down = "no"
        if d:
            kw["local_dir"] = d
        elif x["defaults"]:
            kw["local_dir"] = None
        if not e["over"] and x["defaults"]:
            kw.pop("overwrite_local")
        if not (x["private"] is None):
            kw["private"] = x["private"]

        def f():
            if e["kind"] == "index":
                k2 = dict(kw)
                if not (e["readme"] and x["defaults"]):
                    k2["include_readme"] = e["readme"]
                if x["corpus"]:
                    c = copy.deepcopy(self.x["corpora"][x["corpus"] - 1])
                    how = zlib.crc32(repr(e).encode()) % 5   # any iterable
                    if how == 1:
                        c = tuple(c)
                    elif how == 2:
                        c = (z for z in c)
                    elif how == 3:
                        a = np.empty(len(c), dtype=object)
                        for i, z in enumerate(c):
                            a[i] = z
                        c = a
                    k2["corpus"] = c
                return self.retr[e["n"]].save_to_hub(e["repo"], **k2)
            t = self.toks[e["n"]]
            return (t.save_vocab_to_hub if e["kind"] == "vocab" else t.save_stopwords_to_hub)(e["repo"], **kw)
        o = attempt(f)
        o.pop("v", None)
        HUB.down, HUB.login = "no", False
        readme = []
        if e["kind"] == "index" and HUB.uploads:
            txt = HUB.uploads[0]["readme"]
            for row in ("Number of documents", "k1", "b", "method"):
                m = re.search(r"^\| %s \| (.*?) \|$" % row, txt, re.M)
                readme.append(m.group(1).strip("`") if m else "")
        r = HUB.repos.get(e["canonical"])
        o.update(before=before, after=listing(d) if d else [], temps=sorted(os.listdir(self.tmp)), readme=readme,
                 message=all(u["message"] == x["message"] for u in HUB.uploads if x["message"]),
                 uploads=[dict(repo=u["repo"], files=u["files"]) for u in HUB.uploads], private=bool(r["private"]) if r else e["private"])
        for z in os.listdir(self.tmp):
            shutil.rmtree(os.path.join(self.tmp, z), ignore_errors=True)
        return o

    def op_load(self, e):
        x = e["x"]
        HUB.down = e["fails"]
        kw = dict(token="secret")
        HUB.login = x["login"]
        if HUB.login:
            del kw["token"]
        if e["dir"]:
            kw["local_dir"] = self.dir(e["dir"])
        if e["rev"]:
            kw["revision"] = "r%d" % e["rev"]
        elif x["main"]:
            kw["revision"] = "main"

        def f():
            if e["kind"] == "index":
                kw2 = omit(dict(kw, load_corpus=e["loadcorpus"], mmap=x["mmap"]), dict(load_corpus=False, mmap=False), e)
                r = hf.BM25HF.load_from_hub(e["canonical"], **kw2)
                fp = self.fingerprint(r)
                eq = [i for i, z in self.retr.items() if self.fingerprint(z) == fp]
                if r.corpus is None:
                    corpora = [0]
                else:
                    docs = [r.corpus[i] for i in range(len(r.corpus))]
                    corpora = [i for i, z in enumerate(self.x["corpora"], 1) if self.expected_corpus(z) == docs]
                    if len(docs) >= r.scores["num_docs"]:
                        q = [list(r.vocab_dict)[:2]]
                        res, _ = r.retrieve(q, k=1, show_progress=False)
                        idx, _ = r.retrieve(q, k=1, show_progress=False, corpus=list(range(r.scores["num_docs"])))
                        if res.tolist()[0][0] != docs[int(idx[0][0])]:
                            corpora = [-1]
                mapped = isinstance(r.scores["data"], np.memmap) and not isinstance(r.corpus, list)
                if x["mmap"]:
                    self.keep.append(r)
                return eq, corpora, mapped == x["mmap"] or (r.corpus is None and mapped)
            t = hf.TokenizerHF(stopwords=[], **self.stemmer())
            if e["kind"] == "vocab":
                t.load_vocab_from_hub(e["canonical"], **kw)
                return [i for i, z in self.toks.items() if t.get_vocab_dict() == z.get_vocab_dict() and self.with_stop(z, []) == probe(t)], [0], True
            t.load_stopwords_from_hub(e["canonical"], **kw)
            return [i for i, z in self.toks.items() if set(t.stopwords) == set(z.stopwords)], [0], True
        o = attempt(f)
        HUB.down, HUB.login = "no", False
        o["equals"], o["corpora"], o["mapping"] = o.pop("v", ([], [], True))
        snaps = (HUB.repos.get(e["canonical"]) or dict(snaps=[]))["snaps"]
        snap = snaps[(e["rev"] or len(snaps)) - 1] if snaps else {}
        o["snapshot"] = sorted([n, hashlib.sha1(z).hexdigest()[:12]] for n, z in snap.items())
        o["after"] = listing(self.dir(e["dir"])) if e["dir"] else []
        o["temps"] = sorted(os.listdir(self.tmp))
        return o

    def with_stop(self, t, stop):
        t = copy.copy(t)
        t.stopwords = stop
        return probe(t)

    def op_clear(self, e):
        shutil.rmtree(self.dir(e["dir"]), ignore_errors=True)
        for name, text in e["x"]["files"].items():
            p = os.path.join(self.dir(e["dir"]), name)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "w") as f:
                f.write(text)
        if e["x"]["mkdir"]:
            os.makedirs(self.dir(e["dir"]), exist_ok=True)
        return dict(ok=True)

    def run(self):
        for e in self.case["ev"]:
            o = getattr(self, "op_" + e["op"])(e)
            o.pop("v", None)
            yield o
        shutil.rmtree(self.top, ignore_errors=True)


if __name__ == "__main__":
    Worker(lambda case: Run(case).run()).run()
