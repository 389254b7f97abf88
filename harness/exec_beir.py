"""Worker: loaders, merges and downloads of benchmark data in scratch directories."""
import io, json, os, shutil, sys, tempfile, zipfile, logging
import exec_persist as P   # (crash recorder)
import urllib.request
from bm25s.utils import beir
from core import Worker, attempt, progress

# (pathlib takes a directory that cannot be listed for an empty one)
LISTING = ("os.listdir", "os.scandir")
KW = dict(show_progress=False)


def dump(v):
    return json.dumps(v, sort_keys=True)


class Flaky:
    """A response that breaks after some bytes."""

    def __init__(self, r, limit, how):
        self.r, self.left, self.how = r, limit, how
        self.headers = r.headers

    def read(self, n=-1):
        if self.left <= 0:
            if self.how == "error":
                raise ConnectionResetError("connection reset")
            return b""
        b = self.r.read(min(n, self.left) if n and n > 0 else self.left)
        self.left -= len(b)
        return b

    def info(self):
        return self.headers

    def getheader(self, k, d=None):
        return self.headers.get(k, d)

    def close(self):
        self.r.close()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __iter__(self):
        while True:
            b = self.read(4096)
            if not b:
                return
            yield b


class Run:
    def __init__(self, case):
        self.case, self.x = case, case["x"]
        tempfile.tempdir = None
        self.top = os.path.realpath(tempfile.mkdtemp())
        self.table = self.x["table"]
        self.codes = {dump(v): i for i, v in enumerate(self.table)}

    def code(self, v):
        return self.codes.get(dump(v), -1)

    def rec(self, pairs):
        return {self.table[k]: self.table[v] for k, v in pairs}

    def write(self, d, rows, layout, qrels_name="test"):
        """The three files of a data set."""
        nl, asc = ("\r\n" if layout.get("crlf") else "\n"), layout.get("ascii", False)
        os.makedirs(os.path.join(d, "qrels"), exist_ok=True)
        for kind in ("corpus", "queries"):
            if kind in rows:
                t = nl.join(json.dumps(self.rec(r), ensure_ascii=asc) for r in rows[kind])
                if t and not layout.get("noeol"):
                    t += nl
                with open(os.path.join(d, kind + ".jsonl"), "wb") as f:
                    f.write(t.encode("utf-8"))
        if "qrels" in rows:
            t = nl.join(["query-id\tcorpus-id\tscore"] + ["\t".join([self.table[q], self.table[z], str(s)]) for q, z, s in rows["qrels"]])
            if not layout.get("noeol"):
                t += nl
            with open(os.path.join(d, "qrels", qrels_name + ".tsv"), "wb") as f:
                f.write(t.encode("utf-8"))

    def load(self, e, save_dir, name):
        kw = dict(progress(e), save_dir=save_dir)
        if not (e["form"] == "dict" and e["x"].get("defaults")):
            kw["return_dict"] = e["form"] == "dict"

        def f():
            if e["kind"] == "qrels":
                if not (e["x"].get("split", "test") == "test" and e["x"].get("defaults")):
                    kw["split"] = e["x"].get("split", "test")
                r = beir.load_qrels(name, **kw)
                if e["form"] == "list":
                    return [[self.code(q), self.code(z), s if type(s) is int else -999] for q, z, s in r]
                return [[self.code(q), [[self.code(z), s if type(s) is int else -999] for z, s in m.items()]] for q, m in r.items()]
            r = (beir.load_corpus if e["kind"] == "corpus" else beir.load_queries)(name, **kw)
            if e["form"] == "list":
                return [[-1, [[self.code(k), self.code(v)] for k, v in m.items()]] for m in r]
            return [[self.code(i), [[self.code(k), self.code(v)] for k, v in m.items()]] for i, m in r.items()]
        o = attempt(f)
        o["rows"] = o.pop("v", [])
        return o

    def op_load(self, e):
        if e["source"] == "server":
            return self.load(e, os.path.join(self.top, "data"), self.x["dataset"])
        d = os.path.join(self.top, "local", "set")
        shutil.rmtree(d, ignore_errors=True)
        self.write(d, {e["kind"]: e["rows"]}, e["x"]["layout"], e["x"].get("split", "test"))
        return self.load(e, os.path.join(self.top, "local"), "set")

    def op_missing(self, e):
        d = os.path.join(self.top, "local", "empty")
        os.makedirs(d, exist_ok=True)
        for q in {"test", *[v for v in e["x"]["kw"].values() if v == "validation"]}:
            self.write(d, e["x"]["rows"], {}, q)
        o = attempt(lambda: getattr(beir, e["x"]["fn"])("empty", save_dir=os.path.join(self.top, "local"), **KW, **e["x"]["kw"]))
        o.pop("v", None)
        return o

    # -- merging -------------------------------------------------------------------------------
    def read_merged(self, d):
        """The merged files that exist, by an independent reader."""
        out = {}
        for kind, p in (("corpus", "corpus.jsonl"), ("queries", "queries.jsonl"), ("qrels", "qrels/test.tsv")):
            p = os.path.join(d, p)
            if not os.path.exists(p):
                continue
            try:
                with open(p, "rb") as f:
                    lines = f.read().decode("utf-8").split("\n")
                if kind == "qrels":
                    assert lines[0].split("\t") == ["query-id", "corpus-id", "score"]
                    rows = [z.split("\t") for z in lines[1:] if z]
                    out[kind] = [[self.code(a), self.code(b), int(s)] for a, b, s in rows]
                else:
                    out[kind] = [[[self.code(k), self.code(v)] for k, v in json.loads(z).items()] for z in lines if z]
            except (ValueError, AssertionError):
                out[kind] = [[-1, -1, -1]] if kind == "qrels" else [[[-1, -1]]]
        return out

    def op_merge(self, e):
        d = os.path.join(self.top, "m", "cqadupstack")
        shutil.rmtree(os.path.join(self.top, "m"), ignore_errors=True)
        os.makedirs(d)
        for f in e["forums"]:
            self.write(os.path.join(d, self.table[f["name"]]), f, e["x"]["layout"])
        arg = d if e["x"]["str"] else __import__("pathlib").Path(d)
        start = P.snapshot(d)
        out = dict(ok=True, reruns=True, kept=True)
        coll = {w: {k: {} for k in ("corpus", "queries", "qrels")} for w in ("after", "crashed", "again")}

        def add(w, files):
            for k, rows in files.items():
                coll[w][k].setdefault(dump(rows), rows)
        rec = P.REC = P.Recorder(d, skip=LISTING)
        try:
            o = attempt(lambda: beir.merge_cqa_dupstack(arg))
        finally:
            P.REC = None
        rec.snaps.append(P.snapshot(d))
        out["ok"] = o["ok"]
        if "msg" in o:
            out["msg"] = o["msg"]
        add("after", self.read_merged(d))
        done = P.snapshot(d)
        # a finished merge stays, whatever happens to the sources
        f0 = self.table[e["forums"][0]["name"]]
        shutil.rmtree(os.path.join(d, f0), ignore_errors=True)
        keep = {k: v for k, v in done.items() if v is not None and not any(k.startswith(self.table[f["name"]] + "/") for f in e["forums"])}
        attempt(lambda: beir.merge_cqa_dupstack(arg))
        now = P.snapshot(d)
        out["kept"] = all(now.get(k) == v for k, v in keep.items())
        for label, state in P.crash_states(rec.snaps, rec.ops, e["x"]["dense"]):
            P.restore(state, d)
            add("crashed", self.read_merged(d))
            o = attempt(lambda: beir.merge_cqa_dupstack(arg))
            out["reruns"] = out["reruns"] and o["ok"]
            files = self.read_merged(d)
            out["reruns"] = out["reruns"] and len(files) == 3
            add("again", files)
        # an error in the middle of a merge (e.g. a full disk)
        for n in range(1, rec.n + 1, 1 if e["x"]["dense"] else 2):
            P.restore(start, d)
            P.REC = P.Recorder(d, fail_at=n, exc=OSError(28, "No space left on device"), skip=LISTING)
            try:
                o = attempt(lambda: beir.merge_cqa_dupstack(arg))
            finally:
                P.REC = None
            add("crashed", self.read_merged(d))
            o = attempt(lambda: beir.merge_cqa_dupstack(arg))
            out["reruns"] = out["reruns"] and o["ok"]
            add("again", self.read_merged(d))
        P.restore(done, d)
        for w, v in coll.items():
            out[w] = {k: list(z.values()) for k, z in v.items()}
        return out

    def op_loadmerged(self, e):
        fn = beir.load_corpus if e["kind"] == "corpus" else beir.load_queries
        o = attempt(lambda: [self.code(k) for k in fn("cqadupstack", save_dir=os.path.join(self.top, e["x"]["root"]), **KW)])
        o["ids"] = o.pop("v", [])
        return o

    # -- downloads -----------------------------------------------------------------------------
    def op_server(self, e):
        p = os.path.join(self.top, "server")
        os.makedirs(p, exist_ok=True)
        if "forums" in e["x"]:
            for f in e["x"]["forums"]:
                self.write(os.path.join(p, "v", "cqadupstack", self.table[f["name"]]), f, {})
        else:
            self.write(os.path.join(p, "v", self.x["dataset"]), self.x["versions"][e["version"] - 1], {})
        with zipfile.ZipFile(os.path.join(p, self.x["dataset"] + ".zip"), "w") as z:
            for base, _, names in os.walk(os.path.join(p, "v")):
                for n in names:
                    q = os.path.join(base, n)
                    z.write(q, os.path.relpath(q, os.path.join(p, "v")))
        shutil.rmtree(os.path.join(p, "v"))
        return dict(ok=True)

    def op_download(self, e):
        zp = os.path.join(self.top, "server", self.x["dataset"] + ".zip")
        size = os.path.getsize(zp)
        real = urllib.request.urlopen
        fetched = []

        def fake(url, *a, **k):
            u = url if isinstance(url, str) else url.full_url
            if not u.startswith("file://" + self.top):
                raise OSError("no network: " + u)
            fetched.append(u)
            if e["fault"] == "refused":
                raise OSError("connection refused")
            r = real(url, *a, **k)
            if e["fault"] != "no":
                return Flaky(r, int(size * e["x"]["at"]), e["fault"])
            return r
        urllib.request.urlopen = fake
        data = os.path.join(self.top, "data")
        kw = dict(KW, base_url="file://" + self.top + "/server/{}.zip", save_dir=data)
        if not e["unzip"] or not e["x"]["defaults"]:
            kw["unzip"] = e["unzip"]
        if e["redownload"] or not e["x"]["defaults"]:
            kw["redownload"] = e["redownload"]
        try:
            o = attempt(lambda: str(beir.download_dataset(self.x["dataset"], **kw)))
        finally:
            urllib.request.urlopen = real
        v = o.pop("v", "")
        o["fetched"] = bool(fetched)
        if e["unzip"]:
            o["path"] = v == os.path.join(data, self.x["dataset"]) and os.path.isdir(v)
        else:
            o["path"] = v.endswith(".zip") and zipfile.is_zipfile(v)
        return o

    # -- results -------------------------------------------------------------------------------
    def run(self):
        for e in self.case["ev"]:
            o = getattr(self, "op_" + e["op"])(e)
            o.pop("v", None)
            yield o
        shutil.rmtree(self.top, ignore_errors=True)


if __name__ == "__main__":
    Worker(lambda case: Run(case).run()).run()
