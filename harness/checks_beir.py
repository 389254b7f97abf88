"""C23: the benchmark data helpers."""
import json
from gen import G

IDS = ["1", "01", "doc-1", "q_1", "a b", "été", "日本", "x" * 30, "MED-10", "_id", "é\u0301", "🙂", "0", "-1", "a/b", "a_b", "b", "A", "test#1", "'", '"q"', " lead", "\u00a0nb", ""]
VALUES = ["", "some text", "with \"quotes\" and \\", "line\nbreak", "tab\tin it", "\u2028 sep \u0085", "日本語 текст été", "🙂", 5, -1, 2.5, 2 ** 70 + 1, -2 ** 63 - 1, {"n": [2 ** 64 + 3]}, 2 ** 53 + 1, 1e300, True, None,
          [], ["a", 1], {"k": "v"}, {"_id": "inner"}, "null", "\r", "\x1c x"]
KEYS = ["text", "title", "metadata", "url", "tags", "Title", "text2"]


class Data:
    def __init__(self, g):
        self.rng = g.rng
        self.table, self.codes = [], {}
        self.keys = {k: self.code(v) for k, v in (("id", "_id"), ("metadata", "metadata"), ("title", "title"), ("null", None))}
        self.pre = []

    def code(self, v):
        k = json.dumps(v, sort_keys=True)
        if k not in self.codes:
            self.codes[k] = len(self.table)
            self.table.append(v)
        return self.codes[k]

    def record(self, i):
        rng = self.rng
        p = [[self.keys["id"], self.code(i)]]
        for k in rng.sample(KEYS, rng.randint(0, 4)):
            p.append([self.code(k), self.code(rng.choice(VALUES if k != "title" else [v for v in VALUES if isinstance(v, str)]))])
        if rng.random() < 0.3:
            rng.shuffle(p)
        return p

    def dataset(self, n=None):
        rng = self.rng
        ids = rng.sample(IDS, rng.choice([0, 1, 3, 8]) if n is None else n)
        qids = rng.sample(IDS, rng.choice([1, 2, 5]))
        rows = dict(corpus=[self.record(i) for i in ids], queries=[self.record(i) for i in qids], qrels=[])
        for q in qids:
            for d in ids:
                if rng.random() < 0.5:
                    rows["qrels"].append([self.code(q), self.code(d), rng.choice([0, 1, 1, 2, 3, -1, 100])])
        if rng.random() < 0.4:
            rng.shuffle(rows["qrels"])
        return rows

    def forums(self, k):
        rng = self.rng
        fs = []
        for name in rng.sample(["android", "english", "gis", "unix", "web masters", "a", "a_b"], k):
            d = self.dataset(rng.choice([0, 1, 2, 4]))
            f = dict(name=self.code(name), **d)
            for i in {self.table[p[1]] for kind in ("corpus", "queries") for r in d[kind] for p in r if p[0] == self.keys["id"]}:
                self.pre.append([f["name"], self.code(i), self.code(name + "_" + i)])
            fs.append(f)
        # (ids such as a_b and forums such as a could give the same merged id: not part of the property)
        m = [p[2] for p in self.pre]
        return fs if len(set(m)) == len(m) else None

    def layout(self):
        rng = self.rng
        return dict(ascii=rng.random() < 0.4, noeol=rng.random() < 0.3, crlf=rng.random() < 0.15)

    def case(self, ev, tag, versions=(), dataset="set"):
        return dict(ev=ev, keys=self.keys, pre=self.pre, versions=list(versions), x=dict(table=self.table, versions=list(versions), dataset=dataset), tag=tag)


def loads(g):
    d = Data(g)
    ev = []
    for _ in range(6):
        rows = d.dataset()
        kind = d.rng.choice(["corpus", "queries", "qrels", "qrels"])
        ev.append(dict(op="load", kind=kind, form=d.rng.choice(["dict", "list"]), source="local", rows=rows[kind],
                       x=dict(layout=d.layout(), defaults=d.rng.random() < 0.5, split=d.rng.choice(["test", "test", "train", "dev"]))))
    if d.rng.random() < 0.3:
        rows = d.dataset(3)
        fn, drop, kw = d.rng.choice([("load_corpus", "corpus", {}), ("load_queries", "queries", {}), ("load_qrels", "qrels", {}),
                                     ("load_qrels", "", dict(split="train")), ("load_qrels", "", dict(split="validation")), ("load_qrels", "", dict(split="../x")), ("load_qrels", "", dict(split="dev"))])
        ev.append(dict(op="missing", x=dict(fn=fn, kw=kw, rows={k: v for k, v in rows.items() if k != drop})))
    return d.case(ev, "load")


def merges(g, dense):
    while True:
        d = Data(g)
        fs = d.forums(d.rng.choice([1, 2, 3]))
        if fs:
            break
    ev = [dict(op="merge", forums=fs, x=dict(layout=dict(d.layout(), crlf=False), str=d.rng.random() < 0.5, dense=dense))]
    for kind in ("corpus", "queries"):
        ev.append(dict(op="loadmerged", kind=kind, forums=fs, x=dict(root="m")))
    return d.case(ev, "merge")


def cqa(g):
    """The data set that is merged when it is downloaded."""
    while True:
        d = Data(g)
        fs = d.forums(d.rng.choice([1, 3]))
        if fs:
            break
    ev = [dict(op="server", version=1, x=dict(forums=fs))]
    for fault in d.rng.choice([["no"], ["short", "no"], ["error", "no", "no"]]):
        ev.append(dict(op="download", redownload=False, unzip=True, fault=fault, x=dict(at=d.rng.choice([0.3, 0.9]), defaults=d.rng.random() < 0.5)))
    ev += [dict(op="loadmerged", kind=kind, forums=fs, x=dict(root="data")) for kind in ("corpus", "queries")]
    return d.case(ev, "cqa", [dict(corpus=[], queries=[], qrels=[])], "cqadupstack")


def downloads(g):
    d = Data(g)
    rng = d.rng
    vs = [d.dataset(rng.choice([1, 4])) for _ in range(2)]
    ev = [dict(op="server", version=1, x={})]
    for _ in range(rng.choice([3, 6])):
        if rng.random() < 0.2:
            ev.append(dict(op="server", version=rng.choice([1, 2]), x={}))
        ev.append(dict(op="download", redownload=rng.random() < 0.3, unzip=rng.random() < 0.8,
                       fault=rng.choice(["no", "no", "no", "error", "short", "refused"]), x=dict(at=rng.choice([0.0, 0.3, 0.6, 0.99]), defaults=rng.random() < 0.5)))
        if rng.random() < 0.7:
            kind = rng.choice(["corpus", "queries", "qrels"])
            ev.append(dict(op="load", kind=kind, form=rng.choice(["dict", "list"]), source="server", rows=[], x=dict(defaults=rng.random() < 0.5)))
    return d.case(ev, "download", vs, rng.choice(["scifact", "msmarco", "my-set"]))


def C23(chk):
    chk.assumptions += ["identifiers are strings without tabs and line breaks, unique within a file; files are UTF-8",
                        "a crash of the process keeps what was written (no loss of power)"]
    chk.model_check("Publish", "PublishDeep" if chk.thorough else "Publish")
    chk.model_check("Publish", "PublishBad", expect_violation="Complete")
    g = G(chk.seed * 1000 + 23)
    cases = [loads(g) for _ in range(chk.scale(250, 3000))] + [merges(g, i % 4 == 0) for i in range(chk.scale(60, 600))] \
        + [downloads(g) for _ in range(chk.scale(80, 800))] + [cqa(g) for _ in range(chk.scale(20, 200))]
    ascii_env = {"LC_ALL": "C", "PYTHONCOERCECLOCALE": "0", "PYTHONUTF8": "0"}
    envs = [("orjson", {}), ("builtin", {"NO_ORJSON": "1"}), ("ascii locale", ascii_env)]
    for i, (name, env) in enumerate(envs):
        chk.judge("BeirTrace", cases[i::3], "exec_beir", env=env, cls=lambda c, e: f"{name} {c['tag']} {e['op']} {e.get('kind', '')}")
