"""Worker: saves of an index with every crash point. The directory is snapshotted before every file
system call of a save; from the snapshots follow the states in which the process could have died."""
import json, os, shutil, sys, tempfile, logging
logging.disable(logging.CRITICAL)
sys.modules["jax"] = None
sys.modules["jax.lax"] = None
if os.environ.get("NO_ORJSON"):
    sys.modules["orjson"] = None
import warnings
warnings.simplefilter("ignore")
import numpy as np
import bm25s
from bm25s.utils.corpus import JsonlCorpus
from core import Worker, attempt

EVENTS = {"open", "os.remove", "os.rename", "os.mkdir", "os.rmdir", "os.truncate", "os.link", "os.symlink",
          "os.listdir", "os.scandir", "os.chmod", "shutil.rmtree", "shutil.move", "shutil.copyfile", "os.utime"}
REC = None


def hook(event, args):
    r = REC
    if r is not None and event in EVENTS and not r.busy:
        r(event, args)


sys.addaudithook(hook)


class Recorder:
    """Called before every file system operation below `root`."""

    def __init__(self, root, fail_at=None, exc=None, skip=()):
        self.skip = skip
        self.root, self.fail_at, self.exc = root, fail_at, exc
        self.snaps, self.ops = [], []
        self.n = 0
        self.busy = False

    def __call__(self, event, args):
        if event in self.skip:
            return
        paths = [os.fsdecode(a) for a in args if isinstance(a, (str, bytes, os.PathLike))]
        mode = ""
        if event == "open":
            if not paths or isinstance(args[0], int):
                return
            mode = args[1]
            flags = args[2] if isinstance(args[2], int) else 0
            write = (isinstance(mode, str) and any(z in mode for z in "wxa+")) or flags & (os.O_WRONLY | os.O_RDWR)
            if not write:
                return
            trunc = (isinstance(mode, str) and ("w" in mode or "x" in mode)) or flags & os.O_TRUNC
            mode = "trunc" if trunc else "inplace"
        if not any(os.path.abspath(p).startswith(self.root) for p in paths if p):
            return
        self.busy = True
        try:
            if self.fail_at is None:
                self.snaps.append(snapshot(self.root))
                self.ops.append((event, mode, *(os.path.relpath(p, self.root) for p in paths[:1 if event == "open" else 2])))
        finally:
            self.busy = False
        self.n += 1
        if self.fail_at is not None and self.n == self.fail_at:
            raise self.exc


def snapshot(root):
    out = {}
    for d, _, fs in os.walk(root):
        out[os.path.relpath(d, root) + "/"] = None
        for f in fs:
            p = os.path.join(d, f)
            try:
                with open(p, "rb") as fh:
                    out[os.path.relpath(p, root)] = fh.read()
            except FileNotFoundError:
                pass
    return out


def restore(snap, root):
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    for p, b in snap.items():
        q = os.path.join(root, p)
        if b is None:
            os.makedirs(q, exist_ok=True)
        else:
            os.makedirs(os.path.dirname(q), exist_ok=True)
            with open(q, "wb") as f:
                f.write(b)


def prefixes(b, dense):
    n = len(b)
    cuts = {0, 1, n // 2, n - 1}
    if dense:
        cuts |= {n // 4, 3 * n // 4, n - 2, n - 3}
    cuts |= {i + 1 for i in [b.find(b"\n"), b.rfind(b"\n", 0, n - 1)] if i >= 0}
    return sorted(k for k in cuts if 0 <= k < n)


def crash_states(snaps, ops, dense):
    """Yields (label, state): what is on disk if the process is killed at some moment."""
    seen = set()

    def fresh(s):
        k = hash(tuple(sorted((p, b) for p, b in s.items() if b is not None)) + tuple(p for p in sorted(s) if s[p] is None))
        if k in seen:
            return False
        seen.add(k)
        return True
    for i, (s, op) in enumerate(zip(snaps, ops)):
        if fresh(s):
            yield f"before {op}", s
        t = snaps[i + 1]
        cur = dict(s)
        if op[0] == "os.rename" and len(op) > 3:
            # a rename takes place at once (it replaces a file of that name)
            src, dst = op[2], op[3]
            move = {p: dst + p[len(src):] for p in s if (p == src or p.startswith(src + "/"))}
            if all(q in t for q in move.values()):
                for p in move:
                    cur.pop(p)
                for p, q in move.items():
                    cur[q] = s[p]
                if fresh(cur):
                    yield f"after {op}", dict(cur)
        s = dict(cur)
        for p in sorted(t, key=lambda p: (p != op[2], p)):
            new, old = t[p], s.get(p)
            opened = op[0] == "open" and p == op[2]
            if new is None or (new == old and not opened):
                continue
            base = old or b""
            if opened and op[1] == "trunc" or old is None:
                cand = [(k, new[:k]) for k in prefixes(new, dense)]
            else:
                cand = [(k, new[:k] + base[k:]) for k in prefixes(new, dense)]
            for k, b in cand:
                st = dict(cur)
                st[p] = b
                if fresh(st):
                    yield f"{op}: {p} with {k} of {len(new)} bytes", st
            cur[p] = new
        for p in set(s) - set(t):
            cur.pop(p)
    if fresh(snaps[-1]):
        yield "finished", snaps[-1]


class Codes:
    def __init__(self):
        self.d = {}

    def __call__(self, v):
        return self.d.setdefault(json.dumps(v, sort_keys=True, default=repr), len(self.d) + 1)


class Run:
    def __init__(self, case):
        self.case = case
        self.codes = Codes()
        self.names = case["names"]
        self.maxid = max(len(v["toks"]) for v in case["x"]) + 2
        self.tmp = tempfile.mkdtemp()
        self.live = os.path.join(self.tmp, "live")
        self.work = os.path.join(self.tmp, "work")
        os.makedirs(self.live)

    def params(self, r):
        return [getattr(r, k) for k in ("k1", "b", "delta", "method", "idf_method", "dtype", "int_dtype", "backend")]

    def answers(self, r):
        out = [int(r.scores["num_docs"])]
        for i in range(self.maxid):
            o = attempt(lambda: [float(z) for z in r.get_scores_from_ids([i])])
            out.append(o["v"] if o["ok"] else "refused")
        return out

    def build(self, v):
        x = self.case["x"][v - 1]
        r = bm25s.BM25(**x["kw"])
        r.index([[x["toks"][t] for t in d] for d in x["docs"]], show_progress=False)
        return r

    def describe(self, r, x):
        p = dict(params=self.codes(["p", self.params(r)]), answers=self.codes(["a", self.answers(r)]),
                 vocab=self.codes(["v", sorted(r.vocab_dict.items(), key=repr)]))
        if self.case["withcorpus"]:
            p["corpus"] = self.codes(["c", [{"id": i, "text": d} if isinstance(d, str) else d for i, d in enumerate(x["corpus"])]])
        return p

    def load(self, root, mmap, corpus, vocab):
        def f():
            r = bm25s.BM25.load(os.path.join(root, "idx"), mmap=mmap, load_corpus=corpus, load_vocab=vocab, **self.names)
            p = dict(params=self.codes(["p", self.params(r)]), answers=self.codes(["a", self.answers(r)]))
            if vocab:
                p["vocab"] = self.codes(["v", sorted(r.vocab_dict.items(), key=repr)])
            if corpus and self.case["withcorpus"]:
                c = r.corpus
                p["corpus"] = self.codes(["c", None if c is None else [c[i] for i in range(len(c))]])
            return p
        o = attempt(f)
        return {"ok": True, "parts": o["v"]} if o["ok"] else {"ok": False, "parts": {}, "exc": o["exc"]}

    def loads(self, root, full=True):
        combos = [(False, True, True), (True, True, True), (False, False, True)] if full else [(False, True, True)]
        combos += [(True, False, False)] if full else []
        return [self.load(root, *c) for c in combos]

    def lines(self, root):
        """Opening the corpus directly gives its lines or an error."""
        p = os.path.join(root, "idx", self.names.get("corpus_name", "corpus.jsonl"))
        if not os.path.exists(p):
            return True
        with open(p, "rb") as f:
            raw = f.read()
        want = []
        for ln in raw.split(b"\n")[:-1] if raw.endswith(b"\n") else raw.split(b"\n"):
            try:
                want.append(json.loads(ln.decode("utf-8")))
            except ValueError:
                want.append("torn")
        o = attempt(lambda: JsonlCorpus(p, show_progress=False, verbosity=0))
        if not o["ok"]:
            return True
        c = o["v"]
        if len(c) != len(want):
            return False
        for i, w in enumerate(want):
            g = attempt(lambda: c[i])
            if g["ok"] != (w != "torn") or (g["ok"] and g["v"] != w):
                return False
        c.close()
        return True

    def save(self, r, x):
        kw = dict(self.names)
        if self.case["withcorpus"]:
            kw["corpus"] = x["corpus"]
        r.save(os.path.join(self.live, "idx"), **kw)

    def run(self):
        global REC
        for e in self.case["ev"]:
            x = self.case["x"][e["v"] - 1]
            r = self.build(e["v"])
            before = self.loads(self.live)
            start = snapshot(self.live)
            rec = Recorder(self.live)
            if e.get("viammap") and start.get("idx/") is None and "idx/" in start:
                # a retriever which is memory-mapped from this very directory saves itself again
                o = attempt(lambda: bm25s.BM25.load(os.path.join(self.live, "idx"), mmap=True, load_corpus=False, **self.names))
                if o["ok"]:
                    r = o["v"]
            REC = rec
            o = attempt(lambda: self.save(r, x))
            REC = None
            rec.snaps.append(snapshot(self.live))
            final = rec.snaps[-1]
            crashes, states = [], []
            for label, st in crash_states(rec.snaps, rec.ops, self.case["dense"]):
                restore(st, self.work)
                crashes.append(dict(at=label, loads=self.loads(self.work), lines=self.lines(self.work)))
                states.append(st)
            # errors raised by the file system calls
            errors = []
            for j in range(1, rec.n + 1):
                exc = [OSError(28, "No space left on device"), KeyboardInterrupt()][j % 2 if not self.case["dense"] else 0]
                for exc in ([exc] if not self.case["dense"] else [exc, KeyboardInterrupt()]):
                    restore(start, self.live)
                    r2 = self.build(e["v"])
                    REC = Recorder(self.live, fail_at=j, exc=exc)
                    returned = True
                    try:
                        self.save(r2, x)
                    except BaseException:  # noqa
                        returned = False
                    REC = None
                    errors.append(dict(at=j, exc=type(exc).__name__, returned=returned, loads=self.loads(self.live, full=False)))
            restore(final, self.live)
            after = self.loads(self.live)
            for l in [before, after] + [z["loads"] for z in crashes + errors]:
                for m in l:
                    m.pop("exc", None)
            yield dict(ok=True, saved=o["ok"], before=before, after=after, crashes=crashes, errors=errors, ops=len(rec.ops))
            if e["interrupt"]:
                restore(states[int(e["frac"] * (len(states) - 1))], self.live)
        shutil.rmtree(self.tmp, ignore_errors=True)


def handler(case):
    run = Run(case)
    versions = []
    for v, x in enumerate(case["x"], 1):
        r = run.build(v)
        versions.append(run.describe(r, x))
    for o in run.run():
        o["ev"] = {"versions": versions}
        yield o


if __name__ == "__main__":
    Worker(handler).run()
