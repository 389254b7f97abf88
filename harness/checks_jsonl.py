"""C11, C12: random access into JSONL corpora, concurrent readers."""
import json
from gen import G

NAMES = ["a.jsonl", "a.json", "a", "a.b.jsonl", "a.b", "a.txt", "b.jsonl", "corpus.jsonl", "v1.0/corpus", "v1.1/corpus",
         "v1/corpus", "x.y/z", ".jsonl", "é 1.jsonl", "a.jsonl.jsonl", "a.mm", "q", "q.jsonl", "A.jsonl", "a.jsonl.json"]
CHARS = ["a", "b", " ", "é", "ß", "\u2028", "\u2029", "\u0085", "\u00a0", "日", "\ufeff", "\U0001f600", "\x7f", "'", "\\\\", '\\"', "\\n", "\\r\\n",
         "\\u2028", "\\ud83d\\ude00", "\\t", "{", "}", "[", ","]


def text(rng, big):
    n = rng.choice([0, 1, 2, 5, 20, 60]) if not big or rng.random() < 0.8 else rng.choice([4000, 8100, 8190, 8192, 20000, 70000])
    return "".join(rng.choice(CHARS if rng.random() < 0.5 else "abcdefghij ") for _ in range(n))


def line(rng, i, big, ascii_only=False):
    t = text(rng, big)
    if ascii_only:
        t = t.encode("ascii", "ignore").decode()
    k = rng.randrange(9)
    if k < 4:
        return '{"id": %d, "text": "%s"}' % (i, t)
    if k == 4:
        return '"%d%s"' % (i, t)
    if k == 5:
        return '[%d, "%s", null]' % (i, t)
    if k == 6:
        return rng.choice(["%d", "%d.5", "-%d", "1180591620717411303424%d", "[-99223372036854775808%d]", "%d.12345678901234567890", "12%de300"]) % (i + 1)
    if k == 7:
        return '  {"id":%d,"text":"%s", "m": {"x": [1, 2.0, true]}}\t ' % (i, t)
    return rng.choice(["null", "true", "[]", "{}", '""', '"%d"' % i])


def content(rng, thorough, kind=None):
    kind = kind or rng.choice(["mixed", "mixed", "same", "big", "boundary", "crlf", "blank", "uniform", "one", "dicts"])
    n = rng.choice([1, 2, 3, 7, 20, 60]) if kind != "one" else 1
    if kind == "boundary":
        # line ends around the buffer size of text files
        lines, size = [], 0
        for i in range(n):
            want = rng.choice([8190, 8191, 8192, 8193, 16384, 100])
            body = '{"i":%d,"t":"%s"}'
            pad = max(0, want - size % 8192 - len(body % (i, "")) - 1) if rng.random() < 0.7 else rng.randint(0, 30)
            t = "x" * pad
            if rng.random() < 0.5 and pad > 3:
                t = t[:-3] + "日"
            lines.append((body % (i, t), rng.choice(["\n", "\n", "\r\n"])))
            size += len((lines[-1][0] + lines[-1][1]).encode())
    elif kind == "long":
        # many lines: more than any small cache or count
        lines = [('{"id": %d, "t": "%s"}' % (i, "é" * (i % 3)), "\n") for i in range(rng.choice([1500, 3000]))]
    elif kind == "huge":
        # line ends around multiples of 2^16 .. 2^20 bytes
        lines, size, step = [], 0, rng.choice([1 << 16, 1 << 18, 1 << 20])
        top = 5 * step if step > 1 << 17 else 12 * step
        while size < top:
            mark = (size // step + 1) * step
            want = mark + rng.choice([-2, -1, 0, 1, 2]) - size
            want = want if want > 40 else rng.randint(40, 5000)
            for w in ([want // 2, want - want // 2] if want > 100 and rng.random() < 0.5 else [want]):
                eol = rng.choice(["\n", "\n", "\r\n"])
                body = '{"i":%d,"t":"%s"}' % (len(lines), "%s")
                pad = max(0, w - len(body % "") - len(eol))
                t = ("é" * (pad // 2) + "x" * (pad % 2)) if rng.random() < 0.5 else "x" * pad
                lines.append((body % t, eol))
                size += len((lines[-1][0] + eol).encode())
    elif kind == "uniform":
        lines = [('{"id": %06d, "text": "abc"}'.replace("%06d", '"%06d"') % i, "\n") for i in range(n)]
    elif kind == "dicts":
        lines = [(json.dumps({"id": i, "text": "t%d" % i}), "\n") for i in range(n)]
    else:
        lines = [(line(rng, i, kind == "big"), "\n") for i in range(n)]
    if kind == "same":
        lines = [(rng.choice(lines)[0], "\n") for _ in lines]
    if kind == "crlf":
        lines = [(t, rng.choice(["\r\n", "\n"])) for t, _ in lines]
    if kind == "blank":
        for _ in range(rng.randint(1, 3)):
            lines.insert(rng.randint(0, len(lines) - 1), (rng.choice(["", " "]), "\n"))
    if rng.random() < 0.4:
        t = lines[-1][0]
        if t.strip():
            lines[-1] = (t, "")
    return [list(z) for z in lines]


def expr(rng, n, bad=0.12):
    """An index expression for n entries."""
    def pos():
        x = rng.random()
        if x < bad / 3:
            return rng.choice([n, n + 1, -n - 1, n + 100, -n - 5])
        if x < 0.3:
            return rng.randint(-n, -1)
        return rng.randint(0, n - 1)
    k = rng.choice(["item", "item", "slice", "list", "tuple", "array", "array"])
    if k == "item":
        x = rng.random()
        i = rng.choice([n, -n - 1, n + 7]) if x < bad else rng.choice([0, n - 1, -1, -n]) if x < 0.4 else pos()
        return dict(kind="list", form="item", ids=[i])
    if k == "slice":
        v = lambda lo, hi: [] if rng.random() < 0.3 else [rng.randint(lo, hi)]
        s = [] if rng.random() < 0.4 else [rng.choice([1, 2, 3, -1, -2, -3, n + 1, 0 if rng.random() < bad else 5])]
        return dict(kind="slice", form="list", a=v(-n - 3, n + 3), b=v(-n - 3, n + 3), s=s)
    if k in ("list", "tuple"):
        return dict(kind="list", form="list", tuple=k == "tuple", ids=[pos() for _ in range(rng.choice([0, 1, 2, 3, 8]))])
    shape = rng.choice([[1], [3], [5], [2, 3], [1, 4], [3, 1], [2, 2, 2], [0], [2, 0], [], [1, 1, 1], [4, 2]])
    size = 1
    for z in shape:
        size *= z
    ids = [pos() for _ in range(size)]
    dtype = rng.choice(["int64", "int32", "int64", "int16"])
    if ids and min(ids) >= 0:
        dtype = rng.choice([dtype, "uint32", "uint64"])
    return dict(kind="list", form="array", ids=ids, shape=shape, dtype=dtype, layout=rng.choice(["C", "F", "strided"]))


def histories(chk, num):
    rc, out = chk.tlc("JsonlIndex", "JsonlIndexEmit", workers=1, timeout=300,
                      args=["-simulate", f"num={num}", "-depth", "17", "-seed", str(chk.seed)])
    last = {}
    for h in chk.prints(out, "CASE"):
        last[str(h[:-1])] = h
    chk.extra["histories_from_model"] = len(last)
    if len(last) < 0.8 * num:
        from core import MachineryError
        raise MachineryError(f"only {len(last)} histories\n" + out[-1000:])
    return list(last.values())


def c11_case(g, h, chk, i):
    rng = g.rng
    paths = dict(zip("abc", rng.sample(NAMES, 3) if i % 3 else rng.sample(["a.jsonl", "a.json", "a", "a.jsonl.jsonl", "a.txt", "a.b"], 3)))
    ev, n, of = [], {}, {}
    enc = "latin-1" if i % 17 == 5 else None
    for a in h:
        op = a["op"]
        if op == "write":
            lines = content(rng, chk.thorough)
            if enc:
                lines = [[t.encode("latin-1", "ignore").decode("latin-1"), e] for t, e in lines]
                lines = [l for l in lines if l[0].strip()] or [["1", "\n"]]
            n[a["path"]] = len(lines)
            x = dict(lines=lines)
            if enc:
                x["encoding"] = enc
            ev.append(dict(op="write", path=a["path"], x=x))
            if rng.random() < 0.6:
                ev.append(dict(op="offsets", path=a["path"], x=dict(encoding=enc) if enc else {}))
        elif op == "open":
            of[a["o"]] = a["path"]
            x = dict(save=a["save"], pathlib=rng.random() < 0.3)
            if enc:
                x["encoding"] = enc
            ev.append(dict(op="open", o="o%d" % a["o"], path=a["path"], x=x))
            ev.append(dict(op="get", o="o%d" % a["o"], expr=dict(kind="slice", form="list", a=[], b=[], s=[])))
        elif op in ("close", "reload"):
            ev.append(dict(op=op, o="o%d" % a["o"]))
        elif op == "get":
            for _ in range(rng.choice([1, 3, 6])):
                ev.append(dict(op="get", o="o%d" % a["o"], expr=expr(rng, n[of[a["o"]]])))
            if rng.random() < 0.2:
                ev.append(dict(op="len", o="o%d" % a["o"]))
    return dict(ev=ev, x=dict(paths=paths), tag="history")


def C11(chk):
    chk.assumptions += ["lines end with \\n or \\r\\n; a file is not empty and not rewritten behind a stored index"]
    chk.model_check("JsonlIndex", chk.scale("JsonlIndex", "JsonlIndexDeep"))
    chk.model_check("JsonlIndex", "JsonlIndexBad", expect_violation="EveryLine")
    g = G(chk.seed * 1000 + 11)
    hs = [h for h in histories(chk, chk.scale(200, 1500)) if any(a["op"] == "write" for a in h)]
    cases = [c11_case(g, h, chk, i) for i, h in enumerate(hs)]
    # all the expressions on one file
    for i in range(chk.scale(60, 600)):
        lines = content(g.rng, chk.thorough)
        ev = [dict(op="write", path="a", x=dict(lines=lines)), dict(op="offsets", path="a", x={}),
              dict(op="open", o="o1", path="a", x=dict(save=bool(i % 2))), dict(op="len", o="o1")]
        ev += [dict(op="get", o="o1", expr=expr(g.rng, len(lines))) for _ in range(25)]
        if i % 4 == 0:
            ev += [dict(op="open", o="o2", path="a", x=dict(save=True)), dict(op="close", o="o1")]
            ev += [dict(op="get", o=o, expr=expr(g.rng, len(lines))) for o in ("o1", "o2") for _ in range(5)]
        cases.append(dict(ev=ev, x=dict(paths=dict(a="f.jsonl")), tag="expressions"))
    for i in range(chk.scale(6, 60)):
        lines = content(g.rng, chk.thorough, ["long", "huge", "huge"][i % 3])
        n = len(lines)
        ev = [dict(op="write", path="a", x=dict(lines=lines)), dict(op="offsets", path="a", x={}),
              dict(op="open", o="o1", path="a", x=dict(save=bool(i % 2)))]
        for _ in range(4):
            ids = [g.rng.randint(0, n - 1) for _ in range(3)] + [n - 1]
            ev += [dict(op="get", o="o1", expr=dict(kind="list", form=f, ids=[z])) for z in ids for f in ("item", "item", "list")]
            ev.append(dict(op="get", o="o1", expr=dict(kind="slice", form="list", a=[n - 7], b=[], s=[])))
            ev.append(dict(op=g.rng.choice(["close", "reload"]), o="o1"))
        ev.append(dict(op="get", o="o1", expr=dict(kind="slice", form="list", a=[], b=[], s=[])))
        cases.append(dict(ev=ev, x=dict(paths=dict(a="f.jsonl")), tag="large file"))
    for lib, env in (("orjson", {}), ("builtin", {"NO_ORJSON": "1"})):
        part = cases[::2] if lib == "orjson" else cases[1::2]
        chk.judge("JsonlTrace", part, "exec_jsonl", env=env, cls=lambda c, e: f"{lib} {c['tag']} {e['op']} {e.get('expr', {}).get('form', '')}")


def C12(chk):
    chk.assumptions += ["threads switch between byte codes of the library (the interpreter lock); calls into C are atomic"]
    chk.model_check("JsonlReaders", chk.scale("JsonlReaders", "JsonlReadersDeep"))
    chk.model_check("JsonlReaders", "JsonlReadersBad", expect_violation="RightLine")
    rc, out = chk.tlc("JsonlReaders", "JsonlReadersEmit", workers=1)
    scheds = chk.prints(out, "CASE")
    if len(scheds) != 70:
        from core import MachineryError
        raise MachineryError(f"{len(scheds)} schedules instead of 70")
    chk.extra["schedules_from_model"] = len(scheds)
    g = G(chk.seed * 1000 + 12)
    rng = g.rng
    cases = []
    for i in range(chk.scale(24, 120)):
        kind = ["dicts", "mixed", "boundary", "uniform", "big", "crlf"][i % 6]
        lines = [l for l in content(rng, chk.thorough, kind)]
        while len(lines) < 3:
            lines = content(rng, chk.thorough, kind)
        n = len(lines)
        ev = [dict(op="write", path="a", x=dict(lines=lines)), dict(op="open", o="o1", path="a", x=dict(save=bool(i % 2)))]
        if i % 8 == 7:
            ev.append(dict(op="close", o="o1"))
        if i % 8 == 6:
            ev += [dict(op="close", o="o1"), dict(op="reload", o="o1")]
        if i % 4 != 3:
            two = rng.sample(range(n), 2)
            reads = [[dict(kind="list", form="item", ids=[two[0]])], [dict(kind="list", form="item", ids=[two[1]])]]
            if i % 4 == 2:
                reads = [[expr(rng, n, 0)] for _ in range(2)]
                for r in reads[0] + reads[1]:
                    if "ids" in r and len(r["ids"]) > 4:
                        r.update(form="list", ids=r["ids"][:3])
        else:
            reads = [[dict(kind="list", form="item", ids=[rng.randint(-n, n - 1)]) for _ in range(2)] for _ in range(3)]
        ev.append(dict(op="concurrent", o="o1", reads=reads, x=dict(
            seed=chk.seed * 100 + i, opcodes=i % 5 != 4, schedules=scheds if len(reads) == 2 else [], max_one=chk.scale(400, 5000),
            random=chk.scale(150, 3000), free=chk.scale(30, 300), budget=chk.scale(8, 60))))
        ev.append(dict(op="get", o="o1", expr=dict(kind="slice", form="list", a=[], b=[], s=[])))
        cases.append(dict(ev=ev, x=dict(paths=dict(a="c.jsonl")), tag=f"readers {len(reads)}"))
    obs = chk.judge("JsonlTrace", cases, "exec_jsonl", cls=lambda c, e: f"{c['tag']} {e['op']}", case_timeout=200)
    runs = [e["dbg"] for o in obs for e in o if "dbg" in e]
    chk.extra.update(interleavings_executed=sum(r["runs"] for r in runs), interleavings_planned=sum(r["plans"] for r in runs),
                     blocked_switches=sum(r["stalls"] for r in runs))
    if runs:
        chk.sample(runs[0])
