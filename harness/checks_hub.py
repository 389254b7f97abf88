"""C22: the hub integration."""
from gen import G

WORDS = ["cat", "dog", "fish", "été", "日本", "bird", "running", "runs", "the", "and"]
FOREIGN = ["notes.txt", "sub/data.bin", "README.rst", ".gitattributes", "sub/.hidden"]


def histories(chk, num):
    rc, out = chk.tlc("Hub", "HubEmit", workers=1, timeout=300, args=["-simulate", f"num={num}", "-depth", "9", "-seed", str(chk.seed)])
    last = {}
    for h in chk.prints(out, "CASE"):
        last[str(h[:-1])] = h
    if len(last) < 0.8 * num:
        from core import MachineryError
        raise MachineryError(f"only {len(last)} histories\n" + out[-1000:])
    chk.extra["histories_from_model"] = len(last)
    return list(last.values())


def make(g, h):
    rng = g.rng
    objs, facts = [], []
    for i in range(3):
        n = rng.choice([1, 2, 4, 7])
        docs = [" ".join(rng.choice(WORDS) for _ in range(rng.randint(1, 5))) for _ in range(n)]
        m = rng.choice(["lucene", "robertson", "atire", "bm25l", "bm25+"])
        kw = rng.choice([{}, dict(method=m, k1=rng.choice([1.2, 2.0]), b=rng.choice([0.5, 1.0]))])
        objs.append(dict(docs=docs, kw=kw, corpus=0))
        facts.append([str(n), str(kw.get("k1", 1.5)), str(kw.get("b", 0.75)), kw.get("method", "lucene")])
    corpora = []
    for i in range(3):
        n = rng.choice([1, 4, 7])
        k = rng.choice(["str", "dict", "mix", "list"])
        items = []
        for j in range(n):
            t = " ".join(rng.choice(WORDS + ["\n", '"', "\u2028", "🙂"]) for _ in range(3)) + str(i)
            items.append(t if k == "str" or (k == "mix" and j % 2) else [t, j] if k == "list" else dict(id=str(j), text=t, n=j))
        corpora.append(items)
    for o in objs:
        if rng.random() < 0.3:
            fit = [i for i, z in enumerate(corpora, 1) if len(z) >= len(o["docs"])]
            o["corpus"] = rng.choice(fit) if fit else 0
    toks = [dict(texts=[" ".join(rng.choice(WORDS) for _ in range(4)) for _ in range(i + 1)], stop=rng.sample(WORDS, i + 1)) for i in range(3)]
    repos = rng.choice([["u/r"], ["u/r", "bare"], ["org/with-dash.and_dot"]])
    dirs = ["d", "e"]
    ev = []

    def clear(d):
        ev.append(dict(op="clear", dir=d, x=dict(files={n: "foreign " + n for n in rng.sample(FOREIGN, rng.randint(1, 3))} if rng.random() < 0.6 else {},
                                                 mkdir=rng.random() < 0.5)))
    for d in dirs:
        clear(d)
    private = {}
    last = []
    for a in h:
        repo = rng.choice(repos)
        canonical = repo if "/" in repo else "me/" + repo
        if a["op"] == "clear":
            clear(rng.choice(dirs))
        elif a["op"] == "upload":
            fails = "no" if not a["fails"] else rng.choice(["early", "upload"])
            n = rng.randint(1, 3)
            want = rng.choice([None, None, True, False])
            corpus = 0
            if a["kind"] == "index":
                fit = [i for i, z in enumerate(corpora, 1) if len(z) >= len(objs[n - 1]["docs"])]
                corpus = rng.choice(fit) if a["corpus"] and fit else 0
            if canonical not in private:
                if fails != "early":
                    private[canonical] = True if want is None else want
            d = rng.choice(dirs) if a["given"] else ""
            ev.append(dict(op="upload", kind=a["kind"], n=n, corpus=(corpus or objs[n - 1]["corpus"]) if a["kind"] == "index" else 0, readme=a["readme"],
                           dir=d, over=a["over"], fails=fails, repo=repo, canonical=canonical, private=private.get(canonical, True),
                           x=dict(corpus=corpus, defaults=rng.random() < 0.5, private=want, login=rng.random() < 0.4, message=rng.choice(["", "", "version 2", "é"]), why=rng.choice(["down", "token"]))))
            if fails == "no":
                last.append((repo, canonical, a["kind"]))
                if rng.random() < 0.6:
                    for _ in range(2):
                        load(rng, ev, repo, canonical, a["kind"], "" if rng.random() < 0.7 else rng.choice(dirs))
                for k in ("index", "vocab", "stop"):
                    if rng.random() < 0.25:
                        load(rng, ev, repo, canonical, k, "" if rng.random() < 0.7 else rng.choice(dirs), rev=True,
                             n=len([z for z in last if z[0] == repo]))
        elif last:
            repo, canonical, kind = rng.choice(last)
            load(rng, ev, repo, canonical, rng.choice([kind, rng.choice(["index", "vocab", "stop"])]), rng.choice(dirs) if a["given"] else "",
                 rev=last and rng.random() < 0.3, n=len([z for z in last if z[0] == repo]), fails=rng.random() < 0.1)
    return dict(ev=ev, facts=facts, foreign=FOREIGN, x=dict(objs=objs, corpora=corpora, toks=toks, stemmer=rng.random() < 0.4), tag="history")


def load(rng, ev, repo, canonical, kind, d, rev=False, n=0, fails=False):
    ev.append(dict(op="load", kind=kind, repo=repo, canonical=canonical, rev=rng.randint(1, n) if rev else 0, dir=d, fails="early" if fails else "no",
                   loadcorpus=rng.random() < 0.6, x=dict(mmap=rng.random() < 0.4, login=rng.random() < 0.4, main=rng.random() < 0.3)))


def C22(chk):
    chk.assumptions += ["the hub merges an uploaded folder into the repository and returns snapshots of it (HfApi replaced by a local stand-in)",
                        "a corpus that is left in a directory or repository by an earlier upload stays there (files are only added or replaced)",
                        "corpora are not shorter than the index they are uploaded with"]
    chk.model_check("Hub", "HubDeep" if chk.thorough else "Hub")
    chk.model_check("Hub", "HubBadTemp", expect_violation="NoTemporary")
    chk.model_check("Hub", "HubBadGuard", expect_violation="LocalSpared")
    g = G(chk.seed * 1000 + 22)
    cases = [make(g, h) for h in histories(chk, chk.scale(240, 2000))]
    ascii_env = {"LC_ALL": "C", "PYTHONCOERCECLOCALE": "0", "PYTHONUTF8": "0"}
    envs = [("orjson", {}), ("builtin", {"NO_ORJSON": "1"}), ("ascii locale", ascii_env)]
    for i, (name, env) in enumerate(envs):
        chk.judge("HubTrace", cases[i::3], "exec_hub", env=env, cls=lambda c, e: f"{name} {e['op']} {e.get('kind', '')}")
