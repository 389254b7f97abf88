"""C13, C14, C15, C17: the tokenizer class."""
import json
from gen import G

ENGLISH = ["running", "runs", "run", "runner", "connect", "connected", "connection", "connections", "happy", "happiness", "happily",
           "cats", "cat", "flies", "fly", "relational", "relate", "sky", "skies", "dying", "generous", "generously", "organ", "organization"]
LETTERS = ["naïve", "straße", "été", "日本", "東京都", "слово", "слова", "λόγος", "word_1", "x86", "007", "ab", "abc", "ñandú", "co2", "über", "ijsselmeer"]
WEIRD = ["naïve", '"q"', "\\", "\u2028", "\u0085", "\x00", "a b", "line\nbreak", "\t", "'", "{}", "[]", "null", "0", "-1", "\U0001f600", "e\u0301",
         "é", "ﬁ", "İ", "ß", "A", "a", "\ufeff", "\x7f", "\x1e", "日本", "\\u0041", "\r", "\r\n", " ", "true", "__proto__", "\ufffd", "%s", "</s>"]
STOPEN = ["the", "and", "of", "is", "with"]
SEPS = [" ", ", ", " - ", "\n", "\t", ". ", "/", " (", ") ", "; ", "  "]
NOISE = ["a", "x", "7", "!", "é", "..."]


class World:
    """A table of strings, a stemmer, a splitter, stopwords; makes texts with known words."""

    def __init__(self, g, kind=None, stemmer=None):
        rng = self.rng = g.rng
        self.kind = kind = kind or rng.choice(["default", "default", "word", "nonspace", "sep", "iter"])
        self.stemmer = stemmer = stemmer if stemmer is not None else rng.choice(["none", "call", "object", "pystemmer"])
        n = rng.choice([3, 5, 8, 14])
        named = False
        if kind == "sep":
            words = rng.sample(WEIRD, min(n, len(WEIRD)))
        elif stemmer == "pystemmer":
            words = rng.sample(ENGLISH, n)
        else:
            words = rng.sample(LETTERS + ENGLISH, n)
        self.stop = sorted(rng.sample(range(1, n + 1), rng.choice([0, 0, 1, 2])))
        if kind in ("default", "iter", "word") and rng.random() < 0.3:
            named = True
            words += STOPEN[:3]
            self.stop = [n + 1, n + 2, n + 3]
        if kind == "sep" and rng.random() < 0.3:
            self.stop = [0] + self.stop
        self.S = [""] + words
        self.words = list(range(1, len(self.S)))
        self.stem = list(range(len(self.S)))
        if stemmer in ("call", "object"):
            for w in self.words:
                r = rng.random()
                if r < 0.35:
                    self.stem[w] = rng.choice(self.words)
                elif r < 0.5:
                    self.S.append("stem%d" % w)
                    self.stem[w] = len(self.S) - 1
                elif r < 0.6:
                    self.stem[w] = 0
            self.stem += list(range(len(self.stem), len(self.S)))
        elif stemmer == "pystemmer":
            import Stemmer
            st = Stemmer.Stemmer("english")
            for w in self.words:
                s = st.stemWord(self.S[w])
                if s not in self.S:
                    self.S.append(s)
                self.stem[w] = self.S.index(s)
            self.stem += list(range(len(self.stem), len(self.S)))
        self.lower = kind != "sep" and rng.random() < 0.8
        sp = dict(default=dict(kind="default"), word=dict(kind="regex", pattern=r"\w+"), nonspace=dict(kind="regex", pattern=r"\S+"),
                  sep=dict(kind="sep", sep="\x1f"), iter=dict(kind="iter"))[kind]
        self.named = named
        self.x = dict(strings=self.S, lower=self.lower, splitter=sp, stemmer=stemmer, named=named)
        self.stop_arg = "en" if named else (None if not self.stop and rng.random() < 0.5 else [self.S[w] for w in self.stop])

    def text(self, words):
        rng = self.rng
        if self.kind == "sep":
            return "\x1f".join(self.S[w] for w in words)
        out = []
        for w in words:
            s = self.S[w]
            if self.lower and rng.random() < 0.3:
                for v in (s.upper(), s.title()):
                    if v.lower() == s and rng.random() < 0.6:
                        s = v
            if self.lower and self.kind == "default" and rng.random() < 0.06:
                s = "\u0130" + s  # its lower case is an i, which is no word, and a dot, which ends it
            out.append(s)
        if self.kind in ("nonspace", "iter"):
            return rng.choice(["", " "]) + "".join(z + rng.choice([" ", "\n", "  ", "\t"]) for z in out)
        t = rng.choice(["", " ", "- "])
        for z in out:
            t += z + rng.choice(SEPS)
            if self.kind == "default" and rng.random() < 0.2:
                t += rng.choice(NOISE) + " "
        if not out and self.kind == "default" and rng.random() < 0.5:
            t = rng.choice(["a", "! ?", " ", "x y z"])
        return t

    def doc(self, pool=None):
        rng = self.rng
        pool = pool or self.words
        n = rng.choice([0, 1, 1, 2, 3, 6])
        d = [rng.choice(pool) for _ in range(n)]
        if self.stop and rng.random() < 0.15:
            d = [rng.choice(self.stop) for _ in range(max(1, n))]
        if self.kind == "sep" and len(d) > 1 and rng.random() < 0.2:
            d[rng.randrange(len(d))] = 0
        if self.kind == "sep" and len(d) == 1 and d[0] == 0:
            d = []
        return d

    def docs(self, n=None, pool=None):
        ds = [self.doc(pool) for _ in range(self.rng.choice([0, 1, 1, 2, 3, 5]) if n is None else n)]
        return ds, [self.text(d) for d in ds]

    def pool(self):
        """Often only a part of the words, so that unseen words remain."""
        k = self.rng.randint(1, len(self.words))
        return self.rng.sample(self.words, k) if self.rng.random() < 0.6 else None


class Play:
    def __init__(self, g, tag, **kw):
        self.g, self.rng = g, g.rng
        self.w = World(g, **kw)
        self.ev = []
        self.tag = tag
        self.n = 0
        self.kept = []
        self.new("t")

    def add(self, **e):
        e.setdefault("x", {})
        self.ev.append(e)

    def new(self, o, stop=True):
        w = self.w
        if stop == "other":
            other = self.rng.sample(w.words, min(len(w.words), self.rng.choice([1, 1, 2])))
            return self.add(op="new", o=o, stop=other, x=dict(stop=[w.S[z] for z in other]))
        self.add(op="new", o=o, stop=w.stop if stop else [], x=dict(stop=w.stop_arg if stop else None))

    def call(self, form=None, n=None, mode=None, allow=None):
        rng = self.rng
        ds, ts = self.w.docs(n, self.w.pool())
        mode = mode or rng.choice(["on", "on", "off", "never", "if_empty"])
        allow = rng.random() < 0.7 if allow is None else allow
        x = dict(texts=ts, form=form or rng.choice(["ids", "ids", "string", "tuple", "stream"]), gen=rng.random() < 0.15)
        if mode == "if_empty" and rng.random() < 0.5:
            x["default"] = "mode"
        elif allow and rng.random() < 0.2:
            x["default"] = "allow"
        return dict(texts=ds, mode=mode, allow=allow, x=x)

    def tokenize(self, o="t", **kw):
        c = self.call(**kw)
        c["keep"] = ""
        if c["x"]["form"] == "tuple":
            c["keep"] = "r%d" % len(self.kept)
            self.kept.append(c["keep"])
        self.add(op="tokenize", o=o, **c)
        if self.kept and self.rng.random() < 0.1:
            self.add(op="old", r=self.rng.choice(self.kept))

    def open(self, s, o="t", mode=None, allow=None):
        c = self.call(form="stream", n=self.rng.choice([0, 1, 2, 3, 4]), mode=mode, allow=allow)
        if c["mode"] != "if_empty":
            c["x"]["direct"] = self.rng.random() < 0.5
            c["x"].pop("default", None)
        self.add(op="open", o=o, s=s, **c)

    def forms(self, o="t"):
        c = self.call(form="ids")
        c["x"].pop("default", None)
        self.add(op="forms", o=o, **c)

    def refused(self, o="t"):
        ds, ts = self.w.docs()
        kw = self.rng.choice([dict(update_vocab="bogus"), dict(update_vocab="always"), dict(update_vocab=None), dict(update_vocab="True"),
                              dict(return_as="bogus"), dict(return_as="list"), dict(return_as=None), dict(return_as="strings", update_vocab=True),
                              dict(update_vocab="no", return_as="stream"), dict(update_vocab=2, return_as="tuple")])
        self.add(op="refused", o=o, x=dict(texts=ts, kw=kw))

    def case(self):
        for r in self.kept[:6]:
            self.add(op="old", r=r)
        return dict(ev=self.ev, stem=self.w.stem, x=self.w.x, tag=f"{self.tag}/{self.w.stemmer}/{self.w.kind}")


def histories(chk, num):
    rc, out = chk.tlc("Tokenizer", "TokenizerEmit", workers=1, timeout=300,
                      args=["-simulate", f"num={num}", "-depth", "15", "-seed", str(chk.seed)])
    last = {}
    for h in chk.prints(out, "CASE"):
        last[str(h[:-1])] = h
    chk.extra["histories_from_model"] = chk.extra.get("histories_from_model", 0) + len(last)
    if len(last) < 0.8 * num:
        from core import MachineryError
        raise MachineryError(f"only {len(last)} histories\n" + out[-1000:])
    return list(last.values())


def play(g, h, tag, extra=True):
    p = Play(g, tag)
    rng = p.rng
    streams = 0
    for a in h:
        op = a["op"]
        if extra and rng.random() < 0.12:
            p.forms()
        if extra and rng.random() < 0.06:
            p.refused()
        if op == "tokenize":
            p.tokenize(mode=a["mode"], allow=a["allow"])
        elif op == "open":
            streams += 1
            p.open("s%d" % streams, mode=a["mode"], allow=a["allow"])
        elif op == "next":
            p.add(op="next", s="s%d" % a["s"])
            if rng.random() < 0.3:
                p.add(op="next", s="s%d" % a["s"])
        elif op == "reset":
            p.add(op="reset", o="t")
        elif op == "save":
            p.add(op="save", o="t", dir="d")
        elif op == "load":
            p.add(op="load", o="t", dir="d", vocab=True, stopwords=rng.random() < 0.5)
    return p.case()


def models(chk):
    chk.model_check("Tokenizer", "TokenizerPlain")
    chk.model_check("Tokenizer", "TokenizerSave")
    chk.model_check("Tokenizer", "TokenizerDeep")
    chk.model_check("Tokenizer", "TokenizerTexts")
    chk.model_check("Tokenizer", "TokenizerBadEmpty", expect_violation="VocabularyCoherent")
    chk.model_check("Tokenizer", "TokenizerBadCounter", expect_violation="VocabularyCoherent")


def judge(chk, cases, envs=None):
    envs = envs or [("", {})]
    for i, (name, env) in enumerate(envs):
        chk.judge("TokenizerTrace", cases[i::len(envs)], "exec_tok", env=env, cls=lambda c, e: f"{name} {c['tag']} {e['op']}".strip())


ASSUME = ["stemmers are functions of the word and leave the empty word empty",
          "stopwords change only by loading, and not while a stream is being consumed"]


def C13(chk):
    chk.assumptions += ASSUME
    models(chk)
    g = G(chk.seed * 1000 + 13)
    cases = [play(g, h, "history") for h in histories(chk, chk.scale(400, 4000))]
    # long histories without streams
    for i in range(chk.scale(60, 600)):
        p = Play(g, "long")
        for _ in range(25):
            r = p.rng.random()
            if r < 0.75:
                p.tokenize()
            elif r < 0.8:
                p.add(op="reset", o="t")
            elif r < 0.9:
                p.add(op="save", o="t", dir="d%d" % p.rng.randint(1, 2))
            elif any(e["op"] == "save" for e in p.ev):
                d = p.rng.choice([e["dir"] for e in p.ev if e["op"] == "save"])
                p.add(op="load", o="t", dir=d, vocab=True, stopwords=False)
        cases.append(p.case())
    # a vocabulary learned without stopwords
    for i in range(chk.scale(30, 300)):
        p = Play(g, "stopwords in the vocabulary")
        p.new("u", stop=p.rng.choice([False, "other"]))
        for _ in range(3):
            p.tokenize(o="u", mode="on")
        p.add(op="save", o="u", dir="d")
        p.add(op="load", o="t", dir="d", vocab=True, stopwords=False)
        for _ in range(6):
            p.tokenize()
        p.add(op="save", o="t", dir="e")
        p.add(op="load", o="u", dir="e", vocab=p.rng.random() < 0.5, stopwords=True)
        for _ in range(4):
            p.tokenize(o="u")
        cases.append(p.case())
    judge(chk, cases)


def C14(chk):
    chk.assumptions += ASSUME
    models(chk)
    g = G(chk.seed * 1000 + 14)
    cases = [play(g, h, "history") for h in histories(chk, chk.scale(250, 2500))]
    # every pair of modes and empty-handling, one after the other, after learning a part of the words
    import itertools
    for stemmer in ("none", "call", "object", "pystemmer"):
        for m1, a1, m2, a2 in itertools.product(("on", "off", "never", "if_empty"), (True, False), ("on", "off", "never", "if_empty"), (True, False)):
            for _ in range(chk.scale(1, 8)):
                p = Play(g, f"{m1}-{m2}", stemmer=stemmer)
                if p.rng.random() < 0.5:
                    p.tokenize(mode="on", allow=p.rng.random() < 0.5)
                p.tokenize(mode=m1, allow=a1)
                p.tokenize(mode=m2, allow=a2)
                if p.rng.random() < 0.3:
                    p.refused()
                p.tokenize()
                p.tokenize(mode=p.rng.choice(["off", "never", "if_empty"]))
                cases.append(p.case())
    judge(chk, cases)


def C15(chk):
    chk.assumptions += ASSUME
    models(chk)
    g = G(chk.seed * 1000 + 15)
    cases = [play(g, h, "history") for h in histories(chk, chk.scale(300, 3000))]
    for i in range(chk.scale(120, 1200)):
        p = Play(g, "streams")
        rng = p.rng
        live, n = [], 0
        if rng.random() < 0.5:
            p.tokenize(mode="on")
        for _ in range(rng.choice([15, 30])):
            r = rng.random()
            if r < 0.2 and n < 6:
                n += 1
                p.open("s%d" % n, mode=rng.choice(["on", "on", "on", "if_empty", "off", "never"]))
                live.append("s%d" % n)
            elif r < 0.8 and live:
                p.add(op="next", s=rng.choice(live))
            elif r < 0.9:
                p.tokenize()
            elif r < 0.95:
                p.forms()
            elif r < 0.97:
                p.add(op="reset", o="t")
            else:
                p.tokenize(mode="on", form="stream")
        for s in live:
            for _ in range(3):
                p.add(op="next", s=s)
        cases.append(p.case())
    for i in range(chk.scale(150, 1500)):
        p = Play(g, "forms")
        p.forms()
        p.tokenize()
        p.forms()
        p.tokenize()
        p.forms()
        cases.append(p.case())
    judge(chk, cases)


def C17(chk):
    chk.assumptions += ASSUME + ["strings are sequences of Unicode scalar values (no lone surrogates)"]
    chk.model_check("Tokenizer", "TokenizerSave")
    chk.model_check("Tokenizer", "TokenizerTexts")
    g = G(chk.seed * 1000 + 17)
    cases = [play(g, h, "history", extra=False) for h in histories(chk, chk.scale(120, 1500))]
    for i in range(chk.scale(300, 3000)):
        kind = ["sep", None, "sep", "default"][i % 4]
        p = Play(g, "reload", kind=kind)
        rng = p.rng
        names = {}
        if rng.random() < 0.3:
            names = dict(vn=dict(vocab_name="my vocab %s.json" % ("é" if i % 4 < 2 else "e")), sn=dict(stopwords_name="sw"))
        for _ in range(rng.choice([0, 1, 3, 6])):
            p.tokenize()
        withindex = rng.random() < 0.4 and kind != "sep"
        if withindex:
            ds, ts = p.w.docs(3)
            while not any(d for d in ds):
                ds, ts = p.w.docs(3)
            before = rng.random() < 0.5
            if before:
                p.add(op="index", o="t", dir="d", x=dict(what="save", texts=ts))
            p.add(op="save", o="t", dir="d", x=names)
            if not before:
                p.add(op="index", o="t", dir="d", x=dict(what="save", texts=ts))
        else:
            p.add(op="save", o="t", dir="d", x=names)
        p.new("u", stop=rng.choice([True, False, "other", "other"]))
        if rng.random() < 0.5:
            p.tokenize(o="u")
        p.add(op="load", o="u", dir="d", vocab=True, stopwords=True, x=names)
        if withindex:
            p.add(op="index", o="t", dir="d", x=dict(what="load"))
        steps = []
        for _ in range(6):
            c = p.call()
            c["x"]["gen"] = False
            steps.append(c)
        p.add(op="twin", a="t", b="u", x=dict(steps=steps))
        for _ in range(5):
            p.tokenize(o="u")
        if rng.random() < 0.5:
            # and once more, from the loaded one
            p.add(op="save", o="u", dir="d", x=names)
            p.new("v", stop=False)
            p.add(op="load", o="v", dir="d", vocab=True, stopwords=True, x=names)
            p.add(op="twin", a="u", b="v", x=dict(steps=steps[:2]))
            p.tokenize(o="v")
        cases.append(p.case())
    ascii_env = {"LC_ALL": "C", "PYTHONCOERCECLOCALE": "0", "PYTHONUTF8": "0"}
    judge(chk, cases, [("orjson", {}), ("builtin", {"NO_ORJSON": "1"}), ("orjson ascii locale", ascii_env),
                       ("builtin ascii locale", dict(ascii_env, NO_ORJSON="1"))])
