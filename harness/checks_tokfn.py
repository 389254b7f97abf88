"""C16: the one-shot tokenization function."""
from gen import G

GROUPS = [
    dict(names=["(default)", "True", "en", "english"], export="EN", core=["the", "and", "of", "is", "a", "to", "with"], never=["cat", "der", "und"]),
    dict(names=["en_plus", "english_plus"], export="EN_PLUS", core=["the", "and", "of", "above", "because", "herself"], never=["cat", "und"]),
    dict(names=["de", "german"], export="GERMAN", core=["der", "die", "das", "und", "nicht"], never=["Katze", "the", "les"]),
    dict(names=["nl", "dutch"], export="DUTCH", core=["de", "het", "een", "niet"], never=["kat", "the", "les"]),
    dict(names=["fr", "french"], export="FRENCH", core=["le", "la", "et", "les"], never=["chat", "the", "und"]),
    dict(names=["es", "spanish"], export="SPANISH", core=["el", "los", "que", "una"], never=["gato", "the", "und"]),
    dict(names=["pt", "portuguese"], export="PORTUGUESE", core=["o", "os", "que", "uma"], never=["gato", "the", "und"]),
    dict(names=["it", "italian"], export="ITALIAN", core=["il", "gli", "che", "una"], never=["gatto", "the", "und"]),
    dict(names=["ru", "russian"], export="RUSSIAN", core=["и", "в", "не", "что"], never=["кошка", "the", "und"]),
    dict(names=["sv", "swedish"], export="SWEDISH", core=["och", "det", "att", "inte"], never=["katt", "the", "und"]),
    dict(names=["no", "norwegian"], export="NORWEGIAN", core=["og", "det", "ikke", "jeg"], never=["katt", "the", "und"]),
    dict(names=["zh", "chinese"], export="CHINESE", core=["的", "一些", "如果"], never=["猫", "the", "und"]),
    dict(names=["None", "False"], export="", core=[], never=["the", "and", "der"]),
]
WORDS = ["The", "cat", "cats", "THE", "the", "running", "runs", "ab", "a", "I", "x86", "007", "snake_case", "_", "__", "naïve", "Straße", "ÉTÉ",
         "日本", "東京都", "猫", "слово", "ñandú", "İstanbul", "ﬁne", "e\u0301tude", "don't", "co-op", "3.14", "a1", "²³", "ǅ", "ÀÉ", "os", "s", "ss", "glass"]
SEPS = [" ", "  ", ", ", "-", "--", "'", ".", "\n", "\t", "/", "\u00a0", "\u200b", "\u3000", "|", "()", "", "\u0301", "\x00", "🙂", "\x1f", "\x85"]
ENGLISH = ["running", "runs", "run", "runner", "connect", "connected", "connection", "connections", "happy", "happiness", "cats", "cat", "flies",
           "fly", "relational", "relate", "sky", "skies", "dying", "generous", "generously", "organ", "organization", "the", "and", "of", "a"]
FRENCH = ["continuer", "continuation", "continues", "maison", "maisons", "chat", "chats", "été", "le", "la", "mangeait", "manger"]
PATTERNS = [(None, "word", 2, 0), (None, "word", 2, 0), (r"(?u)\b\w\w+\b", "word", 2, 0), (r"\w+", "word", 1, 0), (r"\S+", "nonspace", 1, 0),
            (r"\w", "word", 1, 1), (r"\w{3,}", "word", 3, 0), (r"\w{2,4}", "word", 2, 4), (r"[a-z]+", "az", 1, 0), (r"[^-]+", "nodash", 1, 0)]


def o(w):
    return [ord(z) for z in w]


def text(g, words, seps):
    rng = g.rng
    n = rng.choice([0, 1, 1, 2, 4, 8])
    t = rng.choice(["", "", " ", rng.choice(seps)])
    for i in range(n):
        t += rng.choice(words) + (rng.choice(seps) if i + 1 < n or rng.random() < 0.5 else "")
    return t


def table(s):
    cs = sorted(set(s))
    cs = sorted(set(cs) | set(z for ch in cs for z in ch.lower()))
    return [dict(c=ord(ch), word=ch.isalnum() or ch == "_", space=ch.isspace(), lower=o(ch.lower())) for ch in cs]


def case(g):
    rng = g.rng
    language = rng.choice(["english", "english", "french"])
    pys = rng.random() < 0.25
    words = (ENGLISH if language == "english" else FRENCH) if pys else WORDS + rng.sample(ENGLISH, 4)
    words = rng.sample(words, rng.randint(2, min(12, len(words))))
    seps = rng.sample(SEPS, rng.randint(1, 5)) if not pys else [" ", ", ", "\n"]
    stems = []
    if pys:
        import Stemmer
        st = Stemmer.Stemmer(language)
        for w in set(words) | set(z.title() for z in words):
            stems.append([o(w), o(st.stemWord(w))])
    ev, chars = [], set("|x")
    for _ in range(rng.choice([4, 8])):
        pat, cls, mn, mx = rng.choice(PATTERNS[:5] if pys else PATTERNS)
        single = rng.random() < 0.15
        texts = [text(g, words, seps) for _ in range(1 if single else rng.choice([0, 1, 2, 3, 6]))]
        if pys and rng.random() < 0.3:
            texts = [t.title() for t in texts]
        lower = rng.random() < 0.7
        k = rng.choice([0, 0, 1, 3])
        stop = [rng.choice([w, w.lower()]) for w in rng.sample(words, min(k, len(words)))]
        if rng.random() < 0.1:
            stop.append("zzz")
        stoptype = rng.choice(["list", "tuple", "set"])
        # (a title or accent may be split by the pattern: a stem of a fragment is outside the table)
        stem = "table" if pys and pat is not None and cls == "nonspace" and seps == [" "] else (
            "table" if pys and cls == "word" else rng.choice(["none", "none", "prefix3", "plural", "one"]))
        arg = stop
        if not stop and rng.random() < 0.4:
            arg, stoptype = rng.choice([None, False]), "raw"
        ev.append(dict(op="call", texts=[o(t) for t in texts], lower=lower, cls=cls, min=mn, max=mx, stop=[o(w) for w in stop], stem=stem,
                       x=dict(single=single, stop=arg, stoptype=stoptype, pattern=pat, defaults=rng.random() < 0.5, stemmer=rng.choice(["list", "batch", "both"]),
                              allow=rng.random() < 0.75)))
        chars |= set("".join(texts))
    return dict(ev=ev, chars=table(chars), stems=stems, x=dict(language=language), tag="calls" + ("/pystemmer" if pys else ""))


def C16(chk):
    chk.assumptions += ["stemmers leave the empty word empty", "lower-casing of a character does not depend on its context (texts hold no capital sigma)",
                        "\\w is str.isalnum() or underscore, whitespace is str.isspace(), as documented for re",
                        "what becomes of a text without any word is not part of the property (the documentation and the code of allow_empty disagree)"]
    chk.model_check("MCTokenizeFn", "MCTokenizeFn")
    chk.model_check("MCTokenizeFn", "MCTokenizeFnDeep")
    chk.model_check("MCTokenizeFn", "MCTokenizeFnBad", expect_violation="SameTokens")
    g = G(chk.seed * 1000 + 16)
    cases = [case(g) for _ in range(chk.scale(500, 6000))]
    cases += [dict(ev=[dict(op="names", groups=[gr], x={})], chars=[], stems=[], x={}, tag="names " + "/".join(gr["names"])) for gr in GROUPS]
    refused = [dict(what=w, kw=kw) for w in ("class", "function") for kw in
               (dict(stopwords="klingon"), dict(stopwords="English "), dict(stopwords=""), dict(stemmer=5), dict(stemmer="english"))]
    refused += [dict(what="class", kw=dict(splitter=5))]
    cases += [dict(ev=[dict(op="refused", x=z)], chars=[], stems=[], x={}, tag="refused") for z in refused]
    chk.judge("TokenizeFnTrace", cases, "exec_tokfn", cls=lambda c, e: f"{c['tag']} {e.get('cls', '')} {e.get('stem', '')}")
